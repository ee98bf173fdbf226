#define SHARD 0
#define FN shard0
#include "e08_shard.inc"
