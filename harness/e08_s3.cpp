#define SHARD 3
#define FN shard3
#include "e08_shard.inc"
