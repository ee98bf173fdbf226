#define SHARD 2
#define FN shard2
#include "e08_shard.inc"
