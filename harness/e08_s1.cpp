#define SHARD 1
#define FN shard1
#include "e08_shard.inc"
