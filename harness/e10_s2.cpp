#define SHARD 2
#define FN cong2
#include "e10_shard.inc"
