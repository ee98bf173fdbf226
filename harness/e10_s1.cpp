#define SHARD 1
#define FN cong1
#include "e10_shard.inc"
