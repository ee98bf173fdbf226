#define SHARD 0
#define FN cong0
#include "e10_shard.inc"
