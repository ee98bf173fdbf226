#define SHARD 3
#define FN cong3
#include "e10_shard.inc"
