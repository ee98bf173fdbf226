// Small Mersenne twisters with the jump threshold lowered, so that every discard length
// exercises the polynomial jump. The parameter sets differ from those of every other file.
#define BOOST_RANDOM_MERSENNE_TWISTER_DISCARD_THRESHOLD 20
#define MT_SMALL
#include "eng_mt.cpp"
