// Maximal-period parameter sets found by search (the minimal polynomial of the low bit has
// degree w*n-r, a Mersenne exponent, and is irreducible).
void reg_mtsmall(Registry& r) {
    mt<uint32_t, 32, 3, 2, 7, 2203808665u, 11, 0xffffffff, 7, 0x9d2c5680, 15, 0xefc60000, 18, 1812433253>(r, "mt_32_3_89", false);
    mt<uint16_t, 16, 6, 3, 7, 52348, 5, 0xffff, 3, 0x5680, 7, 0x6fc0, 9, 24521>(r, "mt_16_6_89", false);
    mt<uint32_t, 32, 4, 3, 1, 2841247395u, 12, 0xffff5fff, 7, 0x31b6ab00, 15, 0xffe50000, 17, 1812433253>(r, "mt_32_4_127", false);
    mt<uint32_t, 32, 4, 3, 21, 2766229848u, 11, 0x7fffffff, 8, 0x9d2c5600, 14, 0xefc64000, 18, 69069>(r, "mt_32_4_107", false);
    mt<uint32_t, 32, 17, 15, 23, 4013743021u, 11, 0xffffffff, 7, 0x9d2c5680, 15, 0xefc60000, 18, 1812433253>(r, "mt_32_17_521", false);
    mt<uint64_t, 64, 9, 4, 55, 10264192396926172977ull, 29, 0x5555555555555555ull, 17, 0x71d67fffeda60000ull, 37, 0xfff7eee000000000ull, 43, 6364136223846793005ull>(r, "mt_64_9_521", false);
    mt<uint32_t, 31, 20, 16, 13, 1748490653u, 11, 0x7fffffff, 7, 0x1d2c5680, 15, 0x6fc60000, 18, 1812433253>(r, "mt_31_20_607", false);
    mt<uint32_t, 24, 26, 4, 17, 13381712u, 9, 0xffffff, 6, 0x2c5680, 11, 0xc60000, 13, 1812433253>(r, "mt_24_26_607", false);
    mt<uint16_t, 8, 12, 5, 7, 212, 3, 0xff, 2, 0x6c, 4, 0xb0, 5, 77>(r, "mt_8_12_89", false);
    mt<uint64_t, 13, 10, 9, 3, 7161, 5, 0x1fff, 3, 0x15a8, 6, 0x1bc0, 7, 5653>(r, "mt_13_10_127", false);
}
