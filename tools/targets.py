ENGINES = ["eng_lcg.cpp", "eng_lcg2.cpp", "eng_cong.cpp", "eng_mt.cpp", "eng_mtsmall.cpp", "eng_swc.cpp", "eng_ranlux.cpp", "eng_lf.cpp", "eng_lf2.cpp",
           "eng_misc.cpp", "eng_adapt.cpp", "eng_ibits.cpp", "eng_common.cpp", "model.cpp"]
DISTS = ["dist_%s.cpp" % x for x in ["a1", "a2", "a3", "b1", "b2", "c1", "c2", "d1", "d2", "e1", "e2", "u", "w1", "w2", "w3", "list", "gen", "oracle"]]
QENG = ["qeng.cpp", "qeng_sobol.cpp", "qeng_nied.cpp", "qeng_faure.cpp"]
TARGETS = {
    "E01": {"src": ["e01.cpp"], "engines": True},
    "E02": {"src": ["e02.cpp"], "engines": True},
    "E03": {"src": ["e03.cpp"], "engines": True},
    "E04": {"src": ["e04.cpp"], "engines": True},
    "E05": {"src": ["e05.cpp"], "engines": True},
    "E06": {"src": ["e06.cpp"], "engines": True},
    "E07": {"src": ["e07.cpp"]},
    "E08": {"src": ["e08.cpp", "e08_s0.cpp", "e08_s1.cpp", "e08_s2.cpp", "e08_s3.cpp", "model.cpp"]},
    "E09": {"src": ["e09.cpp"], "engines": True},
    "E10": {"src": ["e10.cpp", "e10_s0.cpp", "e10_s1.cpp", "e10_s2.cpp", "e10_s3.cpp", "model.cpp"]},
    "E11": {"src": ["e11.cpp", "e11_s0.cpp", "e11_s1.cpp", "e11_s2.cpp"], "engines": True},
    "D01": {"src": ["d01.cpp"] + ["uint_%s.cpp" % x for x in "abcd"]},
    "D02": {"src": ["d02.cpp"] + ["uint_%s.cpp" % x for x in "abcd"]},
    "D03": {"src": ["d03.cpp", "ureal_a.cpp", "ureal_b.cpp", "ureal_c.cpp"]},
    "D04": {"src": ["d04.cpp"], "dists": True, "flags": ["-fsanitize=float-cast-overflow"]},
    "D05": {"src": ["d05.cpp"], "dists": True, "opt": True},
    "D06": {"src": ["d06.cpp"], "dists": True, "opt": True},
    "D07": {"src": ["d07.cpp"], "dists": True, "opt": True},
    "D08": {"src": ["d08.cpp"], "dists": True, "flags": ["-fsanitize=float-cast-overflow"]},
    "D09": {"src": ["d09.cpp"], "dists": True, "flags": ["-fsanitize=float-cast-overflow"]},
    "Q01": {"src": ["q01.cpp"] + QENG},
    "Q02": {"src": ["q02.cpp"] + QENG},
    "Q03": {"src": ["q03.cpp"] + QENG, "opt": True},
    "R01": {"src": ["r01.cpp", "repo:src/random_device.cpp"], "libs": ["-lpthread"]},
    "S01": {"src": ["s01.cpp", "s01_q.cpp"] + QENG, "engines": True, "dists": True},
    "V01": {"src": ["v01.cpp", "v01_a.cpp", "v01_b.cpp", "v01_c.cpp"]},
    "T01": {"src": ["t01.cpp", "t01_o.cpp"] + QENG, "engines": True, "dists": True, "tsan": True, "libs": ["-lpthread"]},
    "I01": {"src": ["i01.cpp", "i01_0.cpp", "i01_1.cpp", "i01_2.cpp", "i01_3.cpp", "i01_p.cpp", "i01_q.cpp"], "conform": ["i01_0.cpp", "i01_1.cpp", "i01_2.cpp", "i01_3.cpp", "i01_p.cpp", "i01_q.cpp"]},
    "L01": {"src": ["l01.cpp", "l01_a.cpp", "l01_b.cpp"], "conform": ["l01_a.cpp", "l01_b.cpp"]},
    "X01": {"src": ["x01.cpp", "x01_a.cpp"] + QENG, "engines": True, "dists": True},
    "M01": {"src": ["m01.cpp", "m01_a.cpp", "m01_b.cpp", "m01_c.cpp", "m01_d.cpp", "m01_e.cpp", "m01_f.cpp", "m01_g.cpp", "m01_i.cpp", "dist_gen.cpp", "dist_oracle.cpp"], "opt": True, "flags": ["-O1", "-D_GLIBCXX_ASSERTIONS"]},
    "D10": {"src": ["d10.cpp"], "dists": True, "opt": True},
}
