#!/usr/bin/env python3
# Writes harness/sobol_published.inc from the Joe-Kuo direction numbers shipped with scipy (run once with python3-vt; the result is committed).
import numpy as np, scipy, os
d = np.load(os.path.join(os.path.dirname(scipy.__file__), 'stats', '_sobol_direction_numbers.npz'))
poly, v = d['poly'], d['vinit']
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'sobol_published.inc'), 'w') as f:
    for i in range(1, 3667):
        deg = int(poly[i]).bit_length() - 1
        f.write('%d,' % poly[i] + ','.join(str(int(x)) for x in v[i][:deg]) + ',\n')
