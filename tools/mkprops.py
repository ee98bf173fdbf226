#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
R = "include/boost/random/"
D = R + "detail/"
def P(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}

ENG = [R + f for f in ("linear_congruential.hpp", "additive_combine.hpp", "inversive_congruential.hpp",
       "mersenne_twister.hpp", "lagged_fibonacci.hpp", "subtract_with_carry.hpp", "discard_block.hpp",
       "shuffle_order.hpp", "independent_bits.hpp", "xor_combine.hpp", "linear_feedback_shift.hpp",
       "taus88.hpp", "ranlux.hpp", "mixmax.hpp", "splitmix64.hpp")]
props = [
P("E01", "Engines produce their published sequence for every seed",
  "For every integer seed and every parametrization, each pseudo-random engine returns exactly the sequence defined by the published recurrence and output function of its algorithm, started from the state its documented seeding procedure prescribes for that seed. This holds for the predefined engines and for user-chosen template parameters, at every position of the sequence.",
  ["inputs", "configurations"], "all seeds (zero, one, maxima, negative, arbitrary) x all engine families and parametrizations x sequence positions",
  "Tests compare the 10000th output for the default seed and a handful of outputs for one or two fixed seeds and only the predefined parametrizations.",
  ENG + [D + "seed_impl.hpp", D + "const_mod.hpp"],
  [("twist / tempering and seed routines", R + "mersenne_twister.hpp"), ("lagged recurrences", R + "lagged_fibonacci.hpp"),
   ("borrow propagation", R + "subtract_with_carry.hpp"), ("matrix iteration", R + "mixmax.hpp"), ("default seeding", D + "seed_impl.hpp")]),
P("E02", "Discarding n values equals drawing n values",
  "From any state an engine can reach, discarding n steps leaves it in a state whose whole future output sequence is the one obtained by calling it n times and ignoring the results, for every n from zero to the largest representable count. Splitting a discard into parts, or mixing it with single draws and block fills, never changes the result.",
  ["inputs", "histories"], "every engine, every reachable state (any mix of seeding, draws, discards, save/restore), every count n",
  "Tests discard one count from two starting states of each predefined engine; state-buffer offsets, wrap-arounds, jump-ahead thresholds and user parametrizations are never varied.",
  ENG + [D + "polynomial.hpp", D + "large_arithmetic.hpp", D + "const_mod.hpp"],
  [("jump-ahead by polynomial", R + "mersenne_twister.hpp"), ("block skipping", R + "lagged_fibonacci.hpp"),
   ("block skipping with carry", R + "subtract_with_carry.hpp"), ("closed form skipping", R + "linear_congruential.hpp"),
   ("generic loop", R + "discard_block.hpp, shuffle_order.hpp, independent_bits.hpp")]),
P("E03", "Saving and restoring an engine as text loses nothing",
  "Writing any engine to a text stream at any point of its history and reading it back, into any engine of that type whatever its own state, yields an engine that compares equal to the original and continues with the identical sequence, and the read consumes exactly the written text so other data may precede or follow it in the stream. Writing never changes the engine being written.",
  ["histories", "inputs"], "every engine type, every reachable state, narrow and wide streams, several objects written one after another, targets in arbitrary prior state",
  "Tests round-trip one position of each predefined engine as the only contents of a stream.",
  ENG,
  [("stream operators", "every engine header"), ("state rewinding before output", R + "mersenne_twister.hpp")]),
P("E04", "Engine equality means identical future; copies are independent",
  "Two engines of one type that compare equal produce identical sequences for ever after, two engines holding the same state compare equal, and engines in different states of an algorithm whose outputs then differ compare unequal. Copying and assignment give an equal but independent engine, and re-seeding by any route makes the complete state a function of the seed alone, whatever happened before.",
  ["histories"], "arbitrary histories of seeding, drawing, discarding, copying, assigning, saving and restoring over several engine objects",
  "Tests compare engines fresh from the same seed, after one fixed history.",
  ENG + [D + "operators.hpp"],
  [("equality operators", "every engine header"), ("seed members reset index and carry", R + "subtract_with_carry.hpp, " + R + "discard_block.hpp, " + R + "mixmax.hpp")]),
P("E05", "Every output lies in the advertised range, which is tight and constant",
  "Every value an engine returns lies in the closed range it advertises for integer engines, or the half-open range for real-valued engines, in every reachable state. The advertised bounds never change during the object's life, and both bounds can be attained wherever the algorithm has full range.",
  ["histories", "configurations"], "every engine family, predefined and user parametrizations (offset minima, signed and narrow types, unequal ranges in combinations), every seed and position",
  "Tests check the first thousands of outputs of predefined engines only; combined and adapted engines with user parameters are not instantiated.",
  ENG,
  [("advertised bounds", "min()/max() of every engine header"), ("combined range", R + "xor_combine.hpp"), ("combined range", R + "additive_combine.hpp")]),
P("E06", "All routes of seeding agree and short seed ranges are rejected",
  "Constructing with a seed and calling seed with it later give equal engines, for integer seeds, seed sequences, iterator ranges and the default, and never yield a state outside the algorithm's valid states. Seeding from an iterator range uses and consumes exactly the number of elements the engine's state needs, leaving the iterator there, depends only on those elements, and reports an invalid-argument error when the range is too short.",
  ["inputs", "configurations"], "all seed values of all arithmetic types, all seed sequences, all ranges of 32-bit words of any length, all-zero and degenerate words included",
  "Tests use a few constant seeds and one fixed word table.",
  ENG + [D + "seed_impl.hpp", D + "generator_seed_seq.hpp", D + "seed.hpp"],
  [("word packing from ranges and seed sequences", D + "seed_impl.hpp"), ("all-zero state correction", R + "mersenne_twister.hpp"), ("composite seeding", R + "additive_combine.hpp, " + R + "xor_combine.hpp")]),
P("E07", "The seed sequence scrambles input exactly as standardised",
  "For every sequence of seed words and every requested output length, the seed sequence fills the output with exactly the values of the standard's seed-sequence algorithm, independent of the construction route, the element type and the iterator kind. Its reported parameters reproduce the input words reduced to 32 bits, a sequence rebuilt from them generates identical output, and nothing outside the requested range is written.",
  ["inputs"], "all input lengths (zero included), all word values wider or narrower than 32 bits, all output lengths including zero and 1, all thresholds of the mixing parameter t",
  "One test compares a few constant vectors.",
  [R + "seed_seq.hpp"], [("generate", R + "seed_seq.hpp"), ("constructors and param", R + "seed_seq.hpp")]),
P("E08", "Engine adaptors transform any base engine exactly as defined",
  "Applied to any base engine, an adaptor's output is the defined function of the base engine's output sequence: block discarding keeps the first r of every p values, shuffling returns table entries selected by the previous value, bit assembly yields uniformly the requested number of bits by the standard's concatenate-and-reject procedure, and xor or additive combination combines shifted or subtracted base outputs. The base engine accessible through the adaptor is always in the state those draws imply.",
  ["configurations", "inputs", "histories"], "adaptor parameters x base engines of any result type, width, minimum and maximum, including scripted bases, x seeds",
  "Tests instantiate each adaptor over one or two predefined engines with one fixed seed.",
  [R + f for f in ("discard_block.hpp", "shuffle_order.hpp", "shuffle_output.hpp", "independent_bits.hpp", "xor_combine.hpp", "additive_combine.hpp")],
  [("operator()", "each adaptor header"), ("width selection", R + "independent_bits.hpp")]),
P("E09", "Block generation fills exactly the given range with well-formed words",
  "Filling an iterator range from an engine writes every element of that range once and nothing outside it, including empty ranges. The values are a deterministic function of the engine state, they are 32-bit words in which every bit is usable, and an engine that already produces full 32-bit words yields them unchanged in order.",
  ["inputs", "configurations"], "every engine, every length including zero, element types of different width, plain and forward-only iterators",
  "Tests fill a single fixed length per engine.",
  [D + "seed_impl.hpp", D + "generator_bits.hpp"], [("integer and floating block generation", D + "seed_impl.hpp")]),
P("E10", "Congruential engines do exact modular arithmetic for all parameters",
  "Linear, additive-combined and inversive congruential engines compute every step, seed reduction and skip exactly modulo the modulus, for every word type, multiplier, increment and modulus, including a modulus equal to the full word range and products that exceed the word. No step overflows, divides by zero or leaves the residue range.",
  ["configurations", "inputs"], "compile-time parameter sets across 8 to 64 bit signed and unsigned types with small, prime, composite, power-of-two and near-maximal moduli, x seeds x skips",
  "Tests only instantiate the predefined 31, 32 and 48-bit generators, which never take the wide-multiplication or the degenerate-gcd paths.",
  [R + "linear_congruential.hpp", R + "inversive_congruential.hpp", R + "additive_combine.hpp", D + "const_mod.hpp", D + "large_arithmetic.hpp"],
  [("mult, mult_add, invert", D + "const_mod.hpp"), ("muldivmod", D + "large_arithmetic.hpp"), ("skip", R + "linear_congruential.hpp")]),
P("E11", "Real-valued engines realise their recurrence exactly",
  "Lagged-Fibonacci and subtract-with-carry engines with floating output produce, for every seed, exactly the integer recurrence of their word size scaled by a power of two, at every position and in every floating type that can hold the sum of two words. Skipping, saving and restoring preserve every bit of the state.",
  ["inputs", "configurations", "histories"], "all seeds, word sizes and lags (predefined and user-chosen), float, double and long double, long sequences",
  "Tests compare one validation value per predefined engine.",
  [R + "lagged_fibonacci.hpp", R + "subtract_with_carry.hpp", R + "ranlux.hpp", D + "seed_impl.hpp"],
  [("floating recurrences", R + "lagged_fibonacci.hpp, " + R + "subtract_with_carry.hpp"), ("floating seeding", D + "seed_impl.hpp")]),
P("D01", "Uniform integers are exactly equiprobable over exactly the requested range",
  "For every requested range and every engine range, wider, equal or narrower, signed or unsigned, real-valued or arbitrary precision, each returned integer lies in the requested closed range and every value in it can be produced. When the engine's outputs are equiprobable and independent, all integers in the range are exactly equiprobable, and the expected number of engine calls per result is bounded by a constant for the range pair.",
  ["inputs", "configurations"], "all (min,max) pairs of all integer types including full range and single value, x all engine ranges, x all engine output strings",
  "Tests run chi-square on a few ranges with mt19937, which cannot see bias on untested range pairs or wrong offsets at exact powers of the engine range.",
  [R + "uniform_int_distribution.hpp", R + "uniform_int.hpp", R + "random_number_generator.hpp", D + "uniform_int_float.hpp", D + "signed_unsigned_tools.hpp"],
  [("generate_uniform_int", R + "uniform_int_distribution.hpp"), ("floating engines", D + "uniform_int_float.hpp")]),
P("D02", "Small-range uniform integers stay in range with bounded quantisation",
  "For every requested range not larger than the engine's range, the one-call integer distribution returns a value in the closed range using exactly one engine call, every value is attainable, and over one full cycle of an engine the numbers of engine values mapped to any two results differ by a small bounded count so that the bias is at most the documented quantisation effect.",
  ["inputs", "configurations"], "all small ranges x all engine ranges (powers of two or not, shifted minima, real-valued engines)",
  "Tests sample a handful of ranges with three engines.",
  [R + "uniform_smallint.hpp"], [("integer and real generation", R + "uniform_smallint.hpp")]),
P("D03", "Uniform reals stay in the half-open interval and fill it evenly",
  "The unit, canonical and general uniform real generators return values v with min <= v < max for every engine, every floating type and every finite interval, including extreme engine outputs, tiny intervals, and intervals as wide as the type permits. The values are evenly distributed over the interval, are never NaN or infinite, and canonical generation provides at least the requested number of random bits.",
  ["inputs", "configurations"], "all finite min<max pairs (subnormal, adjacent, huge, opposite signs) x engines of every range and result type x engine outputs at both extremes",
  "Tests sample a few intervals with a full-range engine, where the dangerous rounding events have negligible probability.",
  [R + "uniform_01.hpp", R + "uniform_real_distribution.hpp", R + "uniform_real.hpp", R + "generate_canonical.hpp"],
  [("rejection of the upper bound", R + "uniform_real_distribution.hpp"), ("rounding to one", R + "uniform_01.hpp"), ("digit accumulation", R + "generate_canonical.hpp")]),
P("D04", "Every distribution returns only values of its support and always returns",
  "For every parameter set the documentation allows and every stream of engine values, extreme ones included, each distribution terminates with a value between its advertised minimum and maximum that is a possible value of the distribution, without arithmetic error, failed assertion or NaN. Events of probability zero, such as a zero-weight outcome or a success with probability zero, are never returned.",
  ["inputs", "configurations"], "all documented parameter values including boundary ones, x engines of any width, x adversarial engine output strings (runs of minima, maxima, near-boundary values)",
  "Tests draw ten values per distribution with well-behaved engines and fixed parameters.",
  [R + f for f in ("normal_distribution.hpp", "exponential_distribution.hpp", "gamma_distribution.hpp", "poisson_distribution.hpp", "binomial_distribution.hpp",
      "geometric_distribution.hpp", "negative_binomial_distribution.hpp", "bernoulli_distribution.hpp", "discrete_distribution.hpp", "beta_distribution.hpp",
      "weibull_distribution.hpp", "triangle_distribution.hpp", "piecewise_constant_distribution.hpp", "piecewise_linear_distribution.hpp", "hyperexponential_distribution.hpp")] + [D + "int_float_pair.hpp"],
  [("operator()", "each distribution header"), ("bit splitting", D + "int_float_pair.hpp")]),
P("D05", "Continuous distributions follow their stated law for all parameters",
  "Values drawn from each continuous distribution with a good engine follow the documented probability density for every allowed parameter set, across the body and the tails, for every floating type and engine width. Successive draws are independent of one another.",
  ["inputs", "configurations"], "parameters over their whole allowed range (small, large, at algorithm switch-over points), result types, engine widths of 1 to 64 bits and real-valued engines",
  "Tests run one Kolmogorov-Smirnov test per distribution on a parameter or two from a fixed list with one engine.",
  [R + f for f in ("normal_distribution.hpp", "exponential_distribution.hpp", "gamma_distribution.hpp", "beta_distribution.hpp", "cauchy_distribution.hpp", "chi_squared_distribution.hpp",
      "extreme_value_distribution.hpp", "fisher_f_distribution.hpp", "laplace_distribution.hpp", "lognormal_distribution.hpp", "non_central_chi_squared_distribution.hpp",
      "student_t_distribution.hpp", "triangle_distribution.hpp", "weibull_distribution.hpp", "hyperexponential_distribution.hpp", "uniform_01.hpp")] + [D + "int_float_pair.hpp"],
  [("ziggurat", R + "normal_distribution.hpp, " + R + "exponential_distribution.hpp"), ("alpha regimes", R + "gamma_distribution.hpp")]),
P("D06", "Counting distributions follow their stated probabilities for all parameters",
  "Values drawn from the Bernoulli, binomial, geometric, negative binomial and Poisson distributions with a good engine have the documented probability mass at every point for every allowed parameter set, on both sides of every internal algorithm switch. Bernoulli trials have probability p to within one part in the engine's range, and are impossible or certain for p zero or one.",
  ["inputs", "configurations"], "success probabilities from 0 to 1, counts and means from zero to large, switch-over points, integer and floating result types, several engines",
  "Tests run a chi-square on a few parameters with one engine.",
  [R + f for f in ("bernoulli_distribution.hpp", "binomial_distribution.hpp", "geometric_distribution.hpp", "negative_binomial_distribution.hpp", "poisson_distribution.hpp")],
  [("inversion and transformed rejection", R + "poisson_distribution.hpp, " + R + "binomial_distribution.hpp"), ("p > 1/2 reflection", R + "binomial_distribution.hpp")]),
P("D07", "Weighted distributions honour every weight vector",
  "For every vector of weights, discrete, piecewise constant, piecewise linear and hyperexponential distributions give each outcome or interval a probability proportional to its weight, integer weights exactly and at any magnitude, however they were constructed. The probabilities, densities, interval boundaries and rates they report are those of the input, normalised, and an empty or too short input means the documented default.",
  ["inputs", "configurations"], "weight vectors of any length, with zeros, ties, extreme ratios and integer sums beyond the word, all constructors (ranges, iterators, lists, functions), direct and one-shot parameter use",
  "Tests use a few short constant weight vectors.",
  [R + f for f in ("discrete_distribution.hpp", "piecewise_constant_distribution.hpp", "piecewise_linear_distribution.hpp", "hyperexponential_distribution.hpp")],
  [("alias table construction", R + "discrete_distribution.hpp"), ("normalisation", R + "discrete_distribution.hpp, " + R + "hyperexponential_distribution.hpp"), ("trapezoid splitting", R + "piecewise_linear_distribution.hpp")]),
P("D08", "Saving and restoring distributions and parameters loses nothing",
  "Writing any distribution or parameter set with sufficient precision to a text stream and reading it back into any object of the same type yields one that compares equal, reports the same parameters, and produces the same values from equal engines, with exactly the written text consumed and the stream's format unchanged. Writing never changes the values subsequently produced.",
  ["inputs", "histories"], "all distributions x all allowed parameters x narrow and wide streams x objects written back to back x targets with different prior parameters",
  "Tests round-trip one or two parameter sets per distribution.",
  [R, D + "vector_io.hpp", D + "operators.hpp"],
  [("stream operators", "each distribution header"), ("vector text format", D + "vector_io.hpp")]),
P("D09", "Parameters fully determine a distribution's behaviour",
  "For every distribution and parameter set, constructing from values, from a parameter object, or by assigning parameters later gives equal objects that return identical values from equal engines, report those same parameters, and are unaffected by earlier use once reset. Drawing with one-shot parameters returns a value of that parameter set's law without altering the distribution, and distributions with different parameters compare unequal.",
  ["inputs", "histories"], "all distributions x pairs of allowed parameter sets x engine states x interleavings of draws, resets, parameter changes and copies",
  "Tests build each distribution once or twice with constant parameters.",
  [R], [("param(), reset(), operator()(eng, param), equality", "each distribution header")]),
P("D10", "Points on the sphere are unit vectors, uniformly distributed",
  "For every dimension and engine, the sphere distribution returns a vector of that dimension whose Euclidean norm is one to within rounding (an empty vector in dimension zero), for every stream of engine values. Its direction is uniformly distributed: all coordinates share the known marginal law, are sign symmetric and pairwise uncorrelated, and every orthant is equally likely.",
  ["inputs", "configurations"], "dimensions 0,1,2,3 and up, floating types, container types, engines including adversarial ones",
  "Tests draw from one dimension with fixed seeds.",
  [R + "uniform_on_sphere.hpp"], [("per-dimension algorithms", R + "uniform_on_sphere.hpp")]),
P("Q01", "Quasi-random sequences equal the published point sets",
  "For every dimension supported and every position, the Sobol, Niederreiter base-2 and Faure generators return exactly the coordinate defined by the published construction from its polynomials, direction numbers or prime base. This holds for user-chosen word sizes and bit counts, and the built-in tables contain only valid, distinct polynomials and direction numbers.",
  ["inputs", "configurations"], "all dimensions up to each generator's maximum x positions from 0 to the end of the sequence x word sizes and bit counts",
  "Tests compare about a hundred coordinates in a few dimensions.",
  [R + "sobol.hpp", R + "niederreiter_base2.hpp", R + "faure.hpp", D + "sobol_table.hpp", D + "niederreiter_base2_table.hpp", D + "gray_coded_qrng.hpp", D + "qrng_base.hpp"],
  [("direction numbers", R + "sobol.hpp"), ("generator matrices", R + "niederreiter_base2.hpp"), ("binomial matrices", R + "faure.hpp"), ("Gray code update", D + "gray_coded_qrng.hpp")]),
P("Q02", "Quasi-random positioning, saving and exhaustion are exact",
  "From any state, seeding to vector n, discarding z coordinates, saving and restoring (also into a generator of another dimension), or stepping one by one reach equal generators with identical futures whenever they denote the same position. Leaving the sequence or asking for an unsupported dimension is reported with the documented exception and leaves the generator usable, and no value is ever returned past the end.",
  ["histories", "inputs"], "histories of draws, discards, seeds, copies and save/restore over all dimensions, positions inside vectors, and positions near the end of the sequence, in several word sizes",
  "Tests exercise a few positions in a fixed set of dimensions.",
  [D + "qrng_base.hpp", D + "gray_coded_qrng.hpp", R + "faure.hpp"],
  [("discard and element index correction", D + "qrng_base.hpp"), ("seed to vector", D + "gray_coded_qrng.hpp")]),
P("Q03", "Quasi-random points are evenly stratified in every coordinate",
  "Aligned blocks of consecutive points, the skipped zero vector counting as index 0, are stratified as the constructions guarantee. Sobol: any aligned 2^k points have exactly one in each of the 2^k equal intervals of every coordinate. Niederreiter: with a polynomial of degree e, each interval of length 2^-(e*floor(k/e)) of that coordinate holds the same number of them, and so does each elementary box whose side exponents, rounded up to multiples of the degrees, add up to at most k. Faure: any aligned b^k points (b the prime base) form a (0,s)-net, every elementary box of volume b^-k holding exactly one.",
  ["inputs", "configurations"], "all dimensions, all block sizes feasible to enumerate, aligned blocks anywhere in the sequence",
  "Tests look at prefixes of a few dimensions; stratification over all dimensions is never checked.",
  [R + "sobol.hpp", R + "niederreiter_base2.hpp", R + "faure.hpp", D + "sobol_table.hpp", D + "niederreiter_base2_table.hpp"],
  [("lattice construction", R + "sobol.hpp, " + R + "niederreiter_base2.hpp"), ("coefficient table", R + "faure.hpp")]),
P("R01", "The random device delivers exactly the device's bytes or an error",
  "Every value obtained from the random device consists of the next unused bytes of the named source, however the source fragments its reads, over the full unsigned range and with no byte skipped, repeated or left over. A source that cannot be opened, fails or ends raises a system error rather than returning a value, and no descriptor is leaked.",
  ["fault_sequences", "inputs"], "byte contents, fragmentation of reads into any sizes, end of data at any offset, missing paths, directories, unreadable files, number of values drawn singly or by range",
  "Tests only draw a few numbers from the default device.",
  ["src/random_device.cpp", R + "random_device.hpp"], [("read loop", "src/random_device.cpp"), ("range fill", R + "random_device.hpp")]),
P("S01", "Damaged text is reported and leaves usable objects",
  "Reading an engine, adaptor, quasi-random engine, distribution or parameter set from text that ends early, or in which a number has been replaced by something no number begins with, always sets the stream's failure flag, in narrow and wide streams. Afterwards the object is still usable: distributions and quasi-random engines are exactly what they were before; pseudo-random engines are in some legal state (values in range and not stuck, equal to their copies) and can be seeded or read again with the full effect.",
  ["inputs", "histories"], "all types with stream operators x states and parameters written and overwritten x place and kind of the damage x stream character type, then drawing, copying, seeding or reading again",
  "Tests read only undamaged text.",
  [R], [("operator>>", "each header"), ("read_vector", D + "vector_io.hpp")]),
P("I01", "Engines and distributions from elsewhere interoperate",
  "Any class meeting the standard's engine requirements, or the older Boost concept, whatever its result type, its minimum, how min and max are given and whether it is copied or referred to, gives the same results with every distribution, generate_canonical and adaptor as any other engine delivering the same offsets from its minimum, at the same number of calls. In particular the standard library's engines give what the library's engines of the same sequence give; the standard library's distributions, adaptors and seed sequences work over this library's engines, and this library's adaptors and engines over standard engines and seed sequences, with the values the published definitions fix.",
  ["inputs", "configurations"], "shapes of engine classes (result types of 8 to 64 bits and reals, offsets, static or member bounds) x distributions x engine values; standard engines, distributions, adaptors and seed sequences x states",
  "Tests pair the library's classes with its own minstd/mt19937 only, apart from two std engines.",
  [R, D + "generator_bits.hpp", D + "uniform_int_float.hpp", D + "seed.hpp", D + "seed_impl.hpp"],
  [("range handling of engines", R + "uniform_int_distribution.hpp, " + D + "uniform_int_float.hpp"), ("seeding concept dispatch", D + "seed.hpp")]),
P("L01", "Legacy class templates behave as their modern counterparts",
  "The class templates kept for old code (linear_congruential, mersenne_twister, lagged_fibonacci, subtract_with_carry and its real-valued form, discard_block, shuffle_output, additive_combine, xor_combine, inversive_congruential, linear_feedback_shift) give, for every history of construction from any seed route, copying, seeding, drawing, comparing and streaming, the values, equality and text of the class they are documented to stand for.",
  ["histories", "inputs"], "all legacy templates x parametrisations x histories of operations from every construction and seeding route, const and non-const sources",
  "Tests use the legacy names in a handful of typedefs, never copying or seeding them from non-const objects.",
  [R], [("legacy classes", R + "linear_congruential.hpp, " + R + "discard_block.hpp, " + R + "shuffle_output.hpp, " + R + "additive_combine.hpp, " + R + "mersenne_twister.hpp")]),
P("T01", "Separate objects share no hidden state, and const operations may be shared",
  "What an engine, distribution or quasi-random engine returns depends only on the operations made on that object: any interleaving of operations on separate objects, in one thread or in many at once, gives each of them the results it gives when used alone, and without data races. Operations on a constant object (copying, comparing, writing, reporting bounds and parameters, and drawing from a constant distribution where that is allowed) may be made by several threads at the same time.",
  ["schedules", "histories"], "sets of objects of the same and of different types x their operations x interleavings and threads",
  "Tests use one object at a time in one thread.",
  [R], [("function-local and static data", R + "mersenne_twister.hpp, " + R + "detail, " + R + "faure.hpp, " + R + "poisson_distribution.hpp, " + R + "binomial_distribution.hpp")]),
P("X01", "Exceptions from engines, seeds, streams and memory leave usable objects",
  "An exception thrown by the engine a distribution or adaptor draws from, by a seed sequence or the elements of a seed range, by a stream set to throw, or by the allocator passes unchanged to the caller. Afterwards nothing is leaked; a distribution has the parameters it had (an unfinished change of them apart) and after reset the values of a new one; engines and quasi-random engines return values within their bounds and compare equal to their copies; and assigning, seeding or reading has its full effect.",
  ["fault_sequences", "inputs", "histories"], "all types x operations x the point at which the exception is thrown (call of the engine, request or element of the seeds, character of the text, each allocation in turn)",
  "Tests never throw into the library.",
  [R, D + "vector_io.hpp", D + "qrng_base.hpp"],
  [("parameter tables", R + "discrete_distribution.hpp, " + R + "piecewise_constant_distribution.hpp, " + R + "piecewise_linear_distribution.hpp, " + R + "hyperexponential_distribution.hpp"), ("seeding", D + "seed_impl.hpp"), ("power tables", R + "faure.hpp"), ("polynomial jump", D + "polynomial.hpp")]),
P("M01", "Multiprecision numbers give what built-in numbers of that size would",
  "With the integer and floating-point types of Boost.Multiprecision, fixed or unbounded, checked or unchecked, binary floats of 53 bits and more, everything keeps its meaning. Integer distributions are even over ranges of any size, over engines of any range, without overflow, and equal those of built-in integers when given the same engine values. Bit-assembling engines return every bit the definition prescribes, floating-point engines and generate_canonical carry all their bits. The other distributions agree with those of built-in types of that precision up to rounding, and follow the documented law. Seeding, copying, equality and text lose nothing.",
  ["inputs", "configurations", "histories"], "number types (53, 64 and 333 bits of mantissa; 128 to 1024 bits and unbounded integers, checked and signed ones) x engines, distributions and their parameters x engine values and states",
  "Tests draw a few values from one integer and one real type and check that they lie in the range.",
  [R, D + "seed_impl.hpp", D + "signed_unsigned_tools.hpp", D + "int_float_pair.hpp"],
  [("ranges of wide integers", R + "uniform_int_distribution.hpp, " + R + "uniform_smallint.hpp, " + R + "traits.hpp"), ("words of many digits", R + "independent_bits.hpp"), ("real states", R + "lagged_fibonacci.hpp, " + R + "subtract_with_carry.hpp, " + D + "seed_impl.hpp"), ("digits of reals", R + "generate_canonical.hpp, " + D + "uniform_int_float.hpp")]),
P("V01", "Generator wrappers forward exactly to engine and distribution",
  "A variate generator holding an engine by value, reference or pointer returns exactly the values its distribution would return from that engine, sharing engine state precisely when a reference or pointer was given, and reports the distribution's bounds. The integer-range wrapper returns values in [0, n) for every n, evenly, so that shuffling with it yields each permutation equally often, and the legacy wrapper names behave as their modern counterparts.",
  ["histories", "inputs"], "distribution x engine x holding mode, interleavings of wrapper and direct draws, copies, resets, all n",
  "Tests call the wrapper with one engine and distribution.",
  [R + "variate_generator.hpp", R + "random_number_generator.hpp", R + "uniform_int.hpp", R + "uniform_real.hpp", R + "uniform_01.hpp", D + "ptr_helper.hpp"],
  [("engine holder", D + "ptr_helper.hpp"), ("operator()(n)", R + "random_number_generator.hpp")]),
]
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
print(len(props))
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in props: jsonschema.validate(p, s)
    print("valid")
except ImportError: pass
