NOTES = {
"E01": ("property-based testing against independent reference models of every engine", "Generated engines x seed routes x seed data x positions, value-by-value against reference models written from the published algorithms (128-bit arithmetic), plus libstdc++ and libc engines as second oracles."),
"E02": ("metamorphic property-based testing: discard(n) against n calls, splits and exact closed forms", "Histories of draws, skips and block fills replayed on a twin that replaces each skip by calls; huge skips against 128-bit affine exponentiation and against compositions; real Mersenne twisters across the jump threshold."),
"E03": ("round-trip property-based testing of text save/restore", "Engines in generated states written to narrow and wide streams in several formats, with text before and after, restored into dirty engines and compared by equality and by their whole future."),
"E04": ("model-based property-based testing of copy, equality and reseed", "Pairs of engines at generated positions; equality, inequality and text must agree with identical futures; copies independent of the original; SWC carry states."),
"E05": ("property-based testing of output ranges and special states", "Outputs of every engine, from generated and from crafted extreme states (edge seeds, carry edges, fixpoints), against declared bounds and against independently computed bounds; seed coercions and exclusions of zero states."),
"E06": ("metamorphic property-based testing of seeding routes", "Seed routes that must coincide (constructor, seed(), values of different types, word ranges through different iterators, seed sequences) compared by equality, futures, words consumed and iterator positions, with short ranges throwing invalid_argument."),
"E07": ("differential property-based testing against a reference model and std::seed_seq", "Boost seed_seq against the published algorithm and libstdc++ over generated entropy and block lengths, element types, iterators and guard zones; recorded params and size."),
"E09": ("metamorphic and statistical property-based testing of block generation", "Blocks filled through pointers, wider elements, lists and write-once iterators into exact-size sanitised storage; prefix, split and draw equivalences; byte and bit-distance uniformity for base engines with arbitrary integer and real ranges."),
"E08": ("model-based property-based testing of adaptors over scripted base engines", "Every adaptor over base engines whose outputs the harness scripts (33 integer ranges and widths, extreme values, runs), value by value and with the base engine's position, against the defining function; histories mix draws, skips, copies and save/restore; nested adaptors."),
"E10": ("property-based testing against 128-bit modular arithmetic over many parameter sets", "359 linear and inversive parameter sets over six word types (moduli at and around the word range, primes, composites, powers of two; multipliers at every algorithm switch); states placed where products cross the modulus or the word; seeds, words and skips of any size; all states of small inversive engines."),
"E11": ("model-based property-based testing of real-valued engines against the integer recurrence", "Lagged-Fibonacci and subtract-with-carry engines in float, double and long double with many word sizes and lags, bit for bit against an integer model through histories of draws, skips, copies and save/restore."),
"D01": ("property-based testing over scripted engines, complete enumeration of engine sequences, and statistical search", "Requested ranges at every corner (powers and multiples of the engine's range, type limits) over 17 engine ranges and 8 result types; exact probabilities by enumerating all engine sequences of small engines and all first values of engines with 2^16 values; chi-square with good engines; termination and call counts; arbitrary precision results."),
"D02": ("property-based testing over scripted engines with complete enumeration of engine values", "Every engine value of engines with up to 2^16 (integer) or 2^24 (real) values counted per result and compared with the documented quantisation bound; one engine call per result; preimages of chosen results in wide engines."),
"D03": ("property-based testing over scripted engines, complete enumeration of engine values, and statistical search", "uniform_01 (three forms), uniform_real (four forms) and generate_canonical (14 bit counts) in float, double and long double over 24 engine ranges with extreme scripts and intervals from one ulp to wider than the type; cell counts by enumerating every engine value or sequence; KS, pair and low-bit tests, with the library's engines and multiprecision reals too."),
"D04": ("property-based testing over scripted engines", "Every distribution (about 70 instances: three real types, several integer types, all weighted ones) with ordinary, switch-over and extreme parameters, over engines of 1, 8, 16, 32, 64 bits, signed and real-valued ones, whose output follows adversarial scripts (extreme, repeated, next to the algorithm's decision points). Every call must return within 400,000 engine calls, raise no sanitizer report or library assertion, and give a value of the support that min() and max() bracket. Bounds: parameters whose results cannot be represented are left out (see DESIGN.md)."),
"D05": ("property-based testing with a statistical oracle (independent distribution functions)", "Every continuous distribution, at generated parameters over the whole range and around switch-over points, three real types and 12 engines: goodness of fit against independently written distribution functions with cells reaching far into the tails, dependence of successive values, a deep run on a few parameters, and exact value counts from enumerated engines for closed-form distributions. Bound: deviations smaller than the sample resolves stay invisible; the alarm threshold is so far out (z > 7) that a run over sound code cannot realistically reach it."),
"D06": ("property-based testing with a statistical oracle and exhaustive engine enumeration", "Bernoulli, binomial, geometric, negative binomial and Poisson over generated parameters on both sides of every switch: chi-square against independently computed probability masses, dependence of successive values; Bernoulli counted exactly over all values of engines of 1 to 16 bits."),
"D08": ("round-trip property-based testing of text save/restore", "Every distribution and parameter set (extreme values included) written to narrow and wide streams in several formats and read back into fresh and dirty objects: equality, reported parameters, bounds, values, stream position and format; several objects in one stream."),
"D09": ("metamorphic property-based testing over all construction and assignment routes", "Every distribution, pairs of parameter sets and histories of draws, resets, assignments, copies and one-shot draws; routes to the same parameters must compare equal, report them and draw identical values; different parameters compare unequal."),
"D07": ("property-based testing with exhaustive engine enumeration and a statistical oracle", "Generated weight vectors of nine integer-weight types (sums beyond the type included): exact probabilities by following all engine sequences of an engine whose range is chosen per case; real weights to the resolution of the engine; reported probabilities, densities, boundaries and rates, functions and documented defaults over all routes; goodness of fit and independence of drawn values, direct and one-shot. Bound: integer weights that need wide engines are only checked statistically and through what is reported."),
"D10": ("property-based testing over scripted engines and a statistical oracle", "Spheres of dimension 0 to 200 in three real types and three containers, reached by nine routes, over scripted engines: size and norm; laws of projections on axes, on random directions, of products of successive vectors and of signs against the exact marginal (incomplete beta)."),
"Q01": ("differential property-based testing against independent constructions and published data", "Every dimension of the three generators and user-chosen word sizes, at positions from the first to the last, against direct evaluation of the published definitions (Joe-Kuo direction numbers held separately, Niederreiter's recurrence over GF(2)[x], Pascal matrices modulo the prime), with user-defined tables of polynomials and primes; built-in polynomials tested for primitivity, irreducibility and distinctness. Bound: positions are sampled, not enumerated, beyond the first blocks."),
"Q02": ("model-based property-based testing of positions (histories)", "Histories of draws, block fills, discards, seeds, copies, comparisons and save/restore (also between dimensions) on two engines against a position counter and random access values; positions inside vectors and around the end of the sequence, exhaustion and oversized arguments with the documented exception."),
"Q03": ("property-based testing of stratification invariants by counting", "Aligned blocks anywhere in the sequence, every dimension: interval counts per coordinate, elementary boxes of generated dimension pairs and triples, bases 2 to large primes, several word sizes. Bound: block sizes that fit into the case budget (2^16 points)."),
"R01": ("property-based testing with fault injection against byte sources under the harness' control", "Files, pipes with generated fragmentation, shared pipes, and an interposed read() that shortens or fails on plan: values compared with the source's bytes, errors required at every end, failure and bad name, descriptors counted before and after; the device as a seed sequence and as an engine. Bound: Linux's implementation in src/random_device.cpp only; behaviour after an interrupted call (EINTR) is not judged."),
"M01": ("differential and model-based property-based testing over multiprecision number types, statistical laws", "Distributions of software floats of 53, 64 and 333 bits next to the built-in type of the same precision on the same scripted engine values (bit-exact when only correctly rounded operations are involved, else within rounding for all but isolated branch flips), possible values under adversarial engine values, round trips of parameters and text, and laws; independent_bits and real engines against exact big-integer models; integer distributions over multiprecision engines against built-in ones, and chi-square tests of ranges of up to 1024 bits; distributions over engines of software floats against the same over built-in reals. binomial, poisson, negative_binomial, hyperexponential, non_central_chi_squared and floats of fewer than 53 bits do not compile with these types and are not listed as supported."),
"I01": ("metamorphic and differential property-based testing across engine classes, scripted engines", "Scripted engines delivering the same offsets through differently shaped classes (result types, minima, static and member bounds, by reference) under all distributions and generate_canonical: same results and number of calls; std engines against the library's engines of the same sequence; std distributions, adaptors and seed sequences over the library's engines and the other way round, against definitions. A class that meets the requirements but is refused by the compiler is reported too."),
"L01": ("differential property-based testing (histories) of legacy classes against modern ones", "Histories of construction, copying from const and non-const objects, seeding by every route, draws, comparison and text for every legacy class template and several parametrisations, a modern engine driven alongside; values, equality and texts compared after each step."),
"T01": ("property-based testing of interleavings and threads under ThreadSanitizer, each object run alone as oracle", "Two to six objects (engines, distributions, quasi-random engines; often of one type) with generated operations, run alone, interleaved by a generated schedule, and each in its own thread started together; const operations on one object from several threads. Results must be those of the object alone; data races are reported by the sanitizer. Bound: schedules of real threads are not enumerated; hidden state is also caught by the deterministic interleavings."),
"X01": ("property-based testing with fault injection", "Exceptions thrown by the engine at a generated call, by a seed sequence or input iterator at a generated request, by a stream at a generated character, and by operator new at every allocation of an operation in turn, for all distributions, engines, adaptors and quasi-random engines; before/after and fresh-object oracles, block counts, address sanitizer."),
"V01": ("model-based property-based testing (histories) and metamorphic comparison", "37 combinations of distribution and engine by value, reference and pointer through histories of wrapper draws, direct draws, copies, assignments, reseeding and parameter changes against a separately held engine and distribution, states compared after every step; the integer-range wrapper by scripted extremes, exact enumeration and shuffles; legacy classes against their modern counterparts and their documented laws."),
"S01": ("property-based testing with generated damage (fault injection into text) and a before/after oracle", "Texts of 230 engines, 70 distributions, their parameter sets, quasi-random engines and spheres, cut before a token or with a token replaced by something no number begins with, read into objects in other states through narrow and wide streams: failure reported; distributions and quasi-random engines unchanged in parameters, equality and values; engines in range, not stuck, equal to their copies, restorable and re-seedable; sanitizers throughout. Damage that still reads as a number is outside the statement."),
}
