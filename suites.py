"""Which suites decide which property, within which bounds."""
CONV = dict(sources=["harness/conv.cc"], exe="conv")
HIST = dict(sources=["harness/hist.cc"], exe="hist")
MATH = dict(sources=["harness/math.cc"], exe="math")
ALM = dict(sources=["harness/alm.cc"], exe="alm")
FITS = dict(sources=["harness/fits.cc"], exe="fits")
OMP = dict(sources=["harness/omp.cc"], exe="omp")
FAULTS = dict(sources=["harness/faults.cc"], exe="faults", libs=["-Wl," + ",".join("--wrap=" + f for f in ["malloc", "calloc", "realloc", "posix_memalign", "free", "aligned_alloc"]), "-ldl"])
ARR = dict(sources=["harness/arrays.cc"], exe="arrays")
HELP = dict(sources=["harness/helpers.cc"], exe="helpers")
UTIL = dict(sources=["harness/util.cc"], exe="util")
MPIM = dict(sources=["harness/mpimgr.cc"], exe="mpimgr")
CUTIL = dict(sources=["harness/cutil.cc"], exe="cutil")
LIM = dict(sources=["harness/lim.cc"], exe="lim")
def S(base, variant, suite, **kw): return dict(base, variant=variant, suite=suite, **kw)
A_SIM = "The MPI library is replaced by a simulated one (sim/) whose semantics are bound to Open MPI by replaying cases of the same suites under mpirun."
A_ALPHA = "Coefficient values outside the fixed dyadic inputs are covered through (bi)linearity only."
PROPERTIES = {
 "P01": dict(level="exploration", technique="bounded exhaustive enumeration of configurations and directions on the real code against a direct harmonic sum",
   suites=[S(CONV, "plain", "value", real=[1]), S(CONV, "plain", "basis")],
   bounds="lmax 1..4 (thorough 6) with every mmax, polarisation, order 0..9 (13) and up to 2 (4) input-limit choices, each on a grid of special and ordinary directions; lmax 8..33 (96); every pair of basis coefficients at lmax 4 (5)",
   rule="one execution per (limits, polarisation, order, input limits) on all listed directions, and one per pair of basis vectors of the sky and the beam; a basis pair is non-trivial when its harmonic sum is not identically zero; all value cases are",
   assumptions=[A_SIM, "Linearity in sky and beam extends basis pairs to all coefficients up to rounding.", "Directions between the enumerated ones are covered only through the interpolation formula."]),
 "P02": dict(level="exploration", technique="stateless exploration: every bounded sample distribution over simulated MPI ranks executed on the real code, compared with the single-rank result",
   suites=[S(CONV, "plain", "dist", real=[1, 2, 3, 4]), S(CONV, "plain", "long")],
   bounds="every ordered list of up to 3 (4 from a smaller set) rows out of 8 (thorough 12) directions in every split over 1..4 ranks; every split of three 8-12 row lists over 1..4 ranks; 24 and 72 row lists; lists of 36 (42) lengths from 100 to 65537 (524289), most within one of a power of two, in four orders and ten shares over 1..4 ranks; every lmax<=3/mmax/pol/order<=5 (9); 5, 7, 8 (up to 16) ranks",
   rule="one execution per (configuration, row list, split); non-trivial when at least one rank has rows",
   assumptions=[A_SIM, A_ALPHA]),
 "P03": dict(level="model_checking", technique="stateless model checking of the real MPI code under a simulated MPI with controlled rank schedules",
   suites=[S(CONV, "plain", "coll", real=[1, 2, 3, 4], want=30)],
   bounds="1..4 ranks; every list of up to 2 (3 subsampled over schedules) rows out of 4 directions in every split under every rank priority schedule; verbosity 0,1,2,5,6 x communicator world/duplicate/subset/two halves x eager/rendezvous messages x five row lists in every split; reading, normalising, convolver construction and two convolutions per execution",
   assumptions=[A_SIM, "Rank-local code between MPI calls only touches rank-private memory, so interleavings are equivalent up to the order of MPI calls; that order is enumerated as priority schedules."]),
 "P04": dict(level="exploration", technique="stateless exploration: every bounded sample distribution and previous row contents over simulated MPI ranks executed on the real code",
   suites=[S(CONV, "plain", "rows", real=[1, 2, 3, 4]), S(CONV, "plain", "distrows"), S(CONV, "plain", "longrows")],
   bounds="the distributions of P02 plus every pair of six previous signal/last-column contents on five row lists with ties and repetitions, in every split over 1..4 ranks, and the long lists of P02",
   rule="one execution per (row list, split, previous contents); non-trivial when at least one rank has rows",
   assumptions=[A_SIM, A_ALPHA]),
 "P06": dict(level="exploration", technique="bounded exhaustive enumeration of inputs and configurations on the real code under address/undefined-behaviour monitors, and differentially under four fillings of uninitialised memory",
   suites=[S(LIM, "san", "mem", real=[1, 2]), S(LIM, "san", "convlimmem"), S(LIM, "san", "badinput"), S(LIM, "san", "badangle"),
           S(CONV, "san", "long"), S(LIM, "plain", "uninit")],
   bounds="every lmax 1..4 (thorough 6), mmax, polarisation, order 0..9 (15) with each boundary colatitude alone and all together at extreme longitudes and position angles; every split of seven row lists over 1..4 ranks in three configurations; the long row lists of P02; lmax 20, 48, 80; every convolver limit and order in -3..9 on every input with limits -1..3 (4), on 1..3 ranks; about 70 defective files; illegal angles on every rank subset; reading and two convolutions (lmax 1..4, every mmax/pol/order<=5 (9), distributions over 1..3 ranks, complete, incomplete and reordered files) repeated with four different contents of fresh heap and stack memory must agree",
   rule="one execution per (configuration, rows); every case executes the library", assumptions=[A_SIM, "The monitors are those of gcc (address, undefined, float-cast-overflow); accesses inside the same object at a wrong index are seen only through wrong values.", A_ALPHA]),
 "P07": dict(level="fault_enumeration", technique="exhaustive fault enumeration: every defective input on every subset of simulated ranks, on the real code",
   suites=[S(LIM, "plain", "badangle", real=[2, 3]), S(LIM, "plain", "badinput", real=[2]), S(LIM, "plain", "badlimits", real=[2]), S(LIM, "plain", "readlim")],
   bounds="15 illegal angle values on every non-empty subset of 1..4 ranks (thorough 5) x 0..3 further rows x three positions; about 70 defective files (every truncation length in steps of 480 (80) bytes, malformed tables, keywords, indices) through both readers and both constructors on 1..3 ranks; every sequence of three input replacements out of seven pairs of inputs, by set_sky/set_beam or by reading again, on 1..3 ranks",
   rule="one execution per fault placement, followed by a valid call that must succeed with the right result; all cases are non-trivial", assumptions=[A_SIM]),
 "P08": dict(level="exploration", technique="stateless exploration of every bounded operation history of the real code against a state-machine model",
   suites=[S(HIST, "plain", "norm")],
   bounds="every sequence of 4 (thorough 5) out of 16 operations (reads from two files with different monopoles, polarised or not, a failing read, normalisation, beam copy, three efficiencies, replacement of beam and detector, calibrated and raw convolution) on two beams, two detectors and one convolver, followed by an inspection of every coefficient and both kinds of convolution",
   rule="one execution per operation sequence; all cases end with calibrated and raw convolutions", assumptions=[A_SIM, A_ALPHA]),
 "P09": dict(level="exploration", technique="stateless exploration of every bounded operation history of the real code; expected results from fresh objects in a separate process for every reachable input state",
   suites=[S(HIST, "plain", "hist"), S(HIST, "plain", "histpair"), S(HIST, "plain", "hist2")],
   bounds="every sequence of 4 (thorough 5) out of 21 operations on one rank and of 3 (4) on two ranks, and of 3 (4) with each of five second convolvers that share all but one setting with the first, over two convolvers (polarised and not, different limits and orders) sharing two skies, two beams, two detectors and two reused pointings; re-reading with larger, smaller, unpolarised data; removal of monopole/dipole; normalisation; replacement; then three convolutions",
   rule="one execution per operation sequence; every case contains at least three convolutions compared with a fresh convolver", assumptions=[A_SIM, A_ALPHA]),
 "P12": dict(level="exploration", technique="bounded exhaustive enumeration of preparation histories on the real code against the defining formulas",
   suites=[S(HIST, "plain", "skyprep", real=[1, 2])],
   bounds="lmax 0..6 (thorough 9), polarised or not, deconvolution by 6 (9) widths from 0 to 240 (1200) arcmin, every sequence of up to 4 (5) removals and re-reads, through the C++ and the C interface, on 1..3 ranks; every coefficient compared",
   rule="one execution per (lmax, polarisation, width, sequence, interface, ranks)", assumptions=[A_SIM]),
 "P17": dict(level="exploration", technique="stateless exploration of every bounded call history of the C interface, in lock step with the C++ interface",
   suites=[S(HIST, "plain", "capi"), S(HIST, "plain", "capi2", real=[2])],
   bounds="every sequence of 3 (thorough 4) out of 30 calls, succeeding and failing, from three starting points (nothing read; a convolver ready; a polarised convolver used before), over two skies, beams, detectors, a pointing and a convolver on one and two ranks, followed by inspection of every getter and coefficient, unpolarised and polarised convolution",
   rule="one execution per call sequence", assumptions=[A_SIM, "The C++ interface itself is decided by the other properties."]),
 "P11": dict(level="exploration", technique="bounded exhaustive enumeration of file, request and convolver limits on the real code against an acceptance model and a direct harmonic sum",
   suites=[S(LIM, "plain", "readlim", real=[1, 2]), S(LIM, "plain", "convlim", real=[1, 2]), S(ALM, "plain", "complim", real=[2])],
   bounds="polarised files with every combination of 6 (7) limits and 8 keyword patterns of the three components; files with lmax 0..4 (thorough 6) and every mmax, with and without size keywords; requested limits -2..5 (7); convolver limits -2..4 (5) on every pair of inputs with limits -1 (never read) to 3 (4), polarised or not, orders -1, 0, 3, on 1..2 ranks (reading: 3)",
   rule="one execution per (file limits, request) or (input limits, convolver limits, order, polarisation); all cases are non-trivial (acceptance or rejection is decided)", assumptions=[A_SIM, A_ALPHA]),
 "P13": dict(level="exploration", technique="bounded exhaustive enumeration of indices, angles and preparation histories on the real code against an independent extended-precision evaluation",
   suites=[S(MATH, "plain", "wigsmall"), S(MATH, "plain", "wighist"), S(MATH, "plain", "wigtwo"), S(MATH, "plain", "wiglarge"), S(MATH, "plain", "risbo"), S(MATH, "san", "wighist"), S(MATH, "san", "wigtwo"), S(MATH, "san", "wiglarge")],
   bounds="every lmax 1..12 (thorough 20), index pair and threshold (1e-30, 1e-10, 1e-3) on 59 angles (poles, their neighbours, negative, beyond pi, up to 1e5) alone and in every ordered pair; every sequence of 4 preparations at lmax 1, 3 at lmax 2, 2 at lmax 3..5 (4 at 2, 3 at 3, 2 at 6 and 8); every history of 4 (5) of 22 operations on three generators and four recursions; lmax up to 1000 (2500) on a grid of index pairs and 15 angles; both recursive generators at every angle up to lmax 34 (60)",
   rule="one execution per (lmax, index pair, threshold) or preparation sequence or generator and angle; every element is compared", assumptions=["Angles between the enumerated ones and lmax beyond the bound are covered only by the structure of the recursion."]),
 "P14": dict(level="exploration", technique="bounded exhaustive enumeration of lengths, basis vectors and plan histories on the real code against the defining sum",
   suites=[S(MATH, "plain", "fftunit"), S(MATH, "plain", "fftlong"), S(MATH, "plain", "ffthist"), S(MATH, "san", "ffthist"), S(MATH, "san", "fftlong")],
   bounds="every basis vector of every length 1..520 (thorough 1100) through all eight transforms; dense input, round trips and repeated use for every length 1..2500 (8000) and 18 longer ones up to 46187; every sequence of 4 (5) out of 15 set/assign/copy/use operations on two complex or real plans",
   rule="one execution per (length, transform) or length or plan history", assumptions=["Linearity extends basis vectors to all inputs up to rounding."]),
 "P21": dict(level="exploration", technique="bounded exhaustive enumeration of limits, basis coefficients and rotation angles on the real code against the defining formulas",
   suites=[S(MATH, "plain", "rotate"), S(MATH, "plain", "rotate", env={"OMP_NUM_THREADS": "3", "OMP_WAIT_POLICY": "passive"}), S(MATH, "plain", "risbo", env={"OMP_NUM_THREADS": "2", "OMP_WAIT_POLICY": "passive"}), S(MATH, "plain", "almtools"), S(MATH, "plain", "synth"), S(MATH, "plain", "powhist"), S(MATH, "plain", "toolhist"), S(MATH, "plain", "rotmat"), S(MATH, "san", "rotate"), S(MATH, "san", "almtools"), S(MATH, "san", "synth"), S(MATH, "san", "powhist")],
   bounds="lmax 1..5 (thorough 7) with every basis coefficient and dense input on an 11x11x11 grid of Euler angles (a quarter of it above lmax 2 in the quick tier), lmax 9, 14, 20; smoothing, spectra, scaling, addition, conformity for every lmax 0..7 (10), mmax, seven widths, both precisions, polarised or not; realisations of seven kinds of spectra for every lmax 0..6 (10) and mmax, three seeds; every history of 4 (5) of 13 operations on two spectrum objects; every history of 4 (5) of 26 smoothing, rotation, scaling, spectrum and realisation calls on six expansions and a spectrum in one process; 3375 rotation matrices and their products",
   rule="one execution per (lmax, angles) or (lmax, mmax, width or spectrum and seed, precision) or history or matrix", assumptions=["The field-rotation identity of the reference itself is checked on three directions per case."]),
 "P10": dict(level="exploration", technique="bounded exhaustive enumeration of file layouts and requests on the real code against an independent reader and writer of the format",
   suites=[S(ALM, "plain", "subsets", real=[1, 2]), S(ALM, "plain", "complim", real=[2]), S(ALM, "plain", "columns"), S(ALM, "plain", "chunk"), S(ALM, "plain", "writeback"), S(ALM, "plain", "writelong"), S(ALM, "san", "writeback"), S(ALM, "san", "writelong"), S(ALM, "san", "complim")],
   bounds="every subset of the coefficients of every limit pair up to lmax 2 (thorough: a quarter of those of lmax 3) x 4 row orders x 6 keyword layouts x single/double columns, polarised, on 1..3 ranks; every combination of 6 (7) component limits x 8 keyword layouts; 4928 (14 784) files with 1..7 values in a row, three index and two value types and a further column; row counts within 1 of 1, 2, 3 read chunks (and within 40 of 4) in 5 orders; each read with every requested limit through sky, beam and the expansion reader; every expansion up to lmax 2 (3) out of 2..6 values per coefficient written with all limits up to 2 beyond its own, complete or compressed, in both precisions; 660 long expansions",
   rule="one execution per file layout (all requests inside) or per expansion and writing limits", assumptions=[A_SIM, "cfitsio and the file system work."]),
 "P15": dict(level="model_checking", technique="systematic exploration of operations, sizes, roots, communicators, arrival orders and both message protocols of the real helper under the MPI scheduler, against the definition of each operation",
   suites=[S(MPIM, "plain", "ops", real=[1, 2, 3, 4]), S(MPIM, "plain", "order", real=[2, 3, 4]), S(MPIM, "san", "ops"), S(MPIM, "san", "order")],
   bounds="24 operations on 10 element types, array lengths 0..3 on each rank independently, every root or permutation of partners, four reductions, 1..4 ranks (thorough 5), on the world, a duplicate, a subset and a reversed communicator, eager or rendezvous; every count matrix of the variable all-to-all with entries 0..3 on 2 ranks, 0..2 on 3 ranks and (thorough: all) 0..1 on 4 ranks; every arrival order for a representative of every operation",
   rule="one execution per (operation, type, sizes, root, order, communicator, protocol); every rank compares what it received and that its input is unchanged; all cases are non-trivial",
   assumptions=[A_SIM, "The fallback without MPI does not compile in the project's own sources and is not covered."]),
 "P19": dict(level="exploration", technique="bounded exhaustive enumeration of key sequences and ranges on the real helpers",
   suites=[S(UTIL, "plain", "sort"), S(UTIL, "plain", "part"), S(UTIL, "san", "sort"), S(UTIL, "san", "part")],
   bounds="each of the five sorts on every sequence of n keys out of k (k = 2..6, up to 70 000 (thorough 2 million) sequences per (n,k), n up to 16 (18)), every permutation of up to 8 (10) keys, every sequence of up to three ascending, constant or descending runs of 9..70 (140) keys, structured sequences of up to 1000 (20 011) keys; ranges of 1..130 (300) items and around 2^31, 2^32, 2^40, 2^60 from seven origins into 1..140 shares; every chunk size up to beyond the range",
   rule="one case per (function, n, k) or range, enumerating all its sequences or partitions; every row carries its number and is checked",
   assumptions=["Keys are ordered numbers (no NaN)."]),
 "P22": dict(level="exploration", technique="stateless exploration of every bounded operation history of two objects of each container class against a model of their contents",
   suites=[S(ARR, "plain", "arr", env={"VF_BALANCE": "1", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}), S(ARR, "plain", "arrt", env={"VF_BALANCE": "1", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}), S(ARR, "plain", "align", env={"VF_BALANCE": "1", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}), S(ARR, "plain", "arr2", env={"VF_BALANCE": "1", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}), S(ARR, "plain", "arr2a", env={"VF_BALANCE": "1", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}), S(ARR, "plain", "arr2t", env={"VF_BALANCE": "1", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}), S(ARR, "plain", "arr2b", env={"VF_BALANCE": "1", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}), S(ARR, "plain", "arr3", env={"VF_BALANCE": "1", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}), S(ARR, "plain", "alm", env={"VF_BALANCE": "1", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}),
           S(ARR, "san", "arr", env={"VF_ARR_DEPTH": "3"}), S(ARR, "san", "arrt", env={"VF_ARR_DEPTH": "3"}), S(ARR, "san", "align", env={"VF_ARR_DEPTH": "3"}), S(ARR, "san", "arr2", env={"VF_ARR_DEPTH": "3"}), S(ARR, "san", "arr2a", env={"VF_ARR_DEPTH": "3"}), S(ARR, "san", "arr2t", env={"VF_ARR_DEPTH": "3"}), S(ARR, "san", "arr2b", env={"VF_ARR_DEPTH": "3"}), S(ARR, "san", "arr3", env={"VF_ARR_DEPTH": "3"}), S(ARR, "san", "alm", env={"VF_ARR_DEPTH": "3"})],
   bounds="every sequence of 4 (thorough 5) out of 48 operations on two arrays of integers (also viewing foreign memory), of tracked elements and in aligned storage, out of 58 operations on two two-dimensional (plain, aligned, tracked, pointer-based) and three-dimensional arrays of six shapes, and out of 54 on two expansions of six limits; each once with a balance of the memory in use, and again (depth 3) under the address and undefined-behaviour monitors",
   rule="one execution per operation sequence; sequences with an operation that is not enabled (writing to an element of an empty array, using undefined content) are cut off there; every element, size, bound, search and comparison is inspected after each operation",
   assumptions=["Indices and pointers given by the caller are in range, foreign memory outlives its view, and arrays with a zero extent other than the empty one are excluded for the pointer-based class."]),
 "P23": dict(level="exploration", technique="bounded exhaustive enumeration of arguments, texts, files and histories on the real helpers against independent oracles",
   suites=[S(HELP, "plain", "num"), S(HELP, "plain", "text"), S(HELP, "san", "num"), S(HELP, "san", "text")],
   bounds="integer helpers and casts on every pair of boundary values (powers of two and type limits within 3, -130..130) of ten types, isqrt on the first 2^19 (thorough 2^23) numbers, 70000 below each type limit and every square within 600 of the powers of two; 2000 by 14 arguments of fmodulo; interpolation in every ascending and descending subset of 9 (10) values; every text of length up to 5..7 (6..8) over alphabets of 4 to 8 characters for trimming, conversion, splitting and tokenising; every exponent with 200 (550) mantissas of float and double through their text form; every parameter file of up to 3 out of 15 lines with and without a final line end; every command line of up to 4 out of 12 arguments with 0..2 leading names; every sequence of 6 (7) draws, copies and re-seedings of the random numbers and 1296 seeds; complex and vector arithmetic on grids",
   rule="one case per function and argument type (or an eighth of its domain), enumerating its whole domain",
   assumptions=["Texts are ASCII; unsigned numbers are written without a minus sign; single characters are not used as numbers; arguments of floor and nearest fit the integer type."]),
 "P24": dict(level="exploration", technique="bounded exhaustive enumeration of quantum numbers and small matrices on the real kernels against exact formulas",
   suites=[S(HELP, "plain", "w3j"), S(HELP, "plain", "w3jl"), S(HELP, "plain", "w3jbad"), S(HELP, "plain", "svd"), S(HELP, "san", "w3j"), S(HELP, "san", "w3jl"), S(HELP, "san", "svd")],
   bounds="every l2, l3 up to 20 (thorough 30) in half steps with every m2, m3; l2, l3 from 7 (19) values from 30.5 to 600 (2000.5) and with each of 0, 1/2, 1, 3/2, 4, with m2, m3 at 11 positions of their ranges; l2, l3 of 7 values up to 3 with every m2, m3 in quarter steps up to 4 and every array size, refusal included; every matrix of up to 6 entries over 4 values, of up to 9 over 3 (4), of up to 12 over 2 (3), 4x4 over 2, and up to 8x2, three right-hand sides each",
   rule="one case per (l2, l3) with all m2, m3, or per block of matrices; each symbol is compared with Racah's sum in exact integers, or for large numbers with the recursion, norm and sign that determine the family; each decomposition is multiplied out, its factors tested for orthonormality, and solutions for least squares and minimal length",
   assumptions=["Matrices have at least as many rows as columns."]),
 "P25": dict(level="exploration", technique="bounded exhaustive enumeration of dates, allocation histories, error conditions and operand values on the real helpers against independent oracles",
   suites=[S(CUTIL, "plain", "calendar"), S(CUTIL, "plain", "memory"), S(CUTIL, "plain", "cmem"), S(CUTIL, "plain", "errors"), S(CUTIL, "plain", "simd"), S(CUTIL, "san", "memory"), S(CUTIL, "san", "cmem"), S(CUTIL, "san", "errors"), S(CUTIL, "san", "simd")],
   bounds="every day of the years 1900..2119 at four times and every seventh (thorough: every) second of a day of every year, both conversions in either order, in eight time zones; every sequence of 4 (5) of taking, reserving and returning memory; every size up to 9000 and within 200 of the powers of two up to 2^22 and of page multiples; two-dimensional blocks up to 15x10, 256 growth histories; every error, warning and assertion form, every argument count 0..4 against 0..4; every operation of the packed vectors on every pair out of 12 to 17 values in every lane, every shift distance",
   rule="one case per (decade, time zone, order), allocation history, block of sizes, error form, or first operand",
   assumptions=["The kernel's memory accounting is exact to 5 MB.", "The Gregorian calendar without leap seconds, as in POSIX time."]),
 "P20": dict(level="exploration", technique="stateless exploration of every bounded operation history of the real file layer against a model of the file, and bounded exhaustive enumeration of types, shapes and values",
   suites=[S(FITS, "plain", "hist"), S(FITS, "plain", "cols"), S(FITS, "plain", "conv"), S(FITS, "plain", "img"), S(FITS, "plain", "keys"), S(FITS, "plain", "misuse"), S(FITS, "plain", "odd"), S(FITS, "plain", "ascii"),
           S(FITS, "san", "conv"), S(FITS, "san", "img"), S(FITS, "san", "keys"), S(FITS, "san", "misuse"), S(FITS, "san", "odd"), S(FITS, "san", "ascii")],
   bounds="every sequence of 4 (thorough 5) out of 25 operations (insert tables and images, full, partial and appending writes, reads, HDU movements, keywords, closing, opening) on one file with the whole file inspected; every column type and repetition count, every pair of writes by offset and length over three rows' worth of elements, every read section; every conversion between stored and requested type over boundary values; images of 1 to 3 dimensions up to 4x4 in every type with every section; every keyword type, name and value from an alphabet, overwritten and deleted; 40 operations on closed, failed and open handles; names, units and strings of length 0..139",
   rule="one execution per operation sequence or per (type, shape, offsets); every case reads back what it wrote",
   assumptions=["cfitsio and the file system work.", "Values are those the FITS format can hold: 8-bit integers are unsigned bytes, floating keywords carry 7 or 15 digits, trailing blanks of strings are not significant, ASCII tables hold the printed digits."]),
 "P18": dict(level="fault_enumeration", technique="exhaustive fault enumeration on the real code: every allocation and every file operation of every operation fails once, alone or with all later ones",
   suites=[S(FAULTS, "plain", "alloc"), S(FAULTS, "plain", "io"), S(FAULTS, "plain", "iocoll"), S(FAULTS, "plain", "leak"), S(FAULTS, "san", "alloc"), S(FAULTS, "san", "io"), S(FAULTS, "san", "iocoll")],
   bounds="about 45 operations (constructors, reading, writing, convolution, both interfaces, expansions, file layer, tools) with every allocation index (about 2600), and every open, read, positioning, write and close index of the file library, failing once or from there on; reading on 2 and 3 (thorough 4) ranks with the faults on the reader, another or every rank; every sequence of 2 (3) out of 74 succeeding and failing operations with the balance of memory blocks and open files afterwards",
   rule="one execution per (operation, fault index, single or lasting), each followed by a repetition without faults on the same objects, their destruction and the balance; every case injects its fault or (index 0) none",
   assumptions=[A_SIM, "Allocations inside cfitsio, the C++ runtime and MPI succeed; cfitsio ignores single failures of writing and positioning in files it modifies, so failing writes last.", "An allocation failure is confined to a single process: others of a collective call are not considered.", "A pointing passed to a convolution that runs out of memory must be filled again."]),
 "P16": dict(level="exploration", technique="stateless exploration of every bounded history of the wrapper in lock step with the C interface, and exhaustive failure injection at every C call, with the library under address and undefined-behaviour monitors",
   custom=lambda mod, tier, scratch, rp: __import__("pysuite").run(mod, tier, scratch, rp), suites=[],
   bounds="every enabled sequence of 3 (thorough 4) out of 35 operations (construction of skies, beams, detectors, convolvers with good and bad arguments, data exchange, normalisation, removals, allocation, dropping of references, convolution), followed by inspection of every live object and two convolutions; every one of 28 C entry points failing at every call of every operation, fresh or after 1 (2) other operations; every split of five rows over 2 and 3 (4) ranks under the real MPI library on three communicators with and without the inputs dropped",
   rule="one execution per operation sequence, fault placement (non-trivial when the fault was delivered) or split",
   assumptions=["The behaviour of the C interface itself is decided by P17.", "A failing C call returns what the interface documents and has no other effect.", "Arrays returned by Pointing.data() are used only while their Pointing lives."]),
 "P05": dict(level="model_checking", technique="stateless model checking of the real threaded code: a simulated OpenMP runtime runs every team under a controlled scheduler, every memory access is checked against vector clocks and every order at unordered synchronisation is explored",
   suites=[S(OMP, "omp", "self"), S(OMP, "omp", "conv"), S(OMP, "omp", "ranks"), S(OMP, "omp", "rotate")],
   bounds="teams of 1, 2, 3, 4, 5, 8 and 16 threads (thorough: 11 sizes) with every order of arrival up to three (four) threads and three orders above, threads alternating every 61 (small cases: 7 and 1) memory accesses; convolution with every lmax 1..5 (8), mmax, polarisation, two (four) orders and three row lists, lmax up to 25 (49), on one rank and in every split of six rows over 1..3 (4) ranks; rotation of one and three expansions and by matrix, and the threaded generator, lmax up to 33 (64) at five angles; orders of critical sections, atomics, dynamic loops and locks explored depth first with up to two preemptions (the current code has none; the self tests exercise them)",
   assumptions=[A_SIM, "Between barriers the threads of a team make no conflicting unordered accesses, as checked on every execution; interleavings of such accesses are equivalent, so one order represents all (partial-order reduction).", "Accesses inside libstdc++, libc and cfitsio binaries are not recorded, except memcpy, memmove, memset and the allocator; gcc code generation at -O1."]),
}
