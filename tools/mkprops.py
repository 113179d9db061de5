#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
M="src/conviqt_math.cpp"; IO="src/conviqt_io.cpp"; C="src/cconviqt.cpp"; H="src/conviqt.hpp"; U="src/conviqt_util.cpp"
MP="levels/cxxsupport/mpi_support.cc"; MPH="levels/cxxsupport/ls_mpi_support.h"; W="levels/cxxsupport/wigner.cc"
FH="levels/cxxsupport/fitshandle.cc"; AF="levels/Healpix_cxx/alm_fitsio.cc"; AT="levels/Healpix_cxx/alm_powspec_tools.cc"
FF="levels/libfftpack/ls_fft.c"; PY="python/libconviqt_wrapper/__init__.py"
def mech(*a): return [{"name":n,"where":w} for n,w in a]
P=[]
def add(id,title,statement,over,text,why,files,mechanism,state=None,observe=None,hook=False):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":mechanism}}
    if state: d["anchors"]["state"]=[{"name":state,"meaning":state,"where":files[0]}]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)

add("P01","Convolved signal equals the beam-times-sky harmonic sum",
 "For every sky and beam expansion, expansion limits (lmax, mmax), polarised or not, interpolation order and sample direction (theta in [0,pi], any finite phi and psi), the signal written by the convolution equals the value of the sum over l, sky m and beam m of s_lm conj(b_lm) d^l(theta) e^{i m phi} e^{i mb psi} (summed over T, G and C when polarised; d^l in the library's convention, which for the beam index k differs from the textbook one by (-1)^k), obtained by Lagrange interpolation of the requested order in theta and phi over the grid of lmax+1 colatitudes per half turn and 2 lmax+1 longitudes, and exactly in psi. At grid nodes it is the exact harmonic sum; the north/south mirror, the poles, the equator and the longitude wrap are no exception.",
 ["inputs","configurations"],"all small lmax/mmax/order/polarisation configurations, all basis coefficients, all node and boundary sample directions",
 "The repository's tests compare a handful of samples of one beam/sky pair; parity, sign, mirror, pole, wrap and order-dependent errors show up only for particular (l,m,mb,theta,order) combinations.",
 [M,W,FF],mech(("Wigner accumulation",M+":conviqt_hemiscm"),("polarised accumulation",M+":conviqt_hemiscm_pol"),("FFT and phase rotation",M+":todAnnulus"),("interpolation",M+":conviqt_tod_loop"),("stencil weights",M+":weight_ncm")),
 observe=["signal column of the pointing after convolver::convolve"])
add("P02","Result does not depend on how samples are spread over MPI ranks",
 "For any number of MPI ranks and any split of the samples over them (including ranks with no samples), each sample gets the same signal as when the whole list is convolved by a single rank, up to floating-point rounding. The signal of a sample does not depend on which other samples are convolved with it, on their number, or on their order.",
 ["configurations","schedules","inputs"],"all splits of bounded sample lists over 1..N ranks, every sample subset and order within bounds",
 "Tests use one balanced distribution on 2 and 4 ranks; redistribution tables (latitude segments, datacube ownership) take different branches for every split, including ranks that own nothing.",
 [M],mech(("latitude balancing",M+":distribute_colatitudes"),("sample redistribution",M+":todRedistribution5cm"),("ring ownership",M+":get_latitude_tables"),("datacube exchange",M+":alltoall_datacube")),
 state="rank-local pointing, segment tables, datacube slices",observe=["signal column on every rank"])
add("P03","All ranks always take part in the same collective operations",
 "During reading, normalisation, convolver construction and convolution, for every sample distribution, rank count, verbosity and input, all ranks of the communicator execute the same sequence of collective operations with matching kinds, roots, types and counts and non-overlapping buffers inside the memory they own, so that no run can hang or deliver data to the wrong place. Only the communicator supplied by the caller is used.",
 ["schedules","configurations","histories"],"all rank counts and sample splits within bounds, all rank arrival orders, including ranks without samples and sub-communicators",
 "A collective skipped on one rank hangs or silently pairs with a different call only for particular distributions (for instance a rank with neither samples nor received samples), which the tests never use.",
 [M,IO,MP],mech(("convolve",M+":convolve"),("datacube exchange",M+":alltoall_datacube"),("timing report",M+":timing_line"),("expansion broadcast",IO+":read"),("wrappers",MPH)),
 state="per-rank sequence of MPI calls",observe=["MPI call boundary"])
add("P04","Convolution returns the caller's rows intact, in order and indexed",
 "After a convolution every rank has exactly the rows it supplied, in the order it supplied them: longitude, colatitude and position angle are bit-identical, the signal column holds that row's signal, and the last column holds the row's running index across the communicator in rank order. Previous contents of the signal and last columns do not influence anything.",
 ["inputs","configurations"],"all row orders, duplicates, ties in colatitude, empty ranks and rank counts within bounds",
 "Rows travel through two exchanges and three sorts; ties, duplicates and unbalanced ranks decide whether the inverse permutation is right, and tests check only a few values in sorted input.",
 [M,U],mech(("row numbering and restore",M+":convolve"),("hemisphere split",M+":todgen"),("row sort",U+":hpsort_arr")),
 observe=["pointing array before and after convolver::convolve"])
add("P05","Convolution is race-free and identical for every OpenMP schedule",
 "For every OpenMP thread count and every interleaving of the threads, the convolution (and every other threaded routine of the library) yields the same result as with one thread, and no two threads access the same memory without ordering when one of them writes.",
 ["schedules","configurations"],"all thread counts up to a bound and all thread interleavings between synchronisation points",
 "Tests run one thread count on whatever interleaving the machine happens to produce; a data race shows only in rare schedules.",
 [M,W,AT],mech(("accumulation",M+":conviqt_hemiscm"),("polarised accumulation",M+":conviqt_hemiscm_pol"),("annulus transform",M+":todAnnulus"),("interpolation loop",M+":conviqt_tod_loop"),("rotation",AT+":rotate_alm")),
 state="memory shared by the thread team",observe=["all memory accesses in parallel regions"])
add("P06","No accepted input makes the library touch memory it does not own",
 "For every beam, sky, expansion limit, interpolation order, sample direction and rank count that the library accepts, it performs no out-of-bounds or use-after-free access, no arithmetic with undefined behaviour, and its results do not depend on uninitialised memory. Inputs outside the supported range are rejected with an error before any such access.",
 ["inputs","configurations"],"all combinations of small limits, orders, boundary angles and rank counts within bounds",
 "The tests use one size (lmax 32) and interior angles; index overruns need a boundary angle (exactly pi/2, pi, the longitude wrap), a tiny lmax, an order wider than the grid or limits that disagree.",
 [M,IO,W,"levels/Healpix_cxx/ls_alm.h"],mech(("hit map index",M+":distribute_colatitudes"),("longitude wrap",M+":conviqt_tod_loop"),("ring index",M+":beta_to_itheta"),("limit validation",M+":convolver::convolver")),
 observe=["address/undefined-behaviour monitors on every execution"])
add("P07","An error on one rank is reported on all ranks and hangs nobody",
 "When any rank hits an error the library detects (sample colatitude outside [0,pi] or non-finite angles on any rank, unreadable, malformed or too small expansion file, limits exceeding the inputs, polarised request without polarised data), the call fails on every rank of the communicator instead of leaving the others blocked. A failed convolution leaves the caller's pointing rows in place and the objects usable: a following valid call succeeds with the right result.",
 ["fault_sequences","inputs","configurations"],"all kinds of detected errors, on every subset of ranks, for every rank count within bounds, followed by a valid call",
 "Tests contain no failing call; single-rank failures in a collective code path hang instead of failing and cannot be probed by running successful calls.",
 [M,IO,C],mech(("angle check",M+":convolve"),("limit check",IO+":read"),("constructor checks",M+":convolver::convolver"),("error codes",C)),
 observe=["return code / exception on each rank"])
add("P08","Calibration and beam normalisation follow their documented state machine",
 "Normalising a beam that has been read (and whose intensity monopole is positive) scales all its components so that the intensity beam integrates to one, reports the factor, marks the beam normalised, and is a no-op returning 1 when repeated; reading data into the beam makes it un-normalised again. A convolution multiplies the signal by 2/(1+epsilon) of the convolver's current detector if and only if calibration was requested and the current beam is not normalised at that time.",
 ["histories"],"all sequences of read, normalise, set-epsilon, set-beam, set-detector and convolve up to a depth",
 "The tests run one linear sequence; the outcome depends on the order of reads, normalisations and object replacement.",
 [M,H,IO],mech(("normalize",M+":beam::normalize"),("calibration",M+":convolve"),("flag",H+":normalized_"),("re-read",IO+":beam::read")),
 state="beam normalised flag, detector epsilon, expansion coefficients",observe=["signal column, normalize() result, normalized()"])
add("P09","A convolver's result depends only on its current inputs, not its history",
 "However often a convolver has been used, whichever sky, beam and detector it had before, and whatever other objects share its inputs, a convolution gives exactly what a freshly created convolver with the current sky, beam, detector and parameters gives. Convolving does not modify the sky, the beam or the detector, and replacing or re-reading an input takes effect at the next convolution (or that convolution fails cleanly if the new input does not support the convolver's limits).",
 ["histories"],"all operation sequences over shared skies, beams, detectors, pointings and convolvers up to a depth",
 "Stale caches or modified inputs only show after particular sequences of replacement and reuse; the tests replace nothing.",
 [M,H],mech(("weight cache",M+":weight_ncm_initialize"),("replacement",M+":set_sky"),("replacement",M+":set_beam"),("Wigner caches",W+":prepare")),
 state="convolver members, cached weights",observe=["signal column"])
add("P10","Expansions are read faithfully and identically on all ranks",
 "Reading a spherical-harmonic expansion file gives exactly the coefficients stored in it for all (l,m) within the requested limits and zero for those absent from it, whatever the row order, number of rows, presence of the size keywords or of coefficients beyond the limits, and all ranks end up with the same data. Writing an expansion and reading it back returns the same coefficients (zero beyond the stored limits).",
 ["inputs","configurations"],"all small file limits, requested limits, missing-row subsets, row orders, keyword presence, polarised or not, all rank counts within bounds, and files longer than a read chunk",
 "Two fixed complete files are read in the tests, both at one set of limits; truncation, gaps and chunk boundaries are never exercised.",
 [AF,IO,FH],mech(("table read",AF+":read_Alm_from_fits"),("size detection",AF+":get_almsize"),("table write",AF+":write_Alm_to_fits"),("broadcast",IO+":read")),
 observe=["coefficient arrays on every rank"])
add("P11","Requested expansion limits are honoured, reported and enforced",
 "A beam or sky read with positive limits has exactly those limits, and with non-positive limits those of the file (a sky always with mmax = lmax); requests beyond the file fail. A convolver accepts exactly limits (lmax at least 1) available in both of its inputs, and with automatic limits uses the largest expansion both inputs support, so coefficients beyond the chosen limits never influence the signal.",
 ["inputs","configurations"],"all combinations of file limits, requested limits and convolver limits within small bounds",
 "Tests use one combination; limit mix-ups (lmax for mmax, larger for smaller) only matter when the limits differ.",
 [IO,M],mech(("beam limits",IO+":beam::read"),("sky limits",IO+":sky::read"),("convolver limits",M+":convolver::convolver")),
 observe=["get_lmax/get_mmax, expansion sizes, signal, error returns"])
add("P12","Sky preparation changes exactly the intended coefficients",
 "Removing the monopole zeroes exactly the intensity coefficient (0,0) and removing the dipole exactly the intensity coefficients (1,0) and (1,1), leaving every other coefficient of every component untouched, for any lmax; reading a sky with a deconvolution width divides each coefficient by the Gaussian window of that width (with the spin-2 window for polarisation), and width zero changes nothing.",
 ["inputs","histories"],"all small lmax, polarisation, deconvolution widths and orders of removal operations",
 "Tests remove the monopole and dipole of one sky and check the final signal only.",
 [M,IO,AT],mech(("remove_monopole",M),("remove_dipole",M),("deconvolution",AT+":smoothWithGauss"),("call",IO+":sky::read")),
 observe=["sky coefficient arrays"])
add("P13","Wigner matrix elements are right for all indices and any call history",
 "For every lmax, pair of azimuthal indices, angle (any real value) and degree, the Wigner generator's element equals the reduced Wigner matrix element d^l to near machine accuracy (elements below the accuracy threshold may be treated as zero), including poles and negative or >pi angles, through every calculation variant, and independent of which index pairs were prepared before. The fixed-angle recursive generators give the same matrices.",
 ["inputs","histories"],"all (m1,m2,l) up to a bound, angle sets including poles, all preparation sequences up to a depth, plus large-l samples of scale changes",
 "Tests never look at a matrix element; the generator caches recursion coefficients between preparations and takes different branches by magnitude, parity and index sign.",
 [W,"levels/cxxsupport/ls_wigner.h"],mech(("prepare cache",W+":prepare"),("scalar recursion",W+":calc"),("two-angle recursion",W+":calc"),("Risbo recursion",W+":recurse")),
 state="prepared index pair and recursion coefficients",observe=["returned elements and first index"])
add("P14","FFT plans compute the discrete Fourier transform for every length",
 "For every length (including prime lengths that take the chirp-z path), forward and backward complex transforms and both real-data interfaces compute the defining sums to rounding accuracy, backward after forward is length times the input, and plan reuse, copying, assignment and resizing do not change results.",
 ["inputs","histories"],"every length up to a bound, all basis vectors (linearity), all short plan copy/assign/resize histories",
 "The bundled FFT program checks round trips, which cannot detect errors that cancel between forward and backward, and never copies or resizes a plan.",
 [FF,"levels/libfftpack/fftpack.c","levels/libfftpack/fftpack_inc.c","levels/libfftpack/bluestein.c","levels/cxxsupport/ls_fftpack_support.h"],mech(("plan selection",FF+":make_complex_plan"),("radix kernels","levels/libfftpack/fftpack_inc.c"),("chirp-z","levels/libfftpack/bluestein.c")),
 state="plan work arrays",observe=["transform output"])
add("P15","MPI helper operations deliver exactly the documented data",
 "Every operation of the communication helper (broadcast, reduce, allreduce, gather, gatherv, allgather, all-to-all in its fixed, variable and easy forms, send/receive and exchange, work sharing) delivers, for every rank count, element type, size distribution including empty contributions and root, exactly the data its interface promises on every rank, and never leaves a partner waiting.",
 ["configurations","schedules"],"all operations x rank counts x roots x size distributions x element types within bounds, all rank arrival orders",
 "The project has no test of the helper; most of its operations are used with one size and root, or not at all.",
 [MP,MPH,"levels/cxxsupport/ls_share_utils.h"],mech(("wrappers",MP),("offset preparation",MP+":all2allv_easy_prep"),("gatherv sizing",MP+":gatherv_helper1_m")),
 observe=["buffers on every rank after each operation"])
add("P16","The Python wrapper is a faithful, safe view of the library",
 "Every sequence of Python-level operations behaves like the same sequence on the library: coefficient arrays written with set_data are returned by get_data, signals agree with the C interface, and every library failure raises an exception instead of continuing. Dropping Python references in any order never invalidates a library object that another live wrapper object still uses, and once the last reference to a wrapper object is gone its library object is released.",
 ["histories","inputs"],"all sequences of construction, data exchange, reference dropping and convolution up to a depth",
 "The Python test is one linear script that keeps every object alive and triggers no error.",
 [PY,C],mech(("object lifetime",PY+":Convolver"),("error mapping",PY),("data exchange",PY+":set_data")),
 observe=["Python return values and exceptions"])
add("P17","The C interface reports every failure by code and never throws",
 "No call of the C interface lets an exception reach its caller: constructors return null and operations return a nonzero code when they fail, zero otherwise, for every sequence of create, read, configure, convolve and delete operations with valid handles. Its getters return what the setters stored, and its results equal those of the C++ interface.",
 ["histories","fault_sequences"],"all operation sequences over the C interface up to a depth, with failing and succeeding arguments",
 "The C test calls every function once with valid arguments; failure paths are never taken.",
 [C,"src/cconviqt.h"],mech(("convolve",C+":conviqt_convolver_convolve"),("convolver creation",C+":conviqt_convolver_new"),("reads",C+":conviqt_beam_read")),
 observe=["return codes and escaping exceptions"])
add("P18","Resource failures surface as errors, and nothing is leaked",
 "If any memory allocation, or any open, read, write or close of a file, fails at any point of a library call, the call reports an error (exception or code) without crashing, memory corruption or delivering wrong data as success, and the objects involved can be destroyed or used again (a pointing whose convolution ran out of memory must be filled again); when reading fails on the reading rank, every rank of the communicator reports it. After all objects are destroyed, no sequence of calls, failing or not, leaves memory or files held.",
 ["fault_sequences","crash_points"],"every allocation index and every input/output call index of each library operation as a single failure point, and every truncation length of the input files by block",
 "Tests run without resource failures; each of the hundreds of failure points needs its own execution.",
 [M,IO,C,FH,"levels/cxxsupport/ls_arr.h"],mech(("allocation",'levels/cxxsupport/ls_alloc_utils.h'),("file handling",FH),("catch blocks",C)),
 observe=["return codes, exceptions, allocation balance"])
add("P19","Sorting and work partitioning neither lose nor duplicate items",
 "Every sort helper returns a permutation of its rows ordered by the key column with the rows kept together, for every input including ties; the range-sharing and chunking helpers split any non-empty range into consecutive pieces that cover it exactly once, with sizes differing by at most one for shares and bounded by the chunk size for chunks.",
 ["inputs"],"all key sequences over a small alphabet up to a length (with ties), all (range, shares, chunk) triples up to a bound",
 "There are no tests of these helpers; ties, remainders and sizes below the share count are never exercised.",
 [U,"levels/cxxsupport/ls_share_utils.h"],mech(("row sort",U+":hpsort_arr"),("pair sorts",U+":hpsort_DL"),("shares","levels/cxxsupport/ls_share_utils.h:calcShareGeneral"),("chunks","levels/cxxsupport/ls_share_utils.h:chunkMaker")),
 observe=["output arrays and ranges"])
add("P20","FITS tables, images and keywords round-trip through the file layer",
 "Columns, images and header keywords of every supported type written through the file layer, in any sequence of full or partial (offset) writes, appends and HDU movements, are read back with the same values, lengths, types and units, whether as a whole, by offset or by chunk, up to what the format holds (8-bit integers are stored as unsigned bytes, floating-point keywords with 7 or 15 digits, ASCII tables with the printed digits, strings without trailing blanks); files opened by open() are read-only; an open, read, write or modification that cannot be satisfied raises an error and leaves file and handle usable.",
 ["histories","inputs"],"all sequences of create/insert/write/append/seek/read operations up to a depth over all column types and sizes around chunk boundaries",
 "The project has no test of the file layer beyond reading two complete files front to back.",
 [FH,"levels/cxxsupport/ls_fitshandle.h"],mech(("column I/O",FH+":write_column"),("HDU state",FH+":goto_hdu"),("keywords",FH+":get_key")),
 state="current HDU, its columns and row count",observe=["values read back"])
add("P21","Expansion tools implement their harmonic definitions",
 "Rotating an expansion by any Euler angles or rotation matrix equals the Wigner-matrix transformation of its coefficients (so it preserves each degree's power, and a rotation followed by its inverse restores the input); Gaussian smoothing, power and cross spectra, scaling and addition act on every coefficient by their definitions, polarised or not, for any lmax and mmax; a Gaussian realisation of a spectrum, polarised or not, combines independent unit draws of the generator, each used once, so that its expected spectra are the requested ones, and refuses impossible correlations; a spectrum object has exactly the components, sizes and values last given to it.",
 ["inputs"],"all small lmax/mmax, all basis coefficients, Euler-angle grids including 0, pi/2, pi and negative angles; all short histories of spectrum objects",
 "None of these tools is tested except implicitly by one smoothing call with zero width.",
 [AT,"levels/Healpix_cxx/ls_alm.h","levels/cxxsupport/rotmatrix.cc"],mech(("rotation",AT+":rotate_alm"),("smoothing",AT+":smoothWithGauss"),("spectra",AT+":extract_powspec"),("realisations",AT+":create_alm_pol"),("spectrum object","levels/Healpix_cxx/powspec.cc:Set")),
 observe=["coefficient arrays, spectra"])
add("P22","Array and expansion containers behave like mathematical arrays",
 "After any sequence of allocations, resizings, assignments, copies, transfers, swaps, fills and writes, every array and expansion container (one-, two- and three-dimensional, aligned, pointer-based) has exactly the size, limits and elements those operations define, independent of other objects (except where memory was given to it), correctly aligned, with searches, extrema, scaling and comparisons that agree with its elements; requests it must refuse (factor or data arrays of the wrong size, non-conformable operands, extrema of nothing) raise an error and change nothing; every element is constructed and destroyed once and all memory is returned.",
 ["histories"],"all operation sequences up to a depth on two objects of each class over a small set of shapes",
 "No test exercises these classes directly; self-assignment, reuse after a transfer, views of foreign memory and equal-size reallocation need particular histories.",
 ["levels/cxxsupport/ls_arr.h","levels/cxxsupport/ls_alloc_utils.h","levels/Healpix_cxx/ls_alm.h","levels/Healpix_cxx/alm.cc"],mech(("one-dimensional storage","levels/cxxsupport/ls_arr.h:arrT"),("two dimensions","levels/cxxsupport/ls_arr.h:arr2T"),("row pointers","levels/cxxsupport/ls_arr.h:arr2b"),("expansions","levels/Healpix_cxx/ls_alm.h:Alm")),
 state="pointer, size, ownership and limits of each object",observe=["sizes, elements, pointers, errors, memory in use"])
add("P23","Numeric, text and random-number helpers meet their documentation",
 "For every argument in their domain: floor, nearest, modulo, integer square root and logarithm, sign, approximate comparison, interpolation and checked casts return the mathematically defined value (casts fail exactly when the value does not fit); numbers and truth values written as text read back unchanged and malformed text is refused; trimming, case folding, padding, splitting, tokenising, parameter files and command lines yield exactly the documented values; type tables are consistent; complex and vector arithmetic is exact to rounding; the random generator reproduces its documented sequence for every seed and history, with uniform numbers in [0,1).",
 ["inputs","histories"],"boundary values of all types, all short texts over small alphabets, all small files and command lines, all short draw histories",
 "These helpers have no tests; type limits, overflow and unusual texts are exactly what ordinary use does not reach.",
 ["levels/cxxsupport/ls_math_utils.h","levels/cxxsupport/string_utils.cc","levels/cxxsupport/ls_safe_cast.h","levels/cxxsupport/ls_rng.h","levels/cxxsupport/ls_datatypes.h","levels/cxxsupport/ls_xcomplex.h","levels/cxxsupport/ls_vec3.h"],mech(("numbers","levels/cxxsupport/ls_math_utils.h:isqrt"),("text","levels/cxxsupport/string_utils.cc:stringToData"),("casts","levels/cxxsupport/ls_safe_cast.h:safe_cast"),("random numbers","levels/cxxsupport/ls_rng.h:planck_rng")),
 observe=["return values, errors"])
add("P24","Coupling coefficients and singular value decomposition are exact",
 "The Wigner 3j recursion returns, for all integer and half-integer l2, l3 and allowed m2, m3, every symbol of the allowed l1 range with the right value and sign and writes nothing else; quantum numbers that are not allowed, or an array too small for the symbols, end the program with an error before anything is written; the singular value decomposition of any matrix with at least as many rows as columns, including rank-deficient ones, has non-negative singular values and orthonormal factors whose product is the matrix, and its solver gives the shortest least-squares solution.",
 ["inputs"],"all quantum numbers up to a bound, all small matrices over a few values",
 "Neither kernel has a test; the decomposition failed on singular matrices (repaired).",
 ["levels/c_utils/wrec3a.c","levels/c_utils/svd_c.c"],mech(("3j recursion","levels/c_utils/wrec3a.c:wrec3jj"),("decomposition","levels/c_utils/svd_c.c:svd_init"),("solver","levels/c_utils/svd_c.c:svd_solve")),
 observe=["result arrays"])
CU="levels/c_utils/"
add("P25","Calendar, memory, error and packed-vector helpers report the truth",
 "In every time zone, the conversions between UTC calendar dates and seconds since 1958-01-01 agree with the Gregorian calendar (no leap seconds) for every second of the years 1900 to 2119, invert each other and leave the time zone as it was. The resident set size and its high-water mark are what the kernel reports (in bytes, -1 only where unsupported), and the wall clock never runs backwards. The C allocation helpers give aligned, disjoint memory of the size requested and touch no other element. Failed C assertions end the program with status 1 and a message naming the place, warnings only write it, conditions are evaluated once, C++ errors carry exactly the text given; a program started with another number of arguments than it needs ends with status 1. Every packed float, double and integer vector operation equals the scalar operation in each lane.",
 ["inputs","configurations","histories"],"all dates and times of day within 220 years in several time zones, all short allocation histories, all sizes and operand values within bounds",
 "None of these helpers has a test; a sign, unit or boundary error shows only on particular dates, sizes or lanes.",
 [CU+"time_utils.c",CU+"memusage.c",CU+"c_utils.c",CU+"c_utils.h",CU+"walltime_c.c","levels/cxxsupport/error_handling.cc","levels/cxxsupport/ls_sse_utils_cxx.h"],mech(("calendar",CU+"time_utils.c:dateandtime2planck"),("memory use",CU+"memusage.c:residentSetSize"),("allocation",CU+"c_utils.h:ALLOC2D"),("errors","levels/cxxsupport/ls_error_handling.h:levels_assert"),("packed vectors","levels/cxxsupport/ls_sse_utils_cxx.h:svec")),
 observe=["return values, process exit status, standard error"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P),[ (d["id"],len(d["title"])) for d in P if len(d["title"])>80])
