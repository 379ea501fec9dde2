"""Which harness entries decide which property, within which bounds."""
WORKERS = 8
COMMON_ASSUMPTIONS = [
    "clang 18 -O2 IR of /repo's current sources stands for the code; the same sources compiled with g++ confirm sampled paths and every counterexample",
    "memory allocation succeeds; library functions outside /repo follow their documented contract",
]
def J(src, entry, reach, **k):
    d = {"src": "harness/" + src, "entry": entry, "reach": reach}; d.update(k); return d
PROPS = {}
NOT_APPLICABLE = {}
PROPS["C01"] = {
    "bounds": "every symbol value; all 8 supported widths; every sequence length 0..71 (quick), 0..150 (thorough): every tail position of every group size (2..8 symbols) after 0, 1, 2 and more whole groups; every unsupported 32-bit width; bufferSize for every n < 2^56",
    "outside": "longer sequences (the group loop repeats the same body)",
    "jobs": [
        J("C01.cpp", "c01_roundtrip", ["roundtrip"], defs_quick=["-DMAXN=71"], defs_thorough=["-DMAXN=150"]),
        J("C01.cpp", "c01_unpack", ["unpack"], defs_quick=["-DMAXN=71"], defs_thorough=["-DMAXN=150"]),
        J("C01.cpp", "c01_long", ["roundtrip"]), J("C01.cpp", "c01_unsupported", ["refused"]), J("C01.cpp", "c01_size", ["size"]),
    ]}
PROPS["C02"] = {
    "bounds": "symbolic sorted tables (ties allowed) of every size 1..12 (quick) / 1..20 (thorough) for all six lookup variants; for the variants used by the encoder every size 2..600 (quick) / 2..3000 (thorough) and 1023, 1024, 4095, 4096, 65534, 65535, with the value at every position of the table",
    "outside": "other sizes above 600/3000 and tables larger than 65535; for sizes above the first bound a lookup that uses the levels other than by comparing them with the value is seen with two distinct levels only",
    "jobs": [J("C02.cpp", "c02_small", ["small"], defs_quick=["-DMAXN=12"], defs_thorough=["-DMAXN=20"], opts=["--relaxed"])] +
            [J("C02.cpp", e, ["big"], opts=["--no-merge", "--max-paths", "100000000"], defs_quick=["-DMAXN=12", "-DALLN=600", "-DSIZES=1023,1024,4095,4096,65534,65535"], defs_thorough=["-DMAXN=20", "-DALLN=3000", "-DSIZES=1023,4095,4096,16383,32768,65534,65535"]) for e in ("c02_big", "c02_big_branchless")]}
_SE = ["stochasticencoder.cc"]
PROPS["C03"] = {
    "bounds": "every float (including NaN, infinities, signed zeros, subnormals); (a) arbitrary strictly increasing, interleaved symbolic tables of 3, 7 and 15 levels built by the real Student-t and truncated Gaussian constructors; (b) the tables of uniform, Gaussian, truncated Gaussian (2.5, 4) and Student-t (1, 3) with 2, 3, 4, 6, 8 bits (quick) and 10, 12 bits (thorough)",
    "outside": "16 bit tables; other parameters for the larger sizes",
    "assumptions": ["the GSL quantile functions are strictly increasing (a); evaluated by the installed GSL (b)"],
    "jobs": [J("C03.cpp", e, r, repo=_SE, defs=["-DSYMTABLE"], defs_quick=["-DQS=4,8"], defs_thorough=["-DQS=4,8,16"], opts=["--relaxed"]) for e, r in (("c03_any_encode", ["finite", "nonfinite"]), ("c03_any_levels", ["level"]), ("c03_any_monotone", ["monotone"]))] +
            [J("C03.cpp", e, r, repo=_SE, defs_quick=["-DQS=4,8,16,64,256"], defs_thorough=["-DQS=4,8,16,64,256,1024,4096"], opts=["--no-merge"]) for e, r in (("c03_encode", ["finite", "nonfinite"]), ("c03_levels", ["level"]))]}
PROPS["C04"] = {
    "bounds": "values: every float of magnitude <= 1e6 and zero, NaN and infinities; every 31 bit dither value; the real tables of 8 distribution/parameter combinations with 2, 3, 4 bits (share, quick), 2..6 (thorough) and 2..8 / 2..12 bits (values on levels)",
    "outside": "shares closer to their exact value than 2^-20 (rounding); wider tables for the share",
    "assumptions": ["share: floating point arithmetic over-approximated by real arithmetic with relative rounding error", "quantile functions evaluated by the installed GSL"],
    "jobs": [
             J("C04.cpp", "c04_share", ["between", "below", "above", "nonfinite"], repo=_SE, defs_quick=["-DQS=4,8,16"], defs_thorough=["-DQS=4,8,16,64"], opts=["--relaxed", "--no-merge"]),
             J("C04.cpp", "c04_onlevel", ["onlevel"], repo=_SE, defs_quick=["-DQS=4,8,16,64,256"], defs_thorough=["-DQS=4,8,16,64,256,1024,4096"], opts=["--no-merge"]),
             J("C04.cpp", "c04_range", ["range"], repo=_SE, defs=["-DQS=4"])]}
PROPS["C05"] = {
    "bounds": "(a) Student-t and truncated Gaussian tables of 3 and 7 levels (15 thorough) for every strictly increasing odd quantile function (values 1e-3..1e3, neighbours 1e-4 of their magnitude apart), every rms in 1e-3..1e3 and every tail probability in 1e-6..0.4; (b) uniform, Gaussian, Student-t (5 values of nu) and truncated Gaussian (6 truncations) tables with 2, 3, 4, 6, 8 bits (10, 12 thorough) for every scale in 1e-15..1e15; (c) the same distributions with 10, 12 (16 thorough) bits at 3 scales",
    "outside": "other nu / truncation values together with more than 7 levels; scales outside 1e-15..1e15",
    "assumptions": ["(a) the GSL quantile functions are strictly increasing and odd around one half; (b), (c) evaluated by the installed GSL, whose Gaussian quantile is proportional to sigma", "(a), (b): rounding over-approximated by relative errors on reals"],
    "jobs": [J("C05.cpp", "c05_any", ["table"], repo=_SE, defs=["-DSYMTABLE", "-DSCALED"], defs_quick=["-DQS=4,8"], defs_thorough=["-DQS=4,8,16"], opts=["--relaxed", "--no-merge"]),
             J("C05.cpp", "c05_scale", ["table"], repo=_SE, defs=["-DSCALED"], defs_quick=["-DQS=4,8,16,64,256"], defs_thorough=["-DQS=4,8,16,64,256,1024,4096"], opts=["--relaxed", "--no-merge"]),
             J("C05.cpp", "c05_fixed", ["table"], repo=_SE, defs_quick=["-DQS=1024,4096"], defs_thorough=["-DQS=1024,4096,65536"], opts=["--no-merge", "--max-steps", "2000000000"])]}
PROPS["C06"] = {
    "bounds": "WeightBlockEncoder: every combination of non-negative finite weights (zero or 1e-30..1e30) for blocks of up to 4 values (rows x channels x polarisations, 6 shapes; 9 thorough), and every pair of neighbouring weights inside blocks of 24, 20 and 12 values; 4, 16, 256, 4096 and 65536 levels; every weight below six maxima between 1e-44 and 3.4e38; WeightEncoder: every vector of 1..3 weights",
    "outside": "larger blocks with all weights free; negative and non-finite weights (not weights)",
    "assumptions": ["rounding over-approximated by relative errors on reals"],
    "jobs": [J("C06.cpp", "c06_all", ["block"], opts=["--relaxed", "--no-merge"], defs_thorough=["-DSHAPES={1,1,1},{1,1,2},{2,1,1},{1,2,1},{2,1,2},{1,1,4},{2,2,1},{3,1,1},{1,2,2}"]),
             J("C06.cpp", "c06_focus", ["block"], opts=["--relaxed", "--no-merge"]),
             J("C06.cpp", "c06_exact", ["exact"], opts=["--relaxed", "--no-merge"]),
             J("C06.cpp", "c06_vector", ["vector"], opts=["--relaxed", "--no-merge"])]}
PROPS["C25"] = {
    "bounds": "every sequence of 2 (quick) / 3 (thorough) operations out of 31 kinds (all modifying members, copies, moves, swaps, arguments that are elements of the vector itself) with every position and counts 0, 1, 2, 5, from every start state of 0..2 elements and 0..2 spare capacity; every element value (32 bit); allocators with and without propagation; all comparison operators on sizes 0..3",
    "outside": "longer sequences and larger counts; other element types; ranges that alias the vector",
    "jobs": [J("C25.cpp", "c25_ops", ["sequence"], defs_quick=["-DDEPTH=2"], defs_thorough=["-DDEPTH=3"], opts=["--no-merge"], opts_thorough=["--max-paths", "1000000000"], time_thorough=5000), J("C25.cpp", "c25_propagating", ["sequence"]), J("C25.cpp", "c25_construct", ["constructed"]), J("C25.cpp", "c25_compare", ["compared"])]}
PROPS["C27"] = {
    "bounds": "every sequence of 3 (quick) / 4 (thorough) row writes to rows 0..3 (any order, repeated, with gaps) of buffers of 1..2 polarisations and channels, every value (including NaN payloads and infinities) and every 64 bit antenna index; conversion to double precision of 1..3 rows",
    "outside": "more rows and channels; reading rows that were never set",
    "jobs": [J("C27.cpp", e, [r], defs_quick=["-DWRITES=3"], defs_thorough=["-DWRITES=4"]) for e, r in (("c27_visibilities", "rows"), ("c27_weights", "rows"), ("c27_convert", "convert"))]}

_BE = ["stochasticencoder.cc", "rowtimeblockencoder.cc", "rftimeblockencoder.cc", "aftimeblockencoder.cc"]
_RS = ["--relaxed", "--resolve-selects"]
_BEASM = ["rounding over-approximated by relative errors on reals", "the dither source is any generator: every draw is an arbitrary value of its range"]
PROPS["C07"] = {
    "bounds": "every block of the listed shapes (rows x polarisations x channels: 1x1x1, 3x1x1, 1x2x1, 1x1x2; thorough also 3x2x2 and 3 antennas) whose components are zero or have magnitudes 1e-6..1e6; per row the largest component is one of three magnitudes at every position (for the smallest shape any magnitude), everything else free; 2 and 3 bits; uniform and Gaussian levels; every dither value",
    "outside": "larger blocks; other magnitudes of the largest component except in the smallest shape",
    "assumptions": _BEASM,
    "jobs": [J("C07.cpp", "c07_row", ["bound"], repo=_BE, mock=["rnd"], opts=_RS, defs=["-DROWS", "-DDITHER=%d" % d, "-DQS=%d" % q, "-DDISTS=0,1"], defs_thorough=["-DSHAPES={2,1,0,1,1},{2,1,2,1,1},{2,1,0,2,1},{2,1,0,1,2},{3,3,0,2,1},{2,1,2,2,2}"]) for d in (0, 1) for q in (4, 8)] +
            [J("C07.cpp", "c07_row", ["bound"], repo=_BE, mock=["rnd"], opts=_RS, defs=["-DROWS", "-DDITHER=0", "-DQS=4", "-DDISTS=0", "-DSHAPES={2,1,0,2,2}"])] +
            [J("C07.cpp", "c07_row", ["bound"], repo=_BE, mock=["rnd"], opts=["--relaxed", "--no-merge"], defs=["-DROWS", "-DANYTOP", "-DDITHER=%d" % d, "-DQS=4", "-DDISTS=0", "-DSHAPES={2,1,0,1,1}"]) for d in (0, 1)]}
PROPS["C08"] = {
    "bounds": "every block of the listed shapes (rows x polarisations x channels: 1x1x1, 3x1x1, 1x2x1, 1x1x2; thorough also 3x2x1, 3x1x2, 3 antennas) whose components are zero or have magnitudes 1e-6..1e6; in the polarisation of the checked component each row has a largest component (all positions in turn) of one of three magnitudes and the channel a largest row-relative component (all rows, four relative sizes, or none); everything else free; 2 and 3 bits; uniform and Gaussian levels; every dither value",
    "outside": "larger blocks; ties between maxima closer than 1e-7",
    "assumptions": _BEASM,
    "jobs": [J("C07.cpp", "c08_rf", ["bound"], repo=_BE, mock=["rnd"], opts=_RS, defs=["-DRFS", "-DDITHER=%d" % d, "-DQS=%d" % q, "-DDISTS=%d" % k], defs_thorough=["-DSHAPES={2,1,0,1,1},{2,1,2,1,1},{2,1,0,2,1},{2,1,0,1,2},{3,3,0,2,1},{2,1,2,1,2}"]) for d in (0, 1) for q in (4, 8) for k in (0, 1)] +
            [J("C07.cpp", "c08_rf", ["bound"], repo=_BE, mock=["rnd"], opts=_RS, defs=["-DRFS", "-DDITHER=0", "-DQS=4", "-DDISTS=0", "-DSHAPES=" + sh]) for sh in ("{2,1,0,2,2}", "{3,2,0,2,1}")]}
PROPS["C09"] = {
    "bounds": "blocks of 2 antennas (1 and 2 channels, 1 and 2 polarisations, with and without auto-correlations) and 3 antennas (3 baselines; 2 baselines with an absent antenna): in each visibility the larger component has one of five magnitudes (2 patterns quick, 5 thorough; ratio up to 2000) and the other is free (zero or 1e-6 up to the larger); 2 and 3 bits; uniform and Gaussian levels; every dither value; baselines given in either antenna order",
    "outside": "larger blocks; antennas fainter than 1e-5 of the brightest (stored as zero by design)",
    "assumptions": _BEASM + ["square roots (used in the RMS estimates only) return one of 15 values by magnitude of their argument: the factors must fit whatever the estimate"],
    "jobs": [J("C07.cpp", "c09_af", ["bound"], repo=_BE, mock=["rnd"], opts=_RS, cflags=["-include", "harness/coarse_sqrt.h"], defs=["-DAFS", "-DDITHER=%d" % d, "-DQS=%d" % q, "-DDISTS=%d" % k, "-DSHAPES=" + sh], defs_quick=["-DPATTERNS=2"], defs_thorough=["-DPATTERNS=5"]) for d, q, k in ((0, 4, 0), (0, 8, 1), (1, 4, 0)) for sh in ("{2,1,0,1,1},{2,1,2,1,1},{2,1,0,2,1}", "{2,1,0,1,2}", "{3,3,0,1,1}", "{4,2,0,1,1}")] +
            [J("C07.cpp", "c09_af", ["bound"], repo=_BE, mock=["rnd"], opts=_RS, cflags=["-include", "harness/coarse_sqrt.h"], defs=["-DAFS", "-DDITHER=0", "-DQS=4", "-DDISTS=0", "-DSHAPES=" + sh, "-DPATTERNS=2"]) for sh in ("{2,1,0,2,2}", "{3,2,0,2,1}")] +
            [J("C07.cpp", "c09_af", ["bound"], repo=_BE, mock=["rnd"], opts=_RS, tiers=["thorough"], cflags=["-include", "harness/coarse_sqrt.h"], defs=["-DAFS", "-DDITHER=1", "-DQS=8", "-DDISTS=1", "-DPATTERNS=5", "-DSHAPES=" + sh]) for sh in ("{2,1,0,1,1},{2,1,2,1,1},{2,1,0,2,1}", "{2,1,0,1,2}", "{3,3,0,1,1}")]}
_AFI = ["-include", "harness/coarse_sqrt.h"]
_SQRT = "square roots (used in the RMS estimates only) return one of 15 values by magnitude of their argument: the factors must fit whatever the estimate"
def _three(defs, shq, sht, combos, pat=2, af=""):
    """the three block encoders over the given shapes"""
    out = []; ex = lambda t: ["{%s}" % x for x in t.strip("{}").split("},{")] if t else []
    for d, q, k in combos:
        for m, e, x in (("-DROWS", "c07_row", {}), ("-DRFS", "c08_rf", {}), ("-DAFS", "c09_af", {"cflags": _AFI})):
            D = defs + [m, "-DPATTERNS=%d" % pat, "-DDITHER=%d" % d, "-DQS=%d" % q, "-DDISTS=%s" % k]
            if m != "-DAFS": out.append(J("C07.cpp", e, ["bound"], repo=_BE, mock=["rnd"], opts=_RS, defs=D, defs_quick=["-DSHAPES=" + shq], defs_thorough=["-DSHAPES=" + sht], **x))
            else:
                for sh in sorted(set(ex(shq) + ex(sht) + ex(af))): out.append(J("C07.cpp", e, ["bound"], repo=_BE, mock=["rnd"], opts=_RS, defs=D + ["-DSHAPES=" + sh], traces=3, tiers=[t for t, l in (("quick", ex(shq) + ex(af)), ("thorough", ex(sht))) if sh in l], **x))
    return out
PROPS["C10"] = {
    "bounds": "the blocks of C07-C09 (quick: 1 and 3 rows, 1-2 channels, 1-2 polarisations; thorough also 3 antennas and 2x2 visibilities) with dithering and without, in which a single component, a visibility, a row, a channel, or the same component of every visibility is NaN or infinite (each place in turn, quiet NaN, +inf, -inf and a mixture); everything else as in C07-C09: the largest components given, the others free",
    "outside": "other combinations of non-finite components; larger blocks",
    "assumptions": _BEASM + [_SQRT],
    "jobs": _three(["-DPOISON"], "{2,1,0,1,1},{2,1,1,1,1},{2,1,0,1,2},{2,1,0,2,1}", "{2,1,0,1,1},{2,1,2,1,1},{2,1,0,1,2},{2,1,0,2,1},{3,3,0,1,1},{2,1,0,2,2}", [(0, 4, "0,1"), (0, 8, "1")], af="{3,3,0,1,1},{2,1,0,2,2}") +
            _three(["-DPOISON"], "{2,1,0,1,1},{2,1,1,1,1},{2,1,0,1,2}", "{2,1,0,1,1},{2,1,2,1,1},{2,1,0,1,2},{2,1,0,2,1},{3,3,0,1,1},{2,1,0,2,2}", [(1, 4, "0")]) +
            [dict(j, tiers=["thorough"]) for j in _three(["-DPOISON"], "", "{2,1,0,1,1},{2,1,2,1,1},{2,1,0,1,2},{2,1,0,2,1}", [(1, 8, "1")])]}
def _reach(js, r): return [dict(j, reach=r) for j in js]
PROPS["C11"] = {
    "bounds": "the blocks of C07-C09 (quick: 1 and 3 rows, 3 antennas, 1-2 channels, 1-2 polarisations) in which a single component, a visibility, a row, an antenna, a channel, a polarisation, the real or the imaginary parts, or everything is exactly zero (each place in turn, both signs of zero), with dithering (every draw) and without, 2 and 3 bit tables with a zero level: those components decode to exactly zero, all others keep the bounds of C07-C09; a checked component that may be zero itself is free",
    "outside": "other combinations of zeros; larger blocks",
    "assumptions": _BEASM + [_SQRT],
    "jobs": _reach(_three(["-DZEROS"], "{2,1,0,1,1},{2,1,1,1,1},{2,1,0,1,2},{2,1,0,2,1},{3,3,0,1,1}", "{2,1,0,1,1},{2,1,2,1,1},{2,1,0,1,2},{2,1,0,2,1},{3,3,0,1,1},{2,1,0,2,2}", [(0, 4, "0"), (0, 4, "1")]) +
            _three(["-DZEROS"], "{2,1,0,1,1},{2,1,1,1,1},{2,1,0,1,2}", "{2,1,0,1,1},{2,1,2,1,1},{2,1,0,1,2},{2,1,0,2,1},{3,3,0,1,1},{2,1,0,2,2}", [(1, 4, "0")]) +
            [dict(j, tiers=["thorough"]) for j in _three(["-DZEROS"], "", "{2,1,0,1,1},{2,1,2,1,1},{2,1,0,1,2},{2,1,0,2,1}", [(1, 8, "1"), (0, 8, "1")])], ["bound", "zero"])}
PROPS["C12"] = {
    "bounds": "blocks of 1-4 antennas (1, 2 or all baselines, with and without auto-correlations, 1 antenna more than used), 1-4 polarisations, 1-3 channels, with and without dithering, of ordinary, all zero, all non-finite and mixed contents, through buffers of exactly the advertised sizes; one component (of the blocks of at most 4) free and possibly non-finite; weight blocks of 1-5 rows, 1-5 channels, 1-4 polarisations",
    "outside": "empty blocks; larger blocks",
    "assumptions": _BEASM,
    "jobs": [J("C12.cpp", "c12_sizes", ["sizes"], repo=_BE, mock=["rnd"], opts=_RS, cflags=_AFI, defs=["-DSIZES", "-DKIND=" + k], defs_thorough=["-DQS=4,64"]) for k in ("ROW", "RF", "AF")] + [J("C12.cpp", "c12_weights", ["sizes"], repo=_BE, mock=["rnd"], opts=_RS, cflags=_AFI, defs=["-DSIZES"])]}
PROPS["C26"] = {
    "bounds": "every sequence of 1 or 2 earlier operations (encoding with or without dithering, decoding every other row) on an earlier block (3 combinations of shapes, 1-2 polarisations and channels, ordinary, zero, non-finite and mixed contents) one component of which is free (for AF in the 1x1 blocks), followed by encoding and decoding a block of any of those contents with every value of two of its draws: equal, for every value of the free component, to what a new encoder gives",
    "outside": "longer histories; threads (C16)",
    "assumptions": _BEASM + [_SQRT],
    "jobs": [J("C12.cpp", "c26_history", ["history"], repo=_BE, mock=["rnd"], opts=_RS + ["--timeout-ms", "3000", "--fallback-ms", "3000"], cflags=_AFI, defs=["-DHISTORY", "-DKIND=" + k]) for k in ("ROW", "RF", "AF")] + [J("C12.cpp", "c26_weights", ["history"], repo=_BE, mock=["rnd"], opts=_RS, cflags=_AFI, defs=["-DHISTORY"])]}
PROPS["C13"] = {
    "bounds": "the header with every value of every field and every name of 0, 1, 15, 16 or 33 arbitrary bytes; overwriting a header by one with any other field values; every pair of primitive values (all widths, bool, float, double, both string kinds with those lengths, generic column header) written and read in sequence: bytes, sizes and values",
    "outside": "other string lengths", "assumptions": ["string stream in memory written for this check (mock/io), following the C++ standard's stream positions and state bits"],
    "jobs": [J("C13.cpp", e, [r], mock=["io"]) for e, r in (("c13_header", "header"), ("c13_rewrite", "rewrite"), ("c13_primitives", "primitives"))]}
_ST = ["dyscostman.cc", "dyscodatacolumn.cc", "dyscoweightcolumn.cc", "stochasticencoder.cc", "threadeddyscocolumn.cc", "aftimeblockencoder.cc", "rftimeblockencoder.cc", "rowtimeblockencoder.cc"]
_STASM = ["table system: a small casacore written for this check (mock/cc) that drives the storage manager through casacore's documented protocol; files: byte arrays in memory behind the C++ standard's stream rules, unbuffered (mock/io)",
          "values are chosen so that storing them is exact (components at levels, the largest at the top level), so 'reads as written' is equality"]
def _st(src, entry, reach, defs=(), opts=("--preempt", "0"), **k): return J(src, entry, reach, repo=_ST, mock=["io", "cc", "rnd"], sched=True, opts=list(opts), defs=list(defs), **k)
PROPS["C15"] = {
    "bounds": "one column: after filling the first block and one row (the documented order), every sequence of 2 (quick) / 4 (thorough) operations out of: write any row, read any row, close and reopen, over 3 blocks of 2 rows (also 3 rows per block, 1 row per block with 4 blocks; time blocks distinguished by time, field or data description), then all rows read, before and after reopening; data columns (all normalisations, 2, 4, 8 and 12 bits, 1-2 polarisations, 1-2 channels) and weight columns; the first value written is any of the 15 levels; two columns filled together or one after the other, then every sequence of 1 (quick) / 2 (thorough) operations on either column",
    "outside": "longer sequences, more blocks and rows; thread schedules (C16)", "assumptions": _STASM,
    "jobs": [_st("C15.cpp", "c15_history", ["history"], ["-DONECOL"], defs_quick=["-DOPS=2"], defs_thorough=["-DOPS=4"]),
             _st("C15.cpp", "c15_history", ["history"], ["-DONECOL", "-DOPS=3"]),
             _st("C15.cpp", "c15_history", ["history"], ["-DONECOL", "-DWEIGHTS", "-DNCH=2"], defs_quick=["-DOPS=2"], defs_thorough=["-DOPS=3"]),
             _st("C15.cpp", "c15_history", ["history"], ["-DONECOL", "-DNORM=kRF"], defs_quick=["-DOPS=2"], defs_thorough=["-DOPS=3"]),
             _st("C15.cpp", "c15_history", ["history"], ["-DONECOL", "-DNORM=kAF", "-DCHAIN=1", "-DBITS=8", "-DTOL=0.03f", "-DPERM"], defs_quick=["-DOPS=2"], defs_thorough=["-DOPS=3"]),
             _st("C15.cpp", "c15_history", ["history"], ["-DONECOL", "-DKEY=1", "-DRPB=3"], defs_quick=["-DOPS=2"], defs_thorough=["-DOPS=3"]),
             _st("C15.cpp", "c15_history", ["history"], ["-DONECOL", "-DKEY=2", "-DRPB=1", "-DBLOCKS=4"], defs_quick=["-DOPS=2"], defs_thorough=["-DOPS=3"]),
             _st("C15.cpp", "c15_history", ["history"], ["-DONECOL", "-DBITS=8", "-DNPOL=2", "-DNCH=2"], defs_quick=["-DOPS=1"], defs_thorough=["-DOPS=2"]),
             _st("C15.cpp", "c15_history", ["history"], ["-DONECOL", "-DBITS=2", "-DNPOL=2"], defs_quick=["-DOPS=1"], defs_thorough=["-DOPS=2"]),
             _st("C15.cpp", "c15_history", ["history"], ["-DONECOL", "-DBITS=12"], defs_quick=["-DOPS=1"], defs_thorough=["-DOPS=2"]),
             _st("C15.cpp", "c15_columns", ["columns"], ["-DNCH=2"], defs_quick=["-DOPS=1"], defs_thorough=["-DOPS=2"]),
             _st("C15.cpp", "c15_columns", ["columns"], ["-DNCH=2", "-DRPB=1"], defs_quick=["-DOPS=2"], defs_thorough=["-DOPS=2", "-DBLOCKS=4"])]}
PROPS["C20"] = {
    "bounds": "a data and a weight column over 4 blocks of 2 rows (also 1 and 3 rows per block): (first) every number of rows of the first block written in either column, rows appended, reading every row at each stage, then a row of the second block in either column, closing and reopening; (later) the first block filled in one column and partly or not at all in the other, then every sequence of 1 (quick) / 2 (thorough) operations out of writing any row of either column (any of 15 levels), reopening and appending a block, reading every row after each, and after reopening; Row normalisation (also AF and RF)",
    "outside": "the first block written out of order (documented as unsupported); longer sequences; thread schedules (C16)", "assumptions": _STASM,
    "jobs": [_st("C20.cpp", e, [r], d, defs_quick=["-DOPS=1"], defs_thorough=["-DOPS=%d" % n]) for d, n in ((["-DNCH=2"], 2), (["-DNPOL=2", "-DRPB=1"], 2), (["-DNORM=kAF", "-DCHAIN=1", "-DBITS=8", "-DTOL=0.03f"], 1), (["-DNORM=kRF", "-DRPB=3", "-DBLOCKS=3"], 1)) for e, r in (("c20_first", "first"), ("c20_later", "later"))]}
def _c16(entry, reach, d, q, t=None, sp=0):
    """(blocks, processors, preemptions) of the quick and of the thorough tier"""
    o = lambda x: ["--preempt", str(x[2])] + (["--spurious", str(x[3] if len(x) > 3 else sp)] if (x[3] if len(x) > 3 else sp) else [])
    t = t or q
    return _st("C16.cpp", entry, [reach], d, opts=[], opts_quick=o(q), opts_thorough=o(t), defs_quick=["-DBLOCKS=%d" % q[0], "-DPROCS=%d" % q[1]], defs_thorough=["-DBLOCKS=%d" % t[0], "-DPROCS=%d" % t[1]])
PROPS["C16"] = {
    "bounds": "every schedule of the application thread and the background threads (1-2 per column, up to 6 threads) with at most the stated number of preemptions at synchronisation operations (any number of switches where a thread blocks), and with at most one spurious wakeup where stated; data and weight columns: 3-7 blocks written and closed with caches of 2 and 3 blocks that fill up (2 preemptions; 3 thorough), then any block written again and any read (1-2 preemptions), a reopened table (1 preemption), two columns at a time (1 preemption). Data races are detected on every access by happens-before, so switches elsewhere than at synchronisation operations change nothing",
    "outside": "more preemptions, threads and blocks; weak memory effects beyond data races; failures inside background threads (C18)", "assumptions": _STASM + ["pthread mutexes, condition variables (with any wake-up order) and thread creation/joining follow POSIX"],
    "jobs": [_c16("c16_close", "closed", ["-DSTATIC"], (5, 3, 0), (6, 3, 1)), _c16("c16_close", "closed", [], (5, 1, 2), (7, 1, 3)), _c16("c16_close", "closed", ["-DANYLEVEL"], (4, 1, 1, 1), (5, 1, 2, 1)), _c16("c16_close", "closed", [], (4, 2, 1), (5, 2, 2)), _c16("c16_close", "closed", [], (6, 2, 0), (8, 2, 1)), _c16("c16_close", "closed", ["-DWEIGHTS", "-DRPB=2"], (5, 1, 1), (5, 1, 2)), _c16("c16_close", "closed", [], (5, 3, 0), (6, 3, 0)),
             _c16("c16_back", "back", [], (3, 1, 2), (4, 1, 3)), _c16("c16_back", "back", [], (4, 1, 1), (5, 1, 2)), _c16("c16_back", "back", [], (3, 2, 0), (3, 2, 1)), _c16("c16_back", "back", ["-DWEIGHTS"], (3, 1, 1), (4, 1, 2)), _c16("c16_back", "back", ["-DRPB=2"], (3, 1, 0, 1), (3, 1, 1, 1)),
             _c16("c16_both", "both", [], (3, 1, 0), (4, 1, 0)), _c16("c16_both", "both", [], (2, 1, 1), (3, 1, 1)),
             _c16("c16_reopened", "reopened", [], (3, 1, 1), (3, 1, 2)), _c16("c16_reopened", "reopened", [], (2, 2, 1), (3, 2, 1)), _c16("c16_reopened", "reopened", ["-DWEIGHTS", "-DRPB=2"], (3, 1, 1), (3, 1, 2))]}
PROPS["C14"] = {
    "bounds": "(layout) 1-3 columns (data, weight, second data column; either order), 3 blocks, after the first block and a row of the second every sequence of 2 (quick) / 3 (thorough) writes to any column and block: every write to the file is within the header or within one column's part of one block as laid out by the header bytes in the file, every block that holds rows of a column is written completely, no other is; contents before and after reopening; shapes 1-2 polarisations, 1-3 channels, 1-3 rows per block, 2/4/8/16 data and 2/4/8/12 weight bits, all normalisations. (far) every row number up to 2^32-2: position of the block that is written and read back, data and weight column in either order",
    "outside": "more columns and blocks in (layout); schedules (C16)", "assumptions": _STASM,
    "jobs": [_st("C14.cpp", "c14_layout", ["layout"], d, opts=["--preempt", "-1"], defs_quick=["-DOPS=%d" % q], defs_thorough=["-DOPS=%d" % th]) for d, q, th in ((["-DNCH=2"], 2, 3), (["-DNPOL=2", "-DRPB=1", "-DBITS=2", "-DWBITS=12", "-DNCH=3"], 1, 2), (["-DNORM=kAF", "-DCHAIN=1", "-DBITS=8", "-DWBITS=4", "-DTOL=0.03f"], 1, 2), (["-DNORM=kRF", "-DRPB=3", "-DBITS=4", "-DWBITS=2", "-DNPOL=2"], 1, 2), (["-DBITS=16", "-DWBITS=8", "-DNCH=3"], 1, 1))] +
            [_st("C14.cpp", "c14_far", ["far"], d, opts=["--preempt", "-1"]) for d in (["-DNCH=2"], ["-DRPB=4", "-DBITS=2", "-DWBITS=12", "-DNPOL=2"], ["-DRPB=1", "-DBITS=8", "-DWBITS=4"], ["-DRPB=3"])] + [_st("C14.cpp", "c14_far", ["far"], ["-DRPB=7", "-DNCH=3"], opts=["--preempt", "-1"], tiers=["thorough"])]}
PROPS["C17"] = {
    "bounds": "(reopen) all 4 distributions (2 parameter values where used, arbitrary 64 bit patterns for the unused ones) x 3 normalisations, data and/or weight columns, 3 blocks of 2 rows of which every number of rows from the second block on is stored; read before closing, after reopening twice: bitwise equal, specification and name equal; 2, 4, 8 (also 12) data and other weight bits; (config) tables without rows: all 8 widths, all distributions and normalisations",
    "outside": "other parameters of the distribution in use; stored values other than 15 levels of the uniform table", "assumptions": _STASM,
    "jobs": [_st("C17.cpp", "c17_config", ["config"], [], opts=["--preempt", "-1"])] + [_st("C17.cpp", "c17_reopen", ["reopened"], d, opts=["--preempt", "-1"]) for d in (["-DNCH=2"], ["-DNPOL=2", "-DBITS=8", "-DWBITS=4"], ["-DBITS=2", "-DWBITS=12", "-DRPB=3"])] + [_st("C17.cpp", "c17_reopen", ["reopened"], d, opts=["--preempt", "-1"], tiers=["thorough"]) for d in (["-DNCH=3", "-DBITS=6", "-DWBITS=16"], ["-DNPOL=4", "-DBITS=10", "-DWBITS=2", "-DBLOCKS=4"])]}
PROPS["C19"] = {
    "bounds": "every non-zero 32 bit data and weight bit count, all 4 distributions and 3 normalisations, every 64 bit pattern of both parameters: reported specification, manager made from it (directly and through the registered constructor), clone; validity of every combination of 32 bit counts (including 0), 9 distribution and 8 normalisation names, and names of 2, 3, 7, 8 and 17 arbitrary characters; a clone and a manager made from the specification store the same bytes as the original (all configurations, 2 parameter values where used)",
    "outside": "names of other lengths; the static seed setting, which is not part of the specification; which exception a spec with missing fields raises", "assumptions": _STASM,
    "jobs": [_st("C17.cpp", "c19_spec", ["spec"], [], opts=["--preempt", "-1"]), _st("C17.cpp", "c19_refused", ["refused", "accepted"], [], opts=["--preempt", "-1"]), _st("C17.cpp", "c19_names", ["known", "unknown"], [], opts=["--preempt", "-1"]), _st("C17.cpp", "c19_same", ["same"], ["-DNCH=2"], opts=["--preempt", "-1"]), _st("C17.cpp", "c19_same", ["same"], ["-DNPOL=2", "-DBITS=8", "-DWBITS=4"], opts=["--preempt", "-1"])]}

_PX = ["--preempt", "-1"]
PROPS["C18"] = {
    "bounds": "table of 3 blocks of 2 rows (thorough also 1 and 3 rows, 2 and 4 blocks), both columns: every 32-bit value of the version field and of the column count; every truncation length; missing, empty and read-only file; every single failing read, seek or open while a table is opened and read twice; every single failing or partial write and every failing seek while a table is created, filled, changed and closed",
    "outside": "several failures in one run, write errors that only surface when a buffer is flushed or the file is closed, corrupted header fields other than version and column count, thread interleavings (one schedule; see C15)",
    "assumptions": ["I/O goes through an in-memory, unbuffered std::fstream with the failure semantics of the standard (badbit/failbit; a failed read transfers nothing, a failed write nothing or 3 bytes)", "a failing write in a background thread is reported by an exception that terminates the process", "small replica of the casacore interface"],
    "jobs": [_st("C18.cpp", e, r, d, opts=_PX) for e, r in (("c18_header", ["opened", "refused"]), ("c18_truncated", ["refused", "partial", "whole", "gone"]), ("c18_missing", ["refused", "readonly"]), ("c18_reading", ["opening", "reading"]), ("c18_writing", ["none", "reported"])) for d in ([], ["-DNPOL=2", "-DRPB=1", "-DBITS=8", "-DWBITS=4"])]
          + [_st("C18.cpp", e, r, d, opts=_PX, tiers=["thorough"]) for e, r in (("c18_truncated", ["refused", "partial", "whole", "gone"]), ("c18_reading", ["opening", "reading"]), ("c18_writing", ["none", "reported"])) for d in (["-DNCH=2", "-DRPB=3", "-DBLOCKS=2"], ["-DNPOL=4", "-DBLOCKS=4", "-DBITS=2"])]}
PROPS["C24"] = {
    "bounds": "up to three columns (data, second data column, weights; any order) in one manager, 3 blocks of 2 rows (also 1 and 3). (rows) after storing, every sequence of 2 (quick) / 3 (thorough) operations: removal of any 32-bit row number, appending 1..RPB rows, a write to any later row, closing and reopening. (add) a column added after 0..2 RPB rows of another one, directly or after reopening, then a third one, then again once rows are stored and after reopening. (remove) every one or two of two or three columns removed, from an empty table or after data, before or after reopening; the last one written further, rows appended. (types) every 32-bit data type for scalar, indirect, direct and weight columns; a column of another manager. After each: all remaining rows and columns, and again after reopening",
    "outside": "values of a row that was removed and added again before it is written; other interleavings of the background threads (C16); removing all rows; the last column of a manager (the table system deletes the manager then)",
    "assumptions": _STASM,
    "jobs": [_st("C24.cpp", "c24_rows", ["rows", "last", "middle", "beyond"], d, opts=_PX, defs_quick=["-DOPS=%d" % q], defs_thorough=["-DOPS=%d" % th]) for d, q, th in (([], 2, 3), (["-DRPB=3", "-DNCH=2", "-DBITS=8", "-DWBITS=4"], 2, 3), (["-DNORM=kAF", "-DCHAIN=1", "-DBITS=8", "-DTOL=0.03f"], 1, 2), (["-DNORM=kRF", "-DRPB=3", "-DNPOL=2"], 1, 2))]
          + [_st("C24.cpp", "c24_add", ["add", "added", "refused"], d, opts=_PX) for d in ([], ["-DRPB=3", "-DNPOL=2", "-DBITS=2", "-DWBITS=12"], ["-DRPB=1", "-DNCH=2", "-DBITS=8", "-DWBITS=4"])]
          + [_st("C24.cpp", "c24_remove", ["remove", "removed"], d, opts=_PX) for d in (["-DNCH=2", "-DWBITS=8"],)] + [_st("C24.cpp", "c24_remove", ["remove", "removed"], d, opts=_PX, tiers=["thorough"]) for d in (["-DRPB=3", "-DNPOL=2", "-DBITS=2", "-DWBITS=12"], ["-DNORM=kAF", "-DCHAIN=1", "-DBITS=8", "-DTOL=0.03f"], ["-DRPB=2", "-DBLOCKS=4"])]
          + [_st("C24.cpp", "c24_types", ["types", "refused", "accepted"], d, opts=_PX) for d in ([], ["-DRPB=1", "-DNCH=2", "-DBITS=8", "-DWBITS=4"])]}
def _tl(entry, reach, defs=(), dec=False, **k): return J("tools.cpp", entry, reach, repo=_ST, tool=["decompress.cc" if dec else "dscompress.cc"], mock=["io", "cc", "rnd"], sched=True, opts=list(_PX), defs=list(defs) + (["-DTOOL_DECOMPRESS"] if dec else []), **k)
_TLASM = _STASM + ["numbers in options are converted by a simple decimal conversion (the library's is outside the code under test)", "an error that leaves main as an exception counts as reported"]
PROPS["C21"] = {
    "bounds": "every table of 1..5 rows (thorough 1..7) and every 32-bit antenna pair per row, with: arbitrary times (not NaN), or arbitrary fields and data descriptions, or changing field at equal time: the main function of dscompress goes on to replace a column exactly if all blocks have the antennas of the first in the same order; otherwise it reports and the data are unchanged",
    "outside": "more rows; NaN times; a measurement set without rows", "assumptions": _TLASM,
    "jobs": [_tl("c21_order", ["accepted", "refused"], defs_thorough=["-DR21=7"])]}
PROPS["C22"] = {
    "bounds": "measurement set with DATA, MODEL_DATA, WEIGHT_SPECTRUM (1-2 polarisations and channels), 2 blocks of 1-3 rows, further columns and flags. (columns) 11 selections and orders of columns, flag patterns (none, whole blocks, first or last row with any flags), reordering or not: columns, managers, shapes, specification, every value, NaN for flagged; (more) columns of different shapes together or in a second run with other settings, also naming a compressed column again; (options) all distributions x normalisations x bit rates (combined), truncation values, defaults, repeated options, option order; (refused) every unknown option of 1..16 characters, options without their value, no measurement set: nothing is changed",
    "outside": "values: rounding within half a level (C07-C10); FLAG of another shape than the data column; columns that do not exist, unsupported bit rates (C19); measurement sets with a single time block or without rows; a crash in the middle (the documented advice is to work on a copy)", "assumptions": _TLASM,
    "jobs": [_tl("c22_columns", ["columns", "reordered"], d) for d in (["-DNCH=2"], ["-DNPOL=2", "-DRPB=3", "-DBITS=8", "-DWBITS=8"])] + [_tl("c22_more", ["more", "further"], d) for d in ([], ["-DNPOL=2", "-DRPB=1", "-DBITS=8"])] + [_tl("c22_options", ["options"]), _tl("c22_refused", ["refused"])]}
PROPS["C23"] = {
    "bounds": "measurement set with any subset of DATA, MODEL_DATA and WEIGHT_SPECTRUM (different shapes) of which any subset is compressed in one manager, one per column, or with other settings, added in either order; 2 blocks of 1-3 rows (last row of weights never written): the tool removes Dysco from the data and weight columns, every row bitwise as before (NaN as NaN), all other columns and managers as before; nothing is replaced if none of them is compressed. (content) every byte at every position of the stored blocks, all normalisations",
    "outside": "more than one arbitrary byte; other data columns than those the tool handles; a crash in the middle", "assumptions": _TLASM,
    "jobs": [_tl("c23_decompress", ["decompressed", "nothing"], d, dec=True) for d in ([], ["-DNPOL=2", "-DRPB=3", "-DBITS=8", "-DWBITS=8"])] + [_tl("c23_content", ["content"], [], dec=True)] + [_tl("c23_content", ["content"], d, dec=True, tiers=["thorough"]) for d in (["-DNPOL=2", "-DRPB=1", "-DBITS=8", "-DWBITS=4"],)]}
