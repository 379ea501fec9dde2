import sys, json, os
sys.path.insert(0, '/verif'); import jobs
os.chdir('/verif')
head = r'''# Solver-based checking of Dysco

## 1. Method
Every check compiles `/repo`'s current sources (clang 18, LLVM IR at -O2) together with a harness (`harness/`) and the symbolic
runtime interface (`rt/sym.h`), executes the IR symbolically with `symx/` (own engine in C++, built by `setup_cmd`) and lets z3
decide every assertion, every memory access (bounds, lifetime, initialisation) and every branch over symbolic inputs; cvc5 takes
over when z3 gives up and cross-checks. Nothing of the code under test is modelled by hand: the encoding is regenerated from the
sources on every run, and the harnesses use the public interfaces only, so a refactoring does not disturb them.

* `symx/`: paths are forked at symbolic branches or merged (states of the same control point are joined with ite terms), symbolic
  memory is byte-wise with a theory of tables for lookups, exceptions, virtual calls, threads, mutexes and condition variables are
  executed by the engine. For threads the schedule is part of the input: at every synchronisation operation the engine forks over
  the thread that goes on (bounded number of preemptions; forced switches and wake-up orders are unbounded; spurious wake-ups where
  stated), and every memory access is checked for happens-before races, which makes switches at other places redundant.
* Bit-precise mode: bit-vectors and IEEE floats. Relaxed mode (`--relaxed`): float arithmetic as reals, every operation with a
  relative rounding error term, an over-approximation: "holds" carries over to the floats; a counterexample that does not reproduce
  natively is refined (searched again near it, concretised) and otherwise listed as undecided in the evidence, never as a violation.
* `check.py Cxx` runs the jobs of `jobs.py` for the property (tiers `quick`, `thorough`), each with its bounds. A counterexample
  becomes an input file (values and schedule), which is replayed against a g++/ASan/UBSan build of the same sources and harness
  (`rt/native.cpp`; `rt/sched.cpp` forces the recorded schedule on real threads): only a reproduced counterexample is a VIOLATION,
  and the replay file is kept in `evidence/replay/` (`replay.py` runs it again). Sampled explored paths are replayed as well and
  their logged observations compared, which validates the engine against the real compiler on every run.
* Vacuity: each job names the points it must reach (`reach`); a job that does not reach them fails the check (exit 2). A job
  that exhausts its time, or meets something the engine does not support, is reported in the evidence as incomplete.
* Evidence (`evidence/Cxx.json`): functions encoded, bounds, paths, assertions, queries, solver time, replays, and what is outside.

Exit codes of check.py: 0 held on everything explored, 1 VIOLATION, 2 nothing could be decided (e.g. the code does not compile).

Environment modelled for the storage manager and tools (the only hand-written models; all of it outside the code under test):
* `mock/cc`: a small replica of the casacore classes Dysco uses. It drives the storage manager through the protocol of casacore's
  tables: constructor lookup by type, create/open/prepare/flush/resync, column binding, adding and removing rows and columns, deep
  copies, deletion and renaming of tables, the difference between the manager a column's description names and the one it is bound to.
  Seeds and findings are confirmed against the installed real casacore by the demos in `seeded/` (they use the real library).
* `mock/io`: files and string streams in memory following the C++ standard's rules for positions and state bits, unbuffered, with
  injectable faults (open, seek, read, write, partial transfers). The natively replayed runs use the same model.
* `mock/rnd`: the dither source is any generator: every draw is an arbitrary value of its range.
* In the storage and tool checks (C14-C24) values are chosen so that storing them is exact (components at levels, the largest at the
  top level), so "reads as written" is equality; the error bounds themselves are C03-C11.

## 2. Properties: what decides them
Times: quick tier on 8 cores, uncontended. All 27 properties are claimed; `not_applicable` is empty.
'''
P = {
"C01": ("1 s", "`bytepacker.h` is executed with symbolic symbols and symbolic prior buffer contents; assertions: bit positions, round trip, canaries around both buffers.", "all values of all symbols at all tail lengths; tests sample a few arrays"),
"C02": ("20 s", "all six lookup variants of `dictionary.h` over a symbolic sorted table; a path per comparison outcome, position compared with a linear definition.", "every table contents, ties and end positions"),
"C03": ("22 s", "encode/decode of `stochasticencoder.{h,cc}` for every float; (a) with symbolic tables built by the real constructors from arbitrary increasing quantiles, (b) real tables.", "the failing values are single floats between a boundary and its neighbour"),
"C04": ("31 s", "`EncodeWithDithering` for every value and every one of 2^31 dither values; the share is the measure of an interval whose ends the solver bounds.", "finding F1 needs one of 64 dither values in 2^31"),
"C05": ("54 s", "the table constructors, GSL quantiles as arbitrary increasing odd functions (a) or evaluated (b, c).", "any rms and tail probability, not a handful"),
"C06": ("54 s", "`weightblockencoder.h`, `weightencoder.h` on symbolic blocks in relaxed arithmetic.", "every combination of weights incl. zero, subnormal and the largest float"),
"C07": ("80 s", "`rowtimeblockencoder.h` through `InitializeDecode/Encode/Decode` on blocks whose components are free, bound asserted on every decoded component with the stored row factor.", "every position of the maximum and every value elsewhere"),
"C08": ("105 s", "as C07 for `rftimeblockencoder.h`, with row and channel factors.", "needs a maximum in a specific row and channel to show"),
"C09": ("75 s", "as C07 for `aftimeblockencoder.h`, both antenna orders, absent antennas, autocorrelations.", "the iterative fit of the factors may only scale, never clip, whatever the RMS estimates are"),
"C10": ("125 s", "C07-C09 with non-finite components in every place.", "finding F6: half finite visibilities"),
"C11": ("98 s", "C07-C09 with exact zeros in every place.", "all-zero rows, antennas, channels, blocks in every place"),
"C12": ("76 s", "encoders and decoders on heap buffers of exactly the advertised sizes; the engine checks bounds and initialisation of every access, the harness that every advertised element is initialised.", "all shapes in the bounds, not the tests' one"),
"C13": ("1 s", "`header.h`, `serializable.h` on symbolic fields; bytes compared with the documented layout.", "every value of every field; swapped equal-typed fields"),
"C14": ("60 s", "the whole storage manager over the in-memory file; each write's offset and length is compared with the layout given by the header bytes.", "sequences of writes to several columns; rows beyond 32-bit offsets"),
"C15": ("54 s", "the whole storage manager; all sequences of operations (symbolic choice), the first values written symbolic; oracle: last value written.", "order-dependent caching (current block, queued block, stored block)"),
"C16": ("56 s", "`threadeddyscocolumn.cc`, `threadgroup.h`, `dyscostman.cc` with the engine's threads: all schedules within the bounds, deadlock, race and lost-block detection, spurious wake-ups.", "a schedule is an input here; tests see one"),
"C17": ("30 s", "write, close, reopen, compare bitwise.", "every distribution, normalisation, parameter pattern, number of stored rows"),
"C18": ("6 s", "every fault position and kind, every truncation length, every version value is a symbolic input.", "tests inject no faults"),
"C19": ("8 s", "spec -> manager -> spec for every setting; clones store the same bytes.", "every setting and invalid combination"),
"C20": ("36 s", "which rows are written is symbolic; unwritten rows must read zero.", "findings F7: depends on which of the rows and columns was written"),
"C21": ("5 s", "the tool's `main` on tables with symbolic antennas, times and fields; acceptance is compared with the definition of regularity.", "every table of up to 5 rows"),
"C22": ("27 s", "the tool's `main` with symbolic choices of options, columns and flags; the resulting table (columns, managers, spec, every value) is compared.", "combinations of options, second runs, forms of the path"),
"C23": ("55 s", "the tool's `main` on tables with symbolic compressed subsets and arbitrary stored bytes.", "subsets, manager layouts, stored NaN, paths"),
"C24": ("60 s", "row and column requests in symbolic order; refused requests change nothing.", "sequences of requests between writes"),
"C25": ("9 s", "`uvector.h`: all sequences of operations with symbolic elements against a model; memory checked by the engine.", "aliasing arguments, propagation, capacity states"),
"C26": ("64 s", "an encoder with a history against a new one: outputs equal for every value of the earlier block.", "stale internal state shows only after specific histories"),
"C27": ("25 s", "`timeblockbuffer.h`: symbolic rows in any order.", "rows out of order, repeated, with gaps"),
}
out = head
props = {json.loads(l)['id']: json.loads(l) for l in open('properties.jsonl')}
for p in sorted(P):
    t, how, why = P[p]; d = jobs.PROPS[p]
    out += "\n### %s %s (%s)\n%s\n* Bounds: %s.\n* Outside: %s.\n* Beyond tests: %s.\n" % (p, props[p]['title'], t, how[0].upper() + how[1:], d['bounds'], d['outside'], why)
    asm = [a for a in (d.get('assumptions') or []) if not a.startswith(('table system:', 'values are chosen'))]
    if asm: out += "* Assumptions: %s.\n" % "; ".join(asm)
kf = json.load(open('known_findings.json')); kf = kf if isinstance(kf, list) else kf['findings']
out += "\n## 3. Findings on the original tree\nAll were confirmed on the real code and repaired by small `fix:` commits in /repo (`known_findings.json`, status fixed; nothing is suppressed):\n\n"
for k in kf:
    out += "* %s %s: %s\n" % (k['id'], k['property'], (k.get('what') or k.get('record') or [v for v in k.values() if isinstance(v, str) and v.startswith('fixed:')][0]).split('fixed: property=%s ' % k['property'])[-1])
out += '''
False alarms met on the way and corrected in the properties or the machinery: shares in C04 at rounding distance of a level;
ties between maxima in C08; a table whose single time block is flushed (the code's documented message; put outside); the first
block written out of order (documented); AF factors of antennas without cross-correlations (autocorrelations are not part of the
normalisation by design); header slack (a file cut inside it opens with its blocks gone, which is what it says).
A missed change (c16_close_early) uncovered an error of the replay: the streams of `mock/io` replaced the C++ library's own in the
native process and overwrote a variable of the replay; they are hidden from it now.

## 4. Planted bugs (`seeded/`) and the checks that catch them
Each is caught by the check of its property (`tools/seed.py check`).

'''
for s in sorted(os.listdir('seeded')):
    m = json.load(open('seeded/%s/meta.json' % s)); out += "* `%s` (%s): %s; needs: %s\n" % (s, m['property'], m['what_it_breaks'], m['needs'])
out += '''
Missed at first and what changed: c16_close_early (replay error above; also a job with a queue longer than the threads),
c22_reorder_slashes (paths ending in slashes; a table is a directory in the replica), c20/c24 seeds led to longer operation
sequences and the checks of antennas beyond the table's end.

## 5. Limits to know about
* Background write failures end the process with an uncaught DyscoStManError; taken as reported. Write errors that only surface when a
  buffer is flushed or a file closed are not modelled (unbuffered files), nor are crashes of the machine.
* A single time block at shutdown throws in a destructor and ends the process with the documented message.
* Corrupted header fields other than version and column count (a huge name length allocates) are outside C18.
* The tools report errors as uncaught exceptions; taken as reported.
* With AF normalisation, a row of a later time block whose antenna index is larger than all those of the first block has no room in the
  block layout, and from reading putValues/loadBlock nothing refuses it. The histories of C15 keep to the antennas of the first block, so
  this is outside their bounds; it was noticed late, is not replayed natively and is neither repaired nor claimed. (dscompress refuses such
  measurement sets: C21.)
* UVector's behaviour where the standard leaves it to the allocator is checked with two allocators only.
* Weak memory effects are covered only as data races (the code uses mutexes only).
* Bounded checking: nothing is claimed beyond the bounds above.
'''
open('/verif/DESIGN.md', 'w').write(out)
