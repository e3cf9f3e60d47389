"""Writes DESIGN.md: fixed text below plus tables made from properties.jsonl, known_findings.txt and seeded/*/meta.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]

HEAD = """# DESIGN: runtime monitoring of mzuenni/icpc-header

(generated by `tools/mkdesign.py`; the per-property text lives there)

## How every property is decided

`properties.jsonl` (from `tools/mkprops.py`) lists 35 properties; all are claimed, all by the same technique: the real headers are compiled with
instrumentation, executed on generated workloads, and an oracle judges what was observed. `python3 check.py Cxx` does it (`checks.py` and `roles.py` have one function per property):

1. **Build.** The harness program(s) in `harness/` are compiled against `/repo/src` *as it is now* (content-addressed cache in `build/`, keyed by
   the bytes of `/repo/src` and of the harness, so a changed tree is always rebuilt) in several instrumented configurations: `gcc` (g++ C++17, ASan+UBSan,
   no recovery), `clang` (clang++ C++20, ASan+UBSan, `DOUBLE_FALLBACK`), `m32` (g++ -m32, UBSan: no `__int128`, 32-bit `size_t`), `gcc20`/`m32-20` for the
   graph headers, uninstrumented `-O1/-O2` builds where volume counts. `-DVH_UPPER` builds use other compile time settings (upper default case, other tolerance).
2. **Workload.** A case is a pure function of (VERIF_SEED, group, index); generators mix uniform, structured, border-biased, hostile and - where the domain allows - small
   exhaustive cases. Every alarm has a replay: `<binary> --seed S --replay GROUP:INDEX`, written to `replays/`.
3. **Oracle.** Online, after every operation: an independent reference implementation or definition-level brute force, never a copy of the code under test.
   Sanitizer reports, escaping exceptions, unexpected exit codes and hangs (60 s CPU for one case, reproduced once) are violations, attributed to the case running at the time
   through a memory mapped state file.
4. **Evidence.** `evidence/Cxx.json`: number of cases, of distinct non-trivial inputs (fingerprints), cases per group and per configuration, and which interesting events the
   monitors really saw (`observed_events`: e.g. accepted/rejected reads per operation, shapes of graphs, ways a process ended), plus samples.

*Sizes.* Bugs may wait for a size (a buffer length, a counter width, a recursion depth). Every harness therefore mixes in a few instances with sizes around powers of two (`Rng::border`), far larger than the
bulk: `scale` groups (tokens, lists and scripts with thousands of elements) for C01-C04, `big`/`huge`/`large` groups for the graphs, long sequences, messages, argument vectors and scenes.

*Exit hook.* The harnesses define `Settings::exitVerdict` (an extension point documented by the header) so that a verdict becomes a C++ exception: thousands of
verdicts are observed in one process. Roles, multipass, constraints and exit codes are also observed end to end in real processes with real files, pipes and exit.
No hook had to be added to /repo (`hooks` is empty).

*Containment.* Harnesses only write into directories they create below `build/` (deleted afterwards). The code under test deletes only `.state*` files in the feedback directory it is given, which is
such a directory.

*Why this reaches what tests cannot.* The tests are fixed examples in one process and one build. Here inputs range over generated and border-biased spaces, the oracles are complete
("iff") definitions, histories are long and random and judged after every step, and builds are compared with each other.

*Tiers.* Quick: 10-100 s per property on 8 cores including compilation. Thorough (`VERIF_TIER=thorough`): same groups with 20-100 times the cases (the two numbers in each `GROUP(...)`).

## Per property
"""
D = {
"C01": ("in.cpp: scripts, separator, bytes, every_byte, tiny, scale", "Scripts of string/length-bounded/list reads, space, newline, noteof, eof over inputs derived from a matching text by 0-3 byte edits; random bytes over a hostile pool; all 256 byte values as separator, token start, token body and trailing byte (`every_byte`); short inputs (length <= 5) over the 8-byte alphabet {a, B, blank, LF, CR, tab, NUL, 0xff} under short scripts (`tiny`). Sources: memory, file, non-seekable chunked pipe (short reads). Oracle: byte-level reference reader; acceptance, returned values and verdict of every operation, plus unchanged position semantics (following operations)."),
"C02": ("in.cpp: scripts, bytes, mixed, case_bytes, scale", "Lenient streams; inputs built from token lists joined with random whitespace of all six kinds; oracle reads the token list only. `mixed` runs the same script on two renderings of one token list and requires identical outcomes; `case_bytes` checks case folding byte by byte, also with the other default case."),
"C03": ("in.cpp: single, scripts, every_byte, isInteger, scale", "Tokens around the grammar and the 64-bit limits (leading zeros, signs, 19/20 digit numbers, NULs, locale digits), bounds around the value and at the extremes. Oracle: hand-written recogniser and accumulator."),
"C04": ("in.cpp: plain, bounds, strict, lists, every_byte, isReal, scale", "Tokens around both grammars (long digits, exponents up to 4000, hex, nan, inf, no digits), values vs strtold bit by bit, bounds with tolerances decided in 128-bit floats (cases that rounding decides are not judged and counted), decimals windows. Both parser back ends (from_chars and DOUBLE_FALLBACK)."),
"C05": ("in.cpp: helpers, expectReal, expectInt, expectString, stringEqual, invalid_expected, negative_tolerance", "Pairs constructed at, just inside and just outside absolute and relative tolerance, infinities and NaN, signed zeros; relation computed in 128-bit floats. Strings by random edits/case flips of the expectation; first mismatch position by definition."),
"C06": ("in.cpp: small, huge, huge_convert, columns, long_line, missing_file", "Random operations of all kinds on hostile bytes (up to megabytes long tokens, 10^5-digit numbers, columns beyond every limit, no final newline, NULs) with extreme bounds; the outcome must be the model's value or the configured verdict, no crash, no hang, no foreign exception; builds with the default small stack."),
"C07": ("role.cpp driven by roles.py", "Real processes of all four roles: random scripts (reads of all streams, messages to every stream, verdicts incl. `<<` on different streams, exceptions, return without verdict), wrong call orders, missing files and arguments; interactors talk over real pipes with a partner that waits for the flushed line. Exit status and every output byte vs protocol model."),
"C08": ("role.cpp driven by roles.py", "Random argument vectors with flags in random order/duplicates, presets assigned before init; settings read back, and every stream and helper probed from both sides of the tolerance/case/space rule."),
"C09": ("cmd.cpp", "Random argument vectors with command-like values, duplicates, raw tokens, empty arguments, queries of all forms with indices in and out of range and conversions; model: token list. All vectors of up to four tokens over a small alphabet are enumerated."),
"C10": ("role.cpp driven by roles.py", "Scripts of constrained reads (integers, reals, strings, lists, direct logs, varying bounds) ending in any way (accept, reject, failure, return, exception), constraints file parsed and compared with statistics recomputed from the values read."),
"C11": ("role.cpp driven by roles.py", "Histories of up to ten passes, one process per pass: state bytes (empty, large, binary), next inputs, endings (NEXT in its forms, verdicts, failures, return) in one directory; pass number, previous state and next-pass input compared after every process; also wrong init order and missing directories."),
"C12": ("out.cpp", "Values of 20 container/tuple/array kinds nested randomly, joined with all 256 separators as lvalue, const, temporary, iterator pair, single pass iterators, braces, C strings; path-opened, moved and null streams; DEFAULT_PRECISION 6 and 9. Oracle: independent renderer with snprintf."),
"C13": ("seq.cpp", "Sequences of several element and container types with planted duplicates, surplus elements, values near type limits; two-sequence form with different element types; truth by multiset counting or pairwise scan, witnesses validated."),
"C14": ("seq.cpp", "All chars; random strings; ranges with extreme magnitudes; Thue-Morse windows up to 2^63; containers appended to themselves; nested flattening with value categories; queue histories vs sorted model; the alphabet constants vs their classes."),
"C15": ("math.cpp", "Operands and moduli from a border-biased 64-bit generator, exhaustive small domain; reference by shift-and-add in 128 bits/decimal-free arithmetic. m32 exercises the branch without __int128."),
"C16": ("math.cpp", "Numbers of the critical classes (squares of primes, Carmichael, strong pseudoprimes to several bases, near 2^63, near 2^32) vs independent deterministic Miller-Rabin and trial division; windows of primes() incl. windows beyond 2^30 and ending at 2^63-1."),
"C17": ("geom.cpp", "Polygons: random, 2-opt simple, spirals, degenerate (touching, overlapping, collinear runs, repeated points), all quadrilaterals and pentagons (thorough: also hexagons) of a 3x3 grid, extreme coordinates; definitions by O(n^2)/O(n^3) exact integer tests; pair, complex, struct points."),
"C18": ("rnd.cpp", "All number generators with extreme ranges and parameters, also with an engine that emits border words half of the time (the tails no seed would reach); every value against its range, every invalid request must throw. Exact expected draws are not compared here."),
"C19": ("rnd.cpp", "All sequence generators x parameters incl. repeated fixed points, offsets at the limits, negative minima; structure by definition, all overloads."),
"C20": ("dist.cpp", "Chi-square/Kolmogorov tests with false alarm probability 1e-10 per test on fixed seeds, three engines; exhaustive cell counts for small domains (all permutations, all bracket sequences, all subsets...), joint distributions of neighbours."),
"C21": ("repro.cpp in 14 builds", "One program of random call sessions compiled by g++/clang++, C++17/20, -O0/-O2, -m32, -funsigned-char, pattern/zero initialised locals, a stand-in standard library (other sort/partition/hash order) and another heap, run in different environments; hashes of all values must agree; reseeding must reproduce; unseeded start must be constant. x86 long double only (the same word format in 32 and 64 bit); other real formats are not claimed."),
"C22": ("geom.cpp", "Seeds x n x dim over all admissible corners; convexity, extent, distinctness, all triples. Termination of convex is only claimed for n <= 4 dim (rejection sampling)."),
"C23": ("gg.cpp (2 graphs kinds x 4 data types)", "Histories of up to some hundred operations over three graphs (insert, overwrite, erase, moved/copied handles, copy/assign/self-assign, renumber, combine, append, permute, ranges, subgraphs); after every operation all observers of all graphs vs std::map model, under ASan (dangling references)."),
"C24": ("gg.cpp", "Random graphs and all graphs with n <= 5; every transformation vs brute force definition on vertex/edge/data sets."),
"C25": ("gg.cpp", "All parameters up to a bound plus large instances (groups bigger/largest); independent construction of each family; Pruefer codes exhaustively for n <= 6 (7 in thorough); flow worst cases: vertices, edges and capacities (the value of the flow is not claimed)."),
"C26": ("gg.cpp", "Seeds x parameters: simplicity, exact counts, admissible pairs, degree sequences, trees (directed away from 0), ids offset, rejection of impossible requests; `support` and `fair` check that every admissible edge occurs with its frequency (6.5 sd)."),
"C27": ("gv.cpp", "Edge sequences (random, tree-like, bipartite, cyclic, loops, repetitions; all short ones over 3-4 vertices); after each insertion all queries vs flooding/colouring from scratch; union-find separately incl. deep chains."),
"C28": ("gv.cpp", "Same for directed graphs: topological order validated, existence by Kahn from scratch, root by definition, reverse edges, degrees."),
"C29": ("rng.cpp", "Random, sparse and border states; output vs recurrence written from the publication, jump vs the 2^128-th power of the 256x256 transition matrix over GF(2)."),
"C30": ("rng.cpp", "Random keys/blocks/counters/seeds with carry chains through every byte; AES-256 from the field definition plus FIPS-197 vectors; re-seeding, copies, comparison."),
"C31": ("png.cpp + Python zlib", "All small sizes, wide (>= 65535 byte rows), large images; parsed by a strict decoder in the harness, part of them by Python's zlib as a second opinion."),
"C32": ("png.cpp", "Drawing sessions compared with a reference image after each operation in all blend modes; all lines of a 9x9 grid (17x17 in thorough); long lines; flood fills of serpentine mazes 400-700 pixels wide (stack depth)."),
"C33": ("svg.cpp + Python expat", "Random scenes; the file is parsed by a strict XML parser and compared with a model element by element, view box vs bounding box recomputed; some by expat. Not claimed: negative sizes, comments containing `--`, images that were moved while being constructed."),
"C34": ("png.cpp, svg.cpp", "All channel pairs for + and -, all alpha pairs for blend on chosen channels, all channels x drawn factors (incl. huge, negative, NaN-free) for scaling and interpolation in both headers."),
"C35": ("in.cpp: messages", "Rejected tokens of all kinds at columns 0-400 on lines with tabs, long prefixes, long tails, after many lines; the message is parsed: line, column, excerpt (contained in the true line), marker below the token; names of offending values; non-seekable sources."),
}
TAIL = """
## Not claimed (deliberately outside the statements)

- value of the maximum flow of the worst-case networks (the documentation does not fix it); `randomTree(n)` for n < 1; regex patterns on unbounded tokens (std::regex recursion is a
  property of the standard library, so pattern reads are claimed with a length bound); termination of `convex` for n close to 8 dim;
- SVG negative sizes, `--` in comments, moved-while-constructing images; colours indexed out of range;
- data races: the library is single threaded and documents no thread guarantees, so no race detector run would decide a documented property.
- MemorySanitizer cannot be used (no instrumented libstdc++ here); uninitialised reads are covered by the pattern/zero initialised builds of C21 and by valgrind-free cross-build comparison.

## Genuine defects found

Repaired in /repo by `fix:` commits and listed as `fixed:` in `known_findings.txt` (%(fixed)d entries). Every one was confirmed against the real code with a failing input.
Two genuine findings are recorded instead of repaired (`finding:` entries, printed as KNOWN-FINDING, exit 0):

- C20 `nonDecreasing`/`nonIncreasing` are documented as uniform over outputs but sort independent draws. A repair changes the data every existing seeded generator produces for these
  calls, so it is not small and safe. The check identifies it by that specific generator and hypothesis (`C20.nonDecreasing.sorted-multiple`); it still requires the distribution to be *that*
  one, so any other deviation is reported.
- C33 chained insertion after a std manipulator goes through `std::ostream&`, so later shapes are not included in the view box. The repair would need a redesign of the class. The finding is tied to that chain
  form (`C33.viewBox.chained`).

## Soundness: where a stricter oracle would raise false alarms

- C04/C05: comparisons at the edge of a tolerance are decided by long double rounding: the oracle decides in 128-bit floats, cases nearer than the rounding error are counted but not judged.
- C07: the exit code after an escaping exception is only required to be neither 42 nor 43.
- C13: the witness of `isPerm` on two sequences of equal length may be any element of the first one.
- Compilation: when the headers themselves compile but a use of the API made by a harness fails with an error *inside* the headers, that is reported
  as `Cxx.compile` (several of the genuine defects were of this kind); an error in the harness, e.g. after a renaming, is only a refusal to decide,
  and a configuration (compiler, standard) in which not even the headers compile is left out and named in the evidence as long as another one does.
- C20: statistical tests run on fixed seeds with a false alarm probability of 1e-10 per test; `partition` with a minimum <= 0 is not claimed to be uniform.
- C21: only x86 long double (the same value format in 32 and 64 bit) is compared.
- C22: `convex` is rejection sampling that practically never terminates near n = 8 dim: termination is only claimed for n <= 4 dim.
- C34: blending is allowed one unit of rounding per channel.

## Planted bugs (`seeded/`) and detection

Every entry: patch applies to HEAD, builds, passes the 66 stable tests (verified on scratch copies), the demonstration exits 0/nonzero. All below are caught by the quick check of their property.
Missed at first, and the reason for a strengthening: s12-file-format (path-opened streams were only given integers), s13-narrow-compare (mixed element types), s25-rado-shift (only small instances),
s26-growing-bound (edge frequencies), s22-zero-direction (crowded convex sets of 64 and more points), s20-binomial-shortcut (large samples of the named distributions),
s12-eighth-newline (long tuples and brace lists), s20-string-alphabet (large alphabets), s10-relative-lost (bounds near the end of the real range), s20-bracket-wide (one object of millions of elements),
s11-nul-nextpass (NUL and other unprintable bytes in the next pass's input),
s01-sep-cached (lists and single values mixed on one stream), s05-length-wrap (lengths that differ by a multiple of 256), s09-long-arg (command lines of tens of thousands of characters),
s24-closure-depth (distances of some hundreds), s20-bipartite-int (sparse graphs with more than 2^31 possible edges),
s07-message-append (files left in the feedback directory), s35-line-short (offending tokens behind up to 140000 lines).

| id | property | needs |
|---|---|---|
%(seeded)s

## Mutation campaign

%(mut)s
"""
MUT = "Besides the planted bugs, generic mutants (operator swaps, constant changes, dropped statements, negated conditions) of the headers were generated and the checks covering the mutated line run against them with reduced volume (a sample: about 500 of 5000 so far). Survivors were reviewed one by one: most are equivalent code, performance shortcuts or wording of messages; where one showed a gap a group was added."

out = [HEAD]
for p in props:
    i = p["id"]; g, t = D[i]
    out.append("### %s %s\n\n%s\n\n- *workload:* `%s`; *anchors:* %s\n" % (i, p["title"], t, g, ", ".join(p["anchors"]["files"])))
rows = []
for s in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(H + "/seeded/%s/meta.json" % s)); rows.append("| %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "/")))
fixed = sum(l.startswith("fixed:") for l in open(H + "/known_findings.txt"))
out.append(TAIL % dict(fixed=fixed, seeded="\n".join(rows), mut=MUT))
open(H + "/DESIGN.md", "w").write("\n".join(out))
print(len(rows), "planted bugs,", fixed, "fixes")
