#!/usr/bin/env python3
"""Emits /verif/properties.jsonl (kept here so that wrapping and quoting stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))
V = "src/validate.h"

prop("C01", "Space-sensitive streams accept exactly the bytes the read script describes",
 """On a whitespace-sensitive stream a script of string reads (plain, length-bounded, lists with a separator), space, newline,
 not-at-end and end-of-file checks succeeds iff the input is exactly the described byte sequence: tokens are the maximal runs of
 non-whitespace bytes and must start with a printable ASCII byte, and every separator is exactly the one named byte (no extra,
 missing, CR, tab or doubled whitespace and no trailing bytes pass). Otherwise the run ends at the first offending operation with
 exactly the verdict configured for that stream. All tokens returned before that are byte-exact.""",
 ["inputs", "histories"], "every operation script over every byte string (all 256 byte values), case-sensitive or not, file or memory backed, every configured failure verdict",
 "The unit tests feed a handful of well-formed lines; acceptance is a statement about every byte sequence and every operation order, in particular single-byte corruptions at each position.",
 [V], [("InputStream::space/newline/eof/noteof/string/strings", V)], ["return values of the reads", "the verdict handed to the exit hook", "what the next read sees"],
 [("stream position", "first byte not yet consumed", "InputStream::in")])

prop("C02", "Whitespace-insensitive streams depend only on the token sequence",
 """On a whitespace-insensitive stream the outcome of any script of reads and separator checks is a function of the sequence of
 maximal non-whitespace byte runs alone: changing amount or kind (space, tab, CR, LF, VT, FF) of whitespace, including leading and
 trailing, never changes a result, space/newline checks are no-ops, the end-of-file check passes iff no token is left and reading
 past the last token ends with the stream's verdict. On a case-insensitive stream exactly the ASCII letters A-Z of every token are
 returned in lower case, everything else unchanged.""",
 ["inputs", "histories"], "every token sequence (arbitrary bytes), every whitespace rendering of it, every operation script, both case modes",
 "Tests use one rendering per token sequence; the guarantee quantifies over all renderings and byte values.",
 [V], [("InputStream with skipws, toDefaultCase", V)], ["read results and verdict under two renderings of the same tokens and a reference tokenizer"])

prop("C03", "Integer reads accept exactly canonical in-range 64-bit decimals",
 """An integer read accepts a token iff it is 0 or an optional minus sign followed by a decimal without leading zero, its value fits
 in 64 signed bits and, when bounds are given, it lies in [lower, upper); the exact value is returned. Every other token ends in the
 stream's verdict, and list reads behave like that many single reads with the named separator. The string-to-integer test accepts
 exactly the tokens accepted without bounds and reports the same value.""",
 ["inputs"], "all tokens, especially around +-2^63, leading zeros, signs, overlong digit strings, foreign bytes; all bounds including degenerate and extreme ones; 32- and 64-bit builds",
 "Tests try a few numbers; acceptance is an iff over all strings and all bounds.",
 [V], [("InputStream::integer/integers, isInteger, INTEGER_REGEX, details::parse", V)], ["returned value", "verdict"])

prop("C04", "Real reads follow their grammar, bounds, tolerance and decimal rules exactly",
 """A plain real read accepts exactly optional sign, digits with at most one point and at least one digit, optional exponent (never
 NaN, infinity or hex) and returns the nearest representable value; with bounds it accepts iff the value is in [lower, upper) or equals a
 bound within the stream's tolerances. A strict real read accepts exactly an optional minus, an integer part without superfluous
 leading zero, optionally a point and digits, with the number of decimals in [minDecimals, maxDecimals) and value in [lower, upper)
 without tolerance. Anything else ends in the stream's verdict; the string-to-real test accepts exactly the tokens a plain read accepts, with the same value.""",
 ["inputs"], "all tokens over digits, signs, points, exponents and foreign bytes; all bounds, decimal windows and tolerances; values whose magnitude stays within the normal long double range",
 "Tests use a few literals and no boundary/tolerance combinations.",
 [V], [("InputStream::real/realStrict/reals/realsStrict, isReal, REAL_REGEX, STRICT_REAL_REGEX", V)], ["returned value", "verdict"])

prop("C05", "Comparisons against expected values accept exactly the tolerated answers",
 """expectString accepts iff the token equals the expected one (ignoring ASCII case exactly when the stream is case-insensitive), expectInt iff
 the integers are equal, expectReal iff the values differ by at most the absolute tolerance or by at most the relative tolerance times the expected
 value; otherwise the stream's verdict ends the run. The float comparison helpers implement this relation (equal, or ordered/equal for
 the less and greater versions), treat NaN as equal only to NaN and infinities as equal only with the same sign, and the string comparison
 reports the first mismatch position.""",
 ["inputs"], "all pairs of values/tokens including near-tolerance pairs, zero, signed zero, infinities, NaN, all tolerances, all case modes",
 "Tests compare a few values far away from the tolerance boundary.",
 [V], [("InputStream::expectString/expectInt/expectReal, details::floatEqual, floatLess, floatGreater, stringEqual", V)], ["verdict or normal return", "boolean results and witness"])

prop("C06", "Hostile bytes always end in a value or the configured verdict, never in a crash",
 """For every byte sequence and every documented read (string, integer, real, strict real, list, expect and separator operations; also
 pattern reads with a length bound) the operation terminates with a value or with the stream's verdict: no memory error, no undefined
 behaviour, no uncaught exception, no other exit code, whatever the length of tokens or lines and whichever source (file, memory, pipe)
 the bytes come from.""",
 ["inputs", "histories"], "arbitrary byte strings incl. NULs, control bytes, invalid UTF-8, tokens and lines of up to millions of bytes, random operation scripts; seekable and non-seekable sources",
 "Tests contain no hostile input, no long tokens and no pipes.",
 [V], [("InputStream::*, InputStream::fail", V)], ["sanitizer reports", "process exit code", "escaping exception types"])

prop("C07", "Each role ends with its protocol exit code and messages in the right place",
 """A program using the input-, answer-, output-validator or interactor role exits 42 iff it states accepted, 43 iff it states wrong
 answer or rejects bytes of the judged stream, and 1 iff it states failure or the judge-provided files are malformed; whatever was
 written to the judge and team messages is in judgemessage.txt and teammessage.txt of the feedback directory (judge message on
 standard output for input and answer validators), completely, at exit. What an interactor writes for the team arrives before the interactor waits for the team's answer. Never initialising, initialising twice, changing a setting after
 initialisation, missing files or too few arguments never ends with exit 42 or 43.""",
 ["inputs", "configurations", "histories"], "all roles, all verdict statements, all positions of malformed bytes in judged and judge-provided files, all message texts, wrong usage of the API",
 "Unit tests run in one process and never observe exit codes, feedback files or judge-side failures.",
 [V], [("Verdicts::Verdict, exitVerdict, InputValidator/AnswerValidator/OutputValidator/Interactor::init, SettingBase", V)], ["process exit status", "feedback directory contents", "standard output"])

prop("C08", "Command line settings reach every stream of the judged side",
 """The flags case_sensitive, space_change_sensitive, float_tolerance, float_absolute_tolerance and float_relative_tolerance take effect in
 every role for the judged stream and for the global comparison helpers, specific tolerances override the common one, the command line overrides values
 assigned before initialisation and those override the defaults (1e-6 for both; insensitive except for input and answer validators).
 Judge-provided files are always read whitespace-insensitively with the same case mode.
 The seed flag makes the generated numbers a function of the given seed. Later assignments to a setting and a second initialisation are rejected
 with an exception and change nothing.""",
 ["configurations"], "all roles x all subsets and orders of the flags x programmatic presets x values probing each setting from both sides",
 "Tests never run init with flags and look at a stream afterwards.",
 [V], [("ValidateBase::details::init, *::init, Setting", V)], ["which probe inputs are accepted", "values of the settings after init"])

prop("C09", "Command line queries return exactly the following parameters",
 """For every argument vector a '--name' query finds the command iff that exact token occurs as a command and exposes exactly the
 parameters up to the next command, a raw query finds the first occurrence of any token and exposes everything after it, and indexing, counting and
 string/integer/real conversions (single, list, tuple, with defaults) agree with the text of those parameters. Conversions of
 malformed or missing parameters without default, out-of-range indices and duplicated commands are rejected with an exception and never
 return a value.""",
 ["inputs"], "all argument vectors of arbitrary tokens (empty strings, dashes, duplicates, numbers at the limits) and all queries",
 "Tests contain a few fixed argument vectors.",
 [V], [("CommandParser, Command, Parameter", V)], ["query results", "exceptions"])

prop("C10", "The constraints file reports exactly what was read",
 """If a constraints file is requested, then after the program ends it contains one line per named constraint that saw at least one value, in order of first
 mention: whether the lower and the largest allowed value was hit (integers and lengths: upper-1; reals within 1e-6), the smallest and
 largest value seen and the smallest lower and largest upper bound used. This holds for integers, reals and string lengths, for single and list reads and direct logging, also when the run ends by a verdict,
 and without the option nothing is written. Logging values of two different kinds under one name is rejected.""",
 ["histories", "inputs"], "all sequences of constrained reads and direct logs over several names, kinds and varying bounds; all ways to end the run",
 "Tests do not read the produced file back.",
 [V], [("Bounds, Constraint, ConstraintsLogger, ConstraintsBase::initConstraints", V)], ["the written file against an independent model of the reads"])

prop("C11", "Multipass runs see a correct pass number, previous state and next input",
 """Over any sequence of passes in one feedback directory the k-th run sees pass number k (from 0), in every later pass reads back exactly the
 state bytes written by the preceding pass and writes to a fresh empty state.
 Requesting another pass ends with exit code 42 and leaves a next-pass input containing exactly the bytes written for it in this pass;
 a run ending with a verdict instead creates no next-pass input of its own. Initialising multipass before the role is rejected.""",
 ["histories"], "all histories of passes with arbitrary state/next-pass contents (empty, large), endings by next pass or verdict",
 "Tests never run more than one process, so cross-process history is untested.",
 [V], [("Multipass::init, Multipass::NEXT", V)], ["per-pass observations printed by the driver", "files in the feedback directory", "exit codes"],
 [(".pass/.state*", "pass counter and alternating state files", "feedback directory")])

prop("C12", "Printed output is the exact separated rendering of the values",
 """Printing through the output stream renders booleans as true/false, reals in fixed notation with the configured number of
 decimals (6), integers and strings verbatim, and pairs, tuples, arrays and arbitrarily nested containers as their elements separated by single
 spaces. join with any separator prints exactly the elements in order with exactly one separator between neighbours (none for the
 null separator, nothing for empty input), identically for iterator ranges (single-pass ones included), lvalue, const and temporary containers, tuples,
 pairs, brace lists and C strings, and converts to the same string.""",
 ["inputs", "programs"], "all value types and nestings, all separators, lengths 0..n, lvalue/rvalue argument forms",
 "Tests cover a few concrete joins; rendering must hold for every nesting and argument category.",
 [V], [("OutputStream, join, details::TempWriter", V)], ["bytes produced vs an independent renderer"])

prop("C13", "Sequence predicates are correct and their witnesses are real",
 """The permutation (of [offset, offset+n) or of another sequence), distinctness, adjacency (any/none/all) and monotonicity predicates return
 exactly the mathematically defined truth value for every sequence, for both the container and the iterator form and every element type allowed.
 When a failing predicate carries a witness it is valid: an element that really is duplicated or out of range (when comparing two sequences of equal length: an element of the first one), or the
 length of the longest prefix for which the adjacency/order condition still holds.""",
 ["inputs"], "all sequences (empty, single, long, extreme values near the type limits), all offsets, several element and container types, arbitrary predicates",
 "Tests use small hand-made sequences.",
 [V], [("isPerm, areDistinct, anyAdjacent/noneAdjacent/allAdjacent, areIncreasing/...", V)], ["truth value and witness vs brute force"])

prop("C14", "Text, range and container helpers compute their definitions",
 """Character class tests and case conversion are correct for all 256 char values and for every string (failing string tests name a character
 of the string violating the class); the alphabet constants (letters, vowels, consonants, digits, alphanumerics, per case) contain every character of their class exactly once; range lists exactly from+i*step below (above for negative steps) the end; the
 Thue-Morse generator yields the parity of set bits of each index; append, flatten, contains, asFunction, the length comparators and the min/max priority queue
 adapters behave as defined, also when a container is appended to itself.""",
 ["inputs"], "all chars, all strings, all from/to/step (including extreme magnitudes with few elements), all nestings/containers",
 "Tests sample a few values of each helper.",
 [V], [("isLower..isConsonant, toLower/toUpper/toDefaultCase, range, thueMorse, append, flatten, contains, asFunction, shorter/longer, MinPQ/MaxPQ", V)], ["return values vs reference"])

prop("C15", "Modular arithmetic is exact for all 64-bit operands",
 """For every modulus m >= 1 and all operands in 64-bit range, reduction, multiplication and exponentiation return the mathematically exact residue
 in [0, m) (x^0 is 1 mod m), and the modular inverse returns the unique y in [0, m) with n*y = 1 mod m, or -1 exactly if none exists.
 sign and dist return the exact sign and absolute difference. Non-positive moduli and negative exponents are rejected with an exception by
 multiplication, exponentiation and inversion.""",
 ["inputs"], "all operands incl. negative, zero, 1, 2^31/2^32/2^63 borders; builds with and without 128-bit integers",
 "Tests cannot sample the overflow borders of both arithmetic back ends.",
 [V], [("applyMod, mulMod, powMod, multInv, sign, dist", V)], ["results vs big-integer arithmetic"])

prop("C16", "Primality test and prime lists are exact",
 """The primality test returns true iff its argument is prime, for every 64-bit integer including negatives, strong pseudoprimes, Carmichael numbers,
 prime powers and values close to 2^63. The prime lists contain exactly the primes of [lower, upper) in increasing order,
 wherever the window lies.""",
 ["inputs"], "all n in [-2^63, 2^63), all windows [lower, upper) of feasible size at any magnitude; builds with and without 128-bit integers",
 "Tests check small numbers only; a wrong witness or overflow only shows for special composites or huge n.",
 [V], [("isPrime, primes, details::powMod/mulMod", V)], ["results vs independent deterministic primality/sieve"])

prop("C17", "Polygon predicates agree with exact geometry",
 """For every integer polygon within the documented coordinate bounds the convexity test is true iff the points are, in the given order, a counter-clockwise convex
 polygon with positive area and no repeated neighbouring points (collinear triples allowed),
 the strict version additionally iff no three cyclically consecutive points are collinear, the simplicity test is true iff non-adjacent edges do not touch for polygons without collinear neighbouring edges, and the orientation
 test is true iff the signed area is positive. dot, cross and the coordinate accessors/conversion are exact for pairs, complex numbers, arrays and structs; coordinates beyond the bound are rejected with an exception.""",
 ["inputs"], "all polygons: random, small-grid degenerate, spikes, touching, spirals, large coordinates, all rotations; pair/complex/struct points",
 "Tests use a few polygons; sweep-line ordering bugs need special configurations.",
 [V], [("isConvex, isStrictlyConvex, isSimple, isCCW, cross, dot, getX/getY/convert", V)], ["truth values vs brute force over 128-bit integers"])

prop("C18", "Random numbers stay inside their documented range",
 """Every random number request with valid arguments returns a value in its documented range: integers, reals, maximum/minimum/minmax, geometric, binomial,
 normal, exponential in [lower, upper) (binomial without bounds in [0, n], unbounded ones finite resp. non-negative), discrete an index of positive weight, and primes a prime within
 the range (or, if the range contains none or primes are too rare in it for the random search, an exception). Invalid arguments (empty ranges, non-finite bounds, parameters outside their domain) are
 rejected with an exception. This holds for extreme ranges such as all 64-bit integers or ranges of one element.""",
 ["inputs", "histories"], "all seeds and argument tuples incl. ranges wider than 2^63, one-element ranges, tiny/huge probabilities",
 "A test draws a few values from ordinary ranges; range violations need extreme arguments or rare draws.",
 [V], [("Random::integer/real/normal/exponential/geometric/binomial/maximum/minimum/minmax/prime/discrete", V)], ["returned values vs range", "exceptions"])

prop("C19", "Random sequences always have the promised structure",
 """Random distinct, permutation (plain, with prescribed cycle lengths, with prescribed fixed points), multiple, increasing, decreasing, non-decreasing,
 non-increasing, partition, string and bracket sequences always have exactly the requested length, range, order, sum, minimum,
 alphabet, cycle type, fixed points and balance. shuffle, rotate and select return a permutation, the reported left rotation, and an element of
 the input, for iterator ranges, containers, arrays, pairs and complex numbers. Impossible requests are rejected with an exception.""",
 ["inputs", "histories"], "all seeds, counts (0, 1, full range), ranges at extreme offsets, cycle types, fixed point sets, alphabets",
 "Tests sample few requests; structure must hold for every seed and boundary count.",
 [V], [("Random::distinct/perm/multiple/increasing/.../partition/string/bracketSequence/select/shuffle/rotate", V)], ["generated sequences"])

prop("C20", "Random generators follow their documented distribution",
 """The generators documented as uniform (bit, integer, real, distinct, all perm variants, shuffle, select, rotate, multiple, partition with positive minimum,
 string, bracket sequence, prime, random labelled trees) give every possible outcome the same probability, and discrete, normal (mean, standard deviation), exponential, geometric,
 binomial and maximum/minimum follow the named distribution with the given parameters. Random graphs with m edges are uniform over edge sets
 and with probability p contain every possible edge with probability p. Permuting a graph gives every numbering of its edges and vertices (undirected: and every orientation of the edges) the same probability, and a random subgraph every edge subset of the requested size.""",
 ["inputs", "histories"], "all seeds; small outcome spaces counted exhaustively, large ones by moments and quantile cells",
 "Distribution is a property of the ensemble of all histories; a unit test checks single draws.",
 [V, "src/graph_gen.h"], [("namespace Random, randomTree, randomGraph, randomBipartite", V)], ["empirical frequencies (chi-square with false alarm rate below 1e-9 per run, fixed seeds)"])

prop("C21", "Generated data is identical across compilers, word sizes and builds",
 """For the same seed and the same sequence of calls, every random generator (numbers, sequences, point sets, graph generators, all three engines) produces the same
 values on GCC and Clang, 32-bit and 64-bit, every optimisation level and language standard and in every run; reseeding restarts the same sequence, and
 an unseeded program always produces the same sequence. Values depend on nothing but the seed and the calls made (no
 time, address, environment or uninitialised memory).""",
 ["configurations", "programs", "histories"], "all call sequences x toolchain configurations available here (g++, clang++, -m32, -O0/-O2, C++17/20, sanitizers) x environments",
 "Every test runs inside a single configuration and cannot compare with another one.",
 [V, "src/graph_gen.h", "src/rng.h", "src/secure_rng.h"], [("namespace Random, Settings::RandomEngine", V)], ["value trace per configuration, compared pairwise"])

prop("C22", "Random point sets are convex resp. in general position",
 """The convex generator always returns exactly n points forming a counter-clockwise convex polygon (points may be collinear, never repeated) strictly inside (-dim, dim) in both coordinates
 and filling the full width and height; the non-collinear generator always returns exactly n distinct points, no three collinear, strictly inside
 (-dim, dim). Both reject inadmissible n and dim with an exception and otherwise never fail (convex point sets are found by rejection, which is only claimed to terminate quickly while n is at most 4*dim).""",
 ["inputs", "histories"], "all seeds, all admissible (n, dim) including the smallest dims and n close to the maximum",
 "Failure needs particular modular coincidences of random parameters; tests draw a few samples.",
 [V], [("Random::convex, Random::nonCollinearPoints", V)], ["generated points vs brute force"])

prop("C23", "The graph container behaves like a map of edges under every history",
 """After any sequence of edge insertions, overwrites, erasures, copies, assignments, renumbering, combine, append, permute and sub-range operations a
 graph's vertex set, edge set, edge data, degrees, adjacency views, lookups and printed form equal those of an abstract simple (di)graph subjected to the same
 operations. Undirected edges are visible from both ends with shared data, copies are independent, permuting is an isomorphism preserving data, and random
 subgraphs contain exactly m of the edges. Invalid vertex ids, self loops and bad edge ids are rejected with an exception without changing the graph.""",
 ["histories", "inputs"], "all operation histories over directed/undirected graphs with and without edge data, any minimum id",
 "No test covers the graph generator at all; dangling pointers and stale indices need particular histories.",
 ["src/graph_gen.h"], [("GraphDetail::GraphType", "src/graph_gen.h")], ["all observers vs a std::map model after every operation", "sanitizers"],
 [("adj/edges", "adjacency sets pointing into the edge deque", "GraphType")])

prop("C24", "Graph transformations match their mathematical definition",
 """Complement, k-th power, transitive closure, tensor, cartesian and strong product, line graph, reverse, directed (with or without predicate) and undirected versions
 of every graph have exactly the vertex and edge set of the mathematical definition (products up to the order of the two factors in the
 numbering), with every edge once. Transformations that keep edges keep their data, and the source graph is unchanged (except for reverse, which is in place).""",
 ["inputs"], "all small graphs exhaustively sampled, directed and undirected, with and without data, any minimum id",
 "No test covers these operations.",
 ["src/graph_gen.h"], [("GraphType::complement/power/transitiveClosure/product/cartesian/strongProduct/lineGraph/reverse/directed/undirected", "src/graph_gen.h")], ["edge multiset vs brute force definition"])

prop("C25", "Graph families have exactly the documented vertices and edges",
 """Independent set, clique, complete bipartite graph, star, path, cycle, wheel, lolly, broom, grid, hypercube, complete tree, boolean lattice, Rado prefix, Pruefer-decoded
 tree and the two flow worst cases have exactly the documented number of vertices, edges, adjacencies and, in the directed versions, the
 documented edge directions, for every admissible size. Every edge occurs once.""",
 ["inputs"], "all admissible parameters up to moderate size, directed and undirected, with and without edge data",
 "No test covers the graph families.",
 ["src/graph_gen.h"], [("independent, clique, bipartite, star, path, cycle, wheel, lolly, broom, grid, hypercube, completeTree, booleanLattice, rado, pruefer, ffWorstcase, mcmfWorstcase", "src/graph_gen.h")], ["edge sets vs independent construction"])

prop("C26", "Random graphs are simple and have exactly the requested parameters",
 """Random trees are spanning trees on [0, n) (directed: every edge points away from root 0); random (bipartite) graphs with m edges have exactly m distinct edges, no self loops, and only admissible pairs,
 up to and including all possible edges, where every possible edge (both directions if directed) occurs;
 random graphs with a degree sequence realise exactly that sequence or reject it iff it is not realisable; growing graphs are simple and join vertex i to at most floor(p(i+1)) earlier vertices. Impossible edge counts are rejected with an exception.""",
 ["inputs", "histories"], "all seeds, all n, m from 0 to the maximum, p in {0,1} and between, realisable and unrealisable degree sequences",
 "No test covers random graphs.",
 ["src/graph_gen.h"], [("randomTree, randomGraph, randomBipartite, randomGrowingGraph, pruefer", "src/graph_gen.h")], ["generated edge sets"])

prop("C27", "Undirected graph validation is right after every inserted edge",
 """After every prefix of every edge insertion sequence (loops and repeated edges included) the undirected graph reports connected, forest, tree, bipartite and pairwise
 connectivity exactly as defined for the multigraph built so far, a self loop or multi-edge witness exactly if one exists, and
 correct neighbours, degrees (number of distinct neighbours), edge queries and edge count. The union-find structure represents exactly
 the equivalence generated by the unions made and reports whether a union merged two classes.""",
 ["histories", "inputs"], "all insertion sequences over vertex ranges with arbitrary offset, queries interleaved",
 "No test covers graph validation.",
 ["src/graph_val.h"], [("Graph, UnionFind", "src/graph_val.h")], ["all queries after each insertion vs brute force"])

prop("C28", "Directed graph validation is right after every inserted edge",
 """After every prefix of every edge insertion sequence (loops, repeated and antiparallel edges included) the directed graph returns a topological order of all vertices iff it is
 acyclic, a root iff it is a directed tree with edges pointing away from that root, a self loop or multi-edge witness exactly if one exists, and correct
 in/out neighbours, degrees, (reverse) edge queries and edge count. Returned orders and roots use the vertex ids of the graph's range.""",
 ["histories", "inputs"], "all insertion sequences over vertex ranges with arbitrary offset, queries interleaved",
 "No test covers graph validation.",
 ["src/graph_val.h"], [("DiGraph::addEdge/isDAG/isTree", "src/graph_val.h")], ["all queries after each insertion vs brute force"])

prop("C29", "The xoshiro engine is xoshiro256** and jumps exactly 2^128 steps",
 """For every state the engine's output stream equals the published xoshiro256** recurrence, jump() moves the state exactly as
 2^128 single steps would, and seeding with one number equals the fixed base state xor-ed with that number and jumped
 once. It satisfies the 64-bit random engine contract so that it can replace the default engine.""",
 ["inputs", "histories"], "all 256-bit states, all seeds, interleavings of draws and jumps",
 "No test covers the engine; a wrong jump constant is invisible without linear algebra over the recurrence.",
 ["src/rng.h"], [("Xoshiro256ss", "src/rng.h")], ["output stream vs independent implementation and the 2^128-th power of the transition matrix"])

prop("C30", "The cipher is AES-256 and the secure engine is its counter stream",
 """For every key and block the cipher output equals AES-256 encryption as standardised. The secure engine's i-th output is the xor of the two
 little-endian halves of the encryption of the initial vector plus i, added as a little-endian 128-bit number with carry over all bytes
 and wrap-around; a numeric seed is xor-ed into the low eight bytes of the fixed initial vector.""",
 ["inputs", "histories"], "all keys, blocks, initial vectors (including carry chains through every byte), seeds and stream lengths",
 "No test covers the cipher; table errors affect only particular byte values.",
 ["src/secure_rng.h"], [("AES, AES_RNG", "src/secure_rng.h")], ["outputs vs an independent AES computed from the field definition and standard test vectors"])

prop("C31", "Written PNG files are valid and decode to exactly the image",
 """Every image written is a standard-conforming PNG (signature, chunk lengths and CRCs, zlib stream with correct checksum, 8-bit RGBA) that decodes
 to the image's width, height and pixels, with pixel (0, 0) at the bottom left. The file is written exactly when the image has a
 file name and at least one pixel, on destruction or explicit write.""",
 ["inputs"], "all sizes up to the documented width limit, all pixel values",
 "No test covers the visualizers.",
 ["src/visualizer_png.h"], [("details::PNGWriter, PNG", "src/visualizer_png.h")], ["file bytes decoded by an independent decoder"])

prop("C32", "Drawing operations change exactly the pixels and colours they should",
 """Rectangle fills touch exactly the rectangle spanned by both corners with border colour exactly on its outline, flood fill exactly
 the 4-connected same-coloured region of its start, and lines an 8-connected path of max(dx,dy)+1 distinct pixels from one endpoint to the other staying within half
 a pixel of the ideal segment; every touched pixel is combined exactly once with the chosen blend mode (assign, blend, add, subtract), using the colour's value at the call
 even if it is given as a pixel of the image itself, and no other pixel changes. Accesses stay inside the
 image for coordinates inside the image and every operation terminates.""",
 ["inputs", "histories"], "all images, coordinates and corner orders, colours with alpha, blend modes, sequences of operations",
 "No test covers the visualizers.",
 ["src/visualizer_png.h"], [("PNG::fillRectangle/floodFill/drawLine/clear", "src/visualizer_png.h")], ["pixel array vs reference after every operation"])

prop("C33", "SVG output is well-formed, correctly placed and inside its view box",
 """Every written file is well-formed XML containing exactly the elements written to the image, in order, with their coordinates (y axis flipped), sizes, stroke and fill attributes
 (to printed precision), and its view box is the smallest rectangle containing the origin and the geometry of every shape drawn on the image object and every included point.
 Nothing is written without file name or without content.""",
 ["inputs", "histories"], "all shapes, styles, coordinates, orders of drawing",
 "No test covers the visualizers.",
 ["src/visualizer_svg.h"], [("SVG, Rectangle, Circle, Ellipse, Line, Polygon, Polyline, Shape, Stroke, Fill, attribute", "src/visualizer_svg.h")], ["parsed XML vs a model of the drawing calls"])

prop("C34", "Colour arithmetic saturates and never wraps",
 """Scaling, adding, subtracting and interpolating colours is per channel, rounded to nearest when scaling, and saturated to [0, 255], never
 wrapped, for every colour and factor. Blending follows alpha compositing with opaque upper replacing and transparent upper keeping the lower colour and each result channel lying
 between the two inputs' channels; construction, indexing, comparison and hexadecimal printing round-trip every channel value.""",
 ["inputs"], "all channel values, factors (negative, fractional, huge), alpha combinations, both visualizers",
 "No test covers colours.",
 ["src/visualizer_png.h", "src/visualizer_svg.h"], [("Color operators, clamp_color, lerp, blend", "src/visualizer_png.h")], ["results vs reference arithmetic"])

prop("C35", "Diagnostics point at the offending token",
 """When a read rejects a token of a seekable stream and the token is followed by at least one more byte and starts with a printable character, the judge message contains the one-based line on which the
 token starts, its zero-based column on that line, the text of the line around it (cut to at most 80 characters) and a marker line whose markers lie exactly below the
 visible part of that token. For range, length and expectation failures the message also names the offending value and the bounds or the expected value (for long strings excerpts of the expected and the seen string that contain their first difference). Non-seekable streams produce the message without location and end with the same verdict.""",
 ["inputs", "histories"], "all inputs with an offending token at any line, column, length, both whitespace modes",
 "Tests do not look at messages.",
 [V], [("InputStream::fail", V)], ["text written to the judge stream vs the true token position"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
