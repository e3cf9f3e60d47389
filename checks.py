"""One function per property: builds the monitored programs from the current tree, runs them, applies the oracles."""
import json, os, re, subprocess, sys
import check as K
from check import run_harness, Broken, THOROUGH, SEED

CHECKS = {}


def C(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def simple(pid, src, configs, rule, assumptions=(), settings=False, **kw):
    def f(rep):
        rep.rule = rule
        rep.assumptions = list(assumptions)
        only = "-DVH_ONLY=%d" % int(pid[1:])
        if settings: K.compile_all([(src, c, (only,)) for c in configs] + [(src, "clang", (only, "-DVH_UPPER"))])
        run_harness(rep, src, pid, configs, extra=[only], **kw)
        # compile time settings: upper default case, other default tolerance
        if settings: run_harness(rep, src, pid, ["clang"], extra=[only, "-DVH_UPPER"], scale={"clang": "1/3"})
    CHECKS[pid] = f


simple("C15", "math.cpp", ["gcc", "clang", "m32"], "distinct (operands, modulus) fingerprints over random/border operand generator; every case calls the real functions and compares with a shift-and-add reference", scale={"m32": "1/4"})
simple("C16", "math.cpp", ["gcc", "clang", "m32"], "distinct numbers/windows; verdict compared with an independent deterministic Miller-Rabin, trial division and plain sieve", scale={"m32": "1/12"})
simple("C13", "seq.cpp", ["gcc", "clang", "m32"], "distinct sequences (with type and offset); each judged by multiset counting resp. pairwise scan, witnesses validated")
simple("C14", "seq.cpp", ["gcc", "clang", "m32"], "all chars; distinct random strings, ranges (incl. 64-bit extremes), containers and queue histories vs definitions", settings=True)
simple("C17", "geom.cpp", ["gcc", "clang"], "distinct polygons (random, 2-opt, spiral, degenerate, exhaustive 3x3 grid, extreme coordinates) vs O(n^2)/O(n^3) definition")
simple("C22", "geom.cpp", ["gcc", "clang"], "distinct (seed, n, dim); convexity, extent, distinctness and all triples judged by brute force")

IO = ["gcc", "clang", "m32"]
simple("C01", "in.cpp", IO, "distinct (bytes, script, case mode) executions of the real stream next to a byte-level model; sources: memory, file, non-seekable chunked pipe", scale={"m32": "1/3"})
simple("C02", "in.cpp", IO, "distinct (bytes, script, case mode) executions on lenient streams next to a token-level model", scale={"m32": "1/3"}, settings=True)
simple("C03", "in.cpp", IO, "distinct (token, bounds, script); acceptance and value vs hand-written recogniser", scale={"m32": "1/3"})
simple("C04", "in.cpp", IO, "distinct (token, bounds, decimals, tolerances, script); acceptance vs recogniser, value vs strtold, tolerance in 128-bit floating point (near-tie cases that rounding decides are not judged)", scale={"m32": "1/3"}, settings=True)
simple("C05", "in.cpp", IO, "distinct (value, expected, tolerances) pairs; relation in 128-bit floating point (near-tie cases that rounding decides are not judged)", scale={"m32": "1/3"}, settings=True)
simple("C06", "in.cpp", IO + ["fast"], "distinct hostile inputs x operations under ASan/UBSan; outcome must be the model's value or the configured verdict", scale={"m32": "1/3"})
simple("C35", "in.cpp", ["gcc", "clang"], "distinct rejected tokens; message parsed and compared with the true position", settings=True)

import roles
for _p, _f in (("C07", roles.c07), ("C08", roles.c08), ("C10", roles.c10), ("C11", roles.c11)): CHECKS[_p] = _f
simple("C09", "cmd.cpp", ["gcc", "clang", "m32"], "distinct argument vectors x queries; results and exceptions compared with a token-list model", scale={"m32": "1/3"})


@C("C12")
def c12(rep):
    rep.rule = "distinct values x container kinds x separators; bytes compared with an independent renderer"
    K.compile_all([("out.cpp", "gcc", ()), ("out.cpp", "clang", ()), ("out.cpp", "gcc20", ("-DVH_PREC=9",))])
    run_harness(rep, "out.cpp", "C12", ["gcc", "clang"])
    run_harness(rep, "out.cpp", "C12", ["gcc20"], extra=["-DVH_PREC=9"], scale={"gcc20": "1/4"})


@C("C18")
def c18(rep):
    rep.rule = "distinct argument tuples; every drawn value compared with the documented range, every invalid request must throw; also with an engine that emits border values half of the time"
    K.compile_all([("rnd.cpp", c, ("-DVH_ONLY=18",) + e) for c, e in (("gcc", ()), ("clang", ()), ("m32", ()), ("gcc", ("-DVH_SPIKY",)), ("m32", ("-DVH_SPIKY",)))])
    run_harness(rep, "rnd.cpp", "C18", IO, extra=["-DVH_ONLY=18"], scale={"m32": "1/3"})
    run_harness(rep, "rnd.cpp", "C18", ["gcc", "m32"], extra=["-DVH_ONLY=18", "-DVH_SPIKY"], scale={"m32": "1/3"})


@C("C19")
def c19(rep):
    rep.rule = "distinct requests; structure of every generated sequence judged by definition; also with an engine that emits border values half of the time"
    K.compile_all([("rnd.cpp", c, ("-DVH_ONLY=19",) + e) for c, e in (("gcc", ()), ("clang", ()), ("m32", ()), ("gcc", ("-DVH_SPIKY",)), ("m32", ("-DVH_SPIKY",)))])
    run_harness(rep, "rnd.cpp", "C19", IO, extra=["-DVH_ONLY=19"], scale={"m32": "1/3"})
    run_harness(rep, "rnd.cpp", "C19", ["gcc", "m32"], extra=["-DVH_ONLY=19", "-DVH_SPIKY"], scale={"m32": "1/3"})


@C("C20")
def c20(rep):
    rep.rule = "distinct (generator, parameters); each judged on thousands of draws by a chi-square test with false alarm probability 1e-10; evaluations are whole samples, see observed_events for draws"
    rep.assumptions = ["a distribution error is seen when it shifts some tested cell by a few percent; smaller biases are not"]
    K.compile_all([("dist.cpp", c, ("-DVH_ONLY=20",) + e) for c, e in (("plain", ()), ("clang-fast", ("-DVH_AES",)), ("m32-fast", ()), ("m32-fast", ("-DVH_XO",)))])
    run_harness(rep, "dist.cpp", "C20", ["plain", "m32-fast"], extra=["-DVH_ONLY=20"], parts=8)
    run_harness(rep, "dist.cpp", "C20", ["clang-fast"], extra=["-DVH_ONLY=20", "-DVH_AES"], scale={"clang-fast": "1/3"})
    run_harness(rep, "dist.cpp", "C20", ["m32-fast"], extra=["-DVH_ONLY=20", "-DVH_XO"], scale={"m32-fast": "1/3"})

GG = ["gcc20", "clang-fast", "m32-20"]
simple("C23", "gg.cpp", GG, "distinct operation histories over three graphs; after every operation all observers of all graphs are compared with a std::map model", scale={"m32-20": "1/3", "clang-fast": "3"})
simple("C24", "gg.cpp", GG, "distinct graphs (random and all small ones) x transformations; vertex and edge sets vs brute force definitions", scale={"m32-20": "1/3", "clang-fast": "3"})
simple("C25", "gg.cpp", GG, "distinct (family, parameters, edge data type); vertices, edges, directions and data vs an independent construction", scale={"m32-20": "1/2"})
simple("C26", "gg.cpp", GG, "distinct (generator, parameters, seed); simplicity, counts, admissible pairs, degrees and rejections judged on the generated graph", scale={"m32-20": "1/3", "clang-fast": "3"})
simple("C27", "gv.cpp", IO, "distinct edge insertion sequences (random, tree-like, bipartite, cyclic, all short ones); all queries judged after each insertion by flooding/colouring from scratch", scale={"m32": "1/3"})
simple("C28", "gv.cpp", IO, "distinct edge insertion sequences (random, tree-like, acyclic, cyclic, all short ones); all queries judged after each insertion from scratch", scale={"m32": "1/3"})
simple("C29", "rng.cpp", IO, "distinct 256-bit states / seeds with interleaved draws and jumps; outputs vs an independent recurrence and the 2^128-th power of its transition matrix", scale={"m32": "1/3"})
simple("C30", "rng.cpp", IO, "distinct keys, blocks, counters (carry chains through every byte) and seeds; outputs vs an AES-256 computed from the field definition and published vectors", scale={"m32": "1/3"})


def second_opinion_png(d):
    """decodes kept files with zlib, an implementation independent of the harness' decoder"""
    import zlib, struct
    n = 0
    for f in sorted(os.listdir(d)):
        if not f.endswith(".png"): continue
        b = open(os.path.join(d, f), "rb").read()
        raw = open(os.path.join(d, f[:-4] + ".raw"), "rb").read()
        head, pix = raw.split(b"\n", 1); w, h = map(int, head.split())
        try:
            assert b[:8] == b"\x89PNG\r\n\x1a\n", "signature"
            p, z, dim = 8, b"", None
            while p < len(b):
                l, = struct.unpack(">I", b[p:p + 4]); t = b[p + 4:p + 8]; body = b[p + 8:p + 8 + l]
                assert zlib.crc32(t + body) == struct.unpack(">I", b[p + 8 + l:p + 12 + l])[0], "crc of %r" % t
                if t == b"IHDR": dim = struct.unpack(">II", body[:8])
                if t == b"IDAT": z += body
                p += 12 + l
            assert dim == (w, h), "dimensions"
            data = zlib.decompress(z)
            if all(data[y * (4 * w + 1)] == 0 for y in range(h)):
                assert b"".join(data[y * (4 * w + 1) + 1:(y + 1) * (4 * w + 1)] for y in range(h)) == pix, "pixels"
        except (AssertionError, zlib.error, struct.error) as e:
            return n, "%s (%dx%d): %s" % (f, w, h, e)
        n += 1
    return n, None


@C("C31")
def c31(rep):
    rep.rule = "distinct (size, pixels, way of writing); bytes decoded by an independent PNG decoder (chunks, CRC, zlib, filters), some also by Python's zlib"
    import shutil
    d = os.path.join(K.BUILD, "keep-%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    K.ENV["VH_KEEP"] = d
    try:
        run_harness(rep, "png.cpp", "C31", IO, extra=["-DVH_ONLY=31"], scale={"m32": "1/3"})
        n, bad = second_opinion_png(d)
        rep.event("files decoded by zlib", n)
        if bad: rep.violate("C31.zlib", bad)
    finally:
        shutil.rmtree(d, ignore_errors=True)


simple("C32", "png.cpp", IO, "distinct drawing sessions; after every operation the whole image is compared with a reference image; all lines of a small grid", scale={"m32": "1/3"})


def second_opinion_svg(d):
    """parses kept files with expat (through Python) and with libxml2 where present"""
    import xml.etree.ElementTree as ET
    n = 0
    for f in sorted(os.listdir(d)):
        if not f.endswith(".svg"): continue
        want = [w for w in open(os.path.join(d, f[:-4] + ".txt")).read().split() if w != "#comment"]
        try:
            root = ET.parse(os.path.join(d, f)).getroot()
        except ET.ParseError as e:
            return n, "%s: %s" % (f, e)
        got = [k.tag.replace("{http://www.w3.org/2000/svg}", "") for k in root]
        if got != want: return n, "%s: elements %s instead of %s" % (f, got, want)
        n += 1
    return n, None


@C("C33")
def c33(rep):
    rep.rule = "distinct scenes (shapes, styles, comments, included points, way of writing); file parsed by a strict XML parser and compared with a model, some also parsed by expat"
    import shutil
    d = os.path.join(K.BUILD, "keep-%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    K.ENV["VH_KEEP"] = d
    try:
        run_harness(rep, "svg.cpp", "C33", IO, extra=["-DVH_ONLY=33"], scale={"m32": "1/3"})
        n, bad = second_opinion_svg(d)
        rep.event("files parsed by expat", n)
        if bad: rep.violate("C33.expat", bad)
    finally:
        shutil.rmtree(d, ignore_errors=True)


@C("C34")
def c34(rep):
    rep.rule = "all channel pairs for + and -, all alpha pairs for blend, all channels x drawn factors for scaling, in both visualizers; results vs integer/long double reference"
    K.compile_all([(s, c, ("-DVH_ONLY=34",)) for s in ("png.cpp", "svg.cpp") for c in IO])
    for s in ("png.cpp", "svg.cpp"):
        run_harness(rep, s, "C34", IO, extra=["-DVH_ONLY=34"], scale={"m32": "1/3"})


@C("C21")
def c21(rep):
    """the same program in many builds and environments; traces must agree pairwise"""
    from concurrent.futures import ThreadPoolExecutor
    rep.rule = "distinct call sessions (20 calls resp. 8 graph operations each); the hash of every session's results must be the same in all builds, environments and positions in the program"
    pat, zero = "-ftrivial-auto-var-init=pattern", "-ftrivial-auto-var-init=zero"
    builds = [  # name, engine, command, extra
        ("g++ C++20 -O2", "mt", ["g++", "-std=c++20", "-O2"], []),
        ("g++ C++17 -O0 pattern", "mt", ["g++", "-std=c++17", "-O0", pat], []),
        ("clang++ C++20 -O2 zero", "mt", ["clang++", "-std=c++20", "-O2", "-DDOUBLE_FALLBACK", zero], []),
        ("clang++ C++17 -O0 pattern", "mt", ["clang++", "-std=c++17", "-O0", pat], []),
        ("g++ -m32 C++20 -O1 unsigned char", "mt", ["g++", "-m32", "-std=c++20", "-O1", "-funsigned-char"], []),
        ("g++ -m32 C++17 -O2", "mt", ["g++", "-m32", "-std=c++17", "-O2"], []),
        ("g++ C++20 sanitized", "mt", K.CONFIGS["gcc20"], []),
        ("g++ C++20 other standard library and heap", "mt", ["g++", "-std=c++20", "-O1", "-DVH_ALTSTD", "-DVH_ALTHEAP"], []),
    ]
    for e, d in (("aes", "-DVH_AES"), ("xoshiro", "-DVH_XO")):
        builds += [("g++ C++20 -O1", e, ["g++", "-std=c++20", "-O1", d], []), ("clang++ C++17 -O1 pattern", e, ["clang++", "-std=c++17", "-O1", pat, d], []), ("g++ -m32 C++17 -O1 unsigned char", e, ["g++", "-m32", "-std=c++17", "-O1", "-funsigned-char", d], [])]
    names = []
    for i, (n, e, cmd, _) in enumerate(builds):
        K.CONFIGS["c21-%d" % i] = list(cmd); names.append("c21-%d" % i)

    def build(i):
        try:
            return K.compile_("repro.cpp", names[i], (), "repro")
        except Broken as e:
            if "-DVH_ALTSTD" in builds[i][2]: return None     # the stand-in library does not support something the code now uses
            if builds[i][1] != "mt" and "error:" in str(e): return str(e)
            raise
    order = sorted(range(len(builds)), key=lambda i: "-O2" not in builds[i][2] and "-fsanitize=address,undefined" not in builds[i][2])
    with ThreadPoolExecutor(K.NCPU) as ex: bins = dict(zip(order, ex.map(build, order)))
    n = 60000 if THOROUGH else 2500
    for i in order:      # the same program compiles with the default engine
        if isinstance(bins[i], str) and bins[i].startswith("compilation failed"):
            rep.violate("C21.engine", "the %s engine cannot be used as RandomEngine (%s): %s" % (builds[i][1], builds[i][0], " ".join(bins[i].splitlines()[1:3])[:300])); bins[i] = None
    runs = []   # (label, engine, binary, env, cwd)
    for i, (name, eng, cmd, _) in enumerate(builds):
        if bins[i] is None:
            if eng == "mt": rep.assumptions.append("the build with another standard library did not compile and was left out")
            continue
        env = dict(K.ENV)
        if i % 2: env["MALLOC_PERTURB_"] = str(37 + i)
        runs.append((name, eng, bins[i], env, K.BUILD))
        if i in (0, 2, 8, 11):   # the same binary again in another environment
            env2 = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "TZ": "Asia/Tokyo", "USER": "x" * 1777, "MALLOC_PERTURB_": "3", "SEED": "12345", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0", "LC_ALL": "C"}
            runs.append((name + ", other environment", eng, bins[i], env2, "/"))

    def run1(r, extra=()):
        return subprocess.run([r[2], str(SEED), str(n)] + list(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=r[3], cwd=r[4], timeout=700 if not THOROUGH else 6 * 3600)
    try:
        with ThreadPoolExecutor(K.NCPU) as ex: outs = list(ex.map(run1, runs))
    except subprocess.TimeoutExpired as e:
        raise Broken("a trace program did not finish (inconclusive): %s" % e.cmd[0])
    base = {}
    for r, p in zip(runs, outs):
        label = "%s engine, %s" % (r[1], r[0])
        if p.returncode != 0:
            rep.violate("C21.crash", "%s: ended with %s: %s" % (label, p.returncode, K.summarize_crash(p.stderr.decode("utf8", "replace"))), command=r[2]); continue
        tr = {}
        for line in p.stdout.decode().splitlines():
            if line.startswith("# values"): rep.event("values compared", int(line.split()[-1]))
            elif line.startswith("# reseeded"): rep.event("sessions repeated after reseeding", int(line.split()[-1]))
            elif line.startswith("RESEED"): rep.violate("C21.reseed", "%s: session %s gave other values when it was repeated after reseeding" % (label, line.split()[1]), session=line.split()[1])
            else:
                k, h = line.split(); tr[k] = h
        rep.evaluations += len(tr); rep.configs[label] = len(tr)
        for k, h in tr.items():
            rep.fp(r[1], k)
            b = base.setdefault((r[1], k), (h, r))
            if b[0] != h:
                kind = {"U": "unseeded", "R": "values", "G": "graphs"}[k[0]]
                if any(v["key"] == "C21." + kind for v in rep.viols): continue
                x, y = run1(b[1], (k,)).stdout.decode("utf8", "replace").splitlines(), run1(r, (k,)).stdout.decode("utf8", "replace").splitlines()
                d = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), -1)
                rep.violate("C21." + kind, "session %s differs between '%s' and '%s': %s  <>  %s" % (k, b[1][0], label, x[d][:250] if x else "", y[d][:250] if y else ""), session=k)
        rep.event("traces compared")
    if outs and outs[0].returncode == 0:
        for l in run1(runs[0], ("R0",)).stdout.decode("utf8", "replace").splitlines()[:3] + run1(runs[0], ("G0",)).stdout.decode("utf8", "replace").splitlines()[:2]: rep.sample(l[:160])
