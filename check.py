#!/usr/bin/env python3
"""check.py <PROPERTY> : decide one property on /repo's current working tree.

Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough).
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: error of the check.
"""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
HARN = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "replays")
NCPU = os.cpu_count() or 4
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
THOROUGH = TIER == "thorough"

WARN = ["-w"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
CONFIGS = {
    # name: compiler command
    "gcc":    ["g++", "-std=c++17", "-O1", "-g1"] + SAN,
    "gcc20":  ["g++", "-std=c++20", "-O1", "-g1"] + SAN,
    "clang":  ["clang++", "-std=c++20", "-O1", "-g1", "-DDOUBLE_FALLBACK"] + SAN,
    "m32":    ["g++", "-m32", "-std=c++17", "-O1", "-g1", "-fsanitize=undefined", "-fno-sanitize-recover=all"],
    "m32-20": ["g++", "-m32", "-std=c++20", "-O1", "-g1", "-fsanitize=undefined", "-fno-sanitize-recover=all"],
    "fast":   ["g++", "-std=c++20", "-O2"],
    "m32-fast": ["g++", "-m32", "-std=c++20", "-O1"],
    "clang-fast": ["clang++", "-std=c++20", "-O1", "-DDOUBLE_FALLBACK"],
    "plain":  ["g++", "-std=c++20", "-O1"],
}
ENV = dict(os.environ,
    ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=0:max_allocation_size_mb=6000:detect_stack_use_after_return=1:detect_invalid_pointer_pairs=0",
    UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=98",
    LC_ALL="C.UTF-8", LANG="C.UTF-8", MALLOC_PERTURB_="165")


class Broken(Exception):
    """The check itself could not run."""


class NoHeader(Broken):
    """The headers themselves do not compile in this configuration."""


class Rejected(Broken):
    """The headers compile, but a documented use of them that this harness makes does not, with the error inside the headers."""


def repo_digest():
    h = hashlib.sha256()
    for base in (SRC,):
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h


def compile_(src, config, extra=(), name=None):
    """Compiles harness/src (or an absolute path) against REPO/src; content-addressed cache in build/."""
    path = src if os.path.isabs(src) else os.path.join(HARN, src)
    cmd = CONFIGS[config] + WARN + list(extra)
    h = repo_digest()
    for f in sorted(os.listdir(HARN)):
        if f.endswith(".h"): h.update(f.encode() + open(os.path.join(HARN, f), "rb").read())
    h.update(open(path, "rb").read()); h.update(repr(cmd).encode())
    out = os.path.join(BUILD, "%s-%s-%s" % (name or os.path.basename(src).split(".")[0], config, h.hexdigest()[:20]))
    if os.path.exists(out): return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + ".%d.tmp" % os.getpid()
    full = cmd + ["-I", SRC, "-I", HARN, path, "-o", tmp]
    p = subprocess.run(full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=700)
    if p.returncode != 0:
        kind = Broken
        if "error:" in p.stdout:
            # the same translation unit reduced to its preprocessor lines: do the headers alone compile?
            skel = out + ".skel.cpp"
            open(skel, "w").write("\n".join(re.findall(r"(?m)^[ \t]*#.*$", open(path).read())) + "\n")
            alone = subprocess.run(cmd + ["-fsyntax-only", "-I", SRC, "-I", HARN, skel], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300).returncode == 0
            os.unlink(skel)
            first = re.search(r"(?m)^(\S+?):\d+:(?:\d+:)? (?:fatal )?error:", p.stdout)
            if not alone: kind = NoHeader
            elif first and os.path.realpath(first[1]).startswith(os.path.realpath(SRC) + "/"): kind = Rejected
        raise kind("compilation failed: %s\n%s" % (" ".join(full), "\n".join([l for l in p.stdout.splitlines() if "error" in l or "required from here" in l][:12])[:3000]))
    os.rename(tmp, out)
    return out


def compile_all(jobs):
    """jobs: list of (src, config, extra, name) -> list of binaries, in parallel; None where not even the headers compile, if they do elsewhere"""
    def one(j):
        try: return compile_(*j)
        except NoHeader as e: return e
    with ThreadPoolExecutor(NCPU) as ex: res = list(ex.map(one, jobs))
    if res and all(isinstance(r, Broken) for r in res): raise res[0]
    return [None if isinstance(r, Broken) else r for r in res]


def known_findings():
    res = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+)\s+(.*)", line.strip())
            if m: res[(m[1], m[2])] = m[3]
    return res


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.evaluations = 0
        self.fps = set()
        self.extra_distinct = 0
        self.events = {}
        self.groups = {}
        self.samples = []
        self.viols = []        # dicts: key, msg, replay (dict)
        self.assumptions = []
        self.rule = ""
        self.configs = {}
        self.extra = {}

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def fp(self, *xs):
        self.fps.add(hashlib.blake2b(repr(xs).encode(), digest_size=8).digest())

    def sample(self, x):
        if len(self.samples) < 24: self.samples.append(x)

    def violate(self, key, msg, **replay):
        self.viols.append(dict(key=key, msg=msg, replay=replay))

    def finish(self):
        kf = known_findings()
        real, known = [], {}
        for v in self.viols:
            k = (self.prop, v["key"])
            if k in kf: known[v["key"]] = kf[k]
            else: real.append(v)
        for k in sorted(known): print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, k, known[k]))
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.fps) + self.extra_distinct,
                   rule=self.rule, samples=self.samples, cases_per_group=self.groups,
                   observed_events=self.events, cases_per_configuration=self.configs)
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level="exploration", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(real))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True); f.write("\n")
        if real:
            os.makedirs(REPLAYS, exist_ok=True)
            seen = set()
            for v in real:
                if v["key"] in seen: continue
                seen.add(v["key"])
                name = "%s-%s.json" % (self.prop, hashlib.sha1((v["key"] + v["msg"]).encode("utf8", "replace")).hexdigest()[:12])
                p = os.path.join(REPLAYS, name)
                with open(p, "w") as f:
                    json.dump(dict(property=self.prop, seed=SEED, tier=TIER, **v), f, indent=1, default=repr)
                print("  %s: %s" % (v["key"], v["msg"][:1500]))
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        if self.evaluations == 0 or not self.fps and not self.extra_distinct:
            print("check %s observed nothing" % self.prop, file=sys.stderr)
            return 2
        print("%s: held on %d evaluations (%d distinct non-trivial), %.1f s" % (self.prop, self.evaluations, cov["distinct_nontrivial"], time.time() - self.t0))
        return 0


def state_info(path):
    try:
        b = open(path, "rb").read()
        import struct
        serial, idx = struct.unpack("<QQ", b[:16])
        group = b[16:64].split(b"\0")[0].decode()
        note = b[64:].split(b"\0")[0].decode("utf8", "replace")
        return group, idx, note
    except Exception:
        return "?", 0, ""


def summarize_crash(text):
    for pat in (r"ERROR: AddressSanitizer: [^\n]*", r"[^\n]*runtime error: [^\n]*", r"VH-HANG[^\n]*", r"terminate called[^\n]*(?:\n[^\n]*what[^\n]*)?", r"Assertion[^\n]*", r"[^\n]*Assert[^\n]*"):
        m = re.search(pat, text)
        if m: return m[0][:400]
    return text[-300:]


def run_harness(rep, src, prop, configs, parts=None, extra=(), timeout=800, scale=None, name=None):
    """Builds src in every configuration, runs all groups of prop, and merges the observations."""
    jobs = [(src, c, tuple(extra), name) for c in configs]
    bins = compile_all(jobs)
    for c, b in zip(configs, bins):
        if b is None: rep.assumptions.append("the headers do not compile in configuration %s, which was left out" % c)
    configs, bins = zip(*[(c, b) for c, b in zip(configs, bins) if b])
    parts = parts or max(1, NCPU // len(configs))
    os.makedirs(BUILD, exist_ok=True)
    tmpd = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(tmpd, ignore_errors=True); os.makedirs(tmpd)

    def one(arg):
        cfg, binary, part = arg
        tag = "%s.%d" % (cfg, part)
        out = os.path.join(tmpd, tag + ".json"); st = os.path.join(tmpd, tag + ".state"); err = os.path.join(tmpd, tag + ".err")
        cmd = [binary, "--seed", str(SEED), "--prop", prop, "--out", out, "--state", st, "--part", "%d/%d" % (part, parts)]
        if THOROUGH: cmd.append("--thorough")
        sc = (scale or {}).get(cfg)
        if sc: cmd += ["--scale", sc]
        try:
            with open(err, "wb") as e:
                p = subprocess.run(cmd, stdout=e, stderr=e, stdin=subprocess.DEVNULL, env=ENV, cwd=tmpd, timeout=timeout if not THOROUGH else 6 * 3600)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
        return cfg, binary, part, rc, out, st, err

    args = [(c, b, k) for c, b in zip(configs, bins) for k in range(parts)]
    with ThreadPoolExecutor(NCPU) as ex: results = list(ex.map(one, args))
    try:
        for cfg, binary, part, rc, out, st, err in results:
            def add(v):
                rep.violate(v["key"], v["msg"], config=cfg, binary_args=["--seed", str(SEED), "--replay", "%s:%d" % (v["group"], v["idx"])], source=src, compile=CONFIGS[cfg] + list(extra))
            if rc != 0 and os.path.exists(out + ".viol"):
                for line in open(out + ".viol"):
                    try: add(json.loads(line))
                    except ValueError: pass
            if rc == 0:
                r = json.load(open(out))
                n = sum(r["evals"].values())
                rep.evaluations += n
                rep.configs[cfg] = rep.configs.get(cfg, 0) + n
                for k, v in r["evals"].items(): rep.groups[k] = rep.groups.get(k, 0) + v
                for k, v in r["events"].items(): rep.event(k, v)
                if part == 0:
                    for g, ss in r["samples"].items():
                        for s in ss[:1]: rep.sample(g + ": " + s) if cfg == configs[0] else None
                raw = open(out + ".fp", "rb").read()
                rep.fps.update(raw[i:i + 8] for i in range(0, len(raw), 8))
                for v in r["violations"]: add(v)
            elif rc == "timeout":
                raise Broken("%s part %d of %s timed out (inconclusive); in %s" % (cfg, part, src, state_info(st)))
            elif rc == 3:
                raise Broken("harness usage error: " + open(err, errors="replace").read()[-500:])
            else:
                group, idx, note = state_info(st)
                text = open(err, errors="replace").read()
                if rc == 97 and not any(v["key"].endswith(".hang") for v in rep.viols):   # hang: re-run the single case before reporting
                    try:
                        p = subprocess.run([binary, "--seed", str(SEED), "--replay", "%s:%d" % (group, idx)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, env=ENV, cwd=tmpd, timeout=200)
                        if p.returncode != 97: raise Broken("case %s:%d hung once but not again (inconclusive)" % (group, idx))
                    except subprocess.TimeoutExpired:
                        pass
                rep.violate(group + (".hang" if rc == 97 else ".crash"),
                            "config %s case %s:%d ended with %s: %s; input: %s" % (cfg, group, idx, rc, summarize_crash(text), note),
                            config=cfg, binary_args=["--seed", str(SEED), "--replay", "%s:%d" % (group, idx)], source=src, compile=CONFIGS[cfg])
    finally:
        shutil.rmtree(tmpd, ignore_errors=True)


def prune_build():
    """keeps the build cache small"""
    try:
        fs = [os.path.join(BUILD, f) for f in os.listdir(BUILD) if not f.startswith("run-")]
        fs = sorted((f for f in fs if os.path.isfile(f)), key=os.path.getmtime)
        while len(fs) > 150: os.unlink(fs.pop(0))
    except OSError:
        pass


def main():
    if len(sys.argv) != 2: print(__doc__); return 2
    prop = sys.argv[1]
    sys.path.insert(0, HERE)
    import checks
    if prop not in checks.CHECKS:
        print("no check for", prop); return 2
    rep = Report(prop)
    prune_build()
    try:
        checks.CHECKS[prop](rep)
        return rep.finish()
    except Rejected as e:
        rep.violate(prop + ".compile", "the headers compile, but a use of what the property is about does not: " + " ".join(str(e).splitlines()[1:])[:900])
        return rep.finish()
    except Broken as e:
        print("ERROR: check %s could not decide: %s" % (prop, e), file=sys.stderr)
        # what was already seen still counts
        if any((prop, v["key"]) not in known_findings() for v in rep.viols): return rep.finish()
        return 2


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
