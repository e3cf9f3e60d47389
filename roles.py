"""End-to-end monitors for the roles: runs harness/role.cpp as real processes and compares exit codes, files and logged
values with a model of the protocol (C07, C08, C10, C11)."""
import os, random, shutil, subprocess, threading
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
import check as K

WS = b" \t\n\v\f\r"


class Reject(Exception):
    pass


class Exc(Exception):
    """an uncaught C++ exception is expected"""


def fr(x):
    return Fraction(x)


class Stream:
    def __init__(self, data, strict, cs, at=Fraction(1, 10**6), rt=Fraction(1, 10**6), code=43):
        self.d, self.p, self.strict, self.cs, self.at, self.rt, self.code = data, 0, strict, cs, at, rt, code

    def skip(self):
        if not self.strict:
            while self.p < len(self.d) and self.d[self.p] in WS: self.p += 1

    def noteof(self):
        self.skip()
        if self.p >= len(self.d): raise Reject(self.code)

    def eof(self):
        self.skip()
        if self.p < len(self.d): raise Reject(self.code)

    def ch(self, c):
        if self.strict:
            self.noteof()
            if self.d[self.p] != c: raise Reject(self.code)
            self.p += 1

    def string(self):
        self.noteof()
        if self.strict and not 33 <= self.d[self.p] <= 126: raise Reject(self.code)
        b = self.p
        while self.p < len(self.d) and self.d[self.p] not in WS: self.p += 1
        t = self.d[b:self.p]
        return t if self.cs else t.lower()

    def integer(self):
        t = self.string().decode("latin1")
        import re
        if not re.fullmatch("0|-?[1-9][0-9]*", t) or not -2**63 <= int(t) < 2**63: raise Reject(self.code)
        return int(t)

    def real(self):
        t = self.string().decode("latin1")
        import re
        if not re.fullmatch(r"[+-]?([0-9]*\.[0-9]+|[0-9]+\.|[0-9]+)([eE][+-]?[0-9]+)?", t): raise Reject(self.code)
        return Fraction(t.rstrip(".") if t.endswith(".") else t)

    def eq(self, g, e):
        return abs(g - e) <= self.at or (e != 0 and abs(g - e) <= self.rt * abs(e))


class Runner:
    def __init__(self, rep, prop, configs):
        self.rep, self.prop = rep, prop
        self.bins = dict(zip(configs, K.compile_all([("role.cpp", c, (), None) for c in configs])))
        self.configs = [c for c in configs if self.bins[c]]
        for c in configs:
            if not self.bins[c]: rep.assumptions.append("the headers do not compile in configuration %s, which was left out" % c)
        self.base = os.path.join(K.BUILD, "run-%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.base, ignore_errors=True); os.makedirs(self.base)
        self.lock = threading.Lock()

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)

    def run(self, d, cfg, role, script, args, stdin, files=(), pipe=True, timeout=60):
        """one process in directory d; returns (rc, stdout, stderr, log lines)"""
        os.makedirs(d, exist_ok=True)
        for name, data in files:
            with open(os.path.join(d, name), "wb") as f: f.write(data)
        env = dict(K.ENV, VH_ROLE=str(role), VH_LOG=os.path.join(d, "log"), VH_SCRIPT=os.path.join(d, "script"))
        with open(os.path.join(d, "script"), "w") as f: f.write("\n".join("\t".join(map(str, o)) for o in script) + "\n")
        kw = {}
        if pipe: kw["input"] = stdin
        else:
            with open(os.path.join(d, "stdin"), "wb") as f: f.write(stdin)
            kw["stdin"] = open(os.path.join(d, "stdin"), "rb")
        try:
            p = subprocess.run([self.bins[cfg]] + list(args), cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            rc, out, err = "timeout", b"", b""
        finally:
            if "stdin" in kw: kw["stdin"].close()
        try: log = open(os.path.join(d, "log"), "r", errors="replace").read().splitlines()
        except OSError: log = []
        return rc, out, err, log

    def each(self, n, fn):
        """fn(rng, index, dir, cfg) -> list of (key, message, replay); runs n cases in parallel"""
        def one(i):
            r = random.Random("%s:%d:%d" % (self.prop, K.SEED, i))
            cfg = self.configs[i % len(self.configs)]
            d = os.path.join(self.base, "c%d" % i)
            try: return i, cfg, fn(r, i, d, cfg)
            finally: shutil.rmtree(d, ignore_errors=True)
        with ThreadPoolExecutor(K.NCPU + 2) as ex:
            for i, cfg, res in ex.map(one, range(n)):
                self.rep.evaluations += 1
                self.rep.configs[cfg] = self.rep.configs.get(cfg, 0) + 1
                for key, msg, replay in res:
                    self.rep.violate(key, "%s (case %d, %s)" % (msg, i, cfg), case=i, config=cfg, **replay)

    def ev(self, name, n=1):
        with self.lock: self.rep.event(name, n)

    def fp(self, *xs):
        with self.lock: self.rep.fp(*xs)

    def sample(self, x):
        with self.lock: self.rep.sample(x)


def hx(b):
    return b.hex()


ROLE = ["input validator", "answer validator", "output validator", "interactor", "generator"]


def positional(role):
    return {0: [], 1: ["in.txt"], 2: ["in.txt", "ans.txt", "fb"], 3: ["in.txt", "ans.txt", "fb"], 4: []}[role]


def text(r, big=False):
    n = r.choice([0, 1, 3, 10, 30]) if not big else r.choice([5000, 9000, 40000])
    return bytes(r.choice(b"abcXYZ 0189.,-\n\t%{}") for _ in range(n))


def readf(d, name):
    try: return open(os.path.join(d, name), "rb").read()
    except OSError: return None


# ------------------------------------------------------------------------------------------------ C07
def c07(rep):
    rep.rule = "distinct (role, input files, stdin, script) process runs; exit status and every output file compared with the protocol model"
    rep.assumptions = ["exit status and files observed after the process ended; stdin given as pipe and as file"]
    R = Runner(rep, "C07", ["fast", "gcc"] if not K.THOROUGH else ["fast", "gcc", "clang", "m32"])

    def case(r, i, d, cfg):
        role = r.choice([0, 1, 2, 2, 3, 3])
        msgs = {"J": b"", "T": b"", "P": b""}
        script, log = [], []
        strict = role in (0, 1)
        codes = {"S": 43, "T": 1, "J": 1}
        data = {"S": b"", "T": b"", "J": b""}
        trouble = r.choice([None] * 14 + ["noargs", "nofile", "nofb", "twice", "setlate", "setlate2", "throw"])
        # readable streams of this role
        readable = {0: "S", 1: "ST", 2: "STJ", 3: "ST"}[role]
        ops = []
        for _ in range(r.randint(0, 9) if r.random() < 0.97 else r.randint(10, 150)):
            k = r.random()
            if k < 0.55:
                s = r.choice(readable)
                o = r.choice(["int", "intb", "str", "real", "xstr", "xint"])
                v = r.randint(-50, 50)
                tok = str(v).encode()
                if o == "str": tok = bytes(r.choice(b"abcdefgh") for _ in range(r.randint(1, 9)))
                if o == "xstr": tok = b"yes"
                bad = r.random() < 0.12
                good = tok
                if bad: tok = r.choice([b"zz", b"1e", b"\x80\x01", b"-", b"99999999999999999999", b"nan", tok + b"x", b""])
                if s == "S" and strict:
                    data[s] += tok + b"\n"; ops += [[o, s, good], ["nl", s]]
                else:
                    data[s] += r.choice([b"", b" ", b"\n\t"]) + tok + r.choice([b" ", b"\n", b"\r\n"]); ops += [[o, s, good]]
            elif k < 0.95:
                o = r.choice({0: "J", 1: "J", 2: "JT", 3: "JTP"}[role])
                ops.append(["out", o, text(r, r.random() < 0.08)])
            else: ops.append(["eof", r.choice(readable)])
        if r.random() < 0.6: ops += [["eof", s] for s in readable if r.random() < 0.7]
        if r.random() < 0.1: data[r.choice(readable)] += r.choice([b"extra", b" ", b"\n"])
        end = r.choice(["AC", "AC", "AC", "WA", "PE", "FAIL", "return", "none"])
        if end == "return": ops.append(["return", r.choice([0, 3])])
        elif end != "none":
            if r.random() < 0.5: ops.append(["verdict", end])
            else: ops.append(["verdictOn", end, r.choice({0: "JE", 1: "JE", 2: "JTE", 3: "JTPE"}[role])])
            ops.append(["out", "J", b"never"])
        # simulate
        st = {s: Stream(data[s], strict and s == "S", role in (0, 1), code=codes[s]) for s in data}
        script.append(["init"]); log.append("init")
        code, kind = 0, "end"
        if trouble in ("twice", "setlate", "setlate2", "throw"):
            ops.insert(r.randint(0, len(ops)) if trouble != "throw" else 0, ["!" + trouble])
        try:
            for o in ops:
                if o[0] == "out": script.append(["out", o[1], hx(o[2])]); msgs[o[1]] += o[2]
                elif o[0] in ("int", "intb", "str", "real", "xstr", "xint", "nl", "eof"):
                    s = st[o[1]]
                    if o[0] == "intb": script.append(["intb", o[1], -50, 51])
                    elif o[0] == "xstr": script.append(["xstr", o[1], "yes"])
                    elif o[0] == "xint": script.append(["xint", o[1], o[2].decode()])
                    else: script.append([o[0], o[1]])
                    if o[0] == "int": log.append("v %d" % s.integer())
                    elif o[0] == "intb":
                        v = s.integer()
                        if not -50 <= v < 51: raise Reject(s.code)
                        log.append("v %d" % v)
                    elif o[0] == "str": log.append("v " + hx(s.string()))
                    elif o[0] == "real": v = s.real(); log.append("v %.21g" % v if v.denominator == 1 and abs(v) < 10**15 else None)
                    elif o[0] == "xstr":
                        if s.string() != b"yes": raise Reject(s.code)
                        log.append("ok")
                    elif o[0] == "xint":
                        if s.integer() != int(o[2]): raise Reject(s.code)
                        log.append("ok")
                    elif o[0] == "nl": s.ch(10); log.append("ok")
                    elif o[0] == "eof": s.eof(); log.append("ok")
                elif o[0] == "return": script.append(o); code = o[1]; break
                elif o[0] == "verdict": script.append(o); code, kind = {"AC": 42, "WA": 43, "PE": 43, "FAIL": 1}[o[1]], "verdict"; break
                elif o[0] == "verdictOn":
                    script.append(o); code, kind = {"AC": 42, "WA": 43, "PE": 43, "FAIL": 1}[o[1]], "verdict"
                    if o[2] in msgs: msgs[o[2]] += b"\n"
                    break
                elif o[0] == "!twice": script.append(["init"]); raise Exc()
                elif o[0] == "!setlate": script.append(["set", r.choice(["abs", "rel"]), "0.5"]); raise Exc()
                elif o[0] == "!setlate2": script.append(["set", r.choice(["space", "case"]), "1"]); raise Exc()
                elif o[0] == "!throw": script.append(["throw"]); raise Exc()
        except Reject as e: code, kind = e.args[0], "reject"
        except Exc: code, kind = None, "exception"
        if kind in ("reject", "exception", "verdict"): script += [["out", "J", hx(b"never")], ["verdict", r.choice(["AC", "WA"])]]
        args = positional(role)
        files = [("in.txt", data["T"]), ("ans.txt", data["J"])]
        mkfb = True
        if trouble == "noargs" and role: args = args[:r.randint(0, len(args) - 1)]; code, kind = None, "exception"
        if trouble == "nofile" and role: 
            k = r.randint(0, 1 if role in (2,) else 0); files.pop(k)
            code, kind = None, "exception"
        if trouble == "nofb" and role in (2, 3): mkfb = False; code, kind = None, "exception"
        os.makedirs(d)
        if mkfb:
            os.makedirs(os.path.join(d, "fb"))
            for f in ("judgemessage.txt", "teammessage.txt"):        # left behind by an earlier run
                if role in (2, 3) and r.random() < 0.3:
                    with open(os.path.join(d, "fb", f), "wb") as o: o.write(bytes(r.choice(b"stale \n") for _ in range(r.choice([1, 9, 60, 3000]))))
                    R.ev("message files of an earlier run replaced")
        pipe = r.random() < 0.6
        rc, out, err, got = R.run(d, cfg, role, script, args, data["S"], files, pipe)
        R.fp(role, data, script)
        info = "%s, stdin %r, in.txt %r, ans.txt %r, script %r" % (ROLE[role], data["S"][:300], data["T"][:200], data["J"][:200], [[str(x)[:60] for x in s] for s in script])
        rp = dict(role=role, args=args, script=script, stdin=repr(data["S"]), in_txt=repr(data["T"]), ans_txt=repr(data["J"]))
        res = []
        bad = lambda key, m: res.append(("C07." + key, m + "; " + info, rp))
        if kind == "exception":
            R.ev("runs that must fail by exception")
            if rc in (42, 43): bad("setup", "ended with %s although %s" % (rc, trouble))
            return res
        if b"AddressSanitizer" in err or b"runtime error" in err: bad("sanitizer", err[-400:].decode("latin1"))
        R.ev("exit %s by %s" % (code, kind)); R.ev("values read", len(got))
        if rc != code: bad("exit", "exit status %s instead of %s" % (rc, code)); return res
        if len(got) != len(log) or any(a is not None and a != b for a, b in zip(log, got)): bad("values", "observed %r instead of %r" % (got, log))
        judge = out if role in (0, 1) else readf(d, "fb/judgemessage.txt")
        team = readf(d, "fb/teammessage.txt") if role in (2, 3) else None
        if kind == "reject":
            if judge is None or not judge.startswith(msgs["J"]) or len(judge) <= len(msgs["J"]) + 3: bad("judgemessage", "judge message %r does not consist of %r and a diagnosis" % ((judge or b"")[:600], msgs["J"][:300]))
            R.ev("diagnosed rejections")
        elif judge != msgs["J"]: bad("judgemessage", "judge message %r instead of %r" % ((judge or b"")[-600:], msgs["J"][-600:]))
        if role in (2, 3) and team != msgs["T"]: bad("teammessage", "team message %r instead of %r" % ((team or b"")[-300:], msgs["T"][-300:]))
        if role == 2 and out: bad("stdout", "output validator wrote %r to standard output" % out[:200])
        if role == 3 and out != msgs["P"]: bad("toTeam", "team received %r instead of %r" % (out[-300:], msgs["P"][-300:]))
        R.ev("message bytes compared", len(msgs["J"]) + len(msgs["T"]) + len(msgs["P"]))
        if i < 6: R.sample("%s: %s -> exit %s" % (ROLE[role], [[str(x)[:20] for x in s] for s in script][:6], code))
        return res

    def dialogue(r, i, d, cfg):
        """the monitor plays the team: every question must arrive before the interactor waits for the answer"""
        import select, time
        os.makedirs(d); os.makedirs(os.path.join(d, "fb"))
        qs = [bytes(r.choice(b"?abc 12") for _ in range(r.choice([1, 5, 40]))) + r.choice([b"", b"\n"]) for _ in range(r.randint(1, 6))]
        ans = [r.randint(-9, 9) for _ in qs]
        script = [["init"]]
        for q in qs:
            cut = r.randint(0, len(q))
            script += [["out", "P", hx(q[:cut])], ["out", "P", hx(q[cut:])], ["int", "S"]]
        script.append(["verdict", "AC"])
        for f in ("in.txt", "ans.txt"): open(os.path.join(d, f), "w").close()
        with open(os.path.join(d, "script"), "w") as f: f.write("\n".join("\t".join(map(str, o)) for o in script) + "\n")
        env = dict(K.ENV, VH_ROLE="3", VH_LOG=os.path.join(d, "log"), VH_SCRIPT=os.path.join(d, "script"))
        p = subprocess.Popen([R.bins[cfg]] + positional(3), cwd=d, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        bad = None
        try:
            for k, (q, a) in enumerate(zip(qs, ans)):
                buf = b""; t = time.time()
                while len(buf) < len(q) and time.time() - t < 60:
                    if select.select([p.stdout], [], [], 1)[0]:
                        b = os.read(p.stdout.fileno(), len(q) - len(buf))
                        if not b: break
                        buf += b
                if buf != q: bad = "question %d arrived as %r instead of %r before the interactor waits for the answer" % (k, buf, q); break
                try: p.stdin.write(b"%d\n" % a); p.stdin.flush()
                except OSError: bad = "interactor gone after question %d" % k; break
                R.ev("dialogue rounds")
            try: p.stdin.close()
            except OSError: pass
            if not bad:
                rc = p.wait(60); log = open(os.path.join(d, "log")).read().split()
                want = ["init"] + [x for a in ans for x in ("v", str(a))]
                if rc != 42 or log != want: bad = "dialogue ended with %s, observed %r instead of %r" % (rc, log, want)
        finally:
            p.kill(); p.wait(); p.stdout.close()
        R.fp("dialogue", qs, ans)
        return [("C07.dialogue", bad, dict(script=script))] if bad else []

    def forgotten(r, i, d, cfg):
        """init() is never called"""
        role = r.choice([0, 1, 2, 3]); os.makedirs(d); os.makedirs(os.path.join(d, "fb"))
        script = r.choice([[["verdict", "AC"]], [["verdict", "WA"]], [["return", "42"]], [["return", "43"]], [["return", "0"]], [["out", "J", hx(b"x")], ["verdict", "AC"]], [["try", "mp"], ["verdict", "AC"]]])
        rc, out, err, got = R.run(d, cfg, role, script, positional(role), b"1\n", [("in.txt", b"1\n"), ("ans.txt", b"1\n")])
        R.fp("forgotten", role, script); R.ev("programs without initialisation")
        return [("C07.setup", "a program which never calls init() ended with %s; %s, script %r" % (rc, ROLE[role], script), dict(role=role, script=script))] if rc in (42, 43) else []

    try: R.each(4000 if not K.THOROUGH else 60000, lambda r, i, d, cfg: dialogue(r, i, d, cfg) if i % 40 == 3 else forgotten(r, i, d, cfg) if i % 40 == 17 else case(r, i, d, cfg))
    finally: R.close()


# ------------------------------------------------------------------------------------------------ C08
def c08(rep):
    rep.rule = "distinct (role, presets, argument vector, probes) process runs; effective settings read back and probed from both sides on every stream"
    R = Runner(rep, "C08", ["fast", "gcc"] if not K.THOROUGH else ["fast", "gcc", "clang", "m32"])
    TOL = ["0.5", "0.25", "0.001", "1e-4", "1e-9", "0", "2", "1e-2", "0.0625"]

    def case(r, i, d, cfg):
        role = r.choice([0, 1, 2, 2, 3, 3])
        pre, script = {}, []
        for k in ("abs", "rel", "space", "case"):
            if r.random() < 0.3:
                pre[k] = r.choice(TOL) if k in ("abs", "rel") else r.choice(["0", "1"])
                script.append(["set", k, pre[k]])
        flags = []
        tol = ab = re_ = None
        sp = cs = False
        if r.random() < 0.45: tol = r.choice(TOL); flags.append(["float_tolerance", tol])
        if r.random() < 0.45: ab = r.choice(TOL); flags.append(["float_absolute_tolerance", ab])
        if r.random() < 0.45: re_ = r.choice(TOL); flags.append(["float_relative_tolerance", re_])
        if r.random() < 0.4: sp = True; flags.append(["space_change_sensitive"])
        if r.random() < 0.4: cs = True; flags.append(["case_sensitive"])
        if r.random() < 0.3: flags.append([r.choice(["foo", "0.125", "--bar", "--seed", "x=1"])] + r.choice([["17"], ["5"]]))
        r.shuffle(flags)
        if role in (0, 1): strict = cased = True
        else: strict = sp or pre.get("space") == "1"; cased = cs or pre.get("case") == "1"
        at = fr(ab or tol or pre.get("abs") or "1e-6"); rt = fr(re_ or tol or pre.get("rel") or "1e-6")
        script += [["init"], ["get"]]
        log = ["init", None]
        if r.random() < 0.3:   # settings are fixed from now on, and initialisation happens once
            for x in r.choice([[["set", r.choice(["abs", "rel"]), r.choice(["1", "0", "1e-9"])]], [["set", r.choice(["space", "case"]), r.choice("01")]], [["init"]], [["set", "case", "0"], ["init"], ["set", "abs", "0.5"]]]):
                script.append(["try"] + x); log.append("except"); R.ev("late changes rejected")
            script.append(["get"]); log.append(None)
        st = Stream(b"", strict, cased, at, rt)
        # helpers
        def value(side):
            """(given, expected, equal?) clearly on one side of the effective tolerance"""
            for _ in range(200):
                e = fr(r.choice(["0", "1", "-1", "100", "-4", "0.5", "1000", "0.001"]))
                lim = max(at, rt * abs(e))
                if r.random() < 0.6 and lim > 0: diff = lim * r.choice([fr("0.9"), fr("1.1"), fr("0.5"), fr("2")])
                else: diff = r.choice([fr("0"), fr("0.3"), fr("0.0005"), fr("5e-5"), fr("5e-7"), fr("1.5"), fr("3e-6")])
                g = e + diff * r.choice([1, -1])
                if lim and abs(diff / lim - 1) < fr("0.01"): continue
                if (diff <= lim) == side: return g, e
            return None
        dec = lambda x: "%.25f" % x if x.denominator == 1 else str_dec(x)
        data, tail = b"", []
        sep = lambda: (b"\n", [["nl", "S"]]) if strict else (r.choice([b"\n", b" ", b"\t\n  "]), r.choice([[["nl", "S"]], []]))
        nprobe = r.randint(1, 5)
        code = None
        for k in range(nprobe):
            last = k == nprobe - 1
            side = not last or r.random() < 0.4
            kind = r.choice(["xreal", "xreal", "realb", "feq", "xstr", "str", "space", "seq", "T", "J", "rmatch"])
            if kind in ("xreal", "feq"):
                sd = side if kind == "xreal" else r.random() < 0.5
                v = value(sd)
                if v is None: continue
                g, e = v
                if kind == "feq":
                    script.append(["feq", str_dec(g), str_dec(e)]); log.append("feq %d%d%d" % (sd, sd or g < e, sd or g > e))
                else:
                    script.append(["xreal", "S", str_dec(e)]); b, o = sep(); data += str_dec(g).encode() + b
                    if not sd: code = 43; break
                    log.append("ok"); script += o; log += ["ok"] * len(o)
                R.ev("tolerance probes")
            elif kind == "realb":
                e = fr(r.choice(["0", "1", "-1", "100", "8"])); lim = max(at, rt * abs(e))
                f = fr("0.9") if side else fr("1.1")
                if lim == 0 or lim > 5: continue
                up = r.random() < 0.5
                g = e + lim * f if up else e - lim * f
                lo, hi = (e - 1000, e) if up else (e, e + 1000)
                if not side and (st.eq(g, lo) or st.eq(g, hi)): continue
                script.append(["realb", "S", str_dec(lo), str_dec(hi)]); b, o = sep(); data += str_dec(g).encode() + b
                if not side: code = 43; break
                log.append(None); script += o; log += ["ok"] * len(o); R.ev("bound tolerance probes")
            elif kind == "xstr":
                a, b2 = r.choice([("AbC", "aBc"), ("x", "X"), ("Yes", "YES")])
                script.append(["xstr", "S", a]); b, o = sep(); data += b2.encode() + b; R.ev("case probes")
                if cased: code = 43; break
                log.append("ok"); script += o; log += ["ok"] * len(o)
            elif kind == "str":
                script.append(["str", "S"]); b, o = sep(); data += b"MiXed" + b; log.append("v " + hx(b"MiXed" if cased else b"mixed")); script += o; log += ["ok"] * len(o); R.ev("case probes")
            elif kind == "space":
                bad = r.choice([b"a  b\n", b"a b \n", b"a\nb\n", b" a b\n", b"a\tb\n", b"a b\r\n"])
                script += [["str", "S"], ["space", "S"], ["str", "S"], ["nl", "S"]]; data += bad; R.ev("whitespace probes")
                if strict:
                    code = 43
                    s2 = Stream(bad, True, cased)
                    try:
                        log.append("v " + hx(s2.string())); s2.ch(32); log.append("ok"); log.append("v " + hx(s2.string())); s2.ch(10); log.append("ok")
                    except Reject: pass
                    break
                log += ["v 61", "ok", "v 62", "ok"]
            elif kind == "seq": script.append(["seq", "aB", "Ab"]); log.append("seq %d" % (not cased))
            elif kind == "rmatch": script.append(["rmatch", "[a-c]+", "aBc"]); log.append("rmatch %d" % (not cased))
            elif kind in "TJ":
                if role == 0 or (kind == "J" and role != 2): continue
                script += [["str", kind], ["space", kind], ["str", kind], ["nl", kind]]; log += ["v " + hx(b"Ab" if cased else b"ab"), "ok", "v " + hx(b"cD" if cased else b"cd"), "ok"]
                if r.random() < 0.4:
                    script.append(["xstr", kind, "ZZ"])
                    if cased: code = 1; break
                    log.append("ok")
                R.ev("judge file probes"); break
        if code is None: code = 42
        script.append(["verdict", "AC"])
        args = positional(role)
        if role in (0, 4): args = []
        args = args + [x for f in flags for x in f]
        os.makedirs(d); os.makedirs(os.path.join(d, "fb"))
        tdata = b"  Ab \t cD\r\n\n zz\n"
        pipe = r.random() < 0.6
        rc, out, err, got = R.run(d, cfg, role, script, args, data, [("in.txt", tdata), ("ans.txt", tdata)], pipe)
        R.fp(role, args, script, data); R.ev("runs with role %s" % ROLE[role])
        info = "%s args %r presets %r -> effective abs %s rel %s strict %s cased %s; stdin %r script %r" % (ROLE[role], args, pre, float(at), float(rt), strict, cased, data, script)
        rp = dict(role=role, args=args, script=script, stdin=repr(data))
        res = []
        if rc != code: return [("C08.exit", "exit status %s instead of %s: %s; %s" % (rc, code, (out[-200:] + (readf(d, "fb/judgemessage.txt") or b"")[-300:]), info), rp)]
        if len(got) != len(log): return [("C08.values", "observed %r instead of %r; %s" % (got, log, info), rp)]
        for a, b in zip(log, got):
            if a is not None and a != b: return [("C08.values", "observed %r instead of %r; %s" % (b, a, info), rp)]
            if b.startswith("settings "):
                w = b.split()[1:]
                exact = [abs(fr(w[0]) - at) <= at * fr("1e-15"), abs(fr(w[1]) - rt) <= rt * fr("1e-15"), w[2] == str(int(strict)), w[3] == str(int(cased))]
                if not all(exact): return [("C08.settings", "settings after init are %s; %s" % (b, info), rp)]
        R.ev("exit %s" % code)
        if i < 5: R.sample(info[:500])
        return res

    def malformed(r, i, d, cfg):
        role = r.choice([0, 1, 2, 3])
        fl = r.choice([["float_tolerance"], ["float_tolerance", "abc"], ["float_absolute_tolerance", "1e"], ["float_relative_tolerance", ""], ["--seed"], ["--seed", "x"], ["--seed", "1.5"], ["--seed", "99999999999999999999"], ["--a", "--b", "--a"]])
        os.makedirs(d); os.makedirs(os.path.join(d, "fb"))
        rc, out, err, got = R.run(d, cfg, role, [["init"], ["verdict", "AC"]], positional(role) + fl, b"", [("in.txt", b""), ("ans.txt", b"")])
        R.fp("malformed", role, fl)
        if fl == ["float_tolerance"]: 
            R.ev("flag without value keeps the default") if rc == 42 else None
            return []
        R.ev("malformed flags")
        return [("C08.malformed", "malformed flag %r accepted (exit %s)" % (fl, rc), dict(role=role, args=fl))] if rc in (42, 43) else []

    def seeds(r, i, d, cfg):
        role = r.choice([0, 1, 2, 3, 4])
        seed = r.choice([0, 1, -1, 42, 2**63 - 1, -2**63, r.randint(-2**63, 2**63 - 1), r.randint(0, 1000)])
        runs = []
        for k, (a, s) in enumerate([(["--seed", str(seed)], []), (["foo", "--seed", str(seed), "--x", "1"], []), ([], [["seedrnd", str(seed % 2**64)]]), (["--seed", str(seed ^ 1)], []), ([], []), ([], [])]):
            dd = d + "-%d" % k
            try:
                os.makedirs(dd); os.makedirs(os.path.join(dd, "fb"))
                runs.append(R.run(dd, cfg, role, [["init"]] + s + [["rnd"], ["verdict", "AC"]], positional(role) + a, b"", [("in.txt", b""), ("ans.txt", b"")]))
            finally: shutil.rmtree(dd, ignore_errors=True)
        R.fp("seed", seed, role); R.ev("seed comparisons")
        logs = [x[3][1:] for x in runs]
        if any(x[0] != 42 or len(l) != 1 for x, l in zip(runs, logs)): return [("C08.seed", "seeded run failed: %r" % ([(x[0], x[2][-200:]) for x in runs],), dict(seed=seed))]
        if not (logs[0] == logs[1] == logs[2]): return [("C08.seed", "seed %d gives different numbers: %r" % (seed, logs[:3]), dict(seed=seed))]
        if logs[0] == logs[3] or logs[4] != logs[5] or logs[4] == logs[0]: return [("C08.seed", "seed %d has no effect or the default is not fixed: %r" % (seed, logs), dict(seed=seed))]
        return []

    try:
        n = 6000 if not K.THOROUGH else 60000
        R.each(n, lambda r, i, d, cfg: case(r, i, d, cfg) if i % 12 else malformed(r, i, d, cfg) if i % 36 else seeds(r, i, d, cfg))
    finally: R.close()


def str_dec(x):
    """exact decimal of a Fraction whose denominator divides a power of ten (else 30 digits)"""
    import decimal
    with decimal.localcontext() as c:
        c.prec = 60
        s = format(decimal.Decimal(x.numerator) / decimal.Decimal(x.denominator), "f")
    return s


# ------------------------------------------------------------------------------------------------ C10
def c10(rep):
    rep.rule = "distinct (role, script of constrained reads and direct logs, end of run) process runs; constraints file compared line by line with recomputed statistics"
    R = Runner(rep, "C10", ["fast", "gcc"] if not K.THOROUGH else ["fast", "gcc", "clang", "m32"])

    def case(r, i, d, cfg):
        role = r.choice([0, 0, 1, 2])
        names = r.sample(["n", "m", "a_i", "x", "very_long_constraint_name", "A", "0", "--c", "k;=", "z"], r.randint(1, 5))
        wide = r.random() < 0.03   # many names, many values
        if wide: names += ["name_%d" % k for k in range(r.choice([6, 12, 30, 70]))]
        kind = {n: r.choice(["int", "int", "real", "str", "vec"]) for n in names}
        order, stats = [], {}
        tok, script, log = [], [["init"]], ["init"]
        if r.random() < 0.4: script.append(["ckeep"])
        S = b""
        strict = role in (0, 1)

        def seen(n, lo, hi, v, real):
            if n not in stats: stats[n] = None
            if n not in order: order.append(n)
            if not real: hi -= 1
            s = stats[n]
            near = (lambda a, b: abs(a - b) <= fr("1e-6") or (b != 0 and abs(a - b) <= fr("1e-6") * abs(b))) if real else (lambda a, b: a == b)
            if s is None: s = stats[n] = [False, False, v, v, lo, hi]
            s[0] |= near(v, lo); s[1] |= near(v, hi)
            s[2] = min(s[2], v); s[3] = max(s[3], v); s[4] = min(s[4], lo); s[5] = max(s[5], hi)

        code = None
        nops = r.randint(0, 14) if not wide else r.randint(20, 160)
        for _ in range(nops):
            n = r.choice(names); k = kind[n]; how = r.random()
            if n not in order and how < 0.05: script.append(["cname", hx(n.encode())]); order.append(n); continue
            cnt = r.randint(0, 5) if r.random() < 0.4 else None
            sep = r.choice("sn")
            bad = r.random() < (0.04 if not wide else 0.002)
            if n not in order: order.append(n)
            if k == "int":
                if r.random() < 0.2: lo = r.choice([-2**63, -10**18, 0, 2**62]); hi = r.choice([2**63 - 1, 2**62 + 5])
                else: lo = r.randint(-20, 5); hi = lo + r.randint(1, 25)
                pick = lambda: r.choice([lo, hi - 1, r.randint(lo, hi - 1), r.randint(lo, hi - 1)])
                if how < 0.15: v = pick(); script.append(["clog", n, lo, hi, v]); seen(n, lo, hi, v, False); continue
                vs = [pick() for _ in range(cnt if cnt is not None else 1)]
                if bad and vs: vs[-1] = hi if r.random() < 0.5 or lo == -2**63 else lo - 1
                toks = [b"%d" % v for v in vs]
                script.append(["cint", n, "S", lo, hi] if cnt is None else ["cints", n, "S", lo, hi, cnt, sep])
                show = ["v %d" % v for v in vs]
            elif k == "real":
                den = r.choice([1, 2, 4, 8, 64])
                lo = Fraction(r.randint(-200, 100), den); hi = lo + Fraction(r.randint(8, 400), den)
                pick = lambda: r.choice([lo, hi, lo + fr("5e-7"), hi - fr("0.25"), lo + fr("0.25"), Fraction(r.randint(int(lo * 64), int(hi * 64)), 64)])
                if r.random() < 0.25:   # large bounds, which may be met up to the relative precision only
                    f = 2 ** r.randint(8, 36); lo *= f; hi *= f
                    rnd = lambda x: Fraction(round(x * 64), 64)
                    pick = lambda: r.choice([lo, hi, rnd(hi - abs(hi) * fr(r.choice(["4e-7", "8e-7", "3e-6", "2e-5"]))), rnd(lo + abs(lo) * fr(r.choice(["4e-7", "8e-7", "3e-6", "2e-5"]))), Fraction(r.randint(int(lo), int(hi)))])
                pick2 = lambda: min(max(pick(), lo), hi)
                if how < 0.15: v = pick2(); script.append(["clogr", n, str_dec(lo), str_dec(hi), str_dec(v)]); seen(n, lo, hi, v, True); continue
                stct = r.random() < 0.4
                vs = [pick2() for _ in range(cnt if cnt is not None else 1)]
                if stct: vs = [lo if v >= hi else v for v in vs]
                if bad and vs: vs[-1] = hi + max(1, abs(hi))
                toks = [str_dec(v).encode() for v in vs]
                script.append(["crs" if stct else "creal", n, "S", str_dec(lo), str_dec(hi)] if cnt is None else ["crss" if stct else "creals", n, "S", str_dec(lo), str_dec(hi), cnt, sep])
                show = [None] * len(vs)
            else:
                lo = r.randint(0, 4); hi = max(2, lo + r.randint(1, 8))
                pick = lambda: max(1, r.choice([lo, hi - 1, r.randint(lo, hi - 1)]))
                if k == "vec": v = r.choice([lo, hi - 1, r.randint(lo, hi - 1)]); script.append(["clogv", n, lo, hi, v]); seen(n, lo, hi, v, False); continue
                ln = [pick() for _ in range(cnt if cnt is not None else 1)]
                if bad and ln: ln[-1] = hi + 1
                toks = [bytes(r.choice(b"abcdxyz") for _ in range(v)) for v in ln]
                pat = r.random() < 0.4
                script.append([("cstrp" if pat else "cstr"), n, "S", lo, hi] if cnt is None else [("cstrps" if pat else "cstrs"), n, "S", lo, hi, cnt, sep])
                show = ["v " + hx(t) for t in toks]
                vs = ln
            done = []
            for j, (t, v) in enumerate(zip(toks, vs)):
                S += t + (b"\n" if j + 1 == len(toks) else b" " if sep == "s" else b"\n")
                real = k == "real"
                if bad and j == len(vs) - 1: code = 43; break
                seen(n, lo, hi, v, real); done.append(show[j])
            if code: break
            log += done
            if toks: script.append(["nl", "S"]); log.append("ok")
        ending = None
        if code is None:
            ending = r.choice(["AC", "WA", "FAIL", "return", "none", "eof"])
            if ending in ("AC", "WA", "FAIL"): script.append(["verdict", ending]); code = {"AC": 42, "WA": 43, "FAIL": 1}[ending]
            elif ending == "eof" : S += b"junk"; script.append(["eof", "S"]); code = 43
            else: code = 0; 
        conflict = None
        args = positional(role)
        wantfile = r.random() < 0.9
        if wantfile: args = args + r.choice([[], ["case_sensitive"], ["--foo", "1"]]) + ["--constraints_file", "con.txt"] + r.choice([[], ["--bar"]])
        os.makedirs(d); os.makedirs(os.path.join(d, "fb"))
        rc, out, err, got = R.run(d, cfg, role, script, args, S, [("in.txt", b""), ("ans.txt", b"")], r.random() < 0.6)
        R.fp(role, script, S, args)
        info = "%s args %r stdin %r script %r" % (ROLE[role], args, S, script)
        rp = dict(role=role, args=args, script=script, stdin=repr(S))
        if rc != code: return [("C10.exit", "exit status %s instead of %s; %s; %s" % (rc, code, err[-300:], info), rp)]
        if len(got) != len(log) or any(a is not None and a != b for a, b in zip(log, got)): return [("C10.values", "observed %r instead of %r; %s" % (got, log, info), rp)]
        con = readf(d, "con.txt")
        if not wantfile:
            extra = [f for f in os.listdir(d) if f not in ("in.txt", "ans.txt", "fb", "log", "stdin", "script")]
            return [("C10.nofile", "files %r written without the option" % extra, rp)] if extra else []
        f6 = lambda x: "%.6f" % float(x) if isinstance(x, Fraction) else "%d" % x
        lines = ["LocationNotSupported:%s %s %d %d %s %s %s %s" % ((n, n, stats[n][0], stats[n][1]) + tuple(f6(x) for x in stats[n][2:])) for n in order if stats.get(n)]
        gotl = (con or b"").decode("latin1").split("\n")
        R.ev("constraint lines compared", len(lines)); R.ev("values logged", sum(1 for _ in log)); R.ev("runs ending with %s" % code)
        if con is None or gotl != lines + [""]:
            # reals: allow the last printed digit to differ
            def same(a, b):
                a, b = a.split(" "), b.split(" ")
                return len(a) == len(b) and a[:4] == b[:4] and all(x == y or ("." in x and "." in y and abs(fr(x) - fr(y)) <= fr("1.1e-6")) for x, y in zip(a[4:], b[4:]))
            if con is None or len(gotl) != len(lines) + 1 or gotl[-1] != "" or not all(same(a, b) for a, b in zip(lines, gotl)):
                return [("C10.file", "constraints file %r instead of %r; %s" % (gotl, lines, info), rp)]
        if i < 5: R.sample(" | ".join(lines)[:400])
        return []

    def conflict(r, i, d, cfg):
        role = r.choice([0, 1, 2])
        logs = {"int": ["clog", "n", 0, 10, 3], "real": ["clogr", "n", "0", "10", "3"], "vec": ["clogv", "n", 0, 10, 3], "str": ["cstr", "n", "S", 0, 10], "cint": ["cint", "n", "S", 0, 2000], "creal": ["creal", "n", "S", "0", "2000"]}
        same = {"int": "int", "cint": "int", "real": "real", "creal": "real", "vec": "vec", "str": "str"}
        a, b = r.choice(list(logs)), r.choice(list(logs))
        script = [["init"], logs[a]]; log = ["init"]
        data = b""
        if a in ("str", "cint", "creal"): data += b"123\n"; script.append(["nl", "S"]); log += [None, "ok"]
        if b in ("str", "cint", "creal"): data += b"123\n"
        script.append(["try"] + logs[b])
        ok = same[a] == same[b]
        log += ([None] if ok and b in ("str", "cint", "creal") else []) + ["noexcept" if ok else "except"]
        script.append(["verdict", "AC"])
        os.makedirs(d); os.makedirs(os.path.join(d, "fb"))
        rc, out, err, got = R.run(d, cfg, role, script, positional(role) + ["--constraints_file", "con.txt"], data, [("in.txt", b""), ("ans.txt", b"")])
        R.fp("conflict", role, a, b); R.ev("kind conflicts" if not ok else "kind agreements")
        if rc != 42 or len(got) != len(log) or any(x is not None and x != y for x, y in zip(log, got)):
            return [("C10.kinds", "logging %s then %s under one name: exit %s, observed %r instead of %r" % (a, b, rc, got, log), dict(script=script))]
        return []

    def badname(r, i, d, cfg):
        nm = r.choice([b"", b"a b", b"a\nb", b"\t", b" x", b"x ", b"a\rb", b"a\vb", b"a\fb"])
        os.makedirs(d)
        rc, out, err, got = R.run(d, cfg, 0, [["init"], ["try", "cname", hx(nm)], ["verdict", "AC"]], [], b"")
        R.fp("name", nm); R.ev("invalid names")
        return [] if rc == 42 and got == ["init", "except"] else [("C10.name", "constraint name %r accepted (%r)" % (nm, got), dict(name=repr(nm)))]

    try:
        n = 6000 if not K.THOROUGH else 60000
        R.each(n, lambda r, i, d, cfg: badname(r, i, d, cfg) if i % 40 == 7 else conflict(r, i, d, cfg) if i % 10 == 3 else case(r, i, d, cfg))
    finally: R.close()


# ------------------------------------------------------------------------------------------------ C11
def c11(rep):
    rep.rule = "distinct histories of passes in one feedback directory (states, next inputs, endings), one real process per pass"
    R = Runner(rep, "C11", ["fast", "gcc"] if not K.THOROUGH else ["fast", "gcc", "clang", "m32"])

    def case(r, i, d, cfg):
        role = r.choice([2, 3])
        os.makedirs(d); os.makedirs(os.path.join(d, "fb"))
        prev = None
        hist = []
        clear = r.random() < 0.5
        npass = r.choice([1, 2, 3, 3, 5, 12 if i % 5 == 0 else 4])
        flags = r.choice([[], ["case_sensitive"], ["space_change_sensitive"], []])
        for k in range(npass):
            script, log = [["init"], ["mp"]], ["init", "pass %d" % k]
            late = []
            if prev is None and k == 0:
                if r.random() < 0.3: script.append(["try", "str", "P"]); log.append("except")
            else:
                toks = prev.split()
                how = r.random()
                if how < 0.7: script.append(["all", "P", len(toks)]); log.append("all " + " ".join(hx(t) for t in toks))
                elif how < 0.85: 
                    for t in toks[:3]: script.append(["str", "P"]); log.append("v " + hx(t))
            state, nxt = b"", b""
            for _ in range(r.randint(0, 5)):
                b = bytes(r.choice(b"abAB01 \n\t#\x80\xff~" if r.random() < 0.7 else b"x\n") for _ in range(r.choice([0, 1, 5, 20, 3000] if r.random() < 0.97 else [9000, 40000])))
                if r.random() < 0.15: b += bytes(r.choice([0, 0, 7, 8, 0x0b, 0x0c, 0x0d, 0x1a, 0x1b, 0x7f, 0xc3, 0xff, r.randrange(256)]) for _ in range(r.choice([1, 2, 9, 300]))) + b"x" * r.choice([0, 1, 5])
                if r.random() < 0.5: script.append(["out", "S", hx(b)]); state += b
                else: script.append(["out", "N", hx(b)]); nxt += b
                if r.random() < 0.15: script.append(["outv", "N", "i", -17]); nxt += b"-17"
                if r.random() < 0.1: script.append(["outv", "S", "v", 3, 4]); state += b"3 4\n"
            # raw state bytes must be visible to the next pass: compare tokens (and whole text below)
            last = k == npass - 1
            end = r.choice(["NEXT", "NEXT", "NEXTonN", "NEXTonJ"]) if not last else r.choice(["AC", "WA", "FAIL", "NEXT", "reject"])
            code = {"AC": 42, "WA": 43, "FAIL": 1, "reject": 43}.get(end, 42)
            if end == "NEXT": script.append(["NEXT"])
            elif end == "NEXTonN": script.append(["NEXTon", "N"]); nxt += b"\n"
            elif end == "NEXTonJ": script.append(["NEXTon", "J"])
            elif end == "reject": script.append(["int", "S"])
            else: script.append(["verdict", end])
            before = readf(d, "fb/nextpass.in")
            rc, out, err, got = R.run(d, cfg, role, script, positional(role) + flags, b"bad\n", [("in.txt", b"1\n"), ("ans.txt", b"2\n")], r.random() < 0.6)
            hist.append((state[:80], nxt[:80], end))
            R.ev("passes"); R.ev("ending " + end)
            info = "pass %d of %r (%s)" % (k, hist, ROLE[role])
            rp = dict(history=repr(hist), script=script)
            if rc != code: return [("C11.exit", "exit status %s instead of %s; %s %s" % (rc, code, err[-300:], info), rp)]
            if got != log: return [("C11.values", "observed %r instead of %r; %s" % (got, log, info), rp)]
            after = readf(d, "fb/nextpass.in")
            if end.startswith("NEXT"):
                if after != nxt: return [("C11.nextpass", "nextpass.in is %r instead of %r; %s" % ((after or b"")[:300] if after is not None else None, nxt[:300], info), rp)]
                R.ev("next inputs compared")
            elif after != before: return [("C11.nextpass", "a run ending with a verdict changed nextpass.in from %r to %r; %s" % (before, after, info), rp)]
            files = [f for f in os.listdir(os.path.join(d, "fb")) if not f.startswith(".")]
            if clear and after is not None: os.unlink(os.path.join(d, "fb/nextpass.in"))
            R.ev("state bytes carried", len(state))
            prev = state
        R.fp(repr(hist), role)
        if i < 5: R.sample(repr(hist)[:400])
        return []

    def before(r, i, d, cfg):
        role = r.choice([2, 3])
        os.makedirs(d); os.makedirs(os.path.join(d, "fb"))
        rc, out, err, got = R.run(d, cfg, role, [["try", "mp"], ["init"], ["mp"], ["verdict", "AC"]], positional(role), b"", [("in.txt", b""), ("ans.txt", b"")])
        R.fp("order", role, cfg); R.ev("multipass before init")
        return [] if rc == 42 and got == ["except", "init", "pass 0"] else [("C11.order", "multipass before the role: exit %s, %r" % (rc, got), {})]

    try: R.each(2000 if not K.THOROUGH else 20000, lambda r, i, d, cfg: before(r, i, d, cfg) if i % 50 == 9 else case(r, i, d, cfg))
    finally: R.close()
