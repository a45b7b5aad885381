"""Shared machinery: run TLC on a specification, collect the behaviours it emits,
replay them against the code in /repo and report.

A specification emits behaviours by printing JSON (PrintT(ToJson(hist))): one
sequence of steps per line.  A step is a record with the operation, its
arguments and, under "exp", the observation the specification predicts.
Numbers may be symbolic terms [e |-> <<op, a, b, ...>>]; `num` evaluates them.
"""
import fractions
import hashlib
import json
import math
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
EVID = os.path.join(VERIF, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


class MachineryError(Exception):
    """Something in the verification machinery itself went wrong."""


class CannotBind(Exception):
    """A stand-in has no place in the code any more: the step is not decided."""


UNBOUND = []


class stubs:
    """Replace module-level names for the duration of a block: stubs((module, name, value), ...)."""

    def __init__(self, *what):
        for m, n, _ in what:
            if not hasattr(m, n):
                raise CannotBind("%s.%s" % (getattr(m, "__name__", m), n))
        self.what, self.old = what, [getattr(m, n) for m, n, _ in what]

    def __enter__(self):
        for m, n, f in self.what:
            setattr(m, n, f)
        return self

    def __exit__(self, *a):
        for (m, n, _), f in zip(self.what, self.old):
            setattr(m, n, f)


# ------------------------------------------------------------------ TLC runs
class Behaviours:
    """The emitted behaviours, parsed when needed."""

    def __init__(self, raw=()):
        self.raw = list(raw)

    def __len__(self):
        return len(self.raw)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return Behaviours(self.raw[i])
        return json.loads(json.loads(self.raw[i]))

    def __iter__(self):
        for r in self.raw:
            yield json.loads(json.loads(r))

    def __add__(self, o):
        return Behaviours(self.raw + o.raw)

    def spread(self, n):
        """At most n of them, evenly spread over the emission order (sorted, so
        that the choice does not depend on the scheduling of TLC's workers)."""
        r = sorted(self.raw)
        if len(r) <= n:
            return Behaviours(r)
        rng = random.Random(SEED * 7919 + len(r))
        return Behaviours([r[i] for i in sorted(rng.sample(range(len(r)), n))])


class TlcResult:
    def __init__(self):
        self.behaviours, self.states, self.distinct, self.ok = Behaviours(), 0, 0, False
        self.output, self.violated, self.coverage = "", None, {}
        self.wall = 0.0


def _cfg_text(spec="Spec", invariants=(), properties=(), constants=None,
              constraint=None, view=None, deadlock=False, postcondition=None,
              action_constraint=None, init=None, next_=None):
    t = []
    if init:
        t += ["INIT " + init, "NEXT " + next_]
    else:
        t.append("SPECIFICATION " + spec)
    for k in (constants or {}):
        t.append("CONSTANT %s <- c_%s" % (k, k))
    for i in invariants:
        t.append("INVARIANT " + i)
    for p in properties:
        t.append("PROPERTY " + p)
    if constraint:
        t.append("CONSTRAINT " + constraint)
    if action_constraint:
        t.append("ACTION_CONSTRAINT " + action_constraint)
    if view:
        t.append("VIEW " + view)
    if postcondition:
        t.append("POSTCONDITION " + postcondition)
    t.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    return "\n".join(t) + "\n"


def tla(v):
    """Python value -> TLA+ expression; a string starting with "=" is raw TLA+."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v[1:] if v.startswith("=") else '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise MachineryError("no TLA+ literal for %r" % (v,))


def tlc(module, cfg=None, *, simulate=None, depth=None, seed=None, workers=None,
        files=None, timeout=800, want_coverage=False, heap="6g", keep_lines=False,
        max_behaviours=None, extra=(), expect_violation=False, **cfgkw):
    """Run TLC on spec/<module>.tla.  `cfg` is cfg text (or built from cfgkw).
    `files`: {name: text} extra files written next to the spec copy."""
    res = TlcResult()
    d = tempfile.mkdtemp(prefix="vtlc_")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for name, text in (files or {}).items():
            with open(os.path.join(d, name), "w") as fh:
                fh.write(text)
        mc = "MC"
        with open(os.path.join(d, "MC.tla"), "w") as fh:
            fh.write("---- MODULE MC ----\nEXTENDS %s\n" % module)
            for k, v in (cfgkw.get("constants") or {}).items():
                fh.write("c_%s == %s\n" % (k, tla(v)))
            fh.write("====\n")
        with open(os.path.join(d, "MC.cfg"), "w") as fh:
            fh.write(cfg if cfg is not None else _cfg_text(**cfgkw))
        args = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m",
                "-cp", JARS, "tlc2.TLC", "-metadir", os.path.join(d, "meta"),
                "-config", "MC.cfg"]
        if simulate:
            args += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100),
                     "-seed", str(seed if seed is not None else SEED)]
            args += ["-workers", str(workers or 1)]
        else:
            args += ["-workers", str(workers or 4)]
        if want_coverage:
            args += ["-coverage", "1"]
        args += list(extra) + ["MC.tla"]
        t0 = time.time()
        outp = os.path.join(d, "tlc.out")
        with open(outp, "w") as fo:
            try:
                rc = subprocess.run(args, cwd=d, stdout=fo, stderr=subprocess.STDOUT,
                                    timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise MachineryError("TLC timed out on " + module)
        res.wall = time.time() - t0
        other = []
        with open(outp, errors="replace") as fi:
            for line in fi:
                if line.startswith('"[') or line.startswith('"{'):
                    if max_behaviours is None or len(res.behaviours.raw) < max_behaviours:
                        res.behaviours.raw.append(line)
                else:
                    other.append(line)
        res.output = "".join(other)
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", res.output)
        if m:
            res.states, res.distinct = (int(x.replace(",", "")) for x in m[-1])
        else:
            m = re.findall(r"The number of states generated: ([\d,]+)", res.output)
            if m:
                res.states = int(m[-1].replace(",", ""))
                res.distinct = res.states
        for mm in re.finditer(r"^<(\w+) line .*?>: (\d+):(\d+)", res.output, re.M):
            res.coverage[mm.group(1)] = (int(mm.group(2)), int(mm.group(3)))
        res.ok = rc == 0
        if rc != 0:
            mv = re.search(r"(Invariant \S+ is violated|Temporal properties were violated|"
                           r"Action property \S+ is violated|[Pp]ost.?condition \S* ?\S* ?(?:is )?(?:violated|false))", res.output)
            res.violated = mv.group(1) if mv else "TLC exit code %d" % rc
            if not expect_violation:
                raise MachineryError("TLC rejected the specification %s: %s\n%s"
                                     % (module, res.violated, _why(res.output)))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _why(out):
    ls = out.splitlines()
    keep = [i + j for i, l in enumerate(ls) if l.startswith("Error") or "xception" in l for j in range(6)]
    nest = [l[:200] for l in ls if re.match(r"^\d+\. Line", l)]
    return "\n".join(nest[-14:]) + "\n".join(ls[i][:600] for i in sorted(set(keep)) if i < len(ls))[:3000] or out[-2000:]


def tlc_many(module, runs, procs=8, **kw):
    """Several simulation runs (a list of keyword overrides) in parallel; merged."""
    import concurrent.futures as cf
    out = TlcResult()
    with cf.ThreadPoolExecutor(procs) as ex:
        for r in ex.map(lambda o: tlc(module, **dict(kw, **o)), runs):
            out.behaviours = out.behaviours + r.behaviours
            out.states += r.states
            out.distinct += r.distinct
            out.wall = max(out.wall, r.wall)
    out.ok = True
    return out


# ------------------------------------------------- symbolic numbers -> floats
ENV = {}    # values of the names ("$x") defined by a step under "defs"


DEFS = {}   # and the terms that define them


def define(st):
    for name, t in (st.get("defs") or []) if isinstance(st, dict) else []:
        DEFS[name] = t
        ENV[name] = num(t)


def gradient(t, names):
    """Derivatives of a term with respect to named quantities (forward mode); every
    other name is differentiated through its definition."""
    import numpy as np
    idx = {n: i for i, n in enumerate(names)}
    memo = {}

    def ev(x):   # (value, gradient or None)
        if isinstance(x, str) and x.startswith("$"):
            if x not in memo:
                if x in idx:
                    g = np.zeros(len(names))
                    g[idx[x]] = 1.0
                    memo[x] = (ENV[x], g)
                else:
                    memo[x] = ev(DEFS[x]) if x in DEFS else (ENV[x], None)
            return memo[x]
        if isinstance(x, (int, float, str)):
            return num(x), None
        if isinstance(x, dict):
            return ev(x["e"]) if "e" in x else (num(x), None)
        op, a = x[0], x[1:]
        if op == "stop":
            return num(a[0]), None
        v = [ev(y) for y in a]
        g = lambda k, f: None if v[k][1] is None else f * v[k][1]
        if all(w[1] is None for w in v):
            return num(x), None
        val = [w[0] for w in v]
        if op == "+":
            return sum(val), tot([w[1] for w in v])
        if op == "-":
            return (val[0] - val[1], tot([v[0][1], g(1, -1.0)])) if len(v) == 2 else (-val[0], g(0, -1.0))
        if op == "*":
            r = 1.0
            for y in val:
                r *= y
            return r, tot([g(k, prod(val, k)) for k in range(len(v))])
        if op == "/":
            return val[0] / val[1], tot([g(0, 1 / val[1]), g(1, -val[0] / val[1] ** 2)])
        if op == "^" and v[1][1] is None:
            return val[0] ** val[1], g(0, val[1] * val[0] ** (val[1] - 1))
        if op == "log":
            return math.log(val[0]), g(0, 1 / val[0])
        if op == "exp":
            return math.exp(val[0]), g(0, math.exp(val[0]))
        if op == "sqrt":
            return math.sqrt(val[0]), g(0, 0.5 / math.sqrt(val[0]))
        if op in ("max", "min"):
            k = val.index(max(val) if op == "max" else min(val))
            return v[k]
        raise MachineryError("no derivative of %r" % (op,))

    def tot(gs):
        gs = [y for y in gs if y is not None]
        return sum(gs[1:], gs[0]) if gs else None

    def prod(val, k):
        r = 1.0
        for j, y in enumerate(val):
            if j != k:
                r *= y
        return r
    r = ev(t)[1]
    return [0.0] * len(names) if r is None else [float(y) for y in r]


def num(x):
    """Value of a number as emitted by the specification: an int, a rational
    [n |-> a, d |-> b], a special string, or a term [e |-> <<op, ...>>]."""
    if isinstance(x, bool):
        return x
    if isinstance(x, (int, float)):
        return float(x)
    if isinstance(x, str):
        if x.startswith("$"):
            return ENV[x]
        return {"inf": math.inf, "-inf": -math.inf, "nan": math.nan,
                "pi": math.pi, "eps": 2.220446049250313e-16}[x]
    if isinstance(x, dict):
        if "e" in x:
            return num(x["e"])
        return num(x["n"]) / num(x["d"])
    op, a = x[0], x[1:]
    if op == "stop":
        return num(a[0])
    if op == "+":
        v = [num(x) for x in a]
        return math.fsum(v) if all(math.isfinite(x) for x in v) else sum(v)
    if op == "*":
        r = 1.0
        for v in a:
            r *= num(v)
        return r
    if op == "-":
        return num(a[0]) - num(a[1]) if len(a) == 2 else -num(a[0])
    if op == "/":
        p, q = num(a[0]), num(a[1])
        if q == 0:
            return math.nan if p == 0 else math.copysign(math.inf, p)
        return p / q
    if op == "^":
        p, q = num(a[0]), num(a[1])
        return math.inf if p == 0 and q < 0 else p ** q
    if op == "log":
        v = num(a[0])
        return -math.inf if v == 0 else math.log(v)
    if op == "log1p":
        return math.log1p(num(a[0]))
    if op == "exp":
        return math.exp(num(a[0]))
    if op == "sqrt":
        return math.sqrt(num(a[0]))
    if op == "abs":
        return abs(num(a[0]))
    if op == "max":
        return max(num(v) for v in a)
    if op == "min":
        return min(num(v) for v in a)
    if op == "erf":
        return math.erf(num(a[0]))
    if op == "lgamma":
        return math.lgamma(num(a[0]))
    if op == "ppf":  # standard normal quantile
        import statistics
        p = num(a[0])
        return -math.inf if p <= 0 else math.inf if p >= 1 else statistics.NormalDist().inv_cdf(p)
    if op == "cdf":
        return 0.5 * math.erfc(-num(a[0]) / math.sqrt(2))
    if op == "tppf4":  # quantile of Student's t with 4 degrees of freedom (closed form)
        p = num(a[0])
        al = 4 * p * (1 - p)
        if al <= 0:
            return math.copysign(math.inf, p - 0.5)
        q = math.cos(math.acos(math.sqrt(al)) / 3) / math.sqrt(al)
        return math.copysign(2 * math.sqrt(max(q - 1, 0)), p - 0.5)
    if op == "round":   # to the nearest integer
        v = num(a[0])
        if abs(v - math.floor(v) - 0.5) < 1e-9:
            raise MachineryError("half-way rounding of %r" % v)
        return float(round(v))
    if op == "sign":
        v = num(a[0])
        return (v > 0) - (v < 0)
    if op == "sinh":
        return math.sinh(num(a[0]))
    if op == "if>=":   # ["if>=", a, b, then, else]
        return num(a[2]) if num(a[0]) >= num(a[1]) else num(a[3])
    if op == "cos":
        return math.cos(num(a[0]))
    if op == "let":     # ["let", name, value, body]
        ENV[a[0]] = num(a[1])
        return num(a[2])
    if op == "ifnan":   # ["ifnan", a, then, else]
        return num(a[1]) if math.isnan(num(a[0])) else num(a[2])
    if op == "firstroot":   # ["firstroot", name, b, body]: root in the first of (0, b), (0, 2b), ... below 1 with a change of sign
        def f(x):
            ENV[a[0]] = x
            return num(a[2])
        b, f0 = num(a[1]), f(0.0)
        while True:
            fb = f(b)
            if (f0 < 0) != (fb < 0) or f0 == 0 or fb == 0:
                break
            b *= 2
            if b >= 1:
                return math.nan
        lo, hi = 0.0, b
        for _ in range(200):
            m = (lo + hi) / 2
            if (f(m) < 0) == (f0 < 0):
                lo = m
            else:
                hi = m
        return (lo + hi) / 2
    raise MachineryError("unknown operation %r" % (op,))


def is_term(x):
    return isinstance(x, dict) and (set(x) == {"e"} or set(x) == {"n", "d"})


def vec(xs):
    import numpy as np
    return np.array([num(x) for x in xs], dtype=float)


def mat(xs):
    import numpy as np
    return np.array([[num(v) for v in r] for r in xs], dtype=float)


def close(a, b, rtol=1e-9, atol=1e-9):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def plain(x):
    """numpy -> plain Python, recursively."""
    import numpy as np
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    return x


def diff(exp, obs, path="", rtol=1e-9, atol=1e-9):
    """None if the observation matches the prediction, else a description.
    Keys absent from the prediction are not compared; "any" matches anything."""
    if isinstance(exp, str) and exp == "any":
        return None
    if isinstance(exp, dict) and set(exp) == {"g", "p"}:
        exp = gradient(exp["g"], exp["p"])
    if is_term(exp) or (isinstance(exp, str) and exp in ("inf", "-inf", "nan")):
        e = num(exp)
        if isinstance(obs, (list, dict, str)) or obs is None or isinstance(obs, bool):
            return "%s: predicted %r, observed %r" % (path, e, obs)
        return None if close(e, obs, rtol, atol) else "%s: predicted %.17g, observed %.17g" % (path, e, obs)
    if isinstance(exp, bool) or isinstance(obs, bool):
        return None if exp is obs or (exp == obs and isinstance(exp, bool) and isinstance(obs, bool)) \
            else "%s: predicted %r, observed %r" % (path, exp, obs)
    if isinstance(exp, dict):
        if not isinstance(obs, dict):
            return "%s: predicted %r, observed %r" % (path, exp, obs)
        for k, v in exp.items():
            if k not in obs:
                if v == "any":
                    continue
                return "%s.%s: predicted %r, nothing observed" % (path, k, v)
            r = diff(v, obs[k], path + "." + k, rtol, atol)
            if r:
                return r
        return None
    if isinstance(exp, list):
        if not isinstance(obs, list) or len(obs) != len(exp):
            return "%s: predicted %r, observed %r" % (path, short(exp), short(obs))
        for i, (a, b) in enumerate(zip(exp, obs)):
            r = diff(a, b, "%s[%d]" % (path, i), rtol, atol)
            if r:
                return r
        return None
    if isinstance(exp, (int, float)):
        if not isinstance(obs, (int, float)):
            return "%s: predicted %r, observed %r" % (path, exp, obs)
        return None if close(exp, obs, rtol, atol) else "%s: predicted %r, observed %r" % (path, exp, obs)
    return None if exp == obs else "%s: predicted %r, observed %r" % (path, exp, obs)


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


# ------------------------------------------------------------------- checking
class Check:
    """One run of one property's check: accumulates coverage, stops at the first
    violation (after writing a replay file)."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.samples = 0
        self.actions, self.notes, self.parts = {}, [], []
        self.violations, self.sample_list = [], []
        self.known = load_known(prop)
        self.known_hit = []
        os.makedirs(EVID, exist_ok=True)

    # --- model side
    def model(self, res, what):
        self.states += res.distinct
        self.transitions += res.states
        self.parts.append({"model": what, "states": res.distinct, "generated": res.states,
                           "behaviours": len(res.behaviours), "tlc_s": round(res.wall, 1)})
        return res

    # --- code side
    def count(self, n=1, action=None):
        self.samples += n
        if action:
            self.actions[action] = self.actions.get(action, 0) + n

    def violation(self, what, data, key=None):
        """Report a violation unless it is a recorded known finding."""
        for k in self.known:
            if key is not None and k["key"] == key:
                if key not in self.known_hit:
                    self.known_hit.append(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
                return
        os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
        body = json.dumps({"property": self.prop, "what": what, "data": plain(data)}, indent=1, default=str)
        h = hashlib.sha1(body.encode()).hexdigest()[:10]
        path = os.path.join(OUT, "replay", "%s-%s.json" % (self.prop, h))
        with open(path, "w") as f:
            f.write(body)
        self.violations.append({"what": what, "replay": path})
        print("violation of %s: %s" % (self.prop, short(what, 1200)))
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        raise Stop()

    def replay(self, behaviours, system, name="", budget=None, tol=(1e-9, 1e-9), fields=None, procs=None):
        """Replay each behaviour on a fresh system: `system(behaviour)`, then
        `.do(step)` returns the observation compared with step["exp"].
        `fields` restricts the comparison ({op: [dotted names]}); `procs` > 1 replays in
        parallel processes."""
        t0 = time.time()
        if procs:
            return self._replay_parallel(behaviours, system, name, budget, tol, fields, procs)
        for b in behaviours:
            if budget and time.time() - t0 > budget:
                self.notes.append("%s: time budget reached after %d behaviours" % (name, self.traces))
                break
            self.replay_one(b, system, name, tol)

    def _replay_parallel(self, behaviours, system, name, budget, tol, fields, procs):
        import multiprocessing as mp
        global _JOB
        raw = behaviours.raw
        _JOB = (raw, system, tol, fields, budget)
        ctx = mp.get_context("fork")
        procs = min(procs, max(1, len(raw)))
        with ctx.Pool(procs) as pool:
            outs = pool.map(_replay_chunk, [(k, procs) for k in range(procs)], chunksize=1)
        for o in outs:
            self.traces += o["traces"]
            for k, v in o["actions"].items():
                self.count(v, k)
            if o["cut"]:
                self.notes.append("%s: time budget reached in a worker after %d behaviours" % (name, o["traces"]))
        errs = [o["error"] for o in outs if o["error"]]
        if errs:
            raise MachineryError("replay of %s: %s" % (name, errs[0]))
        bad = sorted([o["bad"] for o in outs if o["bad"]])
        if len(self.sample_list) < 3 and raw:
            self.sample_list.append(short(json.loads(raw[0]), 600))
        if bad:
            i, msg = bad[0]
            self.violation("%s: %s" % (name, msg), {"behaviour": behaviours[i], "system": name})

    def replay_one(self, b, system, name="", tol=(1e-9, 1e-9)):
        bad = mismatch(b, system, tol, self.count)
        if bad:
            self.violation("%s: %s" % (name, bad), {"behaviour": b, "system": name})
        self.traces += 1
        if len(self.sample_list) < 3:
            self.sample_list.append(short(json.dumps(b), 600))

    def binding_selftest(self, behaviours, system, name="", tol=(1e-9, 1e-9), tries=6, fields=None, skip=()):
        """Corrupt one predicted field and require that the replay notices."""
        rng = random.Random(SEED)
        done = 0
        for b in behaviours:
            if done >= tries:
                break
            if fields:
                b = project(b, fields)
            if mismatch(b, system, tol, None):   # also resolves derived predictions
                raise MachineryError("binding self-test: a replayed behaviour no longer matches")
            bb = corrupt(json.loads(json.dumps(plain(b))), rng, skip)
            if bb is None:
                continue
            done += 1
            try:
                noticed = mismatch(bb, system, tol, None)
            except Exception as e:     # an error that the altered prediction no longer announces
                noticed = repr(e)
            if not noticed and not UNBOUND:
                raise MachineryError("binding self-test failed (%s): a corrupted behaviour was accepted: %s"
                                     % (name, short(bb, 2000)))
        self.parts.append({"binding_selftest": name, "corrupted_behaviours_rejected": done})

    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": LEVELS.get(self.prop, "model_checking"),
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "samples": self.sample_list or ["see parts"],
                           "steps_compared": self.samples,
                           "actions": self.actions, "parts": self.parts, "notes": self.notes,
                           "known_findings_hit": self.known_hit},
              "wall_s": round(time.time() - self.t0, 2)}
        if self.violations:
            ev["violations"] = len(self.violations)
        p = os.path.join(EVID, self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)


_JOB = None


def from_code(e):
    """Does this exception come out of the code under test?"""
    tb = traceback.extract_tb(e.__traceback__)
    return any("/repo/" in fr.filename or "site-packages/gpyreg" in fr.filename for fr in tb)


def _replay_chunk(args):
    k, procs = args
    raw, system, tol, fields, budget = _JOB
    out = {"traces": 0, "actions": {}, "bad": None, "error": None, "cut": False}
    t0 = time.time()

    def count(n, action=None):
        out["actions"][action] = out["actions"].get(action, 0) + n
    for i in range(k, len(raw), procs):
        if budget and time.time() - t0 > budget:
            out["cut"] = True
            break
        b = json.loads(json.loads(raw[i]))
        if fields:
            b = project(b, fields)
        try:
            m = mismatch(b, system, tol, count)
        except Exception as e:
            if not from_code(e):
                out["error"] = traceback.format_exc()
                break
            m = "unexpected exception from the code: " + "".join(traceback.format_exception(e))[-1500:]
        if m:
            out["bad"] = (i, m)
            break
        out["traces"] += 1
    return out


def project(b, fields):
    """Keep only the listed fields of the predictions ({op: names}, dotted for nesting)."""
    for st in b:
        if not (isinstance(st, dict) and isinstance(st.get("exp"), dict)):
            continue
        keep = fields.get(st.get("op"), fields.get("*", []))
        if keep == "all":
            continue
        e = {}
        for f in keep:
            if "." in f:
                a, c = f.split(".")
                if a in st["exp"]:
                    e.setdefault(a, {})[c] = st["exp"][a][c]
            elif f in st["exp"]:
                e[f] = st["exp"][f]
        st["exp"] = e
    return b


LEVELS = {}


class Stop(Exception):
    pass


def corrupt(b, rng, skip=()):
    spots = []
    for i, st in enumerate(b):
        if isinstance(st, dict) and "exp" in st:
            _leaves({k: v for k, v in st["exp"].items() if k not in skip}, [i, "exp"], spots)
    if not spots:
        return None
    path = rng.choice(spots)
    o = b
    for k in path[:-1]:
        o = o[k]
    v = o[path[-1]]
    if path[-1] == "g" and set(o) == {"g", "p"}:
        o["g"] = ["+", v, o["p"][rng.randrange(len(o["p"]))]]
    elif isinstance(v, bool):
        o[path[-1]] = not v
    elif isinstance(v, (int, float)):
        o[path[-1]] = v + 1
    elif isinstance(v, dict):
        o[path[-1]] = {"e": ["+", v, 1]}
        n = num(v)
        if isinstance(n, float) and not math.isfinite(n):
            o[path[-1]] = 0
    elif isinstance(v, str):
        o[path[-1]] = v + "~" if v not in ("inf", "-inf", "nan") else 12345
    return b


def _leaves(x, path, out):
    if isinstance(x, dict) and set(x) == {"g", "p"}:
        out.append(path + ["g"])
    elif isinstance(x, bool) or isinstance(x, (int, float)):
        out.append(path)
    elif isinstance(x, str):
        if x != "any":
            out.append(path)
    elif is_term(x):
        out.append(path)
    elif isinstance(x, dict):
        for k, v in x.items():
            _leaves(v, path + [k], out)
    elif isinstance(x, list):
        for i, v in enumerate(x):
            _leaves(v, path + [i], out)


def mismatch(b, system, tol, count):
    try:
        s = system(b)
    except MachineryError:
        raise
    try:
        ENV.clear()
        DEFS.clear()
        for i, st in enumerate(b):
            define(st)
            try:
                obs = plain(s.do(st))
            except CannotBind as e:
                UNBOUND.append(str(e))
                obs = {"__skip__": "no place for a stand-in: " + str(e)}
            if count:
                count(1, st.get("op") if isinstance(st, dict) else None)
            if isinstance(obs, dict) and "__skip__" in obs:   # not determined by the specification
                if count:
                    count(1, "skipped: " + obs["__skip__"])
                continue
            if isinstance(st, dict) and "exp" in st:
                r = diff(st["exp"], obs, "", *tol)
                if r:
                    return "step %d (%s)%s" % (i + 1, st.get("op"), r)
    finally:
        close_ = getattr(s, "close", None)
        if close_:
            close_()
    return None


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == prop]
    except FileNotFoundError:
        return []


def prepare_env():
    """Deterministic numerics, nothing written into the repository."""
    sys.dont_write_bytecode = True
    d = tempfile.mkdtemp(prefix="vmpl_")
    os.environ.setdefault("MPLCONFIGDIR", d)
    return d


def main(prop, run):
    """Entry point of a check script: run(check) does the work."""
    tier = sys.argv[1] if len(sys.argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    c = Check(prop, tier)
    rc = 0
    import warnings
    warnings.showwarning = lambda *a, **k: None
    try:
        run(c)
    except Stop:
        rc = 1
    except MachineryError as e:
        print("MACHINERY ERROR in %s: %s" % (prop, e))
        rc = 2
    except Exception as e:
        # An unexpected exception out of the code under test is an answer too,
        # unless it comes from the machinery.
        traceback.print_exc()
        if from_code(e):
            try:
                c.violation("unexpected exception from the code: %r" % (e,), {"traceback": traceback.format_exc()})
            except Stop:
                pass
            rc = 1
        else:
            rc = 2
    c.finish()
    if rc == 0:
        print("%s %s: held on %d behaviours (%d steps compared), %d model states, %.1fs" % (
            prop, c.tier, c.traces, c.samples, c.states, time.time() - c.t0))
    sys.stdout.flush()
    os._exit(rc) if False else sys.exit(rc)
