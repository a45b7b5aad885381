import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import copy
import numpy as np
import scipy.stats as ss
import vlib
from vlib import num
from pyvbmc import priors as P

MULTI = {"uniform": (P.UniformBox, "ab"), "trap": (P.Trapezoidal, "auvb"), "spline": (P.SplineTrapezoidal, "auvb"), "smooth": (P.SmoothBox, "abw")}


def marginal(m, alone=False):
    k = m["k"]
    a, b, w = m["a"], m["b"], m["w"]
    if k in MULTI:
        cls, names = MULTI[k]
        return cls(*[m[n] for n in names])
    return {"norm": lambda: ss.norm(a, w), "expon": lambda: ss.expon(a, w), "beta": lambda: ss.beta(2, 3, a, b - a), "cauchy": lambda: ss.cauchy(a, w),
            "sunif": lambda: ss.uniform(a, b - a), "gamma": lambda: ss.gamma(3, a, w)}[k]()


class Priors:
    def __init__(self, b):
        self.pr = None

    def do(self, st):
        return getattr(self, st["op"])(st)

    def build(self, ps, cl, f, bad=None, i=0, z=None):
        D = len(ps)
        ps = [dict(q) for q in ps]
        if bad in ("order", "equal", "last", "width"):
            q = ps[i]
            names = MULTI[cl][1]
            if bad == "width":
                q["w"] = 0.0 if z == "zero" else -q["w"]
            else:
                kn = [n for n in names if n != "w"]
                x, y = (kn[-2], kn[-1]) if bad == "last" else (kn[0], kn[1])
                if bad == "equal" or z == "zero":
                    q[y] = q[x]
                else:
                    q[x], q[y] = q[y], q[x]
        if cl in MULTI:
            cls, names = MULTI[cl]
            args = []
            for j, n in enumerate(names):
                v = [q[n] for q in ps]
                if bad == "size" and j == len(names) - 1:
                    v = v + [v[-1] + 1.0]
                if f == "scalarD":
                    args.append(v[0] if bad != "size" else np.array(v))
                elif f == "int":
                    args.append(np.array(v).astype(np.int64) if np.all(np.array(v) == np.round(v)) else np.array(v))
                elif f == "list":
                    args.append(list(v))
                elif f == "row":
                    args.append(np.array([v]))
                elif f == "mixed" and len(set(v)) == 1 and D > 1:
                    args.append(v[0])
                else:
                    args.append(np.array(v))
            pr = cls(*args, D=D) if f == "scalarD" or all(np.isscalar(x) for x in args) else cls(*args)
            for x in args:      # the caller's arrays are its own
                if isinstance(x, np.ndarray):
                    x += 17
                elif isinstance(x, list):
                    x[:] = [9] * len(x)
            return pr
        if cl == "product":
            ms = [marginal(q) for q in ps]
            if bad == "tuple":
                return P.Product(tuple(ms))
            if bad == "dim":
                ms[i] = P.UniformBox(np.zeros(2), np.ones(2)) if z == "zero" else ss.multivariate_normal(np.zeros(2))
            if bad == "type":
                ms[i] = 3.0 if z == "zero" else (lambda x: 0.0)
            pr = P.Product(ms)
            ms[:] = []
            return pr
        if cl == "scipy":
            return P.SciPy(marginal(ps[0]) if bad is None else (ss.norm if z == "zero" else ss.poisson(3)))
        mu = np.array([q["a"] for q in ps])
        s = np.array([q["w"] for q in ps])
        C = np.outer(s, s) * np.array([[1.0, self.r / 5], [self.r / 5, 1.0]])
        return P.SciPy(ss.multivariate_normal(mu, C) if cl == "mvn" else ss.multivariate_t(mu, C, df=2))

    def make(self, st):
        self.ps = [{k: (v if k == "k" else num(v)) for k, v in q.items()} for q in st["ps"]]
        self.cl, self.f, self.r = st["cl"], st["f"], st["r"]
        self.pr = self.build(self.ps, self.cl, self.f)
        a, b = self.pr.support()
        self.lo, self.hi = np.array(a, dtype=float).ravel(), np.array(b, dtype=float).ravel()
        return {"D": self.pr.D, "lo": self.lo, "hi": self.hi}

    def reject(self, st):
        try:
            self.build(self.ps, self.cl, self.f, st["how"], st["i"] - 1, st["z"])
        except (ValueError, TypeError) as e:
            return {"raised": type(e).__name__}
        return {"raised": None}

    def ask(self, st):
        x = np.array([[num(v) for v in r] for r in st["xs"]])
        sh = st["sh"]
        arg = x
        if sh == "1d":
            arg = x.ravel()
        elif sh == "int" and np.all(x == np.round(x)) and np.all(np.abs(x) < 1e15):
            arg = x.astype(np.int64)
        elif sh == "fortran":
            arg = np.asfortranarray(x)
        was = arg.copy()
        kw = {} if st["kd"] == "default" else {"keepdims": st["kd"] == "true"}
        v = getattr(self.pr, st["fn"])(arg, **kw)
        return {"v": np.ravel(v), "shape": list(np.shape(v)), "args": bool(np.array_equal(arg, was) and arg.dtype == was.dtype)}

    def wrongdim(self, st):
        x = np.zeros((st["n"], st["d"])) if st["sh"] == "2d" else np.zeros(st["d"])
        try:
            self.pr.log_pdf(x)
        except ValueError:
            return {"raised": "ValueError"}
        return {"raised": None}

    def draw(self, st):
        np.random.seed(st["seed"])
        n = st["n"]
        x = self.pr.sample(n)
        exp = [[num(v) for v in r] for r in st["exp"]["cdf"]]
        out = []
        xx = np.reshape(x, (-1, len(exp)))
        for i, r in enumerate(exp):
            row = []
            for t, e in enumerate(r):
                f = float(np.mean(xx[:, i] <= num(st["ticks"][i][t]))) if n else np.nan
                row.append(e if np.isnan(e) or (n and abs(f - e) <= 6 * np.sqrt(e * (1 - e) / n) + (30.0 / n if n < 100 else 0.001)) else f)
            out.append(row)
        ind = True
        if n > 100 and self.cl not in ("mvn", "mvt"):
            rk = np.argsort(np.argsort(xx, axis=0), axis=0).astype(float)
            c = np.corrcoef(rk.T) if xx.shape[1] > 1 else np.ones((1, 1))
            ind = bool(np.all(np.abs(c - np.eye(len(c)) if len(c) > 1 else 0) < 6 / np.sqrt(n)))
        return {"shape": list(np.shape(x)), "inside": bool(np.all((xx >= self.lo) & (xx <= self.hi))),
                "positive": bool(np.all(np.isfinite(self.pr.log_pdf(xx)))) if n else True, "indep": ind, "cdf": out}


def run(c):
    b = vlib.tlc_many("Priors", [dict(seed=vlib.SEED * 70 + j, simulate=1500 if c.thorough else 350) for j in range(8)],
                      constants=dict(Depth=9, Sim=True), invariants=["Emit", "Normal"], depth=12)
    c.model(b, "Priors simulation")
    c.replay(b.behaviours, Priors, "priors", procs=8, tol=(1e-8, 1e-9), budget=500)
    c.binding_selftest(b.behaviours[:10], Priors, "priors", tol=(1e-8, 1e-9), skip=("cdf",))


if __name__ == "__main__":
    vlib.main("P18", run)
