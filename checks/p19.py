import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import logging
import numpy as np
import scipy.stats as ss
import vlib
from vlib import num
from pyvbmc import VBMC
from pyvbmc import priors as P


class Target:
    def __init__(self, b):
        self.lik, self.lp, self.sd, self.fail = [], [], 1.0, None

    def do(self, st):
        return getattr(self, st["op"])(st)

    def shape(self, v, how):
        return {"float": float(v), "npfloat": np.float64(v), "arr1": np.array([v]), "arr11": np.array([[v]]), "arr0": np.array(v)}[how]

    def vbmc(self, lik, **kw):
        p = self.p
        D = p["D"]
        b = {} if not p["bnd"] else {"lower_bounds": np.full((1, D), -8.0), "upper_bounds": np.full((1, D), 8.0)}
        o = {"display": "off", "max_iter": 1, "max_fun_evals": 5, "ns_gp_max": 0, "ns_gp_max_warmup": 0, "ns_gp_max_main": 0, "fun_eval_start": 6, "min_fun_evals": 0, "min_iter": 0, "gp_train_n_init": 4, "gp_train_n_init_final": 4, "ns_elbo": lambda K: 2, "max_iter_stochastic": 20}
        if p["lev"] == 2:
            o["specify_target_noise"] = True
        elif p["lev"] == 1:
            o["uncertainty_handling"] = [True]
        return VBMC(lik, np.zeros((1, D)) + 0.1, plausible_lower_bounds=-np.ones((1, D)), plausible_upper_bounds=np.ones((1, D)), options=o, **b, **kw)

    def marg(self, m):
        a, b, w = float(m["a"]), float(m["b"]), float(m["w"])
        return {"uniform": lambda: P.UniformBox(a, b), "norm": lambda: ss.norm(a, w), "smooth": lambda: P.SmoothBox(a, b, w), "expon": lambda: ss.expon(a, w)}[m["k"]]()

    def make(self, st):
        p = self.p = st["p"]
        D, cs = p["D"], p["cs"]
        g, pg = np.array(p["g"]), np.array(p["pg"])

        def lik(x):
            self.lik.append(np.array(x, copy=True))
            if self.fail == "lik":
                raise KeyError("x")
            v = self.shape(np.nan if self.fail == "nan" else p["c"] + float(g @ np.ravel(x) - np.sum(np.ravel(x) ** 2)), p["ret"])
            if p["lev"] == 2:
                return v, (-1.0 if self.fail == "badsd" else self.sd)
            return v

        def lp(x):
            self.lp.append(np.array(x, copy=True))
            if self.fail == "lp":
                raise KeyError("x")
            return self.shape(p["pc"] + float(pg @ np.ravel(x)), p["pret"])
        sample = self.sample = lambda n: np.zeros((n, D))
        a, b, w = (np.array([float(c[k]) for c in cs]) for k in "abw")
        k = p["kind"]
        obj = (lambda: P.UniformBox(a, b) if cs[0]["k"] == "uniform" else P.SmoothBox(a, b, w))
        kw = {"joint": lambda: {}, "object": lambda: {"prior": obj()}, "product": lambda: {"prior": P.Product([self.marg(c) for c in cs])},
              "scipy": lambda: {"prior": self.marg(cs[0])}, "mvn": lambda: {"prior": ss.multivariate_normal(a, np.diag(w ** 2))},
              "list": lambda: {"prior": [self.marg(c) for c in cs]}, "func": lambda: {"log_prior": lp}, "funcsample": lambda: {"log_prior": lp, "sample_prior": sample},
              "sampleonly": lambda: {"sample_prior": sample}, "userobj": lambda: {"prior": P.UserFunction(lp, None, D)}}
        if k in ("own", "ownsample"):
            q = obj()
            kw = {"prior": q, "log_prior": q.log_pdf} if k == "own" else {"prior": q, "sample_prior": q.sample}
        else:
            kw = kw[k]()
        self.f = lik
        self.v = self.vbmc(lik, **kw)
        if "prior" in kw and isinstance(kw["prior"], list):
            kw["prior"].clear()      # the caller's list is its own
        return {"prior": self.v.prior is not None, "lik": self.v.log_likelihood is not None, "calls": len(self.lik) + len(self.lp)}

    def same(self, x=None):
        pts = self.lik + self.lp
        ok = all(np.array_equal(q, pts[0]) for q in pts) and (x is None or np.allclose(np.ravel(pts[0]), x, rtol=1e-9, atol=1e-9))
        return bool(ok)

    def eval(self, st):
        x = np.array(st["x"]) / 4
        self.sd = st["sd"] / 4
        self.lik.clear(), self.lp.clear()
        v, fl = self.v, self.v.function_logger
        raised, y, sd = "none", None, 0.0
        if st["direct"]:
            r = v.log_joint(x.copy())
            if self.p["lev"] == 2:
                r, sd = r
            y = np.asarray(r, dtype=float).item()
        else:
            try:
                _, s, idx = fl(v.parameter_transformer(x.reshape(1, -1)).ravel())
                y = float(fl.y_orig[idx, 0])
                sd = float(fl.S[idx, 0]) if self.p["lev"] else 0.0
            except ValueError as e:
                raised, y, sd = "ValueError", -np.inf, num(st["exp"]["sd"])
        return {"raised": raised, "y": y, "sd": sd, "lik": len(self.lik), "lp": len(self.lp), "same": self.same(x), "n": fl.Xn + 1, "count": fl.func_count}

    def fail_(self, st):
        x = np.array(st["x"]) / 4
        self.fail = st["how"]
        fl = self.v.function_logger
        raised = "none"
        try:
            fl(self.v.parameter_transformer(x.reshape(1, -1)).ravel())
        except (KeyError, ValueError) as e:
            raised = type(e).__name__
        self.fail = None
        return {"raised": raised, "n": fl.Xn + 1, "count": fl.func_count}

    def conflict(self, st):
        D = self.p["D"]
        box = P.UniformBox(np.zeros(D), np.ones(D))
        f, s = (lambda x: 0.0), (lambda n: np.zeros((n, D)))
        ms = [ss.norm(0, 1) for _ in range(D)]
        kw = {"function as prior": {"prior": f}, "number as prior": {"prior": 1.0}, "string as prior": {"prior": "uniform"}, "tuple of marginals": {"prior": tuple(ms)},
              "dict as prior": {"prior": {}}, "unfrozen distribution": {"prior": ss.norm}, "discrete distribution": {"prior": ss.poisson(2)}, "class as prior": {"prior": P.UniformBox},
              "object and another log-prior": {"prior": box, "log_prior": f}, "object and another sampler": {"prior": box, "sample_prior": s},
              "list and log-prior": {"prior": ms, "log_prior": f}, "distribution and log-prior": {"prior": ss.multivariate_normal(np.zeros(D), np.eye(D)), "log_prior": f},
              "dimension too large": {"prior": P.UniformBox(0, 1, D=D + 1)}, "dimension too small": {"prior": ms[:-1] if D > 1 else []},
              "list too long": {"prior": ms + ms[:1]}, "empty list": {"prior": []}, "wide marginal": {"prior": [P.UniformBox(0, 1, D=2)] + ms[1:]},
              "number in list": {"prior": ms[1:] + [1.0]}, "function in list": {"prior": ms[1:] + [f]}, "number as log-prior": {"log_prior": 1.0}, "number as sampler": {"sample_prior": 2},
              "log-prior and number as sampler": {"log_prior": f, "sample_prior": 1.0}, "sampler and number as log-prior": {"log_prior": 1.0, "sample_prior": s},
              "array as log-prior": {"log_prior": np.zeros(D)}}[st["what"]]
        self.lik.clear(), self.lp.clear()
        raised = "none"
        try:
            self.vbmc(self.f, **kw)
        except (TypeError, ValueError) as e:
            raised = type(e).__name__
        return {"raised": raised, "calls": len(self.lik) + len(self.lp)}

    def run(self, st):
        self.lik.clear(), self.lp.clear()
        v = self.v
        self.sd = 0.5
        np.random.seed(1)
        v.optimize()
        fl = v.function_logger
        n = fl.func_count
        each = len(self.lik) == n and len(self.lp) in (0, n) and n >= 5
        same = all(np.array_equal(a, b) for a, b in zip(self.lik, self.lp))
        g, pg = np.array(self.p["g"]), np.array(self.p["pg"])
        k = self.p["kind"]
        sums = True
        for i in range(fl.Xn + 1):
            x = fl.X_orig[i]
            e = self.p["c"] + g @ x - x @ x
            if k in ("func", "funcsample", "userobj"):
                e += self.p["pc"] + pg @ x
            elif v.prior is not None and v.prior.log_pdf is not None:
                e += float(v.prior.log_pdf(x).item())
            sums &= bool(np.isclose(fl.y_orig[i, 0], e, rtol=1e-9, atol=1e-9))
        return {"each": bool(each), "same": bool(same), "sums": bool(sums)}


_do = Target.do   # the operation "fail" shares its name with a field
Target.do = lambda self, st: self.fail_(st) if st["op"] == "fail" else _do(self, st)


def run(c):
    logging.disable(logging.CRITICAL)
    b = vlib.tlc_many("Target", [dict(seed=vlib.SEED * 70 + j, simulate=600 if c.thorough else 120) for j in range(8)],
                      constants=dict(Depth=9, Sim=True), invariants=["Emit", "Distinct"], depth=12)
    c.model(b, "Target simulation")
    c.replay(b.behaviours, Target, "targets", procs=8, tol=(1e-8, 1e-8), budget=500)
    c.binding_selftest(b.behaviours[:10], Target, "targets", tol=(1e-8, 1e-8), skip=("p",))


if __name__ == "__main__":
    vlib.main("P19", run)
