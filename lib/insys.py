"""Where the real code evaluates the target, for behaviours of Inside.tla."""
import importlib
import logging
import numpy as np
import cma
import scipy.optimize
import gpyreg as gpr
import vlib
from vlib import CannotBind
from pyvbmc import VBMC
import pyvbmc.acquisition_functions as AF
from pyvbmc.parameter_transformer import ParameterTransformer
import actsys

A = actsys.A
logging.disable(logging.CRITICAL)


PLACES = (0, 1, 4, 8, 13, 30, 200, 5000, 100000, 300000, 450000)


class In(actsys.Act):
    def do(self, st):
        with np.errstate(all="ignore"):
            return getattr(self, "op_" + st["op"])(st["a"], st["exp"])

    def op_setup(self, a, exp):
        c = self.c = dict(a["cf"])
        c["ty"] = [g["k"] for g in c["g"]]
        D = self.D = c["D"]
        lo = np.array([g["so"] * 2.0 ** g["eo"] for g in c["g"]])
        w = np.array([2.0 ** (g["dw"] + (g["eo"] if g["so"] else 0)) for g in c["g"]])
        self.lo, self.w = lo, w
        B = np.array([g["k"] == "b" for g in c["g"]])
        one = np.ones((1, D))
        self.lb, self.ub = np.where(B, lo, -np.inf) * one, np.where(B, lo + w, np.inf) * one
        at = lambda f: lo + w * np.array(f) / 4096
        pl, pu = at([g["pl"] for g in c["g"]]), at([g["pu"] for g in c["g"]])
        x0 = np.array([at(p) for p in a["x0"]])
        self.o = dict(display="off", fun_eval_start=a["n0"], init_design=a["des"], search_optimizer="none", bounded_transform=c["tr"],
                      specify_target_noise=c["lvl"] == 2)
        np.random.seed(a["seed"])
        self.calls = []
        self.pushes = np.zeros(D)
        x0 = np.minimum(np.maximum(x0, self.lb), self.ub)
        self.args = (x0, self.lb, self.ub, pl * one, pu * one)
        v = self.v = VBMC(self.target, *[z.copy() for z in self.args], options=dict(self.o))
        self.L = v.function_logger
        A.active_sample(None, a["n0"], v.optim_state, self.L, v.iteration_history, v.vp, v.options)
        r = {"calls": len(self.calls), "inside": self.inside()}
        # a reparameterisation in force
        if c["rot"] != "none":
            pt = v.parameter_transformer
            pt.scale = np.array([2.0, 0.5, 1.25])[:D]
            if c["rot"] == "rotate":
                q, _ = np.linalg.qr(np.random.RandomState(a["seed"]).randn(D, D))
                pt.R_mat = q
            L, n = self.L, self.L.Xn + 1
            L.parameter_transformer = pt
            L.X[:n] = pt(L.X_orig[:n])
            L.y[:n] = L.y_orig[:n] + np.reshape(pt.log_abs_det_jacobian(L.X[:n]), (-1, 1))
        o = v.optim_state
        o["lb_search"], o["ub_search"] = np.full((1, D), -1e6), np.full((1, D), 1e6)
        o["variance_regularized_acq_fcn"] = False
        return r

    def target(self, x):
        x = np.atleast_1d(np.array(x, dtype=float))
        self.calls.append(x.copy())
        u = (x - self.lo) / self.w
        y = float(np.sum(self.pushes * u) - 0.5 * np.sum((u - 0.4) ** 2))
        return (y, 0.5) if self.c["lvl"] == 2 else y

    def orig(self, x):
        """Original location of a position."""
        return np.array([self.lo[j] + (self.w[j] * p["m"] / 1e6 if p["e"] == 0 else 0) if p["e"] == 0 else (self.lo[j] + self.w[j]) - self.w[j] * p["m"] / 1e6
                         for j, p in enumerate(x)])

    def tran(self, x):
        z = np.ravel(self.L.parameter_transformer(self.orig(x).reshape(1, -1)))
        for j, p in enumerate(x):
            if p["z"]:
                z[j] = p["z"]
        return np.clip(z, -1e6, 1e6)

    def values(self, Xs, gp):
        out = []
        for x in np.atleast_2d(Xs):
            k = [j for j, p in enumerate(self.Z) if np.allclose(p, x, rtol=1e-10, atol=1e-10)]
            if k:
                out.append(float(self.a["vs"][k[0]]))
            elif self.zo is not None and np.allclose(self.zo, x, rtol=1e-10, atol=1e-10):
                out.append(float(self.a["opt"]["v"]))
            else:
                out.append(actsys.FAR)
        return np.array(out)

    def op_step(self, a, exp):
        v, L, D = self.v, self.L, self.D
        o = v.optim_state
        self.a = a
        self.Z = np.array([self.tran(x) for x in a["cs"]])
        self.zo = self.tran(a["opt"]["x"]) if a["opt"]["on"] else None
        self.calls = []
        S = v.options.__setitem__
        for n, x in dict(search_cache_frac=1, heavy_tail_search_frac=0, mvn_search_frac=0, hpd_search_frac=0, box_search_frac=0, ns_search=len(self.Z),
                         search_optimizer="cmaes" if a["opt"]["on"] else "none", search_acq_fcn=[actsys.Scripted(self)], active_sample_gp_update=False).items():
            S(n, x, force=True)
        o["search_cache"] = self.Z.copy()
        o.update(iter=5, last_warmup=-10)
        v.iteration_history.record("r_index", 1.0, 0)
        n0 = int(np.sum(L.n_evals[:L.Xn + 1]))
        used = [0]

        def local(fun, x0, *p, **k):
            used[0] += 1
            return self.zo.copy(), float(fun(self.zo.copy()))

        class Res(dict):
            __getattr__ = dict.__getitem__

        def mini(fun, x0, *p, **k):
            x, f = local(fun, x0)
            return Res(x=x, fun=f, success=True)
        st = [(cma, "fmin", local), (scipy.optimize, "minimize", mini)]
        st += [(A, n, f) for n, f in (("fmin", local), ("minimize", mini)) if hasattr(A, n)]
        g = Fake(D, L)
        with vlib.stubs(*st), vlib.stubs((A, "reupdate_gp", lambda l, gp: gp)):
            A.active_sample(g, a["k"], o, L, v.iteration_history, v.vp, v.options)
        if a["opt"]["on"] and not used[0]:
            raise CannotBind("local search")
        at = []
        for x in self.calls:
            r = []
            for j in range(D):
                if self.c["ty"][j] == "u":
                    r.append(0)
                    continue
                d0, d1 = (x[j] - self.lo[j]) / self.w[j] * 1e6, ((self.lo[j] + self.w[j]) - x[j]) / self.w[j] * 1e6
                d = d0 if d0 <= d1 else d1
                k = [m for m in PLACES if abs(d - m) < 0.05 + 1e-4 * m]
                d = k[0] if k else float(d)
                r.append(d if d0 <= d1 else -d)
            at.append([] if a["any"] else r)
        return {"calls": len(self.calls), "inside": self.inside(), "at": at, "log": int(np.sum(L.n_evals[:L.Xn + 1])) - n0}

    def op_run(self, a, exp):
        np.random.seed(a["seed"])
        c = self.c
        self.pushes = np.array(a["push"], dtype=float) * 3
        self.calls = []
        o = dict(self.o, max_iter=3, min_iter=2, ns_search=256, search_optimizer=a["so"], search_max_fun_evals=60, ns_elbo=4, min_final_components=3, ns_gp_max=0, gp_train_n_init=8,
                 gp_train_n_init_final=4, ns_ent_fine=20, ns_ent=10, ns_ent_boost=12, max_iter_stochastic=30, elbo_starts=1, fun_evals_per_iter=4, max_fun_evals=60,
                 fun_eval_start=8, search_acq_fcn=[getattr(AF, a["acq"])()])
        if a["warp"]:
            o.update(warmup=False, warp_every_iters=1, warp_min_k=1, warp_tol_reliability=1e9, warp_tol_improvement=-1e9, warp_tol_sd_base=1e9)
        v = VBMC(self.target, *[z.copy() for z in self.args], options=o)
        try:
            v.optimize()
        except (np.linalg.LinAlgError, ValueError) as e:
            # a surrogate that cannot be fitted ends the run; the calls so far count
            pass
        n = len(self.calls)
        return {"inside": self.inside(), "count": n == int(v.function_logger.func_count)}


class Fake:
    """A surrogate that only holds the log's data."""
    def __init__(self, D, L):
        n = L.Xn + 1
        self.D = D
        self.X, self.y = L.X[:n].copy(), L.y[:n].copy()
        self.posteriors = np.array([Post(D)], dtype=object)
        self.temporary_data = {}
        self.s2 = None
        self.covariance = self.noise = self.mean = self

    def hyperparameter_count(self, *a):
        return self.D + 1

    def compute(self, hyp, X, y, s2=None):
        return np.ones((len(X), 1))

    def predict(self, x_star, *a, **k):
        n = len(np.atleast_2d(x_star))
        return np.zeros((n, 1)), np.ones((n, 1))

    def update(self, *a, **k):
        pass


class Post:
    def __init__(self, D):
        self.hyp = np.zeros(4 * D + 6)
