import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import copy, itertools, types
import gpyreg as gpr
import numpy as np
import vlib, loopcheck, tracesys
from vlib import num, vec
from pyvbmc.function_logger import FunctionLogger
from pyvbmc.parameter_transformer import ParameterTransformer
from pyvbmc.variational_posterior import VariationalPosterior
from pyvbmc.whitening import warp_input, warp_gp_and_vp

FIELDS = {"iter": ["ev", "act", "vp", "gp", "consistent", "log", "st"], "final": ["hvps", "iters"], "reload": "all", "continue": "all"}


def rot(p):
    D = p["D"]
    R = np.eye(D)
    c, s, h = p["rot"]
    R[:2, :2] = [[c / h, -s / h], [s / h, c / h]]
    return R


class Whiten:
    """The real reparameterisation of a log, a posterior and a surrogate."""

    def __init__(self, b):
        np.random.seed(3)

    def do(self, st):
        return getattr(self, st["op"])(st)

    def setup(self, st):
        p = self.p = st["p"]
        D = p["D"]
        row = lambda k: np.array([[num(c[k]) for c in p["cs"]]])
        lb, ub = row("lb"), row("ub")
        for i, c in enumerate(p["cs"]):
            if c["t"] == "unb":
                lb[0, i], ub[0, i] = -np.inf, np.inf
        # coordinates without a plausible range: centred by hand
        pt = ParameterTransformer(D, lb, ub)
        mu, de = np.zeros(D), np.ones(D)
        for i, c in enumerate(p["cs"]):
            if c["pl"]:
                one = ParameterTransformer(1, lb[:, [i]], ub[:, [i]], np.array([[num(c["plb"])]]), np.array([[num(c["pub"])]]))
                mu[i], de[i] = one.mu[0], one.delta[0]
        pt.mu, pt.delta = mu, de
        if p["white"]:
            pt.R_mat, pt.scale = rot(p), vec(p["s0"])
        self.flpt = ParameterTransformer(D, lb, ub) if p["white"] and p["older"] else pt
        fl = FunctionLogger(None, D, False, 0, cache_size=12, parameter_transformer=copy.deepcopy(self.flpt))
        self.x = np.array([vec(x) for x in p["x"]])
        self.y = vec(p["y"])[: len(self.x)]
        fl.fun = lambda x: self.now
        for x, y in zip(self.x, self.y):
            self.now = float(y)
            fl(fl.parameter_transformer(x))
        for i in range(len(self.x)):
            fl.X_flag[i] = p["act"][i]
        self.n = len(self.x)
        self.fl = fl
        vp = VariationalPosterior(D, 2, np.zeros((1, D)), copy.deepcopy(pt))
        vp.mu = np.array([vec(m) for m in p["mu"]]).T
        vp.sigma = vec(p["sg"]).reshape(1, 2)
        vp.lambd = vec(p["la"]).reshape(D, 1)
        vp.w = np.array([[p["w"] / 4, 1 - p["w"] / 4]])
        self.vp = vp
        lo = np.array([[-2.0, -1.0, -0.5][:D]])
        self.os = {"plb_orig": np.array([[num(c["plb"]) for c in p["cs"]]]), "pub_orig": np.array([[num(c["pub"]) for c in p["cs"]]]),
                   "lb_search": lo.copy(), "ub_search": lo + np.array([[3.0, 1.0, 2.0][:D]]),
                   "search_cache": np.array([vec(c) for c in p["cache"]]) if p["cache"] else [],
                   "warping_count": p["cnt"], "iter": p["iter"], "last_warping": -np.inf, "last_successful_warping": -np.inf, "N": self.n,
                   "recompute_var_post": False, "skip_active_sampling": False, "run_mean": [1], "run_cov": [1], "last_run_avg": 1}
        self.lo, self.hi = self.os["lb_search"].copy(), self.os["ub_search"].copy()
        return {"old": fl.X[: self.n]}

    def canon(self, st, R, sc):
        """Order and signs of the observed columns as in the specification."""
        D = self.p["D"]
        Rs = np.array([[num(v) for v in r] for r in st["R"]])
        ss = np.array([num(v) for v in st["scales"]])
        best = min(itertools.permutations(range(D)), key=lambda q: np.abs(np.log(sc[list(q)] / ss)).sum()
                   + np.abs(np.abs(R[:, list(q)]) - np.abs(Rs)).sum())
        sg = np.sign(np.sum(R[:, list(best)] * Rs, axis=0))
        sg[sg == 0] = 1
        self.ambiguous = np.min(np.abs(np.diff(np.sort(ss)))) < 1e-6 * np.max(ss)
        return list(best), sg

    def warp(self, st):
        p, D, fl = self.p, self.p["D"], self.fl
        before = copy.deepcopy(fl)
        opt = {"warp_nonlinear": False, "warp_rotoscaling": True, "warp_roto_corr_thresh": p["thr"] / 5, "warp_cov_reg": p["reg"] / 4}
        pt, os_, fl2, action = warp_input(self.vp, self.os, fl, opt)
        self.pt = pt
        q, sg = self.q, self.sg = self.canon(st, pt.R_mat, pt.scale)
        if self.ambiguous:
            return {"__skip__": "equal scales"}
        f = np.array(fl2.X_flag[: self.n])
        X = (fl2.X[: self.n][:, q] * sg).tolist()
        y = fl2.y[: self.n].ravel().tolist()
        orig = (np.array_equal(fl2.X_orig, before.X_orig, equal_nan=True) and np.array_equal(fl2.y_orig, before.y_orig, equal_nan=True)
                and np.array_equal(fl2.X_flag, before.X_flag) and np.array_equal(fl2.n_evals, before.n_evals) and fl2.Xn == before.Xn
                and fl2.func_count == before.func_count and fl2.parameter_transformer == pt
                and np.array_equal(pt.lb_orig, self.vp.parameter_transformer.lb_orig)
                and np.allclose(pt.inverse(fl2.X[: self.n][f]), self.x[f], rtol=1e-7, atol=1e-7))
        # search region: the bounding box of the image of the old one
        u = np.random.rand(20000, D) * (self.hi - self.lo) + self.lo
        z = pt(self.flpt.inverse(u))
        zl, zh = z.min(0), z.max(0)
        w = zh - zl
        box = bool(np.all(np.abs(os_["lb_search"] - zl) < 0.25 * w) and np.all(np.abs(os_["ub_search"] - zh) < 0.25 * w))
        # plausible box: central quantiles of the plausible box in the new coordinates
        xx = np.random.rand(20000, D) * (self.os["pub_orig"] - self.os["plb_orig"]) + self.os["plb_orig"]
        a, b = np.quantile(pt(xx), [0.05, 0.95], axis=0)
        a, b = a - (b - a) / 9, b + (b - a) / 9
        plaus = bool(np.all(np.abs(os_["plb_tran"] - a) < 0.05 * (b - a)) and np.all(np.abs(os_["pub_tran"] - b) < 0.05 * (b - a)))
        cache = os_["search_cache"]
        cache = (np.atleast_2d(cache)[:, q] * sg).tolist() if len(cache) else []
        return {"scales": pt.scale[q], "R": pt.R_mat[:, q] * sg, "proper": bool(abs(np.linalg.det(pt.R_mat) - 1) < 1e-9),
                "zero": bool(np.all(pt.mu == 0) and np.all(pt.delta == 1)), "X": X, "y": y, "orig": bool(orig),
                "cache": cache, "box": box, "plaus": plaus,
                "state": {"recompute": os_["recompute_var_post"], "skip": os_["skip_active_sampling"], "count": os_["warping_count"],
                          "last": os_["last_warping"], "lastok": os_["last_successful_warping"]}, "action": action}

    def posterior(self, st):
        p, D = self.p, self.p["D"]
        if self.ambiguous:
            return {"__skip__": "equal scales"}
        gp = gpr.GP(D=D, covariance=gpr.covariance_functions.SquaredExponential(), mean=gpr.mean_functions.NegativeQuadratic(),
                    noise=gpr.noise_functions.GaussianNoise(constant_add=True))
        hyp = np.concatenate([np.log(vec(p["ell"])), [0.3], [-2.5], [num(p["m0"])], vec(p["xm"]), np.log(vec(p["om"]))])
        hyp = np.stack([hyp, hyp + 0.0])
        hyp[1, D] = 0.7
        gp.update(X_new=self.vp.parameter_transformer(self.x), y_new=self.y.reshape(-1, 1), hyp=hyp)
        v = types.SimpleNamespace(D=D, optim_state={}, parameter_transformer=self.pt)
        vp, h = warp_gp_and_vp(self.pt, gp, self.vp, v)
        q, sg = self.q, self.sg
        n = D + 1
        same = bool(np.allclose(h[0][[x for x in range(h.shape[1]) if x != D]], h[1][[x for x in range(h.shape[1]) if x != D]])
                    and np.array_equal(h[:, D:D + 2], hyp[:, D:D + 2]))
        return {"K": vp.K, "mu": (vp.mu.T[:, q] * sg), "w": vp.w.ravel(), "lambda": vp.lambd.ravel()[q], "sigma": vp.sigma.ravel(),
                "ell": h[0, :D][q], "om": h[0, n + 2 + D:][q], "xm": h[0, n + 2:n + 2 + D][q] * sg, "m0": h[0, n + 1], "rest": same,
                "coords": vp.parameter_transformer == self.pt}


def run(c):
    r = vlib.tlc("Whiten", constants=dict(Dims={2, 3}, Sim=True), invariants=["Emit"], simulate=12000 if c.thorough else 1500, depth=4)
    c.model(r, "Whiten simulation")
    c.replay(r.behaviours, Whiten, "reparameterisation", procs=8, tol=(1e-6, 1e-6))
    c.binding_selftest(r.behaviours[:10], Whiten, "reparameterisation", tol=(1e-6, 1e-6))
    loopcheck.loop(c, ["warp", "warp", "any"], FIELDS, 450, 4000, reload=True)
    tracesys.real_runs(c, "P12")


if __name__ == "__main__":
    vlib.main("P12", run)
