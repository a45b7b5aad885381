import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import logging
import numpy as np
import gpyreg as gpr
import vlib
import pyvbmc.acquisition_functions as AF
from pyvbmc import VBMC
from pyvbmc.vbmc.active_importance_sampling import active_importance_sampling, fess

logging.disable(logging.CRITICAL)


class Points:
    def __init__(self, b):
        pass

    def do(self, st):
        with np.errstate(all="ignore"):
            return getattr(self, "do_" + st["op"])(st["a"], st["exp"])

    def make(self, a):
        D = a["D"]
        g = gpr.GP(D=D, covariance=gpr.covariance_functions.SquaredExponential(), mean=gpr.mean_functions.ZeroMean(), noise=gpr.noise_functions.GaussianNoise(constant_add=True))
        X = np.array(a["X"], dtype=float) / 4
        y = np.where(np.arange(2) == 0, -1.0, 1.0).reshape(-1, 1)
        hyp = np.array([[x / 4 for x in h["l"]] + [h["f"] / 4, h["s"]] for h in a["hs"]], dtype=float)
        g.update(X_new=X, y_new=y, hyp=hyp)
        one = np.ones((1, D))
        v = VBMC(lambda x: 0.0, 0 * one, None, None, -one, one)
        m = a["mix"]
        vp = v.vp
        K = m["K"]
        vp.K = K
        vp.mu = np.array(m["mu"], dtype=float).T / 4
        vp.sigma = np.array(m["sg"], dtype=float).reshape(1, K) / 4
        vp.lambd = np.array(m["la"], dtype=float).reshape(D, 1) / 3
        vp.w = np.array(m["w"], dtype=float).reshape(1, K) / sum(m["w"])
        vp.eta = np.log(vp.w)
        return D, g, v, X

    def state(self, g, v):
        return [x.copy() for x in (g.X, g.y, v.vp.mu, v.vp.sigma, v.vp.lambd, v.vp.w, *[p.hyp for p in g.posteriors], *[p.alpha for p in g.posteriors])] + [v.vp.K, len(g.posteriors)]

    def kept(self, was, g, v):
        return all(np.array_equal(x, y) for x, y in zip(was, self.state(g, v)))

    def bind(self, X, D):
        for s in range(len(X)):
            for j in range(len(X[s])):
                for d in range(D):
                    vlib.ENV["$x%d_%d_%d" % (s + 1, j + 1, d + 1)] = float(X[s][j][d])

    def options(self, v, a):
        for k, x in (("vp_samples", a["nv"]), ("box_samples", a["nb"]), ("mcmc_samples", a["nm"]), ("mcmc_thin", a.get("thin", 1))):
            v.options.__setitem__("active_importance_sampling_" + k, x, force=True)

    def inside(self, B, X):
        h = 2 * np.std(X, axis=0, ddof=1)
        return bool(all(any(np.all(np.abs(b - x) <= h * (1 + 1e-12)) for x in X) for b in B))

    def do_points(self, a, exp):
        D, g, v, X = self.make(a)
        self.options(v, a)
        np.random.seed(a["seed"])
        acq = getattr(AF, a["kind"])(a["q"] / 100)
        was = self.state(g, v)
        r = active_importance_sampling(v.vp, g, acq, v.options)
        same = self.kept(was, g, v)
        P = np.array(r["X"])
        shape = list(P.shape)
        ns = len(g.posteriors)
        W = np.array(r["ln_weights"])
        n = W.shape[1]
        Ps = P if P.ndim == 3 else np.array([P] * ns)
        self.bind(Ps, D)
        for s in range(ns):
            for j in range(n):
                vlib.ENV["$w%d_%d" % (s + 1, j + 1)] = float(W[s, j])
        if P.ndim == 3:
            diam = np.ptp(X, axis=0)
            ins = bool(np.all(Ps >= X.min(0) - 0.5 * diam - 1e-9) and np.all(Ps <= X.max(0) + 0.5 * diam + 1e-9))
        else:
            ins = self.inside(P[a["nv"]:], X) if a["kind"] == "AcqFcnIMIQR" else True
        o = v.optim_state
        o["variance_regularized_acq_fcn"] = False
        o["active_importance_sampling"] = r
        o["gp_length_scale"] = np.ones(D)
        g.temporary_data["X_rescaled"] = X.copy()
        g.temporary_data["sn2_new"] = np.array(a["sn"], dtype=float) / 16
        val = [float(x) for x in np.ravel(acq(np.array(a["xs"], dtype=float) / 4, g, v.vp, v.function_logger, o))]
        val = ["finite" if t and np.isfinite(x) else x for x, t in zip(val, a["tie"])]
        return {"shape": shape, "rel": W - W[0, 0], "total": float(np.sum(np.exp(W))), "var": np.array(r["f_s2"]), "cov": np.array(r["K_Xa_X"]), "inside": ins, "vals": val, "same": same}

    def do_spread(self, a, exp):
        D, g, v, X = self.make(a)
        n = a["n"]
        self.options(v, dict(nv=n, nb=n, nm=0))
        np.random.seed(a["seed"])
        P = active_importance_sampling(v.vp, g, AF.AcqFcnIMIQR(), v.options)["X"]
        B, h = P[n:], 2 * np.std(X, axis=0, ddof=1)
        V = (P[:n].T[:, :, None] - v.vp.mu[:, None, :]) / v.vp.lambd[:, :, None]
        return {"low": [bool(np.any(B[:, d] < X[0, d] - h[d] / 2)) for d in range(D)], "high": [bool(np.any(B[:, d] > X[1, d] + h[d] / 2)) for d in range(D)],
                "inside": self.inside(B, X), "far": [bool(np.any(np.min(np.abs(V[d]), axis=1) > 0.5)) for d in range(D)]}

    def do_fess(self, a, exp):
        D, g, v, X = self.make(a)
        n = a["n"]
        np.random.seed(a["seed"])
        was = self.state(g, v)
        if a["form"] == "number":
            real, got = v.vp.sample, []

            def sample(*p, **k):
                got.append(real(*p, **k))
                return got[-1]
            v.vp.sample = sample
            f = fess(v.vp, g, n)
            P = got[-1][0]
            del v.vp.sample
        else:
            P = np.random.uniform(-2, 2, (n, D))
            P0 = P.copy()
            try:
                if a["form"] == "points":
                    f = fess(v.vp, g, P)
                else:
                    mu, __ = g.predict(P, separate_samples=True)
                    f = fess(v.vp, np.concatenate([mu, mu[:1]]) if a["bad"] else mu, P)
            except ValueError:
                return {"err": "ValueError", "value": 0, "same": self.kept(was, g, v)}
            if not np.array_equal(P, P0):
                return {"err": "", "value": float(f), "same": False}
        self.bind([P], D)
        return {"err": "", "value": float(f), "same": self.kept(was, g, v)}

    def do_bad(self, a, exp):
        D, g, v, X = self.make(a)
        self.options(v, dict(nv=1, nb=1, nm={"zero": 0, "negative": -3, "inf": np.inf}[a["v"]]))
        try:
            active_importance_sampling(v.vp, g, AF.AcqFcnVIQR(), v.options)
        except ValueError:
            return {"err": "some" if a["v"] == "inf" else "ValueError"}
        except Exception:
            return {"err": "some"}
        return {"err": ""}


def run(c):
    q = 8 if c.thorough else 1
    b = vlib.tlc_many("Importance", [dict(seed=vlib.SEED * 67 + j, simulate=30 * q) for j in range(8)], constants=dict(Depth=5, Sim=True), invariants=["Emit"], depth=10)
    c.model(b, "Importance simulation")
    c.replay(b.behaviours, Points, "importance points", procs=8, budget=500, tol=(1e-6, 1e-8))
    c.binding_selftest(b.behaviours[:10], Points, "importance points", tol=(1e-6, 1e-8))


if __name__ == "__main__":
    vlib.main("P31", run)
