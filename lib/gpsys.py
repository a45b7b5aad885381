"""The real surrogate training driven by behaviours of GPTrain.tla (fitting replaced)."""
import copy
import inspect
import logging
import numpy as np
import gpyreg as gpr
import vlib
from vlib import num, CannotBind
from pyvbmc import VBMC
from pyvbmc.stats import get_hpd
import pyvbmc.vbmc.gaussian_process_train as G

logging.disable(logging.CRITICAL)
SIG = inspect.signature(gpr.GP.fit)


class OldGP:
    def __init__(self, rows):
        self.rows = rows

    def get_hyperparameters(self, as_array=False):
        return self.rows.copy()


class GPs:
    def __init__(self, b):
        pass

    def do(self, st):
        with np.errstate(all="ignore"):
            return getattr(self, st["op"])(st["a"], st["exp"])

    def setup(self, a, exp):
        c = self.c = a["cf"]
        D = self.D = c["D"]
        o = dict(ns_gp_max=c["nsmax"], ns_gp_max_warmup=c["nswarm"], ns_gp_max_main=c["nsmain"], stable_gp_sampling=c["stableN"], stable_gp_vp_k=c["stableK"],
                 stable_gp_samples=c["stableS"], gp_sample_thin=c["thin"], gp_train_n_init=c["n0"], gp_train_n_init_final=c["nf"], gp_retrain_threshold=c["retrain"],
                 max_fun_evals=c["maxfe"], fun_eval_start=c["fe0"], weighted_hyp_cov=c["wcov"], hyp_run_weight=c["rw"] / 10, fun_evals_per_iter=c["fe"],
                 gp_sample_widths=c["sw"], tol_skl=1, tol_cov_weight=1 / c["tw"] if c["tw"] else 0)
        if c["lvl"] == 2:
            o["specify_target_noise"] = True
        if c["lvl"] == 1:
            o["uncertainty_handling"] = [1]
        one = np.ones((1, D))
        self.v = VBMC(lambda x: 0.0, 0 * one, None, None, -one, one, options=o)
        self.L = self.v.function_logger
        self.gp, self.rc = None, None
        return {"ok": True}

    def pt(self, i):
        return np.array([np.sin(i * (d + 1.7)) * 1.5 for d in range(self.D)])

    def grow(self, a, exp):
        for o in a["new"]:
            for y, s in zip(o["ys"], o["ss"]):
                self.L.add(self.pt(o["id"]), y / 16, s / 8 if self.c["lvl"] == 2 else None)
        n = len(a["flags"])
        self.L.X_flag[:] = False
        self.L.X_flag[:n] = a["flags"]
        return {"data": self.data(*G._get_training_data(self.L)[:3]), "n": int(self.L.Xn) + 1}

    def data(self, X, y, s2):
        """Point ids (matching the stored original points), original values, noise."""
        L = self.L
        n = L.Xn + 1
        ids = []
        for r in np.atleast_2d(X):
            k = [i for i in range(n) if np.array_equal(L.X[i], r)]
            ids.append(k[0] + 1 if len(k) == 1 else -1)
        ok = all(i > 0 and np.allclose(L.X[i - 1], self.pt(i)) for i in ids)
        y = np.ravel(y)
        if len(y) != len(ids) or not ok:
            return "misplaced data"
        # without the volume correction
        J = np.array([float(np.ravel(L.parameter_transformer.log_abs_det_jacobian(L.X[i - 1:i]))[0]) for i in ids])
        return {"ids": ids, "y": y - J, "s2": [] if s2 is None else np.ravel(s2)}

    def snap(self):
        L = self.L
        return [np.array(getattr(L, k), copy=True) for k in ("X", "y", "S", "X_flag", "X_orig", "y_orig", "n_evals") if getattr(L, k, None) is not None]

    def same(self, was):
        return bool(all(np.array_equal(p, q, equal_nan=p.dtype.kind == "f") for p, q in zip(was, self.snap())))

    def full(self, i, n):
        return i * (1 + np.arange(n) / 4.0)

    def train(self, a, exp):
        s, c, v = a["st"], self.c, self.v
        o = v.optim_state
        D = self.D
        nn = {0: 1, 1: 2, 2: 1}[c["lvl"]]
        nh = D + 1 + nn + 1 + 2 * D
        v.iteration_history = copy.copy(v.iteration_history)
        from pyvbmc.vbmc.iteration_history import IterationHistory
        H = IterationHistory(["r_index", "gp", "sKL", "gp_hyp_full"])
        for k, rows in enumerate(s["hyps"]):
            R = np.array([self.full(i, nh) for i in rows])
            H.record("gp", OldGP(R), k)
            H.record("r_index", s["r"] / 4 if k == len(s["hyps"]) - 1 else 0.5, k)
            H.record("gp_hyp_full", R, k)
            H.record("sKL", s["skl"][len(s["hyps"]) - 1 - k] / 16, k)
        o.update(iter=s["it"], N=s["N"], n_eff=s["neff"], warmup=s["warm"], vp_K=s["K"], stop_sampling=s["stop"], recompute_var_post=s["full"])
        got = {}

        def fit(gp, *p, **k):
            b = SIG.bind(gp, *p, **k)
            b.apply_defaults()
            got.update(b.arguments)
            h = np.zeros((len(a["h"]), nh))
            for r, t in zip(h, a["h"]):
                r[D + 1] = t[0] / 8
                if nn == 2:
                    r[D + 2] = t[1] / 8
            s2 = got["s2"]
            gp.update(X_new=got["X"], y_new=got["y"], s2_new=s2, hyp=h)
            return h, None, {"samples": np.repeat(h, a["rep"], axis=0), "log_priors": np.zeros(a["rep"] * len(h))}

        hd = {"hyp": np.atleast_2d(self.full(s["cur"], nh)), "run_cov": self.rc}
        was = self.snap()
        with vlib.stubs((gpr.GP, "fit", fit)):
            gp, ns, sn2, hd = G.train_gp(hd, o, self.L, H, v.options, o["plb_tran"], o["pub_tran"])
        if "options" not in got:
            raise CannotBind("GP.fit")
        self.gp = gp
        self.rc = hd["run_cov"]
        t = got["options"]
        # proposal widths: in one coordinate, and whether those of the others correspond
        mult = max(c["sw"], s["r"] / 4)
        wid, okw = np.nan, True
        if t.get("widths") is not None and "wid" in exp:
            W = np.ravel(t["widths"])
            wid = float(W[0 if c["wcov"] else D + 1]) if W.size == nh else -1.0
            e = num(exp["wid"])
            wid = e if abs(wid - e) < 1e-6 * abs(e) else wid     # (differences of near numbers)
            if W.size == nh:
                f = 1 + np.arange(nh) / 4
                if c["wcov"]:
                    okw = bool(wid / mult < 1.001e-3 or np.allclose(W / wid, f, rtol=1e-5))
                else:
                    okw = bool(np.allclose(np.delete(W, [D + 1, D + 2] if nn == 2 else [D + 1]), 1e-3 * mult))
        cur = int(s["cur"])
        h0 = np.full((1, nh), -1.0) if got["hyp0"] is None else np.atleast_2d(got["hyp0"])
        rows = [int(round(r[0])) for r in h0]
        okrows = h0.shape[1] == nh and all(np.allclose(r, self.full(i, nh)) for r, i in zip(h0, rows))
        pool = a["pool"]
        lim = num(a["initN"]) / 2
        cnt = len(pool) if len(pool) <= lim else int(-(-lim // 1))
        fi = bool(okrows and cur in rows and len(set(rows)) == len(rows) and set(rows) <= set(pool) | {cur} and len(rows) == cnt + 1)
        # median over the top observations, where the values leave no doubt which these are
        ys = [num(y) for y in a["ys"]]
        n = a["top"]
        top = sorted(range(len(ys)), key=lambda i: -ys[i])
        if len(top) == n or ys[top[n - 1]] > ys[top[n]] + 1e-9:
            exp["sn2"] = float(np.median([num(a["noise"][i]) for i in top[:n]]))
        d = self.data(got["X"], got["y"], got["s2"])
        if diffdata(d, self.data(gp.X, gp.y, gp.s2)):
            d = "the surrogate holds other data"
        self.exph = len(a["h"])
        return {"data": d, "ns": float(t["n_samples"]), "nsret": float(ns), "initN": float(t["init_N"]), "optsN": int(t["opts_N"]), "burn": float(t["burn"]), "thin": t["thin"],
                "frominit": fi, "log": self.same(was), "hyp": bool(np.array_equal(hd["hyp"], gp.get_hyperparameters(as_array=True))), "wid": wid, "widths": okw,
                "sn2": float(sn2)}

    def reupdate(self, a, exp):
        was = self.snap()
        h = self.gp.get_hyperparameters(as_array=True)
        gp = G.reupdate_gp(self.L, self.gp)
        d = self.data(gp.X, gp.y, gp.s2)
        fresh = gpr.GP(D=self.D, covariance=gp.covariance, mean=gp.mean, noise=gp.noise)
        X, y, s2 = [None if z is None else np.array(z, copy=True) for z in G._get_training_data(self.L)[:3]]
        fresh.update(X_new=X, y_new=y, s2_new=s2, hyp=h)
        p = np.array([self.pt(i + 0.5) for i in range(4)])
        ok = all(np.allclose(i, j, atol=1e-8) for i, j in zip(gp.predict(p), fresh.predict(p))) and np.array_equal(h, gp.get_hyperparameters(as_array=True))
        self.gp = gp
        return {"data": d, "fresh": bool(ok), "log": self.same(was)}

    def hyp(self, a, exp):
        o = a["o"]
        D, lvl = o["D"], o["lvl"]
        ys, xs = np.array(o["ys"]) / 16, np.array(o["xs"], dtype=float).reshape(-1, D) / 8
        op = dict(gp_mean_fun=o["mean"], tol_gp_noise=1 / o["tol"], upper_gp_length_factor=o["factor"] / 4, gp_length_prior_mean=o["lmean"] / 8,
                  gp_length_prior_std=o["lstd"] / 4, gp_quadratic_mean_bound=o["qb"], tol_sd=o["tolsd"] / 16, hpd_frac=o["f"] / 16, weighted_hyp_cov=False)
        if o["noise"]:
            op["noise_size"] = o["noise"] / 16
        if lvl == 2:
            op["specify_target_noise"] = True
        if lvl == 1:
            op["uncertainty_handling"] = [1]
        one = np.ones((1, D))
        v = VBMC(lambda x: 0.0, 0 * one, None, None, -one / 2, one / 2, options=op)
        L, s = v.function_logger, v.optim_state
        for x, y in zip(xs, ys):
            L.add(x, y, 0.5 if lvl == 2 else None)
        n = len(ys)
        s.update(iter=0, N=n, n_eff=n, vp_K=2)
        got = {}

        def fit(gp, *p, **k):
            b = SIG.bind(gp, *p, **k)
            b.apply_defaults()
            got.update(b.arguments, lb=np.array(gp.lower_bounds), ub=np.array(gp.upper_bounds), pr={q: np.array(z) for q, z in gp.hyper_priors.items()})
            h = np.zeros((1, len(got["lb"])))
            gp.update(X_new=got["X"], y_new=got["y"], s2_new=got["s2"], hyp=h)
            return h, None, {"samples": h, "log_priors": np.zeros(1)}

        w = np.array([o["ws"]]) / 8
        with vlib.stubs((gpr.GP, "fit", fit)):
            gp = G.train_gp({}, s, L, v.iteration_history, v.options, -w / 4, 3 * w / 4)[0]
        if "options" not in got:
            raise CannotBind("GP.fit")
        lb, ub, pr = got["lb"], got["ub"], got["pr"]
        nn = {0: 1, 1: 2, 2: 1}[lvl]
        m = D + 1 + nn
        P = lambda i: {"mu": float(pr["mu"][i]), "sd": float(pr["sigma"][i]), "df": float(pr["df"][i])}
        # everything else is left to the surrogate's defaults
        rest = [i for i in range(len(lb)) if i > D + 1 and i != m]
        noprior = [D] + [i for i in range(len(lb)) if i > D + 1 and not (lvl == 1 and i == D + 2)]
        free = all(np.isnan(lb[i]) and np.isnan(ub[i]) for i in rest) and all(not np.isfinite(pr["mu"][i]) and not np.isfinite(pr["a"][i]) for i in noprior)
        k = [i - 1 for i in a["top"]]
        X, y = xs[k], ys[k].reshape(-1, 1)
        first = np.concatenate([gp.covariance.get_bounds_info(X, y)["x0"], gp.noise.get_bounds_info(X, y)["x0"], gp.mean.get_bounds_info(X, y)["x0"]])
        h0 = np.ravel(got["hyp0"]) if got["hyp0"] is not None else np.zeros(0)
        ok = len(h0) == len(first) and np.allclose(np.delete(h0, D + 1), np.delete(first, D + 1))
        zero = o["mean"] == "zero"
        return {"mean": {"ZeroMean": "zero", "ConstantMean": "const", "NegativeQuadratic": "negquad"}.get(type(gp.mean).__name__),
                "cov": "se" if isinstance(gp.covariance, gpr.covariance_functions.SquaredExponential) else "other",
                "noisepar": [int(q) for q in gp.noise.parameters][:3], "lenLB": lb[:D], "lenUB": ub[:D], "outLB": lb[D], "outUB": ub[D], "noiseLB": lb[D + 1], "noiseUB": ub[D + 1],
                "meanLB": np.nan if zero else lb[m], "meanUB": np.nan if zero else ub[m], "others": bool(free), "lenP": [P(i) for i in range(D)], "noiseP": P(D + 1),
                "multP": P(D + 2) if lvl == 1 else "none", "noise0": h0[D + 1] if ok else None, "guess": bool(ok)}

    def hpd(self, a, exp):
        y = np.array(a["ys"], dtype=float).reshape(-1, 1) / 2
        N, D = len(y), a["D"]
        X = np.array([[10.0 * i + d for d in range(D)] for i in range(N)])
        was = X.copy(), y.copy()
        hx, hy, r, ix = get_hpd(X, y, a["f"] / 16)
        n = len(ix)
        lo, hi = a["n"]
        top = [2 * float(v) for v in np.ravel(hy)]
        res = {"n": bool(lo <= n <= hi), "top": top[:lo], "last": top[lo:] == a["sorted"][lo:n],
               "rows": bool(np.array_equal(hx, X[ix]) and np.array_equal(np.ravel(hy), y[ix].ravel()) and hx.shape == (n, D)), "distinct": len(set(ix.tolist())) == n,
               "range": bool((n == 0 and np.all(np.isnan(r)) and r.shape == (D,)) or (n > 0 and np.array_equal(r, hx.max(0) - hx.min(0)))),
               "same": bool(np.array_equal(was[0], X) and np.array_equal(was[1], y))}
        return res


def diffdata(a, b):
    return vlib.diff(vlib.plain(a), vlib.plain(b))
