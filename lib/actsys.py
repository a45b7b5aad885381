"""The real acquisition of data driven by behaviours of Active.tla."""
import importlib
import logging
import numpy as np
import cma
import scipy.optimize
import gpyreg as gpr
import vlib
from vlib import num, CannotBind
from pyvbmc import VBMC
from pyvbmc.acquisition_functions import AbstractAcqFcn
import pyvbmc.vbmc.active_sample    # noqa
import pyvbmc.vbmc.gaussian_process_train as G

A = importlib.import_module("pyvbmc.vbmc.active_sample")
logging.disable(logging.CRITICAL)
FAR = 1e7


class OldGP:
    def __init__(self, rows):
        self.rows = rows

    def get_hyperparameters(self, as_array=False):
        return self.rows.copy()


class Scripted(AbstractAcqFcn):
    def __init__(self, sysm):
        super().__init__()
        self.sysm = sysm

    def _compute_acquisition_function(self, Xs, vp, gp, *p, **k):
        return self.sysm.values(Xs, gp)


class Act:
    def __init__(self, b):
        pass

    def do(self, st):
        with np.errstate(all="ignore"):
            return getattr(self, st["op"])(st["a"], st["exp"])

    # ---- the target
    def target(self, x):
        x = np.atleast_1d(np.array(x, dtype=float))
        self.calls.append(x.copy())
        i = len(self.calls) - 1
        y, s = self.script(i, x)
        return (y / 16, s / 8) if self.c["lvl"] == 2 else y / 16

    def build(self, c, x0, extra):
        self.c = c
        D = self.D = c["D"]
        one = np.ones((1, D))
        T = np.array([t != "u" for t in c["ty"]]) * one.astype(bool)
        lb, ub = np.where(T, -3.5, -np.inf), np.where(T, 3.5, np.inf)
        o = dict(extra)
        if c["lvl"] == 2:
            o["specify_target_noise"] = True
        if c["lvl"] == 1:
            o["uncertainty_handling"] = [1]
        if c["tol"] == "wide":
            o["tol_bound_x"] = 0.1
        if any(t == "i" for t in c["ty"]):
            o["integer_vars"] = np.array([t == "i" for t in c["ty"]])
        pl = np.where(T, 2.0, 1.0)
        self.calls = []
        self.v = VBMC(self.target, x0, lb, ub, -pl, pl, options=o)
        self.L = self.v.function_logger
        self.lb, self.ub = lb, ub

    def inside(self):
        return bool(all(np.all(np.isfinite(x)) and np.all(x > self.lb[0]) and np.all(x < self.ub[0]) for x in self.calls))

    # ---- views
    def view(self, idx, X, y, s2):
        """Original locations, original values, noise variances, given transformed data."""
        pt = self.L.parameter_transformer
        X = np.atleast_2d(X)
        y = np.ravel(y) - np.ravel(pt.log_abs_det_jacobian(X))
        return {"x": pt.inverse(X), "y": y, "s2": [] if s2 is None else np.ravel(s2), "n": idx}

    def log(self, m=None):
        L = self.L
        n = L.Xn + 1 if m is None else m
        s2 = np.ravel(L.S[:n]) ** 2 if L.noise_flag else None
        r = self.view([int(k) for k in np.ravel(L.n_evals[:n])], L.X[:n], L.y[:n], s2)
        if not (np.allclose(r["x"], L.X_orig[:n], atol=1e-7) and np.allclose(r["y"], np.ravel(L.y_orig[:n]), atol=1e-7)):
            return "original and transformed values differ"
        return r

    # ---- initial design
    def init(self, a, exp):
        c = a["cf"]
        xs = np.array(a["xs"], dtype=float) / 8
        ev = a["ev"]
        hasv = [t["has"] for t in a["vals"]]
        design = {"other": "sobol"}.get(a["design"], a["design"])
        e = dict(fun_eval_start=a["n0"], init_design=design)
        fv = np.array([t["y"] / 16 if t["has"] else np.nan for t in a["vals"]])
        if a["given"] == "bad":
            fv = np.append(np.nan_to_num(fv), 1.0)
        if a["given"] != "none":
            e["f_vals"] = fv

        def script(i, x):
            k = [j for j in range(len(xs)) if np.allclose(xs[j], x, atol=1e-9)]
            k = [j for j in k if not hasv[j]]
            # repeated points: in order
            if k:
                t = ev[k[min(len([q for q in self.calls[:-1] if np.allclose(q, x, atol=1e-9)]), len(k) - 1)]]
                return t["y"], t["s"]
            return 0, 8
        self.script = script
        x0 = xs.copy()
        try:
            self.build(c, x0, e)
        except ValueError as err:
            return {"err": "ValueError", "at": "construction"}
        v, L = self.v, self.L
        o = v.optim_state
        try:
            A.active_sample(None, a["n0"], o, L, v.iteration_history, v.vp, v.options)
        except ValueError as err:
            return {"err": "ValueError", "at": "sampling", "calls": len(self.calls)}
        if "err" in exp:
            return {"calls": len(self.calls)}
        nc = len(exp["calls"])
        n = L.Xn + 1
        m = len(exp["log"]["n"])
        pt = L.parameter_transformer
        R = L.X[m:n]
        pl, pu = o["plb_tran"], o["pub_tran"]
        narrow = inbox = spread = True
        if len(R):
            inbox = bool(np.all(R >= pl - 1e-9) and np.all(R <= pu + 1e-9))
            if a["design"] == "narrow":
                x1 = pt(xs[:1])
                near = np.minimum(np.maximum(x1, pl), pu)
                narrow = bool(np.all(np.abs(R - near) <= 0.05 * (pu - pl) + 1e-9))
                w = np.minimum(x1 + 0.05 * (pu - pl), pu) - np.maximum(x1 - 0.05 * (pu - pl), pl)
            else:
                w = pu - pl
            if len(R) > 100:
                # outside points end up on the edge; otherwise the points fill their box
                spread = bool(np.all(np.ptp(R, axis=0) >= 0.6 * w[0])) and len(np.unique(R, axis=0)) == len(R)
        return {"calls": self.calls[:nc], "rest": len(self.calls) - nc, "inside": self.inside() and inbox, "spread": spread, "narrow": narrow, "log": self.log(m), "total": n,
                "evals": int(L.func_count), "added": int(L.cache_count), "cache": len(o["cache"]["x_orig"]) + len(o["cache"]["y_orig"]), "x0": bool(np.array_equal(x0, xs))}

    # ---- active sampling
    def start(self, a, exp):
        c = a["cf"]
        xs = np.array(a["pts"], dtype=float) / 8
        self.build(c, np.zeros((1, c["D"])), dict(search_optimizer="none", cache_frac=0, search_cache_frac=1, heavy_tail_search_frac=0, mvn_search_frac=0,
                                                 hpd_search_frac=0, box_search_frac=0, active_sample_gp_update=True, weighted_hyp_cov=False))
        self.script = lambda i, x: (a["ev"][i]["y"], a["ev"][i]["s"])
        for x in xs:
            self.L(self.L.parameter_transformer(x.reshape(1, -1))[0])
        v = self.v
        v.options.__setitem__("search_acq_fcn", [Scripted(self)], force=True)
        o = v.optim_state
        o["variance_regularized_acq_fcn"] = False
        o["cache"]["x_orig"] = np.zeros((0, self.D))
        o["cache"]["y_orig"] = np.zeros(0)
        o.update(iter=0, N=len(xs), n_eff=len(xs), vp_K=1)
        self.hyp = None
        self.gp = self.train()
        return {"log": self.log()}

    def fit(self, gp, *p, **k):
        b = G_SIG.bind(gp, *p, **k)
        b.apply_defaults()
        t = b.arguments
        nh = self.nh()
        h = np.zeros((2, nh))
        h[1] += 0.25
        h[:, self.D + 1] = (-1, -2)
        gp.update(X_new=t["X"], y_new=t["y"], s2_new=t["s2"], hyp=h)
        return h, None, {"samples": h.copy(), "log_priors": np.zeros(2)}

    def nh(self):
        return self.D + 1 + {0: 1, 1: 2, 2: 1}[self.c["lvl"]] + 1 + 2 * self.D

    def train(self):
        v = self.v
        o = v.optim_state
        from pyvbmc.vbmc.iteration_history import IterationHistory
        H = IterationHistory(["r_index", "gp", "sKL", "gp_hyp_full"])
        for i in range(6):
            H.record("r_index", 1.0, i)
            H.record("sKL", 0.1, i)
            H.record("gp", OldGP(np.zeros((1, self.nh()))), i)
            H.record("gp_hyp_full", np.zeros((1, self.nh())), i)
        v.iteration_history = H
        hd = {"hyp": np.zeros((1, self.nh())), "run_cov": None}
        with vlib.stubs((gpr.GP, "fit", lambda g, *p, **k: self.fit(g, *p, **k))):
            gp, ns, sn2, hd = G.train_gp(hd, o, self.L, H, v.options, o["plb_tran"], o["pub_tran"])
        o["hyp_dict"] = hd
        o["sn2_hpd"] = sn2
        return gp

    def values(self, Xs, gp):
        i = len(self.calls)
        a = self.a
        r = a["rs"][min(i, len(a["rs"]) - 1)]
        if i not in self.seen:
            w = self.view([], gp.X, gp.y, gp.s2)
            # repeated observations are not visible in the surrogate itself
            L = self.L
            n = L.Xn + 1
            w["n"] = [int(k) for k in np.ravel(L.n_evals[:n])]
            self.seen[i] = w
            nn = gp.noise.hyperparameter_count()
            cn = gp.covariance.hyperparameter_count(gp.D)
            S = np.ravel(L.S[:n]) ** 2 * np.ravel(L.n_evals[:n]) if L.noise_flag else None
            ex = np.mean([np.ravel(gp.noise.compute(p.hyp[cn:cn + nn], gp.X, gp.y, None if S is None else S.reshape(-1, 1)) * np.ones((n, 1))) for p in gp.posteriors], axis=0)
            t = np.ravel(gp.temporary_data.get("sn2_new"))
            self.noise &= t.shape == ex.shape and bool(np.allclose(t, ex))
            # the surrogate answers for the data it holds
            mu, _ = gp.predict(gp.X, separate_samples=True)
            f = gpr.GP(D=self.D, covariance=gp.covariance, mean=gp.mean, noise=gp.noise)
            f.update(X_new=gp.X.copy(), y_new=gp.y.copy(), s2_new=None if gp.s2 is None else gp.s2.copy(), hyp=gp.get_hyperparameters(as_array=True))
            self.fresh &= bool(np.allclose(mu, f.predict(gp.X, separate_samples=True)[0], atol=1e-6))
        X = self.L.parameter_transformer.inverse(np.atleast_2d(Xs)) * 8
        out = []
        for x in X:
            k = [j for j, p in enumerate(a["lc"]) if np.allclose(p, x, atol=1e-5)]
            if k:
                out.append(float(r["vs"][k[0]]))
            elif r["opt"]["on"] and np.allclose(r["opt"]["x"], x, atol=1e-5):
                out.append(float(r["opt"]["v"]))
            else:
                out.append(FAR)
        return np.array(out)

    def bounds(self):
        o = self.v.optim_state
        l, u = np.ravel(o["lb_search"]), np.ravel(o["ub_search"])
        return [[float(l[d]), float(u[d])] if self.c["ty"][d] == "u" else [] for d in range(self.D)]

    def step(self, a, exp):
        v, L, D, pt = self.v, self.L, self.D, self.L.parameter_transformer
        self.a = a
        o = v.optim_state
        self.calls, self.seen, self.noise, self.fresh = [], {}, True, True
        rs = a["rs"]
        self.script = lambda i, x: (rs[min(i, len(rs) - 1)]["y"], rs[min(i, len(rs) - 1)]["s"])
        cs = np.array(a["cs"], dtype=float) / 8
        o["search_cache"] = pt(cs)
        S = v.options.__setitem__
        S("ns_search", len(cs), force=True)
        S("search_optimizer", "none" if a["opt"] == "none" else "cmaes", force=True)
        o.update(iter=5, last_warmup=4 if a["full"] else -10)
        used, bnd = [0], []

        def local(fun, x0, *p, **k):
            used[0] += 1
            r = rs[min(len(self.calls), len(rs) - 1)]
            ob = k.get("options") or {}
            if "bounds" in ob:
                l, u = [np.ravel(q) for q in ob["bounds"]]
                bnd.append([[float(l[d]), float(u[d])] if self.c["ty"][d] == "u" else [] for d in range(D)])
            x = pt(np.array([r["opt"]["raw"]], dtype=float) / 8)[0] if r["opt"]["on"] else np.array(x0, dtype=float)
            return x, float(fun(x.copy()))

        class Res(dict):
            __getattr__ = dict.__getitem__

        def mini(fun, x0, *p, **k):
            x, f = local(fun, x0)
            return Res(x=x, fun=f, success=True)

        st = [(gpr.GP, "fit", lambda g, *p, **k: self.fit(g, *p, **k)), (cma, "fmin", local), (scipy.optimize, "minimize", mini)]
        st += [(A, n, f) for n, f in (("fmin", local), ("minimize", mini)) if hasattr(A, n)]
        # the surrogate in step with the log (as after training at the start of the iteration)
        self.gp = self.train()
        b4 = self.bounds()
        with vlib.stubs(*st):
            _, _, vp, gp = A.active_sample(self.gp, a["k"], o, L, v.iteration_history, v.vp, v.options)
        if a["opt"] != "none" and not used[0]:
            raise CannotBind("local search")
        ints = [d for d in range(D) if self.c["ty"][d] == "i"]
        intok = all(abs(x[d] - np.round(x[d])) < 1e-9 for x in self.calls for d in ints)
        return {"calls": self.calls, "log": self.log(), "gp": [self.seen.get(i) for i in range(a["k"])], "box": self.bounds(),
                "bnd": bnd, "inside": self.inside(), "intok": bool(intok), "noise": bool(self.noise), "fresh": bool(self.fresh)}

    # ---- updates between the samples
    def full(self, a, exp):
        v, L, D, pt = self.v, self.L, self.D, self.L.parameter_transformer
        o, K = v.optim_state, a["K"]
        self.a = dict(rs=[{"vs": [0 if j == i else 10 + j for j in range(len(a["lc"]))], "opt": {"on": False}} for i in range(a["k"])], lc=a["lc"])
        self.calls, self.seen, self.noise, self.fresh = [], {}, True, True
        self.script = lambda i, x: (a["ev"][min(i, a["k"] - 1)]["y"], a["ev"][min(i, a["k"] - 1)]["s"])
        o["search_cache"] = pt(np.array(a["cs"], dtype=float) / 8)
        S = v.options.__setitem__
        # settings of active sampling (second) against the usual ones
        two = dict(gp_tol_opt=("gp_tol_opt_active", 1e-5, 2e-4), gp_tol_opt_mcmc=("gp_tol_opt_mcmc_active", 1e-3, 2e-2), ns_ent=("ns_ent_active", 11, 12),
                   ns_ent_fast=("ns_ent_fast_active", 21, 22), ns_ent_fine=("ns_ent_fine_active", 31, a["fine"]))
        for k, (k2, x, y) in two.items():
            S(k, x, force=True)
            S(k2, y, force=True)
        for k, x in dict(tol_weight=0.01, ns_elbo=lambda K: 7 * K, ns_elbo_incr=a["incr"] / 10, ns_search=a["k"], search_optimizer="none", active_sample_gp_update=a["gpu"], active_sample_vp_update=a["vpu"],
                         active_sample_full_update_past_warmup=a["past"], active_sample_full_update_threshold=a["thr"], update_random_alpha=a["rand"]).items():
            S(k, x, force=True)
        was = {k: v.options[k] for k in v.options if k != "useroptions"}
        o.update(iter=6, last_warmup=6 - a["gap"], recompute_var_post=a["rec"], entropy_alpha=a["alpha"])
        o.pop("vp_repo", None)
        self.gp = self.train()
        v.iteration_history["r_index"][-1] = float(a["r"])
        vp = v.vp
        vp.K = K
        vp.mu = np.zeros((D, K))
        vp.sigma = np.full((1, K), 0.3)
        vp.w = np.full((1, K), 1 / K)
        vp.eta = np.full((1, K), 1 / K)
        vp.stats = {"elbo": -1e9}
        ev, sets, starts, gpn, cmp, alphas, fits = [], [], [], [], [], [True], [0]

        def state(op):
            s = {k: op[k] for k in two}
            if s == {k: x[2] for k, x in two.items()} and op["tol_weight"] == 0:
                return "active"
            return "other"

        def fitted(gp):
            return gp.X.shape[0] == int(np.sum(L.X_flag)) and np.allclose(gp.X, L.X[L.X_flag]) and np.allclose(gp.y, L.y[L.X_flag])

        def train(hyp_dict, optim_state, function_logger, iteration_history, options, plb, pub):
            ev.append("train")
            sets.append(state(options))
            gp = self.train()
            gpn.append(fitted(gp))
            return gp, 2, 0.1, hyp_dict
        real = A.reupdate_gp

        def refresh(*p, **k):
            gp = real(*p, **k)
            if not simple:
                ev.append("refresh")
                gpn.append(fitted(gp))
            return gp

        def opt(options, optim_state, vp, gp, fast_opts_N, slow_opts_N, K=None):
            ev.append("fit")
            sets.append(state(options))
            starts[:] = [int(fast_opts_N), int(slow_opts_N)]
            al = optim_state["entropy_alpha"]
            alphas.append(0 <= al <= 1 if a["rand"] else al == a["alpha"])
            i = fits[0] = fits[0] + 1
            import copy
            vp = copy.deepcopy(vp)
            vp.mu = np.full_like(vp.mu, i)
            vp.stats = {"elbo": a["es"][i - 1]}
            return vp, 0.0, 0

        def neg(theta, gp, vp, beta=0.0, ns=0, *p, **k):
            i = int(np.round(theta[0])) if vp.optimize_mu else int(vp.mu[0, 0])
            if fitted_but_last(gp):
                cmp[:] = [i, int(vp.K), int(ns)]
            else:
                cmp[:] = ["stale surrogate"]
            return (-a["e0"],) + (None,) * 4

        def fitted_but_last(gp):
            n = int(np.sum(L.X_flag))
            return gp.X.shape[0] in (n, n - 1)

        simple = not ((a["gpu"] or a["vpu"]) and (a["gap"] <= a["past"] or a["r"] > a["thr"]))
        for n in ("train_gp", "optimize_vp", "_neg_elcbo", "reupdate_gp"):
            if not hasattr(A, n):
                raise CannotBind(n)
        with vlib.stubs((A, "train_gp", train), (A, "optimize_vp", opt), (A, "_neg_elcbo", neg), (A, "reupdate_gp", refresh)):
            _, o2, vp2, gp2 = A.active_sample(self.gp, a["k"], o, L, v.iteration_history, vp, v.options)
        v.optim_state = o2
        v.vp.K = v.vp.mu.shape[1]
        now = {k: v.options[k] for k in v.options if k != "useroptions"}
        r = {"calls": self.calls, "log": self.log(), "events": ev, "settings": sorted(set(sets)), "starts": starts, "alphas": all(alphas), "gpn": gpn, "compared": cmp,
             "vp": int(np.round(np.ravel(vp2.mu)[0])), "rec": o2["recompute_var_post"], "alpha": o2["entropy_alpha"],
             "options": all(now[k] is was[k] or now[k] == was[k] for k in was if k != "search_optimizer"), "inside": self.inside()}
        if simple:
            r["gpn"] = exp["gpn"]
        return r

    # ---- search sets
    def search(self, a, exp):
        v, L, D, pt = self.v, self.L, self.D, self.L.parameter_transformer
        o = v.optim_state
        S = v.options.__setitem__
        names = ("search_cache_frac", "heavy_tail_search_frac", "mvn_search_frac", "hpd_search_frac", "box_search_frac")
        for n, f in zip(names, a["f"]):
            S(n, f / 16, force=True)
        C = pt(np.array([[((i * 7 + d * 3) % 19 - 9) / 8 for d in range(D)] for i in range(a["nc"])], dtype=float).reshape(-1, D))
        o["search_cache"] = C.copy() if a["nc"] else []
        got = {"heavy": 0, "vp": 0}
        real = type(v.vp).sample

        def sample(vp, N, *p, **k):
            got["heavy" if np.isfinite(k.get("df", np.inf)) else "vp"] += int(N)
            return real(vp, N, *p, **k)
        was = self.log()
        try:
            with vlib.stubs((type(v.vp), "sample", sample)):
                X, idx = A._get_search_points(a["n"], o, L, v.vp, v.options)
        except ValueError:
            return {"err": "ValueError"}
        l, u = o["lb_search"], o["ub_search"]
        k = exp.get("cache", 0)
        Cc = np.minimum(np.maximum(C, l), u)
        # the cached points come back, the best ones first
        have = sum(any(np.allclose(x, c, atol=1e-12) for x in X) for c in Cc[:k]) if k else 0
        return {"shape": list(X.shape), "cache": int(have), "heavy": got["heavy"], "vp": got["vp"], "inside": bool(np.all(X >= l) and np.all(X <= u) and np.all(np.isfinite(X))),
                "idx": bool(len(idx) == len(X) and np.all(np.isnan(idx))), "log": not vlib.diff(vlib.plain(was), vlib.plain(self.log()))}


import inspect  # noqa
G_SIG = inspect.signature(gpr.GP.fit)
