"""Whole real runs for Runs.tla: digests of recorded iterations are bound to the
state numbers of the specification; the same number always means the same record."""
import copy
import hashlib
import logging
import os
import shutil
import tempfile

import numpy as np

import vlib
from pyvbmc import VBMC, VariationalPosterior
from pyvbmc.priors import UniformBox

CALLS = []
SKIP = ("timer", "time", "t_algo", "logger", "fun_evals", "total_time", "default_options_path")


def ll(x):
    x = np.ravel(x)
    CALLS.append(x.copy())
    return float(-0.5 * np.sum((x - 0.3) ** 2 / np.array([1, 0.25, 0.5])[: x.size]))


def noisy(x):
    return ll(x) + 0.3 * np.random.randn(), 0.3


BASE = dict(display="off", ns_search=64, search_optimizer="none", ns_elbo=5, min_final_components=6, ns_gp_max=2,
            ns_gp_max_warmup=2, gp_train_n_init=16, gp_train_n_init_final=8, ns_ent_fine=20, ns_ent=10, ns_ent_boost=12,
            max_iter_stochastic=60, elbo_starts=1, elcbo_midpoint=False, fun_eval_start=6, fun_evals_per_iter=3,
            max_fun_evals=1000, min_fun_evals=0)
PROBS = {
    # reparameterisations that are kept, every other iteration
    1: (2, ll, 5.0, False, dict(warmup=False, warp_every_iters=1, warp_min_k=1, warp_tol_reliability=1e9,
                                warp_tol_improvement=-1e9, warp_tol_sd_base=1e9)),
    # unbounded, warm-up ends early
    2: (2, ll, np.inf, False, dict(stop_warmup_reliability=100, tol_stable_warmup=3, warmup_no_impro_threshold=6)),
    # one dimension, noisy target
    3: (1, noisy, 5.0, False, dict(specify_target_noise=True, active_importance_sampling_mcmc_samples=20,
                                   active_importance_sampling_fess_thresh=0.5)),
    # stochastic search, optimised surrogate, prior
    4: (2, ll, 5.0, True, dict(search_optimizer="cmaes", ns_gp_max=0)),
    # reparameterisations that are undone
    5: (2, ll, np.inf, False, dict(warmup=False, warp_every_iters=1, warp_min_k=1, warp_tol_reliability=1e9,
                                   warp_tol_improvement=1e9)),
}


def digest(x, h=None, path=""):
    """Digest of numbers and structure; timings and loggers are left out."""
    top = h is None
    if top:
        h = hashlib.sha1()
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for v in x.ravel():
                digest(v, h)
        else:
            h.update(str(x.shape).encode() + np.ascontiguousarray(np.asarray(x, dtype=float)).tobytes())
    elif isinstance(x, (bool, int, float, str, np.generic)) or x is None:
        h.update(repr(float(x) if isinstance(x, (int, float, np.number)) and not isinstance(x, bool) else x).encode())
    elif isinstance(x, dict):
        for k in sorted(dict.keys(x), key=str):
            if not any(s in str(k) for s in SKIP):
                h.update(str(k).encode())
                digest(dict.get(x, k), h)
    elif isinstance(x, (list, tuple)):
        h.update(b"[")
        for v in x:
            digest(v, h)
    elif callable(x) and not hasattr(x, "__dict__"):
        pass
    elif hasattr(x, "__dict__") and not callable(x):
        digest({k: v for k, v in vars(x).items() if not callable(v)}, h)
    return h.hexdigest() if top else None


def fl_view(fl):
    n = fl.Xn + 1
    return [fl.X[:n], fl.X_orig[:n], fl.y[:n], fl.y_orig[:n], fl.X_flag[:n], fl.n_evals[:n], fl.func_count, fl.y_max,
            fl.S[:n] if fl.noise_flag else 0, pt_view(fl.parameter_transformer)]


def pt_view(pt):
    return [pt.type, pt.mu, pt.delta, pt.R_mat, pt.scale, pt.lb_orig, pt.ub_orig]


def vp_view(vp):
    return [vp.K, vp.mu, vp.sigma, vp.lambd, vp.w, vp.optimize_mu, vp.optimize_weights, vp.stats, pt_view(vp.parameter_transformer)]


def gp_view(gp):
    return None if gp is None else [gp.X, gp.y, [p.hyp for p in gp.posteriors]]


def os_view(s):
    return {k: v for k, v in s.items() if k not in ("cache_active", "iter_list") and not callable(v)}


class Runs:
    def __init__(self, b):
        logging.disable(logging.CRITICAL)
        np.random.seed(12345)
        self.dir = tempfile.mkdtemp(prefix="runs_")
        self.v, self.inp = {}, {}
        self.id2 = {}
        self.bind(("rng", -100), self.rng())
        CALLS.clear()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # numbers <-> digests
    def bind(self, key, d):
        have = self.id2.setdefault(key, d)
        return key[1] if have == d else "not state %d" % key[1]

    def rng(self):
        s = np.random.get_state()
        return digest([s[0], s[1], s[2], s[3], s[4]])

    def record(self, v, i):
        h = v.iteration_history
        rs = h["random_state"][i]
        return digest([fl_view(h["function_logger"][i]), vp_view(h["vp"][i]), gp_view(h["gp"][i]), os_view(h["optim_state"][i]),
                       [h[k][i] for k in ("iter", "elbo", "elbo_sd", "sKL", "r_index", "elcbo_impro", "stable", "warmup", "Ns_gp",
                                          "func_count", "n_eff", "lcb_max", "pruned", "logging_action")],
                       [rs[0], rs[1], rs[2], rs[3], rs[4]]])

    def slots(self, exp):
        out = {}
        for a, ids in exp.items():
            v = self.v.get(a)
            h = None if v is None else v.iteration_history["iter"]
            n = 0 if h is None else len(h)
            out[a] = [self.bind(("it", ids[i] if i < len(ids) else -1), self.record(v, i)) for i in range(n)]
        return out

    def inputs(self):
        for a, (objs, d) in self.inp.items():
            if digest(objs) != d:
                return "inputs of %s were modified" % a
        return True

    def do(self, st):
        a, err, out = st["a"], "", {}
        try:
            out = getattr(self, "op_" + st["op"])(a, st["exp"])
        except (FileExistsError, FileNotFoundError, ValueError) as e:
            if st["exp"]["err"] != type(e).__name__:
                raise
            err = type(e).__name__
            out = {k: v for k, v in st["exp"].items() if k in ("vp", "whole", "live", "iter", "maxi")}
            if st["op"] == "save":
                out["whole"] = digest(open(self.path(a[1]), "rb").read().hex()) == self.fd[a[1]]
        e = st["exp"]
        r = self.rng()
        out.update(err=err, slots=self.slots(e["slots"]), rng=self.bind(("rng", e["rng"]), r),
                   files={f: os.path.exists(self.path(f)) for f in e["files"]}, inputs=self.inputs())
        return out

    def path(self, f):
        return os.path.join(self.dir, f + ".pkl")

    def op_new(self, a, exp):
        D, fun, b, prior, opt = PROBS[a[1]]
        opts = dict(BASE, **opt)
        opts.update(max_iter=a[2], min_iter=a[2] - 1)
        x0 = np.full((2, D), 0.25)
        x0[1] -= 0.5
        if a[1] in (1, 5):      # outside the plausible box, which is widened
            x0[1, 0] = -2.3
        elif a[1] == 2:
            x0[0, -1] = 2.2
        elif a[1] == 4:         # almost at the hard bound
            x0[1, 0] = 4.999
        one = np.ones((1, D))
        bounds = [-b * one, b * one, -2 * one, 2 * one]
        pr = UniformBox(-b * np.ones(D), b * np.ones(D)) if prior else None
        objs = [x0, bounds, opts, pr]
        self.inp[a[0]] = (objs, digest(objs))
        self.v[a[0]] = VBMC(fun, x0, *bounds, options=opts, prior=pr)
        return {}

    def op_seed(self, a, exp):
        np.random.seed(40 + a[0])
        self.bind(("rng", -100 - a[0]), self.rng())
        return {}

    op_again = op_seed

    def op_run(self, a, exp):
        v = self.v[a[0]]
        n0, c0 = v.function_logger.func_count if v.iteration < 0 else v.iteration_history["func_count"][-1], len(CALLS)
        vp, res = v.optimize()
        fin = digest([vp_view(vp), [res[k] for k in ("elbo", "elbo_sd", "best_iter", "iterations", "components", "r_index",
                                                     "convergence_status", "func_count", "train_set_size")]])
        return {"res": self.bind(("fin", exp["res"]), fin), "iters": res["iterations"],
                "calls": len(CALLS) - c0 == v.function_logger.func_count - n0}

    fd = None

    def op_save(self, a, exp):
        s, f, ow = a
        p = self.path(f)
        # with and without the extension
        self.v[s].save(p if len(f) % 2 else p[:-4], overwrite=ow)
        self.fd = dict(self.fd or {})
        self.fd[f] = digest(open(p, "rb").read().hex())
        return {"whole": True}

    def vpath(self, f):
        return os.path.join(self.dir, "p_" + f + ".pkl")

    def vdigest(self, vp):
        x = np.linspace(-0.4, 0.7, 3 * vp.D).reshape(3, vp.D)
        m, C = vp.moments(cov_flag=True, orig_flag=False)
        return digest([vp_view(vp), vp.D, vp.pdf(x), vp.pdf(x, orig_flag=False, log_flag=True), m, C])

    def op_vpsave(self, a, exp):
        s, f, ow = a
        p = self.vpath(f)
        self.v[s].vp.save(p if len(f) % 2 else p[:-4], overwrite=ow)
        return {"vp": self.bind(("vp", exp["vp"]), self.vdigest(self.v[s].vp))}

    def op_vpload(self, a, exp):
        p = self.vpath(a[0])
        vp = VariationalPosterior.load(p[:-4] if len(a[0]) % 2 else p)
        return {"vp": self.bind(("vp", exp["vp"]), self.vdigest(vp))}

    def op_load(self, a, exp):
        f, s, k, m, st = a
        v = VBMC.load(self.path(f), new_options={"max_iter": m, "min_iter": m - 1} if m else None,
                      iteration=None if k == 0 else k - 1, set_random_state=st)
        h = v.iteration_history
        live = True
        if v.iteration >= 0:
            i = v.iteration
            for x, y, w in ((v.vp, h["vp"][i], vp_view), (v.gp, h["gp"][i], gp_view), (v.function_logger, h["function_logger"][i], fl_view),
                            (v.optim_state, h["optim_state"][i], os_view)):
                if digest(w(x)) != digest(w(y)):
                    live = "live state differs from the record: " + w.__name__
        self.v[s] = v
        return {"live": live, "iter": v.iteration, "maxi": v.options["max_iter"]}
