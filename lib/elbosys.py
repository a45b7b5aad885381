"""The real evidence bound, its entropy and its optimisation, for behaviours of Elbo.tla."""
import copy
import logging
import numpy as np
import gpyreg as gpr
import vlib
from vlib import num, CannotBind
from pyvbmc import VBMC
from pyvbmc.variational_posterior import VariationalPosterior
import pyvbmc.vbmc.variational_optimization as VO
from pyvbmc.entropy import entlb_vbmc, entmc_vbmc

logging.disable(logging.CRITICAL)
TOL = (2e-6, 2e-8)


def q(x):
    return np.array(x, dtype=float) / 4


def posterior(c, fl=None):
    D, K = c["D"], c["K"]
    vp = VariationalPosterior(D, K, x0=np.zeros((1, D)))
    vp.mu = q(c["mu"]).T.copy()
    vp.sigma = np.exp(q(c["ls"])).reshape(1, K)
    vp.lambd = np.exp(q(c["ll"])).reshape(D, 1)
    vp.eta = q(c["et"]).reshape(1, K)
    w = np.exp(vp.eta)
    vp.w = w / w.sum()
    if fl:
        vp.optimize_mu, vp.optimize_sigma, vp.optimize_lambd, vp.optimize_weights = fl["mu"], fl["sg"], fl["la"], fl["w"]
    return vp


def surrogate(g, D):
    mean = dict(zero=gpr.mean_functions.ZeroMean, const=gpr.mean_functions.ConstantMean, negquad=gpr.mean_functions.NegativeQuadratic)[g["mean"]]()
    gp = gpr.GP(D=D, covariance=gpr.covariance_functions.SquaredExponential(), mean=mean,
                noise=gpr.noise_functions.GaussianNoise(constant_add=True, user_provided_add=bool(g["v"])))
    rows = []
    for h in g["hs"]:
        r = list(q(h["l"])) + [h["f"] / 4, h["s"] / 4]
        if g["mean"] != "zero":
            r.append(h["m"] / 4)
        if g["mean"] == "negquad":
            r += list(q(h["xm"])) + list(q(h["om"]))
        rows.append(r)
    gp.update(X_new=q(g["X"]), y_new=np.array(g["y"], dtype=float).reshape(-1, 1) / 8,
              s2_new=np.array(g["v"], dtype=float).reshape(-1, 1) / 16 if g["v"] else None, hyp=np.array(rows))
    return gp


def snap(vp):
    return [np.array(z, copy=True) for z in (vp.mu, vp.sigma, vp.lambd, vp.w, vp.eta)]


def same(vp, was):
    return bool(all(np.array_equal(a, b) for a, b in zip(snap(vp), was)))


def gpsame(gp, was):
    now = gpsnap(gp)
    return bool(all(np.array_equal(a, b) for a, b in zip(now, was)))


def gpsnap(gp):
    return [np.array(gp.X, copy=True), np.array(gp.y, copy=True)] + [np.array(p.hyp, copy=True) for p in gp.posteriors] + [np.array(p.alpha, copy=True) for p in gp.posteriors]


class Draws:
    """Scripted standard normal draws of the entropy estimate: one block per component."""
    def __init__(self, ep):
        self.blocks = [np.array(e, dtype=float) / 8 for e in ep]
        self.used = 0

    def __call__(self, *size, **k):
        s = k.get("size", size[-1] if size and isinstance(size[-1], (tuple, list)) else size)
        s = tuple(int(z) for z in s)
        j = self.used
        if s != self.blocks[0].shape:
            # other layouts: all components at once, or double the number
            if s == (len(self.blocks),) + self.blocks[0].shape:
                self.used = len(self.blocks)
                return np.array(self.blocks)
            raise CannotBind("normal draws of size %r" % (s,))
        self.used += 1
        return self.blocks[j % len(self.blocks)].copy()

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self(*size)

    def stubs(self):
        return vlib.stubs((np.random, "randn", self), (np.random, "standard_normal", lambda size=None: self(*size)), (np.random, "normal", self.normal))


class El:
    def __init__(self, b):
        self.vp = None

    def do(self, st):
        with np.errstate(all="ignore"):
            return getattr(self, "op_" + st["op"])(st["a"], st["exp"])

    def op_lj(self, a, exp):
        vp, gp = posterior(a["c"]), surrogate(a["g"], a["c"]["D"])
        was, gwas = snap(vp), gpsnap(gp)
        fl = tuple(a["fl"][k] for k in ("mu", "sg", "la", "w")) if a["grad"] else (False,) * 4
        r = VO._gp_log_joint(vp, gp, fl, True, True, a["cv"], a["sep"])
        G, dG, var, dvar, ss = r[:5]
        return {"G": G, "var": "none" if var is None else np.ravel(var)[0], "ss": ss, "dG": np.ravel(dG) if a["grad"] else [],
                "I": r[5] if a["sep"] else [], "J": r[6] if a["sep"] and a["cv"] else [], "same": same(vp, was) and gpsame(gp, gwas)}

    def op_ent(self, a, exp):
        vp = posterior(a["c"])
        was = snap(vp)
        fl = tuple(a["fl"][k] for k in ("mu", "sg", "la", "w"))
        if a["kind"] == "lb":
            H, dH = entlb_vbmc(vp, fl, True)
        else:
            dr = Draws(a["ep"])
            with dr.stubs():
                H, dH = entmc_vbmc(vp, a["ns"], fl, True)
            if dr.used != a["c"]["K"]:
                raise CannotBind("normal draws")
        return {"H": H, "dH": np.ravel(dH) if dH is not None else [], "same": same(vp, was)}

    def op_elbo(self, a, exp):
        c, fl, b = a["c"], a["fl"], a["b"]
        D, K = c["D"], c["K"]
        vp, gp = posterior(c, fl), surrogate(a["g"], D)
        th = ([q(c["mu"]).ravel()] if fl["mu"] else []) + ([q(c["ls"])] if fl["sg"] else []) + ([q(c["ll"])] if fl["la"] else []) + ([q(c["et"])] if fl["w"] else [])
        th = np.concatenate(th)
        bnd = None
        if a["pen"]:
            lo, hi = [], []
            if fl["mu"]:
                lo.append(np.tile(q(b["ml"]), K)); hi.append(np.tile(q(b["mh"]), K))
            if fl["sg"] or fl["la"]:
                lo.append(np.tile(q(b["sl"]), K)); hi.append(np.tile(q(b["sh"]), K))
            bnd = {"tol_con": num(b["tol"])}
            if fl["w"]:
                lo.append(np.full(K, b["el"] / 4)); hi.append(np.zeros(K))
                bnd.update(weight_threshold=num(b["thr"]), weight_penalty=num(b["pen"]))
            bnd.update(lb=np.concatenate(lo), ub=np.concatenate(hi))
        cv = {"none": None, "yes": True, "no": False}[a["cv"]]
        beta = {98: np.inf, 99: np.nan}.get(a["beta"], a["beta"])
        dr = Draws(a["ep"])
        gwas = gpsnap(gp)
        try:
            with dr.stubs():
                r = VO._neg_elcbo(th.copy(), gp, vp, beta, a["ns"], a["cg"], cv, bnd)
        except (NotImplementedError, ValueError) as e:
            return {"err": type(e).__name__}
        if a["ns"] and dr.used != K:
            raise CannotBind("normal draws")
        F, dF, G, H, vF = r[:5]
        return {"F": np.ravel(F)[0], "dF": "none" if dF is None else np.ravel(dF), "G": G, "H": H, "var": np.ravel(vF)[0], "less": gpsame(gp, gwas)}

    def op_bnd(self, a, exp):
        fl = a["fl"]
        D = a["D"]
        vp = VariationalPosterior(D, a["K"], x0=np.zeros((1, D)))
        vp.optimize_mu, vp.optimize_sigma, vp.optimize_lambd, vp.optimize_weights = fl["mu"], fl["sg"], fl["la"], fl["w"]
        o = {"tol_length": 1 / a["tl"], "tol_weight": 1 / a["tw"] if a["tw"] else 0, "tol_con_loss": 0.01, "weight_penalty": 0.1}
        out = []
        for X, k in zip(a["xs"], a["ks"]):
            r = vp.get_bounds(np.array(X, dtype=float) / 8, o, k)
            if fl["w"] and (r["weight_penalty"] != 0.1 or r["tol_con"] != 0.01):
                return {"bnds": "options not followed"}
            out.append({"lb": np.ravel(r["lb"]).copy(), "ub": np.ravel(r["ub"]).copy(), "thr": r["weight_threshold"] if fl["w"] else "none"})
        return {"bnds": out}

    def op_attach(self, a, exp):
        c, fl = a["c"], a["fl"]
        D, K = c["D"], a["K"]
        np.random.seed(a["seed"])
        vp, gp = posterior(c, fl), surrogate(a["g"], D)
        one = np.ones((1, D))
        v = VBMC(lambda x: 0.0, 0 * one, None, None, -one, one, options=dict(
            display="off", tol_weight=a["tw"] / 20, pruning_threshold_multiplier=a["mult"], ns_ent=6, ns_ent_fast=0, ns_ent_fine=0, max_iter_stochastic=12,
            elcbo_midpoint=a["mid"], weight_penalty=0.1 if a["seed"] % 2 else 2.0))
        o = v.optim_state
        o.update(warmup=a["warm"], entropy_switch=False, vp_repo=[])
        wasvp, gwas = snap(vp), gpsnap(gp)
        n_fast = [5, 9, 20][a["seed"] % 3]
        try:
            r, ss, pruned = VO.optimize_vp(v.options, o, vp, gp, n_fast, a["slow"], K)
        except RuntimeError:
            return {"__skip__": "the optimiser failed"}
        Kp = int(r.K)
        if not 1 <= Kp <= K:
            return {"pruned": "%d components of %d" % (Kp, K)}
        E = vlib.ENV
        for k in range(Kp):
            for d in range(D):
                E["$mu%d_%d" % (k + 1, d + 1)] = float(r.mu[d, k])
            E["$ls%d" % (k + 1)] = float(np.log(np.ravel(r.sigma)[k]))
            E["$e%d" % (k + 1)] = float(np.log(np.ravel(r.w)[k]))
        for d in range(D):
            E["$ll%d" % (d + 1)] = float(np.log(np.ravel(r.lambd)[d]))
        alt = a["alts"][Kp - 1]
        vlib.define(alt)
        obs = vlib.plain(dict(r.stats))
        obs["var_ss"] = float(np.ravel(ss)[0])
        bad = vlib.diff(alt["exp"], obs, "", 1e-5, 1e-6)
        obs = {"stats": True if bad is None else bad, "stable": r.stats["stable"], "pruned": pruned == K - Kp, "gp": gpsame(gp, gwas),
               "small": "some" if np.any(r.w < a["tw"] / 20) else "none"}
        if exp["keep"]:
            obs["keep"] = True if (pruned == 0 and Kp == K) else "%d components removed" % pruned
        else:
            obs["keep"] = False
        return obs
