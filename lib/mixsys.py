"""The real VariationalPosterior driven by behaviours of Mixture.tla."""
import copy
import math
import numpy as np
import vlib
from vlib import num, vec
from pyvbmc.parameter_transformer import ParameterTransformer
from pyvbmc.variational_posterior import VariationalPosterior


def set_mix(vp, m):
    vp.mu = np.array([[num(m["mu"][k][d]) for k in range(m["K"])] for d in range(m["D"])])
    vp.sigma = np.array([[num(x) for x in m["sg"]]])
    vp.lambd = np.array([[num(x)] for x in m["la"]])
    w = np.array([m["w"]], dtype=float) * np.exp(np.array([m["we"]], dtype=float))
    vp.w = w / w.sum()
    with np.errstate(all="ignore"):
        vp.eta = np.log(vp.w)


def transformer(cs):
    D = len(cs)
    row = lambda k: np.array([[num(c[k]) for c in cs]])
    lb, ub = row("lb"), row("ub")
    for i, c in enumerate(cs):
        if c["t"] == "unb":
            lb[0, i], ub[0, i] = -np.inf, np.inf
    ty = [c["t"] for c in cs if c["t"] != "unb"]
    if not ty:    # bounds may be left out
        return ParameterTransformer(D, plb_orig=row("plb"), pub_orig=row("pub"))
    return ParameterTransformer(D, lb, ub, row("plb"), row("pub"), transform_type=ty[0] if ty else "logit")


class Mix:
    transform = True

    def __init__(self, b):
        np.random.seed(vlib.SEED + len(b) + len(str(b[0]["a"])) % 1000)

    def do(self, st):
        with np.errstate(all="ignore"):
            return getattr(self, st["op"])(st["a"])

    def make(self, a):
        m = a["m"]
        self.D, self.K, self.cs = m["D"], m["K"], a["cs"]
        self.pt = transformer(a["cs"]) if self.transform else None
        x0 = np.array(a["x0"], dtype=float).reshape(-1, self.D)
        was = x0.copy()
        v = self.vp = VariationalPosterior(self.D, self.K, x0 if len(x0) else None, parameter_transformer=self.pt)
        mu = np.round(v.mu, 3) + 0.0
        new = {"mu": mu if np.max(np.abs(v.mu - mu)) < 1e-4 else v.mu, "w": v.w.ravel(), "lambd": v.lambd.ravel(), "small": bool(v.sigma.size == self.K and np.all(v.sigma > 0) and np.all(v.sigma < 0.1)),
               "flags": bool(v.optimize_mu and v.optimize_sigma and v.optimize_lambd and v.optimize_weights and np.array_equal(x0, was))}
        set_mix(self.vp, m)
        f = a["fl"]
        self.vp.optimize_mu, self.vp.optimize_sigma, self.vp.optimize_lambd, self.vp.optimize_weights = f["mu"], f["sg"], f["la"], f["w"]
        return {"now": self.view(), "new": new}

    def view(self):
        v = self.vp
        ok = v.mu.shape == (self.D, self.K) and v.w.size == self.K and v.sigma.size == self.K and v.lambd.size == self.D
        if not ok:
            return "shapes: %r" % ([v.mu.shape, v.w.shape, v.sigma.shape, v.lambd.shape],)
        return {"mu": v.mu, "sigma": v.sigma.ravel(), "lambd": v.lambd.ravel(), "w": v.w.ravel(), "cov": np.outer(v.sigma.ravel(), v.lambd.ravel())}

    def unit(self):
        return bool(abs(np.mean(self.vp.lambd ** 2) - 1) < 1e-9 and abs(self.vp.w.sum() - 1) < 1e-9 and np.all(self.vp.w >= 0))

    # --- parameters
    def get(self, a):
        th = self.vp.get_parameters(raw_flag=a["raw"])
        th2 = th.copy()
        th2 += 1.0           # the exported vector is the caller's
        return {"theta": th, "vp": self.view()}

    def set(self, a):
        th = vec(a["theta"])
        was = th.copy()
        self.vp.set_parameters(th, raw_flag=a["raw"])
        same = np.array_equal(th, was)
        th += 7.0            # nor does the posterior keep a reference to it
        return {"vp": self.view(), "unit": self.unit(), "arg": bool(same)}

    def setlast(self, a):
        r = self.set(a)
        return {"mu": r["vp"]["mu"], "w": r["vp"]["w"], "cov": r["vp"]["cov"], "unit": r["unit"]}

    def bad(self, a):
        err = False
        try:
            self.vp.set_parameters(vec(a["theta"]), raw_flag=False)
        except ValueError:
            err = True
        return {"err": err, "vp": self.view()}

    def mode(self, a):
        x = np.ravel(self.vp.mode())
        mu = self.vp.mu.ravel()
        sc = (self.vp.sigma * self.vp.lambd).ravel()
        return {"mode": np.where(np.abs(x - mu) < 0.02 * sc, mu, x)}

    # --- density
    def dens(self, x, df, sh, orig):
        arg = x[0].copy() if sh == "1d" else x.copy()
        was = arg.copy()
        d = {} if df == 0 else {"df": float(df)}
        lp = np.ravel(self.vp.log_pdf(arg, orig_flag=orig, **d))
        p = np.ravel(self.vp.pdf(arg, orig_flag=orig, **d))
        lp2 = np.ravel(self.vp.pdf(arg, orig_flag=orig, log_flag=True, **d))
        # tiny densities are compared on the logarithmic scale
        return arg, was, np.where(np.isclose(lp, lp2, rtol=1e-9, atol=1e-9) | (lp == lp2), lp, np.nan), p

    def densu(self, a):
        x = np.array([vec(r) for r in a["u"]])
        arg, was, lp, p = self.dens(x, a["df"], a["sh"], False)
        d = {} if a["df"] == 0 else {"df": float(a["df"])}
        err, g, lg = False, np.zeros((0, self.D)), np.zeros((0, self.D))
        try:
            p2, g = self.vp.pdf(arg, orig_flag=False, grad_flag=True, **d)
            l2, lg = self.vp.log_pdf(arg, orig_flag=False, grad_flag=True)
            if not np.allclose(np.ravel(p2), p) or not np.allclose(np.ravel(l2), lp):
                p = p + np.nan
        except NotImplementedError:
            err = True
        return {"logp": lp, "p": p, "grad": np.reshape(g, (-1, self.D)), "lgrad": np.reshape(lg, (-1, self.D)), "err": err, "args": bool(np.array_equal(arg, was))}

    def densx(self, a):
        x = np.array([vec(r) for r in a["x"]])
        arg, was, lp, p = self.dens(x, a["df"], a["sh"], True)
        return {"logp": lp, "p": p, "args": bool(np.array_equal(arg, was))}

    def moments(self, a):
        m, c = self.vp.moments(orig_flag=False, cov_flag=True)
        m2 = self.vp.moments(orig_flag=False)
        if not np.array_equal(m, m2):
            m = m + np.nan
        ok = True
        if len(a["om"]) and self.pt is not None:
            # by sampling, in original coordinates
            N = 30000
            om, oc = vec(a["om"]), np.array([vec(r) for r in a["oc"]])
            sd = np.sqrt(np.diag(oc))
            xm, xc = self.vp.moments(N=N, orig_flag=True, cov_flag=True)
            ok = bool(xm.shape == (1, self.D) and np.shape(np.atleast_2d(xc)) == oc.shape and np.all(np.abs(xm.ravel() - om) < 6.5 * sd / math.sqrt(N) + 1e-9)
                      and np.all(np.abs(np.atleast_2d(xc) - oc) < 0.15 * np.outer(sd, sd)))
        return {"orig": ok, "mean": m.ravel(), "cov": c, "shapes": [list(m.shape), list(c.shape)]}

    def sample(self, a):
        n, K, D = a["n"], self.K, self.D
        x, i = self.vp.sample(n, orig_flag=a["orig"], balance_flag=a["bal"], **({} if a["df"] == 0 else {"df": float(a["df"])}))
        i = np.ravel(i).astype(int)
        cnt = np.bincount(i, minlength=K) if n else np.zeros(K, dtype=int)
        pt = self.pt
        inside = bool(np.all(np.isfinite(x)))
        smooth = not a["orig"] or all(c["t"] == "unb" for c in self.cs)
        u = x
        if a["orig"] and pt is not None and n:
            inside = inside and bool(np.all(x > pt.lb_orig) and np.all(x < pt.ub_orig))
            u = pt(x)
        means = spreads = weights = True
        w = vec(a["w"])
        if n >= 4000:
            mu = np.array([vec(r) for r in a["mu"]])
            sc = np.array([vec(r) for r in a["sc"]])
            if not a["bal"]:
                weights = bool(np.all(np.abs(cnt - n * w) <= 6.5 * np.sqrt(n * w * (1 - w)) + 1e-9))
            for k in range(K):
                z = (u[i == k] - mu[:, k]) / sc[k]
                nk = len(z)
                if nk < 100:
                    continue
                # the sign is balanced, half of the mass within the quartiles
                # (in original coordinates, wide components pile up at the bounds)
                see = np.array([smooth or c["t"] == "unb" or abs(mu[d, k]) + sc[k][d] < 2 for d, c in enumerate(self.cs)])
                q = 0.6744897501960817 if a["df"] == 0 else 0.7406970841034068
                for f in (z > 0, np.abs(z) < q):
                    dev = np.abs(f.mean(axis=0) - 0.5)
                    if np.any(dev[see] > 6.5 * 0.5 / math.sqrt(nk)):
                        means = spreads = False
                if a["df"] == 0 and smooth:
                    means = means and bool(np.all(np.abs(z.mean(axis=0)) < 6.5 / math.sqrt(nk)))
                # coordinates are independent given the component
                if D > 1 and a["df"] == 0 and smooth:
                    r = np.corrcoef(z.T)[np.triu_indices(D, 1)]
                    spreads = spreads and bool(np.all(np.abs(r) < 6.5 / math.sqrt(nk)))
        quota = [min(int(c), int(q)) for c, q in zip(cnt, [num(v) for v in self.floor(a, w)])] if a["bal"] else []
        return {"shape": list(x.shape), "count": len(i), "quota": quota, "exact": cnt if a["bal"] and n % 16 == 0 else [], "inside": inside,
                "means": bool(means), "spreads": bool(spreads), "weights": weights}

    def shares(self, a):
        n, K, M = a["n"], self.K, 1500
        cnt = np.array([np.bincount(np.ravel(self.vp.sample(n, orig_flag=False, balance_flag=True)[1]).astype(int), minlength=K) for _ in range(M)])
        e, lo = vec(a["share"]), np.array([num(v) for v in a["whole"]])
        # at most R extra ones, drawn independently
        var = np.maximum((n - lo.sum()) * 0.25, 1e-12)
        return {"share": bool(np.all(np.abs(cnt.mean(axis=0) - e) < 6 * np.sqrt(var / M) + 1e-9)), "whole": bool(np.all(cnt >= lo) and np.all(cnt.sum(axis=1) == n))}

    def floor(self, a, w):
        return np.floor(np.round(w * 16) * a["n"] / 16)

    def kl(self, a):
        v = self.vp
        o = copy.deepcopy(v)
        set_mix(o, a["m"])
        N = 100000
        s = v.kl_div(v)
        k = v.kl_div(o, N=N)
        g = v.kl_div(o, N=20000, gauss_flag=True)
        nn = bool(np.all(k >= 0) and np.all(g >= 0) and np.all(np.isfinite(k)) and k.size == 2 and g.size == 2)
        err = err2 = False
        try:
            v.kl_div()
        except ValueError:
            err = True
        try:
            v.kl_div(samples=np.zeros((3, self.D)))
        except ValueError:
            err2 = True
        # (samples pile up at the bounds otherwise)
        out = np.ravel(k) if self.K == 1 and all(c["t"] == "unb" for c in self.cs) else []
        return {"self": s, "nonneg": nn, "kl": out, "err": err, "err2": err2}

    def kls(self, a):
        x = vec(a["xs"])[:, None]
        return {"kl": self.vp.kl_div(samples=x, N=100000, gauss_flag=True)}

    def klfar(self, a):
        o = copy.deepcopy(self.vp)
        o.mu = o.mu + vec(a["shift"])[:, None]
        return {"kl": np.ravel(self.vp.kl_div(o, N=20000, gauss_flag=False))}

    def mtv(self, a):
        o = copy.deepcopy(self.vp)
        o.mu = o.mu + vec(a["shift"])[:, None]
        err = False
        try:
            self.vp.mtv()
        except ValueError:
            err = True
        t = np.ravel(self.vp.mtv(o, N=40000))
        xs, _ = o.sample(40000, True, True)
        t2 = np.ravel(self.vp.mtv(samples=xs, N=40000))
        if np.any(np.abs(t - t2) > 0.04):
            t = t + np.nan
        return {"mtv": t, "err": err}


class Rough(Mix):
    """Monte Carlo results: as Mix, but comparing with the tolerance of the estimate."""

    def do(self, st):
        o = Mix.do(self, st)
        if st["op"] in ("densu", "densx"):
            # densities below the smallest floating-point numbers are not represented
            for i, e in enumerate(st["exp"]["logp"]):
                if e != "any" and num(e) < -690 and o["logp"][i] < -680:
                    st["exp"]["logp"][i] = "any"
                    if st["exp"].get("lgrad"):
                        st["exp"]["lgrad"][i] = "any"
        if st["op"] in ("kl", "kls", "klfar", "mtv"):
            k = "mtv" if st["op"] == "mtv" else "kl"
            exp = [num(e) for e in st["exp"][k]]
            obs = [float(v) for v in o[k]]
            tol = (lambda e: 0.03) if k == "mtv" else (lambda e: 0.15) if st["op"] == "klfar" else (lambda e: 0.06 + 0.05 * e)
            if len(exp) == len(obs):
                o[k] = [e if abs(e - v) <= tol(e) else v for e, v in zip(exp, obs)]
        return o


class Params(Mix):
    transform = False
