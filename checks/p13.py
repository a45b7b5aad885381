import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import copy
import numpy as np
import vlib
from vlib import num
from pyvbmc.parameter_transformer import ParameterTransformer


class Coords:
    def __init__(self, b):
        self.pt = None

    def do(self, st):
        return getattr(self, st["op"])(st)

    def build(self, change=None):
        p = self.p
        cs = p["cs"]
        D = p["D"]
        row = lambda k: np.array([[num(c[k]) for c in cs]])
        lb, ub, plb, pub = row("lb"), row("ub"), row("plb"), row("pub")
        for i, c in enumerate(cs):
            if c["t"] == "unb":
                lb[0, i], ub[0, i] = -np.inf, np.inf
            if not c["pl"]:
                plb[0, i], pub[0, i] = lb[0, i], ub[0, i]
        i = 0 if change == "lb" else -1
        if change in ("lb", "ub") and np.isinf(lb[0, i]):
            lb[0, i], ub[0, i] = -1e7, 1e7
        elif change == "lb":
            lb[0, i] -= abs(lb[0, i]) + 1
        elif change == "ub":
            ub[0, i] += abs(ub[0, i]) + 1
        if not cs[i]["pl"]:
            plb[0, i], pub[0, i] = lb[0, i], ub[0, i]
        ty = p["ty"]
        if change == "type":
            ty = {"logit": "probit", "probit": "student4", "student4": "logit"}[ty]
        if p["alias"]:
            ty = {"logit": 3, "probit": "norminv", "student4": "student4"}[ty]
        args = [lb, ub] + ([plb, pub] if p["pl"] else [])
        R = np.array([[num(v) for v in r] for r in self.R]) if self.R else None
        S = np.array([num(v) for v in self.S]) if self.S else None
        if change == "scale":
            S = np.full(D, 1.25) if S is None else S * np.where(np.arange(D) == D - 1, 1.5, 1.0)
        if change == "rot":
            R = -np.eye(D) if R is None else R.T if not np.allclose(R, R.T) else -R
        keep = [a.copy() for a in args]
        kw = {}
        if p["alias"] and np.all(np.isinf(lb)) and np.all(np.isinf(ub)):    # bounds may be left out
            kw = dict(plb_orig=plb, pub_orig=pub) if p["pl"] else {}
            args = []
        if p["late"]:
            pt = ParameterTransformer(D, *args, transform_type=ty, **kw)
            pt.scale, pt.R_mat = S, R
        else:
            pt = ParameterTransformer(D, *args, scale=S, rotation_matrix=R, transform_type=ty, **kw)
        self.okargs = all(np.array_equal(a, b) for a, b in zip(args, keep)) and np.array_equal(pt.lb_orig, lb) and np.array_equal(pt.ub_orig, ub)
        if change == "mu":
            pt.mu = pt.mu + np.eye(D)[0] * 0.5
        if change == "delta":
            pt.delta = pt.delta * np.where(np.arange(D) == 0, 2.0, 1.0)
        return pt, lb, ub, plb, pub

    def make(self, st):
        self.p, self.R, self.S = st["p"], st["Rm"], st["Sv"]
        self.pt, self.lb, self.ub, plb, pub = self.build()
        box = []
        with np.errstate(all="ignore"):
            if self.p["rt"] or not self.p["pl"]:
                box = [[0, 0]] * self.p["D"]
            else:
                a, b = self.pt(plb).ravel(), self.pt(pub).ravel()
                box = [[a[i], b[i]] if c["pl"] else [0, 0] for i, c in enumerate(self.p["cs"])]
        return {"box": box, "args": self.okargs}

    def inside(self, x):
        return bool(np.all(x > self.lb) and np.all(x < self.ub))

    def map(self, st):
        D = self.p["D"]
        x = np.array([[num(v) for v in r] for r in st["xs"]])
        sh, pt = st["sh"], self.pt
        arg = x[0] if sh == "1d" else x[0].tolist() if sh == "list" else x.copy()
        ints = sh == "int" and np.all(x == np.round(x))
        if ints:
            arg = x.astype(np.int64)
        was = copy.deepcopy(arg)
        ok = True
        with np.errstate(all="ignore"):
            u = pt(x=arg) if sh == "kw" else pt(arg)
            ua = u.tolist() if sh == "list" else u.copy()
            ub = copy.deepcopy(ua)
            xb = pt.inverse(u=ua) if sh == "kw" else pt.inverse(ua)
            j = pt.log_abs_det_jacobian(u=ua) if sh == "kw" else pt.log_abs_det_jacobian(ua)
        ok = np.array_equal(arg, was) and np.array_equal(ua, ub, equal_nan=True) and not np.shares_memory(np.asarray(u), np.asarray(arg) if not isinstance(arg, list) else u * 2)
        w = np.array([num(c["s"]) for c in self.p["cs"]])
        xb2 = np.asarray(xb, dtype=float).reshape(-1, D)
        # compared relative to the size of the coordinate
        xr = np.where(np.abs(xb2 - x) <= 1e-8 * w * 16 + 1e-9 * np.abs(x), x, xb2)
        return {"u": np.reshape(u, (-1, D)), "x": xr, "jac": [{"v": v} for v in np.atleast_1d(j)], "inside": self.inside(xb2), "args": bool(ok),
                "shapes": [list(np.shape(u)), list(np.shape(xb)), list(np.shape(j))]}

    def far(self, st):
        u = np.array([st["u"]], dtype=float)
        w = u.copy()
        with np.errstate(all="ignore"):
            x = self.pt.inverse(u)
        return {"inside": self.inside(x), "finite": bool(np.all(np.isfinite(x))), "args": bool(np.array_equal(u, w))}

    def compare(self, st):
        out = []
        for k in st["kinds"]:
            if k == "copy":
                o = copy.deepcopy(self.pt)
            elif k == "plb":
                # another plausible range: another centering
                o = self.build()[0]
                o.mu, o.delta = o.mu * 1.0, o.delta * 1.0
                o.delta[-1] *= 1.125
            else:
                o = self.build(None if k == "same" else k)[0]
            a, b = bool(self.pt == o), bool(o == self.pt)
            out.append(a if a == b else "asymmetric")
        return {"eq": out}


def run(c):
    b = vlib.tlc_many("Coords", [dict(seed=vlib.SEED * 70 + j, simulate=1500 if c.thorough else 500) for j in range(8)],
                      constants=dict(Depth=8, Sim=True), invariants=["Emit"], depth=12)
    c.model(b, "Coords simulation")
    c.replay(b.behaviours, Coords, "coordinate transforms", procs=8, tol=(1e-7, 1e-8), budget=500)
    c.binding_selftest(b.behaviours[:10], Coords, "coordinate transforms", tol=(1e-7, 1e-8))


if __name__ == "__main__":
    vlib.main("P13", run)
