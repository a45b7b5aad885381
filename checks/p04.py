import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import logging
import numpy as np
import vlib
from vlib import num
from pyvbmc import VBMC

logging.disable(logging.CRITICAL)


class Make:
    def __init__(self, b):
        pass

    def arr(self, name, a):
        v = [c[name] for c in a["cs"]]
        if v[0] == "none":
            return None
        v = np.array([num(x) for x in v])
        how = a["how"]
        if a["extra"] == "size" and self.slot == a["bad"]:
            v = np.append(v, v[-1] + 1.0)
        if a["extra"] == "complex" and self.slot == a["bad"]:
            v = v + 0.5j * self.which(a, len(v))
        if how == "int" and np.all(np.isreal(v)) and np.all(np.isfinite(v)) and np.all(v.real == np.round(v.real)):
            v = v.real.astype(int)
        if how == "flat" or (how == "mixed" and self.slot % 2):
            return v
        return v.reshape(1, -1)

    def which(self, a, D):
        """All coordinates become complex, or a single one."""
        if a["how"] == "row":
            return np.ones(D)
        return np.eye(D)[{"flat": 0, "int": D - 1, "mixed": D // 2}[a["how"]]]

    def do(self, st):
        a = st["a"]
        cs = a["cs"]
        D = len(cs)
        x = None
        if cs[0]["x"]:
            x = np.array([[num(v) for v in c["x"]] for c in cs]).T
            if a["how"] == "int" and np.all(np.isfinite(x)) and np.all(x == np.round(x)):
                x = x.astype(int)
            if a["how"] == "flat" and len(x) == 1:
                x = x[0]
        elif a["how"] == "mixed" and a["extra"] != "nobounds":
            x = np.full((1, D), np.nan)
        args = [x]
        for self.slot, n in enumerate(["lb", "ub", "plb", "pub"], 1):
            v = self.arr(n, a)
            if n in ("lb", "ub") and v is not None and a["how"] != "row" and all(np.isinf(v.ravel())) and a["extra"] == "":
                if all((v.ravel() < 0) == (n == "lb")):
                    v = None        # no hard bounds at all: may be left out
            args.append(v)
        if a["extra"] in ("size", "complex") and (a["bad"] == 5 or args[a["bad"]] is None):
            # the starting point then
            if x is None or a["extra"] == "size":
                return {"__skip__": "nothing to spoil"}
            args[0] = x + 0.5j * self.which(a, D)
        if x is None and (args[3] is None or args[4] is None) and a["extra"] == "":
            return {"__skip__": "no starting point"}
        was = [None if v is None else v.copy() for v in args]
        same = lambda: all((p is None and q is None) or (p.dtype == q.dtype and p.shape == q.shape and np.array_equal(p, q, equal_nan=p.dtype != int)) for p, q in zip(was, args))
        try:
            with np.errstate(all="ignore"):
                v = VBMC(lambda z: 0.0, *args)
        except ValueError:
            return {"ok": False, "same": same()}
        s = v.optim_state
        t = v.parameter_transformer
        xo = s["cache"]["x_orig"]
        ok = all(np.array_equal(s[k], getattr(v, n)) for k, n in (("lb_orig", "lower_bounds"), ("ub_orig", "upper_bounds"), ("plb_orig", "plausible_lower_bounds"), ("pub_orig", "plausible_upper_bounds")))
        return {"ok": True, "same": same(), "lb": v.lower_bounds.ravel(), "ub": v.upper_bounds.ravel(), "plb": v.plausible_lower_bounds.ravel(), "pub": v.plausible_upper_bounds.ravel(),
                "x": xo, "tran": bool(np.allclose(v.x0, t(xo), atol=1e-9) and v.plausible_lower_bounds.shape == (1, D) and v.D == D),
                "orig": bool(ok and np.array_equal(t.lb_orig.ravel(), v.lower_bounds.ravel()) and np.array_equal(t.ub_orig.ravel(), v.upper_bounds.ravel()))}


def run(c):
    r = vlib.tlc("Bounds", constants=dict(Mode="grid"), invariants=["Emit"], workers=6)
    c.model(r, "Bounds exhaustive: one coordinate, one starting point")
    c.replay(r.behaviours if c.thorough else r.behaviours.spread(3000), Make, "one coordinate", procs=8, tol=(1e-9, 1e-12))
    b = vlib.tlc_many("Bounds", [dict(seed=vlib.SEED * 41 + j, simulate=2500 if c.thorough else 160) for j in range(8)], constants=dict(Mode="sim"),
                      invariants=["Emit"], depth=20)
    c.model(b, "Bounds simulation")
    c.replay(b.behaviours, Make, "bounds and starting points", procs=8, tol=(1e-9, 1e-12), budget=500)
    c.binding_selftest(b.behaviours[:10], Make, "bounds and starting points", tol=(1e-9, 1e-12))


if __name__ == "__main__":
    vlib.main("P04", run)
