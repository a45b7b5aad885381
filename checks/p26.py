import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import numpy as np
import vlib
from vlib import num, vec
from pyvbmc.vbmc.minimize_adam import minimize_adam


class Adam:
    def __init__(self, b):
        pass

    def do(self, st):
        a, exp = st["a"], st["exp"]
        if "ends" in exp:
            a.update({k: exp.pop(k) for k in ("ends", "pts", "vals")})
        D = a["D"]
        A, C, h, e = np.array(a["a"], float), vec(a["c"]), [vec(r) for r in a["h"]], vec(a["e"])
        calls = []

        def f(x):
            calls.append(np.array(x, copy=True))
            i = min(len(calls), len(e)) - 1
            return float(np.sum(A / 2 * (x - C) ** 2) + e[i]), A * (x - C) + h[i]

        x0, lb, ub = vec(a["x0"]), vec(a["lb"]), vec(a["ub"])
        keep = [x0.copy(), lb.copy(), ub.copy()]
        if np.any(x0 < lb) or np.any(x0 > ub):
            return {"__skip__": "starts outside"}
        b = {}
        if np.isfinite(lb).any() or np.isfinite(ub).any():
            b = {"lb": lb, "ub": ub}
        with np.errstate(all="ignore"):
            x, y, xt, yt, n = minimize_adam(f, x0, tol_fun=num(a["tol"]), max_iter=a["max"], master_min=num(a["mmin"]), master_max=num(a["mmax"]),
                                            master_decay=a["decay"], use_early_stopping=a["early"], **b)
        # where the documented rule stops
        for end in a["ends"]:
            dx, s, t, tm = (num(end[k]) for k in ("dx", "slope", "tol", "tolmax"))
            if end["may"] and (min(abs(dx - 0.001), abs(dx - 0.1)) < 1e-7 or min(abs(s - t), abs(s - tm)) < 1e-9):
                return {"__skip__": "on the threshold"}
            if (end["may"] and ((dx < 0.001 and s < tm) or (s < t and dx < 0.1))) or end["n"] == a["max"]:
                break
        k = end["n"]
        pts, vals = a["pts"][:k], a["vals"][:k]
        new = dict(n=k, calls=k, x=end["x"], y=end["y"], xtab=pts, ytab=vals, at=[a["x0"]] + pts[:-1], same=True, inside=True)
        for f in new:
            exp.setdefault(f, new[f])
        return {"n": int(n), "calls": len(calls), "x": np.ravel(x), "y": float(y), "xtab": np.asarray(xt).T, "ytab": np.ravel(yt), "at": np.array(calls),
                "same": bool(all(np.array_equal(p, q) for p, q in zip(keep, (x0, lb, ub)))),
                "inside": bool(all(np.all((c >= lb) & (c <= ub)) for c in calls + [x] + list(np.asarray(xt).T)))}


def run(c):
    b = vlib.tlc_many("Adam", [dict(seed=vlib.SEED * 61 + j, simulate=600 if c.thorough else 180) for j in range(8)],
                      constants=dict(MaxLen=240 if c.thorough else 120), invariants=["Emit"], depth=5)
    c.model(b, "Adam simulation")
    c.replay(b.behaviours, Adam, "optimiser", procs=8, tol=(1e-6, 1e-8), budget=500)
    c.binding_selftest(b.behaviours[:10], Adam, "optimiser", tol=(1e-6, 1e-8))


if __name__ == "__main__":
    vlib.main("P26", run)
