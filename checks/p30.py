import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import numpy as np
import vlib
from pyvbmc.stats import kde_1d, kl_div_mvn


class Stats:
    def __init__(self, b):
        pass

    def do(self, st):
        with np.errstate(all="ignore"):
            return getattr(self, "do_" + st["op"])(st["a"])

    def do_kde(self, a):
        s = np.array(a["s"], dtype=float)
        if a["col"]:
            s = s.reshape(-1, 1)
        was = s.copy()
        k = {}
        if a["lo"] != 9999:
            k["lower_bound"] = a["lo"] / 10
        if a["hi"] != 9999:
            k["upper_bound"] = a["hi"] / 10
        d, x, w = kde_1d(s, a["n"], **k)
        return {"bw": float(np.ravel(w)[0]), "mesh": x, "dens": d, "same": bool(np.array_equal(s, was))}

    def do_badkde(self, a):
        try:
            kde_1d(np.array([0.5, 1.5, 2.0]), a["n"], a["lo"], a["hi"])
            return {"any": "accepted"}
        except ValueError:
            return {"any": True}

    def do_kl(self, a):
        m1, m2, S1, S2 = (np.array(a[k], dtype=float) for k in ("m1", "m2", "S1", "S2"))
        if a["col"] != "flat":
            m1, m2 = (m.reshape((1, -1) if a["col"] == "row" else (-1, 1)) for m in (m1, m2))
        was = [x.copy() for x in (m1, m2, S1, S2)]
        r = np.ravel(kl_div_mvn(m1, S1, m2, S2))
        return {"kl": r, "same": all(np.array_equal(x, y) for x, y in zip((m1, m2, S1, S2), was))}


def run(c):
    n = 400 if c.thorough else 40
    b = vlib.tlc_many("Kde", [dict(seed=vlib.SEED * 71 + j, simulate=n) for j in range(8)], constants=dict(Depth=8), invariants=["Counted", "Emit"], depth=60)
    c.model(b, "Kde simulation")
    c.replay(b.behaviours, Stats, "statistics", procs=8, budget=400, tol=(1e-6, 1e-7))
    c.binding_selftest(b.behaviours[:10], Stats, "statistics", tol=(1e-6, 1e-7))


if __name__ == "__main__":
    vlib.main("P30", run)
