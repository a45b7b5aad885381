import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import numpy as np
import vlib, loopcheck, tracesys
from pyvbmc import VBMC

FIELDS = {"iter": ["stable", "elbo", "elbo_sd", "vp", "ev"],
          "final": ["best", "best2", "elbo", "elbo_sd", "vp", "comp", "stable", "status", "ev"]}
ASK = [{}, {"safe_sd": 1, "frac_back": 0.5}, {"safe_sd": 0, "frac_back": 1.0}, {"safe_sd": 3, "frac_back": 0.0},
       {"safe_sd": 5, "rank_criterion_flag": True}, {"safe_sd": 1, "rank_criterion_flag": True}]
BASE = None


class Best:
    """determine_best_vp on a history recorded through the public interface."""

    def __init__(self, b):
        global BASE
        if BASE is None:
            BASE = VBMC(lambda x: 0.0, np.zeros((1, 1)), plausible_lower_bounds=[[-1.0]], plausible_upper_bounds=[[1.0]],
                        options={"display": "off"})
        self.v = BASE

    def do(self, st):
        import copy
        v, h = self.v, self.v.iteration_history
        for k in ("iter", "vp", "elbo", "elbo_sd", "stable", "r_index"):
            h[k] = None
        for i, (e, sd, s, r) in enumerate(st["H"]):
            vp = v.vp
            vp.stats, vp.tag = {"stable": not s}, i
            h.record_iteration({"iter": i, "vp": vp, "elbo": e / 4, "elbo_sd": sd / 4, "stable": s,
                                "r_index": np.inf if r == -1 else r / 4}, i)
        out, own = [], True
        for i in range(len(st["H"])):
            row = []
            for j, kw in enumerate(ASK):
                exp = st["exp"]["idx"][i][j]
                bv, e, sd, idx = v.determine_best_vp(max_idx=i, **kw)
                own &= (bv.tag == idx and e == st["H"][idx][0] / 4 and sd == st["H"][idx][1] / 4
                        and bool(bv.stats["stable"]) == st["H"][idx][2])
                row.append(-1 if exp == -1 else int(idx))
            out.append(row)
        bv, e, sd, idx = v.determine_best_vp()
        return {"idx": out, "own": bool(own and idx == out[-1][0])}


def run(c):
    # every history of four iterations over small values
    r = vlib.tlc("BestVp", constants=dict(Es={0, 3}, Sds={0, 1}, Sts={True, False}, Rs={2}, Depth=4, Sim=False),
                 invariants=["Sane", "Emit"], workers=6)
    c.model(r, "BestVp exhaustive, 4 iterations")
    c.replay(r.behaviours, Best, "best solution, exhaustive", procs=8)
    r = vlib.tlc("BestVp", constants=dict(Es=set(range(-9, 10)), Sds={0, 1, 2, 5}, Sts="={TRUE, FALSE}", Rs=set(range(1, 40)), Depth=9, Sim=True),
                 invariants=["Sane", "Emit"], simulate=8000 if c.thorough else 800, depth=30)
    c.model(r, "BestVp simulation, 9 iterations")
    c.replay(r.behaviours, Best, "best solution, random", procs=8)
    c.binding_selftest(r.behaviours[:10], Best, "best solution")
    loopcheck.loop(c, ["any", "noboost", "warmup"], FIELDS, 300, 3000)
    tracesys.real_runs(c, "P07")


if __name__ == "__main__":
    vlib.main("P07", run)
