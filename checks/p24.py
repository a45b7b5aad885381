import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vlib, gpsys, tracesys

FIELDS = {"setup": ["ok"], "grow": "all", "train": ["data", "log"], "reupdate": "all", "hpd": "all"}


def run(c):
    b = vlib.tlc_many("GPTrain", [dict(seed=vlib.SEED * 51 + j, simulate=1500 if c.thorough else 150) for j in range(8)],
                      constants=dict(Depth=14, Sim=True, Mode="train"), invariants=["Bounded", "Emit"], depth=60)
    c.model(b, "GPTrain simulation")
    c.replay(b.behaviours, gpsys.GPs, "training data", procs=8, budget=400, fields=FIELDS)
    c.binding_selftest(b.behaviours[:10], gpsys.GPs, "training data", fields=FIELDS)
    b = vlib.tlc_many("GPTrain", [dict(seed=vlib.SEED * 52 + j, simulate=3000 if c.thorough else 200) for j in range(8)],
                      constants=dict(Depth=12, Sim=True, Mode="hpd"), invariants=["Emit"], depth=60)
    c.model(b, "GPTrain simulation: high-density points")
    c.replay(b.behaviours, gpsys.GPs, "high-density points", procs=8, budget=400)
    c.binding_selftest(b.behaviours[:10], gpsys.GPs, "high-density points")
    tracesys.real_runs(c, "P24", 8, 120)


if __name__ == "__main__":
    vlib.main("P24", run)
