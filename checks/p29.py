import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vlib, gpsys


def run(c):
    b = vlib.tlc_many("GPTrain", [dict(seed=vlib.SEED * 54 + j, simulate=3000 if c.thorough else 200) for j in range(8)],
                      constants=dict(Depth=6, Sim=True, Mode="hyp"), invariants=["Bounded", "Emit"], depth=60)
    c.model(b, "GPTrain simulation: hyperparameters")
    c.replay(b.behaviours, gpsys.GPs, "hyperparameters", procs=8, budget=500)
    c.binding_selftest(b.behaviours[:10], gpsys.GPs, "hyperparameters")


if __name__ == "__main__":
    vlib.main("P29", run)
