import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vlib, gpsys, tracesys

FIELDS = {"setup": ["ok"], "train": ["ns", "nsret", "initN", "optsN", "burn", "thin", "frominit", "hyp", "wid", "widths", "sn2"]}


def run(c):
    b = vlib.tlc_many("GPTrain", [dict(seed=vlib.SEED * 53 + j, simulate=3000 if c.thorough else 250) for j in range(8)],
                      constants=dict(Depth=14, Sim=True, Mode="train"), invariants=["Bounded", "Emit"], depth=60)
    c.model(b, "GPTrain simulation")
    c.replay(b.behaviours, gpsys.GPs, "training effort", procs=8, budget=500, fields=FIELDS)
    c.binding_selftest(b.behaviours[:10], gpsys.GPs, "training effort", fields=FIELDS, skip=("sn2",))
    tracesys.real_runs(c, "P25")


if __name__ == "__main__":
    vlib.main("P25", run)
