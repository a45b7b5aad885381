import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vlib, runsys


def run(c):
    b = vlib.tlc_many("Runs", [dict(seed=vlib.SEED * 300 + j, simulate=240 if c.thorough else 14) for j in range(8)],
                      constants=dict(Slots={"A", "B"}, Files={"f", "gg"}, Probs={1, 2, 3, 4, 5}, Depth=13, MaxRuns=5, Prefer="repeat", Sim=True),
                      invariants=["Chain", "OneToOne", "Emit"], depth=40)
    c.model(b, "Runs simulation: repeated and interleaved runs")
    c.replay(b.behaviours, runsys.Runs, "repeated and interleaved runs", procs=8, budget=2400 if c.thorough else 400)
    c.binding_selftest(b.behaviours[:3], runsys.Runs, "repeated and interleaved runs", tries=2, skip=("rng", "res", "slots"))


if __name__ == "__main__":
    vlib.main("P28", run)
