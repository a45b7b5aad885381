import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vlib, loopcheck, runsys

FIELDS = {"iter": ["ev", "act", "st", "vp", "gp", "fc", "N", "log"], "final": ["iters", "lens", "hvps", "unaltered", "best"],
          "reload": "all", "continue": "all"}


def run(c):
    b = vlib.tlc_many("Runs", [dict(seed=vlib.SEED * 100 + j, simulate=240 if c.thorough else 14) for j in range(8)],
                      constants=dict(Slots={"A", "B"}, Files={"f", "gg"}, Probs={1, 2, 3, 4, 5}, Depth=12, MaxRuns=4, Prefer="resume", Sim=True),
                      invariants=["Chain", "OneToOne", "Emit"], depth=40)
    c.model(b, "Runs simulation: save, load, continue")
    c.replay(b.behaviours, runsys.Runs, "saved and resumed runs", procs=8, budget=2000 if c.thorough else 300)
    c.binding_selftest(b.behaviours[:3], runsys.Runs, "saved and resumed runs", tries=2, skip=("rng", "res", "slots"))
    loopcheck.loop(c, ["any", "warp", "warmup"], FIELDS, 300, 3000, reload=True)


if __name__ == "__main__":
    vlib.main("P10", run)
