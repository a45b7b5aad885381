import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vlib, insys, actsys

FIELDS = {"start": "all", "step": ["calls", "inside", "intok"]}


def run(c):
    q = 8 if c.thorough else 1
    b = vlib.tlc_many("Inside", [dict(seed=vlib.SEED * 81 + j, simulate=80 * q) for j in range(8)], constants=dict(Depth=7, Sim=True, Mode="step"), invariants=["Safe", "Emit"], depth=60)
    c.model(b, "Inside simulation: candidates")
    c.replay(b.behaviours, insys.In, "points of evaluation", procs=8, budget=300)
    c.binding_selftest(b.behaviours[:10], insys.In, "points of evaluation")
    b = vlib.tlc_many("Inside", [dict(seed=vlib.SEED * 82 + j, simulate=2 * q) for j in range(8)], constants=dict(Depth=2, Sim=True, Mode="run"), invariants=["Emit"], depth=60)
    c.model(b, "Inside simulation: whole runs")
    c.replay(b.behaviours, insys.In, "points of evaluation in whole runs", procs=8, budget=300)
    b = vlib.tlc_many("Active", [dict(seed=vlib.SEED * 83 + j, simulate=20 * q) for j in range(8)], constants=dict(Depth=8, Sim=True, Mode="active"), invariants=["Grows", "Emit"], depth=60)
    c.model(b, "Active simulation: integer coordinates")
    c.replay(b.behaviours, actsys.Act, "points of evaluation: integer coordinates", procs=8, budget=300, fields=FIELDS)


if __name__ == "__main__":
    vlib.main("P03", run)
