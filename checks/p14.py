import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vlib, mixsys


def run(c):
    b = vlib.tlc_many("Mixture", [dict(seed=vlib.SEED * 80 + j, simulate=5000 if c.thorough else 600) for j in range(8)],
                      constants=dict(Depth=9, Mode="params", Sim=True), invariants=["Emit"], depth=14)
    c.model(b, "Mixture simulation: parameters")
    c.replay(b.behaviours, mixsys.Params, "parameters", procs=8, tol=(1e-9, 1e-10), budget=400)
    c.binding_selftest(b.behaviours[:10], mixsys.Params, "parameters", tol=(1e-9, 1e-10))


if __name__ == "__main__":
    vlib.main("P14", run)
