import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vlib, mixsys


def run(c):
    b = vlib.tlc_many("Mixture", [dict(seed=vlib.SEED * 90 + j, simulate=1000 if c.thorough else 70) for j in range(8)],
                      constants=dict(Depth=10, Mode="density", Sim=True), invariants=["Emit"], depth=16)
    c.model(b, "Mixture simulation: density, samples, moments, divergences")
    c.replay(b.behaviours, mixsys.Rough, "mixture", procs=8, tol=(1e-7, 1e-9), budget=500)
    c.binding_selftest(b.behaviours[:10], mixsys.Rough, "mixture", tol=(1e-7, 1e-9), skip=("kl", "mtv"))


if __name__ == "__main__":
    vlib.main("P15", run)
