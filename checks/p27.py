import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vlib, elbosys, tracesys


def run(c):
    q = 8 if c.thorough else 1
    for mode, n, what in (("lj", 12, "expected log-joint"), ("ent", 25, "entropy"), ("elbo", 12, "objective"), ("bnd", 60, "soft bounds"), ("attach", 5, "optimised posterior")):
        b = vlib.tlc_many("Elbo", [dict(seed=vlib.SEED * 91 + j, simulate=n * q) for j in range(8)], constants=dict(Depth=4, Mode=mode), invariants=["Emit"], depth=60)
        c.model(b, "Elbo simulation: " + what)
        c.replay(b.behaviours, elbosys.El, what, procs=8, budget=300, tol=elbosys.TOL)
        if mode != "attach":
            c.binding_selftest(b.behaviours[:10], elbosys.El, what, tol=elbosys.TOL)
    tracesys.real_runs(c, "P27")


if __name__ == "__main__":
    vlib.main("P27", run)
