import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vlib, loopcheck, tracesys

FIELDS = {"iter": ["r", "impro", "stable", "act", "st.R", "st.esw", "fc"],
          "final": ["iters", "msg", "status", "success", "stable", "r", "lens"], "reload": ["st.R", "st.esw"]}


def run(c):
    loopcheck.loop(c, ["any", "stable", "warp"], FIELDS, 450, 4000, reload=True)
    tracesys.real_runs(c, "P05")


if __name__ == "__main__":
    vlib.main("P05", run)
