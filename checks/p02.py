import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vlib, loopcheck, tracesys

FIELDS = {"iter": ["ev", "fc", "N", "neff", "st.N", "st.skip"], "final": ["ev", "iters", "fc", "msg", "lens"],
          "continue": ["fc", "len"], "reload": ["fc", "len"]}


def run(c):
    loopcheck.loop(c, ["any", "budget", "stable", "warmup"], FIELDS, 450, 4000, reload=True)
    tracesys.real_runs(c, "P02")


if __name__ == "__main__":
    vlib.main("P02", run)
