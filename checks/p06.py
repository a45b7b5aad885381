import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vlib, loopcheck, tracesys

FIELDS = {"iter": ["warmup", "act", "log", "gp", "ev", "consistent", "vp", "st.warmup", "st.last_warmup", "st.trims", "st.skip",
                   "st.recomp", "st.rc", "N", "neff"], "final": ["iters"], "reload": ["nact", "st.warmup", "st.trims"]}


def run(c):
    loopcheck.loop(c, ["any", "warmup", "warmup"], FIELDS, 450, 4000, reload=True)
    tracesys.real_runs(c, "P06")


if __name__ == "__main__":
    vlib.main("P06", run)
