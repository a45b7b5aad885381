import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vlib, loopcheck, tracesys

FIELDS = {"final": "all"}


def run(c):
    loopcheck.loop(c, ["any", "boost", "noboost"], FIELDS, 450, 4000, reload=True)
    tracesys.real_runs(c, "P08")


if __name__ == "__main__":
    vlib.main("P08", run)
