"""Common part of the checks decided by VBMCLoop.tla."""
import vlib
import loopsys

INV = ["Budget", "NeverShort", "AtLeastKept", "WarmupOnce", "TrimSpacing", "OneFalseAlarm", "StableMeans",
       "Complete", "WarpCount", "KBounds", "Emit"]

# recipes that make particular situations frequent
RECIPES = {
    "any": {},
    "warmup": {"warm": True, "maxf": 70, "maxi": 18, "wni": 6, "swr": 1, "D": 2},
    "warp": {"D": 2, "warm": False, "wrot": True, "wmk": 1, "wtr": 50, "maxi": 14, "maxf": 70, "we": 1, "wuc": True},
    "stable": {"mood": "calm", "ti": 19, "maxi": 18, "maxf": 70, "exc": 2},
    "budget": {"minf": 20, "mini": 5},
    "boost": {"boost": True, "maxi": 6},
    "noboost": {"boost": False, "maxi": 9},
}


def behaviours(c, recipes, n, reload=False, steps=20):
    """n simulated behaviours per recipe (the emitted ones are fewer)."""
    runs = []
    for k, r in enumerate(recipes):
        parts = max(1, min(8, n // 400))
        for j in range(parts):
            runs.append(dict(constants=dict(MaxSteps=steps, WithReload=reload, Moods={"calm", "climb", "wild"}, Sim=True,
                                            Force=dict({"x": 0}, **RECIPES[r])),
                             seed=vlib.SEED * 1000 + 17 * k + j + 1, simulate=n // parts))
    r = vlib.tlc_many("VBMCLoop", runs, depth=400, invariants=INV)
    c.model(r, "VBMCLoop simulation (%s)" % ", ".join(recipes))
    return r.behaviours


def loop(c, recipes, fields, quick, thorough, reload=False, procs=8):
    b = behaviours(c, recipes, thorough if c.thorough else quick, reload)
    c.replay(b, loopsys.Sys, "main loop", fields=fields, procs=procs, budget=600)
    c.binding_selftest(b[:12], loopsys.Sys, "main loop", fields=fields, tries=4)
