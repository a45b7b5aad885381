import copy, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vlib
from vlib import num
import numpy as np
from pyvbmc.function_logger import FunctionLogger
from pyvbmc.parameter_transformer import ParameterTransformer


def transformer(st):
    if st["space"] == "none":
        return None
    cs, D = st["coords"], st["D"]
    kinds = {c["t"] for c in cs if c["t"] != "unb"}
    kw = {}
    if st["rot"]:
        kw["rotation_matrix"] = vlib.mat(st["rot"])
    if st["scl"]:
        kw["scale"] = vlib.vec(st["scl"])
    row = lambda f: np.array([[f(c) for c in cs]], dtype=float)
    lb = row(lambda c: -np.inf if c["t"] == "unb" else num(c["lb"]))
    ub = row(lambda c: np.inf if c["t"] == "unb" else num(c["ub"]))
    if len(kinds) > 1:
        # one transform type per object: mixed bounded types are built from two
        raise vlib.MachineryError("mixed bounded kinds")
    pl = [None, None]
    if cs[0]["pl"]:
        pl = [row(lambda c: num(c["plb"])), row(lambda c: num(c["pub"]))]
    return ParameterTransformer(D, lb, ub, pl[0], pl[1],
                                transform_type=(list(kinds) or ["logit"])[0], **kw)


BADV = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf, "complex": 1 + 2j, "vector": np.array([1.0, 2.0]),
        "none": None, "text": "abc"}
BADS = {"zero": 0.0, "negative": -1.0, "nan": np.nan, "inf": np.inf, "vector": np.array([1.0, 2.0])}


class Sys:
    def __init__(self, b):
        self.st = b[0]
        self.next = None
        self.level = self.st["level"]
        self.seen = []
        self.k = 0

    def fun(self, x):
        self.seen.append(np.array(x, dtype=float).ravel().tolist())
        v = self.next
        if isinstance(v, Exception):
            raise v
        return v

    def do(self, st):
        op = st["op"]
        raised, ret = False, None
        self.k += 1
        self.seen.clear()
        if op == "new":
            self.pts = [{"xo": vlib.vec(q["xo"]), "x": vlib.vec(q["x"]), "lj": num(q["lj"])} for q in st["pts"]]
            self.f = FunctionLogger(self.fun, st["D"], self.level > 0, self.level, st["cap"], transformer(st))
        elif op in ("call", "add", "badcall", "badsd", "badadd", "badaddsd"):
            x = self.pts[st["p"] - 1]["x"].copy()
            if st.get("shape") == "row" or (op[:3] == "bad" and self.k % 2):
                x = x.reshape(1, -1)
            x0 = x.copy()
            v, s = float(st.get("v", 1)), float(st.get("s", 1))
            if self.k % 3 == 1 and op == "call":
                v = np.array([v])          # size-one arrays are accepted from the target
            if op == "badcall":
                v = RuntimeError("target failed") if st["bad"] == "raise" else BADV[st["bad"]]
            if op == "badadd":
                v = BADV[st["bad"]]
            if op in ("badsd", "badaddsd"):
                s = BADS[st["bad"]]
            try:
                if op in ("call", "badcall", "badsd"):
                    self.next = v if isinstance(v, Exception) or self.level < 2 else (v, s)
                    r = self.f(x)
                    if len(self.seen) != 1:
                        return {"calls": len(self.seen)}
                else:
                    r = self.f.add(x, v, s) if self.level > 0 else self.f.add(x, v)
                ret = {"f": float(np.ravel(r[0])[0]), "i": int(r[2]),
                       "sd": "none" if r[1] is None else float(np.ravel(r[1])[0])}
            except Exception as e:
                if type(e) is AssertionError:
                    raise
                raised = True
            if not np.array_equal(x, x0):
                return {"raised": "argument modified"}
        elif op == "off":
            self.f.X_flag[st["i"]] = False
        elif op == "finalize":
            self.f.finalize()
        elif op == "copy":
            old, self.f = self.f, copy.deepcopy(self.f)
            for a in ("X", "y", "X_orig", "y_orig", "n_evals"):
                getattr(old, a)[...] = -99
            old.X_flag[...] = False
            old.func_count += 1000
        o = self.view()
        o["raised"] = raised
        if ret:
            o["ret"] = ret
        self.resolve(st, o)
        return o

    def resolve(self, st, o):
        """Predicted entries name points; look their coordinates up."""
        e = st["exp"]
        if "xo" in e or "p" not in e:
            return
        pts = [self.pts[p - 1] for p in e["p"]]
        e["xo"] = vlib.plain([q["xo"] for q in pts])
        e["x"] = vlib.plain([q["x"] for q in pts])
        e["y"] = [num(v) + q["lj"] for v, q in zip(e["yo"], pts)]
        e["ymax"] = max([num(m["yo"]) + self.pts[m["p"] - 1]["lj"] for m in e["ymax"]] or [-np.inf])
        if e["ymax"] == -np.inf:
            e["ymax"] = "-inf"
        e["junk"] = False
        del e["p"]
        if "ret" in e and "p" in e["ret"]:
            e["ret"] = {"f": num(e["ret"]["yo"]) + self.pts[e["ret"]["p"] - 1]["lj"], "i": e["ret"]["i"], "sd": e["ret"]["sd"]}

    def view(self):
        f = self.f
        n = f.Xn + 1
        u = f.X_orig.shape[0]
        sizes = {a: getattr(f, a).shape[0] for a in ("X", "y", "y_orig", "X_flag", "n_evals", "fun_eval_time")}
        if f.noise_flag:
            sizes["S"] = f.S.shape[0]
        junk = any(v != u for v in sizes.values()) or u < n
        junk = junk or not (np.isnan(f.X_orig[n:]).all() and np.isnan(f.y_orig[n:]).all() and np.isnan(f.X[n:]).all()
                            and np.isnan(f.y[n:]).all() and not f.X_flag[n:].any() and not f.n_evals[n:].any())
        junk = junk or (f.noise_flag and not np.isnan(f.S[n:]).all())
        return {"xo": f.X_orig[:n], "x": f.X[:n], "yo": f.y_orig[:n].ravel(), "y": f.y[:n].ravel(),
                "s": f.S[:n].ravel() if f.noise_flag else [], "n": f.n_evals[:n].ravel(), "act": f.X_flag[:n],
                "fc": f.func_count, "cc": f.cache_count, "ymax": float(np.ravel(f.y_max)[0]), "junk": bool(junk)}


def run(c):
    inv = ["OneEntryPerPoint", "NothingLost"]
    sp = {"none", "one", "mix", "rot1"} - {"rot1"}
    base = dict(Levels={0, 1, 2}, Spaces={"none", "one", "mix", "rot"}, Caps={0, 1, 3}, NP=3, Vals={-3, 0, 2},
                WithBad=True, WithMisc=True, Sim=False)
    # the design alone, deeper, without history
    r = vlib.tlc("FuncLog", constants=dict(base, Spaces={"none"}, Caps={1}, NP=2, Vals={0, 2}, WithBad=False,
                                           Depth=7 if c.thorough else 5),
                 invariants=inv, properties=["Monotone"], view="NoHist", workers=6)
    c.model(r, "FuncLog design")
    # every short behaviour
    r = vlib.tlc("FuncLog", constants=dict(base, Caps={1}, NP=2, Vals={0, 2}, Spaces={"one"}, WithBad=False,
                                           Depth=4), invariants=inv + ["Emit"], workers=6)
    c.model(r, "FuncLog exhaustive depth 3")
    b = r.behaviours
    c.replay(b.spread(70000 if c.thorough else 4000), Sys, "log, exhaustive")
    # long random behaviours over everything
    r = vlib.tlc("FuncLog", constants=dict(base, NP=4, Depth=14, Sim=True), invariants=inv + ["Emit"],
                 simulate=20000 if c.thorough else 1500, depth=20)
    c.model(r, "FuncLog simulation")
    c.replay(r.behaviours, Sys, "log, long random")
    c.binding_selftest(r.behaviours, Sys, "log")


if __name__ == "__main__":
    vlib.main("P01", run)
