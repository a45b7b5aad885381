import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import configparser, copy, inspect, io, logging, math, shutil, tempfile
import dill
import numpy as np
import vlib
import pyvbmc.vbmc.options as PO
from pyvbmc import VBMC
from pyvbmc.vbmc.options import Options

logging.disable(logging.CRITICAL)
CONF = os.path.join(os.path.dirname(PO.__file__), "option_configs")


def text(v):
    t, a, b = v["t"], v["a"], v["b"]
    return {"i": "%d" % a, "b": str(bool(a)), "D": "%d*D + %d" % (a, b), "fn": "lambda K: %d*K + %d" % (a, b), "l": str(list(range(1, a + 1)))}[t]


def value(v):
    return eval(text(v))


def ini(pairs, path):
    with open(path, "w") as f:
        f.write("[Options]\n")
        for n, v in pairs:
            f.write("# what %s means\n%s = %s\n" % (n, n, text(v)))
    return path


def canon(v):
    if isinstance(v, (bool, np.bool_)):
        return str(bool(v))
    if v is None:
        return "None"
    if isinstance(v, (int, float, np.number)):
        return "i%d" % v if float(v).is_integer() else "f%.12g" % v
    if callable(v) and hasattr(v, "__code__"):
        k = len(inspect.signature(v).parameters)
        return "fn%s" % ",".join("%.12g" % float(v(*[x] * k)) for x in (1, 4))
    if isinstance(v, list) and v and type(v[0]).__name__.startswith("Acq"):
        return "[%s]" % ", ".join(type(x).__name__ for x in v)
    if isinstance(v, list):
        return "l<<%s>>" % ", ".join(str(x) for x in v)
    if isinstance(v, np.ndarray):
        return "a" + str(v.tolist())
    return repr(v)


def pyd(pairs):
    return {n: value(v) for n, v in pairs}


class Obj:
    def __init__(self, b):
        self.d = tempfile.mkdtemp(prefix="vopt_")
        self.n = 0

    def __del__(self):
        shutil.rmtree(self.d, ignore_errors=True)

    def path(self):
        self.n += 1
        return os.path.join(self.d, "f%d.ini" % self.n)

    def view(self):
        r = []
        for x in self.o:
            keys = [k for k in x.keys() if k != "useroptions"]
            assert list(x) == sorted(x)
            r.append({"val": {k: canon(x.get(k)) for k in keys}, "user": {n: n in x["useroptions"] for n in self.all},
                      "init": bool(x.is_initialized), "len": len(x)})
            if set(r[-1]["val"]) != self.keys[len(r) - 1]:
                r[-1]["len"] = sorted(r[-1]["val"])
        return r

    def do(self, st):
        a, exp = st["a"], st["exp"]
        self.all = list(exp["objs"][0]["user"])
        self.keys = [set(x["val"]) for x in exp["objs"]]
        for x in exp["objs"]:      # no names at all: an empty sequence
            if x["val"] == []:
                x["val"] = {}
        self.res = {}
        err = ""
        try:
            getattr(self, st["op"])(a)
        except (ValueError, AttributeError, KeyError, TypeError) as e:
            err = type(e).__name__
        return dict(self.res, err=err, objs=self.view())

    def make(self, a):
        u = pyd(a["user"])
        was = {k: canon(v) for k, v in u.items()}
        self.o = [Options(ini(a["file"], self.path()), {"D": a["D"]}, u or None)]
        self.res["same"] = was == {k: canon(v) for k, v in u.items()}

    def load(self, a):
        self.o[a["i"] - 1].load_options_file(ini(a["file"], self.path()), {"D": a["D"]})

    def badfile(self, a):
        p = self.path()
        if a["kind"] != "missing":
            open(p, "w").write("" if a["kind"] == "empty" else "[Options]\n")
        self.o[a["i"] - 1].load_options_file(p, {"D": 2})

    def validate(self, a):
        one = [[n, {"t": "i", "a": 1, "b": 0}] for n in a["names"]]
        fs = [ini(one[a["k"]:], self.path())] + ([ini(one[:a["k"]], self.path())] if a["k"] else [])
        self.o[a["i"] - 1].validate_option_names(fs)

    def set(self, a):
        x, g, how = self.o[a["i"] - 1], pyd(a["g"]), a["how"]
        k, v = list(g.items())[0]
        if how == "set":
            x[k] = v
        elif how == "update":
            x.update(g)
        elif how == "kwupdate":
            x.update(**g)
        elif how == "ior":
            x |= g
        elif how == "setdefault":
            x.setdefault(k, v)
        else:
            x.__setitem__(k, v, force=True)

    def del_(self, a):
        x = self.o[a["i"] - 1]
        if a["pop"]:
            x.pop(a["n"])
        else:
            del x[a["n"]]

    def eval(self, a):
        p = {"K": a["k"]}
        if a["more"]:
            p["Z"] = 1
        self.res["res"] = ""
        self.res["res"] = canon(self.o[a["i"] - 1].eval(a["n"], p))

    def defaults(self, a):
        self.o[a["i"] - 1].update_defaults()

    def mutate(self, a):
        self.o[a["i"] - 1].get(a["n"]).append(0)

    def copy(self, a):
        x = self.o[a["i"] - 1]
        y = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda z: dill.loads(dill.dumps(z))}[a["how"]](x)
        self.o = [x, y]
        self.cmp(a)

    def cmp(self, a):
        self.res["eq"] = "yes" if self.o[0] == self.o[1] and not self.o[0] != self.o[1] else "no"

    def initfrom(self, a):
        x = self.o[a["i"] - 1]
        self.o = [x, Options.init_from_existing_options(ini(a["file"], self.path()), {"D": a["D"]}, x)]


setattr(Obj, "del", Obj.del_)


def defaults(D):
    """The option files, read independently of the code under test."""
    r = {}
    for f in ("basic_vbmc_options.ini", "advanced_vbmc_options.ini"):
        for line in open(os.path.join(CONF, f)):
            line = line.strip()
            if "=" in line and not line.startswith("#"):
                k, v = line.split("=", 1)
                r[k.strip()] = eval(v.strip(), PO.__dict__, {"D": D})
    return r


class Run:
    def __init__(self, b):
        self.d = tempfile.mkdtemp(prefix="vopt_")
        self.n = 0

    def __del__(self):
        shutil.rmtree(self.d, ignore_errors=True)

    def view(self, x, exp):
        for k in exp.get("val", {}):
            if exp["val"][k] in ("def", "def15"):
                v = self.defs[k]
                exp["val"][k] = canon(v if exp["val"][k] == "def" else math.ceil(v * 1.5))
        return {"val": {k: canon(x.get(k)) for k in x if k != "useroptions"},
                "rest": sorted([k for k in self.defs if k not in exp["val"] and canon(x.get(k)) != canon(self.defs[k])]
                               + [k for k in x if k not in self.defs and k not in exp["val"] and k != "useroptions"])}

    def do(self, st):
        a, err, res = st["a"], "", {}
        try:
            getattr(self, st["op"])(a, res)
        except (ValueError, AttributeError, KeyError, TypeError) as e:
            err = type(e).__name__
        res["err"] = err
        if "v" in st["exp"]:
            res["v"] = self.view(self.x, st["exp"]["v"])
        return res

    def run(self, a, res):
        D = a["D"]
        self.defs = defaults(D)
        u = pyd(a["user"])
        was = {k: canon(v) for k, v in u.items()}
        path = None if a["nofile"] else ini(a["file"], os.path.join(self.d, "o.ini"))
        one = np.ones((1, D))
        try:
            self.v = VBMC(lambda x: 0.0, 0 * one, -10 * one, 10 * one, -one, one, options=u or None, options_path=path)
            self.x = self.v.options
        finally:
            res["same"] = was == {k: canon(v) for k, v in u.items()}

    def assign(self, x, how, n, v):
        if how == "set":
            x[n] = v
        elif how == "update":
            x.update({n: v})
        elif how == "kwupdate":
            x.update(**{n: v})
        else:
            x |= {n: v}

    def rset(self, a, res):
        self.assign(self.x, a["how"], a["n"], value(a["v"]))

    def rload(self, a, res):
        self.n += 1
        p = os.path.join(self.d, "v%d.pkl" % self.n)
        self.v.save(p)
        u = pyd(a["user"])
        was = {k: canon(v) for k, v in u.items()}
        try:
            v = VBMC.load(p, new_options=u or None)
        finally:
            res["same"] = was == {k: canon(v) for k, v in u.items()}
        self.v, self.x = v, v.options

    def rcopy(self, a, res):
        self.x = copy.copy(self.x) if a["how"] == "copy" else copy.deepcopy(self.x)
        self.x["max_iter"] = 1


def run(c):
    th = c.thorough
    b = vlib.tlc_many("Opts", [dict(seed=vlib.SEED * 70 + j, simulate=4000 if th else 400) for j in range(8)], constants=dict(Depth=12, Mode="obj"),
                      invariants=["UserWins", "Emit"], properties=["Frozen"], depth=20)
    c.model(b, "Opts simulation: option objects")
    c.replay(b.behaviours, Obj, "option objects", procs=8, budget=200 if not th else 600)
    c.binding_selftest(b.behaviours[:10], Obj, "option objects")
    b = vlib.tlc_many("Opts", [dict(seed=vlib.SEED * 75 + j, simulate=1500 if th else 150) for j in range(8)], constants=dict(Depth=4, Mode="vbmc"),
                      invariants=["Emit"], depth=20)
    c.model(b, "Opts simulation: options of runs")
    c.replay(b.behaviours, Run, "options of runs", procs=8, budget=200 if not th else 600)
    c.binding_selftest(b.behaviours[:10], Run, "options of runs")


if __name__ == "__main__":
    vlib.main("P11", run)
