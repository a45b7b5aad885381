"""The real VBMC.optimize() with its numerical stages replaced by stand-ins that
play the script of a behaviour of VBMCLoop.tla and record what they are asked."""
import contextlib
import copy
import inspect
import logging
import math
import os
import tempfile

import gpyreg as gpr
import numpy as np

import vlib
from vlib import num
from pyvbmc import VBMC
from pyvbmc.variational_posterior import VariationalPosterior
import pyvbmc.vbmc.vbmc as V

H = None          # the running harness (module level: pickled by reference)
NAMES = ["active_sample", "train_gp", "optimize_vp", "warp_input", "warp_gp_and_vp", "reupdate_gp"]
REAL = {n: getattr(V, n) for n in NAMES}
SIG = {n: inspect.signature(REAL[n]) for n in NAMES}
SN2 = [None, 0.0, 1.0, 256.0, 65536.0]
PTNAMES = {"tag": 0}


class Extra(Exception):
    """The code went on although the specification says that the run has ended."""


def target(x):
    H.calls.append(np.array(x, dtype=float).ravel().tolist())
    return float(H.next_y)


def f_ns_ent(K): return 10 * K
def f_ns_ent2(K): return 20 * K
def f_fine(K): return 40 * K
def f_fine2(K): return 80 * K


class SVP(VariationalPosterior):
    """A real posterior with a tag and scripted divergences."""

    def kl_div(self, vp2=None, *a, **k):
        H.event(["kl", tag(self), tag(vp2)])
        v = H.kl() / 8
        return np.array([v, v])


class SGP(gpr.GP):
    """A real surrogate on the active points, with a tag and scripted predictions."""

    def __init__(self, fl, t, lcb=0.0, w=0.0):
        D = fl.X.shape[1]
        super().__init__(D=D, covariance=gpr.covariance_functions.SquaredExponential(),
                         mean=gpr.mean_functions.NegativeQuadratic(),
                         noise=gpr.noise_functions.GaussianNoise(constant_add=True))
        f = fl.X_flag
        hyp = np.concatenate([np.zeros(D + 1), [-3.0], [0.0], np.zeros(2 * D)]).reshape(1, -1)
        self.update(X_new=fl.X[f].copy(), y_new=fl.y[f].copy(), hyp=hyp)
        self.tag, self.lcb, self.w = t, lcb, w

    def predict(self, x_star, *a, **k):
        n = np.shape(x_star)[0]
        mu = self.lcb + 2 * self.w - (np.arange(n) % 3)
        return mu.reshape(-1, 1), np.full((n, 1), 4.0)


def tag(x):
    return 0 if x is None else getattr(x, "tag", 0)


def pt_of(vp):
    return getattr(vp.parameter_transformer, "vtag", 0)


def hyp_tag(h):
    v = (h or {}).get("hyp")
    return 0 if v is None else int(np.ravel(v)[0])


def make_vp(vp, t, K, stats, D):
    v = copy.deepcopy(vp)
    v.__class__ = SVP
    r = np.random.RandomState(1000 + t)
    v.K = K
    v.mu = r.randn(D, K) * 0.2
    v.sigma = np.full((1, K), 0.3) + 0.01 * r.rand(1, K)
    v.lambd = np.ones((D, 1))
    v.w = np.full((1, K), 1.0 / K)
    v.eta = np.ones((1, K))
    v.tag = t
    v.stats = dict(stats)
    return v


def stats(e, sd):
    return {"elbo": e, "elbo_sd": sd, "e_log_joint": e, "e_log_joint_sd": sd, "entropy": 0.0, "entropy_sd": 0.0,
            "stable": False, "I_sk": np.zeros((1, 1)), "J_sjk": np.zeros((1, 1, 1))}


class Harness:
    def __init__(self, b):
        self.o = b[0]["o"]
        self.tagc = 0
        self.calls, self.next_y = [], 0.0
        self.npoint = 0
        self.iters, self.finals = [], []
        for st in b:
            if st["op"] == "iter":
                self.iters.append(st)
            elif st["op"] == "final":
                self.finals.append((len(self.iters), st))
        self.ptr, self.cur = -1, None
        self.events = []          # one list per iteration, plus one per final
        self.phase, self.extra = "", False

    # -- script pointers
    def new_tag(self):
        self.tagc += 1
        return self.tagc

    def at(self, optim_state):
        it = optim_state["iter"]
        if self.cur != it:
            self.cur = it
            if self.ptr + 1 >= self.limit:
                self.extra = True
                raise Extra()
            self.ptr += 1
            self.events.append([])
            self.in_warp = False
            self.boosting = False
        return self.iters[self.ptr]["scr"]

    def event(self, e):
        (self.fevents if self.boosting else self.events[-1]).append(e)

    def kl(self):
        if self.boosting:
            return 0
        return self.iters[self.ptr]["scr"]["fit"]["k"]

    def begin_segment(self, limit, final):
        self.limit, self.final = limit, final
        self.cur, self.boosting, self.fevents = None, False, []

    # -- stand-ins (a: bound arguments by name)
    def active_sample(self, a):
        scr = self.at(a["optim_state"])
        fl, gp, vp = a["function_logger"], a["gp"], a["vp"]
        pt = pt_of(vp)
        if fl.parameter_transformer != vp.parameter_transformer or getattr(fl.parameter_transformer, "vtag", 0) != pt:
            pt = -1
        name = "sample"
        if fl.Xn >= 0 and fl.y_max != np.max(fl.y[fl.X_flag]):
            name = "sample with a stale y_max"
        self.event([name, int(a["sample_count"]), tag(gp), tag(vp), pt, int(np.sum(fl.X_flag)),
                    hyp_tag(a["optim_state"].get("hyp_dict"))])
        D = self.o["D"]
        for i, (kind, v) in enumerate(scr["batch"][: int(a["sample_count"])]):
            if kind == "dup":
                x = fl.X[v - 1].copy()
                self.next_y = float(fl.y_orig[v - 1, 0])
                fl(x)
                continue
            self.npoint += 1
            k = self.npoint
            xo = np.array([(k * 0.0317 * (j + 1) + 0.11 * j) % 0.9 - 0.45 for j in range(D)])
            x = fl.parameter_transformer(xo)
            if i < scr["pre"]:
                fl.add(x, float(v))
            else:
                self.next_y = float(v)
                fl(x)
        t = self.new_tag()
        a["optim_state"]["hyp_dict"] = dict(a["optim_state"].get("hyp_dict") or {}, hyp=np.array([[float(t)]]))
        return fl, a["optim_state"], vp, gp

    def train_gp(self, a):
        os_, fl = a["optim_state"], a["function_logger"]
        scr = self.at(os_)
        mean = os_["gp_mean_fun"]
        self.event(["train", hyp_tag(a["hyp_dict"]), (a["hyp_dict"] or {}).get("runcov") is not None,
                    int(np.sum(fl.X_flag)), mean])
        t = self.new_tag()
        w = self.o["eiw"]
        hyp = {"hyp": np.array([[float(t)]]), "runcov": np.eye(2)}
        if mean == "const":
            return SGP(fl, t), 99, 7.0, hyp
        if self.in_warp:
            return SGP(fl, t), 99, 7.0, hyp
        return SGP(fl, t, scr["fit"]["lcb"] / 4, w), scr["ns"], SN2[scr["sn"]], hyp

    def optimize_vp(self, a):
        opt, os_, vp, gp = a["options"], a["optim_state"], a["vp"], a["gp"]
        D = self.o["D"]
        nf, ns, K = int(a["fast_opts_N"]), int(a["slow_opts_N"]), int(a["K"]) if a["K"] is not None else vp.K
        if float(opt["tol_weight"]) == 0:
            self.boosting = True
            scr = self.final["scr"]
            al = os_.get("entropy_alpha")
            self.event(["boost", tag(vp), nf, ns, K, tag(gp), bool(vp.optimize_mu), bool(vp.optimize_weights),
                        bool(os_.get("entropy_switch")), int(opt.eval("ns_ent", {"K": K})),
                        int(opt.eval("ns_ent_fast", {"K": K})), int(opt.eval("ns_ent_fine", {"K": K})), al])
            e, sd, pr = scr["e"], scr["sd"], 0
        else:
            scr = self.at(os_)
            self.event(["optvp", tag(vp), nf, ns, K, tag(gp), bool(vp.optimize_mu), bool(vp.optimize_weights),
                        bool(os_.get("entropy_switch")), bool(os_.get("warmup"))])
            s = scr["warp"] if self.in_warp else scr["fit"]
            e, sd, pr = s.get("e", 0), s.get("sd", 0), s.get("pr", 0)
            self.in_warp = False
        t = self.new_tag()
        # the stand-in has no side effects on its arguments
        v = make_vp(vp, t, K - pr, stats(e / 4, sd / 4), D)
        return v, np.zeros(1), pr

    def warp_input(self, a):
        self.at(a["optim_state"])
        self.event(["warp_in", tag(a["vp"])])
        self.in_warp = True
        return REAL["warp_input"](**a)

    def warp_gp_and_vp(self, a):
        self.event(["warp", tag(a["vp_old"]), tag(a["gp_old"])])
        t = self.new_tag()
        pt = a["parameter_transformer"]
        pt.vtag = t
        v = copy.deepcopy(a["vp_old"])
        v.tag = t
        v.parameter_transformer = copy.deepcopy(pt)
        if not self.o["wuc"]:
            self.in_warp = False
        return v, np.array([[float(t)]])

    def reupdate_gp(self, a):
        fl, gp = a["function_logger"], a["gp"]
        self.event(["reupdate", tag(gp), int(np.sum(fl.X_flag))])
        t = self.new_tag()
        return SGP(fl, t, gp.lcb, gp.w)


def stub(name):
    def f(*args, **kw):
        b = SIG[name].bind(*args, **kw)
        b.apply_defaults()
        return getattr(H, name)(dict(b.arguments))
    return f


@contextlib.contextmanager
def patched():
    for n in NAMES:
        setattr(V, n, stub(n))
    try:
        yield
    finally:
        for n in NAMES:
            setattr(V, n, REAL[n])


def options_of(o):
    ent = {"none": [], "same": f_ns_ent, "more": f_ns_ent2}
    fin = {"none": [], "same": f_fine, "more": f_fine2}
    kd, nel, bonus = o["kdiv"], o["nel"], o["bonus"]
    return {
        "display": "off", "fun_eval_start": o["fes"], "fun_evals_per_iter": o["fper"], "max_fun_evals": o["maxf"],
        "min_fun_evals": o["minf"], "max_iter": o["maxi"], "min_iter": o["mini"], "tol_stable_count": o["tsc"],
        "tol_stable_excpt_frac": o["exc"] / 4, "entropy_switch": o["esw"], "tol_stable_entropy_iters": o["tse"],
        "entropy_force_switch": o["efs"] / 4, "det_entropy_min_d": o["detmin"], "warmup": o["warm"],
        "tol_stable_warmup": o["tsw"], "stop_warmup_thresh": o["swt"] / 4, "warmup_check_max": o["wcm"],
        "tol_improvement": o["ti"] / 8, "warmup_no_impro_threshold": o["wni"], "stop_warmup_reliability": o["swr"],
        "warmup_keep_threshold": o["keep"],
        "warmup_keep_threshold_false_alarm": None if o["keepfa"] == -1 else o["keepfa"],
        "skip_active_sampling_after_warmup": o["skipaw"], "variable_weights": o["vw"], "variable_means": o["vm"],
        "warp_every_iters": o["we"], "incremental_warp_delay": o["winc"], "warp_min_k": o["wmk"],
        "warp_tol_reliability": o["wtr"], "warp_undo_check": o["wuc"], "warp_tol_improvement": o["wti"] / 4,
        "warp_tol_sd_multiplier": o["wsm"], "warp_tol_sd_base": o["wsb"] / 4, "warp_rotoscaling": o["wrot"],
        "do_final_boost": o["boost"], "min_final_components": o["mfc"], "ns_ent": f_ns_ent, "ns_ent_fast": 0,
        "ns_ent_fine": f_fine, "ns_ent_boost": ent[o["entb"]], "ns_ent_fast_boost": [],
        "ns_ent_fine_boost": fin[o["finb"]], "stable_gp_samples": o["sgs"], "elcbo_impro_weight": o["eiw"],
        "ns_elbo": lambda K: nel * K, "ns_elbo_incr": 0.25, "elbo_starts": o["es"], "always_refit_vp": o["refit"],
        "k_warmup": o["kw"], "k_fun_max": lambda N: N / kd, "adaptive_k": lambda unkn: bonus,
        "separate_search_gp": o["ssg"], "ns_gp_max": 80 if o["ngp"] else 0, "tol_sd": 0.25, "tol_skl": 0.125,
        "plot": False, "recompute_lcb_max": True,
    }


TRACKED = ["iter", "vp", "elbo", "elbo_sd", "var_ss", "sKL", "gp", "gp_hyp_full", "Ns_gp", "pruned", "timer",
           "func_count", "lcb_max", "n_eff", "function_logger", "r_index", "elcbo_impro", "stable", "warmup",
           "logging_action", "optim_state", "random_state"]


def state_view(os_, hyp):
    f = lambda v: float(v)
    tr = os_["data_trim_list"]
    return {"iter": os_["iter"], "warmup": bool(os_["warmup"]), "last_warmup": f(os_["last_warmup"]),
            "trims": [int(x) for x in np.ravel(tr)], "wcount": os_["warping_count"],
            "lastwarp": f(os_["last_warping"]), "lastsucc": f(os_["last_successful_warping"]),
            "skip": bool(os_["skip_active_sampling"]), "recomp": bool(os_["recompute_var_post"]),
            "stopsamp": f(os_["stop_sampling"]), "esw": bool(os_["entropy_switch"]), "vpK": int(os_["vp_K"]),
            "N": int(os_["N"]), "neff": float(os_["n_eff"]), "R": f(os_["R"]), "hyp": hyp_tag(hyp),
            "rc": (hyp or {}).get("runcov") is not None}


def consistent(fl, vp, gp, D):
    """Active entries agree with the coordinates in force; the surrogate holds them."""
    f = fl.X_flag
    pt = fl.parameter_transformer
    if pt != vp.parameter_transformer:
        return "log and posterior use different coordinates"
    x = pt(fl.X_orig[f])
    if not np.allclose(x, fl.X[f], rtol=1e-9, atol=1e-9):
        return "stored points disagree with the coordinates"
    y = fl.y_orig[f].ravel() + pt.log_abs_det_jacobian(fl.X[f])
    if not np.allclose(y, fl.y[f].ravel(), rtol=1e-9, atol=1e-9):
        return "stored values disagree with the volume correction"
    if not (np.array_equal(gp.X, fl.X[f]) and np.array_equal(gp.y, fl.y[f])):
        return "surrogate data differ from the active points"
    return True


class Sys:
    """Protocol of vlib: the whole run happens when its first step is asked for."""

    def __init__(self, b):
        global H
        logging.disable(logging.CRITICAL)
        np.random.seed(7)
        self.b = b
        self.h = H = Harness(b)
        self.i = -1            # position in b
        self.err = None
        self.view = {}
        self.dir = None
        self.seen = {}         # iteration -> its record, as first seen

    def close(self):
        if self.dir:
            import shutil
            shutil.rmtree(self.dir, ignore_errors=True)

    def segment(self):
        """Run optimize() up to the next predicted end."""
        n_final, st = self.h.finals[self.seg]
        self.h.begin_segment(n_final, st)
        self.first = self.h.ptr + 1
        self.k0 = self.v.iteration + 1
        self.res = self.ret = None
        self.h.final = st
        with patched():
            try:
                self.ret, self.res = self.v.optimize()
            except Extra:
                pass

    def do(self, st):
        global H
        H = self.h
        self.i += 1
        op = st["op"]
        if op == "setup":
            o = st["o"]
            D = o["D"]
            self.o = o
            one = np.ones((1, D))
            self.v = VBMC(target, np.zeros((1, D)), -np.inf * one, np.inf * one, -0.5 * one, 0.5 * one, options_of(o))
            # the start posterior of the specification: weights fixed, means free
            self.seg = -1
            self.fresh = True
            return {"D": self.v.D}
        if op in ("continue", "reload"):
            self.fresh = True
            if op == "reload":
                self.seen = {g: x for g, x in self.seen.items() if g <= st["k"]}
                self.dir = self.dir or tempfile.mkdtemp(prefix="loop_")
                p = os.path.join(self.dir, "run%d.pkl" % self.seg)
                self.v.save(p)
                self.v = VBMC.load(p, new_options={"max_iter": st["maxi"], "max_fun_evals": st["maxf"]}, iteration=st["k"])
                v = self.v
                return {"len": min([len(v.iteration_history[k]) for k in TRACKED]), "vp": tag(v.vp), "gp": tag(v.gp),
                        "nact": int(v.function_logger.X_flag.sum()), "fc": v.function_logger.func_count,
                        "st": state_view(v.optim_state, v.hyp_dict)}
            n = len(self.v.iteration_history["iter"])
            h = self.v.iteration_history
            return {"len": n, "vp": tag(h["vp"][-1]), "gp": tag(self.v.gp),
                    "nact": int(self.v.function_logger.X_flag.sum()), "fc": self.v.function_logger.func_count,
                    "st": state_view(h["optim_state"][-1], self.v.hyp_dict)}
        if self.fresh:
            self.fresh = False
            self.seg += 1
            self.segment()
            self.nth = -1
        if op == "iter":
            self.nth += 1
            return self.iter_view(self.nth)
        return self.final_view(st)

    def iter_view(self, nth):
        h, g = self.v.iteration_history, self.k0 + nth
        pos = self.first + nth
        if pos >= len(self.h.events):
            return {"ended early": True}
        if h["optim_state"] is None or len(h["optim_state"]) <= g or h["optim_state"][g] is None:
            return {"not recorded": True}
        rec = self.record_view(g)
        self.seen.setdefault(g, vlib.plain(rec))
        return dict(rec, ev=self.h.events[pos])

    def record_view(self, g):
        h = self.v.iteration_history
        fl, os_, vp, gp = h["function_logger"][g], h["optim_state"][g], h["vp"][g], h["gp"][g]
        n = fl.Xn + 1
        f = lambda k: h[k][g]
        return {"act": list(f("logging_action")), "r": f("r_index"), "impro": f("elcbo_impro"),
                "stable": bool(f("stable")), "warmup": bool(f("warmup")), "N": n, "neff": float(f("n_eff")),
                "fc": f("func_count") if f("func_count") == fl.func_count else "log has %r" % fl.func_count,
                "elbo": f("elbo"), "elbo_sd": f("elbo_sd"), "sKL": f("sKL"), "lcb": f("lcb_max"), "pruned": f("pruned"),
                "ns": f("Ns_gp"), "vp": [tag(vp), vp.K, bool(vp.optimize_mu), bool(vp.optimize_weights), pt_of(vp)],
                "gp": [tag(gp), len(gp.y)],
                "log": {"act": fl.X_flag[:n], "n": fl.n_evals[:n].ravel(), "y": fl.y_orig[:n].ravel()},
                "consistent": consistent(fl, vp, gp, self.o["D"]), "st": state_view(os_, os_.get("hyp_dict"))}

    def final_view(self, st):
        v, h, r = self.v, self.v.iteration_history, self.res
        if r is None:
            return {"ev": "the run went on"}
        m = len(h["iter"])
        msg = [k for k in ("stable for", "max_iter", "max_fun_evals") if k in r["message"]]
        msg = {"stable for": "stable"}.get(msg[0], msg[0]) if msg else ""
        st_flag = bool(self.ret.stats["stable"])
        hv = [[tag(x), x.K] for x in h["vp"]]
        # independence of the returned posterior
        ind = (tag(self.ret) == tag(v.vp) and self.ret is not v.vp and np.array_equal(self.ret.mu, v.vp.mu))
        if ind:
            keep = [x.mu.copy() for x in h["vp"]], v.vp.mu.copy()
            self.ret.mu[...] = 77.0
            self.ret.stats["elbo"] = 77.0
            ind = np.array_equal(keep[1], v.vp.mu) and all(np.array_equal(a, x.mu) for a, x in zip(keep[0], h["vp"])) \
                and v.vp.stats["elbo"] != 77.0
        ok_ret = r["components"] == v.vp.K and r["elbo"] == v.vp.stats["elbo"] and r["elbo_sd"] == v.vp.stats["elbo_sd"]
        lens = {len(h[k]) if h[k] is not None else 0 for k in TRACKED}
        altered = [g for g, x in self.seen.items() if vlib.diff(x, vlib.plain(self.record_view(g)), "") is not None]
        best2 = []
        for i in range(m if "best2" in st["exp"] else 0):
            row = []
            for kw in ({}, {"safe_sd": 1, "frac_back": 0.5}, {"safe_sd": 0, "frac_back": 1.0},
                       {"safe_sd": 5, "rank_criterion_flag": True}, {"safe_sd": 1, "rank_criterion_flag": True}):
                exp = st["exp"]["best2"][i][len(row)] if i < len(st["exp"]["best2"]) else None
                if exp == -1:
                    row.append(-1)
                    continue
                bv, e, sd, idx = v.determine_best_vp(max_idx=i, **kw)
                good = (tag(bv) == hv[idx][0] and e == h["elbo"][idx] and sd == h["elbo_sd"][idx]
                        and bool(bv.stats["stable"]) == bool(h["stable"][idx]))
                row.append(int(idx) if good else -99)
            best2.append(row)
        return {"ev": self.h.fevents, "best": int(r["best_iter"]), "iters": int(r["iterations"]), "fc": int(r["func_count"]),
                "train": float(r["train_set_size"]), "comp": int(r["components"]) if ok_ret else "differs from the posterior",
                "r": float(r["r_index"]), "status": r["convergence_status"], "success": bool(r["success_flag"]),
                "stable": st_flag, "elbo": float(r["elbo"]), "elbo_sd": float(r["elbo_sd"]), "msg": msg,
                "vp": tag(self.ret), "hvps": hv, "independent": bool(ind), "lens": lens.pop() if len(lens) == 1 else "unequal",
                "best2": best2,
                "unaltered": True if not altered else "iterations %s" % altered}
