"""Traces of whole real runs, planned and followed by RunTrace.tla."""
import json
import logging
import math
import multiprocessing as mp
import signal
import time
import traceback

import numpy as np

import vlib
import pyvbmc.vbmc.vbmc as V
from pyvbmc import VBMC
from pyvbmc.priors import UniformBox
from loopsys import TRACKED
from runsys import digest, gp_view, vp_view

Q = 10000
TR = []            # recorded traces, inherited by the replaying processes


def f10(K): return 10 * K
def f20(K): return 20 * K


def options(c, pts):
    ent = {"none": [], "same": f10, "more": f20}
    kd, bonus = c["kdiv"], c["bonus"]
    o = dict(
        display="off", plot=False, ns_search=64, search_optimizer=c["srch"], search_max_fun_evals=60, ns_elbo=5, elcbo_midpoint=False,
        gp_train_n_init=16, gp_train_n_init_final=8, ns_ent=f10, ns_ent_fast=0, ns_ent_fine=30, max_iter_stochastic=40, elbo_starts=2,
        ns_ent_boost=ent[c["entb"]], ns_ent_fast_boost=[], ns_ent_fine_boost=[],
        fun_eval_start=c["fes"], fun_evals_per_iter=c["fper"], max_fun_evals=c["maxf"], min_fun_evals=c["minf"], max_iter=c["maxi"],
        min_iter=c["mini"], tol_stable_count=c["tsc"], tol_stable_excpt_frac=c["exc"] / 4, tol_improvement=c["ti"] / 100,
        tol_sd=c["tsd"] / 100, tol_skl=c["tskl"] / 100, entropy_switch=c["esw"], tol_stable_entropy_iters=c["tse"],
        entropy_force_switch=c["efs"] / 4, det_entropy_min_d=c["detmin"], warmup=c["warm"], tol_stable_warmup=c["tsw"],
        stop_warmup_thresh=c["swt"] / 10, warmup_check_max=c["wcm"], warmup_no_impro_threshold=c["wni"],
        stop_warmup_reliability=c["swr"], warmup_keep_threshold=c["keep"],
        warmup_keep_threshold_false_alarm=None if c["keepfa"] == -1 else c["keepfa"],
        skip_active_sampling_after_warmup=c["skipaw"], variable_weights=c["vw"], variable_means=True,
        warp_every_iters=c["we"], incremental_warp_delay=c["winc"], warp_min_k=c["wmk"], warp_tol_reliability=c["wtr"],
        warp_undo_check=c["wuc"], warp_tol_improvement=c["wti"] / 100, warp_tol_sd_multiplier=2, warp_tol_sd_base=1,
        warp_rotoscaling=c["wrot"], do_final_boost=c["boost"], min_final_components=c["mfc"], stable_gp_samples=c["sgs"],
        stable_gp_sampling=c["sgN"], ns_gp_max=c["nsgp"], ns_gp_max_warmup=c["nsw"], ns_gp_max_main=2, elcbo_impro_weight=c["eiw"],
        k_warmup=c["kw"], k_fun_max=lambda N: N / kd, adaptive_k=lambda unkn: bonus, tol_weight=c["twt"] / 100,
        gp_mean_fun=c["mean"], always_refit_vp=False)
    if c["lvl"] == 1:
        o["uncertainty_handling"] = [1]
    if c["lvl"] == 2:
        o.update(specify_target_noise=True, active_importance_sampling_mcmc_samples=10, active_importance_sampling_fess_thresh=0.5)
    if c["pre"]:
        o["f_vals"] = pts
    return o


class Target:
    def __init__(self, c):
        self.c, self.calls = c, []

    def value(self, x):
        x = np.ravel(x)
        D = x.size
        if self.c["tgt"] == "gauss":
            return float(-0.5 * np.sum((x - 0.2) ** 2 / np.array([1, 0.2, 0.5])[:D]) - 1)
        if self.c["tgt"] == "curved":
            r = -0.5 * x[0] ** 2
            if D > 1:
                r -= 2 * (x[1] - 0.7 * x[0] ** 2 + 0.5) ** 2
            return float(r - 0.5 * np.sum(x[2:] ** 2))
        a, b = (-0.5 * np.sum((x - m) ** 2 / 0.15) for m in (0.8, -0.8))
        return float(np.logaddexp(a, b - 0.5))

    def __call__(self, x):
        x = np.ravel(np.array(x, dtype=float))
        y = self.value(x)
        if self.c["lvl"]:
            y += 0.2 * np.random.randn()
        s = 0.2 + 0.05 * abs(math.sin(5 * x[0]))
        self.calls.append((x, y, s))
        return (y, s) if self.c["lvl"] == 2 else y


def q(v):
    v = float(v)
    return int(round(max(-10000.0, min(10000.0, v)) * Q)) if v == v else 10000 * Q


def record(c):
    """Run the solver on a plan; returns the trace (integers for TLC), the values of the names
    and the observations of each step."""
    logging.disable(logging.CRITICAL)
    np.random.seed(c["seed"])
    D = c["D"]
    one = np.ones((1, D))
    x0 = np.linspace(-0.5, 0.6, c["nx"])[:, None] * one + 0.05 * np.arange(D)[None, :]
    b = {"none": np.inf * one, "box": 3.0 * one, "mixed": np.where(np.arange(D) % 2 == 0, 3.0, np.inf)[None, :]}[c["bnd"]]
    tgt = Target(c)
    prior = UniformBox(np.full(D, -3.0), np.full(D, 3.0)) if c["prior"] and c["bnd"] == "box" else None
    lp = -D * math.log(6.0) if prior is not None else 0.0
    vals = None
    if c["pre"]:
        vals = np.array([tgt.value(x) + lp for x in x0])
    opts = options(c, vals)
    v = VBMC(tgt, x0, -b, b, -one, one, options=opts, prior=prior)
    fits = []          # fits asked for by the main loop
    real = getattr(V, "optimize_vp", None)
    import inspect
    sig = inspect.signature(real) if real is not None else None

    def watch(*a, **k):
        try:
            ba = sig.bind(*a, **k)
            ba.apply_defaults()
            A = ba.arguments
            e = dict(it=int(A["optim_state"]["iter"]), K=int(A["K"] if A["K"] is not None else A["vp"].K), ns=int(A["slow_opts_N"]),
                     om=bool(A["vp"].optimize_mu), ow=bool(A["vp"].optimize_weights and not A["optim_state"]["warmup"]), vp=mix(A["vp"]), gp=digest(gp_view(A["gp"])),
                     boost=float(A["options"]["tol_weight"]) == 0)
        except Exception:
            e = None
        r = real(*a, **k)
        if e is not None:
            try:
                e.update(e=float(r[0].stats["elbo"]), sd=float(r[0].stats["elbo_sd"]), Kout=int(r[0].K))
                fits.append(e)
            except Exception:
                pass
        return r
    if real is not None:
        V.optimize_vp = watch
    try:
        vp, res = v.optimize()
    finally:
        if real is not None:
            V.optimize_vp = real
    H = v.iteration_history
    n = len(H["iter"])
    names, tl, obs = {}, [], []
    calls = tgt.calls
    # rows of the points, in the order in which distinct points came up
    seen = {x0[k].tobytes(): k + 1 for k in range(min(len(x0), c["fes"]))} if c["pre"] else {}
    rowof = [seen.setdefault(x.tobytes(), len(seen) + 1) for x, _, _ in calls]
    if len(set(rowof)) < len(rowof) and (c["lvl"] or any(a.startswith("rotoscale") for h in H["logging_action"] for a in h)):
        return None    # repeated points in noisy or reparameterised runs are not followed
    for i in range(n):
        fl, os_, w, gp = H["function_logger"][i], H["optim_state"][i], H["vp"][i], H["gp"][i]
        st = w.stats
        N = fl.Xn + 1
        acts = list(H["logging_action"][i])
        act = [bool(x) for x in fl.X_flag[:N]]
        y = fl.y_orig[:N].ravel()
        X = fl.X_orig[:N]
        wstart = any(a.startswith("rotoscale") for a in acts)
        undone = any(a.startswith("undo") for a in acts)
        trim = any(a in ("trim data", "end warm-up") for a in acts)
        npt = bool(i and H["vp"][i - 1].parameter_transformer != w.parameter_transformer)
        fi = [f for f in fits if f["it"] == i and not f["boost"]]
        want = 2 if wstart and c["wuc"] else 1
        ok = len(fi) == want
        wf = dict(known=False, e=0, sd=0, K=0)
        if ok and want == 2:
            wf = dict(known=True, e=q(fi[0]["e"]), sd=q(fi[0]["sd"]), K=fi[0]["Kout"])
        f_mu, f_s2 = gp.predict(gp.X, gp.y, gp.s2, add_noise=False)
        Isk = np.atleast_2d(st["I_sk"])
        wt = np.ravel(w.w)
        names.update({"$e%d" % i: H["elbo"][i], "$s%d" % i: H["elbo_sd"][i], "$k%d" % i: H["sKL"][i], "$n%d" % i: os_["sn2_hpd"],
                      "$p%d" % i: H["pruned"][i], "$g%d" % i: st["e_log_joint"], "$h%d" % i: st["entropy"], "$gs%d" % i: st["e_log_joint_sd"],
                      "$hs%d" % i: st["entropy_sd"], "$ne%d" % i: H["n_eff"][i], "$r%d" % i: H["r_index"][i],
                      "$l%d" % i: np.max(f_mu - c["eiw"] * np.sqrt(f_s2)),
                      "$gw%d" % i: float(np.sum(wt * np.mean(Isk, axis=0))) if Isk.shape[1] == wt.size else math.nan})
        tl.append(dict(e=q(H["elbo"][i]), sd=q(H["elbo_sd"][i]), r=q(H["r_index"][i]), sl=q(H["elcbo_impro"][i]), lcb=q(H["lcb_max"][i]),
                       pruned=int(H["pruned"][i]), ns=int(H["Ns_gp"][i]), fc=int(H["func_count"][i]), K=int(w.K), act=act, y=[q(x) for x in y],
                       warp=wstart, kept=wstart and not undone, trim=trim, warm=bool(H["warmup"][i]), st=bool(H["stable"][i]),
                       esw=bool(os_["entropy_switch"]), wfit=wf, fit=dict(known=ok)))
        # where the rows of the log come from
        rows = []
        for j in range(N):
            hit = [k for k, (x, yy, s) in enumerate(calls) if np.allclose(x, X[j], rtol=1e-12, atol=1e-12) and abs(yy + lp - y[j]) < 1e-9]
            pre = c["pre"] and any(np.allclose(x0[k], X[j], rtol=1e-12, atol=1e-12) and abs(vals[k] - y[j]) < 1e-9 for k in range(len(x0)))
            rows.append(hit[0] + 1 if hit else 0 if pre else -1)
        noise = True
        if c["lvl"] == 2:
            noise = all(abs(float(np.ravel(fl.S)[j]) - calls[k - 1][2]) < 1e-12 for j, k in enumerate(rows) if k > 0)
        same = True
        cnt = [0] * N
        for k in list(range(1, len(seen) - len(set(rowof)) + 1)) + rowof[:fl.func_count]:
            if k <= N:
                cnt[k - 1] += 1
        if i:
            p = H["function_logger"][i - 1]
            M = p.Xn + 1
            same = bool(M <= N and np.array_equal(p.X_orig[:M], X[:M]) and np.allclose(p.y_orig[:M], fl.y_orig[:M], rtol=1e-14, atol=0))
        same = same and [int(k) for k in np.ravel(fl.n_evals[:N])] == cnt
        gi = []
        for r in range(gp.X.shape[0]):
            hit = [j for j in range(N) if np.array_equal(fl.X[j], gp.X[r]) and abs(float(fl.y[j, 0]) - float(gp.y[r, 0])) < 1e-12]
            gi.append(hit[0] + 1 if hit else -1)
        if c["lvl"] == 2:
            s2 = gp.s2 is not None and bool(np.allclose(np.ravel(gp.s2), fl.S[:N].ravel()[fl.X_flag[:N]] ** 2, rtol=1e-9))
        elif c["lvl"] == 1:
            s2 = gp.s2 is not None and bool(np.allclose(np.ravel(gp.s2), 1.0))
        else:
            s2 = gp.s2 is None
        pt = fl.parameter_transformer
        co, A = True, np.array(act)
        if pt != w.parameter_transformer:
            co = "log and posterior use different coordinates"
        elif not np.allclose(pt(X[A]), fl.X[:N][A], rtol=1e-9, atol=1e-9):
            co = "points disagree with the coordinates"
        elif not np.allclose(y[A] + pt.log_abs_det_jacobian(fl.X[:N][A]), fl.y[:N].ravel()[A], rtol=1e-9, atol=1e-9):
            co = "values disagree with the volume correction"
        shapes = bool(w.mu.shape == (D, w.K) and w.sigma.size == w.K and wt.size == w.K and w.lambd.size == D and Isk.shape[1] == w.K)
        eljnow = True
        if not trim:
            from pyvbmc.vbmc.variational_optimization import _gp_log_joint
            G = float(np.ravel(_gp_log_joint(w, gp, False, True, True, False)[0])[0])
            eljnow = bool(abs(G - st["e_log_joint"]) < 1e-6 * (1 + abs(G))) or "now %.9g, recorded %.9g" % (G, st["e_log_joint"])
        agree = [k for k, a, bb in (
            ("N", os_["N"], N), ("n_eff", os_["n_eff"], H["n_eff"][i]), ("iter", os_["iter"], i), ("iteration", H["iter"][i], i),
            ("K", os_["vp_K"], w.K), ("R", os_["R"], H["r_index"][i]), ("lcb_max", os_["lcb_max"], H["lcb_max"][i]),
            ("func_count", fl.func_count, H["func_count"][i]), ("cache", fl.cache_count, sum(r == 0 for r in rows)),
            ("H", os_["H"], st["entropy"]), ("hyp", 1, 1)) if not (a == bb or (a != a and bb != bb))]
        tl_os = np.ravel(os_["data_trim_list"])
        obs.append(dict(
            acts=acts, warp=wstart, kept=wstart and not undone, N=int(N), fc=int(H["func_count"][i]), neff=float(H["n_eff"][i]), calls=rows,
            inside=bool(all(np.all(np.isfinite(x)) and np.all(np.abs(x) < b.ravel()) for x, _, _ in calls)), lognow=noise, keptlog=same, act=act,
            gpidx=gi, gps2=s2, coords=co, pt=npt, ns=int(H["Ns_gp"][i]), K=int(w.K), shapes=shapes,
            weights=bool(np.all(wt >= 0) and abs(wt.sum() - 1) < 1e-9), pruned=float(H["pruned"][i]),
            fit=dict(K=fi[-1]["K"], ns=min(2, fi[-1]["ns"]), om=fi[-1]["om"], ow=fi[-1]["ow"]) if ok else None,
            elbo=float(H["elbo"][i]), elbo_sd=float(H["elbo_sd"][i]), elj=float(st["e_log_joint"]), eljnow=eljnow, stat=float(st["elbo"]),
            statsd=float(st["elbo_sd"]), lcb=float(H["lcb_max"][i]), r=float(H["r_index"][i]), slope=float(H["elcbo_impro"][i]),
            stable=bool(H["stable"][i]), last=i == n - 1, warmup=bool(H["warmup"][i]), trims=[int(x) for x in tl_os],
            last_warmup=float(os_["last_warmup"]), wcount=int(os_["warping_count"]), lastwarp=float(os_["last_warping"]),
            lastsucc=float(os_["last_successful_warping"]), skip=bool(os_["skip_active_sampling"]), recomp=bool(os_["recompute_var_post"]),
            esw=bool(os_["entropy_switch"]), vpK=int(os_["vp_K"]), stopsamp=float(os_["stop_sampling"]), agree=not agree or agree,
            msg=message(res["message"])))
    bf = [f for f in fits if f["boost"]]
    hd = [digest(vp_view(H["vp"][i])) for i in range(n)]
    hm = [mix(H["vp"][i]) for i in range(n)]
    hg = [digest(gp_view(H["gp"][i])) for i in range(n)]
    find = lambda d, l: l.index(d) if d in l else -1
    bi = int(res["best_iter"])
    # the same digest can occur for several iterations: prefer the best one
    at = lambda d, l: bi if 0 <= bi < n and l[bi] == d else find(d, l)
    boost = dict(done=bool(bf))
    if bf:
        boost.update(K=bf[0]["K"], start=at(bf[0]["vp"], hm), gp=at(bf[0]["gp"], hg), tolw=True)
    names.update({"$fe0": vp.stats["elbo"], "$fs0": vp.stats["elbo_sd"]})
    shares = [k for k in ("mu", "sigma", "lambd", "w") if np.shares_memory(getattr(vp, k), getattr(v.vp, k))]
    fin = dict(best=bi, iters=int(res["iterations"]), fc=int(res["func_count"]), calls=len(calls), train=float(res["train_set_size"]), K=int(vp.K),
               rK=int(res["components"]), r=float(res["r_index"]), status=res["convergence_status"], success=bool(res["success_flag"]),
               stable=bool(vp.stats["stable"]), problem=res["problem_type"], elbo=float(res["elbo"]), elbo_sd=float(res["elbo_sd"]),
               same=hd[bi] == digest(vp_view(vp)), lens=n if all(len(H[k]) == n for k in TRACKED if k in H) else [k for k in TRACKED if len(H[k]) != n],
               boost=boost, independent=vp is not v.vp and vp.stats is not v.vp.stats and not shares, state=digest(vp_view(vp)) == digest(vp_view(v.vp)),
               elbosum=bool(abs(vp.stats["elbo"] - vp.stats["e_log_joint"] - vp.stats["entropy"]) < 1e-9 * (1 + abs(vp.stats["elbo"]))))
    return dict(cfg=c, t=tl, rows=rowof, f=dict(best=bi, bk=len(bf) == (1 if bf else 0) and real is not None)), {k: float(x) for k, x in names.items()}, obs, fin


def message(m):
    for k in ("max_fun_evals", "max_iter", "stable"):
        if k in m:
            return k
    return m


def mix(vp):
    return digest([vp.K, vp.mu, vp.sigma, vp.lambd, vp.w, vp_view(vp)[-1]])


def _one(c):
    t0 = time.time()

    def late(*a):
        raise TimeoutError("the run does not end")
    signal.signal(signal.SIGALRM, late)
    signal.alarm(400)
    try:
        r = record(c)
    except Exception as e:
        if not vlib.from_code(e):
            return "error", traceback.format_exc(), c, time.time() - t0
        if isinstance(e, np.linalg.LinAlgError):
            return "gave up", None, c, time.time() - t0
        if isinstance(e, RuntimeError) and "Cannot optimize variational parameters" in str(e):
            return "gave up", None, c, time.time() - t0      # the optimiser of SciPy says that it did not converge
        return "raised", "".join(traceback.format_exception(e))[-1500:], c, time.time() - t0
    finally:
        signal.alarm(0)
    if r is None:
        return "gave up", None, c, time.time() - t0
    return "ok", r, c, time.time() - t0


class Trace:
    """Plays back what was recorded of one run."""

    def __init__(self, b):
        self.names, self.obs, self.fin = TR[b[0]["a"]["run"] - 1]

    def do(self, st):
        vlib.ENV.update(self.names)
        if st["op"] == "run":
            return {"ok": True}
        return self.obs[st["a"]["it"]] if st["op"] == "iter" else self.fin


FIELDS = {
    "P02": {"iter": ["N", "fc", "skip", "last", "msg"], "final": ["iters", "fc", "calls"]},
    "P03": {"iter": ["inside"]},
    "P05": {"iter": ["r", "slope", "stable", "last", "esw", "msg"], "final": ["stable", "success"]},
    "P06": {"iter": ["warmup", "act", "trims", "last_warmup", "skip", "recomp", "gpidx"]},
    "P07": {"final": ["best", "stable", "same", "elbo", "elbo_sd"]},
    "P08": {"iter": ["stat", "statsd"], "final": "all"},
    "P09": {"iter": ["stat", "statsd", "agree", "keptlog", "fc", "N", "neff", "K", "act", "gpidx", "coords"], "final": ["lens"]},
    "P12": {"iter": ["warp", "kept", "pt", "wcount", "lastwarp", "lastsucc", "coords", "keptlog", "act", "gpidx", "fc", "N"]},
    "P16": {"iter": ["K", "vpK", "shapes", "weights", "pruned", "fit"]},
    "P21": {"iter": ["calls", "N", "fc"]},
    "P22": {"iter": ["calls", "N", "fc", "gpidx", "keptlog"]},
    "P24": {"iter": ["gpidx", "gps2", "coords", "lognow", "neff"]},
    "P25": {"iter": ["ns", "stopsamp"]},
    "P27": {"iter": ["elbo", "elbo_sd", "elj", "eljnow", "stat", "statsd", "shapes"], "final": ["elbosum", "elbo", "elbo_sd"]},
}
TOL = (1e-6, 1e-6)


def real_runs(c, prop, quick=16, thorough=240):
    """Record real runs planned by the specification and let it follow them."""
    n = thorough if c.thorough else quick
    r = vlib.tlc_many("RunTrace", [dict(seed=vlib.SEED * 7000 + 100 * j + int(prop[1:]), simulate=n // 4) for j in range(4)],
                      constants=dict(Mode="plan", Sim=True), invariants=["Emit"], depth=3)
    plans = [b[1]["a"] for b in r.behaviours]
    t0 = time.time()
    with mp.get_context("fork").Pool(8) as pool:
        outs = pool.map(_one, plans, chunksize=1)
    spent = time.time() - t0
    for kind, what, plan, _ in outs:
        if kind == "error":
            raise vlib.MachineryError("recording a run: " + what)
        if kind == "raised":
            c.violation("real runs: unexpected exception from the code: " + what, {"plan": plan})
    outs = [o for o in outs if o[0] == "ok"]
    TR[:] = [o[1][1:] for o in outs]
    if not outs:
        return
    m = vlib.tlc("RunTrace", constants=dict(Mode="check", Sim=False), invariants=["TrimKeeps", "OneAlarm", "WarmOnce", "LogLen", "Emit"],
                 files={"trace.json": json.dumps([o[1][0] for o in outs])}, workers=4)
    c.model(m, "RunTrace: real runs followed")
    ev = {}
    for o in outs:
        for x in o[1][2]:
            for a in x["acts"]:
                ev[a] = ev.get(a, 0) + 1
    c.parts.append({"real_runs": len(outs), "not judged (numerical failure, repeated points under noise)": len(plans) - len(outs), "iterations": sum(len(o[1][2]) for o in outs),
                    "actions logged": ev, "boosted": sum(o[1][3]["boost"]["done"] for o in outs),
                    "ended": [o[1][2][-1]["msg"] for o in outs], "record_s": round(spent, 1)})
    c.replay(m.behaviours, Trace, "real runs", tol=TOL, fields=FIELDS[prop], procs=4)
    c.binding_selftest(m.behaviours[:4], Trace, "real runs", tol=TOL, fields=FIELDS[prop], tries=3)
