import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import types
import numpy as np
import vlib, loopcheck, tracesys
from pyvbmc import VBMC
from pyvbmc.variational_posterior import VariationalPosterior
import pyvbmc.vbmc.variational_optimization as VO

FIELDS = {"iter": ["ev", "st.vpK", "pruned", "vp", "K"], "final": ["elbo", "vp", "K", "comp", "ev"], "continue": ["st.vpK"], "reload": ["st.vpK"]}
BASE = {}


def base(D):
    if D not in BASE:
        BASE[D] = VBMC(lambda x: 0.0, np.zeros((1, D)), plausible_lower_bounds=-np.ones((1, D)),
                       plausible_upper_bounds=np.ones((1, D)), options={"display": "off"})
    return BASE[D]


class Optimize:
    """optimize_vp with a scripted objective and scripted optimisers."""

    def __init__(self, b):
        np.random.seed(len(b[0]["p"]["u"]) + 5)

    def do(self, st):
        p = st["p"]
        D, K = p["D"], p["K"]
        v = base(D)
        o = v.options
        for k, x in {"tol_weight": p["tw"] / 151, "tol_improvement": p["tol"] / 8, "pruning_threshold_multiplier": (lambda K, m=p["mult"]: m),
                     "elcbo_impro_weight": p["W"], "elcbo_midpoint": p["mid"], "ns_ent": (lambda K: 10 * K), "ns_ent_fast": 0, "ns_ent_fine": 100}.items():
            o.__setitem__(k, x, force=True)
        os_ = dict(v.optim_state, warmup=p["warm"], entropy_switch=not p["stoch"])
        vp = VariationalPosterior(D, p["K0"])
        vp.mu = np.random.randn(D, p["K0"])
        vp.optimize_weights = True
        gp = types.SimpleNamespace(X=np.random.randn(12, D), y=np.random.randn(12, 1), posteriors=[None] * p["ns"])
        was = vp.mu.copy()
        self.n, self.cand, self.starts, self.okc, self.runs = {1: 0, 2: 0, 3: 0}, {}, [], True, 0
        real = getattr(VO, "_vb_init", None)
        self.p, self.D, self.K, self.fin = p, D, K, {}

        def vb_init(*a, **k):
            out, ty = real(*a, **k)
            for q, t in zip(out, ty):
                t = int(t)
                self.n[t] += 1
                q.v_value = p["vals"][t - 1][self.n[t] - 1]
                w = np.asarray(q.w)
                self.okc &= (q.mu.shape == (D, K) and q.sigma.shape == (1, K) and q.lambd.shape == (D, 1) and w.shape == (1, K)
                             and abs(w.sum() - 1) < 1e-9 and bool(np.all(w >= 0)) and bool(np.all(np.isfinite(q.mu))))
            return out, ty

        def neg(theta, gp, vp, beta=0.0, Ns=0, compute_grad=True, compute_var=None, theta_bnd=None, alpha=0.0, separate_K=False):
            vp.set_parameters(theta)
            if not separate_K:
                if hasattr(vp, "v_value") and not compute_grad:
                    self.cand[np.round(theta[: D * K], 8).tobytes()] = vp.v_value
                    return float(vp.v_value), None, 0.0, 0.0, 0.0
                return 0.0, np.zeros(theta.size), 0.0, 0.0, 0.0
            r, ids = self.decode(vp)
            gone = [k for k in range(1, K + 1) if k not in ids]
            n = len(ids)
            F = (p["fin"][r - 1] - 4 * sum(p["d"][k - 1] for k in gone)) / 16
            sd = (40 + p["sd"] - sum(p["ds"][k - 1] for k in gone)) / 4
            G = 7.0 * n + sum(ids)
            I = np.array([[10.0 * (s + 1) + k for k in ids] for s in range(p["ns"])])
            J = np.array([[[100.0 * (s + 1) + 10 * a + b for b in ids] for a in ids] for s in range(p["ns"])])
            return F, None, G, -F - G, sd ** 2, None, 3.0 * n + 1, n + 1.0, n + 2.0, I, J

        def end(x0, mid):
            if not mid:
                self.starts.append(self.cand.get(np.round(np.asarray(x0)[: D * K], 8).tobytes(), "not a candidate"))
                self.runs += 1
            r = 2 * self.runs - (1 if mid else 0)
            q = VariationalPosterior(D, K)
            q.mu = np.zeros((D, K))
            q.mu[0] = 1000 * r + np.arange(1, K + 1)
            q.sigma, q.lambd = np.ones((1, K)), np.ones((D, 1))
            if not p["warm"]:
                u = np.array(p["u"][r - 1], dtype=float).reshape(1, -1)
                q.w, q.optimize_weights = u / u.sum(), True
                q.eta = np.log(q.w)
            else:
                q.optimize_weights = False
            return q.get_parameters()

        def adam(f, x0, *a, **k):
            e, m = end(x0, False), None
            m = end(x0, True)
            far = np.full(m.shape, 7.0)
            return e, 0.0, np.stack([far, m, far], axis=1), np.array([3.0, -2.0, 5.0]), 3

        def smin(f, x0, *a, **k):
            return types.SimpleNamespace(success=True, x=end(x0, False), fun=0.0)
        with vlib.stubs((VO, "_vb_init", vb_init), (VO, "_neg_elcbo", neg), (VO, "minimize_adam", adam), (VO.sp.optimize, "minimize", smin)):
            out, var_ss, pruned = VO.optimize_vp(o, os_, vp, gp, p["F"], p["S"], K)
        r, ids = self.decode(out)
        s = out.stats
        res = {"run": r, "kept": ids, "K": out.K, "pruned": pruned, "w": out.w.ravel(),
               "sizes": [out.mu.shape[1], out.sigma.size, out.eta.size, out.w.size, s["I_sk"].shape[1], s["J_sjk"].shape[2]],
               "elbo": s["elbo"], "sd": s["elbo_sd"], "G": s["e_log_joint"], "Gsd": s["e_log_joint_sd"], "Hsd": s["entropy_sd"], "varss": var_ss,
               "I": s["I_sk"], "J": s["J_sjk"], "stable": s["stable"]}
        if isinstance(st["exp"]["out"], str):
            for q in st["outs"]:
                if q["kept"] == ids:
                    st["exp"]["out"] = q
        return {"starts": self.starts, "cands": [self.n[t] for t in (1, 2, 3)], "okcands": bool(self.okc),
                "same": bool(np.array_equal(was, vp.mu) and vp.K == p["K0"]), "out": res}

    def decode(self, vp):
        c = np.round(vp.mu[0]).astype(int)
        rs = set((c // 1000).tolist())
        return (rs.pop() if len(rs) == 1 else -1), (c % 1000).tolist()


def run(c):
    b = vlib.tlc_many("Optvp", [dict(seed=vlib.SEED * 50 + j, simulate=2500 if c.thorough else 250) for j in range(8)],
                      constants=dict(Sim=True), invariants=["Light", "Emit"], depth=4)
    c.model(b, "Optvp simulation")
    c.replay(b.behaviours, Optimize, "optimisation and pruning", procs=8, budget=400)
    c.binding_selftest(b.behaviours[:10], Optimize, "optimisation and pruning")
    loopcheck.loop(c, ["any", "stable", "noboost"], FIELDS, 300, 3000, reload=True)
    tracesys.real_runs(c, "P16")


if __name__ == "__main__":
    vlib.main("P16", run)
