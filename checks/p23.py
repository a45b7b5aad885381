import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import logging
import numpy as np
import gpyreg as gpr
import vlib
from vlib import num
import pyvbmc.acquisition_functions as AF
from pyvbmc import VBMC
from pyvbmc.acquisition_functions.utilities import string_to_acq
from pyvbmc.vbmc.active_importance_sampling import active_importance_sampling

logging.disable(logging.CRITICAL)


class FakeGP:
    """Answers with scripted predictions, per row."""
    def __init__(self, D, rows, mu, s2, tr=None):
        self.D, self.rows, self.mu, self.s2 = D, rows, mu, s2
        self.asked = []
        self.temporary_data = {}
        self.X, self.y = np.zeros((1, D)), np.zeros((1, 1))

    def predict(self, x_star=None, *a, **k):
        X = np.atleast_2d(x_star)
        self.asked.append(X.copy())
        if self.rows is None:
            return np.zeros((len(X), 1)), np.ones((len(X), 1))
        i = [int(np.argmin(np.sum((self.rows - r) ** 2, axis=1))) for r in X]
        mu, s2 = self.mu[i].copy(), self.s2[i].copy()
        if not k.get("separate_samples", len(a) > 2 and a[2]):
            m = mu.mean(1, keepdims=True)
            v = s2.mean(1, keepdims=True) + (mu.var(1, ddof=1, keepdims=True) if mu.shape[1] > 1 else 0)
            return m, v
        return mu, s2


class Acq:
    def __init__(self, b):
        pass

    def do(self, st):
        with np.errstate(all="ignore"):
            return getattr(self, "do_" + st["op"])(st["a"], st["exp"])

    def do_setup(self, a, exp):
        c = self.c = a["cf"]
        D = self.D = c["D"]
        B = np.array(c["bounded"])
        one = np.ones((1, D))
        lb, ub = np.where(B, -3.5, -np.inf) * one, np.where(B, 3.5, np.inf) * one
        o = dict(tol_gp_var=num(c["tol"]), tol_bound_x=10.0 ** -c["bx"])
        self.v = VBMC(lambda x: 0.0, 0 * one, lb, ub, -one, one, options=o)
        m = c["mix"]
        vp = self.v.vp
        K = m["K"]
        vp.K = K
        vp.mu = np.array(m["mu"], dtype=float).T / 4
        vp.sigma = np.array(m["sg"], dtype=float).reshape(1, K) / 4
        vp.lambd = np.array(m["la"], dtype=float).reshape(D, 1) / 3
        vp.w = np.array(m["w"], dtype=float).reshape(1, K) / sum(m["w"])
        vp.eta = np.log(vp.w)
        return {"ok": True}

    def do_acq(self, a, exp):
        v, D, c = self.v, self.D, self.c
        o = v.optim_state
        pt = v.parameter_transformer
        tol = 10.0 ** -c["bx"]
        rows = []
        for k in a["cs"]:
            z = np.array(k["z"], dtype=float) / 4
            e = k["edge"]
            if e["d"]:
                x = pt.inverse(z.reshape(1, -1))[0]
                f = e["f"] / 10 * tol * 7.0
                x[e["d"] - 1] = -3.5 + f if f > 0 else 3.5 + f
                z2 = pt(x.reshape(1, -1))[0]
                z[e["d"] - 1] = z2[e["d"] - 1]
            rows.append(z)
        rows = np.array(rows)
        gp = FakeGP(D, rows.copy(), np.array([k["m"] for k in a["cs"]], dtype=float) / 4, np.array([k["v"] for k in a["cs"]], dtype=float) / 16)
        t = a["tr"]
        ls = 2 / np.sqrt(np.array(t["lw"], dtype=float))
        o["gp_length_scale"] = ls
        n = len(t["x"])
        gp.X = np.array(t["x"], dtype=float)
        gp.y = np.zeros((n, 1))
        gp.temporary_data["X_rescaled"] = gp.X / ls
        gp.temporary_data["sn2_new"] = np.array(t["s"][:n], dtype=float) / 16
        v.function_logger.y_max = float(c["ymax"])
        if a["reg"]:
            o["variance_regularized_acq_fcn"] = self.reg0 if hasattr(self, "reg0") else o.get("variance_regularized_acq_fcn")
        else:
            self.reg0 = getattr(self, "reg0", o.get("variance_regularized_acq_fcn"))
            o["variance_regularized_acq_fcn"] = False
        acq = string_to_acq(a["kind"] + "()") if a["text"] else getattr(AF, a["kind"])()
        X = rows[0].copy() if a["flat"] else rows.copy()
        X0 = X.copy()
        r = acq(X, gp, v.vp, v.function_logger, o)
        vals = [float(x) for x in np.ravel(r)]
        vals = ["finite" if amb and np.isfinite(x) else x for x, amb in zip(vals, a["amb"])]
        return {"shape": list(np.shape(r)), "vals": vals, "same": bool(np.array_equal(X, X0))}

    def do_int(self, a, exp):
        v, D = self.v, self.D
        o = v.optim_state
        o["integer_vars"] = np.array(a["mask"], dtype=bool)
        gp = FakeGP(D, None, None, None)
        o["gp_length_scale"] = np.ones(D)
        gp.temporary_data = {"X_rescaled": np.zeros((1, D)), "sn2_new": np.ones(1)}
        v.function_logger.y_max = 0.0
        pt = v.parameter_transformer
        X = pt(np.array(a["xs"], dtype=float) / 10)
        X0 = X.copy()
        getattr(AF, a["kind"])()(X, gp, v.vp, v.function_logger, o)
        return {"at": pt.inverse(gp.asked[-1]), "same": bool(np.array_equal(X, X0))}

    def do_text(self, a, exp):
        i, q = a["i"], a["q"] / 100
        k, p = a["kind"], a["plain"]
        s = {1: p, 2: p + "()", 3: " %s( ) " % p, 4: k, 5: k + "()", 6: "%s(%g)" % (k, q), 7: "%s(quantile=%g)" % (k, q), 8: "%s( quantile = %g )" % (k, q), 9: "%s( %g ) " % (k, q)}[i]
        f = string_to_acq(s)
        g = getattr(AF, p if i <= 3 else k)
        g = g(q) if i > 5 else g()
        inf = f.acq_info
        r = {"class": type(f).__name__, "same": vars(f) == vars(g), "log": bool(inf.get("log_flag")), "imp": bool(inf.get("importance_sampling")), "viaq": bool(inf.get("variational_importance_sampling"))}
        if i > 3:
            r["u"] = float(f.u)
        return r

    def do_iqr(self, a, exp):
        D = a["D"]
        g = gpr.GP(D=D, covariance=gpr.covariance_functions.SquaredExponential(), mean=gpr.mean_functions.ZeroMean(), noise=gpr.noise_functions.GaussianNoise(constant_add=True))
        X = np.array(a["X"], dtype=float) / 4
        y = np.linspace(-1, 1, len(X)).reshape(-1, 1)
        hyp = np.array([[x / 4 for x in h["l"]] + [h["f"] / 4, h["s"]] for h in a["hs"]], dtype=float)
        g.update(X_new=X, y_new=y, hyp=hyp)
        one = np.ones((1, D))
        v = VBMC(lambda x: 0.0, 0 * one, None, None, -one, one, options=dict(tol_gp_var=num(a["tol"])))
        o = v.optim_state
        if not a["reg"]:
            o["variance_regularized_acq_fcn"] = False
        A = np.array(a["A"], dtype=float) / 4
        acq = getattr(AF, a["kind"])(a["q"] / 100)
        if a["kind"] == "AcqFcnVIQR":
            # importance points: the posterior's samples
            v.vp.sample = lambda *p, **k: (A.copy(), np.zeros(len(A)))
            o["active_importance_sampling"] = active_importance_sampling(v.vp, g, acq, v.options)
        else:
            cn = g.covariance.hyperparameter_count(D)
            o["active_importance_sampling"] = {
                "X": A.copy(), "f_s2": g.predict(A, separate_samples=True)[1], "ln_weights": np.array(a["lw"], dtype=float),
                "K_Xa_X": np.array([g.covariance.compute(p.hyp[:cn], A, g.X) for p in g.posteriors])}
        o["gp_length_scale"] = np.ones(D)
        g.temporary_data["X_rescaled"] = X
        g.temporary_data["sn2_new"] = np.array(a["sn"], dtype=float) / 16
        xs = np.array(a["xs"], dtype=float) / 4
        if a["flat"]:
            xs = xs[0]
        was = xs.copy()
        r = acq(xs, g, v.vp, v.function_logger, o)
        vals = [float(x) for x in np.ravel(r)]
        # vanishing uncertainty: rounding errors decide
        vals = ["finite" if t and np.isfinite(x) else x for x, t in zip(vals, a["tie"])]
        for i, x in enumerate(vals):
            if isinstance(x, float):
                e, e0 = exp["vals"][i], a["base"][i]
                e, e0 = (t if isinstance(t, str) else num(t) for t in (e, e0))
                # vanishing uncertainty reduction: rounding errors decide its logarithm
                if isinstance(e, float) and (e0 == "-inf" or (isinstance(e0, float) and e0 < -9)) and x < e + 12:
                    vals[i] = e
        return {"vals": vals, "shape": list(np.shape(r)), "same": bool(np.array_equal(xs, was))}


def run(c):
    q = 8 if c.thorough else 1
    for mode, n, tol in (("std", 150, (1e-9, 1e-12)), ("int", 60, (1e-7, 1e-7)), ("text", 30, (1e-12, 1e-12)), ("iqr", 40, (1e-5, 1e-5))):
        b = vlib.tlc_many("Acq", [dict(seed=vlib.SEED * 61 + j, simulate=n * q) for j in range(8)], constants=dict(Depth=14, Sim=True, Mode=mode), invariants=["Emit"], depth=40)
        c.model(b, "Acq simulation: " + mode)
        c.replay(b.behaviours, Acq, "acquisition values: " + mode, procs=8, budget=400, tol=tol)
        c.binding_selftest(b.behaviours[:10], Acq, "acquisition values: " + mode, tol=tol)


if __name__ == "__main__":
    vlib.main("P23", run)
