import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import copy
import numpy as np
import scipy.stats as ss
import gpyreg as gpr
import vlib
from pyvbmc import priors as P
from pyvbmc.parameter_transformer import ParameterTransformer
from pyvbmc.variational_posterior import VariationalPosterior
from pyvbmc.function_logger import FunctionLogger
from pyvbmc.acquisition_functions import AcqFcn, AcqFcnLog, AcqFcnNoisy


class Shapes:
    def __init__(self, b):
        self.memo = {}

    def do(self, st):
        with np.errstate(all="ignore"):
            return getattr(self, st["op"])(st)

    def make(self, st):
        p = self.p = st["p"]
        D, K = p["D"], p["K"]
        r = self.rng = np.random.RandomState(p["seed"])
        # distinct points; 1-4 have integer coordinates
        self.X = {}
        while len(self.X) < 8:
            i = len(self.X) + 1
            x = r.randint(-5, 6, D).astype(float) + (0 if i <= 4 else r.choice([0.25, 0.5, 0.75], D))
            if all(not np.array_equal(x, y) for y in self.X.values()):
                self.X[i] = x
        lb, ub = np.full((1, D), -np.inf), np.full((1, D), np.inf)
        for j in range(D):
            if p["bnd"] == "all" or (p["bnd"] == "some" and j == 0):
                lb[0, j], ub[0, j] = -9.0, 8.0 + j
        pt = self.pt = ParameterTransformer(D, lb, ub, transform_type=p["ty"])
        vp = self.vp = VariationalPosterior(D, K, np.zeros((1, D)), pt)
        vp.mu = r.randn(D, K)
        vp.sigma = np.exp(0.3 * r.randn(1, K))
        vp.lambd = np.exp(0.3 * r.randn(D, 1))
        vp.lambd /= np.sqrt(np.mean(vp.lambd ** 2))
        w = r.rand(1, K) + 0.1
        vp.w = w / w.sum()
        lo = np.sort(r.randn(4, D), axis=0) * 4 + np.arange(4)[:, None] * 0.5
        A = r.randn(D, D)
        one = lambda j: [P.UniformBox(lo[0, j], lo[3, j]), ss.norm(lo[1, j], 2.0), P.SmoothBox(lo[1, j], lo[2, j], 1.5)][(j + p["seed"]) % 3]
        pr = {"uniform": P.UniformBox(lo[0], lo[3]), "trap": P.Trapezoidal(*lo), "spline": P.SplineTrapezoidal(*lo), "smooth": P.SmoothBox(lo[1], lo[2], 1.5, D=D),
              "scipy": P.SciPy(ss.norm(0.5, 3.0) if D == 1 else ss.multivariate_t(lo[1], A @ A.T + np.eye(D), df=3)),
              "mvn": P.SciPy(ss.multivariate_normal(lo[1], A @ A.T + np.eye(D))), "product": P.Product([one(j) for j in range(D)])}
        self.fn = {"pt": pt, "inv": pt.inverse, "jac": pt.log_abs_det_jacobian, "pdf": vp.pdf, "pdf_log": lambda *a, **k: vp.pdf(*a, log_flag=True, **k),
                   "pdf_trans": lambda *a, **k: vp.pdf(*a, orig_flag=False, **k), "log_pdf": vp.log_pdf,
                   "pdf_t": lambda *a, **k: vp.pdf(*a, df=3.0, **k),
                   "pdf_grad": lambda *a, **k: vp.pdf(*a, orig_flag=False, grad_flag=True, **k),
                   "logpdf_grad": lambda *a, **k: vp.log_pdf(*a, orig_flag=False, grad_flag=True, **k)}
        for k, q in pr.items():
            self.fn[k] = q.log_pdf
            self.fn[k + "_k"] = lambda x, q=q: q.log_pdf(x, keepdims=False)
        self.fn["prior_pdf"] = pr["product"].pdf
        gp = gpr.GP(D=D, covariance=gpr.covariance_functions.SquaredExponential(), mean=gpr.mean_functions.NegativeQuadratic(),
                    noise=gpr.noise_functions.GaussianNoise(constant_add=True))
        Xt = r.randn(6, D) * 3
        nh = D + 1 + 1 + 1 + 2 * D
        gp.update(X_new=Xt, y_new=-0.5 * np.sum(Xt ** 2, 1, keepdims=True), hyp=0.2 * r.randn(2, nh))
        ls = np.exp(0.2 * r.randn(D))
        gp.temporary_data["X_rescaled"], gp.temporary_data["sn2_new"] = Xt / ls, np.exp(r.randn(6))
        fl = FunctionLogger(lambda x: 0.0, D, False, 0, parameter_transformer=pt)
        fl(np.zeros(D))
        # the search region cuts off some of the points
        self.acqargs = (gp, vp, fl, {"integer_vars": None, "variance_regularized_acq_fcn": bool(p["seed"] % 2), "tol_gp_var": 0.5, "gp_length_scale": ls,
                                     "lb_eps_orig": np.full((1, D), -8.9), "ub_eps_orig": np.full((1, D), 7.9)})
        for k, c in {"acq": AcqFcn, "acq_log": AcqFcnLog, "acq_noisy": AcqFcnNoisy}.items():
            self.fn[k] = lambda x, c=c: c()(x, *self.acqargs)
        noisy, lev = p["noise"] > 0, p["noise"]
        self.seen = []

        def target(x):
            self.seen.append(np.array(x, copy=True))
            v = float(np.sum(np.sin(np.asarray(x) + np.arange(1, D + 1))))
            return (v, 0.5) if lev == 2 else v
        self.mk = lambda: FunctionLogger(target, D, noisy, lev, parameter_transformer=pt)
        self.fl = {"log_call": self.mk(), "log_add": self.mk()}
        return {"ok": True}

    def log(self, fl, fn, x):
        if fn == "log_call":
            f, sd, idx = fl(x)
        else:
            f, sd, idx = fl.add(x, float(np.sum(np.arange(1, self.p["D"] + 1) * np.ravel(x))), 0.5 if self.p["noise"] else None)
        return np.concatenate([[float(np.squeeze(f))], fl.X[idx], fl.X_orig[idx], [float(fl.y_orig[idx, 0])]])

    def value(self, fn, i):
        """The value at point i, asked for as a one-row matrix of floats."""
        if (fn, i) not in self.memo:
            x = self.X[i].reshape(1, -1).copy()
            if fn in self.fl:
                self.memo[fn, i] = self.log(self.mk(), fn, x)
            else:
                v = self.fn[fn](x)
                self.memo[fn, i] = np.concatenate([np.ravel(q) for q in v]) if isinstance(v, tuple) else np.ravel(v)
        return self.memo[fn, i]

    def container(self, form, is_):
        xs = np.array([self.X[i] for i in is_])
        D = self.p["D"]
        if form in ("ibatch", "iflat", "irow", "int", "iflatbatch"):
            xs = xs.astype(np.int64)
        if form in ("flat", "iflat", "kwflat", "flatbatch", "iflatbatch", "zerod"):
            xs = xs.ravel()
        if form == "stridedflat":
            xs = np.repeat(xs.ravel(), 2)[::2]
        if form == "zerod":
            return np.array(xs[0])
        if form == "list":
            return xs.ravel().tolist()
        if form == "nested":
            return xs.tolist()
        if form in ("scalar", "int"):
            return xs.ravel()[0].item()
        if form == "fortran":
            xs = np.asfortranarray(xs)
        if form == "strided":
            xs = np.repeat(np.repeat(xs, 2, axis=0), 3, axis=1)[::2, ::3]
        if form in ("readonly", "rorow"):
            xs.flags.writeable = False
        return xs

    def call(self, st):
        fn, form, is_ = st["fn"], st["form"], st["pts"]
        arg = self.container(form, is_)
        was = copy.deepcopy(arg)
        kw = form in ("kw", "kwflat")
        name = "u" if fn in ("inv", "jac") else "x"
        if fn in self.fl:
            self.seen.clear()
            out = self.log(self.fl[fn], fn, arg)
            rows, shape = [out], []
        else:
            v = self.fn[fn](**{name: arg}) if kw else self.fn[fn](arg)
            if isinstance(v, tuple):
                shape = list(np.shape(v[0]))
                g = np.reshape(v[1], (-1, self.p["D"]))
                gs = list(np.shape(v[1]))
                if len(shape) == 2 and gs != [len(is_), self.p["D"]] or len(shape) == 1 and gs != [self.p["D"]]:
                    shape = shape + ["gradient", gs]
                rows = [np.concatenate([[a], b]) for a, b in zip(np.ravel(v[0]), g)]
            else:
                shape = list(np.shape(v))
                rows = list(np.reshape(v, (len(is_), -1))) if np.size(v) % len(is_) == 0 else [v]
        # the point of the table each answer belongs to
        names = []
        for k, row in enumerate(rows):
            want = is_[k] if k < len(is_) else 0
            names.append(want if want and self.same(row, self.value(fn, want)) else
                         next((i for i in self.X if self.same(row, self.value(fn, i))), 0))
        ok = type(was) is type(arg) and (np.array_equal(arg, was) if not isinstance(arg, list) else arg == was)
        if isinstance(arg, np.ndarray):
            ok = ok and arg.dtype == was.dtype
        return {"rows": names, "shape": [-1] if st["exp"]["shape"] == [-1] else shape, "args": bool(ok)}

    def same(self, a, b):
        return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-9, atol=1e-11, equal_nan=True)

    def wrong(self, st):
        fn, d, n, D = st["fn"], st["d"], st["n"], self.p["D"]
        fl = self.fl.get(fn)
        if fl is not None:
            x = np.full(d, 0.25) if d != D else np.full((n, d), 0.25)
            was = (fl.Xn, fl.func_count, fl.X.copy(), fl.y.copy())
        else:
            x = np.full((n, d), 0.25)
        try:
            self.log(fl, fn, x) if fl is not None else self.fn[fn](x)
            rej = False
        except Exception:
            rej = True
        same = True
        if fl is not None:
            same = fl.Xn == was[0] and fl.func_count == was[1] and np.array_equal(fl.X, was[2], equal_nan=True) and np.array_equal(fl.y, was[3], equal_nan=True)
        return {"rejected": rej, "unchanged": bool(same)}


def run(c):
    b = vlib.tlc_many("Shapes", [dict(seed=vlib.SEED * 70 + j, simulate=1500 if c.thorough else 300) for j in range(8)],
                      constants=dict(Depth=25, Sim=True), invariants=["Emit", "Rows"], depth=30)
    c.model(b, "Shapes simulation")
    c.replay(b.behaviours, Shapes, "calling conventions", procs=8, budget=500)
    c.binding_selftest(b.behaviours[:10], Shapes, "calling conventions", skip=("p",))


if __name__ == "__main__":
    vlib.main("P17", run)
