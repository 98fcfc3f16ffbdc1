"""Independent reference implementations (no quocslib code) the monitors compare against."""
import math

import numpy as np
from scipy.special import erf


# ---------------------------------------------------------------------------------------------------- pulses
def eval_function(fd, files, t, p=None, default=0.0):
    """Value of an initial_guess / scaling_function dictionary on the grid."""
    if fd is None:
        return default + 0.0 * t
    if fd["function_type"] == "list_function":
        return np.asarray(fd["list_function"], dtype=float)
    if fd["function_type"] == "lambda_function":
        f = eval(fd["lambda_function"], {"np": np})
        if f.__code__.co_argcount == 2:
            return ("full", f(t, p))
        return f(t)
    name = fd["file_path"].split("/")[-1]
    name = name if name.endswith(".py") else name + ".py"
    ns = {}
    exec(files[name], ns)
    f = ns[fd["function_name"]]
    if f.__code__.co_argcount == 2:
        return ("full", f(t, p))
    return f(t)


def step(t, c, s):
    return 0.5 * (1.0 + erf((t - c) / (math.sqrt(2.0) * s)))


class RefPulse:
    def __init__(self, pd, T, files):
        self.pd, self.T, self.files = pd, float(T), files
        self.n = pd["bins_number"]
        self.t = np.array([i * self.T / (self.n - 1) for i in range(self.n)]) if self.n > 1 else np.zeros(1)
        lo, hi = pd.get("lower_limit", 0.0), pd.get("upper_limit", 1.0)
        self.lo, self.hi = min(lo, hi), max(lo, hi)
        self.base = np.zeros(self.n)

    def limit(self, u):
        u = np.array(u, dtype=float)
        if not self.pd.get("shrink_ampl_lim"):
            return np.clip(u, self.lo, self.hi)
        if u.min() >= self.hi or u.max() <= self.lo:
            return np.clip(u, self.lo, self.hi)
        if u.max() > self.hi:
            m, M = u.min(), u.max()
            u = m + (u - m) * (self.hi - m) / (M - m)
        if u.min() < self.lo:
            m, M = u.min(), u.max()
            u = M - (M - u) * (M - self.lo) / (M - m)
        return u

    def guess(self):
        return self.limit(eval_function(self.pd.get("initial_guess"), self.files, self.t, default=0.0) + 0.0 * self.t)

    def scale(self, u):
        v = eval_function(self.pd.get("scaling_function"), self.files, self.t, u, default=1.0)
        if isinstance(v, tuple):
            return v[1]
        return v * u

    def shaped(self, x, w):
        """The update pulse of the basis for coefficients x and super parameters w."""
        b = self.pd["basis"]
        n, t, T = b["basis_name"], self.t, self.T
        x = np.asarray(x, dtype=float)
        w = np.asarray(w, dtype=float)
        k = b.get("basis_vector_number", 1)
        amp = self.pd.get("amplitude_variation", 1.0)
        if n == "PiecewiseBasis":
            return x.copy()
        if n in ("Fourier", "DummyBasis", "Walsh"):
            u = np.zeros(self.n)
            for i in range(k):
                u = u + x[2 * i] * np.sin(2 * np.pi * w[i] * t / T) + x[2 * i + 1] * np.cos(2 * np.pi * w[i] * t / T)
            if n == "Walsh":
                g = self.guess()
                u = self.limit(g + u) - g
            return u
        if n == "Chebyshev":
            e = 1e-10
            u = np.zeros(self.n)
            for i in range(k):
                u = u + x[2 * i] * np.cos(w[i] * np.arccos(-1 + e + 2 * (1 - e) * t / T) + x[2 * i + 1])
            return u
        if n == "Sinc":
            hi = b.get("basis_max", 1.0)
            u = np.zeros(self.n)
            for i in range(k):
                u = u + x[i] * np.sinc(2.0 * hi * (t - w[i]) / T)
            return u
        d_sig = 0.1 if n == "Sigmoid" else 1e-10
        sg = b.get("sigma", d_sig)
        off = b.get("offset", 0.1 if n == "Sigmoid" else -10 * sg)
        A = x[:k + 1]
        taus = w.copy()
        sig = np.full(k, sg)
        tv, sv = b.get("tau_variation"), b.get("sigma_variation")
        rest = x[k + 1:]
        if n == "SigmoidTimeDep":
            tv = 0.1 if tv is None else tv
            taus = self.taus(taus + rest * tv / amp, off)
        elif n == "SigmoidSigmas":
            ds = np.abs(rest) * (1.0 if sv is None else sv)
            sig = self.sigmas(ds, taus, sg, off)
        elif n == "SigmoidAllParas":
            use_t = tv is not None and tv > 1e-10
            use_s = sv is not None and sv > 1e-10
            dt = rest[:k] * tv / amp if use_t else np.zeros(k)
            ds = np.abs(rest[k if use_t else 0:]) * sv / amp if use_s else np.zeros(k)
            if use_t:
                taus = self.taus(taus + dt, off)
            sig = self.sigmas(ds, taus, sg, off) if use_s else np.full(k, sg)
        u = A[0] * step(t, off, sg)
        for i in range(k):
            u = u + A[i + 1] * step(t, taus[i], sig[i])
        if not (n == "SigmoidAllParas" and off < 1e-10):
            u = u - A.sum() * step(t, T - off, sg)
        return u

    def taus(self, taus, off):
        """Step times pushed back between offset and T - offset."""
        lo, hi = off, self.T - off
        if len(taus) == 1:
            return np.clip(taus, min(lo, hi), max(lo, hi)) if lo <= hi else taus
        if taus.min() >= lo and taus.max() <= hi:
            return taus
        a, b = min(taus.min(), lo), max(taus.max(), hi)
        return lo + (taus - a) * (hi - lo) / (b - a)

    def sigmas(self, ds, taus, sg, off):
        if off < 1e-10:
            return sg + ds
        room = (self.T / 2 - np.abs(self.T / 2 - taus)) * sg / off - sg
        return sg + room * (1 - np.cos(np.pi * ds)) / 2

    def build(self, x, w):
        ops = self.pd.get("shaping_options") or ["add_initial_guess", "add_base_pulse", "add_new_update_pulse",
                                                  "scale_pulse", "limit_pulse"]
        u = np.zeros(self.n)
        for o in ops:
            if o == "add_initial_guess":
                u = u + self.guess()
            elif o == "add_base_pulse":
                u = u + self.base
            elif o == "add_new_update_pulse":
                u = u + self.shaped(x, w)
            elif o == "scale_pulse":
                u = self.scale(u)
            elif o == "limit_pulse":
                u = self.limit(u)
        return u

    def commit(self, x, w):
        """End of a super-iteration: the update becomes part of the base pulse."""
        if self.pd.get("overwrite_base_pulse"):
            self.base = self.shaped(x, w)
        else:
            self.base = self.base + self.shaped(x, w)


class RefControls:
    def __init__(self, cfg):
        o = cfg["opt"]
        T = {t["time_name"]: t["initial_value"] for t in o["times"]}
        self.pulses = [RefPulse(p, T[p["time_name"]], cfg.get("files", {})) for p in o["pulses"]]
        self.params = o["parameters"]
        from .gen import basis_dim
        self.dims = [basis_dim(p["basis"], p["bins_number"]) for p in o["pulses"]]
        self.chopped = [p["basis"]["basis_name"] != "PiecewiseBasis" for p in o["pulses"]]
        self.dim = sum(self.dims) + len(self.params)

    def split(self, x):
        x = np.asarray(x, dtype=float)
        out, i = [], 0
        for d in self.dims:
            out.append(x[i:i + d])
            i += d
        return out, x[i:]

    def supers(self, ws):
        """Super parameters per pulse; only chopped pulses have an entry in the recorded list."""
        it = iter(ws)
        return [np.asarray(next(it), dtype=float) if c else np.zeros(0) for c in self.chopped]

    def build(self, x, ws):
        xs, q = self.split(x)
        w = self.supers(ws)
        pulses = [r.build(a, b) for r, a, b in zip(self.pulses, xs, w)]
        par = [min(max(float(v), p["lower_limit"]), p["upper_limit"]) for v, p in zip(q, self.params)]
        return {"pulses": pulses, "timegrids": [r.t for r in self.pulses], "parameters": par}

    def commit(self, x, ws):
        xs, _ = self.split(x)
        for r, a, b in zip(self.pulses, xs, self.supers(ws)):
            r.commit(a, b)


# ---------------------------------------------------------------------------------------------------- Nelder-Mead
class NelderMeadRef:
    """Lock-step reference: propose() gives the point the textbook algorithm evaluates next, tell() takes the point
    really evaluated (so rounding does not accumulate) and its value."""

    def __init__(self, sim0, adaptive=False):
        self.sim0 = np.array(sim0, dtype=float)
        # the points may be given in any space the control vector is mapped to linearly
        self.d = len(self.sim0) - 1
        n = float(self.d)
        self.rho, self.chi, self.psi, self.sig = (1.0, 1 + 2 / n, 0.75 - 1 / (2 * n), 1 - 1 / n) if adaptive else (1.0, 2.0, 0.5, 0.5)
        self.sim = self.fs = None
        self.ambiguous = False       # equal values where the order of the vertices matters
        self.iterations = 0          # finished iterations
        self.branches = {}
        self.gen = self._run()
        self.next = next(self.gen)
        self.kind = "init"

    def tell(self, x, f):
        self.branches[self.kind] = self.branches.get(self.kind, 0) + 1
        self.next = self.gen.send((np.array(x, dtype=float), float(f)))

    def _run(self):
        pts, vals = [], []
        for k in range(self.d + 1):
            self.kind = "init"
            x, f = yield self.sim0[k]
            pts.append(x)
            vals.append(f)
        sim, fs = self._sorted(np.array(pts), np.array(vals))
        self.sim, self.fs = sim, fs
        while True:
            self.ambiguous = self.ambiguous or fs[-1] == fs[-2]
            xbar = sim[:-1].sum(axis=0) / self.d
            worst = sim[-1].copy()
            self.kind = "reflect"
            xr, fr = yield xbar + self.rho * (xbar - worst)
            shrink = False
            if fr < fs[0]:
                self.kind = "expand"
                xe, fe = yield xbar + self.rho * self.chi * (xbar - worst)
                if fe < fr:
                    sim[-1], fs[-1] = xe, fe
                else:
                    sim[-1], fs[-1] = xr, fr
            elif fr < fs[-2]:
                sim[-1], fs[-1] = xr, fr
            elif fr < fs[-1]:
                self.kind = "contract_out"
                xc, fc = yield xbar + self.psi * self.rho * (xbar - worst)
                if fc <= fr:
                    sim[-1], fs[-1] = xc, fc
                else:
                    shrink = True
            else:
                self.kind = "contract_in"
                xc, fc = yield xbar - self.psi * (xbar - worst)
                if fc < fs[-1]:
                    sim[-1], fs[-1] = xc, fc
                else:
                    shrink = True
            if shrink:
                self.ambiguous = self.ambiguous or bool(np.any(np.diff(fs) == 0))
                for j in range(1, self.d + 1):
                    self.kind = "shrink"
                    x, f = yield sim[0] + self.sig * (sim[j] - sim[0])
                    sim[j], fs[j] = x, f
            sim, fs = self._sorted(sim, fs)
            self.sim, self.fs = sim, fs
            self.iterations += 1

    @staticmethod
    def _sorted(sim, fs):
        i = np.argsort(fs, kind="stable")
        return sim[i].copy(), fs[i].copy()


# ---------------------------------------------------------------------------------------------------- CMA-ES
class CmaRef:
    """(mu/mu_w, lambda)-CMA-ES of Hansen's tutorial; step(X, F) consumes one generation (columns are points)."""

    def __init__(self, mean, sigma_v, lam):
        N = self.N = len(mean)
        self.lam = lam
        self.m = np.array(mean, dtype=float)
        self.sigma = 1.0
        self.C = np.diag(np.asarray(sigma_v, dtype=float) ** 2)
        self.mu = lam // 2
        w = np.log(self.mu + 0.5) - np.log(np.arange(1, self.mu + 1))
        self.w = w / w.sum()
        self.me = 1 / np.sum(self.w ** 2)
        self.cc = (4 + self.me / N) / (N + 4 + 2 * self.me / N)
        self.cs = (self.me + 2) / (N + self.me + 5)
        self.c1 = 2 / ((N + 1.3) ** 2 + self.me)
        self.cmu = min(1 - self.c1, 2 * (self.me - 2 + 1 / self.me) / ((N + 2) ** 2 + self.me))
        self.d = 1 + 2 * max(0.0, math.sqrt((self.me - 1) / (N + 1)) - 1) + self.cs
        self.pc, self.ps = np.zeros(N), np.zeros(N)
        self.chi = math.sqrt(N) * (1 - 1 / (4 * N) + 1 / (21 * N * N))
        self.g = 0

    def white(self, X):
        """Mahalanobis inner products of the steps: Z^T Z for Z = C^-1/2 (X - m) / sigma."""
        Y = (X - self.m[:, None]) / self.sigma
        return Y.T @ np.linalg.solve(self.C, Y)

    def cond(self):
        l = np.linalg.eigvalsh(self.C)
        return l[-1] / l[0] if l[0] > 0 else np.inf

    def step(self, X, F):
        self.g += 1
        o = np.argsort(F, kind="stable")[:self.mu]
        Y = (X[:, o] - self.m[:, None]) / self.sigma
        yw = Y @ self.w
        l, B = np.linalg.eigh(self.C)
        z = B @ ((B.T @ yw) / np.sqrt(l))
        self.m = self.m + self.sigma * yw
        self.ps = (1 - self.cs) * self.ps + math.sqrt(self.cs * (2 - self.cs) * self.me) * z
        nps = np.linalg.norm(self.ps)
        hs = nps / math.sqrt(1 - (1 - self.cs) ** (2 * self.g)) < (1.4 + 2 / (self.N + 1)) * self.chi
        self.pc = (1 - self.cc) * self.pc + (math.sqrt(self.cc * (2 - self.cc) * self.me) * yw if hs else 0.0)
        rank1 = np.outer(self.pc, self.pc) + (0.0 if hs else self.cc * (2 - self.cc)) * self.C
        self.C = (1 - self.c1 - self.cmu) * self.C + self.c1 * rank1 + self.cmu * (Y * self.w) @ Y.T
        self.C = (self.C + self.C.T) / 2
        self.sigma *= math.exp(self.cs / self.d * (nps / self.chi - 1))
        self.near_hsig = abs(nps / math.sqrt(1 - (1 - self.cs) ** (2 * self.g)) / self.chi - 1.4 - 2 / (self.N + 1)) < 1e-9
