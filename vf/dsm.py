"""Helpers for the direct search monitors: runs where the controls are an affine image of the search vector."""
import random
import re

import numpy as np

from . import gen


def config(r, dsm, alg=None, spaces="exact", si=None, max_eval=None, foms=("quad", "rugged", "seq"), adaptive=None,
           dims=None, quant=False, max_dim=9):
    """A run without active limits. spaces 'exact': the controls are the search vector itself (parameters, piecewise);
    'linear': also Fourier, Sinc and Sigmoid pulses (controls are a linear image)."""
    alg = alg or r.choice(["DirectSearch", "dCRAB"])
    cfg = gen.config(r, alg=alg, dsm=dsm, direction=r.choice(["minimization", "minimization", "maximization"]),
                     bases=["PiecewiseBasis"] if spaces == "exact" else ["PiecewiseBasis", "Fourier", "Sinc", "Sigmoid"],
                     simple=True, limits="wide", max_eval_total=None, si=si, max_eval=max_eval, quant=quant,
                     npulses=None, nparams=dims if alg == "DirectSearch" else None, adaptive=adaptive, kmax=2, max_dim=max_dim)
    o = cfg["opt"]
    for p in o["pulses"]:
        p["lower_limit"], p["upper_limit"] = -1e100, 1e100
        if p["basis"]["basis_name"] != "PiecewiseBasis":
            p["bins_number"] = max(p["bins_number"], 21)
        if r.random() < 0.3:
            p["initial_guess"] = {"function_type": "lambda_function", "lambda_function": "lambda t: 0.3 * np.sin(2.0 * t)"}
    for q in o["parameters"]:
        q["lower_limit"], q["upper_limit"] = -1e100, 1e100
    f = cfg["fom"]
    f.pop("ret", None)
    f.pop("std", None)
    f["prange"] = [[-2.0, 2.0] for _ in o["parameters"]]
    f["kind"] = r.choice(list(foms))
    if f["kind"] == "seq":
        k = r.choice(["rand", "rising", "falling", "levels"])
        m = 400
        if k == "rand":
            v = [r.uniform(-1, 1) for _ in range(m)]
        elif k == "rising":
            v = [0.01 * j + r.uniform(0, 0.02) for j in range(m)]
        elif k == "falling":
            v = [-0.01 * j + r.uniform(0, 0.02) for j in range(m)]
        else:
            v = [float(r.randrange(12)) for _ in range(m)]
        f["values"] = v
        f.pop("offset", None)
        f.pop("quant", None)
    return cfg


def vec(e):
    return np.concatenate([np.asarray(p, dtype=float) for p in e["pulses"]] + [np.asarray(e["parameters"], dtype=float)])


class Sections:
    """Hook which notes to which super-iteration every evaluation belongs."""

    def __init__(self):
        self.si = []

    def __call__(self, t, kind, e):
        if kind == "call":
            self.si.append(getattr(t.alg, "super_it", 1) or 1)

    def split(self, evals):
        out = {}
        for e, s in zip(evals, self.si):
            out.setdefault(s, []).append(e)
        return [out[s] for s in sorted(out)]


def si_reasons(tr):
    """Terminate reasons of the super-iterations from the log (dCRAB), or the one of the result file."""
    out = re.findall(r"SI (\d+) finished.*Terminate reason: (.*)", tr.logtext())
    if out:
        return [x[1].strip() for x in out]
    return [tr.final()["terminate_reason"]]
