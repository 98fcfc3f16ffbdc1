"""C26: noise and random number sources have the documented law, reproduce with their seed and stay independent."""
import decimal
import random

LEVEL = "exploration"
RULE = ("Ornstein-Uhlenbeck realizations and ensembles for random correlation times, strengths, starts and time steps: the "
        "standardized innovations of every trajectory are tested for start value, length, mean, variance, normality, lag and "
        "cross correlation; random number generators (seeded or not, several interleaved, any request sizes) for range, "
        "moments, reproducibility, independence of the chunking and of other generators and of the global state; tests at "
        "seven standard errors; distinct by parameter class")
ASSUMPTIONS = ["time at least one time step, not on a rounding boundary", "moments are tested at 7 standard errors"]
QUICK_BUDGET = 15
THOROUGH_BUDGET = 200
REQUIRED = {"innovations": 200000, "trajectories": 300, "random_numbers": 200000, "reproduced": 100}


def cases(tier, rnd):
    n = 4200 if tier == "quick" else 16000
    for i in range(n):
        r = random.Random(rnd.random())
        if i % 3 == 2:
            yield {"kind": "rng", "seed": r.randrange(10**6), "seeded": r.random() < 0.75}
        else:
            big = i % 9 == 0
            c = {"kind": "ou", "seed": r.randrange(10**9), "tau": 10 ** r.uniform(-2, 2), "c": 10 ** r.uniform(-2, 2),
                   "x0": r.choice([0.0, 0.0, r.uniform(-3, 3), r.uniform(-3, 3), r.randint(-3, 3), 0]), "dt": 10 ** r.uniform(-3, 1),
                   "n": r.choice([1, 2, 5, 400, 3000]), "traj": 12, "defaults": r.random() < 0.15}
            c["traj"] = r.choice([40, 150]) if big else r.choice([1, 3, 12])
            c["n"] = min(c["n"], 300) if big else c["n"]
            if r.random() < 0.5:      # a total time which is a multiple of the time step
                c["exact"] = True
                c["dt"] = max(1, round(c["dt"] * 1000)) / 1000
            yield c


def moments(ctx, e, tag, **info):
    """e: supposed independent standard normal numbers."""
    import numpy as np
    n = len(e)
    if n < 200:
        return
    z = {"mean": e.mean() * np.sqrt(n), "var": (e.var() - 1) * np.sqrt(n / 2), "skew": (e ** 3).mean() * np.sqrt(n / 15),
         "kurt": ((e ** 4).mean() - 3) * np.sqrt(n / 96), "lag1": (e[1:] * e[:-1]).mean() * np.sqrt(n - 1),
         "lag2": (e[2:] * e[:-2]).mean() * np.sqrt(n - 2)}
    # third and fourth powers are far from normal in small samples
    lim = {"mean": 7, "var": 7 + 30 / np.sqrt(n), "skew": 9 + 60 / np.sqrt(n), "kurt": 12 + 400 / np.sqrt(n), "lag1": 7 + 20 / np.sqrt(n),
           "lag2": 7 + 20 / np.sqrt(n)}
    for k in z:
        ctx.check(abs(z[k]) < lim[k], tag + "-" + k, z=z[k], size=n, **info)


def run(case, ctx):
    import numpy as np
    r = np.random.default_rng(case["seed"])
    if case["kind"] == "ou":
        from quocslib.noiseprocesses.ornsteinuhlenbeckprocess import OrnsteinUhlenbeck
        tau, c, x0, dt = (case[k] for k in ("tau", "c", "x0", "dt"))
        if case["defaults"]:
            tau, c, x0, dt = 1.0, 1.0, 0.0, 0.01
            ou = OrnsteinUhlenbeck()
        else:
            ou = OrnsteinUhlenbeck(tau=tau, c=c, x0=x0, dt=dt)
        n, traj = case["n"], case["traj"]
        T = (n + 0.5) * dt
        if case.get("exact"):
            T = float(decimal.Decimal(str(dt)) * n)
            ctx.count("exact_multiples")
        s1 = int(r.integers(1 << 31))
        np.random.seed(s1)
        one = ou.get_noise_realization(T)
        many = ou.get_ensemble_noise_realization(T, traj)
        np.random.seed(s1)
        again, many2 = ou.get_noise_realization(T), ou.get_ensemble_noise_realization(T, traj)
        info = {k: case[k] for k in ("tau", "c", "x0", "dt", "n", "traj", "defaults")}
        if not ctx.check(np.shape(one) == (n,) and np.shape(many) == (traj, n), "length", got=[np.shape(one), np.shape(many)], **info):
            return
        ctx.check(np.array_equal(one, again) and np.array_equal(many, many2), "not-reproducible", **info)
        ctx.count("reproduced")
        mu, sd = np.exp(-dt / tau), np.sqrt(c * tau / 2 * -np.expm1(-2 * dt / tau))
        allr = np.vstack([one[None, :], many])
        ctx.check(bool(np.all(allr[:, 0] == x0)) and bool(np.all(np.isfinite(allr))), "start", got=allr[:, 0], **info)
        inn = (allr[:, 1:] - mu * allr[:, :-1]) / sd
        ctx.count("innovations", inn.size)
        ctx.count("trajectories", len(allr))
        moments(ctx, inn.ravel(), "pooled", **info)
        for row in inn:
            moments(ctx, row, "trajectory", **info)
        m = inn.shape[1]
        if m > 100:
            cc = np.abs(inn @ inn.T) / np.sqrt(m)
            np.fill_diagonal(cc, 0)
            ctx.check(float(cc.max()) < 7.5, "cross-correlation", z=float(cc.max()), pair=np.unravel_index(cc.argmax(), cc.shape), **info)
        elif m >= 1 and len(allr) > 1:
            ctx.check(len({tuple(x) for x in np.round(allr, 14)}) == len(allr), "identical-trajectories", **info)
        if m >= 2:
            ctx.cover("ou/tau%d/c%d/dt%d/n%d/x%d" % (round(np.log10(tau)), round(np.log10(c)), round(np.log10(dt)), n, x0 != 0))
    else:
        from quocslib.tools.randomgenerator import RandomNumberGenerator
        seed = case["seed"] if case["seeded"] else None
        if seed is not None and case["seed"] % 4 == 0:
            seed = [0, 2**31, 2**32 + 1, 1][case["seed"] // 4 % 4]
        np.random.seed(case["seed"] % 1000)
        state = np.random.get_state()[1].copy(), np.random.get_state()[2]
        g = RandomNumberGenerator(seed_number=seed) if seed is not None or r.random() < 0.5 else RandomNumberGenerator()
        h = RandomNumberGenerator(seed_number=seed)
        other = RandomNumberGenerator(seed_number=(seed or 0) + [1, 1000, 4096, 65536, 2**31, 2**32][case["seed"] % 6])
        sizes = [int(r.choice([1, 2, 7, 64, 500])) for _ in range(20)]
        a, b, o = [], [], []
        for k in sizes:
            x = g.get_random_numbers(k)
            if not ctx.check(np.shape(x) == (k,), "shape", got=np.shape(x), want=k):
                return
            a.append(np.array(x))
            if seed is not None:
                o.append(np.array(other.get_random_numbers(int(r.integers(1, 5)))))
        if seed is not None:
            ctx.check(np.array_equal(np.random.get_state()[1], state[0]) and np.random.get_state()[2] == state[1], "touches-global-state")
            np.random.rand(13)
            for k in sizes:
                b.append(np.array(h.get_random_numbers(k)))
            ctx.check(np.array_equal(np.concatenate(a), np.concatenate(b)), "seed-not-honoured", seed=seed)
            ctx.check(not np.array_equal(np.concatenate(o)[:5], np.concatenate(a)[:5]), "seeds-alike", seed=seed)
            ctx.count("reproduced")
        u = np.concatenate(a + [g.get_random_numbers(4000)])
        ctx.check(bool(np.all((u >= 0) & (u < 1))), "range", lo=u.min(), hi=u.max())
        ctx.count("random_numbers", len(u))
        n = len(u)
        ctx.check(len(set(u.tolist())) == n, "repeats", n=n)
        e = (u - 0.5) * np.sqrt(12)
        ctx.check(abs(e.mean()) * np.sqrt(n) < 7 and abs(e.var() - 1) * np.sqrt(n / 0.8) < 7
                  and abs((e[1:] * e[:-1]).mean()) * np.sqrt(n) < 7, "uniform-moments", n=n, mean=e.mean(), var=e.var())
        cdf = np.abs(np.sort(u) - (np.arange(n) + 0.5) / n).max() * np.sqrt(n)
        ctx.check(cdf < 3.5, "uniform-distribution", ks=cdf)
        ctx.cover("rng/%s/%d" % (case["seeded"], len(set(sizes))))
    if ctx.sample is None:
        ctx.sample = dict(case)
