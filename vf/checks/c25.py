"""C25: the statistical functions match their definitions everywhere."""
from fractions import Fraction
import math
import numpy as np
from hypothesis import strategies as st
from scipy import special, stats as scipy_stats
from vf.core import Sub
from CHECLabPy.stats import (
    binom, normal_pdf, poisson, welfords_online_algorithm)
from CHECLabPy.stats.pdf import poisson_logpmf, xlogy

EPS = 2e-16


def lg(x):
    return special.gammaln(np.asarray(x, float))


# ---------------------------------------------------------------- distributions
KS = st.one_of(st.integers(0, 10), st.integers(0, 200),
               st.integers(0, 20000))
MUS = st.one_of(st.just(0.0), st.floats(1e-6, 1), st.floats(0.01, 30),
                st.floats(1, 5000), st.sampled_from([1.0, 1e-300, 1e-12, 1e5]))


@st.composite
def point_cases(draw):
    n = draw(st.integers(1, 30))
    rows = [(draw(KS), draw(MUS)) for _ in range(n)]
    if draw(st.booleans()):     # near the maximum
        rows = [(max(0, int(mu + draw(st.floats(-3, 3)) * mu ** 0.5)), mu)
                for _, mu in rows if mu < 1e5] or rows
    return dict(
        rows=rows, scalar=draw(st.booleans()),
        outer=draw(st.booleans()),
        x=draw(st.lists(st.floats(-1e4, 1e4, width=32), min_size=1,
                        max_size=8)),
        mean=draw(st.lists(st.floats(-1e4, 1e4), min_size=1, max_size=3)),
        std=draw(st.lists(st.floats(1e-3, 1e5), min_size=1, max_size=3)))


def close(ctx, what, got, want, rtol, atol=0.0):
    """rtol relative, elementwise (rtol may be an array)"""
    got, want = np.asarray(got), np.asarray(want)
    ctx.check(got.shape == want.shape, lambda: (
        f"{what}: shape {got.shape}, not {want.shape}"))
    with np.errstate(all="ignore"):
        bad = ~((np.abs(got - want) <= rtol * np.abs(want) + atol) |
                (got == want))
    ctx.check(not bad.any(), lambda: (
        f"{what}: {got[bad].ravel()[0]!r}, not {want[bad].ravel()[0]!r}"))


def check_points(ctx, case):
    k = np.array([r[0] for r in case["rows"]])
    mu = np.array([r[1] for r in case["rows"]])
    if case["outer"]:
        k = k[:, None]
    scale = k * np.abs(np.log(np.maximum(mu, 1e-300))) + mu + lg(k + 1) + 1
    rtol = 16 * EPS * scale
    want = scipy_stats.poisson.pmf(k, mu)
    tiny = 1e-290
    close(ctx, f"poisson{case['rows'][:5]}", poisson(k, mu), want, rtol, tiny)
    ctx.check(poisson(int(k.flat[0]), float(mu.flat[0])) == poisson(
        k, mu).flat[0], "a number gives another value than an array")
    kf = k.astype(np.float32)
    with np.errstate(all="ignore"):
        close(ctx, f"poisson_logpmf{case['rows'][:5]}", poisson_logpmf(kf, mu),
              scipy_stats.poisson.logpmf(k, mu), 0, rtol)
        close(ctx, f"xlogy{case['rows'][:5]}", xlogy(kf, mu),
              special.xlogy(kf.astype(float), mu), 4 * EPS, 0)
    if (want > 1e-6).any():
        ctx.note("likely outcomes")
    x = np.array(case["x"], np.float32)
    shape = (x.size, 1, 1)
    m = np.array(case["mean"])[:, None]
    s = np.array(case["std"])
    u = (x.astype(float).reshape(shape) - m) / s
    want = np.exp(-0.5 * u ** 2) / (math.sqrt(2 * math.pi) * s)
    rtol = 16 * EPS * (1 + u ** 2 + np.abs(u) * (
        np.abs(x.reshape(shape)) + np.abs(m)) / s)
    close(ctx, f"normal_pdf({case['x']}, {case['mean']}, {case['std']})",
          normal_pdf(x.reshape(shape), m, s), want, rtol, tiny)
    if case["scalar"]:
        close(ctx, "normal_pdf of a number",
              normal_pdf(x[0], case["mean"][0], case["std"][0]),
              want[0, 0, 0], rtol[0, 0, 0], tiny)


# -------------------------------------------------------------- normalisation
@st.composite
def total_cases(draw):
    return dict(mu=draw(st.one_of(st.just(0.0), st.floats(1e-6, 5),
                                  st.floats(1, 3000))),
                n=draw(st.integers(0, 900)), mean=draw(st.floats(-50, 50)),
                std=draw(st.floats(0.05, 50)),
                m=draw(st.integers(0, 10 ** 6)))


def check_totals(ctx, case):
    mu, n = case["mu"], case["n"]
    top = int(mu + 40 * math.sqrt(mu) + 60)
    k = np.arange(top)
    p = poisson(k, mu)
    rtol = 1e-10
    ctx.check((p >= 0).all() and abs(p.sum() - 1) < rtol,
              lambda: f"poisson(., {mu}) sums to {p.sum()!r}")
    ctx.check(abs((k * p).sum() - mu) <= rtol * (mu + 1),
              lambda: f"poisson(., {mu}) has the mean {(k * p).sum()!r}")
    logp = poisson_logpmf(k.astype(np.float32), mu)
    ctx.check(abs(np.exp(logp).sum() - 1) < rtol,
              lambda: f"poisson_logpmf(., {mu}) sums to {np.exp(logp).sum()}")
    # exact integers
    row = [math.comb(n, j) for j in range(n + 1)]
    got = binom(n, np.arange(n + 1))
    for j, (g, w) in enumerate(zip(got, row)):
        if w < 10 ** 300:
            ctx.check(abs(g - float(w)) <= 1e-11 * w, lambda: (
                f"binom({n}, {j}) = {g!r}, not {w}"))
    m = case["m"]
    for j, w in ((0, 1), (1, m), (m, 1), (2, m * (m - 1) // 2)):
        if j > m:
            w = 0
        g = binom(m, j)
        ctx.check(abs(g - w) <= 1e-8 * max(w, 1), lambda: (
            f"binom({m}, {j}) = {g!r}, not {w}"))
    # the normal distribution
    mean, std = case["mean"], case["std"]
    x = np.linspace(mean - 9 * std, mean + 9 * std, 2001).astype(np.float32)
    y = normal_pdf(x, mean, std)
    xd = x.astype(float)
    total = np.trapz(y, xd)
    ctx.check(abs(total - 1) < 1e-4, lambda: (
        f"normal_pdf(., {mean}, {std}) integrates to {total!r}"))
    ctx.check(abs(np.trapz(y * xd, xd) - mean) < 1e-3 * (abs(mean) + std),
              "mean of the normal distribution")
    var = np.trapz(y * (xd - mean) ** 2, xd)
    ctx.check(abs(var / std ** 2 - 1) < 1e-3, lambda: (
        f"normal_pdf(., {mean}, {std}) has the deviation {var ** 0.5}"))
    ctx.note("totals", mu > 0)


# ------------------------------------------------------------------- Welford
VALUES = st.one_of(
    st.floats(-1e3, 1e3), st.integers(-50, 50).map(float),
    st.floats(-1e8, 1e8), st.floats(1e6, 1e6 + 1))


@st.composite
def running_cases(draw):
    kind = draw(st.integers(0, 2))
    if kind:
        values = draw(st.lists(VALUES, min_size=1, max_size=40))
    else:
        rng = np.random.RandomState(draw(st.integers(0, 2 ** 16)))
        values = list(rng.normal(draw(st.sampled_from([0., 1e5, -3e7])),
                                 draw(st.sampled_from([1e-2, 1., 100.])),
                                 draw(st.integers(1, 500))))
    return dict(values=[float(v) for v in values],
                seed=draw(st.integers(0, 2 ** 16)))


def check_running(ctx, case):
    values = case["values"]
    orders = [values, sorted(values), list(
        np.random.RandomState(case["seed"]).permutation(values))]
    exact = [Fraction(v) for v in values]
    n = len(values)
    mean_w = sum(exact) / n
    m2_w = sum((v - mean_w) ** 2 for v in exact)
    top = max(abs(v) for v in values)
    # Welford: errors of the squares are relative to deviation times size
    spread = float(m2_w) ** 0.5
    for order in orders:
        mean, count, m2 = 0.0, 0, 0.0
        for i, v in enumerate(order):
            mean, count, m2 = ctx.call(
                "welfords_online_algorithm", welfords_online_algorithm,
                float(v), mean, count, m2)
            ctx.check(count == i + 1, f"count {count} after {i + 1} values")
            ctx.check(m2 >= 0, f"negative sum of squares {m2}")
            if i == 0:
                ctx.check(mean == v and m2 == 0, f"{mean}, {m2} after {v}")
        tol = 8 * EPS * n * top + 1e-300
        ctx.check(abs(mean - float(mean_w)) <= tol, lambda: (
            f"mean {mean!r} instead of {float(mean_w)!r}"))
        tol = 16 * EPS * n * (float(m2_w) + spread * top) + (
            16 * EPS * n * top) ** 2 + 1e-300
        ctx.check(abs(m2 - float(m2_w)) <= tol, lambda: (
            f"sum of squares {m2!r} instead of {float(m2_w)!r}"))
    if len(set(values)) > 1:
        ctx.note("different values")


SUBS = [
    Sub("points", point_cases, check_points, quick=2500,
        rule="an outcome with a probability above 1e-6 is evaluated"),
    Sub("totals", total_cases, check_totals, quick=300, rule="mu > 0"),
    Sub("running", running_cases, check_running, quick=700,
        rule="the values differ"),
]
