"""C39: the resolution plots show the computed values and the CTA curves."""
import math
import numpy as np
import pandas as pd
import matplotlib
matplotlib.use("Agg")
from hypothesis import strategies as st
from vf.core import Sub
from CHECLabPy.plotting.resolutions import (
    ChargeMeanPlotter, ChargeResolutionPlotter, ChargeResolutionWRRPlotter)
from CHECLabPy.plotting import resolutions as resolutions_module
from CHECLabPy.utils.resolutions import ChargeResolution, ChargeStatistics

ASSUMPTIONS = ["the largest charge of a plot is above 0.1"]


@st.composite
def curve_cases(draw):
    v = st.one_of(st.floats(1e-2, 5e3), st.integers(1, 3000).map(float),
                  st.sampled_from([1000., 2000., 1000.0001, 2000.0001, 1.]))
    return dict(true=draw(st.lists(v, min_size=1, max_size=30)),
                integer=draw(st.booleans()),
                p=[draw(st.floats(0, 20)) for _ in range(4)])


def limit(npe, nsb, add, enf, sigma2):
    return math.sqrt(nsb + add + enf * enf * npe + (sigma2 * npe) ** 2) / npe


def check_curves(ctx, case):
    true = np.array(case["true"])
    if case["integer"]:
        true = np.ceil(true).astype(int)
    keep = true.copy()
    for cls in (ChargeResolutionPlotter, ChargeResolutionWRRPlotter):
        for name, want in (
                ("requirement", [limit(t, math.sqrt(7), 0, 1.2, 0.1)
                                 if t <= 1000 else np.nan for t in keep]),
                ("goal", [limit(t, 2, 0, 1.1152, 0.05)
                          if t <= 2000 else np.nan for t in keep]),
                ("poisson", [1 / math.sqrt(t) for t in keep])):
            got = ctx.call(name, getattr(cls, name), true)
            ctx.check(np.allclose(got, want, rtol=1e-10, equal_nan=True),
                      lambda: f"{name}({keep[:5]}) = {got[:5]}, "
                              f"not {want[:5]}")
        want = [limit(t, *case["p"]) for t in keep]
        got = ctx.call("limit_curves", cls.limit_curves, true, *case["p"])
        ctx.check(np.allclose(got, want, rtol=1e-10), "limit_curves")
        ctx.check(np.array_equal(true, keep), "charges were changed")
        p = cls()
        for name in ("requirement", "goal", "poisson"):
            ctx.call("plot_" + name, getattr(p, "plot_" + name),
                     true.astype(float))
            line = p.ax.lines[-1]
            y = getattr(cls, name)(true.astype(float))
            if cls is ChargeResolutionWRRPlotter:
                y = y / cls.requirement(true.astype(float))
            ctx.check(np.allclose(line.get_xdata(), keep) and np.allclose(
                np.asarray(line.get_ydata(), float), y, equal_nan=True),
                f"plot_{name} draws something else")
    ctx.note("beyond" if (keep > 1000).any() and (keep <= 1000).any()
             else "curve")


@st.composite
def plot_cases(draw):
    level = st.one_of(st.floats(0.05, 3000), st.sampled_from(
        [0.1, 1., 1.0, 50., 0.0005, 0.02, 2000.]),
        st.integers(1, 200).map(float))
    return dict(
        levels=draw(st.lists(level, min_size=1, max_size=12)),
        n_pixels=draw(st.integers(1, 5)), n=draw(st.integers(1, 200)),
        seed=draw(st.integers(0, 2 ** 16)), mc=draw(st.booleans()),
        own=draw(st.booleans()),
        kind=draw(st.sampled_from(["mean", "res", "wrr"])))


def binned(x, y, e):
    """Mean per bin of 99 logarithmic bins between 0.1 and the largest x"""
    edges = np.geomspace(0.1, max(x), 100)
    out = []
    for i in range(99):
        last = i == 98
        at = [j for j in range(len(x)) if edges[i] <= x[j] and (
            x[j] < edges[i + 1] or (last and x[j] <= edges[i + 1]))]
        if at:
            k = len(at)
            out.append((sum(x[j] for j in at) / k, sum(y[j] for j in at) / k,
                        math.sqrt(sum(e[j] ** 2 for j in at)) / k))
    return np.array(out).T.reshape(3, -1)


def check_points(ctx, what, bars, want):
    line, _, cols = bars
    x, y = (np.asarray(v, float) for v in line.get_data())
    ctx.check(x.shape == want[0].shape and np.allclose(x, want[0]), lambda: (
        f"{what}: at {x[:5]}, not {want[0][:5]}"))
    ctx.check(np.allclose(y, want[1], rtol=1e-6, equal_nan=True), lambda: (
        f"{what}: {y[:5]}, not {want[1][:5]}"))
    if want[2] is None:
        return
    ctx.check(len(cols) == 1, f"{what}: error bars missing")
    half = np.array([np.ptp(s[:, 1]) / 2 if len(s) else np.nan
                     for s in cols[0].get_segments()])
    ok = ~np.isnan(want[1])
    ctx.check(np.allclose(half[ok], want[2][ok], rtol=1e-6), lambda: (
        f"{what}: error bars {half[:5]}, not {want[2][:5]}"))


def check_plot(ctx, case):
    rng = np.random.RandomState(case["seed"])
    levels = np.array(case["levels"])
    if levels.max() <= 0.1:
        levels[0] = 5.
    pixel = rng.randint(0, case["n_pixels"], case["n"])
    at = rng.randint(0, len(levels), case["n"])
    if case["own"]:
        # the pixels have different levels
        at = (at // 2 + pixel * 3) % len(levels)
    true = levels[at]
    q = true * rng.uniform(0.8, 1.2, case["n"]) + rng.normal(size=case["n"])
    if case["kind"] == "mean":
        s = ChargeStatistics()
        p = ChargeMeanPlotter()
        names, key = ("mean", "std"), "amplitude"
        store = "charge_statistics_"
    else:
        s = ChargeResolution(case["mc"])
        p = (ChargeResolutionPlotter if case["kind"] == "res" else
             ChargeResolutionWRRPlotter)()
        names, key = ("charge_resolution", None), "true"
        store = "charge_resolution_"
    s.add(pixel, true, q)
    df_p, df_c = s.finish()
    keep = df_p.copy(), df_c.copy()
    ctx.call("set_store", p.set_store, {
        store + "pixel": df_p, store + "camera": df_c})
    drawn, ends = 0, []
    for target in [*range(case["n_pixels"]), None]:
        df = keep[1] if target is None else (
            keep[0].loc[keep[0]["pixel"] == target])
        if case["kind"] != "mean":
            df = df.loc[df["true"] > 0.001]
        x = df[key].tolist()
        if not x or max(x) <= 0.1:
            continue
        y = df[names[0]].tolist()
        e = df["std"].tolist() if names[1] else [
            1 / math.sqrt(v) for v in x]
        want = list(binned(x, y, e))
        if case["kind"] == "mean":
            want[1] = want[1] / want[0]
            want[2] = None
        elif case["kind"] == "wrr":
            want[1] = want[1] / np.array([
                limit(t, math.sqrt(7), 0, 1.2, 0.1) if t <= 1000 else np.nan
                for t in want[0]])
        label = f"pixel {target}"
        if target is None:
            ctx.call("plot_camera", p.plot_camera, label)
        else:
            ctx.call(f"plot_pixel({target})", p.plot_pixel, target, label)
        drawn += 1
        ends += [min(want[0]), max(want[0])]
        ctx.check(len(p.ax.containers) == drawn, "nothing was plotted")
        check_points(ctx, label, p.ax.containers[-1], want)
        ctx.check(p.ax.containers[-1].get_label() == label, "label")
    ctx.check(df_p.equals(keep[0]) and df_c.equals(keep[1]),
              "the store was changed")
    if drawn:
        ctx.call("save", p.save, ctx.path("a", "res.png"))
        if case["kind"] == "mean":
            x, y = (np.asarray(v, float) for v in p.ax.lines[-1].get_data())
            ctx.check(np.isclose(x.min(), min(ends)) and np.isclose(
                x.max(), max(ends)) and np.all(y == 1), lambda: (
                f"reference line {x.min()} to {x.max()} at {y[0]}, for "
                f"points from {min(ends)} to {max(ends)}"))
        if drawn > 1:
            ctx.note(case["kind"])


@st.composite
def bin_cases(draw):
    # not on the edges of the bins, which depend on the last digit
    x = st.floats(0.1, 5000)
    return dict(x=draw(st.lists(x, min_size=1, max_size=60)),
                seed=draw(st.integers(0, 2 ** 16)))


def check_bins(ctx, case):
    rng = np.random.RandomState(case["seed"])
    x = np.array(case["x"] + [0.5])
    y, e = rng.normal(size=x.size), rng.uniform(0, 3, x.size)
    keep = [v.copy() for v in (x, y, e)]
    got = ctx.call("bin_points", resolutions_module.bin_points, x, y, e)
    want = binned(x.tolist(), y.tolist(), e.tolist())
    ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, (x, y, e))),
              "the points were changed")
    for name, g, w in zip(("x", "y", "error"), got, want):
        ctx.check(np.shape(g) == w.shape and np.allclose(g, w), lambda: (
            f"binned {name}: {g[:5]}, not {w[:5]}"))
    if len(want[0]) < x.size:
        ctx.note("points are combined")


SUBS = [
    Sub("curves", curve_cases, check_curves, quick=120, thorough=1500,
        rule="charges beyond the range of the requirement, or any"),
    Sub("plot", plot_cases, check_plot, quick=120, thorough=1500,
        rule="two plots or more are drawn"),
]
if hasattr(resolutions_module, "bin_points"):  # a helper of the plotters
    SUBS.append(Sub(
        "bins", bin_cases, check_bins, quick=200, thorough=3000,
        rule="a bin with several points"))
