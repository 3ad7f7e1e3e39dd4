"""C38: the SPE plots show the fit results of each pixel."""
import os
import sys
import numpy as np
import pandas as pd
import matplotlib
matplotlib.use("Agg")
from hypothesis import strategies as st
from matplotlib import pyplot as plt
from matplotlib.collections import PatchCollection
from matplotlib.figure import Figure
from vf import camera
from vf.core import Sub
from CHECLabPy.core.io import HDF5Writer
from CHECLabPy.plotting.spe import SpectrumFitPlotter
from CHECLabPy.scripts import extract_spe, plot_spe

ASSUMPTIONS = ["figures are observed when the script saves or shows them"]
NAMES = ["norm", "eped", "eped_sigma", "spe", "spe_sigma", "opct", "a b"]


@st.composite
def spectrum_cases(draw):
    return dict(
        n=draw(st.integers(1, 4)), n_bins=draw(st.integers(2, 60)),
        n_fit=draw(st.integers(2, 80)), uneven=draw(st.booleans()),
        names=draw(st.lists(st.sampled_from(NAMES), unique=True,
                            max_size=6)),
        seed=draw(st.integers(0, 2 ** 16)),
        scale=draw(st.sampled_from([1., 1e-3, 1e4])))


def make_result(case, rng):
    """Arrays, values, errors and initial values of one fit"""
    n, nb = case["n"], case["n_bins"]
    step = rng.uniform(0.2, 2, nb) if case["uneven"] else np.ones(nb)
    edges = np.append(-3., -3 + np.cumsum(step))
    y = rng.poisson(30, (n, nb)) * 1.
    y[rng.rand(n, nb) < 0.2] = 0
    y[:, 0] += 1
    fx = np.sort(rng.uniform(-3, edges[-1], case["n_fit"]))
    fy = rng.uniform(0, 60, (n, case["n_fit"]))
    names = case["names"] + [f"lambda_{i}" for i in range(n)]
    names = [names[i] for i in rng.permutation(len(names))]
    values, errors, initial = (
        {k: float(rng.normal() * case["scale"]) for k in names}
        for _ in range(3))
    initial = {k: initial[k] for k in sorted(names)}
    return dict(charge_hist_x=(edges[1:] + edges[:-1]) / 2, charge_hist_y=y,
                charge_hist_edges=edges, fit_x=fx, fit_y=fy), \
        values, errors, initial


def heights(patch, edges):
    """Height per bin of an outline histogram"""
    xy = np.asarray(patch.get_xy())
    out = []
    for lo, hi in zip(edges[:-1], edges[1:]):
        mid = (lo + hi) / 2
        at = [a[1] for a, b in zip(xy[:-1], xy[1:])
              if min(a[0], b[0]) <= mid <= max(a[0], b[0]) and
              abs(a[1] - b[1]) < 1e-12]
        out.append(max(at, default=np.nan))
    return np.array(out)


def check_spectrum_axes(ctx, what, fig, arrays, values, errors, initial, n):
    ax = fig.axes[0]
    ctx.check(len(ax.patches) == n and len(ax.lines) == n, lambda: (
        f"{what}: {len(ax.patches)} histograms and {len(ax.lines)} curves, "
        f"not {n}"))
    colours = []
    for i in range(n):
        h = heights(ax.patches[i], arrays["charge_hist_edges"])
        ctx.check(np.allclose(h, arrays["charge_hist_y"][i]), lambda: (
            f"{what}: histogram {i} shows {h[:6]}, not "
            f"{arrays['charge_hist_y'][i][:6]}"))
        line = ax.lines[i]
        ctx.check(np.allclose(line.get_xdata(), arrays["fit_x"]) and
                  np.allclose(line.get_ydata(), arrays["fit_y"][i]),
                  f"{what}: curve {i} is not the fit")
        label = (f"λ_{i} = {values[f'lambda_{i}']:.3f} ± "
                 f"{errors[f'lambda_{i}']:.3f} p.e.")
        ctx.check(line.get_label() == label, lambda: (
            f"{what}: label {line.get_label()}, not {label}"))
        c = (matplotlib.colors.to_rgba(line.get_color()),
             matplotlib.colors.to_rgba(ax.patches[i].get_edgecolor()))
        ctx.check(c[0] == c[1], f"{what}: colours of illumination {i}")
        colours.append(c[0])
    ctx.check(len(set(colours)) == n, f"{what}: illuminations share a colour")
    tables = fig.axes[1].tables
    ctx.check(len(tables) == 1, f"{what}: no table")
    cells = {k: c.get_text().get_text()
             for k, c in tables[0].get_celld().items()}
    got = {cells[r, -1]: (cells[r, 0], cells[r, 1])
           for r in range(1, len(values) + 1) if (r, -1) in cells}
    want = {k: ("%.3g" % initial[k], "%.3f ± %.3f" % (values[k], errors[k]))
            for k in values}
    ctx.check(got == want, lambda: f"{what}: table {got}, not {want}")
    ctx.check((cells[0, 0], cells[0, 1]) == ("Initial", "Fit"),
              f"{what}: table header")


def check_spectrum(ctx, case):
    rng = np.random.RandomState(case["seed"])
    arrays, values, errors, initial = make_result(case, rng)
    p = ctx.call("SpectrumFitPlotter", SpectrumFitPlotter, case["n"])
    ctx.call("plot", p.plot, *arrays.values(), values, errors, initial)
    check_spectrum_axes(ctx, "plot", p.fig, arrays, values, errors, initial,
                        case["n"])
    path = ctx.path("x", "spe.svg")
    ctx.call("save", p.save, path)
    ctx.check(os.path.isfile(path), "not saved")
    ctx.check(p.fig.axes[0].get_legend() is not None, "no legend")
    ctx.check(not plt.get_fignums(), "a figure was left open")
    ctx.note("several" if case["n"] > 1 else "one")


@st.composite
def script_cases(draw):
    c = draw(spectrum_cases())
    c["n_tm"] = draw(st.integers(1, 2))
    c["pixel"] = draw(st.one_of(st.integers(0, 63), st.integers(64, 127)))
    c["n_tm"] = 2 if c["pixel"] > 63 else c["n_tm"]
    c["outlier"] = draw(st.sampled_from([0, 50, -3000]))
    c["folder"] = draw(st.lists(st.sampled_from(["out", "a b"]), max_size=2))
    c["names"] = [n for n in c["names"] if n != "a b"]
    c["pix_perm"] = draw(st.permutations(range(4)))
    c["nan"] = draw(st.booleans())
    return c


def snapshot(fig):
    """What a figure shows, taken before it is closed"""
    out = dict(title=fig._suptitle.get_text() if fig._suptitle else None,
               images=[], bars=[], legend=[], colourbars=[])
    for ax in fig.axes:
        for c in ax.collections:
            if isinstance(c, PatchCollection):
                centre = np.array([
                    (p.vertices[:4].min(0) + p.vertices[:4].max(0)) / 2
                    for p in c.get_paths()])
                a = np.ma.asarray(c.get_array()).astype(float)
                out["images"].append((centre, np.ma.filled(a, np.nan)))
        out["bars"] += [p.get_height() for p in ax.patches
                        if hasattr(p, "get_height")]
        if ax.get_legend():
            out["legend"] += [t.get_text() for t in ax.get_legend().texts]
        out["colourbars"].append(ax.get_ylabel())
    return out


def check_script(ctx, case):
    rng = np.random.RandomState(case["seed"])
    layout = camera.build_layout([(0, i) for i in range(case["n_tm"])],
                                 pix_perm=case["pix_perm"])
    mapping = camera.clp_mapping(layout)
    n_pix = len(mapping)
    chosen = case["pixel"] % n_pix
    state = rng.get_state()
    results = []
    for p in range(n_pix):
        r = np.random.RandomState(case["seed"])
        a, v, e, ini = make_result(case, r)
        for d in (v, e):
            for k in d:
                d[k] += p * 0.01 * (1 + len(k))
                if p == (7 * case["seed"]) % n_pix:
                    d[k] += case["outlier"]
        a["charge_hist_y"] = a["charge_hist_y"] + p
        a["fit_y"] = a["fit_y"] + p
        results.append((a, v, e, ini))
    rng.set_state(state)
    index = pd.Index(np.arange(n_pix), name="pixel")
    dfs = [pd.DataFrame([r[i] for r in results], index=index)
           for i in range(3)]
    path = ctx.path("spe.h5")
    with HDF5Writer(path) as w:
        w.write(values=dfs[1], errors=dfs[2], arrays=dfs[0])
        w.add_mapping(mapping)
        w.add_metadata(files=["a"], fitter="AFitter",
                       n_illuminations=case["n"], n_pixels=n_pix,
                       initial=results[0][3])
    out = os.path.join(ctx.path("o"), *case["folder"])
    shots = {}
    real = Figure.savefig

    def savefig(self, fname, **kw):
        shots[os.path.abspath(fname)] = (snapshot(self), self)
        return real(self, fname, **kw)
    argv, Figure.savefig = sys.argv, savefig
    sys.argv = ["plot_spe", "-f", path, "-o", out, "-p", str(chosen)]
    try:
        ctx.call("plot_spe", plot_spe.main)
    finally:
        Figure.savefig, sys.argv = real, argv
    columns = list(results[0][1])
    want = {f"{kind}_{c}.pdf" for kind in ("camera", "hist")
            for c in columns} | {f"spectrum_p{chosen}.pdf"}
    ctx.check(set(os.listdir(out)) == want, lambda: (
        f"wrote {sorted(os.listdir(out))}, not {sorted(want)}"))
    x, y = mapping["xpix"].values, mapping["ypix"].values
    for c in columns:
        shot, _ = shots[os.path.abspath(os.path.join(out, f"camera_{c}.pdf"))]
        ctx.check(shot["title"] == c, f"title of {c}: {shot['title']}")
        images = [i for i in shot["images"] if len(i[1]) == n_pix]
        ctx.check(len(images) == 2, lambda: (
            f"camera images of {c}: {len(images)}"))
        for (pos, val), df, what in zip(images, dfs[1:], ("value", "error")):
            ctx.check(np.allclose(pos, np.column_stack([x, y])),
                      "pixels are misplaced")
            ctx.check(np.allclose(val, df[c].values), lambda: (
                f"{what}s of {c}: {val[:4]}, not {df[c].values[:4]}"))
        ctx.check({"Fit Values", "Fit Errors"} <= set(shot["colourbars"]),
                  lambda: f"colour bars {shot['colourbars']}")
        shot, _ = shots[os.path.abspath(os.path.join(out, f"hist_{c}.pdf"))]
        v = dfs[1][c].values
        ctx.check(sum(shot["bars"]) == n_pix, lambda: (
            f"{sum(shot['bars'])} entries in the histogram of {c}"))
        label = f"Mean = {v.mean():.3g}, Stddev = {v.std():.3g}"
        ctx.check(shot["title"] == c and shot["legend"] == [label], lambda: (
            f"histogram of {c}: {shot['legend']}, not {label}"))
    _, fig = shots[os.path.abspath(os.path.join(
        out, f"spectrum_p{chosen}.pdf"))]
    check_spectrum_axes(ctx, f"spectrum of pixel {chosen}", fig,
                        *results[chosen], case["n"])
    title = fig._suptitle.get_text()
    ctx.check("AFitter" in title and f"Pixel={chosen}" in title and
              f"{case['n']} Ill" in title, f"title {title}")
    ctx.note("pixel 0" if chosen == 0 else "another pixel")


@st.composite
def mode_cases(draw):
    from vf.checks import c29
    c = draw(c29.cases())
    c["pixel"] = draw(st.integers(0, 5))
    return c


def check_mode(ctx, case):
    """extract_spe -p shows the fit of the chosen pixel, writes nothing"""
    from vf.checks import c29
    paths, charges, _ = c29.write_inputs(ctx, case)
    config = c29.write_config(ctx, case)
    chosen = case["pixel"] % case["n_pixels"]
    want = c29.direct(case, charges, config)[0][chosen]
    f = c29.FITTERS[case["kind"]](case["n"])
    f.load_config(config)
    initial = {p.name: p.initial for p in f.parameters}
    lam = initial.pop("lambda_")
    initial.update({f"lambda_{i}": lam for i in range(case["n"])})
    shown = []
    real_show = plt.show

    def show(*a, **kw):
        shown.append(plt.gcf())
    output = ctx.path("out.h5")
    argv, plt.show = sys.argv, show
    sys.argv = ["extract_spe", "-f", *paths, "-o", output, "-C",
                case["column"], "-s", c29.FITTERS[case["kind"]].__name__,
                "-c", config, "-p", str(chosen)]
    try:
        ctx.raises("plot mode", SystemExit, extract_spe.main)
    except SystemExit:
        pass
    finally:
        plt.show, sys.argv = real_show, argv
    ctx.check(len(shown) == 1, f"{len(shown)} figures shown")
    ctx.check(not os.path.exists(output), "plot mode wrote a file")
    check_spectrum_axes(ctx, f"pixel {chosen}", shown[0], want["arrays"],
                        want["values"], want["errors"], initial, case["n"])
    ctx.note("first pixel" if chosen == 0 else "another pixel")


SUBS = [
    Sub("spectrum", spectrum_cases, check_spectrum, quick=60, thorough=800,
        rule="every case"),
    Sub("script", script_cases, check_script, quick=6, thorough=80,
        rule="every case"),
    Sub("mode", mode_cases, check_mode, quick=12, thorough=120,
        rule="every case"),
]
