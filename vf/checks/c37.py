"""C37: waveform displays show each pixel's waveform in its place."""
import re
import numpy as np
import matplotlib
matplotlib.use("Agg")
from hypothesis import strategies as st
from matplotlib import pyplot as plt
from matplotlib.colors import to_rgba
from vf import camera
from vf.core import Sub
from CHECLabPy.plotting.waveform import (
    CameraPixelWaveformPlotter, CameraTMWaveformPlotter, WaveformPlotter)
from CHECLabPy.utils.mapping import get_superpixel_mapping, get_tm_mapping

ASSUMPTIONS = [
    "all modules of the mapping are present in the waveforms, in slot order",
    "displays per pixel cover at least 6 rows and columns"]
GRID = [(r, c) for r in range(4) for c in range(4)]


@st.composite
def waves(draw):
    return dict(n_samples=draw(st.integers(2, 40)),
                kind=draw(st.sampled_from(["pulse", "pulse", "noise", "neg",
                                           "int"])),
                seed=draw(st.integers(0, 2 ** 16)),
                events=draw(st.sampled_from([1, 1, 2])))


def make_waves(case, n_pix, k=0):
    rng = np.random.RandomState(case["seed"] + k)
    n = case["n_samples"]
    wf = rng.normal(0, 1, (n_pix, n))
    if case["kind"] in ("pulse", "int"):
        t = np.arange(n)
        amp = rng.uniform(0, 60, n_pix) * (rng.rand(n_pix) < 0.8)
        wf += amp[:, None] * np.exp(-(t - n / 2) ** 2 / 8)
    elif case["kind"] == "neg":
        wf = wf * 3 - 20
    if case["kind"] == "int":
        wf = np.round(wf * 10).astype(np.int32)
    else:
        wf = wf.astype([np.float32, np.float64][case["seed"] % 2])
    return wf


def place(ax):
    spec = ax.get_subplotspec()
    return (spec.rowspan.start, spec.rowspan.stop, spec.colspan.start,
            spec.colspan.stop, *spec.get_gridspec().get_geometry())


def lines(ax, n):
    """The plotted curves (not the guide lines)"""
    return [l for l in ax.lines if np.size(l.get_ydata()) == n and
            not (n == 2 and l.get_transform() != ax.transData)]


@st.composite
def module_cases(draw):
    c = draw(waves())
    n = draw(st.integers(1, 5))
    c["positions"] = draw(st.lists(st.sampled_from(GRID), min_size=n,
                                   max_size=n, unique=True))
    if draw(st.integers(0, 30)) == 17:
        c["positions"] = camera.CHEC_POSITIONS
    c["fraction"] = draw(st.sampled_from([None, 0.75, 0.5, 0.1, 1.2]))
    c["title"] = draw(st.sampled_from(["", "a title"]))
    return c


def check_modules(ctx, case):
    mapping = camera.clp_mapping(camera.build_layout(case["positions"]))
    n_tm = len(case["positions"])
    pos = np.array(case["positions"])
    pos = pos - pos.min(0)
    n_rows, n_cols = pos.max(0) + 1
    p = ctx.call("CameraTMWaveformPlotter", CameraTMWaveformPlotter, mapping,
                 case["title"])
    ctx.check(sorted(p.ax_dict) == list(range(n_tm)), lambda: (
        f"axes for modules {sorted(p.ax_dict)}"))
    for tm in range(n_tm):
        r, c = int(n_rows - 1 - pos[tm, 0]), int(pos[tm, 1])
        want = (r, r + 1, c, c + 1, int(n_rows), int(n_cols))
        ax = p.ax_dict[tm]
        ctx.check(ax.figure is p.fig and place(ax) == want, lambda: (
            f"module {tm} is drawn at {place(ax)}, not {want}"))
        ctx.check(str(tm) in [t.get_text() for t in ax.texts],
                  f"label of module {tm}")
    wf = make_waves(case, n_tm * 64)
    keep = wf.copy()
    kw = {} if case["fraction"] is None else dict(
        thresh_fraction=case["fraction"])
    ctx.call("plot_waveforms", p.plot_waveforms, wf, **kw)
    ctx.check(np.array_equal(wf, keep), "waveforms were changed")
    avg = keep.astype(float).mean(0)
    thresh = avg.max() * (case["fraction"] or 0.75)
    n = case["n_samples"]
    tol = dict(rtol=1e-4, atol=1e-4)
    for tm in range(n_tm):
        ax = p.ax_dict[tm]
        got = [np.asarray(l.get_ydata(), float) for l in ax.lines[:66]]
        ctx.check(len(got) == 66 and all(g.size == n for g in got), lambda: (
            f"module {tm} shows {len(got)} curves"))
        mine = keep[tm * 64:tm * 64 + 64].astype(float)
        for q in range(64):
            ctx.check(np.allclose(got[q], mine[q]), lambda: (
                f"curve {q} of module {tm} is not that of its pixel"))
        ctx.check(np.allclose(got[64], avg, **tol), "camera average")
        ctx.check(np.allclose(got[65], mine.mean(0), **tol), lambda: (
            f"average of module {tm}"))
        colours = [to_rgba(l.get_color()) for l in ax.lines[:64]]
        for a in range(4):
            ctx.check(set(colours[a * 16:a * 16 + 16]) == {colours[a * 16]},
                      "colours of an ASIC")
        ctx.check(len(set(colours)) == 4, "the ASICs share a colour")
        listed = [re.findall(r"\[(\d+)\|(\d+)\]", t.get_text())
                  for t in ax.texts]
        listed = [(int(a), int(b)) for one in listed for a, b in one]
        margin = 1e-5 * max(1, np.abs(keep).max())
        must = [(q, tm * 64 + q) for q in range(64)
                if mine[q].max() < thresh - margin]
        may = [(q, tm * 64 + q) for q in range(64)
               if mine[q].max() < thresh + margin]
        ctx.check(set(must) <= set(listed) <= set(may) and
                  len(set(listed)) == len(listed), lambda: (
            f"module {tm} lists {listed[:6]}, not {must[:6]}"))
        (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
        ctx.check(x0 <= 0 and x1 >= n - 1 and y0 <= keep.min() + 1e-6 and
                  y1 >= keep.max() - 1e-6, lambda: (
            f"limits {ax.get_xlim()}, {ax.get_ylim()} cut the curves"))
        if must and len(must) < 64:
            ctx.note("some listed")
    if n_tm > 1:
        ctx.note("several modules")


@st.composite
def pixel_cases(draw):
    c = draw(waves())
    c["level"] = draw(st.sampled_from(["module", "superpixel", "superpixel",
                                       "pixel"]))
    n = draw(st.integers(2, 5))
    c["positions"] = draw(st.lists(st.sampled_from(GRID), min_size=n,
                                   max_size=n, unique=True).filter(
        lambda ps: all(max(v) - min(v) >= 1 for v in zip(*ps))))
    if c["level"] == "module":
        c["positions"] = list(draw(st.permutations(camera.CHEC_POSITIONS)))
    elif c["level"] == "pixel":
        c["positions"] = [(0, 0)]
    c["sp_perm"] = draw(st.permutations(range(16)))
    c["pick"] = draw(st.lists(st.lists(st.integers(0, 200), max_size=6),
                              max_size=3))
    c["colour"] = draw(st.sampled_from(["red", "lime"]))
    return c


def spines(p):
    return {(k, name): (s.get_visible(), to_rgba(s.get_edgecolor())
                        if s.get_visible() else None,
                        float(s.get_linewidth()) if s.get_visible() else None)
            for k, ax in p.ax_dict.items() for name, s in ax.spines.items()}


def check_pixels(ctx, case):
    mapping = camera.clp_mapping(camera.build_layout(
        case["positions"], sp_perm=case["sp_perm"]))
    if case["level"] == "module":
        mapping = get_tm_mapping(mapping)
    elif case["level"] == "superpixel":
        mapping = get_superpixel_mapping(mapping)
    n = len(mapping)
    per_tm = n // len(case["positions"])
    row, col = mapping["row"].values, mapping["col"].values
    n_rows, n_cols = int(row.max()) + 1, int(col.max()) + 1
    ctx.cleanups.append(lambda old=matplotlib.rcParams["axes.linewidth"]:
                        matplotlib.rcParams.update({"axes.linewidth": old}))
    p = ctx.call("CameraPixelWaveformPlotter", CameraPixelWaveformPlotter,
                 mapping)
    ctx.check(sorted(p.ax_dict) == list(range(n)), "axes per pixel")
    for i in range(n):
        r, c = n_rows - 1 - int(row[i]), int(col[i])
        want = (r, r + 1, c, c + 1, n_rows, n_cols)
        ax = p.ax_dict[i]
        ctx.check(ax.figure is p.fig and place(ax) == want, lambda: (
            f"pixel {i} is drawn at {place(ax)}, not {want}"))
        label = f"{i}\n{i // per_tm},{i % per_tm}"
        ctx.check(label in [t.get_text() for t in ax.texts], lambda: (
            f"pixel {i} labelled {[t.get_text() for t in ax.texts]}"))
    blank = spines(p)
    wf = make_waves(case, n)
    keep = wf.copy()
    ctx.call("plot_waveforms", p.plot_waveforms, wf)
    ctx.check(np.array_equal(wf, keep), "waveforms were changed")
    v = keep.astype(float)
    top = v.max(1)
    norm = (top - top.min()) / (np.ptp(top) or 1)
    k = case["n_samples"]
    for i in range(n):
        ax = p.ax_dict[i]
        got = [np.asarray(l.get_ydata(), float) for l in ax.lines][1:]
        ctx.check(len(got) == 2 and all(g.size == k for g in got), lambda: (
            f"pixel {i} shows {len(got)} curves"))
        ctx.check(np.allclose(got[0], v[i]), f"curve of pixel {i}")
        ctx.check(np.allclose(got[1], v.mean(0), rtol=1e-4, atol=1e-4),
                  f"average in pixel {i}")
        exp = matplotlib.colormaps["viridis"](norm[i])
        ctx.check(np.abs(np.subtract(ax.get_facecolor(), exp)).max() < 0.03,
                  lambda: f"colour of pixel {i}: {ax.get_facecolor()}, "
                          f"not {exp}")
        ctx.check(np.allclose(ax.get_ylim(), (v.min(), v.max())) and
                  np.allclose(ax.get_xlim(), (0, k)), "limits differ")
    ctx.check(spines(p) == blank, "plotting changed the outlines")
    # highlights accumulate until they are reset
    marked = set()
    for pick in case["pick"]:
        mask = np.zeros(n, bool)
        mask[[i % n for i in pick]] = True
        marked |= set(np.flatnonzero(mask).tolist())
        arg = mask if case["seed"] % 2 else mask.tolist()
        ctx.call("highlight_pixels", p.highlight_pixels, arg, case["colour"])
        now = spines(p)
        red = to_rgba(case["colour"])
        for i in range(n):
            for name in ("left", "right", "top", "bottom"):
                s = now[i, name]
                ok = (s[0] and s[1] == red) if i in marked else (
                    s == blank[i, name])
                ctx.check(ok, lambda: (
                    f"{name} outline of pixel {i} is {s} with "
                    f"{sorted(marked)} highlighted"))
    ctx.call("reset_pixel_highlight", p.reset_pixel_highlight)
    now = spines(p)
    for key in blank:
        ctx.check(now[key][:2] == blank[key][:2], lambda: (
            f"outline {key} is {now[key]} after the reset, was {blank[key]}"))
    ctx.note(case["level"])
    if marked:
        ctx.note("highlighted")


@st.composite
def line_cases(draw):
    return dict(curves=draw(st.lists(st.tuples(
        st.integers(1, 60), st.booleans(), st.sampled_from(
            ["", "a", "b c"])), min_size=1, max_size=4)),
        title=draw(st.sampled_from(["", "T"])),
        units=draw(st.sampled_from(["", "mV", "p.e."])),
        tunits=draw(st.sampled_from([None, "", "s"])),
        own=draw(st.booleans()), seed=draw(st.integers(0, 2 ** 16)))


def check_lines(ctx, case):
    rng = np.random.RandomState(case["seed"])
    kw = {} if case["tunits"] is None else dict(tunits=case["tunits"])
    if case["own"]:
        kw["ax"] = plt.figure().add_subplot(1, 1, 1)
    p = ctx.call("WaveformPlotter", WaveformPlotter, case["title"],
                 case["units"], **kw)
    if case["own"]:
        ctx.check(p.ax is kw["ax"], "the given axes are not used")
    want = []
    for n, given, label in case["curves"]:
        x = rng.uniform(0, 1e-7, n) if given else None
        if given and n % 3:
            x = np.sort(x)[::1 if n % 3 == 1 else -1]
        y = rng.normal(size=n)
        ctx.call("add", p.add, x, y, label)
        want.append((np.arange(n) if x is None else x, y, label))
    ctx.check(len(p.ax.lines) == len(want), "number of curves")
    for l, (x, y, label) in zip(p.ax.lines, want):
        ctx.check(np.allclose(l.get_xdata(), x, atol=0) and
                  np.allclose(l.get_ydata(), y), "curve differs")
        ctx.check(not label or l.get_label() == label, "label differs")
    path = ctx.path("new folder", "wf.svg")
    ctx.call("save", p.save, path)
    unit = "ns" if case["tunits"] is None else case["tunits"]
    text = (p.ax.get_title(), p.ax.get_xlabel(), p.ax.get_ylabel())
    exp = (case["title"], "Time" + (f" ({unit})" if unit else ""),
           "Amplitude" + (f" ({case['units']})" if case["units"] else ""))
    ctx.check(text == exp, lambda: f"labels {text}, not {exp}")
    ctx.check("<svg" in open(path).read()[:2000], "no figure was written")
    ctx.note("curves")


SUBS = [
    Sub("modules", module_cases, check_modules, quick=25, thorough=250,
        rule="several modules, or some pixels listed and some not"),
    Sub("pixels", pixel_cases, check_pixels, quick=25, thorough=250,
        rule="every case"),
    Sub("lines", line_cases, check_lines, quick=25, thorough=300,
        rule="every case"),
]
