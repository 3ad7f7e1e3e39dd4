"""C41: plots use the given axes or their own figure, and are saved whole."""
import os
import numpy as np
import pandas as pd
import matplotlib
matplotlib.use("Agg")
from hypothesis import strategies as st
from matplotlib import pyplot as plt
from vf.core import Sub
from CHECLabPy.plotting.camera import CameraImage
from CHECLabPy.plotting.resolutions import (
    ChargeMeanPlotter, ChargeResolutionPlotter)
from CHECLabPy.plotting.setup import Plotter
from CHECLabPy.plotting.waveform import WaveformPlotter
from CHECLabPy.scripts.plot_spe import SPEHist

ASSUMPTIONS = ["figures are drawn by matplotlib's Agg renderer"]
# far from each other and from everything else in a figure
COLOURS = [(255, 0, 0), (0, 0, 255), (255, 0, 255), (0, 200, 0),
           (255, 128, 0), (0, 200, 200)]
TEXT_WIDTH = 421.10046 / 72.27  # inches
GOLDEN = (5 ** 0.5 - 1) / 2


class Counting(Plotter):
    """A plotter as a user writes it: the rest is added when it is finished"""
    def __init__(self, colour, **kwargs):
        super().__init__(**kwargs)
        self.colour = colour
        self.finished = 0

    def finish(self):
        self.finished += 1
        self.ax.axvspan(0.6, 0.9, color=self.colour, lw=0)


KINDS = ["plain", "plain", "counting", "counting", "waveform", "camera",
         "resolution", "mean", "hist"]


@st.composite
def sessions(draw):
    plotters = []
    for _ in range(draw(st.sampled_from([1, 2, 2, 3, 4]))):
        kind = draw(st.sampled_from(KINDS))
        plotters.append(dict(
            kind=kind, ax=kind not in ("resolution", "mean")
            and draw(st.booleans()),
            share=draw(st.booleans()), side=draw(st.booleans()),
            talk=draw(st.integers(0, 3)) == 0,
            legend=draw(st.booleans())))
    saves = draw(st.lists(st.tuples(
        st.integers(0, len(plotters) - 1),
        st.sampled_from(["a.png", "b c.png", "x/y/d.png", "x/e.png",
                         "new.dir/f.png", "ü/g.png"]),
        st.sampled_from([None, 40, 120])), min_size=1, max_size=4))
    return dict(plotters=plotters, saves=saves,
                relative=draw(st.booleans()))


def make(ctx, spec, colour, ax):
    kw = {}
    if ax is not None:
        kw["ax"] = ax
    kind = spec["kind"]
    if kind in ("plain", "counting", "hist", "camera"):
        kw["sidebyside"] = spec["side"]
        if spec["talk"] and kind != "camera":
            kw["talk"] = True
    if kind == "plain":
        return ctx.call("Plotter", Plotter, **kw)
    if kind == "counting":
        return ctx.call("a Plotter subclass", Counting,
                        tuple(c / 255 for c in colour), **kw)
    if kind == "waveform":
        return ctx.call("WaveformPlotter", WaveformPlotter, **kw)
    if kind == "camera":
        return ctx.call("CameraImage", CameraImage, np.array([0., 1.]),
                        np.array([0., 1.]), 0.5, **kw)
    if kind == "hist":
        return ctx.call("SPEHist", SPEHist, **kw)
    if kind == "resolution":
        return ctx.call("ChargeResolutionPlotter", ChargeResolutionPlotter)
    p = ctx.call("ChargeMeanPlotter", ChargeMeanPlotter)
    # it shows a range of charges once there are some
    table = pd.DataFrame(dict(pixel=[0, 0], amplitude=[1., 10.],
                              mean=[1., 10.], std=[.1, .2]))
    p.set_store(dict(charge_statistics_pixel=table,
                     charge_statistics_camera=table))
    p.plot_camera()
    return p


def colours_in(path):
    im = plt.imread(path)[..., :3]
    im = np.round(im * 255).astype(int).reshape(-1, 3)
    return {c for c in COLOURS
            if (np.abs(im - np.array(c)).max(1) <= 2).sum() > 20}


def check(ctx, case):
    old = matplotlib.rcParams.copy()
    ctx.cleanups.append(lambda: matplotlib.rcParams.update(old))
    plt.close("all")
    cwd = os.getcwd()
    ctx.cleanups.append(lambda: os.chdir(cwd))
    os.chdir(ctx.tmp)
    made, shared = [], None
    drawn = {}  # figure number: colours
    for spec, colour in zip(case["plotters"], COLOURS):
        ax = None
        before = set(plt.get_fignums())
        if spec["ax"]:
            if shared is None or not spec["share"]:
                shared = plt.figure(figsize=(5, 4))
            ax = shared.add_subplot(1, 4, len(made) + 1)
            before = set(plt.get_fignums())
        p = make(ctx, spec, colour, ax)
        new = set(plt.get_fignums()) - before
        if ax is not None:
            ctx.check(p.ax is ax and p.fig is ax.figure,
                      "the given axes are not used")
            ctx.check(not new, "a figure was made although axes were given")
        else:
            ctx.check(new == {p.fig.number}, lambda: (
                f"made the figures {new}, uses {p.fig.number}"))
            ctx.check(list(p.fig.axes) == [p.ax], "axes of the figure")
            w, h = p.fig.get_size_inches()
            scale = 0.9
            if spec["kind"] in ("plain", "counting", "hist", "camera") and \
                    spec["side"]:
                scale = 0.6
            ctx.check(np.allclose([w, h], [
                TEXT_WIDTH * scale, TEXT_WIDTH * scale * GOLDEN]), lambda: (
                f"figure of {w} x {h} inches, side by side: {spec['side']}"))
        p.ax.axvspan(0.1, 0.4, color=tuple(c / 255 for c in colour), lw=0)
        drawn.setdefault(p.fig.number, set()).add(colour)
        if spec["legend"]:
            p.ax.plot([0.45, 0.5], [0, 1], color="k", label=f"curve {colour}")
            ctx.call("add_legend", p.add_legend)
            texts = [t.get_text() for t in p.ax.get_legend().get_texts()]
            ctx.check(texts == [f"curve {colour}"], f"legend {texts}")
        made.append(p)
    for p, spec in zip(made, case["plotters"]):
        ctx.check((p.ax.get_legend() is not None) == spec["legend"],
                  "a legend is on other axes")
    for kind in ("plain", "counting", "hist"):
        sizes = [[p.ax.xaxis.label.get_size()
                  for p, s in zip(made, case["plotters"])
                  if s["kind"] == kind and not s["ax"] and
                  s["talk"] == talk] for talk in (False, True)]
        if all(sizes):
            ctx.check(max(sizes[0]) < min(sizes[1]), lambda: (
                f"labels of {sizes[0]} points, {sizes[1]} for a talk"))
            ctx.note("for a talk")
    open_figs = set(plt.get_fignums())
    ctx.check(open_figs == {p.fig.number for p in made}, "figures")
    finished = [0] * len(made)
    for i, name, dpi in case["saves"]:
        p = made[i]
        path = os.path.join(ctx.tmp, "out", name)
        used = os.path.join("out", name) if case["relative"] else path
        if os.path.dirname(name) == "" and case["relative"]:
            path, used = os.path.join(ctx.tmp, name), name
        kw = {} if dpi is None else dict(dpi=dpi)
        ctx.call(f"save({used!r})", p.save, used, **kw)
        finished[i] += 1
        if isinstance(p, Counting):
            ctx.check(p.finished == finished[i], lambda: (
                f"finished {p.finished} times, saved {finished[i]} times"))
        ctx.check(os.path.isfile(path), f"{used} was not written")
        got = colours_in(path)
        ctx.check(got == drawn[p.fig.number], lambda: (
            f"{used} shows {got}, drawn were {drawn[p.fig.number]}"))
        open_figs.discard(p.fig.number)
        ctx.check(set(plt.get_fignums()) == open_figs, lambda: (
            f"open figures {plt.get_fignums()}, not {sorted(open_figs)}"))
        if dpi is not None:
            other = os.path.join(ctx.tmp, "other.png")
            p.fig.savefig(other, bbox_inches="tight", dpi=dpi)
            a, b = plt.imread(path).shape, plt.imread(other).shape
            ctx.check(np.abs(np.subtract(a, b)).max() <= 2, lambda: (
                f"saved with {dpi} dpi: {a} instead of {b}"))
    if case["saves"] and len(made) > 1:
        ctx.note("one of several plots saved")
    if len({p.fig.number for p in made}) < len(made):
        ctx.note("plots share a figure", False)


@st.composite
def sizes(draw):
    return dict(scale=draw(st.floats(0.01, 10)))


def check_size(ctx, case):
    w, h = ctx.call("golden_figsize", Plotter.golden_figsize, case["scale"])
    ctx.check(np.isclose(w, TEXT_WIDTH * case["scale"]) and
              np.isclose(h, w * GOLDEN), lambda: (
        f"{w} x {h} inches for the scale {case['scale']}"))
    ctx.note("scale")


SUBS = [
    Sub("session", sessions, check, quick=70, thorough=1200,
        rule="one of several plots is saved"),
    Sub("size", sizes, check_size, quick=50, rule="every case"),
]
