"""C23: pixel masks combine and round-trip."""
import glob
import os
import shutil
from datetime import datetime, timedelta
import numpy as np
from hypothesis import strategies as st
from vf import camera, runs, scratch
from vf.core import Sub, plotted
from CHECLabPy.calib import pixel_masks as module
from CHECLabPy.calib.pixel_masks import PixelMasks

N = 2048
KINDS = ["dead", "low", "bad_hv"]


def indices(n):
    few = st.lists(st.integers(0, n - 1), max_size=6)
    return st.one_of(few, few, st.sampled_from([[], [0], [n - 1],
                                                [0, n - 1]]))


STAMPS = st.datetimes(datetime(2010, 1, 1), datetime(2025, 12, 31)).map(
    lambda d: d.strftime("d%y%m%dT%H%M"))
FILES = st.fixed_dictionaries(dict(
    stamp=STAMPS, order=st.permutations(["pixel"] + KINDS),
    dead=indices(N), low=indices(N), bad_hv=indices(N),
    full=st.booleans()))
EDITS = st.one_of(
    st.tuples(st.just("pixels"), st.sampled_from(["dead", "low"]),
              indices(N), st.booleans()),
    st.tuples(st.just("superpixels"), st.sampled_from(KINDS), indices(512),
              st.booleans()),
    st.tuples(st.just("modules"), st.sampled_from(["dead", "low"]),
              indices(32), st.booleans()),
    st.tuples(st.just("merge"), FILES),
    st.tuples(st.just("load"), FILES),
    st.tuples(st.just("commit")),
    st.tuples(st.just("reload")),
)


@st.composite
def cases(draw):
    return dict(
        real=draw(st.integers(0, 3)) == 0,
        files=draw(st.lists(FILES, min_size=1, max_size=4)),
        choose=draw(st.none() | st.integers(0, 3)),
        edits=draw(st.lists(EDITS, max_size=7)))


def truth(f):
    out = {}
    for k in KINDS:
        out[k] = np.zeros(N, bool)
        out[k][f[k]] = True
    if f["full"]:
        out["bad_hv"] = np.repeat(out["bad_hv"].reshape(-1, 4).any(1), 4)
    return out


def write(path, f):
    t = truth(f)
    t["pixel"] = np.arange(N)
    with open(path, "w") as out:
        out.write("\t".join(f["order"]) + "\n")
        for i in range(N):
            out.write("\t".join(str(t[k][i]) for k in f["order"]) + "\n")


def model_of(t):
    return dict(dead=t["dead"].copy(), low=t["low"].copy(),
                bad_hv=t["bad_hv"].reshape(-1, 4).any(1))


def read_real(path):
    with open(path) as f:
        names = f.readline().split()
        rows = np.array([line.split() for line in f])
    t = {n: rows[:, i] == "True" for i, n in enumerate(names)
         if n != "pixel"}
    order = rows[:, names.index("pixel")].astype(int)
    assert (order == np.arange(N)).all()
    return t


def compare(ctx, masks, model, what):
    for k in KINDS:
        got = np.asarray(getattr(masks, k))
        ctx.check(got.shape == model[k].shape and got.dtype == bool,
                  f"{what}: {k} has {got.shape}, {got.dtype}")
        ctx.check(np.array_equal(got, model[k]), lambda: (
            f"{what}: {k} is {np.where(got)[0]}, not "
            f"{np.where(model[k])[0]}"))
    want = model["dead"] | model["low"]
    for sp in np.where(model["bad_hv"])[0]:
        want[4 * sp:4 * sp + 4] = True
    got = np.asarray(masks.all_mask)
    ctx.check(np.array_equal(got, want), lambda: (
        f"{what}: the combined mask is {np.where(got)[0]}, not "
        f"{np.where(want)[0]}"))


def check(ctx, case):
    folder = os.path.join(scratch.calib_data(ctx), "pixel_masks")
    stored = {}
    if not case["real"]:
        shutil.rmtree(folder)
        os.makedirs(folder)
        for f in case["files"]:
            write(os.path.join(folder, f["stamp"] + ".dat"), f)
            stored[f["stamp"]] = truth(f)
    else:
        for p in glob.glob(os.path.join(folder, "*")):
            stored[os.path.basename(p)[:-4]] = read_real(p)
    latest = max(stored)
    if case["choose"] is None:
        masks = ctx.call("PixelMasks", PixelMasks)
        model = model_of(stored[latest])
        compare(ctx, masks, model, f"latest of {sorted(stored)}")
    else:
        name = sorted(stored)[case["choose"] % len(stored)]
        masks = ctx.call("PixelMasks", PixelMasks,
                         os.path.join(folder, name + ".dat"))
        model = model_of(stored[name])
        compare(ctx, masks, model, name)
    if any(model[k].any() for k in KINDS):
        ctx.note("masked when loaded")
    for i, edit in enumerate(case["edits"]):
        what = f"after edit {i} ({edit[0]})"
        if edit[0] in ("pixels", "superpixels", "modules"):
            _, kind, where, value = edit
            where = list(where)
            if not where:
                continue
            if edit[0] == "pixels" or kind == "bad_hv":
                pix = np.array(where)
                want = where
            else:
                n, func = (4, PixelMasks.convert_superpixels_to_pixels) if \
                    edit[0] == "superpixels" else (
                        64, PixelMasks.convert_module_to_pixels)
                pix = ctx.call(what, func, where)
                want = [w * n + j for w in where for j in range(n)]
                ctx.check(np.array_equal(pix, want), lambda: (
                    f"{what}: pixels of {where} are {pix}"))
                ctx.check(np.array_equal(func(np.array(where)), want),
                          f"{what}: an array gives other pixels")
            getattr(masks, kind)[pix] = value
            model[kind][want] = value
        elif edit[0] in ("merge", "load"):
            path = ctx.path(f"mask{i}.dat")
            write(path, edit[1])
            old = masks.dead
            kept = old.copy()
            ctx.call(what, masks._load_file, path, merge=edit[0] == "merge")
            new = model_of(truth(edit[1]))
            model = {k: (model[k] | new[k]) if edit[0] == "merge" else new[k]
                     for k in KINDS}
            ctx.check(np.array_equal(old, kept), "an earlier mask changed")
            if edit[0] == "merge":
                ctx.note("merged")
        elif edit[0] == "commit":
            before = datetime.now()
            ctx.call("commit", masks.commit)
            after = datetime.now()
            names = {(before + timedelta(seconds=s)).strftime("d%y%m%dT%H%M")
                     for s in range(int((after - before).total_seconds()) + 1)
                     } | {after.strftime("d%y%m%dT%H%M")}
            there = {os.path.basename(p) for p in glob.glob(
                os.path.join(folder, "*"))}
            extra = there - {s + ".dat" for s in stored}
            ctx.check(extra <= {n + ".dat" for n in names} and (
                names & {t[:-4] for t in there}),
                f"committing gave {sorted(extra)}, not {names}")
            name = max(names & {t[:-4] for t in there})
            stored[name] = dict(
                dead=model["dead"].copy(), low=model["low"].copy(),
                bad_hv=np.repeat(model["bad_hv"], 4))
            back = PixelMasks(os.path.join(folder, name + ".dat"))
            compare(ctx, back, model, "committed and loaded again")
            got = read_real(os.path.join(folder, name + ".dat"))
            for k in KINDS:
                ctx.check(np.array_equal(got[k], stored[name][k]),
                          f"{k} in the committed file")
            for s in stored:
                if s in names:
                    continue
                kept = read_real(os.path.join(folder, s + ".dat"))
                ctx.check(all(np.array_equal(kept[k], stored[s][k])
                              for k in KINDS), f"committing changed {s}")
            ctx.note("committed")
        elif edit[0] == "reload":
            fresh = ctx.call("PixelMasks", PixelMasks)
            compare(ctx, fresh, model_of(stored[max(stored)]),
                    f"latest of {sorted(stored)}")
        compare(ctx, masks, model, what)


@st.composite
def plot_cases(draw):
    return dict(file=draw(FILES), module=draw(st.none() |
                                              st.integers(0, 31)))


def check_plot(ctx, case):
    """The plot shows each kind of defect at its pixel"""
    ctx.cleanups.append(runs.reset)
    layout = camera.chec_layout()
    camera.register_camera("1.1.0", layout)
    path = ctx.path("mask.dat")
    f = dict(case["file"])
    if case["module"] is not None:
        f["low"] = f["low"] + [64 * case["module"] + i for i in range(20)]
        f["dead"] = f["dead"] + [64 * case["module"] + i
                                 for i in range(0, 40, 2)]
    write(path, f)
    masks = ctx.call("PixelMasks", PixelMasks, path)
    model = model_of(truth(f))
    with plotted() as figure:
        ctx.call("plot", masks.plot)
    drawn, = [c for ax in figure().axes for c in ax.collections]
    got = np.ma.filled(np.ma.asarray(drawn.get_array(), float), np.nan)
    want = np.full(N, np.nan)
    for p in range(N):
        if model["bad_hv"][p // 4]:
            want[p] = 0.5
        elif model["low"][p]:
            want[p] = 2
        elif model["dead"][p]:
            want[p] = 1
    ctx.check(np.array_equal(got, want, equal_nan=True), lambda: (
        f"the plot marks {np.flatnonzero(np.isfinite(got))[:9]}, not "
        f"{np.flatnonzero(np.isfinite(want))[:9]}"))
    if np.unique(want[np.isfinite(want)]).size > 1:
        ctx.note("several kinds of defects")


SUBS = [Sub("plot", plot_cases, check_plot, quick=6, thorough=40,
            rule="pixels of several kinds of defects are shown"),
        Sub("masks", cases, check, quick=400,
            rule="some pixels are masked when loaded, or masks are merged or "
                 "committed")]
