"""C34: camera images show each value at its pixel."""
import os
import numpy as np
import matplotlib
matplotlib.use("Agg")
from hypothesis import strategies as st
from matplotlib import pyplot as plt
from vf import camera, runs
from vf.core import Sub
from vf.checks.c32 import layouts
from CHECLabPy.plotting.camera import CameraImage, CameraImageImshow
from CHECLabPy.utils.mapping import (
    get_superpixel_mapping, get_tm_mapping, get_clp_mapping_from_tc_mapping)

ASSUMPTIONS = ["target_calib is replaced by a stand-in",
               "figures are drawn by matplotlib's Agg renderer"]
LEVELS = ["pixel", "pixel", "superpixel", "module"]


@st.composite
def cases(draw):
    kinds = ["float", "float", "int", "nan", "neg", "bool", "const", "large",
             "float32", "inf", "zeros"]
    return dict(
        layout=draw(layouts(most=4)), level=draw(st.sampled_from(LEVELS)),
        build=draw(st.sampled_from(["mapping", "tc", "version", "positions"])),
        kinds=draw(st.lists(st.sampled_from(kinds), min_size=1, max_size=3)),
        limits=draw(st.sampled_from([None, None, "before", "after", "reset",
                                             "same"])),
        own_axes=draw(st.booleans()), cmap=draw(st.sampled_from(
            [None, "plasma", "Greys"])),
        colorbar=draw(st.booleans()), single=draw(st.booleans()),
        reuse=draw(st.booleans()),
        log=draw(st.sampled_from([False, False, False, True])),
        newmap=draw(st.sampled_from([None, None, "magma", "viridis", "Reds"])),
        seed=draw(st.integers(0, 2 ** 16)))


def values(kind, n, rng):
    if kind == "float":
        return rng.normal(10, 5, n)
    if kind == "float32":
        return rng.normal(10, 5, n).astype(np.float32)
    if kind == "int":
        return rng.randint(-50, 3000, n)
    if kind == "nan":
        v = rng.normal(10, 5, n)
        v[rng.rand(n) < 0.3] = np.nan
        v[0] = 1.5 if n < 3 else v[0]
        v[rng.rand(n) < 0.1] = np.inf
        if not np.isfinite(v).any():
            v[-1] = 3.
        return v
    if kind == "inf":
        v = rng.normal(10, 5, n)
        v[rng.permutation(n)[:1 + n // 3]] = rng.choice([np.inf, -np.inf])
        if n == 1:
            v[:] = 2.5
        return v
    if kind == "zeros":
        return np.where(rng.rand(n) < 0.5, 0, rng.randint(-3, 4, n))
    if kind == "neg":
        return -rng.exponential(100, n)
    if kind == "bool":
        return rng.rand(n) < 0.5
    if kind == "const":
        return np.full(n, 4.25)
    return rng.normal(0, 1e8, n)


def make(ctx, cls, case, **kw):
    """The image, and the mapping it shows"""
    layout, level = case["layout"], case["level"]
    data = camera.build_layout(**layout)
    mapping = camera.clp_mapping(data, single=case["single"])
    if level == "superpixel":
        mapping = get_superpixel_mapping(mapping)
    elif level == "module":
        mapping = get_tm_mapping(mapping)
    build = case["build"]
    if level != "pixel" and build in ("tc", "version"):
        build = "mapping"
    if case["own_axes"]:
        fig = plt.figure(figsize=(7, 7))
        kw["ax"] = fig.add_subplot(1, 1, 1)
    name = cls.__name__
    if build == "mapping":
        im = ctx.call(f"{name}.from_mapping", cls.from_mapping, mapping, **kw)
    elif build == "positions":
        c, meta = mapping, mapping.metadata
        if cls is CameraImage:
            im = ctx.call(name, cls, c["xpix"].values, c["ypix"].values,
                          meta["size"], **kw)
        else:
            im = ctx.call(name, cls, c["row"].values, c["col"].values,
                          meta["n_rows"], meta["n_columns"], **kw)
    else:
        import target_calib as tc
        ctx.cleanups.append(runs.reset)
        other = camera.build_layout([(0, 0), (0, 1)])
        lay = dict(layout=data, single_layout=other)
        if case["single"]:
            lay = dict(layout=other, single_layout=data)
        cfg = camera.register_camera("1.0.1", **lay)
        if build == "tc":
            m = tc.Mapping(cfg, case["single"])
            im = ctx.call(f"{name}.from_tc_mapping", cls.from_tc_mapping, m,
                          **kw)
        else:
            im = ctx.call(f"{name}.from_camera_version",
                          cls.from_camera_version, "1.0.1",
                          *[True] if case["single"] else [], **kw)
    if case["own_axes"]:
        ctx.check(im.ax is kw["ax"] and im.fig is kw["ax"].figure,
                  "the given axes are not used")
    return im, mapping


def same(a, b):
    return np.array_equal(np.asarray(a, float), np.asarray(b, float),
                          equal_nan=True)


def colours_at(fig, ax, x, y):
    """The colours drawn at the given data positions"""
    fig.canvas.draw()
    buf = np.asarray(fig.canvas.buffer_rgba())
    p = ax.transData.transform(np.column_stack([x, y]))
    px = np.floor(p[:, 0]).astype(int)
    py = buf.shape[0] - 1 - np.floor(p[:, 1]).astype(int)
    inside = ((px >= 0) & (px < buf.shape[1]) & (py >= 0) &
              (py < buf.shape[0]))
    out = np.full((len(px), 4), -1)
    out[inside] = buf[py[inside], px[inside]]
    return out, inside


def limits_of(v):
    f = np.asarray(v, float)
    f = f[np.isfinite(f)]
    return f.min(), f.max()


def drive(ctx, im, mappable, case, rng):
    """Set images in turn, with the limits; gives the last one and limits"""
    n = im.n_pixels
    lim = None
    if case["limits"] in ("before", "reset"):
        lim = (-3.5, 12.25)
        im.set_limits_minmax(*lim)
    elif case["limits"] == "same":
        lim = (4., 4.)
        im.set_limits_minmax(*lim)
    shown = None
    for i, kind in enumerate(case["kinds"]):
        shown = values(kind, n, rng)
        keep = shown.copy()
        im.image = shown
        ctx.check(same(shown, keep), "the image given was changed")
        ctx.check(same(im.image, keep), "image does not give what was set")
        if case["reuse"]:
            # the same array, with other values
            shown[:] = values(kind, n, rng)[::-1]
            keep = shown.copy()
            im.image = shown
            ctx.check(same(im.image, keep), "an array set again is not shown")
        if case["limits"] == "reset" and i == 0:
            ctx.check(mappable.get_clim() == lim, lambda: (
                f"limits {mappable.get_clim()}, not {lim}"))
            im.reset_limits()
            lim = None
    if case["limits"] == "after":
        lim = (1.5, 11.)
        im.set_limits_minmax(*lim)
    if case["limits"] == "same":
        ctx.check(mappable.get_clim() == lim, lambda: (
            f"limits {mappable.get_clim()}, not {lim}"))
        lim = (4., 9.)
        im.set_limits_minmax(*lim)
    for size in (n + 1, n - 1):
        ctx.raises(f"an image of {size} values for {n} pixels",
                   AssertionError, setattr, im, "image", np.zeros(size))
    ctx.check(same(im.image, shown), "a refused image replaced the last one")
    return shown, lim


def check_colorbar(ctx, im, mappable, log=False):
    """The colour bar shows the limits of the image, also of later ones"""
    ctx.call("add_colorbar", im.add_colorbar, "label")
    im.image = np.linspace(7 if log else -7, 33, im.n_pixels)
    ctx.check(im.colorbar.mappable is mappable, "colour bar of another plot")
    ctx.check(im.colorbar.ax.get_ylabel() == "label", "label is missing")
    im.fig.canvas.draw()
    lim = mappable.get_clim()
    ctx.check(np.allclose(im.colorbar.ax.get_ylim(), lim), lambda: (
        f"colour bar {im.colorbar.ax.get_ylim()}, image {lim}"))
    if hasattr(im, "set_cmap"):
        # what changes later shows in the colour bar too
        ctx.call("set_cmap", im.set_cmap, "cividis")
        if not log:
            im.image = np.linspace(3, 45, im.n_pixels)
            ctx.call("set_z_log", im.set_z_log)
        im.fig.canvas.draw()
        ctx.check(im.colorbar.cmap.name == "cividis" and
                  isinstance(im.colorbar.norm, matplotlib.colors.LogNorm),
                  lambda: f"colour bar of {im.colorbar.cmap.name}, "
                          f"{im.colorbar.norm}")


def check_rects(ctx, im, mapping):
    paths = im.pixels.get_paths()
    size = mapping.metadata["size"]
    ctx.check(len(paths) == len(mapping), lambda: (
        f"{len(paths)} shapes for {len(mapping)} pixels"))
    x, y = mapping["xpix"].values, mapping["ypix"].values
    v = np.array([p.vertices[:4] for p in paths])
    lo, hi = v.min(1), v.max(1)
    centre = (lo + hi) / 2
    ctx.check(np.allclose(centre, np.column_stack([x, y]), rtol=0,
                          atol=1e-9 * (1 + np.abs(x).max() +
                                       np.abs(y).max())),
              lambda: f"pixels are drawn at {centre[:5].tolist()}")
    side = hi - lo
    ctx.check((np.abs(side - size) <= 0.0001 + 0.02 * size).all() and
              (side >= size * (1 - 1e-6)).all(),
              lambda: f"pixels are drawn {side[0]} wide, not {size}")


def check_image(ctx, case):
    rng = np.random.RandomState(case["seed"])
    im, mapping = make(ctx, CameraImage, case, cmap=case["cmap"])
    check_rects(ctx, im, mapping)
    v, lim = ctx.call("setting images", drive, ctx, im, im.pixels, case, rng)
    drawn = np.ma.asarray(im.pixels.get_array())
    ok = np.isfinite(np.asarray(v, float))
    mask = np.ma.getmaskarray(drawn)
    ctx.check(np.array_equal(~mask, ok), "the wrong pixels are masked")
    ctx.check(same(np.ma.getdata(drawn)[ok], v[ok]), lambda: (
        f"drawn values {drawn[:8]}, not {v[:8]}"))
    want = lim or limits_of(v)
    ctx.check(np.allclose(im.pixels.get_clim(), want), lambda: (
        f"colour limits {im.pixels.get_clim()}, not {want}"))
    norm = matplotlib.colors.Normalize(*want)
    if case["log"]:
        # from now on in logarithmic scale
        v = (rng.uniform(1, 1000, len(v)) if rng.rand() < 0.5
             else 10 ** rng.uniform(-2, 5, len(v)))
        first = v if rng.rand() < 0.5 else v[::-1] * 3
        if lim is None:
            im.image = first
        ctx.call("set_z_log", im.set_z_log)
        if lim is not None:
            lim = (max(lim[0], 0.5), lim[1])
            im.set_limits_minmax(*lim)
        im.image = v
        ok = np.full(len(v), True)
        want = lim or limits_of(v)
        ctx.check(np.allclose(im.pixels.get_clim(), want), lambda: (
            f"log colour limits {im.pixels.get_clim()}, not {want}"))
        norm = matplotlib.colors.LogNorm(*want)
        ctx.note("log", False)
    if case["newmap"]:
        ctx.call("set_cmap", im.set_cmap, case["newmap"])
    # what is seen in the end
    x, y = mapping["xpix"].values, mapping["ypix"].values
    got, inside = colours_at(im.fig, im.ax, x, y)
    ctx.check(inside.all(), lambda: (
        f"{(~inside).sum()} pixels lie outside of the figure"))
    cm = matplotlib.colormaps[case["newmap"] or case["cmap"] or
                              matplotlib.rcParams["image.cmap"]]
    exp = cm(norm(np.asarray(v, float)), bytes=True)
    width = np.abs(np.diff(im.ax.transData.transform(
        [[0, 0], [mapping.metadata["size"]] * 2]), axis=0)).min()
    if width >= 3:
        bad = ok & (np.abs(got.astype(int) - exp.astype(int)).max(1) > 1)
        ctx.check(not bad.any(), lambda: (
            f"pixel {np.flatnonzero(bad)[0]} of value {v[bad][0]} is drawn "
            f"as {got[bad][0]}, not {exp[bad][0]}"))
    if case["colorbar"]:
        check_colorbar(ctx, im, im.pixels, case["log"])
    if np.unique(np.asarray(v, float)[ok]).size > 1:
        ctx.note(case["level"] + "/" + case["build"])


def check_imshow(ctx, case):
    rng = np.random.RandomState(case["seed"])
    im, mapping = make(ctx, CameraImageImshow, case)
    n_rows, n_cols = (mapping.metadata[k] for k in ("n_rows", "n_columns"))
    v, lim = ctx.call("setting images", drive, ctx, im, im.camera, case, rng)
    a = np.ma.asarray(im.camera.get_array())
    row, col = mapping["row"].values, mapping["col"].values
    ctx.check(a.shape == (n_rows, n_cols), lambda: f"image of {a.shape}")
    ok = np.isfinite(np.asarray(v, float))
    got = a[row, col]
    ctx.check(not np.ma.getmaskarray(got)[ok].any(), "a pixel is masked")
    ctx.check(same(np.ma.getdata(got)[ok], v[ok]), lambda: (
        f"drawn values {got[:8]}, not {v[:8]}"))
    ctx.check((np.ma.getmaskarray(got) | ~np.isfinite(np.ma.getdata(got))
               )[~ok].all(), "a pixel without a value is drawn with one")
    # the corners without module of the full camera are left blank
    if n_rows == n_cols and n_rows in (48, 24, 6):
        k = n_rows // 6
        used = np.zeros((n_rows, n_cols), bool)
        used[row, col] = True
        for r in (slice(0, k), slice(-k, None)):
            for c in (slice(0, k), slice(-k, None)):
                m = np.ma.getmaskarray(a)[r, c]
                ctx.check(m[~used[r, c]].all(),
                          "a corner without module is not blank")
        ctx.note("full camera")
    if lim is not None:
        ctx.check(np.allclose(im.camera.get_clim(), lim), lambda: (
            f"colour limits {im.camera.get_clim()}, not {lim}"))
    elif ok.all() and np.prod(a.shape) == np.ma.getmaskarray(a).sum() + len(v):
        ctx.check(np.allclose(im.camera.get_clim(), limits_of(v)), lambda: (
            f"colour limits {im.camera.get_clim()}, not {limits_of(v)}"))
    rgba, inside = colours_at(im.fig, im.ax, col, row)
    ctx.check(inside.all(), "pixels lie outside of the figure")
    exp = im.camera.cmap(im.camera.norm(np.asarray(v, float)), bytes=True)
    width = np.abs(np.diff(im.ax.transData.transform([[0, 0], [1, 1]]),
                           axis=0)).min()
    if width >= 3 and ok.all():
        lo, hi = im.camera.get_clim()
        clear = np.abs(np.asarray(v, float)) < 1e7
        bad = clear & (np.abs(rgba.astype(int) - exp.astype(int)).max(1) > 6)
        ctx.check(not bad.any(), lambda: (
            f"pixel {np.flatnonzero(bad)[0]} of value {v[bad][0]} is drawn "
            f"as {rgba[bad][0]}, not {exp[bad][0]}"))
    if case["colorbar"]:
        check_colorbar(ctx, im, im.camera)
    if np.unique(np.asarray(v, float)[ok]).size > 1:
        ctx.note(case["level"] + "/" + case["build"])


@st.composite
def mark_cases(draw):
    c = draw(cases())
    c["imshow"] = draw(st.booleans())
    c["pick"] = draw(st.sampled_from(["mask", "list", "array", "none",
                                      "single"]))
    c["lw"] = draw(st.sampled_from([0.5, 0.5, 2, 1.25]))
    return c


def texts(im):
    return {(round(float(t.get_position()[0]), 9),
             round(float(t.get_position()[1]), 9), t.get_text())
            for t in im.ax.texts}


def check_marks(ctx, case):
    """Labels, highlights and annotations go to the right pixels"""
    rng = np.random.RandomState(case["seed"])
    cls = CameraImageImshow if case["imshow"] else CameraImage
    if case["level"] == "module" and len(case["layout"]["positions"]) == 1:
        case = dict(case, level="pixel")
    im, mapping = make(ctx, cls, case)
    n, meta = len(mapping), mapping.metadata
    if case["imshow"]:
        x, y = mapping["col"].values, mapping["row"].values
    else:
        x, y = mapping["xpix"].values, mapping["ypix"].values
    im.image = values(case["kinds"][0], n, rng)
    pick = np.flatnonzero(rng.rand(n) < 0.3)
    if case["pick"] == "none":
        pick = pick[:0]
    elif case["pick"] == "single":
        pick = np.array([rng.randint(n)])
    # texts
    want = set()
    for p in pick[:3]:
        im.add_text_to_pixel(int(p), f"<{p}>")
        want.add((round(float(x[p]), 9), round(float(y[p]), 9), f"<{p}>"))
    ctx.check(texts(im) == want, lambda: f"texts {texts(im)}, not {want}")
    if n <= 128:
        shown = np.arange(n) + (1000 if case["seed"] % 2 else 0)
        im.add_pixel_text(shown)
        for p in range(n):
            want.add((round(float(x[p]), 9), round(float(y[p]), 9),
                      str(shown[p])))
        ctx.check(texts(im) == want, "pixel texts are misplaced")
        ctx.raises("texts for other than all pixels", AssertionError,
                   im.add_pixel_text, np.arange(n + 1))
    # highlighting
    if not case["imshow"]:
        chosen = np.zeros(n, bool)
        chosen[pick] = True
        arg = dict(mask=chosen, list=pick.tolist(), array=pick,
                   none=pick.tolist(), single=int(pick[0]) if len(pick)
                   else [])[case["pick"]]
        before = (np.ma.filled(im.pixels.get_array().astype(float), np.nan),
                  np.array(im.pixels.get_linewidth()))
        h = ctx.call(f"highlight_pixels({case['pick']})",
                     im.highlight_pixels, arg, "r", case["lw"])
        lw = np.broadcast_to(h.get_linewidth(), n)
        ctx.check(np.array_equal(np.flatnonzero(lw), pick), lambda: (
            f"highlighted {np.flatnonzero(lw)[:8]}, not {pick[:8]}"))
        ctx.check(np.allclose(lw[pick], case["lw"]), lambda: (
            f"line width {lw[pick][:3]}, not {case['lw']}"))
        ctx.check(h in im.ax.collections and h.get_visible() and
                  h.get_alpha() > 0, "the highlights are not in the figure")
        ctx.check(len(h.get_facecolor()) == 0, "highlights hide the pixels")
        centre = np.array([(p.vertices[:4].min(0) + p.vertices[:4].max(0)) / 2
                           for p in h.get_paths()])
        ctx.check(np.allclose(centre, np.column_stack([x, y])),
                  "highlights are misplaced")
        im.fig.canvas.draw()
        edge = np.asarray(h.get_edgecolor())
        ctx.check(np.allclose(edge[:, :3], [1, 0, 0]), lambda: (
            f"highlights drawn in {edge[:2]}"))
        after = (np.ma.filled(im.pixels.get_array().astype(float), np.nan),
                 np.array(im.pixels.get_linewidth()))
        ctx.check(all(same(a, b) for a, b in zip(before, after)),
                  "highlighting changed the image")
        if len(pick):
            ctx.note("highlight " + case["kinds"][0])
    # annotations
    if case["build"] == "positions":
        for f in (im.annotate_on_telescope_up, im.annotate_tm_edge_label):
            k = len(im.ax.texts)
            ctx.call(f.__name__, f)
            ctx.check(len(im.ax.texts) == k, "annotated without mapping")
        return
    old, k = texts(im), len(im.ax.patches)
    ctx.call("annotate_on_telescope_up", im.annotate_on_telescope_up)
    arrows = im.ax.patches[k:]
    ctx.check(len(arrows) == 1, lambda: f"{len(arrows)} arrows")
    ends = [meta[q.replace("X", "Col").replace("Y", "Row")
                 if case["imshow"] else q]
            for q in ("fOTUpX_l", "fOTUpY_l", "fOTUpX_u", "fOTUpY_u")]
    tail, tip = np.array(ends[:2], float), np.array(ends[2:], float)
    xy = arrows[0].get_xy() if hasattr(arrows[0], "get_xy") else \
        arrows[0].get_path().vertices
    length = np.hypot(*(tip - tail))
    # it starts at its tail, ends (with its head) beyond its tip
    along = (np.asarray(xy) - tail) @ (tip - tail) / length
    off = np.abs((np.asarray(xy) - tail) @ np.array(
        [-(tip - tail)[1], (tip - tail)[0]]) / length)
    head = 1 if case["imshow"] else 0.01
    ctx.check(abs(along.min()) < 1e-6 * (1 + length) and
              -1e-6 < along.max() - length < 1.5 * head and
              off.max() <= head * 1.5, lambda: (
        f"the arrow covers {xy.tolist()}, from {tail} to {tip}"))
    kx, ky = (("fOTUpCol_l", "fOTUpRow_l") if case["imshow"]
              else ("fOTUpX_l", "fOTUpY_l"))
    new = texts(im) - old
    ctx.check(new == {(round(float(meta[kx]), 9), round(float(meta[ky]), 9),
                       "ON-Telescope UP")}, lambda: f"annotated {new}")
    old = texts(im)
    if case["level"] == "pixel":
        ctx.call("annotate_tm_edge_label", im.annotate_tm_edge_label)
        new = texts(im) - old
        top, bottom = edge_modules(mapping)
        exp = {}
        for t in top | bottom:
            exp[t] = float(np.mean(x[mapping["slot"].values == t]))
        got_top, got_bottom = set(), set()
        for tx, ty, s in new:
            t = int(s[2:])
            ctx.check(s == f"TM{t:02d}" and t in exp and
                      abs(tx - exp[t]) < 1e-6, lambda: (
                          f"label {s} at x={tx}, module at {exp.get(t)}"))
            ys = y[mapping["slot"].values == t]
            if ty > ys.max():
                got_top.add(t)
            elif ty < ys.min():
                got_bottom.add(t)
            edge = 4 * (meta["size"] if not case["imshow"] else 1)
            ctx.check(ys.min() - edge < ty < ys.max() + edge and not
                      ys.min() <= ty <= ys.max(), lambda: (
                f"label {s} at y={ty}, module at {ys.min()}..{ys.max()}"))
        ctx.check(got_top == top, lambda: (
            f"top labels {got_top}, modules {top}"))
        ctx.check(got_bottom == bottom, lambda: (
            f"bottom labels {got_bottom}, modules {bottom}"))
        ctx.note("edge labels")
    if not case["imshow"]:
        old, k = texts(im), len(im.ax.patches)
        ctx.call("annotate_led_flasher", im.annotate_led_flasher)
        lx, ly = meta["fOTUpX_l"], meta["fOTUpY_l"] + 2 * meta["size"]
        exp = {(round(float(lx * a), 9), round(float(ly * b), 9), str(i))
               for i, (a, b) in enumerate(
                   [(1, 1), (-1, 1), (1, -1), (-1, -1)])}
        ctx.check(texts(im) - old == exp, lambda: (
            f"flashers {texts(im) - old}, not {exp}"))
        got = sorted(tuple(np.round(q.center, 9))
                     for q in im.ax.patches[k:] if hasattr(q, "center"))
        ctx.check(got == sorted(e[:2] for e in exp), lambda: (
            f"flashers are drawn at {got}, not {exp}"))


def edge_modules(mapping):
    slot, row, col = (mapping[k].values for k in ("slot", "row", "col"))
    top, bottom = set(), set()
    for c in set(col):
        at = np.flatnonzero(col == c)
        top.add(int(slot[at[np.argmax(row[at])]]))
        bottom.add(int(slot[at[np.argmin(row[at])]]))
    return top, bottom


@st.composite
def save_cases(draw):
    return dict(
        folder=draw(st.lists(st.sampled_from(["a", "b c", "d.e", "x"]),
                             max_size=3)),
        exists=draw(st.booleans()), name=draw(st.sampled_from(
            ["im.png", "im.svg", "i m.png"])),
        imshow=draw(st.booleans()), relative=draw(st.booleans()),
        before=draw(st.booleans()))


def check_save(ctx, case):
    """Saving creates the folder and the file and closes the figure"""
    c = dict(layout=dict(positions=[(0, 0)]), level="module",
             build="mapping", own_axes=False, single=False)
    cls = CameraImageImshow if case["imshow"] else CameraImage
    other = plt.figure()
    im, _ = make(ctx, cls, c)
    im.image = np.array([2.])
    folder = os.path.join(ctx.tmp, *case["folder"])
    if case["exists"]:
        os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, case["name"])
    if case["before"] and os.path.isdir(folder):
        open(path, "w").close()
    used = path
    if case["relative"]:
        old = os.getcwd()
        ctx.cleanups.append(lambda: os.chdir(old))
        os.chdir(ctx.tmp)
        used = os.path.relpath(path, ctx.tmp)
    ctx.call("save", im.save, used)
    ctx.check(os.path.isfile(path) and os.path.getsize(path) > 100,
              f"{used} was not written")
    ctx.check(not plt.fignum_exists(im.fig.number), "figure left open")
    ctx.check(plt.fignum_exists(other.number), "another figure was closed")
    ctx.note("new folder" if case["folder"] and not case["exists"]
             else "folder exists")


SUBS = [
    Sub("camera", cases, check_image, quick=110, thorough=900,
        rule="two different values or more are drawn"),
    Sub("imshow", cases, check_imshow, quick=110, thorough=900,
        rule="two different values or more are drawn"),
    Sub("marks", mark_cases, check_marks, quick=110, thorough=900,
        rule="pixels are highlighted or modules labelled"),
    Sub("save", save_cases, check_save, quick=12, thorough=60,
        rule="a file is written"),
]
