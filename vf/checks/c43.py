"""C43: the results of the documented analysis are those of the waveforms."""
import math
import sys
import matplotlib
import numpy as np
import pandas as pd
import yaml
from hypothesis import strategies as st
from matplotlib import pyplot as plt
from vf import camera, refs, runs, waves
from vf.checks import c17
from vf.checks.c34 import colours_at
from vf.core import Sub
from CHECLabPy.core.io import DL1Reader, HDF5Appender
from CHECLabPy.plotting.camera import CameraImage, CameraImageImshow
from CHECLabPy.scripts import extract_dl1
from CHECLabPy.utils.mapping import get_superpixel_mapping, get_tm_mapping
from CHECLabPy.utils.resolutions import ChargeResolution, ChargeStatistics

ASSUMPTIONS = [
    "target_io, target_calib and ctapipe are replaced by stand-ins",
    "figures are drawn by matplotlib's Agg renderer"]
CHARGE = "charge_averagewf"


@st.composite
def cases(draw):
    mc = draw(st.integers(0, 2)) == 0
    n_modules = draw(st.sampled_from([1, 1, 4] if mc else [1, 2, 3, 4, 4, 32]))
    file = dict(draw(c17.inputs(mc)), n_modules=n_modules,
                n_samples=draw(st.sampled_from([40, 96, 128])),
                bad=draw(st.sampled_from([0.0, 0.3, 0.5])))
    file["n_events"] = draw(st.integers(1, 3 if n_modules == 32 else 7))
    return dict(
        mc=mc, file=file,
        t=draw(st.integers(12, 39)), size=draw(st.integers(1, 12)),
        shift=draw(st.integers(0, 8)), place=draw(st.permutations(range(6))),
        ops=draw(st.lists(st.tuples(
            st.sampled_from(["image", "image", "mean", "statistics",
                             "append", "select"]
                            + ["resolution"] * 2 * mc),
            st.integers(0, 2 ** 12)), min_size=2, max_size=6)),
        perm=draw(st.integers(0, 2 ** 16)))


def layout_of(case):
    n = case["file"]["n_modules"]
    rng = np.random.RandomState(case["perm"] + 1)
    kw = dict(sp_perm=rng.permutation(16), pix_perm=rng.permutation(4))
    if n == 32:
        return camera.chec_layout(**kw)
    if case["mc"]:
        # the rows and columns are found from the positions
        pos = [(i // 2, i % 2) for i in range(n)]
        kw["gap"] = 0.002
    else:
        pos = [(i // 3, i % 3) for i in sorted(case["place"][:n])]
        rng.shuffle(pos)
    return camera.build_layout(pos, **kw)


def truth(case, events):
    """Charge of every pixel in every good event, from the waveforms"""
    n_pixels = 64 * case["file"]["n_modules"]
    base = refs.RollingBaseline([e["samples"] for e in events], n_pixels)
    out = {}
    for i, e in enumerate(events):
        if e["stale"] or e["missing_packets"]:
            continue
        wf = e["samples"]
        if not case["mc"]:
            wf = refs.time_shift(wf, c17.time_corrections())
        wf = base.process(wf)
        start = case["t"] - case["shift"]
        end = min(start + case["size"], wf.shape[1])
        out[i] = wf[:, max(start, 0):max(end, 0)].astype(float).sum(1)
    return out


def prepare(ctx, case):
    spec = case["file"]
    ref = waves.write_reference(ctx.path("pulse.txt"), waves.DEFAULT_PULSE)
    layout = layout_of(case)
    if case["mc"]:
        n = 64 * spec["n_modules"]
        perm = np.random.RandomState(case["perm"]).permutation(n)
        counter = iter(range(1000))
        events, seen, _ = runs.simulate(
            layout, perm, spec["n_events"], spec["n_samples"], spec["seed"],
            make=lambda rng, n, s: c17.waveforms_of(spec, next(counter)))
        path = ctx.path("gamma.simtel.gz")
        runs.register_simtel(path, events)
        camera.register_camera("1.1.0", layout, reference_pulse_path=ref)
        out = ctx.path("gamma_dl1.h5")
        events = [dict(samples=s["samples"], mc_true=s["mc_true"],
                       stale=False, missing_packets=False) for s in seen]
    else:
        run = c17.make_tio(spec)
        path = ctx.path("Run00001_r1.tio")
        runs.register(path, dict(version=spec["version"], n_cells=16384,
                                 n_modules=spec["n_modules"]),
                      run=run, layout=layout, ref_path=ref)
        out = ctx.path("Run00001_dl1.h5")
        events = run["events"][2:-1]
    config = ctx.path("config.yml")
    with open(config, "w") as f:
        yaml.safe_dump(dict(
            charge_averagewf=True, waveform_max=True, t_extract=case["t"],
            window_size=case["size"], window_shift=case["shift"]), f)
    old = sys.argv
    sys.argv = ["extract_dl1", "-f", path, "-c", config]
    try:
        ctx.call("extract_dl1", extract_dl1.main)
    finally:
        sys.argv = old
    return layout, events, out


def close(a, b, scale):
    return np.shape(a) == np.shape(b) and np.allclose(
        np.asarray(a, float), b, rtol=2e-5, atol=2e-6 * scale + 1e-9)


def show(ctx, reader, layout, values, pick, scale):
    """A camera image of these values, as they should be seen"""
    level = ["pixel", "superpixel", "module"][pick % 3]
    imshow = pick // 3 % 2
    mapping = ctx.call("mapping", lambda: reader.mapping)
    x, y = (np.array(layout["columns"][c]) for c in (
        ("col", "row") if imshow else ("xpix", "ypix")))
    per = dict(pixel=1, superpixel=4, module=64)[level]
    if level == "superpixel":
        mapping = ctx.call("superpixels", get_superpixel_mapping, mapping)
    elif level == "module":
        mapping = ctx.call("modules", get_tm_mapping, mapping)
    size = layout["meta"]["size"]
    if imshow:
        x, y = x // round(per ** 0.5), y // round(per ** 0.5)
        size = 1
    image = np.asarray(values).reshape(-1, per).mean(1)
    cls = CameraImageImshow if imshow else CameraImage
    im = ctx.call("from_mapping", cls.from_mapping, mapping)
    shown = im.camera if imshow else im.pixels
    try:
        lim = float(image.min()), float(image.max())
        if not lim[0] < lim[1]:
            lim = lim[0] - 1, lim[0] + 1
        # the limits, as a blank part of an image would count
        im.set_limits_minmax(*lim)
        im.image = image
        # at the place of every pixel of the camera, its value is seen
        width = np.abs(np.diff(im.ax.transData.transform(
            [[0, 0], [size, size]]), axis=0)).min()
        got, inside = colours_at(im.fig, im.ax, x, y)
        ctx.check(inside.all(), "pixels lie outside of the figure")
        level_at = np.repeat((image - lim[0]) / (lim[1] - lim[0]), per)
        # colours within the rounding of the values
        want = [shown.cmap(np.clip(level_at + d, 0, 1), bytes=True).astype(int)
                for d in (-0.006, 0, 0.006)]
        lo, hi = np.min(want, 0) - 3, np.max(want, 0) + 3
        if width >= 3:
            bad = ((got < lo) | (got > hi)).any(1)
            ctx.check(not bad.any(), lambda: (
                f"{level} image: pixel {np.flatnonzero(bad)[0]} is drawn as "
                f"{got[bad][0]}, not {want[1][bad][0]}"))
            ctx.note(f"{level} image seen")
    finally:
        plt.close(im.fig)


def resolution_of(charges, true, which):
    """Charge resolution, from its definition"""
    groups = {}
    for i in charges:
        for p, (q, t) in enumerate(zip(charges[i], true[i])):
            if t:
                key = (p, float(t)) if which else (float(t),)
                groups.setdefault(key, []).append((q - t) ** 2)
    return {k: math.sqrt(sum(v) / len(v)) for k, v in groups.items()}


def check(ctx, case):
    ctx.cleanups.append(runs.reset)
    layout, events, path = prepare(ctx, case)
    want = truth(case, events)
    n_pixels = 64 * case["file"]["n_modules"]
    if not want:
        ctx.note("no good event", False)
        return
    ids = list(want)
    every = np.array([want[i] for i in ids])
    scale = max(float(np.abs(e["samples"]).max()) for e in events
                ) * case["size"]
    reader = ctx.call("DL1Reader", DL1Reader, path)
    ctx.cleanups.append(lambda: reader.store.close())
    added = {}

    def table():
        df = ctx.call("load_entire_table", reader.load_entire_table)
        ctx.check(len(df) == every.size and close(
            df[CHARGE].values.reshape(every.shape), every, scale),
            "charges of the table")
        ctx.check(df["iev"].tolist() == np.repeat(ids, n_pixels).tolist() and
                  df["pixel"].tolist() == list(range(n_pixels)) * len(ids),
                  "events and pixels of the table")
        return df

    table()
    for op, arg in case["ops"]:
        k = arg % len(ids)
        if op == "image":
            if arg % 2:
                df = ctx.call("reader[]", reader.__getitem__, ids[k])
            else:
                df = ctx.call("iterate_over_events", lambda: [
                    d for d in reader.iterate_over_events()][k])
            ctx.check(close(df[CHARGE].values, want[ids[k]], scale), lambda: (
                f"charges of event {ids[k]}"))
            show(ctx, reader, layout, df[CHARGE].values, arg // 2, scale)
            # what is seen is what was measured
            show(ctx, reader, layout, want[ids[k]], arg // 2, scale)
        elif op == "mean":
            mean = table().groupby("pixel")[CHARGE].mean()
            ctx.check(close(mean.values, every.mean(0), scale),
                      "mean charge per pixel")
            show(ctx, reader, layout, mean.values, arg, scale)
        elif op == "select":
            pix, q = ctx.call("select_columns", reader.select_columns,
                              ["pixel", CHARGE])
            p = arg % n_pixels
            ctx.check(close(np.asarray(q)[np.asarray(pix) == p], every[:, p],
                            scale), f"charges of pixel {p}")
            ctx.note("charges of a pixel")
        elif op == "statistics":
            s = ChargeStatistics()
            for i, df in enumerate(reader.iterate_over_events()):
                # two levels of illumination
                ctx.call("add", s.add, df["pixel"].values,
                         np.full(n_pixels, i % 2), df[CHARGE].values)
            df_p, df_c = ctx.call("finish", s.finish)
            for level in (0, 1):
                part = every[level::2]
                sel = df_p.loc[df_p["amplitude"] == level]
                if not len(part):
                    ctx.check(not len(sel), "statistics of nothing")
                    continue
                ctx.check(close(sel["mean"].values, part.mean(0), scale),
                          "mean per pixel and level")
                cam = df_c.loc[df_c["amplitude"] == level]
                ctx.check(close(cam["mean"].values, [part.mean()], scale) and
                          np.allclose(cam["std"].values, part.std(),
                                      rtol=1e-3, atol=1e-3 * scale),
                          "mean and deviation of the camera")
            ctx.note("statistics")
        elif op == "resolution":
            r = ChargeResolution(bool(arg % 2))
            for df in reader.iterate_over_events():
                ctx.call("add", r.add, df["pixel"].values,
                         df["mc_true"].values, df[CHARGE].values)
            df_p, df_c = ctx.call("finish", r.finish)
            true = {i: events[i]["mc_true"] for i in ids}
            for df, keys, which in ((df_p, ["pixel", "true"], True),
                                    (df_c, ["true"], False)):
                exp = resolution_of(want, true, which)
                got = {tuple(map(float, key)): v for *key, v in
                       df[keys + ["charge_resolution_abs"]].values}
                ctx.check(set(got) == set(exp), "levels of the resolution")
                for key, v in exp.items():
                    if arg % 2:
                        v = math.sqrt(v * v + key[-1])
                    ctx.check(abs(got[key] - v) <= 1e-4 * v + 1e-5 * scale,
                              lambda: f"resolution at {key} is {got[key]}, "
                                      f"not {v}")
            ctx.note("charge resolution")
        else:
            # results are added to the file
            name = f"result{len(added)}"
            frame = pd.DataFrame(dict(
                pixel=np.arange(n_pixels), mean=every.mean(0) + arg))
            reader.store.close()
            with ctx.call("HDF5Appender", HDF5Appender, path) as w:
                ctx.call("append", w.append, frame, key=name)
                ctx.call("add_metadata", w.add_metadata, key=name,
                         analysed=arg)
                if arg % 2:
                    w.add_metadata(name="analysis", last=name)
            added[name] = frame, arg
            reader = ctx.call("DL1Reader", DL1Reader, path)
            ctx.note("results added")
            table()
            for n, (f, a) in added.items():
                got = ctx.call("reading results", reader.read, n)
                ctx.check(got.equals(f), f"added table {n}")
                ctx.check(reader.get_metadata(n)["analysed"] == a,
                          f"metadata of {n}")
            ctx.check(reader.n_events == len(ids) and
                      reader.metadata["n_skipped"] == len(events) - len(ids),
                      "header after adding results")


SUBS = [Sub("analysis", cases, check, quick=90, thorough=900,
            rule="an image was seen, or results were computed or added")]
