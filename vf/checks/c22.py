"""C22: calibration coefficients are applied to the right pixel."""
import os
import numpy as np
from hypothesis import strategies as st
from vf import runs, scratch
from vf.core import Sub, plotted
from CHECLabPy.calib import (
    AmplitudeCalibrator, IlluminationProfile, SiPMDataSheetConverter,
    WaveformCalibrator)
from CHECLabPy.core.io import TIOReader
from CHECLabPy.core.io.waveform import Waveform

ASSUMPTIONS = ["target_calib and target_io are replaced by stand-ins"]
COLUMNS = ["vover", "gain", "opct", "pde"]


# ------------------------------------------------------------------ amplitude
@st.composite
def amplitude_cases(draw):
    n = draw(st.integers(1, 40))
    k = draw(st.integers(1, 30))
    return dict(n=n, pixels=draw(st.lists(
        st.integers(0, n - 1), min_size=k, max_size=k)),
        scalar=draw(st.integers(0, 3)) == 0,
        dtype=draw(st.sampled_from(["float32", "float64", "int64"])),
        conversion=draw(st.floats(0.01, 100) | st.floats(100, 1e5)),
        seed=draw(st.integers(0, 2 ** 16)))


def check_amplitude(ctx, case):
    rng = np.random.RandomState(case["seed"])
    ff = rng.uniform(0.5, 1.5, case["n"])
    ped = rng.normal(0, 10, case["n"])
    conv = case["conversion"]
    ff0, ped0 = ff.copy(), ped.copy()
    cal = AmplitudeCalibrator(ff, ped, conv)
    pixels = np.array(case["pixels"])
    values = (rng.normal(0, 1, pixels.size) * 100).astype(case["dtype"])
    before = values.copy()
    if case["scalar"]:
        pixels, values = int(pixels[0]), float(values[0])
        before = values
    got = ctx.call("calibrating", cal, values, pixels)
    want = [(float(v) - ped0[p]) / conv * ff0[p] for v, p in zip(
        np.atleast_1d(before), np.atleast_1d(pixels))]
    ctx.check(np.shape(got) == np.shape(values), f"shape {np.shape(got)}")
    ctx.check(np.allclose(np.atleast_1d(got), want, rtol=1e-9, atol=1e-9),
              lambda: f"{got} instead of {want}")
    ctx.check(np.array_equal(values, before) and np.array_equal(ff, ff0)
              and np.array_equal(ped, ped0), "the input was changed")
    if np.unique(pixels).size > 1:
        ctx.note("several pixels")


# -------------------------------------------------------- illumination profile
@st.composite
def profile_cases(draw):
    return dict(n=draw(st.integers(1, 60)),
                dtype=draw(st.sampled_from(["float32", "float64", "int64"])),
                events=draw(st.integers(0, 3)),
                more=draw(st.booleans()),
                seed=draw(st.integers(0, 2 ** 16)))


def check_profile(ctx, case):
    rng = np.random.RandomState(case["seed"])
    n = case["n"]
    corr = rng.uniform(0.3, 2, n)
    if rng.rand() < 0.3:
        # pixels that see hardly anything, or a lot
        corr *= 10 ** rng.uniform(-4, 2, n)
    path = ctx.path("profile.dat")
    with open(path, "w") as f:
        f.write("pixel\tcorrection" + ("\textra" if case["more"] else "")
                + "\n")
        for i, c in enumerate(corr):
            f.write(f"{i}\t{float(c)!r}" + ("\t5" if case["more"] else "")
                    + "\n")
    prof = ctx.call("IlluminationProfile", IlluminationProfile, path)
    shape = (case["events"], n) if case["events"] else (n,)
    image = (rng.normal(0, 1, shape) * 50).astype(case["dtype"])
    before = image.copy()
    flat = ctx.call("unfold", prof.unfold, image)
    back = ctx.call("fold", prof.fold, image)
    ctx.check(np.array_equal(image, before), "the image was changed")
    for i in range(n):
        w = before[..., i].astype(float)
        ctx.check(np.allclose(flat[..., i], w / corr[i], rtol=1e-9),
                  lambda: f"unfold: pixel {i} is {flat[..., i]}, not "
                          f"{w / corr[i]}")
        ctx.check(np.allclose(back[..., i], w * corr[i], rtol=1e-9),
                  lambda: f"fold: pixel {i} is {back[..., i]}, not "
                          f"{w * corr[i]}")
    ctx.check(np.allclose(prof.fold(flat), before, rtol=1e-9),
              "folding does not undo unfolding")
    if n > 1:
        ctx.note("several pixels")


# ------------------------------------------------------------ SiPM data sheet
@st.composite
def sheet_cases(draw):
    return dict(
        real=draw(st.integers(0, 2)) == 0, rows=draw(st.integers(3, 30)),
        gaps=draw(st.lists(st.integers(0, 2), min_size=8, max_size=8)),
        key=draw(st.sampled_from(COLUMNS)),
        at=draw(st.lists(st.floats(-0.1, 1.1), min_size=1, max_size=5)),
        exact=draw(st.booleans()), scalar=draw(st.booleans()),
        order=draw(st.permutations(COLUMNS)),
        seed=draw(st.integers(0, 2 ** 16)))


def sheet(case):
    rng = np.random.RandomState(case["seed"])
    n = case["rows"]
    table = {c: np.cumsum(rng.uniform(0.1, 1, n)) * s for c, s in zip(
        COLUMNS, (0.3, 1e5, 0.03, 0.02))}
    for i, c in enumerate(COLUMNS):
        lo, hi = case["gaps"][2 * i], case["gaps"][2 * i + 1]
        if lo + hi <= n - 2 and c != "vover":
            table[c][:lo] = np.nan
            if hi:
                table[c][-hi:] = np.nan
    return {c: table[c] for c in case["order"]}


def check_sheet(ctx, case):
    folder = scratch.calib_data(ctx)
    path = os.path.join(folder, "sipm_data_sheet.csv")
    if case["real"]:
        with open(path) as f:
            names = f.readline().strip().split(",")
            rows = [[float(v) if v else np.nan for v in line.strip(
                "\n").split(",")] for line in f]
        table = dict(zip(names, np.array(rows).T))
    else:
        table = sheet(case)
        with open(path, "w") as f:
            f.write(",".join(table) + "\n")
            for row in zip(*table.values()):
                f.write(",".join("" if np.isnan(v) else repr(float(v))
                                 for v in row) + "\n")
    conv = ctx.call("SiPMDataSheetConverter", SiPMDataSheetConverter)
    x = table[case["key"]]
    known = x[~np.isnan(x)]
    values = known[0] + np.array(case["at"]) * (known[-1] - known[0])
    if case["exact"]:
        values = known[np.clip((np.array(case["at"]) * known.size).astype(
            int), 0, known.size - 1)]
    if case["scalar"]:
        values = values[:1]
    # not within rounding errors of the ends of the table
    margin = 1e-9 * np.abs(known).max()
    values = values[(np.abs(values - known[0]) > margin) &
                    (np.abs(values - known[-1]) > margin)]
    if not values.size:
        return
    inside = (values >= known[0]) & (values <= known[-1])
    arg = float(values[0]) if case["scalar"] else values
    try:
        got = conv(**{case["key"]: arg})
    except ValueError:
        ctx.check(not inside.all(), lambda: (
            f"{case['key']}={arg} refused, tabulated {known[0]} to "
            f"{known[-1]}"))
        ctx.note("outside of the table", False)
        return
    ctx.check(set(got) == set(table), f"columns {sorted(got)}")
    for c, y in table.items():
        g = np.atleast_1d(np.asarray(got[c], float))
        ctx.check(g.shape == values.shape, f"{c} has shape {g.shape}")
        for i, v in enumerate(values):
            if not inside[i]:
                ctx.check(np.isnan(g[i]), lambda: (
                    f"{c}={g[i]} made up for {case['key']}={v}, outside of "
                    f"the table ({known[0]} to {known[-1]})"))
                continue
            j = np.where(x <= v)[0][-1]
            if x[j] == v:
                want = {float(y[j])}
                # at the border of the known range both are acceptable
                ok = (np.isnan(y[j]) and np.isnan(g[i])) or np.isclose(
                    g[i], y[j], rtol=1e-6) or (np.isnan(g[i]) and any(
                        np.isnan(y[max(j - 1, 0):j + 2])))
            else:
                w = y[j] + (y[j + 1] - y[j]) * (v - x[j]) / (x[j + 1] - x[j])
                want = {float(w)}
                ok = (np.isnan(w) and np.isnan(g[i])) or np.isclose(
                    g[i], w, rtol=1e-6)
            ctx.check(ok, lambda: (
                f"{c} is {g[i]} for {case['key']}={v}, not {want}"))
            ctx.note("interpolated")
    with plotted() as figure:
        ctx.call("plot", conv.plot)
    shown = {}
    for ax in figure().axes:
        for line in ax.get_lines():
            shown[line.get_label().lower()] = line.get_xydata().T
    ctx.check(set(shown) == set(table) - {"vover"}, lambda: (
        f"plotted {sorted(shown)}"))
    for k, (px, py) in shown.items():
        ctx.check(np.allclose(px, table["vover"]) and np.allclose(
            py, table[k], equal_nan=True), f"plot of {k}")
    # exactly one quantity
    ctx.raises("no value", ValueError, conv)
    ctx.raises("two values", ValueError, conv, vover=2.0, pde=0.2)


# ------------------------------------------------------------------- waveforms
@st.composite
def waveform_cases(draw):
    return dict(run=draw(runs.tio_runs(is_r1=False, max_events=7)),
                gain=draw(st.sampled_from([1.0, 0.5, 0.23])),
                multi=draw(st.booleans()),
                fci=draw(st.none() | st.integers(0, 2 ** 16 - 1)))


def check_waveform(ctx, case):
    import target_calib
    ctx.cleanups.append(runs.reset)
    path = ctx.path("run_r0.tio")
    run, _, _ = runs.register(path, case["run"])
    n_pixels, n = run["n_pixels"], run["n_samples"]
    rng = np.random.RandomState(case["run"]["seed"])
    ped = rng.uniform(0, 500, n_pixels)
    target_calib.CALIBRATORS["/ped.tcal"] = dict(pedestal=ped,
                                                 gain=case["gain"])
    r = TIOReader(path)
    if case["multi"]:
        cal = ctx.call("from_tio_reader", WaveformCalibrator.from_tio_reader,
                       "/ped.tcal", r)
        want = ("CalibratorMultiFile", "/ped.tcal", run["sn"])
        ctx.check(want in target_calib.LOG, lambda: (
            f"calibrator not of the modules {run['sn']}: {target_calib.LOG}"))
    else:
        cal = ctx.call("WaveformCalibrator", WaveformCalibrator, "/ped.tcal",
                       n_pixels, n)
        ctx.check(("Calibrator", "/ped.tcal") in target_calib.LOG and not any(
            e[0] == "CalibratorMultiFile" for e in target_calib.LOG),
            f"calibrators {target_calib.LOG}")
    for i, wf in enumerate(r):
        e = run["events"][i + 2]
        fci = wf.first_cell_id if case["fci"] is None else case["fci"]
        target_calib.LOG.clear()
        got = ctx.call("calibrating", cal, wf, fci)
        ctx.check(np.array_equal(np.asarray(wf), e["samples"]),
                  "the raw waveforms were changed")
        ctx.check(got.dtype == np.float32 and got.shape == wf.shape,
                  f"{got.dtype} {got.shape}")
        ctx.check(("ApplyEvent", int(fci), True) in target_calib.LOG,
                  lambda: f"first cell {fci}: {target_calib.LOG}")
        want = (e["samples"] - ped[:, None]) * case["gain"]
        ctx.check(np.allclose(np.asarray(got), want, rtol=1e-5, atol=1e-3),
                  "calibrated values")
        ctx.check(got.iev == i, "iev")
        # the same waveforms as floating-point numbers
        raw = wf.astype(np.float32)
        again = ctx.call("calibrating float32", cal, raw, fci)
        ctx.check(np.array_equal(np.asarray(raw), e["samples"]),
                  "the raw float32 waveforms were changed")
        ctx.check(np.allclose(np.asarray(again), want, rtol=1e-5, atol=1e-3),
                  "calibrated values of float32 waveforms")
        ctx.note("events calibrated")


SUBS = [
    Sub("amplitude", amplitude_cases, check_amplitude, quick=400,
        rule="several pixels"),
    Sub("profile", profile_cases, check_profile, quick=300,
        rule="several pixels"),
    Sub("sheet", sheet_cases, check_sheet, quick=400,
        rule="a value within the table is interpolated"),
    Sub("waveforms", waveform_cases, check_waveform, quick=150,
        rule="at least one event is calibrated"),
]
