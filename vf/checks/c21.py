"""C21: time calibration shifts each pixel by its own correction."""
import os
import numpy as np
from hypothesis import strategies as st
from vf import refs, scratch, waves
from vf.core import Sub
from CHECLabPy.calib import TimeCalibrator
from CHECLabPy.core.io.waveform import Waveform

CORRECTIONS = st.one_of(
    st.floats(-3, 3), st.integers(-4, 4).map(float), st.floats(-200, 200),
    st.sampled_from([0.0, -0.0, 0.5, -0.5, 1e-9, -1e-9, 19.0, 20.0]))


@st.composite
def cases(draw):
    n_pixels = 4 * draw(st.integers(1, 4))
    return dict(
        spec=draw(waves.specs(
            n_pixels=n_pixels, n_samples=draw(
                st.none() | st.sampled_from([2, 3, 5])))),
        t_cor=draw(st.lists(CORRECTIONS, min_size=n_pixels,
                            max_size=n_pixels)),
        extra=draw(st.integers(0, 3)), wrap=draw(st.booleans()),
        seed=draw(st.integers(0, 2 ** 16)))


def create(ctx, t_cor):
    folder = scratch.calib_data(ctx)
    with open(os.path.join(folder, "time_correction.dat"), "w") as f:
        f.write("pixel\tt_cor\n")
        for i, t in enumerate(t_cor):
            f.write(f"{i}\t{t!r}\n")
    return ctx.call("TimeCalibrator", TimeCalibrator)


def check(ctx, case):
    wf = waves.make(case["spec"])
    n_pixels, n = wf.shape
    t_cor = case["t_cor"] + [1.25] * case["extra"]
    cal = create(ctx, t_cor)
    given = Waveform(wf.copy(), iev=3, is_r1=True) if case["wrap"] else \
        wf.copy()
    got = np.asarray(ctx.call("calibrating", cal, given))
    ctx.check(np.array_equal(np.asarray(given), wf),
              "the waveforms were changed")
    ctx.check(got.shape == wf.shape and got.dtype == wf.dtype,
              f"result of shape {got.shape}, type {got.dtype}")
    eps = 1e-5 if wf.dtype == np.float32 else 1e-12
    for p in range(n_pixels):
        c = t_cor[p]
        y = wf[p].astype(float)
        steps = np.abs(np.diff(y)).max()
        for i in range(n):
            x = i - c
            lo = min(max(int(np.floor(x)), 0), n - 2)
            want = y[lo] + (y[lo + 1] - y[lo]) * (x - lo)
            tol = eps * (np.abs(y).max() + steps * (abs(c) + 1)) + 1e-12
            ctx.check(abs(got[p, i] - want) <= tol, lambda: (
                f"pixel {p}, sample {i}: {got[p, i]!r}, not {want!r} for a "
                f"correction of {c}"))
        if c == 0:
            ctx.check((np.abs(got[p] - y) <= eps * (np.abs(y).max() + steps)
                       ).all() and np.array_equal(got[p, :-1], wf[p, :-1]),
                      f"pixel {p} changed without a correction")
        elif c == int(c) and abs(c) < n:
            k = int(c)
            a = got[p, k:] if k > 0 else got[p, :n + k]
            b = wf[p, :n - k] if k > 0 else wf[p, -k:]
            tol = eps * (np.abs(y).max() + steps)
            ctx.check((np.abs(a.astype(float) - b) <= tol).all(), lambda: (
                f"pixel {p} is not moved by {k} samples: {a[:4]} {b[:4]}"))
            ctx.note("whole samples")
        elif abs(c) < n:
            ctx.note("part of a sample")
        else:
            ctx.note("beyond the readout", False)
    # the pixels do not mix
    order = np.random.RandomState(case["seed"]).permutation(n_pixels)
    other = wf[::-1].copy()
    half = wf.copy()
    half[n_pixels // 2:] = other[n_pixels // 2:]
    got2 = np.asarray(ctx.call("calibrating", cal, half))
    ctx.check(np.array_equal(got2[:n_pixels // 2], got[:n_pixels // 2]),
              "a pixel depends on the waveforms of others")
    if np.ptp(wf) == 0:
        ctx.nontrivial = False


SUBS = [Sub("correction", cases, check, quick=500,
            rule="a pixel is moved by at least part of a sample and the "
                 "waveforms are not flat")]
