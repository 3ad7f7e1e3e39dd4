"""C15: sliding-window and peak-integrator reducers integrate their window."""
import numpy as np
from hypothesis import strategies as st
from vf import refs, waves
from vf.core import Sub
from CHECLabPy.waveform_reducers.sliding_window import (
    SlidingWindow, SlidingWindowLocal, SlidingWindowNeighbour)
from CHECLabPy.waveform_reducers.ctapipe_integrators import (
    CtapipeLocalPeakIntegrator, CtapipeNeighbourPeakIntegrator)

ASSUMPTIONS = ["the ctapipe functions are replaced by stand-ins; the pulse "
               "time is the average of the samples in the window weighted by "
               "their (positive) content"]
REDUCERS = [
    (SlidingWindow, "_sliding", "mean", True),
    (SlidingWindowLocal, "_sliding_local", "local", True),
    (SlidingWindowNeighbour, "_sliding_nn", "nn", True),
    (CtapipeLocalPeakIntegrator, "_local", "local", False),
    (CtapipeNeighbourPeakIntegrator, "_nn", "nn", False),
]


@st.composite
def cases(draw):
    which = draw(st.integers(0, len(REDUCERS) - 1))
    nn = REDUCERS[which][2] == "nn"
    return dict(
        which=which,
        spec=draw(waves.specs(n_pixels=draw(st.sampled_from([64, 64, 128]))
                              if nn else None)),
        size=draw(st.none() | st.integers(1, 20)),
        shift=draw(st.none() | st.integers(-3, 12)))


def running(x, k):
    """Sum of the k samples that start at each sample"""
    out = np.zeros(x.shape)
    n = x.shape[-1]
    for i in range(n):
        out[..., i] = x[..., i:i + k].astype(float).sum(-1)
    return out


def check(ctx, case):
    cls, suffix, mode, sliding = REDUCERS[case["which"]]
    wf = waves.make(case["spec"])
    n_pixels, n = wf.shape
    kw = {}
    if case["size"] is not None:
        kw["window_size"] = case["size"]
    if sliding:
        size, shift = kw.get("window_size", 8), 0
    else:
        if case["shift"] is not None:
            kw["window_shift"] = case["shift"]
        size, shift = kw.get("window_size", 6), kw.get("window_shift", 3)
    nb = None
    if mode == "nn":
        kw["mapping"] = waves.mapping_of(n_pixels // 64)
        nb = refs.neighbours(kw["mapping"])
    before = wf.copy()
    got = ctx.call("process", cls(n_pixels, n, **kw).process, wf)
    ctx.check(np.array_equal(wf, before), "the waveforms were changed")
    names = ["t" + suffix, "charge" + suffix]
    ctx.check(set(got) == set(names), f"columns {sorted(got)}")
    t, charge = (np.asarray(got[k], float) for k in names)
    ctx.check(t.shape == charge.shape == (n_pixels,),
              f"shapes {t.shape}, {charge.shape}")
    top = float(np.abs(wf).max())
    delta = refs.rounding(wf) * top * (size if sliding else 1) + 1e-12
    curve = wf.astype(float)
    if mode == "mean":
        curve = curve.mean(0)[None]
    elif mode == "nn":
        curve = refs.neighbour_average(curve, nb)
    if sliding:
        curve = running(curve, size)
    elif mode == "local":
        delta = 0
    where = [refs.candidates(row, delta) for row in curve]
    if mode == "mean":
        where = where * n_pixels
    tol = refs.rounding(wf) * top * size + 1e-12
    agreed = None
    for p in range(n_pixels):
        good = set()
        for i in where[p]:
            lo, hi = max(i - shift, 0), min(max(i - shift + size, 0), n)
            y = wf[p, lo:hi].astype(float)
            y0 = np.clip(y, 0, None)
            ok = abs(y.sum() - charge[p]) <= tol
            if y0.sum() > 1e-4 * top:
                mean = (y0 * np.arange(lo, hi)).sum() / y0.sum()
                ok = ok and abs(mean - t[p]) <= 1e-3
            elif y0.sum() == 0:
                ok = ok and t[p] == i
            if ok:
                good.add(i)
        ctx.check(good, lambda: (
            f"pixel {p}: charge {charge[p]} and time {t[p]} are not those of "
            f"a window of {size} samples starting {shift} before "
            f"{where[p][:4]}"))
        agreed = good if agreed is None else agreed & good
        if len(where[p]) < n // 2:
            ctx.note(cls.__name__)
    if mode == "mean":
        ctx.check(agreed, f"not one window for all pixels: {where[0][:5]}")


SUBS = [Sub("windows", cases, check, quick=1500,
            rule="the position of the window matters (the curve that is "
                 "searched for its maximum is not flat)")]
