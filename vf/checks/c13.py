"""C13: cross-correlation charge extraction follows the reference pulse."""
import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import CubicSpline
from vf import refs, waves
from vf.core import Sub
from CHECLabPy.waveform_reducers import cross_correlation as cc_module
from CHECLabPy.waveform_reducers.cross_correlation import (
    CrossCorrelation, CrossCorrelationLocal, CrossCorrelationNeighbour)

ASSUMPTIONS = ["the ctapipe functions are replaced by stand-ins"]
KINDS = [(CrossCorrelation, ""), (CrossCorrelationLocal, "_local"),
         (CrossCorrelationNeighbour, "_nn")]


def reference(ctx, spec):
    """Writes the reference pulse; returns path, its 1 ns samples"""
    x, y = waves.reference_points(spec)
    # ends between two samples, so that the number of samples is definite
    x, y = np.append(x, x[-1] + 0.3e-9), np.append(y, y[-1])
    path = ctx.path("pulse.txt")
    np.savetxt(path, np.column_stack([x, y]))
    shape = CubicSpline(x, y)(np.arange(int(x[-1] * 1e9)+ 1) * 1e-9)
    return path, shape


def one_pe(shape):
    return shape / (shape.sum() - 0.5 * (shape[0] + shape[-1]))


def correlation(wf, shape):
    """Charge that the reference pulse, peaking at each sample, would have"""
    weight = shape / np.dot(one_pe(shape), shape)
    n = wf.shape[1]
    k = int(shape.argmax())
    out = np.zeros(wf.shape)
    x = wf.astype(float)
    for j in range(len(shape)):
        # sample i + j - k contributes to i
        lo, hi = max(0, k - j), min(n, n + k - j)
        if lo < hi:
            out[:, lo:hi] += weight[j] * x[:, lo + j - k:hi + j - k]
    return out, np.abs(weight).sum()


def modules(n):
    return dict(n_pixels=64 * n)


@st.composite
def cases(draw):
    which = draw(st.integers(0, 2))
    spec = draw(waves.specs(
        n_pixels=draw(st.sampled_from(
            [64, 128] if which == 2 else [None] * 20 + [2048])),
        n_samples=draw(st.sampled_from([None] * 12 + [257, 300]))))
    return dict(which=which, spec=spec, pulse=draw(waves.reference_pulses()),
                other=draw(st.none() | waves.reference_pulses()))


def check_values(ctx, case):
    cls, suffix = KINDS[case["which"]]
    wf = waves.make(case["spec"])
    n_pixels, n = wf.shape
    path, shape = reference(ctx, case["pulse"])
    kw = {}
    if suffix == "_nn":
        kw["mapping"] = waves.mapping_of(n_pixels // 64)
    r = cls(n_pixels, n, reference_pulse_path=path, **kw)
    before = wf.copy()
    got = ctx.call("process", r.process, wf)
    ctx.check(np.array_equal(wf, before), "the waveforms were changed")
    cc, weight = correlation(wf, shape)
    delta = refs.rounding(wf) * weight * np.abs(wf).max() + 1e-12
    charge = np.asarray(got[f"charge_cc{suffix}"], float)
    t = np.asarray(got[f"t_cc{suffix}"], float)
    height = np.asarray(got[f"height_cc{suffix}"], float)
    for name, v in (("charge", charge), ("t", t), ("height", height)):
        ctx.check(v.shape == (n_pixels,), f"{name} has shape {v.shape}")
    if suffix == "":
        where = [refs.candidates(cc.mean(0), delta)]
    elif suffix == "_local":
        where = [refs.candidates(row, delta) for row in cc]
    else:
        nb = refs.neighbours(kw["mapping"])
        where = [refs.candidates(row, delta)
                 for row in refs.neighbour_average(cc, nb)]
    if suffix == "":
        ok = [i for i in where[0]
              if (np.abs(cc[:, i] - charge) <= delta).all()]
        ctx.check(ok, lambda: (
            f"the charges are {charge[:4]}..., the average correlation peaks "
            f"at {where[0]} with {cc[:4, where[0][0]]}..."))
        where = [ok] * n_pixels
    definite = 0
    for p in range(n_pixels):
        ok = [i for i in where[p] if abs(cc[p, i] - charge[p]) <= delta]
        ctx.check(ok, lambda: (
            f"the charge of pixel {p} is {charge[p]}, the correlation peaks "
            f"at {where[p][:4]} with {cc[p, where[p][:4]]}"))
        if len(ok) == 1:
            definite += refs.check_time(
                ctx, f"the time of pixel {p}", t[p], cc[p], ok[0], delta)
    want = charge * one_pe(shape).max()
    ctx.check(np.allclose(height, want, rtol=1e-6, atol=1e-12), lambda: (
        f"the heights are {height[:4]}, not {want[:4]}"))
    if case["other"] is not None:
        # another pulse is put in place of this one
        path, shape = reference(ctx, case["other"])
        r = cls(n_pixels, n, reference_pulse_path=path, **kw)
        got = ctx.call("process", r.process, wf)
        cc, weight = correlation(wf, shape)
        delta = refs.rounding(wf) * weight * np.abs(wf).max() + 1e-12
        for p, q in enumerate(got[f"charge_cc{suffix}"]):
            ctx.check((np.abs(cc[p] - q) <= delta).any(), lambda: (
                f"the charge {q} of pixel {p} does not follow the pulse that "
                "the file holds now"))
        want = np.asarray(got[f"charge_cc{suffix}"]) * one_pe(shape).max()
        ctx.check(np.allclose(got[f"height_cc{suffix}"], want, rtol=1e-6,
                              atol=1e-12), "heights of the new pulse")
    if definite:
        ctx.note(f"definite peak times {cls.__name__}")


# ------------------------------------------------------- metamorphic relations
@st.composite
def cases_own(draw):
    return dict(
        pulse=draw(waves.reference_pulses()),
        charges=draw(st.lists(st.floats(0.01, 5000), min_size=64,
                              max_size=64) if draw(st.booleans())
                     else st.floats(0.5, 100).map(lambda v: [v] * 64)),
        at=draw(st.integers(0, 60)), shift=draw(st.integers(0, 40)),
        scale=draw(st.sampled_from([2.0, 0.5, -1.0, 3.7, 1e-3])),
        noise=draw(st.sampled_from([0.0, 0.01, 0.3])),
        dtype=draw(st.sampled_from(["float32", "float64"])),
        seed=draw(st.integers(0, 2 ** 16)))


def check_own(ctx, case):
    """The charge put into reference pulses comes out again"""
    path, shape = reference(ctx, case["pulse"])
    m = len(shape)
    n = 2 * m + 110
    kw = dict(reference_pulse_path=path)
    charges = np.array(case["charges"])
    k = int(shape.argmax())
    t0 = m + case["at"]

    def event(t, q):
        wf = np.zeros((64, n))
        wf[:, t - k:t - k + m] += q[:, None] * one_pe(shape)
        return wf.astype(case["dtype"])

    rng = np.random.RandomState(case["seed"])
    noise = rng.normal(0, 1, (64, 30)) * case["noise"] * charges[:, None] / m
    eps = 1e-5 if case["dtype"] == "float32" else 1e-9
    order = rng.permutation(64)
    for cls, suffix in KINDS:
        kws = dict(kw)
        if suffix == "_nn":
            kws["mapping"] = waves.mapping_of(1)
        r = cls(64, n, **kws)

        def run(wf):
            d = ctx.call("process", r.process, wf)
            return [np.asarray(d[f"{c}_cc{suffix}"], float)
                    for c in ("charge", "t", "height")]

        q, t, h = run(event(t0, charges))
        ctx.check(np.allclose(q, charges, rtol=eps * 10, atol=0), lambda: (
            f"{cls.__name__}: charges {q[:3]} for pulses of {charges[:3]}"))
        ctx.check(np.allclose(h, charges * one_pe(shape).max(),
                              rtol=eps * 10), lambda: (
            f"{cls.__name__}: heights {h[:3]}, not "
            f"{(charges * one_pe(shape).max())[:3]}"))
        ctx.check((np.abs(t - t0) < 0.5 + 1e-6).all(), lambda: (
            f"{cls.__name__}: times {t[:3]} for pulses peaking at {t0}"))
        # with noise: shift, scale and permutation
        base = event(t0, charges)
        base[:, t0:t0 + 30] += noise
        q, t, h = run(base)
        moved = np.zeros_like(base)
        s = case["shift"]
        moved[:, s:] = base[:, :n - s]
        q2, t2, h2 = run(moved)
        big = np.abs(q).max() * eps
        ctx.check(np.allclose(q2, q, rtol=eps, atol=big) and np.allclose(
            t2, t + s, rtol=0, atol=1e-3), lambda: (
            f"{cls.__name__}: moving the event by {s} samples changed the "
            f"charges {q[:3]} to {q2[:3]}, the times {t[:3]} to {t2[:3]}"))
        c = case["scale"]
        if c > 0:
            q2, t2, h2 = run((base * c).astype(base.dtype))
            ctx.check(np.allclose(q2, q * c, rtol=eps, atol=big * c), lambda: (
                f"{cls.__name__}: scaling by {c}: charges {q[:3]} to "
                f"{q2[:3]}"))
            ctx.note("scaled")
        if suffix == "_local":
            q2, t2, h2 = run(base[order])
            ctx.check(np.array_equal(q2, q[order]) and np.array_equal(
                t2, t[order]), "the charge of a pixel depends on the others")
    if s:
        ctx.note("shifted")


# ------------------------------------------------------ pulse-time helper
@st.composite
def cases_time(draw):
    return dict(spec=draw(waves.specs()), seed=draw(st.integers(0, 2 ** 16)))


def check_time(ctx, case):
    """extract_pulse_time, at any sample of any waveform"""
    wf = waves.make(case["spec"])
    rng = np.random.RandomState(case["seed"])
    peak = rng.choice([0, 1, wf.shape[1] - 2, wf.shape[1] - 1,
                       rng.randint(0, wf.shape[1])], len(wf))
    got = ctx.call("extract_pulse_time", cc_module.extract_pulse_time, wf,
                   peak)
    ctx.check(got.shape == (len(wf),), f"shape {got.shape}")
    delta = (1e-15 if wf.dtype == np.float64 else 1e-7) * (
        np.abs(wf).max() + 1e-30)
    for p in range(len(wf)):
        if refs.check_time(ctx, f"time of pixel {p}", got[p], wf[p], peak[p],
                           delta):
            ctx.note("interpolated")


SUBS = [
    Sub("values", cases, check_values, quick=1200,
        rule="at least one pixel has a definite peak"),
    Sub("own", cases_own, check_own, quick=150,
        rule="the pulses are also shifted or scaled"),
]
if hasattr(cc_module, "extract_pulse_time"):  # a helper of the reducers
    SUBS.append(Sub(
        "times", cases_time, check_time, quick=600,
        rule="at least one interpolated time is well defined"))
