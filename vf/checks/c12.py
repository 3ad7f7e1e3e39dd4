"""C12: window reducers integrate exactly their documented window."""
import numpy as np
from hypothesis import strategies as st
from vf import waves
from vf.core import Sub
from CHECLabPy.waveform_reducers.average_wf import AverageWF
from CHECLabPy.waveform_reducers.common import Common
from CHECLabPy.waveform_reducers.saturation import Saturation
from CHECLabPy.waveform_reducers.superpixel import SPAmplitude

DTYPES = ("float32", "float64", "int16")


def close(ctx, what, got, want, wf, weight=1.0):
    """Equal up to the rounding of sums in the precision of the waveforms"""
    scale = np.abs(wf.astype(float)).max(axis=1, initial=0) * weight
    eps = 1e-13 if wf.dtype == np.float64 else 2e-6
    got = np.asarray(got, dtype=float)
    ctx.check(got.shape == want.shape,
              lambda: f"{what} has shape {got.shape}, not {want.shape}")
    bad = ~(np.abs(got - want) <= eps * scale + 1e-12)
    ctx.check(not bad.any(), lambda: (
        f"{what} of pixel {np.where(bad)[0][0]} is {got[bad][0]!r}, not "
        f"{want[bad][0]!r}"))


def peaks(wf):
    """Samples at which the average may have its maximum, up to rounding"""
    x = wf.astype(float)
    avg = x.mean(0)
    eps = 1e-14 if wf.dtype != np.float32 else 1.2e-7 * max(len(wf), 8)
    return np.where(avg >= avg.max() - eps * np.abs(x).mean(0).max())[0]


def clamp(t, n):
    return np.clip(t, 10, n - 10)


def settle(case):
    """The settings of a case, as keywords of the reducer"""
    n = case["spec"]["n_samples"]
    kw = {}
    if case["size"] is not None:
        kw["window_size"] = case["size"]
    if case["shift"] is not None:
        kw["window_shift"] = case["shift"]
    if case["t"] is not None:
        kw[case["t_name"]] = min(round(case["t"] * n), n - 1)
    return kw


def window_cases(default_shift, t_name):
    @st.composite
    def cases(draw):
        return dict(
            spec=draw(waves.specs(dtypes=DTYPES, n_samples=draw(
                st.sampled_from([None] * 7 + [257, 400, 513])),
                n_pixels=draw(st.sampled_from([None] * 15 + [2048])))),
            size=draw(st.none() | st.integers(1, 40)),
            shift=draw(st.none() | st.integers(-3, 10) | st.integers(11, 60)),
            t=draw(st.none() | st.none() | st.floats(0, 1)),
            default_shift=default_shift, t_name=t_name)
    return cases


def check_average(ctx, case):
    wf = waves.make(case["spec"])
    n = wf.shape[1]
    kw = settle(case)
    got = ctx.call("process", AverageWF(*wf.shape, **kw).process, wf)
    t = got["t_averagewf"]
    if "t_extract" in kw:
        ctx.check(t == kw["t_extract"], f"t_averagewf is {t}, t_extract was "
                                        f"{kw['t_extract']}")
        ctx.note("given time")
    else:
        want = clamp(peaks(wf), n)
        ctx.check(np.ndim(t) == 0 and t in want, lambda: (
            f"t_averagewf is {t}, the average peaks at {peaks(wf)[:5]}"))
        if (want != peaks(wf)).any():
            ctx.note("peak at the edge of the readout")
        elif case["spec"]["kind"] != "flat":
            ctx.note("peak inside the readout")
    start = int(t) - kw.get("window_shift", 3)
    end = start + kw.get("window_size", 6)
    want = np.array([sum(float(wf[p, s]) for s in range(max(start, 0), min(end, n)))
                     for p in range(len(wf))])
    close(ctx, "charge_averagewf", got["charge_averagewf"], want, wf,
          max(end - start, 1))
    if end > n:
        ctx.note("window cut at the end of the readout")
    if start < 0:
        ctx.note("window cut at the start of the readout")


def check_saturation(ctx, case):
    wf = waves.make(case["spec"])
    n = wf.shape[1]
    kw = settle(case)
    got = ctx.call("process", Saturation(*wf.shape, **kw).process, wf)
    if "t_event" in kw:
        times = [kw["t_event"]]
        ctx.note("given time")
    else:
        times = clamp(peaks(wf), n)
        if (times != peaks(wf)).any():
            ctx.note("peak at the edge of the readout")
        elif case["spec"]["kind"] != "flat":
            ctx.note("peak inside the readout")
    err = None
    for t in times:
        start = max(int(t) - kw.get("window_shift", 4), 0)
        want = np.array([sum(float(v) for v in row[start:]) for row in wf])
        try:
            close(ctx, "saturation_sum", got["saturation_sum"], want, wf, n)
            return
        except Exception as e:
            err = e
    raise err


@st.composite
def cases_common(draw):
    return dict(spec=draw(waves.specs(
        dtypes=DTYPES, n_pixels=draw(st.sampled_from([None] * 30 + [2048])),
        n_samples=draw(st.one_of(
            st.none(), st.integers(1, 45), st.integers(1, 45),
            st.integers(200, 700))))))


def check_common(ctx, case):
    wf = waves.make(case["spec"])
    n_pixels, n = wf.shape
    got = ctx.call("process", Common(*wf.shape).process, wf)

    def mean(v):
        return sum(v) / len(v)

    def rms(v):
        m = mean(v)
        return (sum((x - m) ** 2 for x in v) / len(v)) ** 0.5

    rows = [[float(v) for v in row] for row in wf]
    parts = dict(baseline_start=[r[:20] for r in rows],
                 baseline_end=[r[max(n - 20, 0):] for r in rows], waveform=rows)
    for name, part in parts.items():
        close(ctx, f"{name}_mean", got[f"{name}_mean"],
              np.array([mean(v) for v in part]), wf)
        close(ctx, f"{name}_rms", got[f"{name}_rms"],
              np.array([rms(v) for v in part]), wf, 3)
    close(ctx, "waveform_max", got["waveform_max"],
          np.array([max(r) for r in rows]), wf)
    if case["spec"]["kind"] != "flat":
        ctx.note("varying waveform")
    if n < 40:
        ctx.note("baseline windows overlap", False)
    if n < 20:
        ctx.note("shorter than the baseline windows", False)


def check_superpixel(ctx, case):
    wf = waves.make(case["spec"])
    n_pixels, n = wf.shape
    got = ctx.call("process", SPAmplitude(*wf.shape).process, wf)
    total = np.zeros((n_pixels // 4, n))
    for p in range(n_pixels):
        total[p // 4] += wf[p]
    eps = 1e-13 if wf.dtype != np.float32 else 1e-6
    for name in ("sp_max", "sp_argmax"):
        ctx.check(np.shape(got[name]) == (n_pixels,),
                  f"{name} has shape {np.shape(got[name])}")
    for p in range(n_pixels):
        sp = total[p // 4]
        tol = eps * 4 * np.abs(wf[4 * (p // 4):][:4].astype(float)).max()
        ctx.check(abs(float(got["sp_max"][p]) - sp.max()) <= tol + 1e-12,
                  lambda: f"sp_max of pixel {p} is {got['sp_max'][p]}, not "
                          f"{sp.max()}")
        i = got["sp_argmax"][p]
        ctx.check(i == int(i) and 0 <= i < n and
                  sp[int(i)] >= sp.max() - tol - 1e-12,
                  lambda: f"sp_argmax of pixel {p} is {i}, not {sp.argmax()}")
    if n_pixels > 4 and case["spec"]["kind"] != "flat":
        ctx.note("several superpixels")


SUBS = [
    Sub("average", window_cases(3, "t_extract"), check_average, quick=700,
        rule="a time is given, or the average peaks at a definite place"),
    Sub("saturation", window_cases(4, "t_event"), check_saturation, quick=600,
        rule="a time is given, or the average peaks at a definite place"),
    Sub("common", cases_common, check_common, quick=400,
        rule="the waveforms are not all flat"),
    Sub("superpixel", cases_common, check_superpixel, quick=400,
        rule="more than one superpixel and waveforms that are not flat"),
]
