"""C14: pulse timing follows the pulse."""
import numpy as np
from hypothesis import strategies as st
from vf import refs, waves
from vf.checks.c12 import clamp, peaks
from vf.core import Sub, plotted
from CHECLabPy.waveform_reducers.timing import Timing

COLUMNS = ["t_pulse", "t_pulse_amp", "t_event", "fwhm", "t_rise"]


def crossing(y, start, level, step):
    """First falling crossing of the level, going from `start` by `step`"""
    i = start
    last = len(y) - 1 if step > 0 else 0
    while i != last:
        j = i + step
        if y[i] >= level >= y[j] and y[i] > y[j]:
            return i + step * (y[i] - level) / (y[i] - y[j])
        i += step
    return None


def stable(y, starts, level, delta, step):
    """The crossing, if it does not hinge on rounding; else "unknown\""""
    found = [crossing(y, s, v, step) for s in starts
             for v in (level - delta, level, level + delta)]
    if any(f is not None and f < 1e-9 for f in found):
        return "unknown"
    if all(f is None for f in found):
        return None
    if any(f is None for f in found) or max(found) - min(found) > 1e-3:
        return "unknown"
    return found[1]


def pixel(y, start, end, delta):
    """Reference timing of one pixel: dict, or None if not determinable"""
    n = len(y)
    window = y[start:end]
    results = []
    peak = start + int(np.argmax(window))
    if not 0 < peak < n - 1:
        return dict(t_pulse=0, t_pulse_amp=0, fwhm=0, t_rise=0, err=0)
    t, err = refs.quadratic_time(y, peak)
    y0, y1, y2 = y[peak - 1:peak + 2]
    b = y0 - 2 * y1 + y2
    if b == 0:
        return dict(t_pulse=0, t_pulse_amp=0, fwhm=0, t_rise=0, err=0)
    if abs(b) < 50 * delta:
        return None
    pos = peak + 0.5 * (y0 - y2) / b
    if min(abs(pos), abs(pos - n)) < 1e-3 + err * delta:
        return None
    if not 0 <= pos < n:
        return dict(t_pulse=0, t_pulse_amp=0, fwhm=0, t_rise=0, err=0)
    if err * delta > 0.01:
        return None
    base = sum(y[:10]) / 10
    amp = y1 - 0.25 * (y0 - y2) * (pos - peak) - base
    tol = 4 * (delta + abs(y0 - y2) * err * delta)
    starts = {int(np.rint(pos - 1e-6 - err * delta)),
              int(np.rint(pos + 1e-6 + err * delta))}
    starts = sorted(min(s, n - 1) for s in starts)
    right = stable(y, starts, base + amp / 2, tol, 1)
    left = stable(y, starts, base + amp / 2, tol, -1)
    t90 = stable(y, starts, base + 0.9 * amp, tol, -1)
    t10 = stable(y, starts, base + 0.1 * amp, tol, -1)

    def span(a, b):
        if a is None or b is None:
            return np.nan
        if isinstance(a, str) or isinstance(b, str):
            return None
        return b - a

    return dict(t_pulse=pos, t_pulse_amp=amp, fwhm=span(left, right),
                t_rise=span(t10, t90), err=err * delta, tol=tol)


@st.composite
def cases(draw):
    return dict(
        spec=draw(waves.specs()),
        size=draw(st.none() | st.integers(1, 20)),
        shift=draw(st.none() | st.integers(0, 9)),
        t=draw(st.none() | st.none() | st.floats(0, 1)),
        seed=draw(st.integers(0, 2 ** 16)))


def settle(case):
    n = case["spec"]["n_samples"]
    kw = {}
    if case["size"] is not None:
        kw["window_size"] = case["size"]
    if case["shift"] is not None:
        kw["window_shift"] = case["shift"]
    if case["t"] is not None:
        kw["t_extract"] = int(np.clip(
            round(case["t"] * n), kw.get("window_shift", 4), n - 1))
    return kw


def check_values(ctx, case):
    wf = waves.make(case["spec"])
    n_pixels, n = wf.shape
    kw = settle(case)
    r = Timing(n_pixels, n, **kw)
    got = ctx.call("process", r.process, wf)
    ctx.check(set(got) == set(COLUMNS), f"columns {sorted(got)}")
    t = got["t_event"]
    if "t_extract" in kw:
        ctx.check(t == kw["t_extract"], f"t_event is {t}, not the given "
                                        f"t_extract {kw['t_extract']}")
    else:
        want = clamp(peaks(wf), n)
        ctx.check(np.size(t) == 1 and int(t) in want, lambda: (
            f"t_event is {t}, the average peaks at {want[:5]}"))
    start = int(t) - kw.get("window_shift", 4)
    end = start + kw.get("window_size", 8)
    eps = 1e-14 if wf.dtype == np.float64 else 1e-6
    for name in COLUMNS:
        if name != "t_event":
            ctx.check(np.shape(got[name]) == (n_pixels,),
                      f"{name} has shape {np.shape(got[name])}")
    for p in range(n_pixels):
        y = [float(v) for v in wf[p]]
        delta = eps * max(abs(v) for v in y)
        want = pixel(y, start, end, delta)
        if want is None:
            continue
        err = want["err"]
        for name, tol in (("t_pulse", err + 1e-9),
                          ("t_pulse_amp", want.get("tol", 0) + 1e-12),
                          ("fwhm", 2e-3), ("t_rise", 2e-3)):
            w, g = want[name], float(got[name][p])
            if w is None:
                continue
            same = np.isnan(g) if np.isnan(w) else abs(g - w) <= tol
            ctx.check(same, lambda: (
                f"{name} of pixel {p} is {g!r}, not {w!r} (window {start} "
                f"to {end})"))
            if name == "fwhm" and err:
                ctx.note("fwhm not defined" if np.isnan(w) else "fwhm",
                         not np.isnan(w))
        if err == 0:
            ctx.note("pulse time not defined", False)
    # a power of two changes nothing but the amplitude; other pixels nothing
    c = [0.25, 2, 64][case["seed"] % 3]
    got2 = ctx.call("process", Timing(n_pixels, n, **kw).process,
                    (wf * wf.dtype.type(c)))
    for name in COLUMNS:
        k = c if name == "t_pulse_amp" else 1
        ctx.check(waves.same_result(
            got2[name], np.asarray(got[name]) * k), lambda: (
            f"scaling the waveforms by {c} changed {name} from "
            f"{got[name]} to {got2[name]}"))
    order = np.random.RandomState(case["seed"]).permutation(n_pixels)
    fixed = dict(kw, t_extract=int(t))
    got3 = ctx.call("process", Timing(n_pixels, n, **fixed).process,
                    np.ascontiguousarray(wf[order]))
    for name in COLUMNS:
        if name == "t_event":
            continue
        ctx.check(waves.same_result(got3[name], np.asarray(got[name])[order]),
                  f"{name} of a pixel depends on its place or the others")


# --------------------------------------------------------------- known pulses
@st.composite
def cases_pulse(draw):
    return dict(
        t0=draw(st.lists(st.floats(38, 42), min_size=4, max_size=12)),
        sigma=draw(st.floats(3, 6)), base=draw(st.floats(-20, 20)),
        amp=draw(st.sampled_from([1.0, 30.0, 1500.0])),
        shift=draw(st.integers(0, 40)),
        dtype=draw(st.sampled_from(["float32", "float64"])))


def check_pulse(ctx, case):
    """Gaussian pulses: width, rise time and position are known"""
    n = 128
    s = case["sigma"]
    t0 = np.array(case["t0"])
    x = np.arange(n)

    def event(t0):
        return (case["base"] + case["amp"] * np.exp(
            -0.5 * ((x - t0[:, None]) / s) ** 2)).astype(case["dtype"])

    if case["dtype"] == "float32" and abs(case["base"]) > 5 * case["amp"]:
        return
    r = Timing(len(t0), n)
    got = ctx.call("process", r.process, event(t0))
    want = dict(t_pulse=(t0, 0.05), fwhm=(2.3548 * s, 0.1),
                t_rise=(1.6869 * s, 0.3),
                t_pulse_amp=(case["amp"], 0.02 * case["amp"] + 1e-3))
    for name, (w, tol) in want.items():
        ctx.check((np.abs(got[name] - w) < tol).all(), lambda: (
            f"{name} is {got[name]}, not about {w}"))
    later = ctx.call("process", r.process, event(t0 + case["shift"]))
    for name, tol in (("t_pulse", 0.02), ("fwhm", 0.02), ("t_rise", 0.02),
                      ("t_pulse_amp", 1e-3 * case["amp"] + 1e-4)):
        w = got[name] + (case["shift"] if name == "t_pulse" else 0)
        ctx.check((np.abs(later[name] - w) < tol).all(), lambda: (
            f"{name} is {later[name]} after moving the pulse by "
            f"{case['shift']}, was {got[name]}"))
    if case["shift"]:
        ctx.note("moved")


# ------------------------------------------------------------------ helpers
@st.composite
def cases_helper(draw):
    n = draw(st.integers(1, 6))
    v = st.floats(-1e3, 1e3)
    return dict(y=[draw(st.lists(v, min_size=n, max_size=n))
                   for _ in range(3)],
                x=draw(st.lists(st.floats(-10, 10), min_size=n, max_size=n)),
                dx=draw(st.lists(st.sampled_from([1.0, -1.0, 0.5, 3.0]),
                                 min_size=n, max_size=n)))


def check_helper(ctx, case):
    """Linear interpolation and the vertex of a parabola"""
    y0, y1, y2 = np.array(case["y"])
    xm, ym = ctx.call("interpolate_peak", Timing.interpolate_peak, y0, y1, y2)
    for a, b, c, x, y in zip(y0, y1, y2, xm, ym):
        bend = a - 2 * b + c
        if abs(bend) < 1e-6 * (abs(a) + abs(b) + abs(c)) or \
                abs(bend) < 1e-200:
            continue
        # the parabola through (-1, a), (0, b), (1, c)
        q = bend / 2
        want = (a - c) / (4 * q)
        top = b - q * want ** 2
        tol = 1e-9 * (1 + abs(a) + abs(b) + abs(c))
        ctx.check(abs(x - want) <= tol / abs(bend) * (1 + abs(want)),
                  lambda: f"vertex of {a}, {b}, {c} at {x}, not {want}")
        ctx.check(abs(y - top) <= tol * (1 + want ** 2), lambda: (
            f"vertex of {a}, {b}, {c} is {y}, not {top}"))
        ctx.note("vertex")
    x, dx = np.array(case["x"]), np.array(case["dx"])
    got = ctx.call("interpolate", Timing.interpolate, x, x - dx, x + 2 * dx,
                   y0, y1)
    ctx.check(np.allclose(got, y0 + (y1 - y0) / 3, rtol=1e-9, atol=1e-9),
              lambda: f"interpolated {got}")


@st.composite
def cases_plot(draw):
    c = draw(cases())
    c["spec"]["n_samples"] = 60
    return c


def check_plot(ctx, case):
    """Plotting shows the extreme pixels and changes no result"""
    wf = waves.make(case["spec"])
    kw = settle(case)
    want = Timing(*wf.shape, **kw).process(wf)
    with plotted() as figure:
        got = ctx.call("process, with plot", Timing(
            *wf.shape, plot_timing=True, **kw).process, wf)
        fig = figure()
    for name in COLUMNS:
        ctx.check(waves.same_result(got[name], want[name]),
                  f"{name} changes when it is plotted")
    t = int(got["t_event"])
    big, small = np.argmax(wf[:, t]), np.argmin(wf[:, t])
    for ax, p in zip(fig.axes, (big, small)):
        curves = [ln.get_ydata() for ln in ax.get_lines()
                  if np.size(ln.get_ydata()) == wf.shape[1]]
        ctx.check(any(np.array_equal(c, wf[p]) for c in curves),
                  "another pixel's waveform is plotted")
        at = [float(ln.get_xdata()[0]) for ln in ax.get_lines()
              if np.size(ln.get_xdata()) == 2]
        for name in ("t_event", "t_pulse"):
            v = float(np.broadcast_to(got[name], len(wf))[p])
            ctx.check(any(abs(a - v) < 1e-6 for a in at), lambda: (
                f"no line at {name}={v}, lines at {at}"))
    if big != small:
        ctx.note("two pixels")


SUBS = [
    Sub("plot", cases_plot, check_plot, quick=12, thorough=60,
        rule="two different pixels are plotted"),
    Sub("values", cases, check_values, quick=2000,
        rule="at least one pixel has a defined pulse width"),
    Sub("pulses", cases_pulse, check_pulse, quick=500,
        rule="the pulses are also moved in time"),
]
# helpers of the reducer
if hasattr(Timing, "interpolate_peak") and hasattr(Timing, "interpolate"):
    SUBS.append(Sub("helpers", cases_helper, check_helper, quick=300,
                    rule="three points on a parabola"))
