"""C16: NNLS pulse extraction reconstructs the pulses in the waveform."""
import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import InterpolatedUnivariateSpline
from scipy.optimize import nnls as scipy_nnls
from vf import waves
from vf.core import Sub
from CHECLabPy.waveform_reducers import nnls_pulse_extraction as module
from CHECLabPy.waveform_reducers.nnls_pulse_extraction import (
    NNLSPulseExtraction)

N = 128
TIMES = np.arange(N) * 1e-9
SCALE = 7          # charge of a pulse of the amplitude of the template
TOLERANCE = 14.5   # weaker correlations with the template are not searched


@st.composite
def pulses(draw):
    return dict(
        t0=draw(st.floats(8, 16)), width=draw(st.floats(2, 4)),
        skew=draw(st.floats(1, 1.6)), length=draw(st.sampled_from([60, 80])),
        step=draw(st.sampled_from([0.25, 0.5])), scale=1.0, undershoot=0.0)


def template(spec):
    """The pulse, which starts and ends at zero"""
    x, y = waves.reference_points(spec)
    # as documented: straight start and end
    y = y.copy()
    y[:4] = y[4] / x[4] * x[:4]
    y[-10:] = y[-10] * (1 - (x[-10:] - x[-10]) / x[10])
    return InterpolatedUnivariateSpline(x, y, ext=1)


def create(ctx, spec, n_pixels, **kw):
    x, y = waves.reference_points(spec)
    path = ctx.path("pulse.txt")
    np.savetxt(path, np.column_stack([x, y]))
    return ctx.call("creating the reducer", NNLSPulseExtraction, n_pixels, N,
                    reference_pulse_path=path, **kw)


def consistent(ctx, got, r, n_pixels):
    names = {"charge_nnls": "charge", "nnls_tcharge": "t",
             "nnls_tmcharge": "tm", "nnls_tccharge": "tc",
             "nnls_npulses": "n"}
    v = {}
    for name, k in names.items():
        v[k] = np.asarray(got[name], float)
        ctx.check(v[k].shape == (n_pixels,), f"{name} has shape {v[k].shape}")
        ctx.check((v[k] >= 0).all(), f"{name} is negative: {v[k]}")
    ctx.check(not np.asarray(got["nnls_errata"]).any(), "errata")
    ctx.check(np.allclose(v["t"] + v["tc"], v["charge"], rtol=1e-9), lambda: (
        f"in-time {v['t']} and out-of-time {v['tc']} charge do not add up to "
        f"{v['charge']}"))
    ctx.check((v["tm"] <= v["t"] * (1 + 1e-9)).all(),
              "the largest pulse exceeds the in-time charge")
    ctx.check(((v["n"] == 0) == (v["charge"] == 0)).all(),
              "pixels without pulses have charge, or the reverse")
    ctx.check(((v["t"] > 0) == (v["tm"] > 0)).all(),
              "in-time charge without a largest pulse")
    # the pulses themselves
    mean = [0.0] * n_pixels
    for p in range(n_pixels):
        if v["n"][p]:
            t, q = np.array(r.pulses[p]).T
            mean[p] = (t * q).sum() / q.sum()
    event = np.mean(mean)
    for p in range(n_pixels):
        if not v["n"][p]:
            ctx.check(p not in r.pulses, f"pixel {p} has pulses of no count")
            continue
        t, q = np.array(r.pulses[p]).T
        ctx.check(len(t) == v["n"][p], f"pixel {p} has {len(t)} pulses, "
                                       f"counted {v['n'][p]}")
        ctx.check(np.isclose(q.sum(), v["charge"][p], rtol=1e-9), lambda: (
            f"the pulses of pixel {p} add up to {q.sum()}, not "
            f"{v['charge'][p]}"))
        # one of both sides for pulses exactly at the limit
        inside = [np.abs(t - event) <= 5e-9 + d for d in (-1e-14, 1e-14)]
        ok = any(np.isclose(q[m].sum(), v["t"][p], rtol=1e-9) and
                 np.isclose(q[m].max(initial=0), v["tm"][p], rtol=1e-9)
                 for m in inside)
        ctx.check(ok, lambda: (
            f"pixel {p}: in-time charge {v['t'][p]}, largest {v['tm'][p]} for "
            f"pulses {list(zip(t, q))} and an event time of {event}"))
    return v


# ------------------------------------------------------------ injected pulses
@st.composite
def cases(draw):
    n_pixels = draw(st.integers(1, 5))
    return dict(
        pulse=draw(pulses()), dtype=draw(st.sampled_from(
            ["float32", "float64"])),
        pixels=[dict(
            t=draw(st.lists(st.floats(0, 85), min_size=0, max_size=3,
                            unique_by=lambda v: int(v / 12))),
            a=draw(st.lists(st.floats(30, 900), min_size=3, max_size=3)))
            for _ in range(n_pixels)],
        scale=draw(st.sampled_from([2.0, 4.0, 1.7])),
        n_copies=draw(st.sampled_from([0] * 12 + [3, 40, 200])),
        then=draw(st.sampled_from([None, "none", "reversed"])))


def check_injected(ctx, case):
    f = template(case["pulse"])
    pixels = case["pixels"]
    wf = np.zeros((len(pixels), N))
    for i, p in enumerate(pixels):
        for t, a in zip(p["t"], p["a"]):
            wf[i] += a * f(TIMES - t * 1e-9)
    wf = wf.astype(case["dtype"])
    before = wf.copy()
    r = create(ctx, case["pulse"], len(pixels))
    got = ctx.call("process", r.process, wf)
    ctx.check(np.array_equal(before, wf), "the waveforms were changed")
    v = consistent(ctx, got, r, len(pixels))
    for i, p in enumerate(pixels):
        want = SCALE * sum(p["a"][:len(p["t"])])
        ctx.check(abs(v["charge"][i] - want) <= 0.06 * want, lambda: (
            f"charge {v['charge'][i]} for pulses of {want} at {p['t']}"))
        if v["n"][i]:
            t, q = np.array(r.pulses[i]).T
            if len(p["t"]) > 1:
                ctx.note("several pulses")
            gaps = np.diff(np.sort(p["t"]))
            if (gaps < 25).any():
                continue  # overlapping pulses may be resolved differently
            if len(p["t"]) > 1:
                ctx.note("separate pulses")
            for t0, a in zip(p["t"], p["a"]):
                near = np.abs(t - t0 * 1e-9) < 3e-9
                ctx.check(abs(q[near].sum() - SCALE * a) <= 0.15 * SCALE * a,
                          lambda: (
                    f"no pulse of {SCALE * a} at {t0} ns in pixel {i}: "
                    f"{list(zip(t, q))}"))
    if case["then"]:
        # the pulses are those of the last event
        last = r.process(wf[::-1] * 0 if case["then"] == "none"
                         else wf[::-1])
        consistent(ctx, last, r, len(pixels))
        ctx.note("another event")
        got = r.process(wf)
    k = case["n_copies"]
    if k:
        # the same pixels, many times over
        ctx.note("copies of the pixels", False)
        many = create(ctx, case["pulse"], k * len(pixels))
        got3 = ctx.call("process", many.process, np.tile(wf, (k, 1)))
        for name in ("charge_nnls", "nnls_npulses"):
            ctx.check(np.allclose(got3[name], np.tile(got[name], k),
                                  rtol=1e-9), lambda: (
                f"{name} {got3[name]} of {k} copies of {got[name]}"))
    c = case["scale"]
    got2 = ctx.call("process", r.process, wf * wf.dtype.type(c))
    q, q2 = got["charge_nnls"], got2["charge_nnls"]
    ctx.check(np.allclose(q2, c * q, rtol=0.05), lambda: (
        f"scaling by {c} changed the charges from {q} to {q2}"))


# --------------------------------------------------------------- any waveform
@st.composite
def cases_any(draw):
    return dict(
        pulse=draw(pulses()),
        spec=draw(waves.specs(n_pixels=draw(st.integers(1, 4)), n_samples=N,
                              kinds=["noise", "pulses", "integers", "spikes",
                                     "late", "early", "negative", "flat"])),
        save=draw(st.integers(0, 3)) > 0)


def check_optimal(ctx, case):
    """The solution is as good a fit as the best non-negative one"""
    wf = waves.make(case["spec"])
    top = np.abs(wf).max()
    if top > 0:
        wf = wf * wf.dtype.type(30 / top)
    n_pixels = len(wf)
    r = create(ctx, case["pulse"], n_pixels, save_pulses=case["save"])
    got = ctx.call("process", r.process, wf)
    if not case["save"]:
        saved = create(ctx, case["pulse"], n_pixels)
        want = saved.process(wf)
        for k in got:
            if k != "nnls_norm":
                ctx.check(waves.same_result(got[k], want[k]),
                          f"{k} depends on save_pulses")
        return
    consistent(ctx, got, r, n_pixels)
    f = template(case["pulse"])
    grid = np.arange(-60, N, 0.5) * 1e-9
    matrix = np.array([f(TIMES - t) for t in grid]).T
    for p in range(n_pixels):
        y = wf[p].astype(float)
        model = np.zeros(N)
        total = 0
        if p in r.pulses:
            for t, q in r.pulses[p]:
                model += q / SCALE * f(TIMES - t)
        # the best fit with pulses at times from a grid of our own
        try:
            best, norm = scipy_nnls(matrix, y, maxiter=5000)
        except RuntimeError:
            continue
        loss = 0.5 * ((y - model) ** 2).sum()
        # what is left undone by a search that ends at the tolerance
        bound = 0.5 * norm ** 2 + TOLERANCE * 1.1 * best.sum() + 1e-3 * (
            y ** 2).sum()
        ctx.check(loss <= bound, lambda: (
            f"pixel {p}: the pulses leave {loss}, the best fit "
            f"{0.5 * norm ** 2} (charge {got['charge_nnls'][p]})"))
        weak = matrix.T @ (y - model)
        ctx.check(weak.max() <= TOLERANCE * 1.3 + 0.02 * np.abs(
            matrix.T @ y).max(), lambda: (
            f"pixel {p}: a pulse was left, correlation {weak.max()}"))
        if p in r.pulses:
            ctx.note("pulses found")


# -------------------------------------------------------------- the solver
@st.composite
def cases_nnls(draw):
    return dict(
        rows=draw(st.integers(1, 25)), columns=draw(st.integers(1, 30)),
        kind=draw(st.sampled_from(["normal", "positive", "pulses", "equal"])),
        truth=draw(st.sampled_from([0.0, 0.2, 0.7])),
        noise=draw(st.sampled_from([0.0, 0.1, 1.0])),
        tolerance=draw(st.sampled_from([-1e-9, -1e-9, -0.5, -5.0])),
        maxit=draw(st.sampled_from([None, None, 1, 2, 5, 200])),
        column=draw(st.booleans()), seed=draw(st.integers(0, 2 ** 16)))


def check_nnls(ctx, case):
    """The solver ends at the optimum, or after the allowed iterations"""
    rng = np.random.RandomState(case["seed"])
    m, n = case["rows"], case["columns"]
    if case["kind"] == "normal":
        a = rng.normal(0, 1, (m, n))
    elif case["kind"] == "positive":
        a = rng.uniform(0, 1, (m, n))
    elif case["kind"] == "equal":
        a = rng.normal(0, 1, (m, n)) + 3
    else:
        a = np.exp(-0.5 * ((np.arange(m)[:, None] - np.linspace(
            -2, m + 2, n)) / 1.5) ** 2)
    b = a @ (rng.exponential(3, n) * (rng.rand(n) < case["truth"])) + \
        rng.normal(0, case["noise"], m)
    a0, b0 = a.copy(), b.copy()
    tol = case["tolerance"]
    x = ctx.call("nnls", module.nnls, a, b[:, None] if case["column"] else b,
                 case["maxit"], tol)
    ctx.check(np.array_equal(a, a0) and np.array_equal(b, b0),
              "the input was changed")
    ctx.check(np.shape(x) == (n,) and np.isfinite(x).all(),
              lambda: f"solution {x}")
    scale = max(np.abs(x).max(initial=0), 1)
    ctx.check((x >= -1e-9 * scale).all(), lambda: f"negative solution {x}")
    used = int((x > 1e-9 * scale).sum())
    limit = m if case["maxit"] is None else case["maxit"]
    ctx.check(used <= limit, lambda: (
        f"{used} values though {limit} iterations are allowed"))
    # one coordinate at a time enters: the fit is never worse than none
    loss = 0.5 * ((b - a @ x) ** 2).sum()
    ctx.check(loss <= 0.5 * (b ** 2).sum() * (1 + 1e-9) + 1e-9, lambda: (
        f"the solution fits worse ({loss}) than none"))
    grad = a.T @ (b - a @ x)
    slack = 1e-6 * (1 + np.abs(a.T @ b).max())
    on = x > 1e-9 * scale
    ctx.check((np.abs(grad[on]) <= slack).all() or np.linalg.cond(
        a[:, on]) > 1e6, lambda: (
        f"the values found are not those of the best fit: {grad[on]}"))
    if case["maxit"] == 200 and n < 40 and (
            used == n or m >= n or case["kind"] != "equal"):
        # ends at the optimum: nothing left above the tolerance
        ctx.check((grad[~on] <= -tol + slack).all(), lambda: (
            f"the search ended with correlations {grad[~on].max()} left, "
            f"tolerance {tol}"))
        ctx.note("optimum")
    if used > 1:
        ctx.note("several values")


# --------------------------------------------------------- reference pulses
@st.composite
def cases_template(draw):
    return dict(
        n=draw(st.integers(24, 200)), step=draw(st.sampled_from(
            [0.25, 0.5, 1.0])), t0=draw(st.floats(-5, 30)),
        width=draw(st.floats(2, 25)), scale=draw(st.sampled_from(
            [1.0, 0.02, 30.0])), noise=draw(st.sampled_from([0, 0, 0.05])),
        seed=draw(st.integers(0, 2 ** 16)))


def check_template(ctx, case):
    """The reference pulse is the file's, with straight start and end"""
    rng = np.random.RandomState(case["seed"])
    x = np.arange(case["n"]) * case["step"] * 1e-9
    y = case["scale"] * (np.exp(-0.5 * (
        (x * 1e9 - case["t0"]) / case["width"]) ** 2) + rng.normal(
            0, 1, case["n"]) * case["noise"])
    path = ctx.path("pulse.txt")
    np.savetxt(path, np.column_stack([x, y]))
    x, y = np.loadtxt(path).T
    f, norm = ctx.call("load_reference_pulse",
                       NNLSPulseExtraction.load_reference_pulse, path)
    want = y.copy()
    want[:4] = y[4] / x[4] * x[:4]
    # to zero, one step after the end
    want[-10:] = y[-10] - y[-10] / x[10] * (x[-10:] - x[-10])
    tol = 1e-9 * np.abs(want).max()
    ctx.check(np.allclose(f(x), want, rtol=0, atol=tol), lambda: (
        f"the pulse is {f(x)[:6]}..{f(x)[-11:]}, not "
        f"{want[:6]}..{want[-11:]}"))
    spline = InterpolatedUnivariateSpline(x, want, ext=1)
    t = np.linspace(-20, case["n"] * case["step"] + 20, 333) * 1e-9
    ctx.check(np.allclose(f(t), spline(t), rtol=0, atol=1e-7 * np.abs(
        want).max() + tol), "the pulse is not smooth between its points or "
                            "not zero beyond them")
    if abs(want[4]) > 0.01 * case["scale"] and abs(y[-10]) > 1e-3 * \
            case["scale"]:
        ctx.note("starts and ends above zero")


SUBS = [
    Sub("injected", cases, check_injected, quick=500,
        rule="a pixel has several pulses"),
    Sub("optimal", cases_any, check_optimal, quick=300,
        rule="at least one pulse was found"),
]
# helpers of the reducer
if hasattr(NNLSPulseExtraction, "load_reference_pulse"):
    SUBS.insert(0, Sub(
        "template", cases_template, check_template, quick=150,
        rule="start and end of the pulse are not at zero anyway"))
if hasattr(module, "nnls"):
    SUBS.insert(0, Sub(
        "solver", cases_nnls, check_nnls, quick=600,
        rule="several columns are used, or the search ran to its end"))
