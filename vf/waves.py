"""Generated waveforms and the reducers that process them."""
import os
import numpy as np
from hypothesis import strategies as st
from vf import camera

KINDS = ["noise", "pulses", "late", "early", "spikes", "flat", "steps",
         "integers", "negative", "ramp", "plateaus"]


@st.composite
def specs(draw, n_pixels=None, n_samples=None, kinds=KINDS,
          dtypes=("float32", "float64")):
    return dict(
        n_pixels=n_pixels if n_pixels is not None
        else 4 * draw(st.integers(1, 8)),
        n_samples=n_samples if n_samples is not None
        else draw(st.integers(20, 140)),
        kind=draw(st.sampled_from(kinds)),
        dtype=draw(st.sampled_from(dtypes)),
        amp=draw(st.sampled_from([1.0, 0.01, 50.0, 4000.0])),
        seed=draw(st.integers(0, 2 ** 16)))


def pulse(t, t0, width, skew=1.0):
    d = (t - t0) / width
    d = np.where(d > 0, d / skew, d)
    return np.exp(-0.5 * d ** 2)


def make(spec):
    n, s = spec["n_pixels"], spec["n_samples"]
    rng = np.random.RandomState(spec["seed"])
    kind, amp = spec["kind"], spec["amp"]
    t = np.arange(s)
    noise = rng.normal(0, 0.05, (n, s))
    if kind in ("pulses", "late", "early", "negative"):
        centre = dict(late=s - rng.uniform(0, 12), early=rng.uniform(0, 12)
                      ).get(kind, rng.uniform(0, s))
        t0 = centre + rng.normal(0, 3, n)
        w = rng.uniform(1.0, 6.0, n)
        h = rng.exponential(1, n)
        wf = noise * rng.choice([0, 0.2, 1]) + h[:, None] * pulse(
            t, t0[:, None], w[:, None], rng.uniform(1, 3))
        if rng.rand() < 0.5:
            wf += 0.4 * pulse(t, rng.uniform(0, s), 2.0)
        if kind == "negative":
            wf = wf - rng.uniform(0.5, 3)
        wf += rng.choice([0, 0, rng.normal()])
    elif kind == "spikes":
        wf = np.zeros((n, s))
        for i in range(n):
            k = rng.randint(0, s, rng.randint(1, 4))
            wf[i, k] = rng.normal(0, 1, k.size) + 0.5
    elif kind == "flat":
        wf = np.repeat(rng.choice([0, 1, -1, 0.5], n)[:, None], s, axis=1)
    elif kind == "steps":
        wf = (t[None] >= rng.randint(0, s, n)[:, None]) * rng.choice(
            [-1.0, 1.0], n)[:, None]
    elif kind == "integers":
        wf = np.round(rng.normal(0, 2, (n, s)) + 4 * pulse(
            t, rng.uniform(0, s), 4))
    elif kind == "plateaus":
        # even values on a zero baseline: levels are hit exactly
        wf = np.zeros((n, s))
        for i in range(n):
            k = rng.randint(0, max(1, s - 12))
            up = np.cumsum(rng.choice([0, 2, 4, 10], 6))
            wf[i, k:k + 12] = np.concatenate([up, up[::-1]])[:s - k]
    elif kind == "ramp":
        wf = np.outer(rng.normal(0, 1, n), t / s)
    else:
        wf = noise * 20
    # nothing so small that float32 cannot scale it exactly
    wf = np.where(np.abs(wf) < 1e-12, 0, wf)
    return np.ascontiguousarray((wf * amp).astype(spec["dtype"]))


# ----------------------------------------------------------- reference pulse
@st.composite
def reference_pulses(draw):
    return dict(
        t0=draw(st.floats(5, 25)), width=draw(st.floats(2, 6)),
        skew=draw(st.floats(1, 2.5)), length=draw(st.sampled_from(
            [30, 40.5, 60, 77, 100])),
        step=draw(st.sampled_from([0.1, 0.25, 0.5, 1.0, 0.3, 0.7, 0.9])),
        scale=draw(st.sampled_from([1.0, 0.02, 30.0])),
        undershoot=draw(st.sampled_from([0.0, 0.0, 0.1])))


def reference_points(p):
    x = np.arange(0, p["length"] + 1e-9, p["step"])
    y = pulse(x, p["t0"], p["width"], p["skew"])
    y = y - p["undershoot"] * pulse(x, p["t0"] + 5 * p["width"],
                                    p["width"] * 2)
    return x * 1e-9, y * p["scale"]


def write_reference(path, p):
    x, y = reference_points(p)
    np.savetxt(path, np.column_stack([x, y]))
    return path


DEFAULT_PULSE = dict(t0=12.0, width=3.0, skew=1.5, length=60, step=0.5,
                     scale=1.0, undershoot=0.0)


# ------------------------------------------------------------------ reducers
def all_reducers():
    """The package's own reducers"""
    from CHECLabPy.core.reducer import WaveformReducer
    import CHECLabPy.waveform_reducers  # noqa: F401
    found, new = [], WaveformReducer.__subclasses__()
    while new:
        found += new
        new = [g for r in new for g in r.__subclasses__() if g not in found]
    return [r for r in found
            if r.__module__.startswith("CHECLabPy.waveform_reducers.")]


def mapping_of(n_modules):
    if n_modules == 32:
        return camera.clp_mapping(camera.chec_layout())
    return camera.clp_mapping(camera.build_layout(
        [(0, i) for i in range(n_modules)]))


def resources(ctx, n_pixels):
    """The keyword arguments that some of the reducers need"""
    path = ctx.path("pulse.txt")
    if not os.path.exists(path):
        write_reference(path, DEFAULT_PULSE)
    return dict(reference_pulse_path=path,
                mapping=mapping_of(max(1, n_pixels // 64)))


def same_result(a, b, rtol=1e-6, atol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype == object or b.dtype == object:
        return a.tolist() == b.tolist()
    if a.dtype == bool or b.dtype == bool:
        return a.shape == b.shape and bool((a == b).all())
    return a.shape == b.shape and np.allclose(
        a, b, rtol=rtol, atol=atol, equal_nan=True)
