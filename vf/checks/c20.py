"""C20: waveform shifting, averaging and dead-pixel search are exact."""
import numpy as np
from hypothesis import strategies as st
from vf import refs, waves
from vf.checks.c12 import peaks
from vf.checks.c19 import Source
from vf.core import Sub
from CHECLabPy.utils import waveform as module


def shifted(wf, num, fill):
    out = np.full(wf.shape, fill, dtype=wf.dtype)
    n = wf.shape[1]
    for i in range(n):
        if 0 <= i + num < n:
            out[:, i + num] = wf[:, i]
    return out


@st.composite
def cases(draw):
    return dict(
        spec=draw(waves.specs(dtypes=("float32", "float64", "int16"))),
        num=draw(st.integers(-150, 150) | st.integers(-3, 3)),
        fill=draw(st.sampled_from([None, 0, 7, -1])),
        t=draw(st.floats(0, 1) | st.floats(-2, 3)))


def check(ctx, case):
    wf = waves.make(case["spec"])
    n = wf.shape[1]
    num = case["num"]
    kw = {} if case["fill"] is None else dict(fill_value=case["fill"])
    fill = case["fill"] or 0
    before = wf.copy()
    got = ctx.call("shift_array", module.shift_array, wf, num, **kw)
    ctx.check(np.array_equal(wf, before), "the waveforms were changed")
    ctx.check(got.dtype == wf.dtype, f"type {got.dtype}")
    ctx.check(np.array_equal(got, shifted(wf, num, fill)), lambda: (
        f"shift by {num}: {got[0][:8]} from {wf[0][:8]}"))
    got[...] = 1
    ctx.check(np.array_equal(wf, before),
              "changing the shifted waveforms changed the given ones")
    if 0 < abs(num) < n:
        ctx.note("shift within the readout")
    t = int(case["t"] * n)
    got = ctx.call("shift_waveform", module.shift_waveform, wf, t, **kw)
    ctx.check(np.array_equal(wf, before), "the waveforms were changed")
    ok = any(np.array_equal(got, shifted(wf, t - p, fill)) for p in peaks(wf))
    ctx.check(ok, lambda: (
        f"shift_waveform to {t}: average peaks at {peaks(wf)[:3]}, result "
        f"{got[0]}"))
    got[...] = 1
    ctx.check(np.array_equal(wf, before),
              "changing the shifted waveforms changed the given ones")


# ---------------------------------------------------------------- averages
@st.composite
def run_cases(draw):
    return dict(
        n=draw(st.sampled_from([None] * 13 + [53, 53, 53, 120, 261])
               .flatmap(lambda n: st.just(n) if n else st.integers(1, 8))),
        n_pixels=4 * draw(st.integers(1, 4)),
        n_samples=draw(st.one_of(
            st.integers(20, 60), st.integers(20, 60), st.integers(61, 300))),
        kind=draw(st.sampled_from(["pulses", "noise", "late", "early"])),
        dtype=draw(st.sampled_from(["float32", "float64"])),
        scale=draw(st.sampled_from([1, 1, 1, 0.01, 300, -100])),
        seed=draw(st.integers(0, 2 ** 16)), t=draw(st.floats(0, 0.99)))


def make_events(case):
    rng = np.random.RandomState(case["seed"])
    out = []
    for i in range(case["n"]):
        wf = waves.make(dict(
            n_pixels=case["n_pixels"], n_samples=case["n_samples"],
            kind=case["kind"], amp=20.0, dtype="float64",
            seed=case["seed"] + i * 31))
        # no two samples alike, so that the peaks are definite
        wf = wf + rng.normal(0, 0.1, wf.shape) + rng.normal()
        out.append((wf * case["scale"]).astype(case["dtype"]))
    return out


def check_average(ctx, case):
    events = make_events(case)
    n_pixels, n = case["n_pixels"], case["n_samples"]
    t = int(case["t"] * n)
    base = refs.RollingBaseline(events, n_pixels)
    total = np.zeros((n_pixels, n))
    for e in events:
        wf = base.process(e)
        total += shifted(wf, t - int(wf.mean(0).argmax()), 0)
    total /= len(events)
    atol = 1e-5 * max(abs(case["scale"]), 1)
    got = ctx.call("get_average_wf_per_pixel",
                   module.get_average_wf_per_pixel, Source(events), t)
    ctx.check(np.shape(got) == (n_pixels, n), f"shape {np.shape(got)}")
    ctx.check(np.allclose(got, total, rtol=1e-5, atol=atol), lambda: (
        f"average of pixel 0 is {got[0]}, not {total[0]}"))
    got = ctx.call("get_average_wf", module.get_average_wf, Source(events), t)
    ctx.check(np.shape(got) == (n,), f"shape {np.shape(got)}")
    ctx.check(np.allclose(got, total.mean(0), rtol=1e-5, atol=atol), lambda: (
        f"average is {got}, not {total.mean(0)}"))
    if len(events) > 1:
        ctx.note("several events")


# -------------------------------------------------------------- dead pixels
@st.composite
def dead_cases(draw):
    return dict(
        draw(run_cases()), threshold=draw(st.none() | st.sampled_from(
            [0.01, 0.1, 0.5, 1.0, 0.0])),
        max_events=draw(st.none() | st.integers(1, 12)),
        dead=draw(st.sampled_from([0.0, 0.1, 0.5, 1.0])))


def check_dead(ctx, case):
    events = make_events(case)
    rng = np.random.RandomState(case["seed"] + 9)
    dead = rng.rand(case["n_pixels"]) < case["dead"]
    for e in events:
        e[dead] *= 0.01
    kw = {}
    if case["threshold"] is not None:
        kw["threshold_percent"] = case["threshold"]
    if case["max_events"]:
        kw["max_events"] = case["max_events"]
    got = ctx.call("obtain_dead_pixel_list_r1",
                   module.obtain_dead_pixel_list_r1, Source(events), **kw)
    used = events[:case["max_events"] or 100]
    peak = np.mean([e.astype(float) for e in used], axis=0).max(1)
    limit = peak.mean() * kw.get("threshold_percent", 0.1)
    listed = np.zeros(case["n_pixels"], bool)
    got = [int(g) for g in got]
    ctx.check(got == sorted(set(got)), f"list {got}")
    listed[got] = True
    margin = 1e-6 * np.abs(peak).max()
    for p in range(case["n_pixels"]):
        if abs(peak[p] - limit) > margin:
            ctx.check(listed[p] == (peak[p] < limit), lambda: (
                f"pixel {p} with an average peak of {peak[p]} (limit "
                f"{limit}) is{'' if listed[p] else ' not'} listed"))
    if 0 < listed.sum() < case["n_pixels"]:
        ctx.note("some pixels dead")
    if len(used) < len(events):
        ctx.note("more events than looked at")


@st.composite
def exact_cases(draw):
    """Heights for which the limit can be met exactly"""
    return dict(
        heights=draw(st.lists(st.sampled_from([0, 0, 1, 2, 4, 8, -4]),
                              min_size=1, max_size=6)),
        threshold=draw(st.sampled_from([0.25, 0.5, 1.0, 0.0, 2.0])),
        n=draw(st.sampled_from([1, 2, 4, 8, 104])), odd=draw(st.booleans()))


def check_exact(ctx, case):
    heights = np.array(case["heights"] * 4, dtype=np.float32)
    wf = np.full((heights.size, 20), -8, dtype=np.float32)
    wf[np.arange(heights.size), np.arange(heights.size) % 20] = heights
    events = [wf.copy() for _ in range(case["n"])]
    for e in events[100:]:
        e[...] = 1000 * np.arange(heights.size)[:, None]
    got = ctx.call("obtain_dead_pixel_list_r1",
                   module.obtain_dead_pixel_list_r1, Source(events),
                   threshold_percent=case["threshold"])
    # these sums and products are exact, unless there are 3, 5 or 6 of them
    limit = heights.astype(float).sum() / heights.size * case["threshold"]
    if len(case["heights"]) in (1, 2, 4):
        want = np.flatnonzero(heights < limit)
        ctx.check(np.array_equal(got, want), lambda: (
            f"{list(got)} are dead of the peaks {heights} with a limit of "
            f"{limit}"))
        if (heights == limit).any():
            ctx.note("peaks at the limit")
    if case["n"] > 100:
        ctx.note("more events than looked at")


SUBS = [
    Sub("exact", exact_cases, check_exact, quick=150,
        rule="peaks that are as high as the limit, or more events than are "
             "looked at"),
    Sub("shift", cases, check, quick=5000,
        rule="the shift is smaller than the readout and not zero"),
    Sub("average", run_cases, check_average, quick=500,
        rule="more than one event"),
    Sub("dead", dead_cases, check_dead, quick=800,
        rule="some pixels are dead, others not, or not all events count"),
]
