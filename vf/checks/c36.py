"""C36: flasher identification picks the brightest flasher."""
import numpy as np
from hypothesis import strategies as st
from vf.core import Sub
from CHECLabPy.waveform_reducers.flag_flasher import FlagFlashers

MODULES = (5, 23, 8, 26)
LEVELS = st.sampled_from([0.0, 29.0, 29.75, 30.0, 30.25, 31.0, 60.0, 61.0]) \
    | st.integers(-400, 4000).map(lambda v: v / 4) \
    | st.integers(3800, 40000).map(lambda v: v / 4)


@st.composite
def cases(draw):
    levels = draw(st.lists(LEVELS, min_size=4, max_size=4))
    if draw(st.integers(0, 4)) == 0:
        # two levels next to each other
        i, j = draw(st.permutations(range(4)))[:2]
        levels[i] = max(levels) + draw(st.sampled_from([0, 1000, 8000]))
        levels[j] = levels[i] + draw(st.sampled_from([0.25, -0.25, 1, -1]))
    return dict(
        n_modules=draw(st.sampled_from([32, 32, 27, 28, 40])),
        n_samples=draw(st.integers(1, 6)),
        levels=levels,
        others=draw(LEVELS),
        spread=draw(st.sampled_from([0, 0, 1, 8, 200])),
        skew=draw(st.sampled_from([0, 0, -4, 2, 25, -0.5])),
        low=draw(st.sampled_from([0.0, 5.0, 500.0])),
        dtype=draw(st.sampled_from(["float32", "float64"])),
        seed=draw(st.integers(0, 2 ** 16)))


def make(case):
    """Waveforms with known pixel maxima in multiples of 1/4: exact sums"""
    rng = np.random.RandomState(case["seed"])
    n = case["n_modules"] * 64
    peak = np.full(n, case["others"])
    for m, level in zip(MODULES, case["levels"]):
        # pairs of opposite deviations keep the average at the level
        d = rng.randint(0, case["spread"] * 4 + 1, 32) / 4
        d = np.concatenate([d, -d])
        if case["skew"]:
            # few pixels far from the others, the same average
            k = 2 ** rng.randint(0, 5)
            d[:k] += case["skew"] * (64 // k - 1)
            d[k:] -= case["skew"]
        peak[64 * m:64 * (m + 1)] = level + rng.permutation(d)
    wf = peak[:, None] - rng.randint(0, 9, (n, case["n_samples"])) / 4 \
        - case["low"]
    wf[np.arange(n), rng.randint(0, case["n_samples"], n)] = peak
    return wf.astype(case["dtype"])


def check(ctx, case):
    wf = make(case)
    before = wf.copy()
    got = ctx.call("process", FlagFlashers(*wf.shape).process, wf)
    ctx.check(set(got) == {"flasher_unit"}, f"columns {sorted(got)}")
    unit = got["flasher_unit"]
    ctx.check(np.array_equal(wf, before), "the waveforms were changed")
    ctx.check(np.size(unit) == 1, f"the unit is {unit!r}")
    levels = case["levels"]
    want = [-1]
    if min(levels) >= 30:
        want = [i for i in range(4) if levels[i] == max(levels)]
        ctx.note("flasher event")
    elif max(levels) >= 30:
        ctx.note("some modules above threshold")
    ctx.check(int(unit) in want, lambda: (
        f"unit {unit} for average peaks {levels}, not {want}"))


@st.composite
def run_cases(draw):
    """Events in turn through one reducer"""
    c = draw(cases())
    events = draw(st.lists(st.lists(LEVELS, min_size=4, max_size=4),
                           min_size=1, max_size=5))
    for e in events:
        if draw(st.booleans()):
            # a flasher event, or one module short of it
            e[:] = [v + 30 if v < 30 else v for v in map(abs, e)]
            if draw(st.booleans()):
                e[draw(st.integers(0, 3))] = 29.75
    return dict(c, n_modules=32, events=events)


def check_run(ctx, case):
    reducer = None
    units = []
    for i, levels in enumerate(case["events"]):
        wf = make(dict(case, levels=levels, seed=case["seed"] + i))
        if reducer is None:
            reducer = FlagFlashers(*wf.shape)
        got = ctx.call("process", reducer.process, wf)["flasher_unit"]
        want = [-1]
        if min(levels) >= 30:
            want = [i for i in range(4) if levels[i] == max(levels)]
        ctx.check(int(got) in want, lambda: (
            f"event {i}: unit {got} for average peaks {levels}, not {want}"))
        units.append(want[0])
    if len(set(units)) > 1:
        ctx.note("different units")


SUBS = [Sub("run", run_cases, check_run, quick=250, thorough=5000,
            rule="the unit changes between the events"),
        Sub("unit", cases, check, quick=1200,
            rule="at least one of the four modules is above threshold")]
