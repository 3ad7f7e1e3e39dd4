"""C19: the rolling baseline is the mean of the last events."""
import numpy as np
from hypothesis import strategies as st
from vf.core import Sub
from CHECLabPy.core.io.waveform import Waveform
from CHECLabPy.utils.waveform import BaselineSubtractor


class Source:
    """A run: the interface of a waveform reader"""

    def __init__(self, events):
        self.events = events
        self.n_events = len(events)
        self.n_pixels, self.n_samples = events[0].shape if events else (3, 40)

    def __iter__(self):
        for i, e in enumerate(self.events):
            yield Waveform(e.copy(), iev=i, is_r1=True)

    def __getitem__(self, i):
        return Waveform(self.events[i].copy(), iev=i, is_r1=True)

    def __len__(self):
        return self.n_events


def make_events(n, n_pixels, n_samples, dtype, seed):
    rng = np.random.RandomState(seed)
    out = []
    for _ in range(n):
        e = rng.normal(rng.normal(0, 50), 5, (n_pixels, n_samples))
        out.append((np.abs(e) if dtype == "uint16" else e).astype(dtype))
    return out


@st.composite
def cases(draw):
    n_base = draw(st.one_of(st.integers(1, 8), st.integers(1, 8), st.none()))
    n = draw(st.integers(0, 70 if n_base is None else 2 * n_base + 3))
    return dict(
        n_base=n_base, n=n,
        n_pixels=draw(st.integers(1, 5)),
        n_samples=draw(st.integers(20, 40)),
        base=draw(st.none() | st.integers(1, 20)),
        dtype=draw(st.sampled_from(["float32", "float64", "uint16"])),
        seed=draw(st.integers(0, 2 ** 16)),
        # the events processed: in order with gaps, or any
        keep=draw(st.sampled_from(["all", "gaps", "any", "twice"])),
        plain=draw(st.booleans()), reuse=draw(st.booleans()))


@st.composite
def long_cases(draw):
    return dict(
        n_base=draw(st.sampled_from([3, 7, 9, 48, 51, 110])),
        n=draw(st.integers(700, 2200)), n_pixels=2, n_samples=20,
        base=draw(st.sampled_from([1, 2])),
        dtype=draw(st.sampled_from(["float32", "uint16"])),
        seed=draw(st.integers(0, 2 ** 16)), keep="all",
        plain=draw(st.booleans()), reuse=draw(st.booleans()))


def check(ctx, case):
    n_base = case["n_base"] or 50
    k = case["base"] or 16
    events = make_events(case["n"], case["n_pixels"], case["n_samples"],
                         case["dtype"], case["seed"])
    if not events:
        source = Source([])
        source.n_pixels, source.n_samples = case["n_pixels"], \
            case["n_samples"]
    else:
        source = Source(events)
    kw = {}
    if case["n_base"]:
        kw["n_base"] = case["n_base"]
    if case["base"]:
        kw["n_base_samples"] = case["base"]
    sub = ctx.call("creating", BaselineSubtractor, source, **kw)
    # the last n_base entries: the first events of the run, else zero
    memory = [np.zeros((case["n_pixels"], k))] * n_base
    for i, e in enumerate(events[:n_base]):
        memory[i] = e[:, :k].astype(float)

    def mean():
        total = np.zeros(case["n_pixels"])
        for m in memory:
            for s in range(k):
                total = total + m[:, s]
        return total / (n_base * k)

    def close(what, got, want):
        ctx.check(got.shape == want.shape, f"{what} has shape {got.shape}")
        ctx.check(np.allclose(got, want, rtol=1e-8, atol=1e-7), lambda: (
            f"{what} is {np.ravel(got)[:4]}, not {np.ravel(want)[:4]}"))

    close("the initial baseline", np.asarray(sub.baseline), mean())
    rng = np.random.RandomState(case["seed"] + 1)
    kept = []
    order = list(range(case["n"]))
    if case["keep"] == "gaps":
        order = [i for i in order if rng.rand() < 0.6]
    elif case["keep"] == "any":
        order = rng.permutation(order).tolist() + order[:3]
    elif case["keep"] == "twice":
        order = order + order
    entry = 0
    for i in order:
        wf = events[i].copy() if case["plain"] else source[i]
        before = np.array(wf)
        got = ctx.call("subtract", sub.subtract, wf)
        ctx.check(np.array_equal(np.asarray(wf), before),
                  "the waveforms were changed")
        memory[entry % n_base] = events[i][:, :k].astype(float)
        entry += 1
        want = mean()
        close(f"baseline after {entry} events", np.asarray(sub.baseline),
              want)
        close("the subtracted waveform", np.asarray(got),
              events[i] - want[:, None])
        if not case["plain"]:
            ctx.check(got.iev == i, f"iev {got.iev} of event {i}")
        if case["reuse"]:
            # neither array is needed any more, the baseline is
            kept.append((sub.baseline, np.array(sub.baseline)))
            wf[:] = 7
            got[:] = 9
    ctx.check(all(np.array_equal(a, b) for a, b in kept[-5:]),
              "a baseline handed out before has changed")
    if entry > n_base:
        ctx.note("memory wraps around")
    elif entry and case["n"] < n_base:
        ctx.note("fewer events than the memory holds", False)
    if order != list(range(case["n"])):
        ctx.note("not every event once")


SUBS = [Sub("history", cases, check, quick=2000,
            rule="more events than the memory holds, or events left out, "
                 "repeated or in another order"),
        Sub("long", long_cases, check, quick=8, thorough=60,
            rule="more events than the memory holds")]
