"""C07: indexing, iterating and limiting waveform readers."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vf import camera, runs
from vf import sessions as S
from vf import tables as T
from vf.core import Sub
from CHECLabPy.core.io import ReaderR0, ReaderR1, TIOReader

ASSUMPTIONS = ["target_io and target_calib are replaced by stand-ins"]

index = st.integers(-14, 14)
accesses = st.one_of(
    st.tuples(st.just("int"), index),
    st.tuples(st.just("slice"), st.tuples(
        st.none() | index, st.none() | index,
        st.sampled_from([None, 1, 2, -1, -2, 3]))),
    st.tuples(st.just("list"), st.lists(st.integers(0, 40), max_size=5)),
    st.tuples(st.just("iterate"), st.integers(0, 12)),
    st.tuples(st.just("bad"), st.sampled_from(
        ["'1'", "1.5", "None", "(1, 2)", "{}"])),
    st.tuples(st.just("far"), st.integers(0, 3)),
)


@st.composite
def cases(draw):
    run = draw(runs.tio_runs(max_events=14))
    return dict(
        run=run, max_events=draw(st.none() | st.integers(1, 12)),
        skip=draw(st.none() | st.tuples(st.integers(0, 3),
                                        st.integers(0, 3))),
        level=draw(st.booleans()),
        ops=draw(st.lists(accesses, max_size=12)),
    )


def check_event(ctx, wf, run, event, i, keep):
    ctx.check(wf.shape == event["samples"].shape, "shape of the waveforms")
    ctx.check(wf.dtype == (np.float32 if run["is_r1"] else np.uint16),
              f"dtype {wf.dtype}")
    ctx.check(T.same_values(wf, event["samples"]), "samples of the event")
    check_attributes(ctx, wf, run, event, i)
    keep.append((wf, event))


def check_attributes(ctx, wf, run, event, i):
    ctx.check(wf.iev == i, f"iev is {wf.iev}, not {i}")
    ctx.check(bool(wf.is_r1) == run["is_r1"], "is_r1")
    for name in ("first_cell_id", "stale", "missing_packets", "t_tack"):
        ctx.check(getattr(wf, name) == event[name],
                  f"{name} is {getattr(wf, name)}, not {event[name]}")
    t = pd.Timestamp(event["t_cpu_s"] * 10 ** 9 + event["t_cpu_ns"])
    ctx.check(wf.t_cpu == t, f"t_cpu is {wf.t_cpu}, not {t}")


def check(ctx, case):
    ctx.cleanups.append(runs.reset)
    path = ctx.path("Run00001_r%d.tio" % case["run"]["is_r1"])
    run, layout, cfg = runs.register(path, case["run"])
    cls = TIOReader
    if case["level"]:
        cls = ReaderR1 if run["is_r1"] else ReaderR0
    kw = {}
    first, last = 2, 1
    if case["skip"] is not None:
        first, last = case["skip"]
        kw = dict(skip_events=first, skip_end_events=last)
    r = ctx.call("opening", cls, path, case["max_events"], **kw)
    events = run["events"][first:len(run["events"]) - last]
    if first + last > len(run["events"]):
        events = []
    if case["max_events"]:
        events = events[:case["max_events"]]
    n = len(events)
    ctx.check(r.n_events == n and len(r) == n,
              f"{r.n_events} events instead of {n}")
    ctx.check(r.is_mc is False, "is_mc")
    for name, want in (
            ("run_id", run["run_id"]), ("n_pixels", run["n_pixels"]),
            ("n_modules", run["n_modules"]), ("n_samples", run["n_samples"]),
            ("n_superpixels_per_module", run["n_superpixels_per_module"]),
            ("n_tmpix", run["n_pixels"] // run["n_modules"]),
            ("camera_version", run["camera_version"]),
            ("n_cells", case["run"]["n_cells"]),
            ("reference_pulse_path", f"/ref/{run['camera_version']}.txt"),
            ("path", path)):
        ctx.check(getattr(r, name) == want,
                  f"{name} is {getattr(r, name)!r}, not {want!r}")
    got = r.mapping
    want = camera.clp_mapping(layout, cfg, run["n_modules"] == 1)
    T.compare(ctx, "mapping", got, want)
    ctx.check(S.same(dict(got.metadata), want.metadata), "mapping metadata")
    for tm in range(run["n_modules"] + 2):
        for name, func in (("sn", r.get_sn), ("sipm_temp", r.get_sipm_temp),
                           ("primary_temp", r.get_primary_temp)):
            if tm >= run["n_modules"]:
                ctx.raises(f"get_{name}({tm})", IndexError, func, tm)
            else:
                ctx.check(func(tm) == run[name][tm], f"get_{name}({tm})")
        for sp in range(run["n_superpixels_per_module"] + 2):
            for name, func in (("dac", r.get_sp_dac),
                               ("hvon", r.get_sp_hvon)):
                if tm >= run["n_modules"] or \
                        sp >= run["n_superpixels_per_module"]:
                    ctx.raises(f"get_sp_{name}({tm}, {sp})", IndexError,
                               func, tm, sp)
                else:
                    ctx.check(func(tm, sp) == run[name][tm][sp],
                              f"get_sp_{name}({tm}, {sp})")
    keep = []
    for op, arg in case["ops"]:
        if op == "int":
            if -n <= arg < n:
                ctx.note("event by index" if arg >= 0
                         else "event by negative index")
                wf = ctx.call(f"reader[{arg}]", r.__getitem__, arg)
                i = arg % n
                check_event(ctx, wf, run, events[i], i, keep)
            else:
                ctx.note("index out of range", False)
                ctx.raises(f"reader[{arg}] of {n}", IndexError,
                           r.__getitem__, arg)
        elif op == "far":
            for i in (n + arg, -n - 1 - arg):
                ctx.raises(f"reader[{i}] of {n}", IndexError,
                           r.__getitem__, i)
                ctx.raises(f"reader[[{i}]] of {n}", IndexError,
                           r.__getitem__, [i])
        elif op in ("slice", "list"):
            if op == "slice":
                key = slice(*arg)
                want = events[key]
            else:
                key = [a % (2 * n) - n for a in arg] if n else []
                want = [events[k] for k in key]
            got = ctx.call(f"reader[{key}]", r.__getitem__, key)
            ctx.check(len(got) == len(want), lambda: (
                f"reader[{key}] gave {len(got)} events, not {len(want)}"))
            if len(want):
                ctx.check(got.dtype == want[0]["samples"].dtype,
                          f"dtype {got.dtype} of reader[{key}]")
            for g, w in zip(got, want):
                ctx.check(T.same_values(g, w["samples"]),
                          f"samples in reader[{key}]")
            if len(want) > 1:
                ctx.note(f"several events by {op}")
        elif op == "iterate":
            count = 0
            for i, wf in enumerate(r):
                ctx.check(i < n, "iterated beyond the last event")
                check_event(ctx, wf, run, events[i], i, keep)
                count += 1
                if count == arg:
                    break
            ctx.check(count == min(arg, n) or (arg == 0 and count == n),
                      f"iterated over {count} of {n} events")
        else:
            ctx.raises(f"reader[{arg}]", TypeError, r.__getitem__, eval(arg))
    # what was handed out before stays valid
    for wf, event in keep:
        ctx.check(T.same_values(wf, event["samples"]),
                  "an event changed after others were read")
    for wf, event in keep[:3]:
        i = wf.iev
        before = np.array(wf)
        for d in (wf[:1], wf - np.float32(1), wf.astype(np.float32),
                  wf.copy(), wf[:, :3]):
            check_attributes(ctx, d, run, event, i)
        ctx.check(T.same_values(wf, before), "arithmetic changed the event")


@st.composite
def together(draw):
    step = st.tuples(st.integers(0, 2), st.sampled_from(
        ["start", "next", "next", "get", "change"]), st.integers(0, 30))
    begin = st.tuples(st.integers(0, 2), st.just("start"), st.just(0))
    return dict(
        runs=[draw(runs.tio_runs(max_events=10)) for _ in range(2)],
        limits=[draw(st.none() | st.integers(1, 8)) for _ in range(3)],
        steps=[*draw(st.lists(begin, max_size=3)),
               *draw(st.lists(step, min_size=4, max_size=30))])


def check_together(ctx, case):
    """
    Readers of two files, and another one of the first, are used in turn,
    with several loops over each going on at the same time.
    """
    ctx.cleanups.append(runs.reset)
    opened = []
    for i in (0, 1, 0):
        run = case["runs"][i]
        path = ctx.path(f"Run{i:05}_r%d.tio" % run["is_r1"])
        if len(opened) < 2:
            # each from a camera of its own
            run = dict(run, version=f"{i + 1}.2.3")
            opened.append([path, runs.register(path, run)[0]])
        else:
            opened.append(list(opened[0]))
    for o, limit in zip(opened, case["limits"]):
        path, run = o
        r = ctx.call("opening", TIOReader, path, limit)
        events = run["events"][2:-1][:limit] if limit else run["events"][2:-1]
        o += [r, events]
    loops, keep, nested = [], [], False

    def advance(loop):
        it, run, events, at = loop
        wf = next(it, None)
        if wf is None:
            ctx.check(at == len(events), "the loop ended early")
            loops.remove(loop)
            return
        ctx.check(at < len(events), "the loop goes on")
        check_event(ctx, wf, run, events[at], at, keep)
        loop[-1] += 1

    for which, op, n in case["steps"]:
        path, run, r, events = opened[which]
        if op == "start":
            loops.append([iter(r), run, events, 0])
        elif op == "next" and loops:
            nested |= len(loops) > 1
            advance(loops[n % len(loops)])
        elif op == "get" and events:
            i = n % len(events)
            check_event(ctx, ctx.call(f"reader[{i}]", r.__getitem__, i), run,
                        events[i], i, keep)
        elif op == "change" and keep:
            # what was handed out belongs to the user
            wf, _ = keep.pop(n % len(keep))
            wf[...] = 7
    for loop in list(loops):
        while loop in loops:
            advance(loop)
    for path, run, r, events in opened:
        ctx.check(len(r) == len(events) and r.run_id == run["run_id"] and
                  r.n_pixels == run["n_pixels"] and r.path == path and
                  r.camera_version == run["camera_version"],
                  "a reader describes another file")
    for wf, event in keep:
        ctx.check(T.same_values(wf, event["samples"]),
                  "an event changed after others were read")
    if nested:
        ctx.note("several loops at the same time")


@st.composite
def long_cases(draw):
    run = draw(runs.tio_runs(max_events=1))
    run.update(n_modules=1, n_pixels=draw(st.integers(1, 2)),
               n_samples=draw(st.integers(1, 3)),
               n_events=draw(st.integers(250, 1500) | st.sampled_from(
                   [259, 515, 1027, 4099, 33000, 66000])))
    return dict(run=run, max_events=draw(st.none() | st.integers(200, 1500)),
                picks=draw(st.lists(st.floats(-1, 0.999), max_size=6)))


def check_long(ctx, case):
    """Runs of many events"""
    ctx.cleanups.append(runs.reset)
    path = ctx.path("Run00001_r%d.tio" % case["run"]["is_r1"])
    run, _, _ = runs.register(path, case["run"])
    r = ctx.call("opening", TIOReader, path, case["max_events"])
    events = run["events"][2:-1][:case["max_events"]]
    n = len(events)
    ctx.check(r.n_events == n and len(r) == n,
              f"{r.n_events} events instead of {n}")
    keep = []
    for i, wf in enumerate(r):
        ctx.check(i < n, "more events than there are")
        if i % 97 == 0 or i > n - 3:
            check_event(ctx, wf, run, events[i], i, keep)
        ctx.check(wf.iev == i and wf.t_tack == events[i]["t_tack"] and
                  wf[0, 0] == events[i]["samples"][0, 0], lambda: (
            f"event {i} is event {wf.iev}"))
    ctx.check(i == n - 1, f"{i + 1} events of {n}")
    for p in case["picks"]:
        i = int(p * n)
        check_event(ctx, ctx.call(f"reader[{i}]", r.__getitem__, i), run,
                    events[i], i % n, keep)
    lo = max(n - 5, 0)
    got = ctx.call("slice", r.__getitem__, slice(lo, None, None))
    ctx.check(len(got) == n - lo and all(
        T.same_values(a, e["samples"]) for a, e in zip(got, events[lo:])),
        "slice of the last events")
    for wf, e in keep:
        ctx.check(T.same_values(wf, e["samples"]), "an event changed later")
    ctx.note("many events")


SUBS = [
    Sub("long", long_cases, check_long, quick=20, thorough=300,
        rule="the run has hundreds of events"),Sub("reader", cases, check, quick=1500,
            rule="an event is accessed by index, or several by slice or "
                 "list"),
        Sub("together", together, check_together, quick=200,
            rule="several loops at the same time")]
