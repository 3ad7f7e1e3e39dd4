"""C09: simulated events in the camera's pixel order."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vf import camera, runs
from vf import tables as T
from vf.core import Sub
from CHECLabPy.core.io import SimtelReader

ASSUMPTIONS = ["ctapipe and target_calib are replaced by stand-ins"]

LAYOUTS = {1: [(0, 0)], 2: [(0, 0), (0, 1)], 3: [(0, 0), (1, 0), (1, 1)],
           4: [(0, 0), (0, 1), (1, 0), (1, 1)],
           6: [(0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 1)],
           32: camera.CHEC_POSITIONS}


@st.composite
def cases(draw):
    n_tm = draw(st.sampled_from([1, 1, 2, 3, 4, 6, 32]))
    return dict(
        n_tm=n_tm, slots=draw(st.permutations(range(n_tm))),
        sp=draw(st.permutations(range(16))),
        pix=draw(st.permutations(range(4))),
        gap=draw(st.sampled_from([0.0, 0.001, 0.002])),
        perm=draw(st.integers(0, 2 ** 16)),
        n_events=draw(st.integers(1, 5)), n_samples=draw(st.integers(1, 10)),
        seed=draw(st.integers(0, 2 ** 16)), tel=draw(st.integers(1, 5)),
        max_events=draw(st.none() | st.integers(1, 5)),
        ops=draw(st.lists(st.integers(-5, 4), max_size=4)),
    )


def check(ctx, case):
    ctx.cleanups.append(runs.reset)
    pos = LAYOUTS[case["n_tm"]]
    layout = camera.build_layout(
        [pos[i] for i in case["slots"]], case["sp"], case["pix"],
        gap=case["gap"])
    n_pix = case["n_tm"] * 64
    perm = np.random.RandomState(case["perm"]).permutation(n_pix)
    if case["perm"] % 7 == 0:
        perm = np.arange(n_pix)[::-1 if case["perm"] % 2 else 1]
    events, seen, head = runs.simulate(
        layout, perm, case["n_events"], case["n_samples"], case["seed"],
        tel=case["tel"])
    path = ctx.path("gamma.simtel.gz")
    runs.register_simtel(path, events)
    cfg = camera.register_camera("1.1.0", layout,
                                 reference_pulse_path="/ref/mc.txt")
    r = ctx.call("opening", SimtelReader, path, case["max_events"])
    if case["max_events"]:
        seen = seen[:case["max_events"]]
    ctx.note("pixels in another order"
             if (perm != np.arange(n_pix)).any() else "same order",
             bool((perm != np.arange(n_pix)).any()))
    ctx.check(len(r) == r.n_events == len(seen), "number of events")
    ctx.check(r.is_mc is True, "is_mc")
    for name, want in (("n_pixels", n_pix), ("n_modules", case["n_tm"]),
                       ("n_samples", case["n_samples"]),
                       ("camera_version", "1.1.0"),
                       ("reference_pulse_path", "/ref/mc.txt")):
        ctx.check(getattr(r, name) == want,
                  f"{name} is {getattr(r, name)!r}, not {want!r}")
    T.compare(ctx, "mapping", r.mapping,
              camera.clp_mapping(layout, cfg, False))

    keep = []

    def check_event(wf, i):
        s = seen[i]
        keep.append((wf, s))
        ctx.check(T.same_values(wf, s["samples"]),
                  f"waveforms of event {i} are not in the camera's order")
        ctx.check(T.same_values(wf.mc_true, s["mc_true"]),
                  f"true charges of event {i} are not in the camera's order")
        ctx.check(wf.iev == i and bool(wf.is_r1), "iev")
        t = pd.Timestamp(int(s["gps"] * 4) * 250_000_000)
        ctx.check(wf.t_cpu == t, f"t_cpu {wf.t_cpu} not {t}")
        ctx.check(not wf.stale and not wf.missing_packets, "flags")
        ctx.check(r.run_id == head["obs_id"], "run_id")
        want = dict(s["mc"], iev=i, t_cpu=t, shower_primary_id=s["primary"])
        ctx.check(r.mc == want, lambda: f"mc {r.mc} not {want}")
        want = dict(s["pointing"], iev=i, t_cpu=t)
        ctx.check(r.pointing == want, lambda: f"{r.pointing} not {want}")
        ctx.check(r.mcheader == head, lambda: f"{r.mcheader} not {head}")

    for op in case["ops"]:
        if -len(seen) <= op < len(seen):
            check_event(ctx.call("reader[i]", r.__getitem__, op),
                        op % len(seen))
        else:
            ctx.raises(f"reader[{op}]", IndexError, r.__getitem__, op)
    n = 0
    for i, wf in enumerate(r):
        check_event(wf, i)
        n += 1
    ctx.check(n == len(seen), "number of events iterated")
    got = ctx.call("slice", r.__getitem__, slice(None))
    for g, s in zip(got, seen):
        ctx.check(T.same_values(g, s["samples"]), "events by slice")
    ctx.check(len(got) == len(seen), "number of events by slice")
    picked = [i % (2 * len(seen)) - len(seen) for i in case["ops"]]
    got = ctx.call("list", r.__getitem__, picked)
    ctx.check(len(got) == len(picked), "number of events by list")
    for g, i in zip(got, picked):
        ctx.check(T.same_values(g, seen[i]["samples"]), "events by list")
    for bad in ("1", 1.5, None, (0, 0)):
        ctx.raises(f"reader[{bad!r}]", TypeError, r.__getitem__, bad)
    for i in case["ops"]:
        if i >= 0:
            ctx.raises("events beyond the last", IndexError, r.__getitem__,
                       [len(seen) + i])
    for _ in range(2):
        n = len([check_event(wf, i) for i, wf in enumerate(r)])
        ctx.check(n == len(seen), "number of events iterated again")
    for wf, s in keep:
        ctx.check(T.same_values(wf, s["samples"]) and
                  T.same_values(wf.mc_true, s["mc_true"]),
                  "an event changed after others were read")
    wf, s = keep[0]
    for d in (wf[:1], wf - np.float32(1), wf.copy(), wf[:, :3]):
        ctx.check(T.same_values(d.mc_true, s["mc_true"]) and
                  d.iev == wf.iev and d.t_cpu == wf.t_cpu,
                  "what is derived from an event lost its description")


SUBS = [Sub("simulated", cases, check, quick=500,
            rule="the simulation's pixel order differs from the camera's")]
