"""C17: DL1 production keeps every good event, pixel and header value."""
import contextlib
import datetime
import os
import sys
import numpy as np
import pandas as pd
import yaml
from hypothesis import strategies as st
from vf import camera, refs, runs, waves
from vf.checks.c11 import columns, settings
from vf.core import REPO, Sub
from CHECLabPy.core.chain import WaveformReducerChain
from CHECLabPy.core.io import DL1Reader, HDF5Reader
from CHECLabPy.scripts import extract_dl1

ASSUMPTIONS = [
    "target_io, target_calib and ctapipe are replaced by stand-ins",
    "the values of the reducers themselves are those of the reducers chain",
]
KINDS = ["pulses", "late", "noise", "integers", "spikes"]
VERSIONS = ["1.0.1", "1.1.0", "2.3.4"]


@st.composite
def inputs(draw, mc):
    n = draw(st.one_of(st.integers(0, 8), st.integers(2, 8),
                       st.integers(2, 8), st.just(56)))
    n_modules = 1 if n > 10 else draw(st.sampled_from(
        [1, 1, 2, 4] + [12, 32] * (n < 4)))
    if mc and n == 0:
        n = 1
    return dict(
        n_events=n, n_modules=n_modules,
        n_samples=draw(st.sampled_from([40, 96, 128])),
        seed=draw(st.integers(0, 2 ** 16)),
        kind=draw(st.sampled_from(KINDS)),
        amp=draw(st.sampled_from([1.0, 40.0, 3000.0])),
        bad=draw(st.sampled_from([0.0, 0.2, 0.5, 1.0])),
        version="1.1.0" if mc else draw(st.sampled_from(VERSIONS)),
        run_id=draw(st.integers(0, 10 ** 6)),
        n_sp=draw(st.integers(1, 16)))


@st.composite
def cases(draw, mc):
    n_files = draw(st.sampled_from([1, 1, 1, 2]))
    config = None
    if draw(st.booleans()):
        config = {**draw(columns()), **draw(settings())}
        config = {k: v for k, v in config.items() if "nnls" not in k}
    return dict(
        mc=mc, files=[draw(inputs(mc)) for _ in range(n_files)],
        output=draw(st.integers(0, 3)) == 0 and n_files == 1,
        max_events=draw(st.none() | st.integers(1, 8)),
        config=config, flush=draw(st.integers(0, 3)) == 0,
        perm=draw(st.integers(0, 2 ** 16)))


def waveforms_of(spec, i):
    wf = waves.make(dict(
        n_pixels=64 * spec["n_modules"], n_samples=spec["n_samples"],
        kind=spec["kind"], amp=spec["amp"], dtype="float32",
        seed=spec["seed"] + 77 * i))
    rng = np.random.RandomState(spec["seed"] + i)
    return (wf + np.float32(rng.normal() * 3)).astype(np.float32)


def layout_of(spec):
    n = spec["n_modules"]
    pos = [(0, i) for i in range(n)] if n != 4 else \
        [(0, 0), (0, 1), (1, 0), (1, 1)]
    return camera.build_layout(pos)


def make_tio(spec):
    base = dict(is_r1=True, n_events=spec["n_events"] + 3, seed=spec["seed"],
                n_modules=spec["n_modules"], n_pixels=64 * spec["n_modules"],
                n_samples=1, n_sp=spec["n_sp"], run_id=spec["run_id"],
                version=spec["version"])
    run = runs.make_run(base)
    run["n_samples"] = spec["n_samples"]
    rng = np.random.RandomState(spec["seed"] + 5)
    t = 1_500_000_000
    for i, e in enumerate(run["events"]):
        e["samples"] = waveforms_of(spec, i)
        t += int(rng.randint(0, 3))
        e["t_cpu_s"], e["t_cpu_ns"] = t, int(rng.randint(0, 10 ** 9))
        bad = rng.rand() < spec["bad"]
        e["stale"] = bool(bad and rng.rand() < 0.6)
        e["missing_packets"] = bool(bad and (
            not e["stale"] or rng.rand() < 0.3))
    return run


@contextlib.contextmanager
def flushing(active):
    """Let frames claim a lot of memory, so that buffers are flushed"""
    usage = pd.DataFrame.memory_usage
    if active:
        pd.DataFrame.memory_usage = lambda self, *a, **k: \
            usage(self, *a, **k) * 0 + 2e8
    try:
        yield
    finally:
        pd.DataFrame.memory_usage = usage


def time_corrections():
    path = os.path.join(REPO, "CHECLabPy", "calib", "data",
                        "time_correction.dat")
    return np.loadtxt(path, skiprows=1)[:, 1]


def expected_rows(case, spec, events, mapping, ref_path, config_path,
                  rounding=None):
    """The rows of the data table, event by event

    With a generator for rounding, the calibrated waveforms are off by as much
    as single precision allows."""
    n_pixels = 64 * spec["n_modules"]
    chain = WaveformReducerChain(
        n_pixels, spec["n_samples"], config_path=config_path,
        mapping=mapping, reference_pulse_path=ref_path)
    t_cor = time_corrections()
    # the memory starts with the waveforms as they are in the file
    base = refs.RollingBaseline([e["samples"] for e in events], n_pixels)
    frames, skipped, times = [], 0, []
    for i, e in enumerate(events):
        if e["stale"] or e["missing_packets"]:
            skipped += 1
            continue
        wf = e["samples"]
        if not case["mc"]:
            wf = refs.time_shift(wf, t_cor)
        if rounding is not None:
            size = np.abs(wf).max(axis=1, keepdims=True)
            wf = wf + (3e-7 * size * rounding.uniform(-1, 1, wf.shape)
                       ).astype(wf.dtype)
        wf = base.process(wf)
        d = dict(iev=i, pixel=np.arange(n_pixels), t_cpu=e["t_cpu"],
                 t_tack=e["t_tack"], first_cell_id=e["first_cell_id"],
                 baseline_subtracted=base.baseline)
        d.update(chain.process(wf))
        if case["mc"]:
            d["mc_true"] = e["mc_true"]
        times.append(e["t_cpu"])
        frames.append(pd.DataFrame(d))
    df = pd.concat(frames, ignore_index=True) if frames else None
    return df, skipped, times, chain.config


UNSIGNED = dict(iev="uint32", pixel="uint32", t_tack="uint64",
                first_cell_id="uint16", mc_true="uint32")


def compare(ctx, got, want, rounded):
    """rounded: gives the rows for other roundings of the same waveforms"""
    others = []

    def allowed():
        if not others:
            others.extend(rounded())
        return others

    ctx.check(set(got.columns) == set(want.columns), lambda: (
        f"columns: missing {sorted(set(want) - set(got))}, superfluous "
        f"{sorted(set(got) - set(want))}"))
    ctx.check(len(got) == len(want),
              f"{len(got)} rows instead of {len(want)}")
    for c in want:
        g, w = got[c].values, want[c].values
        if c in UNSIGNED:
            ctx.check(str(g.dtype) == UNSIGNED[c], f"{c} is {g.dtype}")
            ok = g.astype(np.uint64) == w.astype(np.uint64)
        elif w.dtype.kind == "f":
            ctx.check(g.dtype.kind == "f", f"{c} is {g.dtype}")
            a, b = g.astype(float), w.astype(float)
            scale = np.nanmax(np.abs(b), initial=0)
            tol = 1e-5 * np.abs(b) + 1e-6 * scale
            ok = (np.abs(a - b) <= tol) | (np.isnan(a) & np.isnan(b))
            if not ok.all():  # e.g. where two samples are nearly equal
                spread = np.max([np.abs(o[c].values.astype(float) - b)
                                 for o in allowed()], axis=0)
                # a value that may be missing or not is not decided
                ok |= np.isnan(spread) & ~np.isnan(b) | (
                    np.abs(a - b) <= tol + 4 * spread)
                for o in allowed():
                    v = o[c].values.astype(float)
                    ok |= np.isnan(b) & ~np.isnan(v)
        else:
            ok = g == w
            if not ok.all():
                for o in allowed():
                    ok |= g == o[c].values
        ctx.check(ok.all(), lambda: (
            f"row {np.where(~ok)[0][0]} (event "
            f"{want['iev'].values[~ok][0]}, pixel "
            f"{want['pixel'].values[~ok][0]}): {c} is {g[~ok][0]!r}, not "
            f"{w[~ok][0]!r}"))


def check(ctx, case):
    ctx.cleanups.append(runs.reset)
    config_path = None
    if case["config"] is not None:
        config_path = ctx.path("config.yml")
        with open(config_path, "w") as f:
            yaml.safe_dump(case["config"], f)
        ctx.note("configuration file", False)
    ref_path = waves.write_reference(ctx.path("pulse.txt"),
                                     waves.DEFAULT_PULSE)
    items = []
    first = case["files"][0]
    for i, spec in enumerate(case["files"]):
        if i:  # one camera
            spec = dict(spec, n_modules=first["n_modules"],
                        version=first["version"])
        layout = layout_of(spec)
        item = dict(spec=spec)
        if case["mc"]:
            n = 64 * spec["n_modules"]
            perm = np.random.RandomState(case["perm"]).permutation(n)
            if spec["n_modules"] in (2, ):
                spec = dict(spec, n_modules=1)
                layout = layout_of(spec)
                perm = perm[perm < 64]
                item["spec"] = spec
            counter = iter(range(1000))
            events, seen, head = runs.simulate(
                layout, perm, spec["n_events"], spec["n_samples"],
                spec["seed"],
                make=lambda rng, n, s: waveforms_of(spec, next(counter)))
            path = ctx.path(f"gamma{i}.simtel.gz")
            runs.register_simtel(path, events)
            cfg = camera.register_camera("1.1.0", layout,
                                         reference_pulse_path=ref_path)
            good = [dict(samples=s["samples"], mc_true=s["mc_true"],
                         stale=False, missing_packets=False, t_tack=0,
                         first_cell_id=0,
                         t_cpu=pd.Timestamp(int(s["gps"] * 4) * 250_000_000))
                    for s in seen]
            mapping = camera.clp_mapping(layout, cfg, False)
            item.update(seen=seen, head=head, run_id=head["obs_id"])
            out = ctx.path(f"gamma{i}_dl1.h5")
        else:
            run = make_tio(spec)
            path = ctx.path(f"Run{i + 1:05d}_r1.tio")
            _, _, cfg = runs.register(
                path, dict(version=spec["version"], n_cells=16384,
                           n_modules=spec["n_modules"]),
                run=run, layout=layout, ref_path=ref_path)
            good = run["events"][2:-1]
            for e in good:
                e["t_cpu"] = pd.Timestamp(
                    e["t_cpu_s"] * 10 ** 9 + e["t_cpu_ns"])
            mapping = camera.clp_mapping(layout, cfg, spec["n_modules"] == 1)
            item.update(run=run, run_id=run["run_id"])
            out = ctx.path(f"Run{i + 1:05d}_dl1.h5")
        item.update(path=path, out=out, mapping=mapping,
                    events=good[:case["max_events"]])
        items.append(item)
    argv = ["extract_dl1", "-f"] + [i["path"] for i in items]
    if case["output"]:
        items[0]["out"] = ctx.path("sub", "mine.h5")
        argv += ["-o", items[0]["out"]]
        ctx.note("output path given", False)
    if case["max_events"]:
        argv += ["-n", str(case["max_events"])]
    if config_path:
        argv += ["-c", config_path]
    before = {i["path"]: open(i["path"], "rb").read() for i in items}
    start = datetime.datetime.now()
    old = sys.argv
    sys.argv = argv
    try:
        with flushing(case["flush"]):
            ctx.call("extract_dl1", extract_dl1.main)
    finally:
        sys.argv = old
    end = datetime.datetime.now()
    if case["flush"]:
        ctx.note("buffers flushed during the run", False)
    for item in items:
        ctx.check(open(item["path"], "rb").read() == before[item["path"]],
                  "the input file was changed")
        ctx.check(os.path.isfile(item["out"]), lambda: (
            f"no file {item['out']}, but "
            f"{[os.path.join(d, n) for d, _, f in os.walk(ctx.tmp) for n in f]}"))
        check_file(ctx, case, item, ref_path, config_path, (start, end))


def check_file(ctx, case, item, ref_path, config_path, when):
    spec = item["spec"]
    want, skipped, times, config = expected_rows(
        case, spec, item["events"], item["mapping"], ref_path, config_path)
    n_good = len(item["events"]) - skipped
    n_pixels = 64 * spec["n_modules"]
    if skipped and n_good:
        ctx.note("bad events among good ones")
    if n_good > 1:
        ctx.note("several events")
    if n_good > 50:
        ctx.note("more events than the baseline remembers")
    reader = DL1Reader if n_good else HDF5Reader
    with ctx.call("opening the DL1 file", reader, item["out"]) as r:
        meta = ctx.call("metadata", r.get_metadata)
        expected = dict(
            source="CHECLabPy", run_id=item["run_id"], is_mc=case["mc"],
            input_path=item["path"], n_modules=spec["n_modules"],
            n_pixels=n_pixels, n_superpixels_per_module=0 if case["mc"]
            else spec["n_sp"], n_samples=spec["n_samples"],
            camera_version=spec["version"],
            n_cells=0 if case["mc"] else 16384, n_events=n_good,
            n_skipped=skipped, start_time=times[0] if times else None,
            end_time=times[-1] if times else None)
        for k, v in expected.items():
            ctx.check(k in meta and meta[k] == v, lambda: (
                f"header: {k} is {meta.get(k)!r}, not {v!r}"))
        ctx.check(when[0] <= meta["date_generated"] <= when[1],
                  f"date_generated {meta['date_generated']}")
        conf = ctx.call("config", r.get_metadata, "data", "config")
        for k, v in config.items():
            if k != "mapping":
                ctx.check(k in conf and conf[k] == v, lambda: (
                    f"configuration: {k} is {conf.get(k)!r}, not {v!r}"))
        for name in ("sn", "sipm_temp", "primary_temp"):
            got = r.get_metadata("data", name)
            w = {f"TM{m:02d}": np.nan if case["mc"] else item["run"][name][m]
                 for m in range(spec["n_modules"])}
            ctx.check(str(got) == str(w), lambda: f"{name}: {got} not {w}")
        for name in ("dac", "hvon"):
            got = r.get_metadata("data", name)
            w = {} if case["mc"] else {
                f"TM{m:02d}_SP{s:02d}": item["run"][name][m][s]
                for m in range(spec["n_modules"])
                for s in range(spec["n_sp"])}
            ctx.check(got == w, lambda: f"{name}: {got} not {w}")
        m = ctx.call("mapping", r.get_mapping)
        for c in item["mapping"].columns:
            ctx.check(np.array_equal(m[c].values, item["mapping"][c].values),
                      f"mapping column {c}")
        ctx.check(m.metadata == item["mapping"].metadata,
                  lambda: f"mapping metadata {m.metadata}")
        if not n_good:
            return
        compare(ctx, ctx.call("reading the table", r.read, "data",
                              force=True), want, lambda: [
            expected_rows(case, spec, item["events"], item["mapping"],
                          ref_path, config_path,
                          np.random.RandomState(k))[0] for k in range(4)])
        if case["mc"]:
            check_mc(ctx, item, r)


def check_mc(ctx, item, r):
    for key in ("mc", "pointing"):
        df = ctx.call(f"reading {key}", r.read, key, force=True)
        seen = item["seen"][:len(item["events"])]
        ctx.check(len(df) == len(seen), f"{key} has {len(df)} rows")
        for i, s in enumerate(seen):
            row = df.iloc[i]
            w = dict(s[key], iev=i)
            if key == "mc":
                w["shower_primary_id"] = s["primary"]
            ctx.check(set(df.columns) == set(w) | {"t_cpu"},
                      lambda: f"{key} has columns {list(df.columns)}")
            for k, v in w.items():
                ctx.check(np.isclose(float(row[k]), v, rtol=1e-6, atol=1e-7),
                          lambda: f"{key} of event {i}: {k} is {row[k]!r}, "
                                  f"not {v!r}")
            ctx.check(row["t_cpu"] == item["events"][i]["t_cpu"], "t_cpu")
    head = ctx.call("mcheader", r.get_metadata, "mc", "mcheader")
    ctx.check(head == item["head"], lambda: f"mcheader: {head}")


# ------------------------------------------------------------- derived paths
NAMES = ["Run1_r1.tio", "Run1.tio", "Run_r1", "run.fits", "a.b.tio", "data"]
MC_NAMES = ["gamma.simtel.gz", "gamma.simtel", "g.simtel.zst", "gamma.gz"]


@st.composite
def path_cases(draw):
    mc = draw(st.booleans())
    return dict(mc=mc, name=draw(st.sampled_from(MC_NAMES if mc else NAMES)),
                folder=draw(st.sampled_from(["d", "e.f", "x-1"])))


def check_path(ctx, case):
    """Whatever its name, the input is never overwritten"""
    ctx.cleanups.append(runs.reset)
    os.mkdir(ctx.path(case["folder"]))
    path = ctx.path(case["folder"], case["name"])
    ref_path = waves.write_reference(ctx.path("pulse.txt"),
                                     waves.DEFAULT_PULSE)
    spec = dict(n_events=2, n_modules=1, n_samples=40, seed=1, kind="noise",
                amp=1.0, bad=0.0, version="1.1.0", run_id=3, n_sp=1)
    layout = layout_of(spec)
    if case["mc"]:
        events, _, _ = runs.simulate(layout, np.arange(64), 2, 40, 1)
        runs.register_simtel(path, events,
                             compress=path.endswith(".gz"))
        camera.register_camera("1.1.0", layout, reference_pulse_path=ref_path)
    else:
        runs.register(path, dict(version="1.1.0", n_cells=16384, n_modules=1),
                      run=make_tio(spec), layout=layout, ref_path=ref_path)
    content = open(path, "rb").read()
    config = ctx.path("c.yml")
    with open(config, "w") as f:
        f.write("waveform_mean: true\n")
    old = sys.argv
    sys.argv = ["extract_dl1", "-f", path, "-c", config]
    try:
        ctx.call("extract_dl1", extract_dl1.main)
    finally:
        sys.argv = old
    ctx.check(open(path, "rb").read() == content,
              f"the input file {case['name']} was overwritten")
    made = sorted(n for n in os.listdir(ctx.path(case["folder"]))
                  if n != case["name"])
    ctx.check(len(made) == 1, f"files made next to the input: {made}")
    name = case["name"]
    if case["mc"] and name.endswith(".simtel.gz"):
        ctx.check(made == [name.replace(".simtel.gz", "_dl1.h5")], f"{made}")
    elif name.endswith(".tio"):
        ctx.check(made == [name.replace("_r1", "_dl1").replace(
            ".tio", ".h5")], f"{made}")
    else:
        ctx.note("unusual name")
    with DL1Reader(ctx.path(case["folder"], made[0])) as r:
        ctx.check(r.n_events == 2, "events in the output")


SUBS = [
    Sub("runs", lambda: cases(False), check, quick=110,
        rule="several events, or bad events among good ones"),
    Sub("simulated", lambda: cases(True), check, quick=35,
        rule="several events"),
    Sub("paths", path_cases, check_path, quick=30, thorough=40,
        rule="the name is not one of the documented forms"),
]
