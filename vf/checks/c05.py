"""C05: all ways to read a DL1 file give the same rows."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vf import camera
from vf import sessions as S
from vf import tables as T
from vf.core import Sub
from CHECLabPy.core.io import DL1Reader, HDF5Appender, HDF5Reader, HDF5Writer

ASSUMPTIONS = [
    "event ids are unique within a file and every event has n_pixels rows",
    "target_calib is replaced by a stand-in",
]


@st.composite
def files(draw):
    n_modules = draw(st.sampled_from([1, 1, 2, 3, 12, 32]))
    n_pixels = draw(st.integers(1, 12))
    n_events = draw(st.integers(1, 12))
    return dict(
        iev=draw(st.lists(st.integers(0, 40), min_size=n_events,
                          max_size=n_events, unique=True)),
        sort=draw(st.booleans()),
        offset=draw(st.sampled_from([0, 0, 0, 2 ** 16 - 20, 2 ** 31 - 20,
                                     2 ** 32 - 42])),
        n_pixels=n_pixels, n_modules=n_modules, n_sp=draw(st.sampled_from([1, 2, 4, 16])),
        seed=draw(st.integers(0, 2 ** 16)),
        columns=draw(st.lists(st.sampled_from(
            ["charge_cc", "t_cpu", "baseline_mean", "mc_true", "n"]),
            unique=True)),
        flush=draw(st.lists(st.booleans(), min_size=n_events,
                            max_size=n_events)),
        is_mc=draw(st.booleans()),
        single=draw(st.booleans()), shuffle=draw(st.booleans()),
        n_bytes=draw(st.sampled_from([None] * 4 + [
            8 * 10 ** 9, 8 * 10 ** 9 + 1, 3 * 10 ** 10])),
        config=draw(S.dicts),
        selected=draw(st.lists(st.integers(0, 41), max_size=8)),
        as_array=draw(st.booleans()),
        chunk=draw(st.integers(1, 30)),
        ranges=draw(st.lists(st.tuples(st.integers(0, 40),
                                       st.integers(0, 40)), max_size=3)),
        order=draw(st.permutations(["index", "iev", "iterate"])),
    )


def write(ctx, case, path):
    rng = np.random.RandomState(case["seed"])
    n_pix = case["n_pixels"]
    ievs = [i + case["offset"] for i in case["iev"]]
    if case["sort"]:
        ievs = sorted(ievs)
    frames = []
    meta = dict(
        source="Reader", date_generated=pd.Timestamp(0), n_events=len(ievs),
        n_modules=case["n_modules"], n_pixels=n_pix,
        n_superpixels_per_module=case["n_sp"], n_samples=int(rng.randint(200)),
        camera_version="9.%d.%d" % (rng.randint(9), case["seed"]),
        is_mc=case["is_mc"], run_id=int(rng.randint(1e5)))
    tms = [f"TM{i:02}" for i in range(case["n_modules"])]
    sps = [f"{t}_SP{i:02}" for t in tms for i in range(case["n_sp"])]
    tables = dict(
        sn={t: int(rng.randint(100)) for t in tms},
        sipm_temp={t: float(rng.normal()) for t in tms},
        primary_temp={t: float(rng.normal()) for t in tms},
        dac={t: int(rng.randint(256)) for t in sps},
        hvon={t: int(rng.randint(2)) for t in sps},
    )
    if case["shuffle"]:
        for name, d in tables.items():
            keys = list(d)
            rng.shuffle(keys)
            tables[name] = {k: d[k] for k in keys}
    config = {k: S.realise(v) for k, v in case["config"].items()}
    layout = camera.build_layout([(0, i) for i in range(case["n_modules"])])
    mapping = camera.clp_mapping(layout)
    with HDF5Writer(path) as w:
        for i, iev in enumerate(ievs):
            d = dict(iev=np.full(n_pix, iev, np.uint32),
                     pixel=np.arange(n_pix, dtype=np.uint32))
            for c in case["columns"]:
                v = rng.normal(size=n_pix) * 100
                d[c] = dict(charge_cc=v.astype(np.float32),
                            n=v.astype(np.int16),
                            mc_true=np.abs(v).astype(np.uint32)).get(c, v)
            df = pd.DataFrame(d)
            frames.append(df)
            out = T.BigFrame(df)
            if case["flush"][i]:
                object.__setattr__(out, "_claimed", 600_000_000)
            else:
                out = df.copy()
            w.append(out, key="data")
        w.add_metadata(**meta)
        w.add_metadata(name="config", **{
            k: v for k, v in config.items() if k not in ("key", "name")})
        config = {k: v for k, v in config.items() if k not in ("key", "name")}
        for name, d in tables.items():
            w.add_metadata(name=name, **d)
        w.add_mapping(mapping)
    n_bytes = None
    if case["n_bytes"] and len(ievs) * n_pix > 8:
        # pretend that the table is large
        n_bytes = min(case["n_bytes"], len(ievs) * n_pix * 10 ** 9)
        with HDF5Appender(path) as w:
            w.add_metadata(n_bytes=n_bytes)
    meta["n_bytes"] = n_bytes
    return ievs, frames, meta, tables, config, mapping, layout


def check(ctx, case):
    import target_calib as tc
    path = ctx.path("Run00001_dl1.h5")
    ievs, frames, meta, tables, config, mapping, layout = write(
        ctx, case, path)
    full = T.concat(frames)
    n_pix = case["n_pixels"]
    with ctx.call("opening", DL1Reader, path) as r:
        def by_index():
            for i, df in enumerate(frames):
                got = ctx.call("select_event_index", r.select_event_index, i)
                T.compare(ctx, f"event index {i}", got, df)

        def by_iev():
            for i in np.random.RandomState(case["seed"]).permutation(
                    len(ievs)):
                key = ievs[i] if i % 2 else np.uint32(ievs[i])
                T.compare(ctx, f"event {ievs[i]}",
                          ctx.call("reader[iev]", r.__getitem__, key),
                          frames[i])
            for iev in [*range(42), *range(case["offset"],
                                           case["offset"] + 42)]:
                if iev not in ievs:
                    ctx.raises(f"reader[{iev}], not in the file", IndexError,
                               r.__getitem__, iev)

        def iterate():
            got = list(ctx.call("iterate_over_events", r.iterate_over_events))
            ctx.check(len(got) == len(frames), "number of events iterated")
            for g, df in zip(got, frames):
                T.compare(ctx, "iterate_over_events", g, df)

        todo = dict(index=by_index, iev=by_iev, iterate=iterate)
        for name in case["order"]:
            todo[name]()
        n_bytes = meta.pop("n_bytes")
        if n_bytes is not None and n_bytes > 8e9:
            ctx.note("too large to load whole", False)
            ctx.raises("loading a large table", MemoryError,
                       r.load_entire_table)
        else:
            T.compare(ctx, "load_entire_table", ctx.call(
                "load_entire_table", r.load_entire_table), full)
        T.compare(ctx, "load_entire_table, forced", ctx.call(
            "load_entire_table", r.load_entire_table, force=True), full)
        T.compare(ctx, "select", ctx.call("select", r.select), full)
        for a, b in case["ranges"]:
            a, b = min(a, b), max(a, b)
            if a < len(full):
                T.compare(ctx, f"select({a}, {b})",
                          ctx.call("select", r.select, start=a, stop=b),
                          full.iloc[a:b])
        where = ievs[case["seed"] % len(ievs)]
        got = ctx.call("select where", r.select, where=f"iev == {where}")
        T.compare(ctx, "select(where)", got, full[full["iev"] == where])
        got = ctx.call("select columns", r.select, columns=["pixel", "iev"])
        T.compare(ctx, "select(columns)", got[["pixel", "iev"]],
                  full[["pixel", "iev"]])
        rows = list(ctx.call("iterate_over_rows", r.iterate_over_rows))
        ctx.check(len(rows) == len(full), "number of rows iterated")
        T.compare(ctx, "iterate_over_rows", T.concat(rows), full)
        chunks = list(r.iterate_over_chunks(chunksize=case["chunk"]))
        ctx.check(all(len(c) == case["chunk"] for c in chunks[:-1]),
                  "size of the chunks")
        T.compare(ctx, "iterate_over_chunks", T.concat(chunks), full)
        chunks = list(ctx.call("iterate_over_chunks",
                               r.iterate_over_chunks))
        T.compare(ctx, "iterate_over_chunks()", T.concat(chunks), full)
        if n_bytes is not None:
            two_gb = 2e9 * len(full) / n_bytes
            ctx.check(all(len(c) <= two_gb + 1 for c in chunks) and all(
                len(c) >= two_gb - 1 for c in chunks[:-1]), lambda: (
                f"chunks of {[len(c) for c in chunks]} rows by default, 2 GB "
                f"are {two_gb}"))
            ctx.note("chunks of 2 GB", False)
        for a, b in case["ranges"][:1]:
            a, b = min(a, b), max(a, b)
            if a < len(full) and b > a:
                chunks = list(ctx.call(
                    "iterate_over_chunks(start, stop)", r.iterate_over_chunks,
                    case["chunk"], start=a, stop=min(b, len(full))))
                T.compare(ctx, f"chunks from {a} to {b}", T.concat(chunks),
                          full.iloc[a:b])
        chunks = list(ctx.call(
            "iterate_over_chunks(columns)", r.iterate_over_chunks,
            case["chunk"], columns=["pixel"]))
        T.compare(ctx, "chunks of a column", T.concat(chunks)[["pixel"]],
                  full[["pixel"]])
        chunks = list(ctx.call(
            "iterate_over_chunks(where)", r.iterate_over_chunks,
            case["chunk"], where=f"iev == {where}"))
        T.compare(ctx, "chunks of an event", T.concat(chunks),
                  full[full["iev"] == where])
        selected = [i + case["offset"] for i in case["selected"]]
        sel = np.array(selected, dtype=int) if case["as_array"] \
            else list(selected)
        got = list(ctx.call("iterate_over_selected_events",
                            r.iterate_over_selected_events, sel))
        want = [f for i, f in zip(ievs, frames) if i in selected]
        ctx.check(len(got) == len(want), lambda: (
            f"{len(got)} selected events instead of {len(want)}"))
        for g, w in zip(got, want):
            T.compare(ctx, "selected event", g, w)
        cols = list(full.columns)
        for c in cols:
            got = ctx.call("select_column", r.select_column, c)
            ctx.check(T.same_values(got.values, full[c].values),
                      f"select_column({c})")
        many = cols[::-1] + cols[:1]
        got = ctx.call("select_columns", r.select_columns, many,
                       start=1, stop=1 + case["chunk"])
        ctx.check(len(got) == len(many), "select_columns")
        for g, c in zip(got, many):
            ctx.check(T.same_values(
                g.values, full[c].values[1:1 + case["chunk"]]),
                f"select_columns {c}")
        with HDF5Reader(path) as table:
            got = ctx.call("select_columns of the table",
                           table.select_columns, "data", cols, start=1,
                           stop=1 + case["chunk"])
        for g, c in zip(got, cols):
            ctx.check(T.same_values(
                g.values, full[c].values[1:1 + case["chunk"]]),
                f"select_columns {c} of the table")
        # header
        ctx.check(list(r.columns) == cols, "columns")
        ctx.check(r.n_rows == len(full), "n_rows")
        for name in ("n_events", "n_modules", "n_pixels", "n_samples",
                     "n_superpixels_per_module", "camera_version", "is_mc"):
            ctx.check(S.same(getattr(r, name), meta[name]),
                      f"{name} is {getattr(r, name)!r}, not {meta[name]!r}")
        ctx.check(all(S.same(r.metadata[k], v) for k, v in meta.items()),
                  "metadata")
        ctx.check(r.n_bytes == r.metadata["n_bytes"] and r.n_bytes > 0,
                  "n_bytes")
        ctx.check(S.same(dict(r.config), config), "config")
        got = r.mapping
        T.compare(ctx, "mapping", got, mapping)
        ctx.check(S.same(dict(got.metadata), mapping.metadata),
                  "mapping metadata")
        for tm in range(case["n_modules"] + 2):
            for name, func in (("sn", r.get_sn), ("sipm_temp", r.get_sipm_temp),
                               ("primary_temp", r.get_primary_temp)):
                if tm >= case["n_modules"]:
                    ctx.raises(f"get_{name}({tm})", IndexError, func, tm)
                else:
                    ctx.check(S.same(ctx.call(name, func, tm),
                                     tables[name][f"TM{tm:02}"]),
                              f"get_{name}({tm})")
            for sp in range(case["n_sp"] + 2):
                for name, func in (("dac", r.get_sp_dac),
                                   ("hvon", r.get_sp_hvon)):
                    if tm >= case["n_modules"] or sp >= case["n_sp"]:
                        ctx.raises(f"get_sp_{name}({tm}, {sp})", IndexError,
                                   func, tm, sp)
                    else:
                        ctx.check(S.same(
                            ctx.call(name, func, tm, sp),
                            tables[name][f"TM{tm:02}_SP{sp:02}"]),
                            f"get_sp_{name}({tm}, {sp})")
        # the TARGET mapping of the camera that took the data
        ctx.cleanups.append(tc.reset)
        cfg = camera.register_camera(meta["camera_version"], layout)
        got = ctx.call("tc_mapping", lambda: r.tc_mapping)
        ctx.check(got.GetCfgPath() == cfg and
                  got.IsSingleModule() == (case["n_modules"] == 1),
                  "tc_mapping")
        ctx.raises("monitor information that is not there", AttributeError,
                   lambda: r.monitor)
    if len(ievs) > 1 and n_pix > 1:
        ctx.note("several events and pixels")
    if ievs != list(range(len(ievs))):
        ctx.note("event ids are not their positions", False)
    if any(case["flush"][:-1]):
        ctx.note("flushed between events", False)


@st.composite
def together(draw):
    """Two files and steps that take turns on them"""
    a, b = draw(files()), draw(files())
    step = st.one_of(
        st.tuples(st.just("start"), st.sampled_from(
            ["events", "chunks", "rows", "selected"]), st.integers(1, 9)),
        st.tuples(st.just("next"), st.integers(0, 5), st.integers(1, 4)),
        st.tuples(st.just("next"), st.integers(0, 5), st.integers(1, 4)),
        st.tuples(st.just("get"), st.sampled_from(
            ["iev", "index", "table", "select", "mapping", "metadata"]),
            st.integers(0, 30)),
        st.tuples(st.just("change"), st.integers(0, 20), st.just(0)))
    begin = st.tuples(st.just("start"), st.sampled_from(
        ["events", "chunks", "rows", "selected"]), st.integers(1, 9))
    which = st.sampled_from([0, 0, 1, 2])
    return dict(files=[a, b], steps=[
        *draw(st.lists(st.tuples(which, begin), min_size=1, max_size=4)),
        *draw(st.lists(st.tuples(which, step), min_size=3, max_size=20))])


def check_together(ctx, case):
    """
    Readers of two files, and a second reader of the first one, are used in
    turn, with several loops over each of them going on at the same time.
    """
    written = []
    for i, f in enumerate(case["files"]):
        path = ctx.path(f"Run{i:05}_dl1.h5")
        f = dict(f, flush=[False] * len(f["iev"]), n_bytes=None)
        ievs, frames, meta, _, _, mapping, _ = write(ctx, f, path)
        written.append((path, ievs, frames, meta, mapping))
    written.append(written[0])
    readers, contents = [], []
    for path, ievs, frames, _, _ in written:
        r = ctx.call("opening", DL1Reader, path)
        ctx.cleanups.append(r.store.close)
        readers.append(r)
        contents.append((ievs, frames, T.concat(frames)))
    loops = []
    got_frames = []

    def advance(loop):
        name, it, want = loop
        try:
            got = next(it)
        except StopIteration:
            ctx.check(not want, f"the loop over {name} ended early")
            loops.remove(loop)
            return
        ctx.check(bool(want), f"the loop over {name} goes on")
        T.compare(ctx, f"loop over {name}", got, want[0])
        got_frames.append((got, want.pop(0)))

    busy = 0
    for which, (op, arg, n) in case["steps"]:
        r = readers[which]
        ievs, frames, full = contents[which]
        if op == "start":
            if arg == "events":
                it, want = r.iterate_over_events(), list(frames)
            elif arg == "rows":
                it = r.iterate_over_rows()
                want = [full.iloc[i:i + 1] for i in range(len(full))]
            elif arg == "chunks":
                it = r.iterate_over_chunks(n)
                want = [full.iloc[i:i + n] for i in range(0, len(full), n)]
            else:
                it = r.iterate_over_selected_events(ievs[::n])
                want = list(frames[::n])
            loops.append((f"{arg} of reader {which}", it, want))
        elif op == "next" and loops:
            loop = loops[arg % len(loops)]
            for _ in range(n):
                if loop in loops:
                    advance(loop)
            busy = max(busy, len(loops))
        elif op == "get":
            i = n % len(ievs)
            want = frames[i]
            if arg == "iev":
                got = ctx.call("reader[iev]", r.__getitem__, ievs[i])
            elif arg == "index":
                got = ctx.call("select_event_index", r.select_event_index, i)
            elif arg in ("table", "select"):
                want = full
                got = ctx.call("reading the table", r.load_entire_table
                               if arg == "table" else r.select)
            elif arg == "mapping":
                want = written[which][4]
                got = ctx.call("mapping", lambda: r.mapping)
                ctx.check(S.same(dict(got.metadata), want.metadata),
                          f"mapping metadata of reader {which}")
                S.change(got.metadata)
            else:
                got = ctx.call("metadata", lambda: r.metadata)
                ctx.check(all(S.same(got[k], v)
                              for k, v in written[which][3].items()
                              if k != "n_bytes"),
                          f"metadata of reader {which}: {got}")
                S.change(got)
                continue
            T.compare(ctx, f"{arg} {i} of reader {which}", got, want)
            got_frames.append((got, want))
        elif op == "change" and got_frames:
            # what was handed out belongs to the user
            got, _ = got_frames.pop(arg % len(got_frames))
            got.loc[:, got.columns[1]] = 0
            got["new"] = 1
    for loop in list(loops):
        while loop in loops:
            advance(loop)
    for got, want in got_frames:
        T.compare(ctx, "rows that were handed out before", got, want)
    if busy > 1:
        ctx.note("several loops at the same time")


@st.composite
def long_runs(draw):
    n_pixels = draw(st.sampled_from([4, 64, 2048]))
    return dict(
        n_pixels=n_pixels, n_events=draw(st.integers(1, 40)) +
        66000 // n_pixels, step=draw(st.integers(1, 3)),
        first=draw(st.sampled_from([0, 5, 70000])),
        seed=draw(st.integers(0, 2 ** 16)))


def check_long(ctx, case):
    """A run of more rows than fit in 16 bits"""
    path = ctx.path("Run00002_dl1.h5")
    rng = np.random.RandomState(case["seed"])
    n_pix, n = case["n_pixels"], case["n_events"]
    iev = (case["first"] + case["step"] * np.arange(n)).astype(np.uint32)
    full = pd.DataFrame(dict(
        iev=np.repeat(iev, n_pix),
        pixel=np.tile(np.arange(n_pix, dtype=np.uint32), n),
        charge=rng.normal(size=n * n_pix).astype(np.float32)))
    with HDF5Writer(path) as w:
        half = n_pix * int(rng.randint(n))
        w.append(full[:half])
        w.append(full[half:])
        w.add_metadata(n_events=n, n_pixels=n_pix)
    ctx.note("more than 2**16 rows")
    with ctx.call("opening", DL1Reader, path) as r:
        near = 65536 // n_pix
        for i in {0, 1, near - 1, near, near + 1, n - 1, *rng.randint(0, n, 5)}:
            i = int(i)
            if i >= n:
                continue
            want = full[i * n_pix:(i + 1) * n_pix]
            T.compare(ctx, f"event {i}", ctx.call(
                "select_event_index", r.select_event_index, i), want)
            T.compare(ctx, f"event {iev[i]}", ctx.call(
                "reader[iev]", r.__getitem__, int(iev[i])), want)
        if case["step"] > 1:
            ctx.raises("event not in the file", IndexError, r.__getitem__,
                       int(iev[-2]) + 1)
        sel = iev[-1:-9:-2].tolist()
        got = list(ctx.call("iterate_over_selected_events",
                            r.iterate_over_selected_events, sel))
        T.compare(ctx, "selected events", T.concat(got),
                  full[full["iev"].isin(sel)])
        T.compare(ctx, "load_entire_table", r.load_entire_table(), full)
        T.compare(ctx, "iterate_over_chunks",
                  T.concat(list(r.iterate_over_chunks())), full)
        T.compare(ctx, "rows from 2**16 - 3", r.select(
            start=2 ** 16 - 3, stop=2 ** 16 + 4),
            full[2 ** 16 - 3:2 ** 16 + 4])
        got = ctx.call("select where", r.select, where=f"iev == {iev[-1]}")
        T.compare(ctx, "select where", got, full[full["iev"] == iev[-1]])
        ctx.check(r.n_rows == len(full), "n_rows")
        ctx.check(T.same_values(r.select_column("charge").values,
                                full["charge"].values), "select_column")


SUBS = [Sub("long", long_runs, check_long, quick=6, thorough=40,
            rule="every case"),
        Sub("together", together, check_together, quick=100,
            rule="several loops at the same time"),
        Sub("paths", files, check, quick=120,
            rule="several events of several pixels")]
