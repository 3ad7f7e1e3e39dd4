"""C06: deprecated monitor tables of a DL1 file."""
import contextlib
import io
import json
import warnings
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vf import tables as T
from vf.core import Sub
from CHECLabPy.core.io import DL1Reader, HDF5Writer

ASSUMPTIONS = [
    "column names differ between the three monitor tables",
    "the monitor entries recorded with the events exist",
]


@st.composite
def files(draw):
    n_modules = draw(st.sampled_from([1, 1, 2, 2, 3, 3, 11, 32, 64]))
    n_pixels = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 64, 300]))
    return dict(
        n_modules=n_modules, n_pixels=n_pixels,
        n_events=draw(st.integers(1, 5)), n_mon=draw(st.integers(1, 5)),
        seed=draw(st.integers(0, 2 ** 16)),
        cols=[draw(st.lists(st.sampled_from(names), min_size=1, unique=True))
              for names in (["c_a", "c_b"], ["tm_a", "tm_b"],
                            ["p_a", "p_b"])],
        nan=draw(st.booleans()), shuffle=draw(st.booleans()),
        devices=draw(st.booleans()),
        n_bytes=draw(st.sampled_from([
            100, 10 ** 9, 8 * 10 ** 9, 8 * 10 ** 9 + 1, 9 * 10 ** 9])),
        ranges=draw(st.tuples(st.integers(0, 10), st.integers(0, 10))),
    )


KEYS = ["monitor_camera", "monitor_tm", "monitor_pixel"]


def check(ctx, case):
    rng = np.random.RandomState(case["seed"])
    n_dev = [1, case["n_modules"], case["n_pixels"]]
    n_mon = case["n_mon"]
    mon = {}
    for key, n, cols in zip(KEYS, n_dev, case["cols"]):
        device = rng.permutation(n) if case["devices"] else np.arange(n)
        d = dict(imon=np.repeat(np.arange(n_mon), n),
                 idevice=np.tile(device, n_mon),
                 t_cpu=pd.to_datetime(
                     np.repeat(rng.randint(0, 10 ** 9, n_mon), n), unit="s"))
        for c in cols:
            d[c] = rng.normal(size=n * n_mon).astype(np.float32)
            if case["nan"]:
                d[c][rng.rand(n * n_mon) < 0.2] = np.nan
        mon[key] = pd.DataFrame(d)
    n_ev, n_pix = case["n_events"], case["n_pixels"]
    rows = n_ev * n_pix
    imon = np.repeat(rng.randint(0, n_mon, n_ev), n_pix)
    pixel = np.tile(np.arange(n_pix), n_ev)
    index = dict(
        monitor_camera=imon,
        monitor_tm=imon * n_dev[1] + pixel % n_dev[1],
        monitor_pixel=imon * n_dev[2] + pixel)
    data = dict(iev=np.repeat(np.arange(n_ev), n_pix), pixel=pixel)
    for key in KEYS:
        data[key + "_index"] = index[key]
    path = ctx.path("Run00001_dl1.h5")
    with HDF5Writer(path) as w:
        w.append(pd.DataFrame(data))
        w.add_metadata(n_events=n_ev, n_pixels=n_pix,
                       n_modules=case["n_modules"], is_mc=False)
        for key in KEYS:
            w.append(mon[key], key=key)
        w.write(monitor_metadata=pd.DataFrame(dict(x=[1])))
        w.add_metadata(key="monitor_metadata", n_events=n_mon,
                       n_modules=case["n_modules"])
    with pd.HDFStore(path, "a") as store:
        attrs = store.get_storer("monitor_metadata").attrs
        attrs.metadata = {**attrs.metadata, "n_bytes": case["n_bytes"]}
    with ctx.call("opening", DL1Reader, path) as r:
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            m = ctx.call("monitor", lambda: r.monitor)
        ctx.check(any(issubclass(w.category, DeprecationWarning)
                      for w in caught), "no deprecation warning")
        ctx.check(m.n_events == n_mon, "n_events")
        ctx.check(m.n_modules == case["n_modules"], "n_modules")
        ctx.check(m.n_bytes == case["n_bytes"], "n_bytes")
        loads = dict(zip(KEYS, (m.load_entire_table_camera,
                                m.load_entire_table_tm,
                                m.load_entire_table_pixel)))
        columns = dict(zip(KEYS, (m.columns_camera, m.columns_tm,
                                  m.columns_pixel)))
        for key, n in zip(KEYS, n_dev):
            df = mon[key]
            ctx.check(list(columns[key]) == list(df.columns),
                      f"columns of {key}")
            if case["n_bytes"] > 8e9:
                ctx.note("too large to load", False)
                ctx.raises("loading a large table", MemoryError, loads[key])
            else:
                T.compare(ctx, key, ctx.call("load", loads[key]), df)
            T.compare(ctx, key, ctx.call("load", loads[key], force=True), df)
            for c in df.columns[3:]:
                v = df[c].values
                ctx.check(m.get_key_for_column(c) == key, "key of the column")
                for args in ((c,), (c, key)):
                    got = ctx.call("select_column", m.select_column, *args)
                    ctx.check(T.same_values(got.values, v), f"column {c}")
                a, b = sorted(case["ranges"])
                got = ctx.call("select_column", m.select_column, c, start=a,
                               stop=b)
                ctx.check(T.same_values(got.values, v[a:b]),
                          f"column {c} from {a} to {b}")
                got = ctx.call("as array", m.select_column_as_array, c)
                ctx.check(T.same_values(got, v.reshape(n_mon, n)),
                          f"{c} as array")
                got = ctx.call("average", m.get_average, c)
                want = pd.DataFrame(v.reshape(n_mon, n)).mean().values[
                    np.argsort(df["idevice"].values[:n])]
                ctx.check(np.shape(got) == (n,) and np.allclose(
                    got, want, rtol=1e-4, atol=1e-5, equal_nan=True),
                    f"average of {c} is {got}, not {want}")
                got = ctx.call("match", r.get_matched_monitor_column, c)
                ctx.check(T.same_values(np.asarray(got), v[index[key]]),
                          f"matched column {c}")
                ctx.check(np.asarray(got).size == rows, "size of the match")
            got = ctx.call("select_columns", m.select_columns,
                           list(df.columns)[::-1], key)
            for g, c in zip(got, list(df.columns)[::-1]):
                ctx.check(T.same_values(g.values, df[c].values),
                          f"select_columns {c}")
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            ctx.call("print_columns", m.print_columns)
        want = {k: [c for c in mon[k].columns[3:]] for k in KEYS}
        text = out.getvalue()
        ctx.check(json.loads(text[text.index("{"):]) == want, lambda: (
            f"printed {text}, not {want}"))
        for c in ("imon", "t_cpu"):
            # once per entry in the camera's table
            got = ctx.call("select_column", m.select_column, c)
            ctx.check(T.same_values(got.values, mon[KEYS[0]][c].values),
                      f"column {c}")
            for key in KEYS:
                got = ctx.call("select_column", m.select_column, c, key)
                ctx.check(T.same_values(got.values, mon[key][c].values),
                          f"column {c} of {key}")
        ctx.raises("an unknown column", KeyError, m.select_column, "nope")
        ctx.raises("matching an unknown column", KeyError,
                   r.get_matched_monitor_column, "nope")
    if n_mon > 1 and n_ev > 1 and n_pix > 1:
        ctx.note("several monitor entries, events and pixels")


SUBS = [Sub("monitor", files, check, quick=100,
            rule="several monitor entries, events and pixels")]
