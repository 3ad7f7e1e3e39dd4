"""C01/C02 share this model: tables written to HDF5 read back exactly."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vf.core import Sub
from vf import tables as T
from CHECLabPy.core.io import HDF5Reader, HDF5Writer

ASSUMPTIONS = [
    "all frames appended to one table have the same columns and types, "
    "string columns have a fixed width (restrictions of HDF tables)",
    "a table has at least one row",
]
KEYS = ["data", "t1", "mc", "pointing"]
NESTED = ["data", "t1/a", "t1/b", "t1"]
NAMED = ["mapping_tm", "tel/mapping", "data"]


@st.composite
def histories(draw, max_ops=10):
    n_keys = draw(st.integers(1, 3))
    keys = draw(st.sampled_from([KEYS, KEYS, NESTED, NAMED]))[:n_keys]
    schema = {k: draw(T.schemas()) for k in keys}
    ops = []
    for _ in range(draw(st.integers(1, max_ops))):
        ops.append(dict(
            key=draw(st.sampled_from(keys)),
            n=draw(st.one_of(st.integers(0, 6), st.integers(0, 60))),
            seed=draw(st.integers(0, 2 ** 16)),
            # how much memory (units of 0.1 GB) the frame claims to use
            claimed=draw(st.sampled_from([0, 0, 0, 1, 2, 3, 6])),
            expected=draw(st.sampled_from([None, None, 50, 1000])),
            reuse=draw(st.integers(0, 3)) == 0,
            times=draw(st.sampled_from([1] * 30 + [25, 250])),
        ))
    return dict(schema=schema, ops=ops, old=draw(st.integers(0, 4)) == 0)


def apply_append(ctx, writer, op, schema, model):
    df = T.make_frame(schema[op["key"]], op["n"], op["seed"],
                      claimed=op["claimed"] * 100_000_000)
    kw = {}
    if op["expected"] is not None:
        kw["expectedrows"] = op["expected"]
    if op["key"] != "data":
        kw["key"] = op["key"]
    for i in range(op["times"] - 1):
        # one event after the other
        one = T.make_frame(schema[op["key"]], 1, op["seed"] + 1 + i)
        ctx.call("append", writer.append, one, **kw)
        model.setdefault(op["key"], []).append(one.copy())
    before = pd.DataFrame(df).copy()
    ctx.call("append", writer.append, df, **kw)
    model.setdefault(op["key"], []).append(before)
    if op["reuse"]:
        T.reuse(df)


def tables_of(model):
    """The tables that hold at least one row"""
    return {k: T.concat(v) for k, v in model.items()
            if sum(len(f) for f in v)}


def check_tables(ctx, path, expected, rng_seed=0):
    """Every way of reading must give the rows that were appended"""
    rng = np.random.RandomState(rng_seed)
    with ctx.call("opening the file", HDF5Reader, path) as reader:
        for key, df in expected.items():
            ctx.check(key in reader.dataframe_keys,
                      f"table {key} is not listed")
            for _ in range(2):
                got = ctx.call("read", reader.read, key)
                T.compare(ctx, f"read({key})", got, df)
                T.reuse(got)
            ctx.check(reader.get_n_rows(key) == len(df),
                      f"get_n_rows({key}) != {len(df)}")
            ctx.check(
                list(reader.get_column_names(key)) == list(df.columns),
                f"get_column_names({key})")
            start = rng.randint(0, len(df))
            stop = rng.randint(start, len(df)) + 1
            got = ctx.call("select", reader.select, key,
                           start=start, stop=stop)
            T.compare(ctx, f"select({key}, {start}, {stop})",
                      got, df.iloc[start:stop])
            for c in df.columns:
                if df[c].dtype.name not in ("int8", "uint8", "int16",
                                            "uint16", "int32"):
                    continue
                v = df[c].values[start]
                got = ctx.call("select by value", reader.select, key,
                               where=f"{c} >= {v}", columns=[c])
                T.compare(ctx, f"select({key}, where {c} >= {v})", got,
                          df.loc[df[c] >= v, [c]])
            size = rng.randint(1, len(df) + 2)
            chunks = list(ctx.call(
                "iterate_over_chunks", reader.iterate_over_chunks, key, size))
            ctx.check(all(len(c) == size for c in chunks[:-1]),
                      "chunks have the wrong size")
            T.compare(ctx, f"iterate_over_chunks({key}, {size})",
                      T.concat(chunks), df)
            chunks = list(reader.iterate_over_chunks(key))
            T.compare(ctx, f"iterate_over_chunks({key})",
                      T.concat(chunks), df)
            cols = list(df.columns)[::-1] + list(df.columns)[:1]
            values = ctx.call("select_columns", reader.select_columns,
                              key, cols)
            ctx.check(len(values) == len(cols), "select_columns length")
            for c, v in zip(cols, values):
                one = ctx.call("select_column", reader.select_column, key, c)
                for got in (v, one):
                    got = np.asarray(got)
                    ctx.check(T.same_values(got, df[c].values),
                              lambda: f"select_column({key}, {c}) gave "
                                      f"{got[:12]!r} not {df[c].values[:12]!r}")
            part = ctx.call("select_column", reader.select_column, key,
                            cols[0], start=start, stop=stop)
            ctx.check(T.same_values(np.asarray(part),
                                    df[cols[0]].values[start:stop]),
                      "select_column with start and stop")
        ctx.raises("reading an unknown table", KeyError, reader.read,
                   "no_such_table")


def n_flushes(ops):
    total, n = {}, 0
    for op in ops:
        total[op["key"]] = total.get(op["key"], 0) + op["claimed"]
        if total[op["key"]] >= 5:
            n += 1
            total[op["key"]] = 0
    return n


def check_append(ctx, case):
    path = ctx.path("sub", "f.h5")
    if case["old"]:
        # the file which is there already is replaced
        with HDF5Writer(path) as writer:
            for op in case["ops"][:2]:
                apply_append(ctx, writer, op, case["schema"], {})
            writer.append(pd.DataFrame(dict(a=[1, 2])), key="left_over")
        ctx.note("replaces a file")
    model = {}
    with ctx.call("creating the file", HDF5Writer, path) as writer:
        for op in case["ops"]:
            apply_append(ctx, writer, op, case["schema"], model)
    expected = tables_of(model)
    if sum(len(f) for f in model.values()) > 1 and expected:
        ctx.note("several frames")
    if n_flushes(case["ops"]):
        ctx.note("flushed before the end")
    if len(expected) > 1:
        ctx.note("several tables")
    with HDF5Reader(path) as reader:
        ctx.check(set(expected) <= set(reader.dataframe_keys)
                  <= set(model), lambda: (
            f"tables {reader.dataframe_keys} instead of {sorted(expected)}"))
    check_tables(ctx, path, expected, case["ops"][0]["seed"])


@st.composite
def direct_writes(draw):
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        keys = draw(st.lists(st.sampled_from(["w1", "w2", "values"]),
                             min_size=1, max_size=3, unique=True))
        ops.append([dict(
            key=k, schema=draw(T.schemas(dtypes=[
                d for d in T.DTYPES if d != "bool" or True])),
            n=draw(st.integers(1, 12)), seed=draw(st.integers(0, 2 ** 16)),
            index=draw(st.sampled_from(["range", "shifted", "reversed"])),
            arrays=draw(st.booleans()),
        ) for k in keys])
    return ops


def check_write(ctx, case):
    path = ctx.path("f.h5")
    model = {}
    with ctx.call("creating the file", HDF5Writer, path) as writer:
        for call in case:
            frames = {}
            for t in call:
                index = dict(
                    range=None, shifted=np.arange(t["n"]) * 3 + 7,
                    reversed=np.arange(t["n"])[::-1])[t["index"]]
                df = T.make_frame(t["schema"], t["n"], t["seed"], index=index)
                if t["arrays"]:
                    rng = np.random.RandomState(t["seed"])
                    cells = np.empty(t["n"], dtype=object)
                    for i in range(t["n"]):
                        cells[i] = rng.normal(size=3)
                    df["cells"] = cells
                frames[t["key"]] = df
            if any(k in model for k in frames):
                ctx.note("overwrites a table")
            ctx.call("write", writer.write, **frames)
            model.update(frames)
    if len(model) > 1:
        ctx.note("several tables")
    with ctx.call("opening the file", HDF5Reader, path) as reader:
        ctx.check(set(reader.dataframe_keys) == set(model),
                  f"tables {reader.dataframe_keys} not {sorted(model)}")
        for key, df in model.items():
            got = ctx.call("read", reader.read, key)
            plain = [c for c in df.columns if c != "cells"]
            ctx.check(list(got.columns) == list(df.columns),
                      f"columns of {key}")
            T.compare(ctx, key, got[plain], df[plain])
            ctx.check(list(got.index) == list(df.index), f"index of {key}")
            if "cells" in df:
                ctx.check(all(
                    T.same_values(a, b)
                    for a, b in zip(got["cells"], df["cells"])),
                    f"array cells of {key}")


SUBS = [
    Sub("append", histories, check_append, quick=250,
        rule="more than one frame or table, or flushed before the end"),
    Sub("write", direct_writes, check_write, quick=120,
        rule="several tables, or a table is overwritten"),
]
