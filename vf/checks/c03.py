"""C03: metadata and mapping round-trip, isolated per table."""
import warnings
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vf import sessions as S
from vf import tables as T
import CHECLabPy
from vf.core import Sub
from CHECLabPy.core.io import HDF5Appender, HDF5Reader, HDF5Writer

ASSUMPTIONS = [
    "metadata values are picklable and small (HDF5 attributes hold 64 kB); "
    "their names do not start with an underscore or shadow pandas' attributes",
]


def strategy():
    return S.histories(max_ops=9, kinds=(
        "metadata", "metadata", "metadata", "append", "write", "mapping",
        "reserved"))


def check(ctx, case):
    path = ctx.path("f.h5")
    model = S.Model()
    S.run(ctx, case, path, model)
    S.check_file(ctx, path, model)
    ops = case["sessions"][0]["ops"]
    places = [(o["key"], o["name"]) for o in ops if o["op"] == "metadata"]
    if len(set(places)) > 1:
        ctx.note("several metadata tables")
    if len(set(places)) < len(places):
        ctx.note("merged metadata")
    if any(o["op"] == "mapping" for o in ops):
        ctx.note("mapping")
    if any(o["op"] == "reserved" for o in ops):
        ctx.note("reserved name refused")


@st.composite
def large(draw):
    return dict(
        schema=draw(T.schemas()), n=draw(st.integers(1, 20)),
        seed=draw(st.integers(0, 2 ** 16)),
        n_bytes=draw(st.one_of(
            st.integers(1, 10 ** 11), st.integers(8 * 10 ** 9, 10 ** 11),
            st.sampled_from([8 * 10 ** 9, 8 * 10 ** 9 + 1, 8 * 10 ** 9 - 1]),
        )),
        key=draw(st.sampled_from(["data", "t1"])))


def check_large(ctx, case):
    """Only tables of up to 8 GB are read without being forced"""
    path = ctx.path("f.h5")
    df = T.make_frame(case["schema"], case["n"], case["seed"])
    with HDF5Writer(path) as w:
        w.append(df.copy(), key=case["key"])
        w.append(df.copy(), key="small")
    # pretend that the table is large
    with HDF5Appender(path) as w:
        w.add_metadata(key=case["key"], n_bytes=case["n_bytes"])
    with HDF5Reader(path) as r:
        ctx.check(r.get_n_bytes(case["key"]) == case["n_bytes"],
                  "recorded size")
        if case["n_bytes"] > 8e9:
            ctx.note("too large")
            ctx.raises("reading a large table", MemoryError, r.read,
                       case["key"])
        else:
            ctx.note("small enough", False)
            T.compare(ctx, "read", ctx.call("read", r.read, case["key"]), df)
        got = ctx.call("forced read", r.read, case["key"], force=True)
        T.compare(ctx, "forced read", got, df)
        T.compare(ctx, "read small", ctx.call("read", r.read, "small"), df)


@st.composite
def missing(draw):
    return dict(name=draw(st.text(alphabet="abc", min_size=1, max_size=5)))


def check_missing(ctx, case):
    ctx.note("missing file")
    path = ctx.path(case["name"] + ".h5")
    ctx.raises("reading a missing file", FileNotFoundError, HDF5Reader, path)
    ctx.raises("appending to a missing file", FileNotFoundError, HDF5Appender,
               path)


def check_bytes(ctx, case):
    """The recorded sizes are those of the rows, however they were flushed"""
    path = ctx.path("f.h5")
    model = S.Model()
    S.run(ctx, case, path, model, after_session=lambda i, p: S.check_file(
        ctx, p, model, f"after session {i}:"))
    flushes = {}
    for i, s in enumerate(case["sessions"]):
        for o in s["ops"]:
            if o["op"] == "append" and (o["claimed"] > 4 or i):
                flushes[o["key"]] = flushes.get(o["key"], 0) + 1
    if any(v > 1 for v in flushes.values()):
        ctx.note("a table written in several parts")


@st.composite
def byte_cases(draw):
    case = draw(S.histories(max_sessions=3, max_ops=6, kinds=(
        "append",) * 6 + ("metadata",)))
    key = draw(st.sampled_from(S.APPEND_KEYS))
    for s in case["sessions"]:
        for o in s["ops"]:
            if o["op"] == "append":
                o["claimed"] = draw(st.sampled_from([0, 6, 6]))
                if draw(st.booleans()):
                    o["key"] = key
    return case


@st.composite
def version_cases(draw):
    major = int(CHECLabPy.__version__.split(".")[0])
    return dict(
        version=draw(st.one_of(
            st.none(), st.tuples(
                st.sampled_from([0, 1, major - 1, major, major, major + 1, 10,
                                 11]), st.integers(0, 20),
                st.integers(0, 20)).map(lambda t: "%d.%d.%d" % t))),
        appender=draw(st.booleans()), seed=draw(st.integers(0, 99)))


def check_versions(ctx, case):
    """Files of another major version are read, with a warning"""
    path = ctx.path("f.h5")
    df = T.make_frame([("a", "int32")], 5, case["seed"])
    with HDF5Writer(path) as w:
        w.append(df.copy())
    with pd.HDFStore(path, "a") as store:
        attrs = store.get_storer("data").attrs
        meta = dict(attrs.metadata)
        meta.pop("version")
        if case["version"] is not None:
            meta["version"] = case["version"]
        attrs.metadata = meta
    version = case["version"] or "1.0.0"
    mine = int(CHECLabPy.__version__.split(".")[0])
    theirs = int(version.split(".")[0])
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        r = ctx.call("opening", HDF5Appender if case["appender"] else
                     HDF5Reader, path)
    with r:
        said = [str(w.message) for w in caught
                if issubclass(w.category, UserWarning) and
                "version" in str(w.message)]
        want = [] if mine == theirs else [
            "older" if theirs < mine else "newer"]
        ctx.check(len(said) == len(want) and all(
            a in b for a, b in zip(want, said)), lambda: (
            f"file of version {version}, package {CHECLabPy.__version__}: "
            f"warnings {said}"))
        ctx.check(r.version == version, f"version {r.version}")
        T.compare(ctx, "read", ctx.call("read", r.read, "data"), df)
    if want:
        ctx.note("another major version")


SUBS = [
    Sub("versions", version_cases, check_versions, quick=25, thorough=120,
        rule="the file is of another major version"),
    Sub("bytes", byte_cases, check_bytes, quick=80,
        rule="the rows of a table reach the file in several parts"),
    Sub("metadata", strategy, check, quick=250,
        rule="several metadata tables, repeated additions, a mapping or a "
             "refused name"),
    Sub("large", large, check_large, quick=60,
        rule="the recorded size is above 8 GB"),
    Sub("missing", missing, check_missing, quick=5, thorough=10,
        rule="every case"),
]
