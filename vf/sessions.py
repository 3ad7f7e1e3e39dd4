"""
Histories of writing sessions on one HDF5 file, with a model of what the file
must hold afterwards.  Shared by the checks of the writer and the appender.
"""
import copy
import datetime
import warnings
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vf import camera
from vf import tables as T
import CHECLabPy
from CHECLabPy.core.io import HDF5Appender, HDF5Reader, HDF5Writer

APPEND_KEYS = ["data", "t1", "mc/tel", "mapping_tm", "tel/mapping"]
WRITE_KEYS = ["w1", "w2"]
META_KEYS = ["only", "other", "mapping_notes"]
NAMES = ["metadata", "config", "mcheader", "run_1"]


class Stop(Exception):
    pass


class Abort(BaseException):
    pass


EXCEPTIONS = [ValueError("stop"), KeyError("stop"), Stop("stop"),
              KeyboardInterrupt("stop"), Abort("stop"), OSError("stop"),
              GeneratorExit("stop")]

scalars = st.one_of(
    st.none(), st.booleans(), st.integers(-2 ** 63, 2 ** 64),
    st.floats(allow_nan=False), st.text(max_size=8),
    st.binary(max_size=5),
    st.sampled_from(["np.int16", "np.float32", "np.bool_", "array", "array2",
                     "empty", "date", "stamp", "nan"]).map(
        lambda k: ("@", k)),
)
values = st.one_of(
    scalars, st.lists(scalars, max_size=3),
    st.tuples(scalars, scalars).map(lambda t: ("T",) + t),
    st.dictionaries(st.text(max_size=4), scalars, max_size=3))
names_of_values = st.one_of(
    st.sampled_from(["n_events", "a", "run_id", "TM00", "TM00_SP01", "path"]),
    st.text(alphabet="abc_XY019 é-", min_size=1, max_size=6))
dicts = st.one_of(
    *[st.dictionaries(names_of_values, values, max_size=5)] * 11,
    # as many as a camera has modules and superpixels
    st.sampled_from([9, 33, 90, 300]).map(lambda n: {
        f"TM{i % 32:02}_SP{i // 32:02}": i for i in range(n)}),
    st.sampled_from([17, 65, 300]).map(lambda n: {
        "n" * n: "v" * n, "n" * (n + 1): list(range(n))}))


def realise(v):
    """Plain data to the value it stands for"""
    if isinstance(v, tuple) and v and v[0] == "@":
        return {
            "np.int16": np.int16(-7), "np.float32": np.float32(0.1),
            "np.bool_": np.bool_(True), "nan": float("nan"),
            "array": np.arange(6, dtype=np.float32).reshape(2, 3) / 7,
            "array2": np.array([1, 2 ** 40]), "empty": np.zeros(0, bool),
            "date": datetime.datetime(2019, 4, 28, 1, 2, 3, 4),
            "stamp": pd.Timestamp("2019-04-28 01:02:03.000000004"),
        }[v[1]]
    if isinstance(v, tuple) and v and v[0] == "T":
        return tuple(realise(x) for x in v[1:])
    if isinstance(v, list):
        return [realise(x) for x in v]
    if isinstance(v, dict):
        return {k: realise(x) for k, x in v.items()}
    return v


def same(a, b):
    """Equal in value and kind"""
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and T.same_values(a, b)
    if isinstance(a, dict):
        return list(sorted(a, key=str)) == list(sorted(b, key=str)) and all(
            same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, float) or isinstance(a, np.floating):
        return bool(a == b or (a != a and b != b))
    return bool(a == b)


def change(d):
    """The user goes on to change a dictionary, and what it holds"""
    for k, v in list(d.items()):
        if isinstance(v, dict):
            change(v)
        elif isinstance(v, list):
            v.append(1)
        elif isinstance(v, np.ndarray) and v.size:
            v.flat[0] = not v.flat[0]
        else:
            d[k] = "changed"
    d["added"] = 1


@st.composite
def layouts(draw):
    n = draw(st.integers(1, 3))
    pos = draw(st.permutations([(0, 0), (0, 1), (1, 0), (1, 1)]))[:n]
    return dict(positions=[list(p) for p in pos],
                pitch=draw(st.sampled_from([0.006, 0.1])),
                gap=draw(st.sampled_from([0.0, 0.002])),
                order=draw(st.none() | st.integers(0, 999)),
                more=draw(dicts))


@st.composite
def operations(draw, schema, kinds):
    kind = draw(st.sampled_from(kinds))
    if kind == "append":
        return dict(
            op="append", key=draw(st.sampled_from(APPEND_KEYS)),
            n=draw(st.one_of(st.integers(1, 6), st.integers(0, 40))),
            seed=draw(st.integers(0, 2 ** 16)),
            reuse=draw(st.integers(0, 3)) == 0,
            times=draw(st.sampled_from([1] * 24 + [25, 250])),
            claimed=draw(st.sampled_from([0, 0, 0, 2, 6])))
    if kind == "write":
        keys = draw(st.lists(st.sampled_from(WRITE_KEYS), min_size=1,
                             max_size=2, unique=True))
        return dict(op="write", frames=[dict(
            key=k, schema=draw(T.schemas()), n=draw(st.integers(1, 8)),
            seed=draw(st.integers(0, 2 ** 16))) for k in keys])
    if kind == "mapping":
        return dict(op="mapping", layout=draw(layouts()))
    if kind == "reserved":
        return dict(op="reserved", name=draw(st.sampled_from(
            ["info", "mapping"])), key=draw(st.sampled_from(APPEND_KEYS)))
    return dict(
        op="metadata",
        key=draw(st.sampled_from([None, None] + APPEND_KEYS + META_KEYS)),
        name=draw(st.sampled_from([None, None] + NAMES)),
        values=draw(dicts))


@st.composite
def histories(draw, max_sessions=1, max_ops=8, kinds=(
        "append", "append", "metadata", "write", "mapping"), abort=False,
        min_sessions=1):
    schema = {k: draw(T.schemas()) for k in APPEND_KEYS}
    sessions = []
    for _ in range(draw(st.integers(min_sessions, max_sessions))):
        ops = draw(st.lists(operations(schema, list(kinds)), max_size=max_ops,
                            min_size=0 if sessions or abort else 1))
        sessions.append(dict(
            ops=ops,
            abort=draw(st.integers(0, len(EXCEPTIONS) - 1)) if abort and
            draw(st.integers(0, 3)) else None,
            manual=draw(st.integers(0, 5)) == 0 and not abort))
    old = draw(st.integers(0, 3)) == 0 and draw(st.lists(
        operations(schema, list(kinds)), min_size=1, max_size=3))
    return dict(schema=schema, sessions=sessions, old=old or None)


class Model:
    def __init__(self):
        self.append = {}    # key -> frames
        self.written = {}   # key -> frame
        self.meta = {}      # key -> name -> dict
        self.mapping = None
        self.n_flushes = {}

    def tables(self):
        out = {k: T.concat(v) for k, v in self.append.items()
               if sum(len(f) for f in v)}
        out.update(self.written)
        return out

    def add(self, key, name, values):
        self.meta.setdefault(key, {}).setdefault(name, {}).update(values)


def make_mapping(spec):
    mapping = camera.clp_mapping(camera.build_layout(
        [tuple(p) for p in spec["positions"]], pitch=spec["pitch"],
        gap=spec["gap"]), cfgfile="/cfg/x.cfg")
    if spec.get("order") is not None:
        # the rows of a mapping need not be in the order of the pixels
        meta = mapping.metadata
        mapping = mapping.sample(frac=1, random_state=spec["order"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mapping.metadata = meta
    mapping.metadata.update(
        {k: realise(v) for k, v in spec.get("more", {}).items()})
    return mapping


def apply(ctx, writer, op, schema, model):
    kind = op["op"]
    if kind == "append":
        # a table without rows has no types to store
        n = op["n"]
        if n == 0 and op["key"] not in model.append:
            n = 1
        for i in range(op.get("times", 1) - 1):
            # one event after the other
            df = T.make_frame(schema[op["key"]], 1, op["seed"] + 1 + i)
            ctx.call("append", writer.append, df, key=op["key"])
            model.append.setdefault(op["key"], []).append(df.copy())
        df = T.make_frame(schema[op["key"]], n, op["seed"],
                          claimed=op["claimed"] * 100_000_000)
        kw = {} if op["key"] == "data" else dict(key=op["key"])
        before = pd.DataFrame(df).copy()
        ctx.call("append", writer.append, df, **kw)
        model.append.setdefault(op["key"], []).append(before)
        if op["reuse"]:
            T.reuse(df)
        model.n_flushes[op["key"]] = model.n_flushes.get(op["key"], 0) + 1
    elif kind == "write":
        frames = {t["key"]: T.make_frame(t["schema"], t["n"], t["seed"])
                  for t in op["frames"]}
        ctx.call("write", writer.write, **frames)
        model.written.update(frames)
        for k in frames:
            model.n_flushes[k] = 1
    elif kind == "mapping":
        mapping = make_mapping(op["layout"])
        ctx.call("add_mapping", writer.add_mapping, mapping)
        model.mapping = mapping
    elif kind == "reserved":
        ctx.raises(f"metadata of the reserved name {op['name']}", ValueError,
                   writer.add_metadata, key=op["key"], name=op["name"], a=1)
    else:
        kw = {}
        if op["key"]:
            kw["key"] = op["key"]
        if op["name"]:
            kw["name"] = op["name"]
        d = {k: realise(v) for k, v in op["values"].items()
             if k not in ("key", "name", "self")}
        ctx.call("add_metadata", writer.add_metadata, **kw, **d)
        model.add(op["key"] or "data", op["name"] or "metadata", d)


def run(ctx, case, path, model, after_session=None):
    """Write the file in sessions: the first creates it, the others append"""
    if case.get("old"):
        # the first session replaces the file which is already there
        old = Model()
        with HDF5Writer(path) as writer:
            for op in case["old"]:
                apply(ctx, writer, op, case["schema"], old)
    for i, session in enumerate(case["sessions"]):
        cls = HDF5Appender if i else HDF5Writer
        writer = ctx.call("opening the file to write", cls, path)
        exc = None
        if session["abort"] is not None:
            exc = EXCEPTIONS[session["abort"]]
        if session["manual"]:
            for op in session["ops"]:
                apply(ctx, writer, op, case["schema"], model)
            ctx.call("finish", writer.finish)
        else:
            caught = None
            try:
                with writer as w:
                    ctx.check(w is writer, "the with statement must give the "
                                           "writer itself")
                    for op in session["ops"]:
                        apply(ctx, w, op, case["schema"], model)
                    if exc is not None:
                        raise exc
            except (type(exc) if exc is not None else ()) as e:
                caught = e
            ctx.check(caught is exc,
                      lambda: f"the exception {exc!r} became {caught!r}")
        ctx.check(not writer.store.is_open, "the file was left open")
        if after_session:
            after_session(i, path)


def check_file(ctx, path, model, what="", bytes_of=True):
    """The file holds what the model holds, and nothing else"""
    tables = model.tables()
    with ctx.call("opening the file", HDF5Reader, path) as reader:
        ctx.check(
            set(reader.dataframe_keys) == set(tables) and
            len(reader.dataframe_keys) == len(tables),
            f"{what} tables {sorted(reader.dataframe_keys)} instead of "
            f"{sorted(tables)}")
        for key, df in tables.items():
            got = ctx.call("read", reader.read, key)
            T.compare(ctx, f"{what} table {key}", got, df)
        ctx.check(reader.version == CHECLabPy.__version__, "wrong version")
        # metadata
        expected = {k: set(v) for k, v in model.meta.items()}
        for key in list(tables) + ["data"]:
            expected.setdefault(key, set()).add("metadata")
        got_keys = {k: set(v) for k, v in reader.metadata_keys.items() if v}
        ctx.check(got_keys == expected,
                  lambda: f"{what} metadata {got_keys} not {expected}")
        total = 0
        for key, names in expected.items():
            for name in names:
                got = dict(ctx.call("get_metadata", reader.get_metadata,
                                    key, name))
                want = dict(model.meta.get(key, {}).get(name, {}))
                if name == "metadata":
                    if key in tables:
                        n = got.pop("n_bytes", None)
                        ctx.check(n is not None, f"no n_bytes of {key}")
                        ctx.check(reader.get_n_bytes(key) == n, "get_n_bytes")
                        low = tables[key].memory_usage(
                            index=False, deep=True).sum()
                        high = low + 256 * model.n_flushes[key]
                        ctx.check(low <= n <= high, lambda: (
                            f"{what} n_bytes of {key} is {n}, but its rows "
                            f"take {low} to {high} bytes"))
                        total += n
                    if key == "data":
                        got_total = got.pop("total_bytes", None)
                        version = got.pop("version", None)
                        ctx.check(version == CHECLabPy.__version__,
                                  "version in metadata")
                        # placeholder, filled in below
                        data_total = got_total
                ctx.check(same(got, want), lambda: (
                    f"{what} metadata ({key}, {name}) is {got!r} instead of "
                    f"{want!r}"))
                # part of the name of metadata is not its name
                ctx.raises("unknown metadata", KeyError, reader.get_metadata,
                           key, name[:-1])
        ctx.check(data_total == total, lambda: (
            f"{what} total_bytes is {data_total}, the sum over tables "
            f"is {total}"))
        # mapping
        if model.mapping is None:
            ctx.raises("asking for a mapping that is not there", KeyError,
                       reader.get_mapping)
        else:
            for _ in range(2):
                got = ctx.call("get_mapping", reader.get_mapping)
                T.compare(ctx, f"{what} mapping", got, model.mapping)
                ctx.check(same(dict(got.metadata), model.mapping.metadata),
                          lambda: f"metadata of the mapping {got.metadata}")
                # what was handed out belongs to the user
                change(got.metadata)
                T.reuse(got)
        for key, df in list(tables.items())[:1]:
            T.reuse(reader.read(key))
            T.compare(ctx, f"{what} table {key}, once again",
                      ctx.call("read", reader.read, key), df)
        for key, names in model.meta.items():
            for name in names:
                first = reader.get_metadata(key, name)
                before = copy.deepcopy(first)
                change(first)
                again = reader.get_metadata(key, name)
                ctx.check(same(again, before), lambda: (
                    f"{what} metadata ({key}, {name}) is {again!r} after "
                    f"what was read before, {before!r}, was changed"))
        # what is not there
        ctx.raises("reading an unknown table", KeyError, reader.read, "nope")
        ctx.raises("unknown metadata", KeyError, reader.get_metadata, "nope")
        ctx.raises("unknown metadata", KeyError, reader.get_metadata, "data",
                   "nope")
        ctx.raises("reading the mapping as a table", KeyError, reader.read,
                   "mapping")
        for key in model.meta:
            if key not in tables:
                ctx.raises("reading a table without data", KeyError,
                           reader.read, key)
    ctx.check(not reader.store.is_open, "the reader left the file open")
