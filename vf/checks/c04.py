"""C04: appending sessions on existing files."""
from hypothesis import strategies as st
from vf import sessions as S
from vf import tables as T
from vf.core import Sub
from CHECLabPy.core.io import HDF5Appender

ASSUMPTIONS = [
    "a table is either appended to or written directly, not both",
    "a directly written table that is replaced loses its own metadata, "
    "so none is recorded for those",
]


def strategy():
    return S.histories(min_sessions=2, max_sessions=5, max_ops=5, kinds=(
        "append",) * 5 + ("metadata", "metadata", "write", "mapping"))


def check(ctx, case):
    path = ctx.path("f.h5")
    model = S.Model()
    S.run(ctx, case, path, model, after_session=lambda i, p: S.check_file(
        ctx, p, model, f"after session {i}:"))
    seen = set()
    for i, s in enumerate(case["sessions"]):
        now = {o["key"] for o in s["ops"] if o["op"] == "append"}
        if now & seen:
            ctx.note("rows added to an existing table")
        if i and now - seen:
            ctx.note("table added to an existing file")
        seen |= now
    if any(o["op"] == "metadata" and o["values"]
           for s in case["sessions"][1:] for o in s["ops"]):
        ctx.note("metadata added to an existing file")


def check_reading(ctx, case):
    """An appender also reads what the file held when it was opened"""
    path = ctx.path("f.h5")
    model = S.Model()
    S.run(ctx, case, path, model)
    tables = model.tables()
    with ctx.call("opening", HDF5Appender, path) as appender:
        for key, df in tables.items():
            ctx.note("existing table")
            T.compare(ctx, key, ctx.call("read", appender.read, key), df)
            ctx.check(appender.get_n_rows(key) == len(df), "get_n_rows") \
                if key not in model.written else None
        for key, names in model.meta.items():
            for name, d in names.items():
                got = ctx.call("get_metadata", appender.get_metadata, key,
                               name)
                got = {k: v for k, v in got.items() if k in d or k not in (
                    "n_bytes", "total_bytes", "version")}
                ctx.check(S.same(got, d), f"metadata {key} {name}")
    # a session without additions changes nothing
    S.check_file(ctx, path, model, "after an empty session:")


@st.composite
def merging_cases(draw):
    """Sessions that add to the same few metadata tables"""
    keys = draw(st.lists(st.sampled_from([None, "t1", "only"]), min_size=1,
                         max_size=2, unique=True))
    names = draw(st.lists(st.sampled_from([None] + S.NAMES), min_size=1,
                          max_size=2, unique=True))
    case = draw(S.histories(min_sessions=2, max_sessions=4, max_ops=3,
                            kinds=("metadata",) * 4 + ("append", "mapping")))
    pool = draw(st.lists(S.names_of_values, min_size=2, max_size=5,
                         unique=True))
    for s in case["sessions"]:
        for o in s["ops"]:
            if o["op"] == "metadata":
                o["key"] = draw(st.sampled_from(keys))
                o["name"] = draw(st.sampled_from(names))
                o["values"] = draw(st.dictionaries(
                    st.sampled_from(pool), S.values, min_size=1, max_size=3))
    return case


def check_merging(ctx, case):
    path = ctx.path("f.h5")
    model = S.Model()
    S.run(ctx, case, path, model, after_session=lambda i, p: S.check_file(
        ctx, p, model, f"after session {i}:"))
    seen = {}
    for s in case["sessions"]:
        now = {}
        for o in s["ops"]:
            if o["op"] == "metadata":
                at = (o["key"], o["name"])
                if at in seen and not seen[at] <= set(o["values"]):
                    ctx.note("added to metadata of an earlier session")
                    if o["name"] not in (None, "metadata"):
                        ctx.note("... of another name", False)
                now.setdefault(at, set()).update(o["values"])
        for at, v in now.items():
            seen.setdefault(at, set()).update(v)


SUBS = [
    Sub("merging", merging_cases, check_merging, quick=120,
        rule="a session adds to a metadata table that an earlier one wrote, "
             "some of whose values it does not give"),
    Sub("sessions", strategy, check, quick=120,
        rule="a later session adds rows, a table or metadata"),
    Sub("reading", lambda: S.histories(max_sessions=2, max_ops=5),
        check_reading, quick=60, rule="the file holds a table"),
]
