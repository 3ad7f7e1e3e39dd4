"""C02: a writing session that is ended by an exception."""
from vf import sessions as S
from vf.core import Sub

ASSUMPTIONS = [
    "the exception does not come from the writer itself",
    "all frames appended to one table have the same columns and types",
]


def strategy():
    return S.histories(max_sessions=3, max_ops=6, abort=True,
                       kinds=("append",) * 4 + ("metadata", "write",
                                                "mapping"))


def check(ctx, case):
    path = ctx.path("f.h5")
    model = S.Model()
    S.run(ctx, case, path, model)
    S.check_file(ctx, path, model)
    aborted = [s for s in case["sessions"] if s["abort"] is not None]
    if aborted and any(s["ops"] for s in aborted):
        ctx.note("aborted after some operations")
    if any(s["abort"] is not None for s in case["sessions"][1:]):
        ctx.note("aborted while appending to a file")
    if any(o["op"] == "append" and o["claimed"] == 6
           for s in aborted for o in s["ops"]):
        ctx.note("aborted after a flush")


SUBS = [Sub("abort", strategy, check, quick=180,
            rule="a session is aborted after at least one operation")]
