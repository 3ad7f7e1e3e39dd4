"""C31: charge statistics are the mean and deviation per pixel and level."""
from fractions import Fraction
import math
import numpy as np
from vf.core import Sub
from vf.checks import c30
from CHECLabPy.utils.resolutions import ChargeStatistics, IntensityStatistics

NAMES = ["amplitude", "sum", "sum2", "n", "mean", "std"]


def expected(pixel, level, charge, per_pixel):
    groups = {}
    for p, t, c in zip(pixel.tolist(), level.tolist(), charge.tolist()):
        key = (p, t) if per_pixel else (t,)
        groups.setdefault(key, []).append(Fraction(c))
    out = []
    for key in sorted(groups):
        g = groups[key]
        n = len(g)
        total, total2 = sum(g), sum(c * c for c in g)
        mean = total / n
        out.append(key + (float(total), float(total2), n, float(mean),
                          float(total2 / n - mean * mean)))
    return out


def compare(ctx, what, df, rows, names):
    ctx.check(list(df.columns) == names, lambda: (
        f"{what}: columns {list(df.columns)}"))
    ctx.check(len(df) == len(rows), lambda: (
        f"{what}: {len(df)} rows, not {len(rows)}"))
    for got, want in zip(df.values, rows):
        scale = want[-4] / want[-3]
        for n, g, w in zip(names, got, want):
            if n in ("pixel", "amplitude", "n"):
                ok = g == w
            elif n == "std":
                # a difference of squares
                ok = g >= 0 and abs(g * g - w) <= 1e-13 * (scale + w) * (
                    3 + want[-3] ** 0.5)
            else:
                ok = math.isclose(g, w, rel_tol=1e-11,
                                  abs_tol=1e-11 * (scale + 1) * (
                                      want[-3] if n == "sum" else 1))
            ctx.check(ok, lambda: (
                f"{what}: {n} is {g!r}, not {w!r} (squared), in {want}"))


def check(ctx, case):
    columns = c30.entries(case)
    cls = IntensityStatistics if case["sub"] else ChargeStatistics
    s = ctx.call("ChargeStatistics", cls)
    if case["again"] and len(case["sizes"]) > 1:
        k = 1 + case["again"] % (len(case["sizes"]) - 1)
        m = sum(case["sizes"][:k])
        c30.feed(ctx, s, case, [c[:m] for c in columns], case["sizes"][:k],
                 case["flush"])
        df_p, df_c = ctx.call("finish", s.finish)
        compare(ctx, "first part, camera", df_c, expected(
            *[c[:m] for c in columns], False), NAMES)
        c30.feed(ctx, s, case, [c[m:] for c in columns], case["sizes"][k:],
                 case["flush"][k:] or [False])
        ctx.note("continued", False)
    else:
        c30.feed(ctx, s, case, columns, case["sizes"], case["flush"])
    rows_p = expected(*columns, True)
    rows_c = expected(*columns, False)
    df_p, df_c = ctx.call("finish", s.finish)
    compare(ctx, "per pixel", df_p, rows_p, ["pixel"] + NAMES)
    compare(ctx, "camera", df_c, rows_c, NAMES)
    order = np.random.RandomState(case["seed"] + 1).permutation(
        columns[0].size)
    other = cls()
    parts = [len(a) for a in np.array_split(order, case["split"])]
    c30.feed(ctx, other, case, [c[order] for c in columns], parts,
             case["flush"][::-1])
    df_p, df_c = ctx.call("finish", other.finish)
    compare(ctx, "reordered, per pixel", df_p, rows_p, ["pixel"] + NAMES)
    compare(ctx, "reordered, camera", df_c, rows_c, NAMES)
    if any(r[4] > 1 and r[-1] > 0 for r in rows_p):
        ctx.note("different charges at a level")


SUBS = [Sub("statistics", c30.cases, check, quick=600,
            rule="a pixel has different charges at the same level")]
