"""C30: charge resolution is the RMS deviation from the true charge."""
import contextlib
from fractions import Fraction
import math
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vf.core import Sub
from CHECLabPy.utils.resolutions import ChargeResolution, IntensityResolution

FLOATS = st.one_of(st.floats(-20, 500), st.floats(0, 5000),
                   st.integers(-3, 40).map(float))


@st.composite
def cases(draw, signed_true=True):
    """Additions of (pixel, level, charge) entries in several types"""
    integers = draw(st.booleans())
    n_levels = draw(st.integers(1, 5))
    level = st.one_of(st.integers(0, 6), st.integers(0, 250),
                      *([] if integers else [st.floats(0, 300, width=32),
                                             st.floats(0.0, 1.0, width=32)]))
    levels = draw(st.lists(level, min_size=n_levels, max_size=n_levels))
    if draw(st.booleans()):
        levels[0] = 0
    if signed_true and not integers and draw(st.integers(0, 4)) == 0:
        levels.append(-2.5)
    level_type = draw(st.sampled_from(
        ["uint32", "int64", "uint8", "int16"] if integers else
        ["float64", "float32"]))
    if level_type == "float64" and draw(st.integers(0, 3)) == 0:
        # levels that differ, but hardly
        levels.append(levels[-1] * (1 + draw(st.sampled_from(
            [1e-5, 1e-7, 1e-9, 1e-12]))))
    sizes = st.lists(st.one_of(st.integers(0, 6), st.integers(1, 200)),
                     min_size=1, max_size=6)
    if draw(st.integers(0, 9)) == 0:
        sizes = st.builds(lambda n, m: [m] * n, st.integers(40, 210),
                          st.integers(1, 3))
    pixels = draw(st.lists(st.integers(0, 2047), min_size=1, max_size=5))
    # more than a thousand levels, or very many entries of one level
    many = draw(st.integers(0, 24)) == 12
    if many:
        sizes = st.just([1, 2500, 3])
    elif draw(st.integers(0, 59)) == 30:
        sizes = st.just([66000, 0, 2])
        levels, pixels = [5], pixels[:1]
    charge_type = draw(st.sampled_from(
        ["float64", "float32", "int64", "int16", "uint16", "uint8"]))
    return dict(
        levels=levels,
        level_type=level_type,
        charge_type=charge_type,
        pixel_type=draw(st.sampled_from(["uint32", "int64", "uint16"])),
        pixels=pixels,
        offset=draw(st.sampled_from([0, 0, 100, 2000, 20000])),
        constant=draw(st.integers(0, 5)) == 0,
        spread=draw(st.sampled_from([0, 0.3, 3, 40, 1000])),
        many=many,
        scale=draw(st.sampled_from([1, 1, 1, 1, -1e6, 1e6])),
        sizes=draw(sizes),
        flush=draw(st.lists(st.booleans(), min_size=6, max_size=6)),
        again=draw(st.integers(0, 6)), mc=draw(st.booleans()),
        series=draw(st.booleans()), sub=draw(st.booleans()),
        seed=draw(st.integers(0, 2 ** 16)),
        split=draw(st.integers(1, 7)))


def entries(case):
    rng = np.random.RandomState(case["seed"])
    m = sum(case["sizes"])
    levels = np.array(case["levels"], float)
    if case["many"]:
        levels = np.arange(1500) * 1.0
    pixel = np.array(case["pixels"])[rng.randint(
        0, len(case["pixels"]), m)].astype(case["pixel_type"])
    true = levels[rng.randint(0, len(levels), m)].astype(case["level_type"])
    charge = true.astype(float) + case["offset"] * case["scale"] + rng.normal(
        0, 1, 1 if case["constant"] else m) * case["spread"]
    t = case["charge_type"]
    if not t.startswith("float"):
        info = np.iinfo(t)
        charge = np.clip(np.round(charge), info.min, info.max)
    return pixel, true, charge.astype(t)


@contextlib.contextmanager
def flushing(active):
    """Let frames claim a lot of memory, so that they are amalgamated"""
    usage = pd.DataFrame.memory_usage
    if active:
        pd.DataFrame.memory_usage = lambda self, *a, **k: \
            usage(self, *a, **k) * 0 + 3e8
    try:
        yield
    finally:
        pd.DataFrame.memory_usage = usage


def feed(ctx, obj, case, columns, sizes, flush):
    """Add the entries in parts of these sizes"""
    at = 0
    for i, size in enumerate(sizes):
        part = [c[at:at + size].copy() for c in columns]
        before = [p.copy() for p in part]
        if case["series"]:
            index = np.arange(at, at + size)
            part = [pd.Series(p, index=index) for p in part]
        at += size
        with flushing(flush[i % len(flush)]):
            ctx.call("add", obj.add, *part)
        ctx.check(all(np.array_equal(a, b) for a, b in zip(part, before)),
                  "the entries given were changed")
        for p in part:
            # the caller uses them for something else
            p[:] = 3
    assert at == len(columns[0])


def frac(values):
    return [Fraction(float(v)) for v in values]


def expected(case, pixel, true, charge, per_pixel):
    groups = {}
    for p, t, c in zip(pixel.tolist(), true.tolist(), charge.tolist()):
        if t == 0:
            continue
        key = (p, t) if per_pixel else (t,)
        groups.setdefault(key, []).append((Fraction(c) - Fraction(t)) ** 2)
    out = []
    for key in sorted(groups):
        g = groups[key]
        total = sum(g)
        var = total / len(g)
        if case["mc"]:
            var += Fraction(key[-1])
        res = math.sqrt(var) if var >= 0 else math.nan
        out.append(key + (float(total), len(g), res / abs(key[-1]), res))
    return out


def compare(ctx, what, df, rows, names):
    ctx.check(list(df.columns) == names, lambda: (
        f"{what}: columns {list(df.columns)}"))
    ctx.check(len(df) == len(rows), lambda: (
        f"{what}: {len(df)} rows, not {len(rows)}"))
    values = df.values
    for got, want in zip(values, rows):
        for n, g, w in zip(names, got, want):
            exact = n in ("pixel", "true", "n", "amplitude")
            ok = g == w if exact else (
                math.isnan(w) and math.isnan(g)) or math.isclose(
                    g, w, rel_tol=1e-9, abs_tol=1e-9)
            ctx.check(ok, lambda: (
                f"{what}: {n} is {g!r}, not {w!r}, in {want}"))


NAMES = ["true", "sum", "n", "charge_resolution", "charge_resolution_abs"]


def check(ctx, case):
    pixel, true, charge = columns = entries(case)
    cls = IntensityResolution if case["sub"] else ChargeResolution
    r = ctx.call("ChargeResolution", cls, case["mc"])
    # another one is at work on other data at the same time
    rival = ctx.call("ChargeResolution", cls, not case["mc"])
    rival.add(pixel.copy(), true.copy(), charge.astype(float) * 3 + 1)
    if case["again"] and len(case["sizes"]) > 1:
        # a result on the way does not disturb what follows
        k = 1 + case["again"] % (len(case["sizes"]) - 1)
        m = sum(case["sizes"][:k])
        feed(ctx, r, case, [c[:m] for c in columns], case["sizes"][:k],
             case["flush"])
        df_p, df_c = ctx.call("finish", r.finish)
        compare(ctx, "first part, per pixel", df_p, expected(
            case, pixel[:m], true[:m], charge[:m], True), ["pixel"] + NAMES)
        feed(ctx, r, case, [c[m:] for c in columns], case["sizes"][k:],
             case["flush"][k:] or [False])
        ctx.note("continued", False)
    else:
        feed(ctx, r, case, columns, case["sizes"], case["flush"])
    if case["split"] % 2:
        ctx.call("finish", rival.finish)
    df_p, df_c = ctx.call("finish", r.finish)
    rows_p = expected(case, *columns, True)
    rows_c = expected(case, *columns, False)
    compare(ctx, "per pixel", df_p, rows_p, ["pixel"] + NAMES)
    compare(ctx, "camera", df_c, rows_c, NAMES)
    # in another order and split differently
    order = np.random.RandomState(case["seed"] + 1).permutation(pixel.size)
    other = cls(case["mc"])
    parts = [len(a) for a in np.array_split(order, case["split"])]
    feed(ctx, other, case, [c[order] for c in columns], parts,
         case["flush"][::-1])
    df_p, df_c = ctx.call("finish", other.finish)
    compare(ctx, "reordered, per pixel", df_p, rows_p, ["pixel"] + NAMES)
    compare(ctx, "reordered, camera", df_c, rows_c, NAMES)
    if any(r[2] > 1 for r in rows_p):
        ctx.note("several entries per level")
    elif rows_p:
        ctx.note("single entries", False)


SUBS = [Sub("resolution", cases, check, quick=600,
            rule="a pixel has several entries at a level other than zero")]
