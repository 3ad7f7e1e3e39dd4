"""Generated dataframes (as plain data) and exact comparison of tables."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

DTYPES = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32",
          "uint64", "float32", "float64", "bool", "datetime64[ns]", "str"]
NAMES = ["iev", "pixel", "charge", "t_cpu", "x", "y2", "flag", "A_b"]


@st.composite
def schemas(draw, max_columns=5, dtypes=DTYPES):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1,
                          max_size=max_columns, unique=True))
    return [(n, draw(st.sampled_from(dtypes))) for n in names]


def column_values(dtype, n, rng):
    """n values of the type, extremes included"""
    if dtype == "str":
        letters = np.array(list("abcXYZ012 _é"))
        # fixed width: HDF tables cannot widen a string column later
        return np.array(["".join(rng.choice(letters[:11], 6))
                         for _ in range(n)], dtype=object)
    if dtype == "bool":
        return rng.randint(0, 2, n).astype(bool)
    if dtype == "datetime64[ns]":
        ns = rng.randint(0, 2 ** 61, n, dtype=np.int64)
        return ns.astype("datetime64[ns]")
    if dtype.startswith("float"):
        v = (rng.normal(0, 1, n) * 10.0 ** rng.randint(-8, 8, n))
        special = np.array([0.0, -0.0, np.nan, np.inf, -np.inf,
                            float(np.finfo(dtype).max),
                            float(np.finfo(dtype).tiny), 0.1])
        pick = rng.rand(n) < 0.2
        v[pick] = special[rng.randint(0, special.size, pick.sum())]
        return v.astype(dtype)
    info = np.iinfo(dtype)
    kind = rng.randint(0, 3)
    if kind == 0:
        v = rng.randint(0, 100, n).astype(dtype)
    else:
        v = np.frombuffer(rng.bytes(n * info.dtype.itemsize),
                          dtype=dtype).copy()
    pick = rng.rand(n) < 0.15
    v[pick] = rng.choice([info.min, info.max], pick.sum()).astype(dtype)
    return v


class BigFrame(pd.DataFrame):
    """Claims to use a lot of memory, so that buffers are flushed"""
    _claimed = 0

    def memory_usage(self, index=True, deep=False):
        used = super().memory_usage(index=index, deep=deep)
        return pd.Series(np.full(used.size, self._claimed // used.size + 1),
                         index=used.index)


def make_frame(schema, n, seed, claimed=0, index=None):
    rng = np.random.RandomState(seed)
    data = {name: column_values(dtype, n, rng) for name, dtype in schema}
    df = pd.DataFrame(data, columns=[name for name, _ in schema], index=index)
    if claimed:
        df = BigFrame(df)
        object.__setattr__(df, "_claimed", int(claimed))
    return df


def reuse(df):
    """The caller goes on to use the frame for something else"""
    for c in df.columns:
        v = df[c].values
        other = np.roll(v[::-1], 1)
        if v.dtype.kind in "iuf" and v.size:
            other = other * 0 + v.dtype.type(7)
        if v.flags.writeable:
            v[:] = other
        df[c] = other


def same_values(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind == "f" and b.dtype.kind == "f":
        return bool(((a == b) & (np.signbit(a) == np.signbit(b)) |
                     (np.isnan(a) & np.isnan(b))).all())
    if a.dtype.kind == "O" or b.dtype.kind == "O":
        return a.tolist() == b.tolist()
    return bool((a == b).all())


def compare(ctx, what, got, expected, order=True):
    """`got` must hold exactly the rows and columns of `expected`"""
    ctx.check(isinstance(got, pd.DataFrame), f"{what}: not a DataFrame")
    ctx.check(
        list(got.columns) == list(expected.columns),
        lambda: f"{what}: columns {list(got.columns)} instead of "
                f"{list(expected.columns)}")
    ctx.check(len(got) == len(expected),
              f"{what}: {len(got)} rows instead of {len(expected)}")
    for c in expected.columns:
        e, g = expected[c], got[c]
        ctx.check(e.dtype == g.dtype,
                  lambda: f"{what}: column {c} is {g.dtype}, not {e.dtype}")
        ctx.check(same_values(g.values, e.values),
                  lambda: f"{what}: column {c} holds {g.values[:12]!r} "
                          f"instead of {e.values[:12]!r}")


def concat(frames):
    return pd.concat([pd.DataFrame(f) for f in frames], ignore_index=True)
