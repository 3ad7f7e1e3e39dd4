"""C33: row and column numbers follow the pixel positions."""
import numpy as np
from hypothesis import strategies as st
from vf import camera
from vf.core import Sub
from vf.checks.c32 import layouts
from CHECLabPy.utils.mapping import get_row_column

ASSUMPTIONS = [
    "the first pixel has a neighbour at the smallest pitch, next to it or "
    "diagonal, and deviations from the grid stay below 0.1 pitches (0.02 for "
    "diagonal neighbours)"]


@st.composite
def cases(draw):
    return dict(layout=draw(layouts(most=12)), grid=None,
                noise=draw(st.sampled_from([0, 0, 1e-12, 1e-3, 0.1])),
                order=draw(st.booleans()),
                seed=draw(st.integers(0, 2 ** 16)))


@st.composite
def grid_cases(draw):
    """Any grid: uneven steps, other pitch in x and y, missing pixels"""
    c = draw(cases())
    ny, nx = draw(st.integers(1, 12)), draw(st.integers(1, 12))
    long = draw(st.sampled_from([None] * 8 + ["x", "y"]))
    if long == "x":
        ny, nx = min(ny, 3), draw(st.integers(100, 300))
    elif long == "y":
        ny, nx = draw(st.integers(100, 300)), min(nx, 3)
    if nx == ny == 1:
        nx = 2
    c["grid"] = dict(
        ny=ny, nx=nx, missing=draw(st.sampled_from([0, 0.2, 0.6])),
        gaps=draw(st.booleans()), pitch=draw(st.sampled_from(
            [[1.0, 1.0], [0.006, 0.006], [2.0, 1.5], [1.0, 1.3],
             [1e-4, 1e-4], [500.0, 500.0]])),
        diagonal=draw(st.sampled_from([False, False, True])),
        x0=draw(st.sampled_from([0.0, 5.5, -100.0])),
        y0=draw(st.sampled_from([0.0, -0.25, 77.0])))
    return c


def positions(case, rng):
    g = case["grid"]
    if g is None:
        c = camera.build_layout(**case["layout"])["columns"]
        return (np.array(c["xpix"]), np.array(c["ypix"]),
                case["layout"]["pitch"])
    px, py = g["pitch"]
    size = max(12, g["nx"], g["ny"])
    extra = rng.uniform(0, 3, (2, size)) * (rng.rand(2, size) < 0.3)
    if not g["gaps"]:
        extra[:] = 0
    xs = np.cumsum(px * (1 + extra[0][:g["nx"]])) + g["x0"]
    ys = np.cumsum(py * (1 + extra[1][:g["ny"]])) + g["y0"]
    x, y = [a.ravel() for a in np.meshgrid(xs, ys)]
    keep = rng.rand(x.size) >= g["missing"]
    keep[:2] = True
    if keep.sum() < 2:
        keep[:] = True
    x, y = x[keep], y[keep]
    if g["diagonal"] and px == py:
        # a pixel that keeps its diagonal neighbours only
        near = lambda a, i: np.abs(a - a[i]) < 1.1 * px
        for i in rng.permutation(x.size):
            side = near(x, i) & near(y, i) & ((x == x[i]) != (y == y[i]))
            corner = near(x, i) & near(y, i) & (x != x[i]) & (y != y[i])
            if corner.any():
                x, y = x[~side], y[~side]
                j = i - side[:i].sum()
                order = np.append(j, np.delete(np.arange(x.size), j))
                x, y = x[order], y[order]
                d0 = np.hypot(x - x[0], y - y[0])[1:].min()
                smallest = min(np.diff(np.unique(v)).min() for v in (x, y)
                               if np.unique(v).size > 1)
                return x, y, (d0, smallest)
    # the first pixel has a neighbour at the smallest pitch
    d = np.hypot(x[:, None] - x, y[:, None] - y)
    np.fill_diagonal(d, np.inf)
    first = int(np.argmin(d.min(1)))
    order = np.append(first, np.delete(np.arange(x.size), first))
    smallest = min(np.diff(np.unique(v)).min() for v in (x, y)
                   if np.unique(v).size > 1)
    return x[order], y[order], (d.min(), smallest)


def ranks(v, tol):
    """Number the distinct values in ascending order"""
    distinct = []
    for a in sorted(v):
        if not distinct or a - distinct[-1][-1] > tol:
            distinct.append([a])
        else:
            distinct[-1].append(a)
    number = {a: i for i, group in enumerate(distinct) for a in group}
    return np.array([number[a] for a in v])


def check(ctx, case):
    rng = np.random.RandomState(case["seed"])
    x, y, pitch = positions(case, rng)
    if case["grid"] is None:
        step = pitch
        order = rng.permutation(x.size) if case["order"] else np.arange(
            x.size)
    else:
        near, step = pitch
        if step < 0.7 * near:
            # no neighbouring pixels left: the pitch cannot be told
            ctx.note("pitch unknown", False)
            return
        order = np.append(0, 1 + rng.permutation(x.size - 1))
        if near > 1.2 * step and case["noise"] > 0.02:
            case = dict(case, noise=0.02)
        if near > 1.2 * step:
            ctx.note("diagonal neighbour", False)
    x, y = x[order], y[order]
    row, col = ranks(y, step / 10), ranks(x, step / 10)
    if case["noise"]:
        x = x + rng.uniform(-1, 1, x.size) * case["noise"] * step
        y = y + rng.uniform(-1, 1, x.size) * case["noise"] * step
    x0, y0 = x.copy(), y.copy()
    got_r, got_c = ctx.call("get_row_column", get_row_column, x, y)
    ctx.check(np.array_equal(x, x0) and np.array_equal(y, y0),
              "positions changed")
    for name, g, w in (("row", got_r, row), ("column", got_c, col)):
        ctx.check(np.shape(g) == w.shape and np.asarray(g).dtype.kind in "iu",
                  f"{name}: {np.shape(g)} {np.asarray(g).dtype}")
        bad = np.asarray(g) != w
        ctx.check(not bad.any(), lambda: (
            f"{name} of the pixel at {x[bad][0]}, {y[bad][0]} is "
            f"{g[bad][0]}, not {w[bad][0]}"))
    if row.max() > 0 and col.max() > 0:
        ctx.note("square" if row.max() == col.max() else "not square")


SUBS = [
    Sub("camera", cases, check, quick=400,
        rule="several rows and columns"),
    Sub("grid", grid_cases, check, quick=1000,
        rule="several rows and columns, with neighbouring pixels"),
]
