"""C28: a spectrum fit respects its data, limits and fixed parameters."""
import numpy as np
from hypothesis import strategies as st
from vf.core import Sub
from vf.checks.c27 import Gauss as GaussBase
from CHECLabPy.spectrum_fitters import MAPMFitter, SiPMGentileFitter
from CHECLabPy.spectrum_fitters.gentile import sipm_gentile_spe
from CHECLabPy.spectrum_fitters.mapm import mapm_spe
from CHECLabPy.stats.pdf import normal_pdf

ARGS = dict(sipm=["eped", "eped_sigma", "spe", "spe_sigma", "opct",
                  "lambda_"],
            mapm=["eped", "eped_sigma", "spe", "spe_sigma", "lambda_"],
            gauss=["mean", "std"])
FUNCS = dict(sipm=sipm_gentile_spe, mapm=mapm_spe, gauss=normal_pdf)
MULTI = dict(sipm="lambda_", mapm="lambda_", gauss="mean")


def values(kind):
    u = st.floats(0, 1)
    return dict(
        sipm=dict(eped=(-1, 1), eped_sigma=(0.25, 0.5), spe=(1.6, 2.5),
                  spe_sigma=(0.1, 0.3), opct=(0.1, 0.4), lambda_=(0.4, 1.5)),
        mapm=dict(eped=(-1, 1), eped_sigma=(0.25, 0.5), spe=(1.6, 2.5),
                  spe_sigma=(0.1, 0.3), lambda_=(0.4, 1.5)),
        gauss=dict(mean=(-3, 3), std=(0.7, 2)))[kind], u


@st.composite
def cases(draw, kinds):
    kind = draw(st.sampled_from(kinds))
    n = draw(st.sampled_from([1, 2] if kind != "gauss" else [1, 2, 3]))
    ranges, u = values(kind)
    truth = {}
    for k, (lo, hi) in ranges.items():
        vals = [lo + (hi - lo) * draw(u) for _ in range(
            n if k == MULTI[kind] else 1)]
        truth[k] = vals
    start, limits = {}, {}
    for k, (lo, hi) in ranges.items():
        width = hi - lo
        start[k] = truth[k][0] + 0.15 * width * draw(st.floats(-1, 1))
        how = draw(st.integers(0, 5))
        if how == 0:      # the truth is outside
            limits[k] = [start[k] - 0.05 * width * draw(u),
                         start[k] + 0.05 * width * draw(st.floats(0.1, 1))]
        else:
            limits[k] = [lo - width if k in ("eped", "mean") else lo * 0.3,
                         hi + width if k != "opct" else 0.8]
    range_ = draw(st.sampled_from([[-4, 12], [-5.0, 20.0], [-3.5, 10.25]]))
    n_charges = draw(st.integers(300, 3000))
    if kind == "gauss":
        # in other units, and with many entries
        unit = draw(st.sampled_from([1, 1, 1, 1 / 64, 64, 4096]))
        range_ = [x * unit for x in range_]
        truth = {k: [x * unit for x in v] for k, v in truth.items()}
        start = {k: v * unit for k, v in start.items()}
        limits = {k: [x * unit for x in v] for k, v in limits.items()}
        n_charges *= draw(st.sampled_from([1, 1, 1, 1, 50, 500]))
    # the installed iminuit crashes when there is nothing to fit
    fixed = draw(st.lists(st.sampled_from(sorted(ranges)), unique=True,
                          max_size=min(3, len(ranges) - 1)))
    for k in fixed:
        if draw(st.booleans()):
            # fixed at one of its limits
            limits[k][draw(st.integers(0, 1))] = start[k]
    return dict(
        kind=kind, n=n, truth=truth, start=start, limits=limits,
        fixed=fixed, n_bins=draw(st.sampled_from([40, 64, 100])),
        range=range_, n_charges=n_charges,
        dtype=draw(st.sampled_from(["float64", "float32"])),
        ends=draw(st.booleans()), odd=draw(st.booleans()),
        seed=draw(st.integers(0, 2 ** 16)),
        relation=draw(st.sampled_from(["order", "again", "swap"])))


def away_from_edges(c, edges):
    """Charges so close to an edge that their bin is a matter of rounding"""
    edges = edges[1:-1]
    at = np.clip(np.searchsorted(edges, c), 1, len(edges) - 1)
    gap = np.minimum(np.abs(c - edges[at - 1]), np.abs(c - edges[at]))
    return gap > 1e-5 * (edges[1] - edges[0] + np.abs(c))


def make_charges(case, rng):
    kind = case["kind"]
    lo, hi = case["range"]
    edges = np.linspace(lo, hi, case["n_bins"] + 1)
    out = []
    for i in range(case["n"]):
        t = {k: v[i if len(v) > 1 else 0] for k, v in case["truth"].items()}
        m = case["n_charges"] + 37 * i
        if kind == "gauss":
            c = rng.normal(t["mean"], t["std"], m)
        else:
            fired = rng.poisson(t["lambda_"], m)
            if kind == "sipm":
                fired = fired + rng.negative_binomial(
                    np.maximum(fired, 1), 1 - t["opct"]) * (fired > 0)
            c = t["eped"] + fired * t["spe"] + rng.normal(
                0, np.sqrt(t["eped_sigma"] ** 2 + fired *
                           t["spe_sigma"] ** 2))
        if case["odd"]:
            c[:5] = [np.nan, lo * 1.1, hi * 1.1, 1e9, -1e9]
        if case["ends"]:
            c[5:9] = [lo, hi, hi, lo]
        c = c.astype(case["dtype"])
        with np.errstate(invalid="ignore"):
            keep = away_from_edges(c.astype(float), edges) | np.isnan(c)
        out.append(c[keep])
    return out, edges


def create(case):
    kind, n = case["kind"], case["n"]
    f = dict(gauss=GaussBase, sipm=SiPMGentileFitter, mapm=MAPMFitter)[
        kind](n)
    for p in f.parameters:
        p.initial = case["start"][p.name]
        p.limits = tuple(case["limits"][p.name])
        p.fixed = p.name in case["fixed"]
    f.parameters.update(f.parameters)
    f.n_bins, f.range = case["n_bins"], tuple(case["range"])
    return f


def entries(case):
    """Names of the fitted values, with their parameter and illumination"""
    kind, n = case["kind"], case["n"]
    out = []
    for k in ARGS[kind]:
        if k == MULTI[kind]:
            out += [(f"{k}{i}", k, i) for i in range(n)]
        else:
            out.append((k, k, None))
    return out


def model(case, x, result, i):
    args = [result[f"{k}{i}" if k == MULTI[case["kind"]] else k]
            for k in ARGS[case["kind"]]]
    return np.asarray(FUNCS[case["kind"]](x, *args), float)


def badness(case, f, values_):
    """-2 log likelihood as the fitter is meant to have it"""
    from scipy import special
    x, ys, _ = f.charge_histogram
    total = 0.0
    for i in range(case["n"]):
        y = np.asarray(ys[i], float)
        s = model(case, x, values_, i)
        if case["kind"] == "gauss":
            total += ((y / y.sum() - s / s.sum()) ** 2).sum() * 1e4
            continue
        s = s * np.trapz(y, x) / np.trapz(s, x)
        total += -2 * (special.xlogy(y, s) - special.gammaln(y + 1) - s).sum()
    return total


def inside(x, a, b):
    """Within the limits, and not so close that they are in the way"""
    return a + 0.1 * (b - a) < x < b - 0.1 * (b - a)


def fit(ctx, f, charges):
    ctx.call("apply", f.apply, *charges)
    return dict(f.fit_result_values)


def check(ctx, case):
    rng = np.random.RandomState(case["seed"])
    charges, edges = make_charges(case, rng)
    before = [c.copy() for c in charges]
    f = create(case)
    result = fit(ctx, f, charges)
    ctx.check(all(np.array_equal(a, b, equal_nan=True)
                  for a, b in zip(charges, before)), "the charges changed")
    names = entries(case)
    ctx.check(list(result) == [e[0] for e in names],
              lambda: f"results {list(result)}")
    ctx.check(list(dict(f.fit_result_errors)) == list(result),
              "names of the errors")
    # the histogram
    x, ys, got_edges = f.charge_histogram
    centres = (edges[1:] + edges[:-1]) / 2
    ctx.check(np.allclose(got_edges, edges, rtol=1e-6, atol=1e-6) and
              np.allclose(x, centres, rtol=1e-6, atol=1e-6),
              "bins of the histogram")
    ctx.check(len(ys) == case["n"], "number of histograms")
    lo, hi = case["range"]
    for i, c in enumerate(charges):
        c = c.astype(float)
        c = c[(c >= lo) & (c <= hi)]
        at = np.clip(np.searchsorted(edges, c, "right") - 1, 0,
                     case["n_bins"] - 1)
        want = np.bincount(at, minlength=case["n_bins"])
        ctx.check(np.array_equal(ys[i], want), lambda: (
            f"histogram {i} has {np.sum(ys[i])} entries: {ys[i][:6]}, not "
            f"{want.sum()}: {want[:6]}"))
    # limits and fixed values
    free = 0
    for entry, name, i in names:
        v = result[entry]
        a, b = case["limits"][name]
        ctx.check(a - 1e-9 <= v <= b + 1e-9, lambda: (
            f"{entry}={v} outside of its limits {a} to {b}"))
        if name in case["fixed"]:
            ctx.check(v == case["start"][name], lambda: (
                f"{entry}={v} though fixed to {case['start'][name]}"))
        else:
            free += 1
    for p in f.parameters:
        ctx.check(p.initial == case["start"][p.name] and p.limits == tuple(
            case["limits"][p.name]) and p.fixed == (
                p.name in case["fixed"]), f"the fit changed {p.name}")
    # the fit is no worse than its start, nor than the truth
    start = {e: case["start"][n] for e, n, _ in names}
    b0, b1 = badness(case, f, start), badness(case, f, result)
    tol = 1e-5 * abs(b0) + 0.1
    ctx.check(not b1 > b0 + tol, lambda: (
        f"the fit ({b1}) is worse than its start ({b0})"))
    truth = {e: case["truth"][n][i or 0] for e, n, i in names}
    # a start far from it can end in another minimum
    near = case["kind"] != "gauss" or all(
        abs(m - case["start"]["mean"]) < 0.8 * case["truth"]["std"][0]
        for m in case["truth"]["mean"])
    if near and all(
            inside(truth[e], *case["limits"][n]) and
            n not in case["fixed"] for e, n, _ in names):
        b2 = badness(case, f, truth)
        ctx.check(not b1 > b2 + 1e-5 * abs(b2) + 1, lambda: (
            f"the fit ({b1}) is worse than the truth ({b2}): {result}"))
        ctx.note("all free")
    # the curves
    fx, fy = ctx.call("fit_result_curve", lambda: f.fit_result_curve)
    want_x = np.linspace(lo, hi, case["n_bins"] * 10)
    ctx.check(np.shape(fx) == want_x.shape and np.allclose(
        fx, want_x, rtol=1e-6, atol=1e-6), "x of the curve")
    ctx.check(len(fy) == case["n"], "number of curves")
    for i in range(case["n"]):
        s = model(case, fx, result, i)
        s = s * np.trapz(ys[i], x) / np.trapz(s, fx)
        ctx.check(np.allclose(fy[i], s, rtol=1e-5, atol=1e-9 * s.max()),
                  lambda: f"curve {i} is not the model at the fit result")
    # the result as the start of other fits
    other, use = create(case), case["seed"] % case["n"]
    other.apply(*charges)
    ctx.call("update_initial", other.update_initial, *[use] if use else [])
    for p in other.parameters:
        w = result[f"{p.name}{use}" if p.multi else p.name]
        ctx.check(p.initial == w, lambda: (
            f"update_initial({use}) makes {p.name} {p.initial}, not {w}"))
        ctx.check(p.limits == tuple(case["limits"][p.name]) and
                  p.fixed == (p.name in case["fixed"]),
                  f"update_initial changed the limits of {p.name}")
    # again
    if case["relation"] == "order":
        other = [rng.permutation(c) for c in charges]
        ctx.check(fit(ctx, create(case), other) == result,
                  "the result depends on the order of the charges")
    elif case["relation"] == "again":
        halves = [c[::2] * 1.1 for c in charges]
        with np.errstate(invalid="ignore"):
            halves = [c[away_from_edges(c.astype(float), edges) |
                        np.isnan(c)] for c in halves]
        second = fit(ctx, f, halves)
        fresh = create(case)
        want = fit(ctx, fresh, halves)
        ctx.check(second == want, lambda: (
            f"a second fit gives {second}, a new fitter {want}"))
        ctx.check(all(np.array_equal(a, b) for a, b in zip(
            fresh.charge_histogram[1], f.charge_histogram[1])),
            "the histogram of a second fit is not that of its charges")
        again = fit(ctx, f, charges)
        ctx.check(again == result, lambda: (
            f"fitted after other charges: {again}, not {result}"))
        ctx.check(all(np.array_equal(a, b) for a, b in zip(
            ys, f.charge_histogram[1])), "the histogram differs when redone")
    elif case["n"] > 1 and near:
        other = fit(ctx, create(case), charges[::-1])
        errors = dict(f.fit_result_errors)
        b = badness(case, f, {
            e: other[e if i is None else f"{n}{case['n'] - 1 - i}"]
            for e, n, i in names})
        ctx.check(abs(b - b1) <= 1e-3 * abs(b1) + 1 or any(
            k in case["fixed"] for k in case["start"]), lambda: (
            f"with the illuminations swapped {other}, not {result} "
            f"(errors {errors}): {b} and {b1}"))
    ctx.raises("one set of charges too few", (AssertionError, ValueError,
                                              TypeError),
               create(case).apply, *charges[1:])
    ctx.raises("one set of charges too many", (
        AssertionError, ValueError, TypeError),
               create(case).apply, *charges, charges[0])
    if free:
        ctx.note("free parameters")


SHAPES = dict(sipm=["eped", "eped_sigma", "spe", "spe_sigma"],
              mapm=["eped", "eped_sigma", "spe", "spe_sigma"],
              gauss=["mean", "std"])


@st.composite
def single_cases(draw):
    case = draw(cases(["gauss", "sipm", "mapm"]))
    kind = case["kind"]
    n = case["n"] = draw(st.integers(1, 5))
    ranges, u = values(kind)
    # in the plain unit
    unit = max(x for x in (1, 1 / 64, 64, 4096)
               if case["range"][1] / x in (12, 20, 10.25))
    case["truth"] = {k: [x / unit for x in v]
                     for k, v in case["truth"].items()}
    lo, hi = ranges[MULTI[kind]]
    first = case["truth"][MULTI[kind]][0]
    case["truth"][MULTI[kind]] = [first] + [
        first + 0.3 * (hi - lo) * draw(u) for _ in range(n - 1)]
    free = draw(st.sampled_from(SHAPES[kind]))
    case["fixed"] = [k for k in sorted(ranges) if k != free]
    for k, (lo, hi) in ranges.items():
        case["start"][k] = case["truth"][k][0]
        case["limits"][k] = [min(lo - 2 * (hi - lo), -1) if k in (
            "eped", "mean") else lo * 0.1, 0.9 if k == "opct" else 3 * hi + 1]
    lo, hi = ranges[free]
    case["start"][free] += 0.12 * (hi - lo) * draw(st.floats(-1, 1))
    case["range"] = [-4, 12]
    case["n_charges"] = draw(st.integers(500, 3000))
    return dict(case, free=free)


def check_single(ctx, case):
    """A single free parameter: the best value, and the error of it"""
    rng = np.random.RandomState(case["seed"])
    charges, edges = make_charges(case, rng)
    f = create(case)
    result = fit(ctx, f, charges)
    errors = dict(f.fit_result_errors)
    best = badness(case, f, result)
    for entry, name, i in entries(case):
        if name != case["free"]:
            continue
        v, e = result[entry], errors[entry]
        a, b = case["limits"][name]
        ctx.check(np.isfinite(v) and np.isfinite(e) and e > 0,
                  lambda: f"{entry} = {v} with the error {e}")
        if not a + 10 * e < v < b - 10 * e:
            continue
        up = badness(case, f, dict(result, **{entry: v + e})) - best
        down = badness(case, f, dict(result, **{entry: v - e})) - best
        if up > 10 or down > 10:
            # far from a parabola, or from the minimum
            half = badness(case, f, dict(result, **{entry: v + e / 4})) - best
            if not 0.2 < 16 * half / max(up, 1e-9) < 5:
                continue
        ctx.check(0.65 < (up + down) / 2 < 1.6 and abs(up - down) < 1.2,
                  lambda: (f"{entry} = {v} with the error {e}: one error "
                           f"further the agreement is worse by {up}, one "
                           f"error less by {down}"))
        ctx.note("best value and its error")
        if case["n"] > 3:
            ctx.note("many illuminations")


SUBS = [
    Sub("single", single_cases, check_single, quick=60,
        rule="the error lies well within the limits of the parameter"),
    Sub("gauss", lambda: cases(["gauss"]), check, quick=80,
        rule="parameters are free in the fit"),
    Sub("spe", lambda: cases(["sipm", "mapm"]), check, quick=60,
        rule="parameters are free in the fit"),
]
