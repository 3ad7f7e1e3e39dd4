"""C26: the SiPM / MAPM spectrum models are the distributions they claim."""
import math
import numpy as np
from hypothesis import strategies as st
from scipy import special
from vf.core import Sub
from CHECLabPy.spectrum_fitters.gentile import (
    SiPMGentileFitter, sipm_gentile_spe)
from CHECLabPy.spectrum_fitters.mapm import MAPMFitter, mapm_spe

KMAX = 250     # further photo-electrons are negligible
CUT = 1e-4     # contributions below may be left out


def poisson_p(lam):
    k = np.arange(KMAX + 1)
    if lam == 0:
        return (k == 0).astype(float)
    return np.exp(k * math.log(lam) - lam - special.gammaln(k + 1))


def fired(lam, opct):
    """
    Probability of k cells fired by k or fewer initial photo-electrons, each
    of which fires a geometric number of further cells; and the part of it
    that may be left out
    """
    p = poisson_p(lam)
    if opct == 0:
        omit = np.where(p < 1.01 * CUT, p, 0)
        omit[0] = 0
        return p, omit
    out = np.zeros(KMAX + 1)
    omit = np.zeros(KMAX + 1)
    out[0] = p[0]
    k = np.arange(1, KMAX + 1)
    for j in range(1, KMAX + 1):
        kk = k[j - 1:]
        w = p[j] * np.exp(j * math.log1p(-opct) + (kk - j) * math.log(opct)
                          + special.gammaln(kk) - special.gammaln(j)
                          - special.gammaln(kk - j + 1))
        out[j:] += w
        if p[j] < 1.01 * CUT:
            omit[j:] += w
    # once past the most probable number and small, all of it
    kept = out - omit
    most = np.concatenate([[0, 0], np.maximum.accumulate(kept[1:])[:-1]])
    end = (kept < 1.01 * CUT) & (kept <= most * (1 + 1e-9))
    end[0] = False
    if not kept[1:].any():
        end[1:] = True
    else:    # nothing ends the sum before its first term
        end[:np.flatnonzero(kept[1:])[0] + 1] = False
    end[100:] = True
    small = np.logical_or.accumulate(end)
    return out, np.where(small, out, omit)


def model(x, par, opct=None):
    """The spectrum and by how much the code may fall below it"""
    p, omit = fired(par["lambda_"], opct or 0)
    x = np.asarray(x, float)[:, None]
    k = np.nonzero(p > 1e-25)[0]
    s = np.sqrt(k * par["spe_sigma"] ** 2 + par["eped_sigma"] ** 2)
    pdf = np.exp(-0.5 * ((x - par["eped"] - k * par["spe"]) / s) ** 2) / (
        math.sqrt(2 * math.pi) * s)
    return pdf @ p[k], pdf @ omit[k], p, omit


POSITIVE = dict(
    eped_sigma=st.one_of(st.floats(0.05, 20), st.floats(0.5, 10)),
    spe=st.one_of(st.floats(0.1, 40), st.just(25.0)),
    spe_sigma=st.one_of(st.just(0.0), st.floats(0.01, 20)))
LAMBDA = st.one_of(st.floats(0.0, 6.0), st.floats(0.3, 2.0),
                   st.floats(6.0, 30.0), st.floats(11.5, 25.0),
                   st.sampled_from([0.0, 1e-5, 1e-3, 6.0]))


@st.composite
def cases(draw):
    return dict(
        eped=draw(st.floats(-10, 10)),
        **{k: draw(v) for k, v in POSITIVE.items()},
        opct=draw(st.one_of(st.floats(0.0, 0.7), st.sampled_from(
            [0.0, 1e-6, 0.4, 0.5]))),
        lambda_=draw(LAMBDA), sipm=draw(st.booleans()),
        points=draw(st.lists(st.floats(-1.5, 12), min_size=1, max_size=6)))


def evaluate(ctx, par, x, sipm):
    args = [par[k] for k in ("eped", "eped_sigma", "spe", "spe_sigma")]
    if sipm:
        args.append(par["opct"])
    return np.asarray(ctx.call(
        "spectrum", sipm_gentile_spe if sipm else mapm_spe, x, *args,
        par["lambda_"]))


def check_model(ctx, case):
    par, sipm = case, case["sipm"]
    opct = par["opct"] if sipm else 0
    x = np.concatenate([
        par["eped"] + np.array(case["points"]) * par["spe"],
        par["eped"] + np.arange(8) * par["spe"]]).astype(np.float32)
    before = x.copy()
    got = evaluate(ctx, par, x, sipm)
    ctx.check(np.array_equal(x, before), "x was changed")
    ctx.check(got.shape == x.shape, f"shape {got.shape}")
    want, omit, p, po = model(x, par, opct)
    tol = 1e-10 * want + 1e-15
    s0 = par["eped_sigma"]
    for g, w, o, t, xx in zip(got, want, omit, tol, x):
        ctx.check(g >= 0 and w - o - t <= g <= w + t, lambda: (
            f"{'SiPM' if sipm else 'MAPM'} spectrum at {xx} is {g!r}, not "
            f"{w!r} (up to {o!r} less)"))
    # moving and stretching
    shifted = dict(par, eped=par["eped"] + 64.0)
    moved = evaluate(ctx, shifted, x + np.float32(64), sipm)
    scale = np.abs(x) + 64
    slope = (scale * 1.3e-7 * 8 / s0) * (want.max() + 1 / s0)
    ctx.check((np.abs(moved - got) <= slope + tol).all(),
              "the spectrum does not move with the pedestal")
    double = {k: par[k] * (2 if k in ("eped", "eped_sigma", "spe",
                                      "spe_sigma") else 1) for k in (
        "eped", "eped_sigma", "spe", "spe_sigma", "opct", "lambda_")}
    ctx.check(np.allclose(evaluate(ctx, double, 2 * x, sipm) * 2, got,
                          rtol=1e-9, atol=1e-15),
              "the spectrum does not scale with the unit of charge")
    if sipm and opct == 0:
        ctx.check((np.abs(got - evaluate(ctx, par, x, False)) <=
                   omit + tol).all(), "without crosstalk it is another model")
    if par["lambda_"] > 0.01 and (want > 1e-6).any():
        ctx.note("photo-electrons")


@st.composite
def total_cases(draw):
    c = draw(cases())
    c["spe_sigma"] = min(c["spe_sigma"], c["spe"])
    return c


def check_totals(ctx, case):
    par, sipm = case, case["sipm"]
    opct = par["opct"] if sipm else 0
    p, omit = fired(par["lambda_"], opct)
    top = int(np.nonzero(p > 1e-9)[0][-1]) + 1
    step = par["eped_sigma"] / 4
    lo = par["eped"] - 9 * math.sqrt(
        par["eped_sigma"] ** 2 + top * par["spe_sigma"] ** 2)
    hi = par["eped"] + top * par["spe"] + 9 * math.sqrt(
        par["eped_sigma"] ** 2 + top * par["spe_sigma"] ** 2)
    n = int((hi - lo) / step) + 2
    if n > 60000:
        return
    x = np.linspace(lo, hi, n).astype(np.float32)
    y = evaluate(ctx, par, x, sipm)
    xd = x.astype(float)
    total = np.trapz(y, xd)
    missing = omit.sum()
    err = 1e-4 + 1e-6 * np.abs(xd).max() / step * 1e-1
    ctx.check((y >= 0).all() and 1 - missing - err <= total <= 1 + err,
              lambda: f"integral {total!r} (may miss {missing!r})")
    mean = np.trapz(y * xd, xd)
    factor = 1 / (1 - opct)
    want = par["eped"] + par["spe"] * par["lambda_"] * factor
    k = np.arange(KMAX + 1)
    # what is left out reduces the mean
    slack = (omit * np.abs(par["eped"] + k * par["spe"])).sum()
    ctx.check(abs(mean - want) <= slack + err * (np.abs(xd).max() + 1),
              lambda: f"mean {mean!r} instead of {want!r} (slack {slack!r})")
    if par["lambda_"] > 0.01:
        ctx.note("photo-electrons")


# ------------------------------------------------------------ as used in fits
NAMES = ["eped", "eped_sigma", "spe", "spe_sigma", "opct", "lambda_"]


@st.composite
def fitter_cases(draw):
    n = draw(st.sampled_from([1, 2, 3]))
    sipm = draw(st.booleans())
    multi = draw(st.sampled_from([["lambda_"], ["lambda_", "eped"],
                                  ["lambda_"]]))
    base = draw(cases())
    values = {}
    for name in NAMES:
        if name == "opct" and not sipm:
            continue
        if name in multi:
            values[name] = [draw(LAMBDA if name == "lambda_" else
                                 st.floats(-10, 10)) for _ in range(n)]
        else:
            values[name] = [base[name]] * n
    return dict(n=n, sipm=sipm, multi=multi, values=values,
                bins=draw(st.integers(20, 120)),
                counts=draw(st.integers(0, 2 ** 16)),
                top=draw(st.floats(20, 300)))


def check_fitter(ctx, case):
    n, sipm = case["n"], case["sipm"]
    f = (SiPMGentileFitter if sipm else MAPMFitter)(n)
    for name in case["multi"]:
        getattr(f.parameters, name).multi = True
    f.parameters.update(f.parameters)
    order, seen = [], []
    for p in f.parameters:
        v = case["values"][p.name]
        order += list(v) if p.multi else [v[0]]
        seen.append(p.name)
    ctx.check(seen == [k for k in NAMES if k in case["values"]],
              f"parameters {seen}")
    x = np.linspace(-30, case["top"], case["bins"]).astype(np.float32)
    spectra = ctx.call("spectra", f._get_spectra, n, x,
                       f.parameters.lookup_typed, *order)
    ctx.check(len(spectra) == n, f"{len(spectra)} spectra")
    rng = np.random.RandomState(case["counts"])
    y = [rng.poisson(rng.uniform(0.1, 50), x.size).astype(np.float32)
         for _ in range(n)]
    from numba import typed
    ty = typed.List()
    want_l = 0.0
    scale = 0.0
    usable = True
    for i in range(n):
        par = {k: v[i] for k, v in case["values"].items()}
        one = evaluate(ctx, par, x, sipm)
        ctx.check(np.allclose(spectra[i], one, rtol=1e-9, atol=1e-300),
                  f"the spectrum of illumination {i} is not that of its "
                  "parameters")
        ty.append(y[i])
        area = np.trapz(one, x)
        if area < 1e-30 or (one < 1e-200).any():
            usable = False
            continue
        mu = one * np.trapz(y[i], x) / area
        term = special.xlogy(y[i].astype(float), mu) - special.gammaln(
            y[i].astype(float) + 1) - mu
        want_l += -2 * term.sum()
        scale += np.abs(term).sum() + mu.sum() + np.abs(
            special.gammaln(y[i] + 1.)).sum()
    if usable:
        got = ctx.call("likelihood", f._get_likelihood, n, x, ty,
                       f.parameters.lookup_typed, *order)
        ctx.check(abs(got - want_l) <= 1e-5 * scale + 1e-6, lambda: (
            f"likelihood {got!r}, not {want_l!r}"))
        ctx.note("likelihood")


SUBS = [
    Sub("model", cases, check_model, quick=800,
        rule="a visible share of photo-electrons is expected"),
    Sub("totals", total_cases, check_totals, quick=300,
        rule="photo-electrons are expected"),
    Sub("fitter", fitter_cases, check_fitter, quick=250,
        rule="the likelihood of all illuminations is compared"),
]
