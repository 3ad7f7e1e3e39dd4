"""C27: spectrum fitter parameters are book-kept consistently."""
import copy
import contextlib
import io
import numpy as np
import yaml
from hypothesis import strategies as st
from vf.core import Sub
from CHECLabPy.core.spectrum_fitter import (
    SpectrumFitter, SpectrumParameter, SpectrumParameterCollection)
from CHECLabPy.spectrum_fitters import MAPMFitter, SiPMGentileFitter
from CHECLabPy.stats.pdf import normal_pdf

VALUE = st.one_of(st.floats(-1e6, 1e6), st.integers(-1000, 1000),
                  st.sampled_from([0, 0.1, 1e-9, 1e30, -2.5e-7, 1 / 3]))
LIMITS = st.tuples(VALUE | st.none(), VALUE | st.none())
ATTRS = ["initial", "limits", "fixed", "multi"]
NAMES = st.lists(st.sampled_from(
    ["mean", "std", "eped", "spe_", "lambda_", "a", "b2_", "x1_"]),
    min_size=1, max_size=5, unique=True)


@st.composite
def parameters(draw, names=None):
    names = names or draw(NAMES)
    return [dict(name=n, initial=draw(VALUE), limits=draw(LIMITS),
                 fixed=draw(st.booleans()), multi=draw(st.booleans()))
            for n in names]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["own", "own", "sipm", "mapm"]))
    own = draw(parameters())
    names = [p["name"] for p in own]
    if kind != "own":
        names = ["eped", "eped_sigma", "spe", "spe_sigma"] + (
            ["opct"] if kind == "sipm" else []) + ["lambda_"]
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        op = draw(st.sampled_from(["edit", "update", "settings", "saveload",
                                   "partial", "empty", "other"]))
        some = draw(st.lists(st.sampled_from(names), min_size=1, max_size=len(
            names), unique=True))
        if op in ("edit", "update"):
            ops.append((op, draw(parameters(some))))
        elif op == "settings":
            ops.append((op, draw(st.integers(1, 10 ** 9)), (
                draw(VALUE), draw(VALUE))))
        elif op == "partial":
            sections = {}
            for sec in draw(st.lists(st.sampled_from(
                    ["n_bins", "range", "initial", "limits", "fixed"]),
                    unique=True, min_size=1)):
                if sec == "n_bins":
                    sections[sec] = draw(st.integers(1, 500))
                elif sec == "range":
                    sections[sec] = [draw(VALUE), draw(VALUE)]
                else:
                    which = draw(st.lists(st.sampled_from(
                        names + ["unknown"]), unique=True, max_size=4))
                    sections[sec] = {w: (
                        draw(VALUE) if sec == "initial" else
                        list(draw(LIMITS)) if sec == "limits" else
                        draw(st.booleans())) for w in which}
            ops.append((op, sections))
        elif op == "other":
            ops.append((op, draw(parameters(some))))
        else:
            ops.append((op,))
    return dict(kind=kind, own=own, n=draw(st.sampled_from(
        [1, 1, 2, 3, 11])), ops=ops)


def own_fitter(own):
    class Own(SpectrumFitter):
        def __init__(self, n):
            super().__init__(n)
            self.parameters = SpectrumParameterCollection(
                [SpectrumParameter(p["name"], p["initial"], p["limits"],
                                   fixed=p["fixed"], multi=p["multi"])
                 for p in own], n)
    return Own


def expected(model, n):
    names, kwargs = [], {}
    lookup = [dict() for _ in range(n)]
    for p in model:
        entries = [p["name"] + str(i) for i in range(n)] if p["multi"] else [
            p["name"]]
        for i in range(n):
            lookup[i][p["name"]] = len(names) + (i if p["multi"] else 0)
        for e in entries:
            names.append(e)
            kwargs[e] = p["initial"]
            kwargs["limit_" + e] = p["limits"]
            kwargs["fix_" + e] = p["fixed"]
    return names, kwargs, lookup


def compare(ctx, fitter, model, n, what):
    c = fitter.parameters
    ctx.check(len(c) == len(model) and [p.name for p in c] == [
        p["name"] for p in model], f"{what}: parameters {[p.name for p in c]}")
    for p, m in zip(c, model):
        ctx.check(getattr(c, m["name"]) is p,
                  f"{what}: two objects for {m['name']}")
        for a in ATTRS:
            got = getattr(p, a)
            ctx.check(got == m[a] and type(got) is type(m[a]), lambda: (
                f"{what}: {a} of {m['name']} is {got!r}, not {m[a]!r}"))
    names, kwargs, lookup = expected(model, n)
    ctx.check(c.parameter_names == names, lambda: (
        f"{what}: names {c.parameter_names}, not {names}"))
    ctx.check(c.minuit_kwargs == kwargs, lambda: (
        f"{what}: passed to the fit {c.minuit_kwargs}, not {kwargs}"))
    ctx.check(list(map(dict, c.lookup)) == lookup, lambda: (
        f"{what}: lookup {c.lookup}, not {lookup}"))


def compare_typed(ctx, fitter, model, n, what):
    _, _, lookup = expected(model, n)
    typed = fitter.parameters.lookup_typed
    ctx.check([dict(t) for t in typed] == lookup,
              lambda: f"{what}: typed lookup {typed}, not {lookup}")


def create(ctx, case):
    if case["kind"] == "own":
        cls = own_fitter(case["own"])
    else:
        cls = SiPMGentileFitter if case["kind"] == "sipm" else MAPMFitter
    return cls, ctx.call("fitter", cls, case["n"])


def check(ctx, case):
    n = case["n"]
    cls, fitter = create(ctx, case)
    if case["kind"] == "own":
        model = copy.deepcopy(case["own"])
    else:
        model = [{a: getattr(p, a) for a in ["name"] + ATTRS}
                 for p in fitter.parameters]
        ctx.check([m["name"] for m in model if m["multi"]] == ["lambda_"],
                  "illumination-dependent parameters")
    fresh = copy.deepcopy(model)
    settings = [fitter.n_bins, fitter.range]
    first = list(settings)
    compare(ctx, fitter, model, n, "new")
    compare_typed(ctx, fitter, model, n, "new")
    by_name = {m["name"]: m for m in model}
    for i, op in enumerate(case["ops"]):
        what = f"after operation {i} ({op[0]})"
        if op[0] == "edit":
            # attributes are edited in place and the collection told
            for p in op[1]:
                target = getattr(fitter.parameters, p["name"])
                for a in ATTRS:
                    setattr(target, a, p[a])
                by_name[p["name"]].update(p)
            ctx.call("update", fitter.parameters.update, fitter.parameters)
            ctx.note("edited")
        elif op[0] == "update":
            given = [SpectrumParameter(p["name"], p["initial"], p["limits"],
                                       p["fixed"], p["multi"]) for p in op[1]]
            ctx.call("update", fitter.parameters.update, given)
            for p in op[1]:
                by_name[p["name"]].update(p)
            # not tied to the objects given
            compare(ctx, fitter, model, n, what)
            for g in given:
                g.initial, g.limits, g.fixed = -7, (-8, -6), not g.fixed
            ctx.note("updated")
        elif op[0] == "settings":
            fitter.n_bins, fitter.range = op[1], op[2]
            settings = [op[1], op[2]]
        elif op[0] == "saveload":
            path = ctx.path(f"config{i}.yml")
            ctx.call("save_config", fitter.save_config, path)
            compare(ctx, fitter, model, n, what + " saved")
            new = cls(n)
            # whether a parameter is per illumination is not configuration
            for p in new.parameters:
                p.multi = by_name[p.name]["multi"]
            ctx.call("load_config", new.load_config, path)
            compare(ctx, new, model, n, what + " loaded")
            ctx.check([new.n_bins, new.range] == settings and type(
                new.range) is tuple, f"{what}: {new.n_bins}, {new.range}")
            again = ctx.path(f"again{i}.yml")
            ctx.call("save_config", new.save_config, again)
            with open(path) as a, open(again) as b:
                ctx.check(yaml.safe_load(a) == yaml.safe_load(b),
                          f"{what}: saved again it differs")
            if i % 2:
                fitter = new
            ctx.note("saved and loaded")
        elif op[0] in ("partial", "empty"):
            sections = op[1] if op[0] == "partial" else None
            path = ctx.path(f"partial{i}.yml")
            with open(path, "w") as f:
                if sections:
                    yaml.safe_dump(sections, f)
                else:
                    f.write("# nothing\n")
            out = io.StringIO()
            with contextlib.redirect_stdout(out), \
                    contextlib.redirect_stderr(out):
                ctx.call("load_config", fitter.load_config, path)
            out = out.getvalue().lower()
            unused = any("unknown" in v for v in (sections or {}).values()
                         if isinstance(v, dict))
            ctx.check(("unknown" in out) == unused and
                      ("warning" in out) == unused, lambda: (
                f"loading {sections} printed {out!r}"))
            for sec, val in (sections or {}).items():
                if sec == "n_bins":
                    settings[0] = val
                elif sec == "range":
                    settings[1] = tuple(val)
                else:
                    for name, v in val.items():
                        if name in by_name:
                            by_name[name][sec] = tuple(v) if sec == \
                                "limits" else v
            ctx.note("partial configuration")
        elif op[0] == "other":
            # another fitter of this class does not see these edits, and back
            new = ctx.call("fitter", cls, n)
            compare(ctx, new, fresh, n, what + ", a new fitter")
            ctx.check([new.n_bins, new.range] == first,
                      f"{what}: settings of a new fitter")
            for p in op[1]:
                q = getattr(new.parameters, p["name"])
                q.initial, q.limits, q.fixed = p["initial"], p["limits"], \
                    p["fixed"]
            new.parameters.update(new.parameters)
            new.n_bins, new.range = 3, (0, 1)
        compare(ctx, fitter, model, n, what)
        ctx.check([fitter.n_bins, fitter.range] == settings, lambda: (
            f"{what}: {fitter.n_bins}, {fitter.range}, not {settings}"))
    compare_typed(ctx, fitter, model, n, "at the end")


# ------------------------------------------------ taking over a fit's results
class Gauss(SpectrumFitter):
    def __init__(self, n):
        super().__init__(n)
        self.parameters = SpectrumParameterCollection([
            SpectrumParameter("mean", 0, (-10, 10), multi=True),
            SpectrumParameter("std", 0.5, (0.1, 3)),
        ], n)
        self.n_bins, self.range = 40, (-10, 10)

    @staticmethod
    def _get_spectra(n, x, lookup, *v):
        return [normal_pdf(x, v[lookup[i]["mean"]], v[lookup[i]["std"]])
                for i in range(n)]

    @staticmethod
    def _get_likelihood(n, x, y, lookup, *v):
        out = 0
        for i in range(n):
            s = normal_pdf(x, v[lookup[i]["mean"]], v[lookup[i]["std"]])
            out += ((y[i] / y[i].sum() - s / s.sum()) ** 2).sum() * 1e4
        return out


@st.composite
def result_cases(draw):
    n = draw(st.sampled_from([3, 4, 2, 1]))
    return dict(n=n, means=draw(st.lists(st.floats(-4, 4), min_size=n,
                                         max_size=n)),
                std=draw(st.floats(0.6, 2)), seed=draw(st.integers(0, 999)),
                which=draw(st.integers(0, n - 1)),
                fixed=draw(st.booleans()))


def check_result(ctx, case):
    n = case["n"]
    rng = np.random.RandomState(case["seed"])
    f = Gauss(n)
    ctx.raises("taking over the result of no fit", ValueError,
               f.update_initial)
    f.parameters.std.fixed = case["fixed"]
    f.parameters.update(f.parameters)
    charges = [rng.normal(m, case["std"], 2000) for m in case["means"]]
    ctx.call("apply", f.apply, *charges)
    values = dict(f.fit_result_values)
    ctx.check(set(values) == {f"mean{i}" for i in range(n)} | {"std"},
              f"results {sorted(values)}")
    ctx.call("update_initial", f.update_initial, case["which"])
    model = [dict(name="mean", initial=values[f"mean{case['which']}"],
                  limits=(-10, 10), fixed=False, multi=True),
             dict(name="std", initial=values["std"], limits=(0.1, 3),
                  fixed=case["fixed"], multi=False)]
    compare(ctx, f, model, n, "after taking over the result")
    path = ctx.path("config.yml")
    ctx.call("save_config", f.save_config, path)
    new = Gauss(n)
    ctx.call("load_config", new.load_config, path)
    compare(ctx, new, model, n, "saved and loaded")
    # the results themselves are not touched
    ctx.check(dict(f.fit_result_values) == values, "the results changed")
    ctx.note("fitted")


SUBS = [
    Sub("history", cases, check, quick=1200,
        rule="parameters are edited, or a configuration is loaded"),
    Sub("result", result_cases, check_result, quick=60, rule="a fit is done"),
]
