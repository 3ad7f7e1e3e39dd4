"""C40: new reducers and fitters are found and offered by their names."""
import abc
import json
import os
import re
import shutil
import subprocess
import sys
import numpy as np
import yaml
from hypothesis import strategies as st
from vf.core import PACKAGE, VERIF, HarnessError, Sub
from CHECLabPy.core import child_subclasses
from CHECLabPy.core.factory import Factory, SpectrumFitterFactory
from CHECLabPy.core.spectrum_fitter import SpectrumFitter
import CHECLabPy.spectrum_fitters

ASSUMPTIONS = [
    "the classes of one family have different names",
    "files are added to a scratch copy of the package, which is used by a "
    "process of its own",
]


# ------------------------------------------------------- families of classes
@st.composite
def families(draw):
    n = draw(st.integers(0, 9))
    classes = []
    for i in range(n):
        # -1 is the base of the family
        parents = draw(st.lists(st.integers(-1, i - 1), min_size=1,
                                max_size=3, unique=True))
        classes.append(dict(
            parents=sorted(parents, reverse=True),
            declares=draw(st.booleans()) and draw(st.booleans()),
            implements=draw(st.booleans())))
    return dict(classes=classes, base_abstract=draw(st.booleans()),
                named=draw(st.booleans()), late=draw(st.integers(0, 3)))


def check_family(ctx, case):
    namespace = {}
    if case["base_abstract"]:
        namespace["work"] = abc.abstractmethod(lambda self: 0)
    base = abc.ABCMeta("Base", (), namespace)
    made, missing = {-1: base}, {-1: {"work"} if case["base_abstract"]
                                 else set()}
    alive, below = [], {-1: set()}
    n = len(case["classes"])
    late = n - min(case["late"], n)
    for i, c in enumerate(case["classes"]):
        if i == late:
            # the family is asked for before it is complete
            compare_family(ctx, base, alive, made)
        name = f"C{i}" if case["named"] else \
            f"{'_' * (i // 2 % 3)}Member{'aAbBcCdDe'[i]}"
        body, lacks = {"tag": i}, set()
        for p in c["parents"]:
            lacks |= missing[p]
        if c["declares"]:
            body[f"more{i}"] = abc.abstractmethod(lambda self: 0)
            lacks |= {f"more{i}"}
        if c["implements"]:
            for k in sorted(lacks):
                body[k] = lambda self: 1
            lacks = set()
        try:
            cls = abc.ABCMeta(name, tuple(made[p] for p in c["parents"]),
                              body)
        except TypeError:
            # no consistent order of the parents
            cls = abc.ABCMeta(name, (made[c["parents"][0]],), body)
            if len(c["parents"]) > 1 and not c["implements"]:
                lacks = set(missing[c["parents"][0]])
                if c["declares"]:
                    lacks |= {f"more{i}"}
        made[i] = cls
        # what Python itself regards as not implemented
        missing[i] = set(cls.__abstractmethods__)
        alive.append(i)
    compare_family(ctx, base, alive, made)
    # every branch of the family is a family
    for i in alive:
        mine = [j for j in alive if j != i and issubclass(made[j], made[i])]
        compare_family(ctx, made[i], mine, made)
    concrete = [i for i in alive if not missing[i]]
    if any(len(c["parents"]) > 1 for c in case["classes"]):
        ctx.note("several parents")
    if len(concrete) < len(alive):
        ctx.note("abstract members")
    depth = {-1: 0}
    for i in alive:
        depth[i] = 1 + max((depth[j] for j in depth if issubclass(
            made[i], made[j])), default=0)
    if alive and max(depth.values()) > 2:
        ctx.note("grandchildren")
    # a factory for this family
    children = child_subclasses(base)
    factory = type("Some", (Factory,), dict(
        subclasses=children, subclass_names=[c.__name__ for c in children]))
    other = type("Other", (Factory,), dict(
        subclasses=[int, dict], subclass_names=["int", "dict"]))
    for i in alive:
        name = made[i].__name__
        if i in concrete:
            made[i].__init__ = lambda self, *a, **k: self.__dict__.update(
                a=a, k=k)
            got = ctx.call("produce", factory.produce, name, 1, i, key="v")
            ctx.check(type(got) is made[i] and got.a == (1, i) and
                      got.k == {"key": "v"}, lambda: (
                f"{name} gave {got!r} with {vars(got)}"))
        else:
            ctx.raises(f"producing {name}, which is abstract", KeyError,
                       factory.produce, name)
        ctx.raises(f"producing {name} elsewhere", KeyError, other.produce,
                   name)
    for name in ("Base", "", "c0", "C0 ", None, "C99"):
        if name == "Base" or name not in [made[i].__name__ for i in alive]:
            ctx.raises(f"producing {name!r}", KeyError, factory.produce, name)
    ctx.check(other.produce("int", "12") == 12, "the other factory")


def compare_family(ctx, base, members, made):
    got = ctx.call("child_subclasses", child_subclasses, base)
    want = {made[i] for i in members if not made[i].__abstractmethods__}
    ctx.check(len(got) == len(set(got)), lambda: (
        f"listed several times: {sorted(c.__name__ for c in got)}"))
    ctx.check(set(got) == want, lambda: (
        f"family {sorted(c.__name__ for c in got)}, not "
        f"{sorted(c.__name__ for c in want)}"))


# ------------------------------------------------------- the fitters offered
@st.composite
def fitter_cases(draw):
    return dict(n=draw(st.integers(1, 5)), keyword=draw(st.booleans()),
                wrong=draw(st.text(max_size=12)))


def check_fitters(ctx, case):
    known = {k: v for k, v in vars(CHECLabPy.spectrum_fitters).items()
             if isinstance(v, type) and issubclass(v, SpectrumFitter) and
             v is not SpectrumFitter}
    ctx.check({"SiPMGentileFitter", "MAPMFitter"} <= set(known),
              "a fitter has gone")
    names = list(SpectrumFitterFactory.subclass_names)
    ctx.check(sorted(names) == sorted(known), lambda: (
        f"the factory offers {sorted(names)}, not {sorted(known)}"))
    for name in names:
        args, kw = ((), dict(n_illuminations=case["n"])) \
            if case["keyword"] else ((case["n"],), {})
        a = ctx.call("produce", SpectrumFitterFactory.produce, name, *args,
                     **kw)
        b = ctx.call("produce", SpectrumFitterFactory.produce, name, *args,
                     **kw)
        ctx.check(type(a) is known[name], lambda: f"{name} gave {type(a)}")
        ctx.check(a.n_illuminations == case["n"], "number of illuminations")
        # fitters do not share their parameters
        p = next(iter(a.parameters))
        before = next(iter(b.parameters)).initial
        p.initial = before + 7
        ctx.check(next(iter(b.parameters)).initial == before and
                  next(iter(SpectrumFitterFactory.produce(
                      name, case["n"]).parameters)).initial == before,
                  "fitters share their parameters")
        ctx.note(name)
    for wrong in (case["wrong"], "SpectrumFitter", names[0].lower()):
        if wrong not in names:
            ctx.raises(f"producing {wrong!r}", KeyError,
                       SpectrumFitterFactory.produce, wrong, 1)


# ------------------------------------------------------------- added files
DOCS = ["none", "one", "several", "entry", "blank", "flush"]


@st.composite
def plugins(draw):
    files, n_reducers = [], 0
    for i in range(draw(st.integers(1, 3))):
        prefix = draw(st.sampled_from(["aa", "m_m", "zz", "New"]))
        kind = draw(st.sampled_from(["reducer", "reducer", "fitter"]))
        classes = []
        for j in range(draw(st.integers(1, 2))):
            parents = ["base"]
            if kind == "reducer":
                parents += ["AverageWF", "Common"]
                if n_reducers:
                    parents.append("earlier")
            else:
                parents += ["abstract", "SiPMGentileFitter"]
                if any(f["kind"] == "fitter" for f in files):
                    parents.append("earlier")
            classes.append(dict(
                parent=draw(st.sampled_from(parents)),
                n_columns=draw(st.integers(0, 3)),
                doc=draw(st.sampled_from(DOCS)),
                column_doc=draw(st.sampled_from(DOCS))))
            n_reducers += kind == "reducer"
        files.append(dict(prefix=prefix, kind=kind, classes=classes))
    return dict(files=files, seed=draw(st.integers(0, 2 ** 16)),
                pick=draw(st.integers(0, 2 ** 10)), n=draw(st.integers(1, 4)))


def docstring(kind, indent):
    pad = " " * indent
    if kind == "none":
        return ""
    if kind == "one":
        return f'{pad}"""Sum of: the samples"""\n'
    if kind == "several":
        return f'{pad}"""\n{pad}Sum of the samples,\n{pad}as it is\n{pad}"""\n'
    if kind == "entry":
        return (f'{pad}"""\n{pad}Samples\n\n{pad}t_nn: True\n{pad}'
                f'{{x: [1}}\n{pad}"""\n')
    if kind == "blank":
        return f'{pad}"""\n\n{pad}Two\n\n\n{pad}# parts"""\n'
    return f'{pad}"""First\n{pad}then: second\n{pad}third."""\n'


def write_plugins(case, package):
    """The columns with their factors, the fitters, and what is abstract"""
    columns, fitters, abstract = {}, {}, []
    last = {}
    for i, f in enumerate(case["files"]):
        folder = dict(reducer="waveform_reducers",
                      fitter="spectrum_fitters")[f["kind"]]
        name = f"{f['prefix']}_vf{i}"
        head, body = [], []
        if f["kind"] == "reducer":
            head.append("from CHECLabPy.core.reducer import WaveformReducer, "
                        "column")
            head.append("import numpy as np")
        else:
            head.append("from abc import ABC, abstractmethod")
            head.append("from CHECLabPy.core.spectrum_fitter import "
                        "SpectrumFitter")
        for j, c in enumerate(f["classes"]):
            cls = f"Vf{i}{'ab'[j]}Class"
            parent = c["parent"]
            if parent == "base":
                parent = dict(reducer="WaveformReducer",
                              fitter="SpectrumFitter")[f["kind"]]
            elif parent == "abstract":
                parent = "SpectrumFitter, ABC"
            elif parent == "earlier":
                parent, where = last[f["kind"]]
                if where != name:
                    head.append(f"from CHECLabPy.{folder}.{where} import "
                                f"{parent}")
            elif parent == "SiPMGentileFitter":
                head.append("from CHECLabPy.spectrum_fitters.gentile import "
                            "SiPMGentileFitter")
            else:
                where = dict(AverageWF="average_wf", Common="common")[parent]
                head.append(f"from CHECLabPy.{folder}.{where} import "
                            f"{parent}")
            body.append(f"class {cls}({parent}):\n"
                        + docstring(c["doc"], 4) + f"    tag = {j}\n")
            if f["kind"] == "reducer":
                for k in range(c["n_columns"]):
                    col = f"vf{i}{j}{k}_value"
                    columns[col] = 2 + k + 3 * j + 7 * i
                    body.append(
                        f"    @column\n    def {col}(self):\n"
                        + docstring(c["column_doc"], 8)
                        + "        return self.waveforms.max(1) * "
                        f"{columns[col]}\n")
                last["reducer"] = cls, name
            elif c["parent"] == "abstract":
                body.append("    @abstractmethod\n    def vf_missing(self):\n"
                            "        pass\n")
                abstract.append(cls)
            else:
                fitters[cls] = True
                last["fitter"] = cls, name
        if f["kind"] == "fitter" and "fitter" not in last:
            last["fitter"] = "SpectrumFitter", "gentile"
        with open(os.path.join(package, folder, name + ".py"), "w") as out:
            out.write("\n".join(head) + "\n\n\n" + "\n\n".join(body))
    return columns, fitters, abstract


def check_plugins(ctx, case):
    package = ctx.path("lib", "CHECLabPy")
    shutil.copytree(PACKAGE, package, ignore=shutil.ignore_patterns(
        "__pycache__", "tests"))
    columns, fitters, abstract = write_plugins(case, package)
    on = [c for j, c in enumerate(sorted(columns)) if case["pick"] >> j & 1]
    spec = dict(
        path=[ctx.path("lib"), os.path.join(VERIF, "vf", "fakes")],
        seed=case["seed"], on=on, config=ctx.path("c.yml"), n=case["n"],
        fitters=sorted(fitters), not_fitters=abstract + ["WaveformReducer"])
    with open(ctx.path("spec.json"), "w") as f:
        json.dump(spec, f)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    env.pop("VF_PROGRESS", None)
    env.pop("PYTHONPATH", None)
    r = subprocess.run(
        [sys.executable, "-W", "ignore",
         os.path.join(VERIF, "vf", "plugin_probe.py"),
         ctx.path("spec.json"), ctx.path("result.json")],
        cwd=ctx.tmp, env=env, capture_output=True, text=True, timeout=90)
    if not os.path.exists(ctx.path("result.json")):
        raise HarnessError(f"no result: {r.returncode} {r.stderr[-800:]}")
    with open(ctx.path("result.json")) as f:
        result = json.load(f)
    ctx.check("ok" in result, lambda: (
        f"with the new files: {result['error'][-900:]}"))
    got = result["ok"]
    if got["package"] != os.path.realpath(package):
        raise HarnessError(f"used the package at {got['package']}")
    mine = {k: v for k, v in got["enabled"].items() if k in columns}
    ctx.check(set(mine) == set(on), lambda: (
        f"enabled {on}, got {sorted(mine)}"))
    for c in on:
        want = np.float32(columns[c]) * np.array(got["max"])
        ctx.check(np.allclose(mine[c], want, rtol=1e-5), lambda: (
            f"{c} is {mine[c]}, not {want}"))
    ctx.check(set(got["only"]) == set(on), lambda: (
        f"a configuration with {on} alone gives {sorted(got['only'])}"))
    ctx.check(not set(got["default"]) & set(columns),
              "new columns are active by default")
    rest = {k: v for k, v in got["enabled"].items() if k not in columns}
    ctx.check(rest == got["default"], "new columns change the others")
    ctx.check(set(got["from_file"]) == set(got["default"]), lambda: (
        f"the generated configuration gives {sorted(got['from_file'])}, by "
        f"default {sorted(got['default'])}"))
    for bare, text in got["generated"].items():
        config = ctx.call("parsing the generated configuration",
                          yaml.safe_load, text)
        ctx.check(isinstance(config, dict), "not a configuration")
        for c in columns:
            ctx.check(config.get(c) is False and len(re.findall(
                rf"^{c}\s*:", text, re.M)) == 1, lambda: (
                f"{c} in the generated configuration: {config.get(c)!r}"))
        ctx.check(all(isinstance(v, bool) for v in config.values()), lambda: (
            f"generated configuration {config}"))
    known = set(SpectrumFitterFactory.subclass_names)
    ctx.check(sorted(got["fitters"]) == sorted(known | set(fitters)), lambda: (
        f"fitters offered: {sorted(got['fitters'])}, new are "
        f"{sorted(fitters)}, abstract {abstract}"))
    for name in fitters:
        ctx.check(got["produced"].get(name) == [name, case["n"]], lambda: (
            f"producing {name}: {got['produced'].get(name)}"))
    for name in spec["not_fitters"]:
        ctx.check(name not in got["produced"], f"{name} was produced")
    if on or fitters:
        ctx.note("new reducer" if on else "new fitter")
    if any(c["parent"] not in ("base", "abstract")
           for f in case["files"] for c in f["classes"]):
        ctx.note("derived from another one", False)


SUBS = [
    Sub("families", families, check_family, quick=500,
        rule="members with several parents, abstract members, or "
             "grandchildren"),
    Sub("fitters", fitter_cases, check_fitters, quick=15, thorough=100,
        rule="every case"),
    Sub("plugins", plugins, check_plugins, quick=10, thorough=60,
        rule="a new column is enabled or a new fitter is produced"),
]
