"""C18: the generated DL1 configuration reproduces the defaults."""
import os
import re
import sys
import numpy as np
import yaml
from hypothesis import strategies as st
from vf import waves
from vf.core import Sub
from CHECLabPy.core.chain import WaveformReducerChain
from CHECLabPy.scripts import generate_dl1_config

ASSUMPTIONS = [
    "the output path is given (the default one lies within the package)",
    "the ctapipe functions are replaced by stand-ins",
]
REDUCERS = waves.all_reducers()
ALL_COLUMNS = sorted(c for r in REDUCERS for c in r.columns)
USABLE = [c for r in REDUCERS for c in r.columns
          if not r.__name__.startswith(("Flag", "NNLS"))]


@st.composite
def cases(draw):
    return dict(
        bare=draw(st.booleans()), long=draw(st.booleans()),
        cwd=draw(st.booleans()), exists=draw(st.booleans()),
        edits=draw(st.dictionaries(st.sampled_from(USABLE), st.booleans(),
                                   max_size=4)),
        kwargs=draw(st.dictionaries(st.sampled_from(USABLE), st.booleans(),
                                    max_size=2)),
        spec=draw(waves.specs(64, 128)))


def active(chain, wf, ctx):
    return ctx.call("process", chain.process, wf)


def check(ctx, case):
    path = ctx.path("config.yml")
    args = ["generate_dl1_config", "--output" if case["long"] else "-o", path]
    if case["bare"]:
        args.append("--bare")
    if case["exists"]:
        # of another time
        with open(path, "w") as f:
            f.write("charge_old: True\nt_cc: False\n")
    old, cwd = sys.argv, os.getcwd()
    sys.argv = args
    try:
        if case["cwd"]:
            os.chdir(ctx.tmp)
        ctx.call("generate_dl1_config", generate_dl1_config.main)
    finally:
        sys.argv = old
        os.chdir(cwd)
    text = open(path).read()
    with open(path) as f:
        config = ctx.call("parsing the configuration", yaml.safe_load, f)
    ctx.check(isinstance(config, dict), "not a configuration")
    ctx.check(set(config) == set(ALL_COLUMNS), lambda: (
        f"missing {sorted(set(ALL_COLUMNS) - set(config))}, "
        f"superfluous {sorted(set(config) - set(ALL_COLUMNS))}"))
    for c in ALL_COLUMNS:
        n = len(re.findall(rf"^{c}\s*:", text, re.M))
        ctx.check(n == 1, f"{c} is listed {n} times")
    docs = {}
    for r in REDUCERS:
        docs[r.__name__] = r.__doc__
        docs.update({c: getattr(r, c).__doc__ for c in r.columns})
    for name, doc in docs.items():
        # text of ten letters or more that belongs to this entry only
        lines = [ln.strip() for ln in (doc or "").splitlines()]
        for ln in [ln for ln in lines if len(ln) > 10]:
            ctx.check((ln in text) != case["bare"], lambda: (
                f"the documentation of {name}, {ln!r}, is "
                f"{'' if case['bare'] else 'not '}in the file"))
    defaults = WaveformReducerChain.default_columns
    for c in ALL_COLUMNS:
        ctx.check(config[c] is bool(defaults.get(c, False)),
                  f"{c} is {config[c]} but {defaults.get(c)} by default")
    kw = waves.resources(ctx, 64)
    wf = waves.make(case["spec"])
    want = active(WaveformReducerChain(64, 128, **kw), wf, ctx)
    chain = ctx.call("chain from the file", WaveformReducerChain, 64, 128,
                     config_path=path, **kw)
    got = active(chain, wf, ctx)
    ctx.check(set(got) == set(want), lambda: (
        f"the generated configuration gives the columns {sorted(got)} and "
        f"the default {sorted(want)}"))
    for k in want:
        ctx.check(waves.same_result(got[k], want[k]), f"value of {k}")
    # edit the file as a user would
    for c, v in case["edits"].items():
        text, n = re.subn(rf"^({c}\s*:).*$", rf"\1 {v}", text, flags=re.M)
        ctx.check(n == 1, "the entry cannot be edited")
    with open(path, "w") as f:
        f.write(text)
    got = active(WaveformReducerChain(
        64, 128, config_path=path, **case["kwargs"], **kw), wf, ctx)
    expected = {c for c in USABLE if {**defaults, **case["edits"],
                                      **case["kwargs"]}.get(c, False)}
    changed = [c for c, v in case["edits"].items()
               if v != defaults.get(c, False)]
    if changed:
        ctx.note("an entry is changed")
    ctx.check(set(got) == expected, lambda: (
        f"after the edits {case['edits']}: columns {sorted(got)} instead of "
        f"{sorted(expected)}"))


SUBS = [Sub("config", cases, check, quick=150,
            rule="an entry of the generated file is changed")]
