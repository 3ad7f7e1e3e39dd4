"""C11: the reducer chain resolves its configuration by precedence."""
import numpy as np
import yaml
from hypothesis import strategies as st
from vf import waves
from vf.core import Sub
from CHECLabPy.core.chain import WaveformReducerChain

ASSUMPTIONS = ["the ctapipe functions are replaced by stand-ins"]
REDUCERS = [r for r in waves.all_reducers()
            if not r.__name__.startswith("Flag")]
ALL_COLUMNS = sorted(c for r in REDUCERS for c in r.columns)
SETTINGS = dict(
    window_size=st.integers(1, 12), window_shift=st.integers(0, 8),
    t_extract=st.integers(15, 30))
# a flag may also be given as 0 or 1
flags = st.one_of(st.booleans(), st.booleans(), st.sampled_from([0, 1]))
# what is active when nothing is configured
STANDARD = {"baseline_end_mean", "baseline_end_rms", "baseline_start_mean",
            "baseline_start_rms", "waveform_mean", "waveform_rms",
            "saturation_sum", "t_averagewf", "charge_averagewf", "t_cc",
            "charge_cc", "height_cc"}


@st.composite
def columns(draw):
    # all columns of a reducer at once, and single ones
    d = {}
    for r in draw(st.lists(st.sampled_from(REDUCERS), max_size=3,
                           unique_by=lambda r: r.__name__)):
        value = draw(flags)
        d.update({c: value for c in r.columns})
    d.update(draw(st.dictionaries(st.sampled_from(ALL_COLUMNS), flags,
                                  max_size=6)))
    if "t_event" in d:
        # a number is the time at which to extract
        d["t_event"] = bool(d["t_event"])
    return d


@st.composite
def settings(draw):
    return {k: draw(SETTINGS[k]) for k in draw(st.lists(
        st.sampled_from(sorted(SETTINGS)), max_size=3, unique=True))}


@st.composite
def cases(draw):
    return dict(
        file=draw(st.none() | columns()), file_settings=draw(settings()),
        empty=draw(st.integers(0, 9)) == 0,
        kwargs=draw(columns()), settings=draw(settings()),
        order=draw(st.booleans()),
        # the events arrive in one array that is filled again
        refill=draw(st.booleans()),
        spec=draw(waves.specs(64, 128)), spec2=draw(waves.specs(64, 128)))


def check(ctx, case):
    kw = waves.resources(ctx, 64)
    default = set(WaveformReducerChain.default_columns)
    ctx.check(default <= set(ALL_COLUMNS), lambda: (
        f"defaults for unknown columns {default - set(ALL_COLUMNS)}"))
    active = {c for c, on in WaveformReducerChain.default_columns.items()
              if on}
    ctx.check(active == STANDARD, lambda: (
        f"columns active by default: {sorted(active ^ STANDARD)} differ"))
    # the reference resolution: the file replaces the built-in columns
    resolved = {}
    path = None
    if case["file"] is not None:
        content = {**case["file"], **case["file_settings"]}
        if case["empty"]:
            content = {}
        path = ctx.path("config.yml")
        with open(path, "w") as f:
            if content:
                yaml.safe_dump(content, f, sort_keys=case["order"])
            else:
                f.write("# nothing\n")
        resolved.update(content)
        ctx.note("configuration file", False)
    else:
        resolved.update(WaveformReducerChain.default_columns)
    resolved.update(case["kwargs"])
    resolved.update(case["settings"])
    chain = ctx.call("creating the chain", WaveformReducerChain, 64, 128,
                     config_path=path, **case["kwargs"], **case["settings"],
                     **kw)
    expected = {}
    events = [waves.make(case["spec"]), waves.make(case["spec2"])]
    settings = {k: v for k, v in resolved.items() if k in SETTINGS}
    kept = []
    buffer = np.empty(events[0].shape, np.result_type(*events))
    for i, wf in enumerate(events):
        if case["refill"]:
            buffer[:] = wf
            wf = buffer
        expected = {}
        before = wf.copy()
        for cls in REDUCERS:
            on = [c for c in cls.columns if resolved.get(c, False)]
            if on:
                r = cls(64, 128, _disable_by_default=True,
                        **{c: True for c in on}, **settings, **kw)
                expected.update(r.process(wf))
        got = ctx.call("process", chain.process, wf)
        ctx.check(np.array_equal(wf, before), "the waveforms were changed")
        ctx.check(set(got) == set(expected), lambda: (
            f"columns: missing {sorted(set(expected) - set(got))}, "
            f"superfluous {sorted(set(got) - set(expected))}"))
        for k in expected:
            ctx.check(waves.same_result(got[k], expected[k]), lambda: (
                f"{k} is {got[k]!r} instead of {expected[k]!r}"))
        kept.append((got, {k: np.copy(v) for k, v in got.items()}))
    for got, copy in kept:
        for k in copy:
            ctx.check(waves.same_result(got[k], copy[k], 0, 0),
                      f"the {k} of an event changed with the next event")
    for k, v in resolved.items():
        ctx.check(k in chain.config and chain.config[k] == v,
                  f"the configuration of the chain has {k} "
                  f"{chain.config.get(k)!r}, not {v!r}")
    for k in ALL_COLUMNS:
        ctx.check(bool(chain.config.get(k, False)) == (k in expected),
                  f"the configuration of the chain says {k} is "
                  f"{chain.config.get(k)!r}")
    both = case["file"] is not None and not case["empty"] and (
        set(case["file"]) & set(case["kwargs"]))
    if both:
        ctx.note("file and keywords disagree or agree on a column")
    if set(case["settings"]) & set(case["file_settings"]) and path:
        ctx.note("file and keywords give the same setting")
    if path is None and case["kwargs"]:
        ctx.note("keywords change the default columns")
    if not expected:
        ctx.note("no active column", False)


@st.composite
def missing(draw):
    return dict(name=draw(st.sampled_from(ALL_COLUMNS)))


def check_missing(ctx, case):
    """Resources are needed only by the reducers that are active"""
    need = {c: r for r in REDUCERS for c in r.columns}[case["name"]]
    needs_ref = "CrossCorrelation" in need.__name__
    needs_map = "Neighbour" in need.__name__
    if need.__name__.startswith("NNLS"):
        return
    kw = waves.resources(ctx, 64)
    config = {c: False for c in ALL_COLUMNS}
    config[case["name"]] = True

    def build(**kwargs):
        return WaveformReducerChain(64, 128, **config, **kwargs)

    ctx.call("chain with all resources", build, **kw)
    for key, needed in (("reference_pulse_path", needs_ref),
                        ("mapping", needs_map)):
        rest = {k: v for k, v in kw.items() if k != key}
        if needed:
            ctx.note(f"needs {key}")
            ctx.raises(f"{case['name']} without {key}", ValueError, build,
                       **rest)
        else:
            ctx.call(f"{case['name']} without {key}", build, **rest)


SUBS = [
    Sub("resolution", cases, check, quick=200,
        rule="keywords change a column or setting that the file or the "
             "defaults also give"),
    Sub("resources", missing, check_missing, quick=60, thorough=120,
        rule="the column needs a reference pulse or a mapping"),
]
