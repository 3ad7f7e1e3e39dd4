"""C10: waveform reducers are pure, column-driven and history-free."""
import gc
import numpy as np
from hypothesis import strategies as st
from vf import waves
from vf.core import Sub
from CHECLabPy.core.reducer import WaveformReducer, column

ASSUMPTIONS = [
    "waveforms are two-dimensional float arrays of at least 20 samples, "
    "128 for the NNLS reducer",
    "the ctapipe functions are replaced by stand-ins",
]
NAMES = [r.__name__ for r in waves.all_reducers()]


@st.composite
def events(draw):
    name = draw(st.sampled_from(NAMES))
    n_modules = draw(st.sampled_from([1, 1, 2]))
    n_samples = draw(st.integers(20, 140))
    if name.startswith("NNLS"):
        n_modules, n_samples = 1, 128
    if name.startswith("Flag"):
        n_modules, n_samples = 32, draw(st.integers(20, 30))
    specs = draw(st.lists(waves.specs(64 * n_modules, n_samples),
                          min_size=2, max_size=4))
    return dict(name=name, specs=specs, pick=draw(st.integers(0, 2 ** 10)),
                order=draw(st.permutations(range(len(specs)))),
                repeat=draw(st.booleans()),
                # the events arrive in one array that is filled again
                refill=draw(st.booleans()))


def check_event(ctx, case):
    cls, = [r for r in waves.all_reducers() if r.__name__ == case["name"]]
    waveforms = [waves.make(s) for s in case["specs"]]
    n_pixels, n_samples = waveforms[0].shape
    kw = waves.resources(ctx, n_pixels)
    copies = [w.copy() for w in waveforms]
    kept = []

    buffer = np.empty(waveforms[0].shape, np.float64)

    def run(reducer, i, refill=False):
        wf = waveforms[i]
        if refill and wf.dtype == buffer.dtype:
            buffer[:] = wf
            wf = buffer
        d = ctx.call("process", reducer.process, wf)
        ctx.check(np.array_equal(wf, copies[i]),
                  "the waveforms were changed")
        for w, c in zip(waveforms, copies):
            ctx.check(w.dtype == c.dtype and np.array_equal(w, c),
                      "the waveforms were changed")
        kept.append((d, {k: np.copy(v) for k, v in d.items()}))
        return d

    columns = list(cls.columns)
    # each event alone, with a reducer that has seen nothing else
    alone = []
    for i in range(len(waveforms)):
        reducer = ctx.call("creating", cls, n_pixels, n_samples, **kw)
        d = run(reducer, i)
        ctx.check(set(d) == set(columns),
                  f"columns {sorted(d)} instead of {sorted(columns)}")
        for k, v in d.items():
            ctx.check(np.shape(v) in ((), (n_pixels,)),
                      f"{k} has the shape {np.shape(v)}")
        alone.append({k: np.copy(v) for k, v in d.items()})
    # the same events in another order through one reducer
    reducer = ctx.call("creating", cls, n_pixels, n_samples, **kw)
    order = list(case["order"]) + ([case["order"][0]] if case["repeat"]
                                   else [])
    for i in order:
        d = run(reducer, i, case["refill"])
        for k in columns:
            ctx.check(waves.same_result(d[k], alone[i][k]), lambda: (
                f"{k} of an event depends on the events before it: "
                f"{d[k]!r} not {alone[i][k]!r}"))
    # only some of the columns
    off = [c for j, c in enumerate(columns) if case["pick"] >> j & 1]
    on = [c for c in columns if c not in off]
    for kwargs in ({c: False for c in off},
                   dict({c: True for c in on}, _disable_by_default=True)):
        reducer = ctx.call("creating", cls, n_pixels, n_samples, **kw,
                           **kwargs)
        ctx.check(set(reducer.active_columns) == set(on), "active columns")
        d = run(reducer, 0)
        ctx.check(set(d) == set(on), lambda: (
            f"columns {sorted(d)} instead of {sorted(on)}"))
        for k in on:
            ctx.check(waves.same_result(d[k], alone[0][k]),
                      f"{k} depends on the other active columns")
    # what was returned earlier is not overwritten
    for d, copy in kept:
        for k, v in d.items():
            ctx.check(waves.same_result(v, copy[k], 0, 0),
                      f"the {k} returned earlier has changed")
    ctx.note(case["name"])


# ------------------------------------------------------- classes of columns
@st.composite
def hierarchies(draw):
    n = draw(st.integers(1, 4))
    classes = []
    for i in range(n):
        classes.append(dict(
            parent=draw(st.none() | st.integers(0, i - 1)) if i else None,
            new=draw(st.integers(0, 3)),
            helper=draw(st.booleans()),
            # turns a method of its parent into a column
            promote=draw(st.booleans()),
            # changes its own waveforms while it works
            inplace=draw(st.booleans()),
            # a column that is the waveforms themselves
            view=draw(st.booleans()),
            # throws the waveforms away when the columns are done
            post=draw(st.booleans()),
            # declares a column that exists in another class
            duplicate=draw(st.integers(0, 5)) == 0 and i > 0))
    return dict(classes=classes, off=draw(st.integers(0, 63)),
                default=draw(st.booleans()), value=draw(st.integers(2, 50)),
                tag=draw(st.integers(0, 10 ** 9)))


def make_column(name, qualname, factor):
    def func(self):
        """doc of the column"""
        if factor is None:
            return self.waveforms
        return self.waveforms * factor
    func.__name__ = name
    func.__qualname__ = qualname
    return column(func)


def check_hierarchy(ctx, case):
    registered = set(column.registry)

    def cleanup():
        for k in set(column.registry) - registered:
            del column.registry[k]
        gc.collect()

    ctx.cleanups.append(cleanup)
    made, own, factors, gains = [], [], {}, []
    for i, c in enumerate(case["classes"]):
        cls_name = f"R{case['tag']}_{i}"
        base = made[c["parent"]] if c["parent"] is not None \
            else WaveformReducer
        if c["duplicate"] and factors:
            name = sorted(factors)[0]
            ctx.note("duplicate column")
            ctx.raises("a second column of the same name", AttributeError,
                       make_column, name, f"{cls_name}.{name}", 1)
        dct, names = {}, []
        for j in range(c["new"]):
            name = f"vf_{case['tag']}_{i}_{j}"
            factors[name] = 1 + i * 10 + j
            # defining the same class again is not a duplicate
            if c["view"] and j == 0:
                factors[name] = None
            for _ in range(2 if j == 1 else 1):
                dct[name] = make_column(name, f"{cls_name}.{name}",
                                        factors[name])
            names.append(name)
        if c["helper"]:
            dct["helper"] = lambda self: 1
            dct[f"vf_plain_{case['tag']}_{i}"] = 5
        if c["parent"] is not None and c["promote"] and \
                case["classes"][c["parent"]]["helper"]:
            name = f"vf_plain_{case['tag']}_{c['parent']}"
            if name not in factors:
                factors[name] = 7 + i * 10
                dct[name] = make_column(name, f"{cls_name}.{name}",
                                        factors[name])
                names.append(name)
                ctx.note("a column in place of an inherited attribute")
        if c["inplace"]:
            def prepare(self, waveforms, base=base):
                base._prepare(self, waveforms)
                self.waveforms *= 3
            dct["_prepare"] = prepare
        if c["post"]:
            def post(self, base=base):
                base._post(self)
                self.waveforms = None
            dct["_post"] = post
        made.append(ctx.call("defining a class", type(WaveformReducer),
                             cls_name, (base,), dct))
        own.append(names)
        gains.append((3 if c["inplace"] else 1) * (
            1 if c["parent"] is None else gains[c["parent"]]))
        if c["parent"] is not None and own[c["parent"]]:
            ctx.note("inherited columns")
    value = np.full((1, 1), float(case["value"]))
    for cls, names, gain in zip(made, own, gains):
        ctx.check(list(cls.columns) == names,
                  f"columns {cls.columns} instead of {names}")
        kwargs = {n: bool(case["off"] >> j & 1) for j, n in enumerate(names)}
        if case["default"]:
            on = [n for n in names if kwargs[n]]
            kwargs = {n: True for n in on}
            kwargs["_disable_by_default"] = True
        else:
            on = [n for n in names if kwargs[n]]
            kwargs = {n: False for n in names if n not in on}
        if len(on) > 1:
            ctx.note("several columns")
        r = ctx.call("creating", cls, 1, 1, **kwargs)
        ctx.check(list(r.columns) == names, "columns of the object")
        ctx.check(list(r.active_columns) == on,
                  f"active columns {r.active_columns} instead of {on}")
        ctx.check(cls.get_active_columns(**kwargs) == on,
                  "get_active_columns")
        for n in names:
            ctx.raises("a column before an event was processed", ValueError,
                       getattr, r, n)
            ctx.check(isinstance(getattr(cls, n), column), "class attribute")
        d = ctx.call("process", r.process, value)
        ctx.check(set(d) == set(on), f"{sorted(d)} instead of {on}")
        ctx.check(value[0, 0] == case["value"], "the waveforms were changed")
        ctx.call("process a second event", r.process, value + 1)
        for n in on:
            ctx.check(np.array_equal(d[n], value * (factors[n] or 1) * gain),
                      f"value of {n}, looked at after a second event")
            ctx.check(n in column.registry, "registry")
    if not any(own):
        ctx.note("no columns", False)


# ---------------------------------------------------- several at the same time
@st.composite
def pairs(draw):
    name = draw(st.sampled_from([n for n in NAMES
                                 if not n.startswith(("Flag", "NNLS"))]))
    n = draw(st.integers(40, 128))

    def settings():
        return {k: draw(s) for k, s in dict(
            window_size=st.integers(1, 12), window_shift=st.integers(0, 8),
            t_extract=st.integers(12, 25)).items() if draw(st.booleans())}

    return dict(name=name, a=settings(), b=settings(),
                spec=draw(waves.specs(64, n)), spec2=draw(waves.specs(64, n)),
                off=draw(st.integers(0, 63)))


def check_pair(ctx, case):
    """Two reducers of one class with different settings, by turns"""
    cls, = [r for r in waves.all_reducers() if r.__name__ == case["name"]]
    events = [waves.make(case["spec"]), waves.make(case["spec2"])]
    shape = events[0].shape
    kw = waves.resources(ctx, 64)
    off = {c: False for j, c in enumerate(cls.columns)
           if case["off"] >> j & 1}
    settings = [case["a"], dict(case["b"], **off)]
    alone = []
    for s in settings:
        alone.append([])
        for e in events:
            d = ctx.call("process", cls(*shape, **kw, **s).process, e)
            alone[-1].append({k: np.copy(v) for k, v in d.items()})
    reducers = [ctx.call("creating", cls, *shape, **kw, **s)
                for s in settings]
    got = [[ctx.call("process", r.process, e) for r in reducers]
           for e in events]
    for i, event in enumerate(got):
        for j, d in enumerate(event):
            ctx.check(set(d) == set(alone[j][i]), "other columns than alone")
            for k in d:
                ctx.check(waves.same_result(d[k], alone[j][i][k]), lambda: (
                    f"{k} is {d[k]!r} if another {case['name']} is used as "
                    f"well, {alone[j][i][k]!r} otherwise"))
    if case["a"] != case["b"]:
        ctx.note("different settings")


SUBS = [
    Sub("pairs", pairs, check_pair, quick=200,
        rule="the two reducers have different settings"),
    Sub("events", events, check_event, quick=250,
        rule="every case: at least two events through one reducer"),
    Sub("classes", hierarchies, check_hierarchy, quick=250,
        rule="a class has several active columns, inherits columns, or "
             "declares a column that exists"),
]
