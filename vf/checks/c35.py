"""C35: file lists, runlists and HV settings are read as written."""
import os
import numpy as np
from hypothesis import strategies as st
from vf import runs
from vf import tables as T
from vf.checks import c05
from vf.core import Sub
from CHECLabPy.utils import files as F

ASSUMPTIONS = ["target_calib and target_io are replaced by stand-ins"]
PIECES = ["Run", "_r1", ".tio", "/", "a", "B", "-", " ", "é", "x.y"]


@st.composite
def list_cases(draw):
    name = st.lists(st.one_of(
        st.sampled_from(PIECES), st.integers(0, 12).map(str),
        st.integers(0, 120000).map(str),
        st.tuples(st.integers(0, 999), st.integers(1, 5)).map(
            lambda t: str(t[0]).zfill(t[1]))), max_size=5).map("".join)
    stem = draw(st.sampled_from(["", "Run", "/data/d12/Run", "a1b"]))
    numbered = st.integers(0, 30000).map(
        lambda n: stem + draw(st.sampled_from(["{}", "{:05d}", "{:03d}"]))
        .format(n) + "_r1.tio")
    if draw(st.booleans()):
        return dict(names=draw(st.lists(name, max_size=12)))
    return dict(names=draw(st.lists(numbered, max_size=20)))


def key(name):
    """Digits compare as numbers, everything else character by character"""
    out, text, digits = [], "", ""
    for ch in name:
        if ch in "0123456789":
            digits += ch
        else:
            if digits:
                out += [text, int(digits)]
                text = digits = ""
            text += ch
    if digits:
        out += [text, int(digits)]
        text = ""
    return out + [text]


def check_list(ctx, case):
    names = list(case["names"])
    # insertion sort by the rule
    want = []
    for n in names:
        at = len(want)
        while at and key(want[at - 1]) > key(n):
            at -= 1
        want.insert(at, n)
    given = list(names)
    got = ctx.call("sort_file_list", F.sort_file_list, given)
    ctx.check(list(got) == want, lambda: f"sorted as {got}, not {want}")
    if want != sorted(names):
        ctx.note("numbers decide")


EXTRA = ["attenuation", "illumination", "n_events", "fw", "pe", "comment"]


@st.composite
def runlist_cases(draw):
    cols = draw(st.lists(st.sampled_from(EXTRA), unique=True, min_size=1,
                         max_size=5))
    n = draw(st.integers(1, 8) | st.integers(1, 8) | st.integers(1, 8)
             | st.integers(20, 250))
    numbers = draw(st.lists(st.integers(0, 120000), min_size=n, max_size=n,
                            unique=draw(st.booleans())))
    value = {
        "n_events": st.integers(0, 10 ** 6), "fw": st.integers(0, 5000),
        "comment": st.sampled_from(["dark", "led", "hv-on", "T1"])}
    number = st.floats(-1e6, 1e6).map(lambda v: float(f"{v:.6g}"))
    rows = [[draw(value.get(c, number)) for c in cols]
            for _ in range(min(n, 8))]
    rows = [rows[i % len(rows)] for i in range(n)]
    return dict(
        cols=cols, numbers=numbers, rows=rows,
        comments=draw(st.lists(st.integers(0, n), max_size=3)),
        tail=draw(st.booleans()), name=draw(st.sampled_from(
            ["runlist.txt", "list", "Run00001.txt"])),
        max_events=draw(st.sampled_from([None, None, 1, 2, 100])),
        relative=draw(st.booleans()))


def write_runlist(path, case, header="run"):
    lines = [" ".join([header] + case["cols"])] if header else []
    for i, (n, row) in enumerate(zip(case["numbers"], case["rows"])):
        for c in case["comments"]:
            if c == i:
                lines.append("# a remark 5 6")
        text = " ".join([str(n)] + [
            v if isinstance(v, str) else repr(v) for v in row])
        lines.append(text + ("#remark" if case["tail"] and i == 0 else ""))
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")


def check_df(ctx, what, df, case, extra=()):
    ctx.check(list(df.index) == case["numbers"], lambda: (
        f"{what}: runs {list(df.index)}, not {case['numbers']}"))
    ctx.check(list(df.columns) == case["cols"] + list(extra), lambda: (
        f"{what}: columns {list(df.columns)}"))
    for j, c in enumerate(case["cols"]):
        want = [r[j] for r in case["rows"]]
        got = df[c].tolist()
        ok = all(g == w if isinstance(w, str) else
                 abs(g - w) <= 1e-12 * abs(w) for g, w in zip(got, want))
        ctx.check(ok, lambda: f"{what}: {c} is {got}, not {want}")


def in_folder(ctx, case, path):
    if not case["relative"]:
        return path
    old = os.getcwd()
    ctx.cleanups.append(lambda: os.chdir(old))
    os.chdir(os.path.dirname(path))
    return os.path.basename(path)


def check_runlist(ctx, case):
    path = ctx.path(case["name"])
    write_runlist(path, case)
    df = ctx.call("read_runlist", F.read_runlist, path)
    check_df(ctx, "read_runlist", df, case)
    folder = ctx.tmp
    used = in_folder(ctx, case, path)
    for level, f in (("r1.tio", F.open_runlist_r1),
                     ("dl1.h5", F.open_runlist_dl1)):
        df = ctx.call(f.__name__, f, used, open_readers=False)
        check_df(ctx, f.__name__, df, case, ["path"])
        want = [os.path.join(folder, f"Run{n:05d}_{level}")
                for n in case["numbers"]]
        got = [os.path.abspath(p) for p in df["path"]]
        ctx.check(got == [os.path.abspath(w) for w in want], lambda: (
            f"{f.__name__}: paths {got[:3]}, not {want[:3]}"))
        # no reader exists: opening must say so
        ctx.raises(f"{f.__name__} of missing files", Exception, f, used)
    if len(case["numbers"]) > 1:
        ctx.note("relative" if case["relative"] else "several runs")


def check_old(ctx, case):
    """The header-less runlists of five columns"""
    rng = np.random.RandomState(len(case["numbers"]))
    cols = ["attenuation", "illumination", "n_events", "fw"]
    n = len(case["numbers"])
    rows = [[float(np.float32(rng.uniform(0, 100))),
             float(np.float32(rng.uniform(0, 5000))),
             int(rng.randint(0, 10 ** 6)),
             ["2300", "0042", "none"][rng.randint(3)]] for _ in range(n)]
    case = dict(case, cols=cols, rows=rows)
    path = ctx.path(case["name"])
    write_runlist(path, case, header=None)
    df = ctx.call("read_runlist_old", F.read_runlist_old, path)
    ctx.check(list(df.index) == case["numbers"], lambda: (
        f"runs {list(df.index)}, not {case['numbers']}"))
    ctx.check(list(df.columns) == cols, lambda: f"columns {df.columns}")
    for j, c in enumerate(cols):
        got = df[c].tolist()
        want = [r[j] for r in rows]
        if c in ("attenuation", "illumination"):
            ok = np.allclose(got, want, rtol=1e-6)
        else:
            ok = got == want
        ctx.check(ok, lambda: f"{c} is {got}, not {want}")
    kinds = [df[c].dtype.kind for c in cols]
    ctx.check(kinds == ["f", "f", "i", "O"], lambda: f"types {kinds}")
    ctx.note("old format")


@st.composite
def open_cases(draw):
    dl1 = draw(st.booleans())
    n = draw(st.integers(1, 3))
    made = []
    for i in range(n):
        if dl1:
            made.append(dict(draw(c05.files()), n_bytes=None))
        else:
            made.append(draw(runs.tio_runs(is_r1=True, max_events=9)))
            if draw(st.integers(0, 7)) == 0:
                made[-1].update(n_events=1203, n_modules=1, n_pixels=2,
                                n_samples=2)
    return dict(
        dl1=dl1, files=made, first=draw(st.integers(0, 99990)),
        step=draw(st.sampled_from([1, 2, 90])), folder=draw(st.booleans()),
        max_events=draw(st.sampled_from([None, None, 1, 3, 100])),
        # the runlist itself is kept elsewhere
        link=draw(st.booleans()),
        relative=draw(st.booleans()), seed=draw(st.integers(0, 2 ** 16)))


def check_open(ctx, case):
    """The reader in each row of a runlist reads the run of that row"""
    ctx.cleanups.append(runs.reset)
    folder = ctx.path("in folder") if case["folder"] else ctx.tmp
    os.makedirs(folder, exist_ok=True)
    n = len(case["files"])
    numbers = [case["first"] + i * case["step"] for i in range(n)]
    order = np.random.RandomState(case["seed"]).permutation(n)
    numbers = [numbers[i] for i in order]
    path = os.path.join(folder, "runlist.txt")
    write_runlist(path, dict(
        cols=["pe"], rows=[[i + 0.5] for i in range(n)], numbers=numbers,
        comments=[], tail=False))
    if case["link"]:
        os.makedirs(ctx.path("elsewhere"))
        os.rename(path, ctx.path("elsewhere", "list"))
        os.symlink(ctx.path("elsewhere", "list"), path)
    want = []
    for number, spec in zip(numbers, case["files"]):
        name = os.path.join(folder, f"Run{number:05d}_")
        if case["dl1"]:
            want.append(c05.write(ctx, spec, name + "dl1.h5"))
        else:
            want.append(runs.register(name + "r1.tio", spec)[0])
    used = in_folder(ctx, case, path)
    if case["dl1"]:
        df = ctx.call("open_runlist_dl1", F.open_runlist_dl1, used)
    else:
        df = ctx.call("open_runlist_r1", F.open_runlist_r1, used,
                      max_events=case["max_events"])
    for r in df["reader"]:
        if hasattr(r, "store"):
            ctx.cleanups.append(r.store.close)
    ctx.check(list(df.index) == numbers, "runs differ")
    for i, (r, w) in enumerate(zip(df["reader"], want)):
        if case["dl1"]:
            T.compare(ctx, f"run {numbers[i]}", r.load_entire_table(),
                      T.concat(w[1]))
            continue
        events = w["events"][2:-1][:case["max_events"]]
        ctx.check(r.run_id == w["run_id"] and len(r) == len(events),
                  lambda: f"run {numbers[i]}: {len(r)} events of run "
                          f"{r.run_id}, not {len(events)} of {w['run_id']}")
        for wf, e in zip(r, events):
            ctx.check(T.same_values(wf, e["samples"]),
                      f"run {numbers[i]}: other samples")
    if n > 1:
        ctx.note("dl1" if case["dl1"] else "r1")


@st.composite
def hv_cases(draw):
    entry = st.tuples(st.integers(0, 31), st.integers(0, 15),
                      st.sampled_from(["HV", "HV", "HVOn"]),
                      st.integers(0, 255) | st.integers(0, 4095))
    return dict(
        entries=draw(st.lists(entry, max_size=30)),
        full=draw(st.booleans()), pad=draw(st.booleans()),
        # settings that are replaced further down
        again=draw(st.integers(0, 6)),
        noise=draw(st.lists(st.sampled_from([
            "", "# comment", "M:3/F|Temp=5", "M:0/F/S:2|Other=7",
            "M:1/F/ASIC:0|Vped=1200", "[section]"]), max_size=5)),
        prefix=draw(st.sampled_from(["", "  ", "set "])),
        suffix=draw(st.sampled_from(["", "  ", "  # note", "\r"])),
        seed=draw(st.integers(0, 2 ** 16)))


def check_hv(ctx, case):
    rng = np.random.RandomState(case["seed"])
    dac, on = np.zeros((32, 16), int), np.zeros((32, 16), int)
    entries = [tuple(e) for e in case["entries"]]
    if case["full"]:
        entries += [(m, s, k, int(rng.randint(256)))
                    for m in range(32) for s in range(16)
                    for k in ("HV", "HVOn")]
    # of each setting, the last one counts
    given = {}
    for tm, sp, kind, value in entries:
        given.setdefault((tm, sp, kind), value)
    keys = [list(given)[i] for i in rng.permutation(len(given))]
    lines = []
    for tm, sp, kind in keys:
        value = given[tm, sp, kind]
        if kind == "HVOn":
            value %= 2
            on[tm, sp] = value
        else:
            dac[tm, sp] = value
        f = "{:02d}" if case["pad"] else "{}"
        lines.append(case["prefix"] + "M:" + f.format(tm) + "/F/S:" +
                     f.format(sp) + f"|{kind}={value}" + case["suffix"])
    for tm, sp, kind in keys[:case["again"]]:
        lines.insert(0, f"M:{tm}/F/S:{sp}|{kind}={rng.randint(2)}")
        ctx.note("a setting given twice")
    for text in case["noise"]:
        lines.insert(rng.randint(len(lines) + 1), text)
    path = ctx.path("hv.cfg")
    with open(path, "w", newline="") as f:
        f.write("\n".join(lines))
    got = ctx.call("extract_hv_cfg", F.extract_hv_cfg, path)
    for name, g, w in zip(("DAC", "HV on"), got, (dac, on)):
        g = np.asarray(g)
        ctx.check(g.shape == (32, 16), lambda: f"{name}: shape {g.shape}")
        bad = g != w
        ctx.check(not bad.any(), lambda: (
            f"{name} of module, superpixel {np.argwhere(bad)[0]} is "
            f"{g[bad][0]}, not {w[bad][0]}"))
    if keys:
        ctx.note("full" if case["full"] else "some")


@st.composite
def dir_cases(draw):
    names = st.lists(st.sampled_from(["a", "b c", "d.e", "..", "x", "."]),
                     max_size=5)
    return dict(path=draw(names), made=draw(names), slash=draw(st.booleans()),
                relative=draw(st.booleans()))


def tree(root):
    return {os.path.relpath(os.path.join(d, n), root)
            for d, dirs, files in os.walk(root) for n in dirs + files}


def check_directory(ctx, case):
    """create_directory makes the folder, and changes nothing else"""
    root = ctx.path("r", "o", "o", "t", "s", "u")
    os.makedirs(root)
    with open(os.path.join(root, "file"), "w") as f:
        f.write("kept")

    made = os.path.normpath(os.path.join(root, *case["made"]))
    if made.startswith(ctx.tmp):
        os.makedirs(made, exist_ok=True)
    # '..' only after folders that exist
    at, parts = root, []
    for n in case["path"]:
        if n == ".." and not os.path.isdir(at):
            continue
        parts.append(n)
        at = os.path.normpath(os.path.join(at, n))
    used = os.path.join(root, *parts)
    if case["relative"]:
        old = os.getcwd()
        ctx.cleanups.append(lambda: os.chdir(old))
        os.chdir(root)
        used = os.path.join(*parts) if parts else ""
    if case["slash"] and used:
        used += "/"
    before = tree(ctx.tmp)
    new = not os.path.isdir(at)
    ctx.call(f"create_directory({used!r})", F.create_directory, used)
    ctx.check(os.path.isdir(at), "the folder does not exist")
    extra = {p for p in tree(ctx.tmp) - before}
    rel = os.path.relpath(at, ctx.tmp)
    ctx.check(before <= tree(ctx.tmp) and all(
        rel == e or rel.startswith(e + "/") for e in extra), lambda: (
            f"created {extra}"))
    ctx.check(open(os.path.join(root, "file")).read() == "kept", "changed")
    ctx.call("again", F.create_directory, used)
    ctx.note("new" if new else "exists", new)


SUBS = [
    Sub("sort", list_cases, check_list, quick=600, thorough=10000,
        rule="the order differs from the alphabetical one"),
    Sub("runlist", runlist_cases, check_runlist, quick=150, thorough=3000,
        rule="several runs"),
    Sub("old", runlist_cases, check_old, quick=60, thorough=1000,
        rule="every case"),
    Sub("open", open_cases, check_open, quick=50, thorough=800,
        rule="several runs are opened"),
    Sub("hv", hv_cases, check_hv, quick=150, thorough=3000,
        rule="settings are given"),
    Sub("directory", dir_cases, check_directory, quick=150, thorough=2000,
        rule="the folder is new"),
]
