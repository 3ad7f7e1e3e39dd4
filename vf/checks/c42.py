"""C42: the ROOT file holds the content of the DL1 file."""
import os
import runpy
import sys
import types
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vf import camera, tables as T
from vf.core import PACKAGE, Sub
from CHECLabPy.core.io import HDF5Writer

ASSUMPTIONS = [
    "ROOT and root_numpy are replaced by stand-ins that keep what they are "
    "given",
    "the file has no monitor tables (their conversion is documented as "
    "unfinished), and its header holds numbers, text, times and None",
]
SCRIPT = os.path.join(PACKAGE, "scripts", "convert_hd52root.py")
COLUMNS = ["t_cpu", "charge_cc", "t_event", "n", "first_cell_id", "flag"]
HEADER = ["source", "n_skipped", "is_mc", "gain", "note", "start_time",
          "end_time", "nothing", "run_id", "camera_version"]
# a ROOT file as the stand-ins keep it
FILES = {}


class Holder:
    def __init__(self):
        self.fString = None


class Tree:
    def __init__(self, name, title=""):
        self.name, self.branches, self.rows = name, {}, []
        self.arrays = []
        FILES["trees"].append(self)

    def Branch(self, name, address, kind):
        holder, member = address
        assert member == "fString" and kind == name + "/C", (member, kind)
        self.branches[name] = holder

    def Fill(self):
        self.rows.append({k: h.fString for k, h in self.branches.items()})


class File:
    def __init__(self, path, mode):
        FILES["path"], FILES["mode"] = path, mode
        FILES["written"] = FILES["closed"] = False

    def Write(self):
        FILES["written"] = [len(FILES["trees"])]

    def Close(self):
        FILES["closed"] = True


def array2tree(array, name="tree", tree=None):
    assert isinstance(array, np.ndarray) and array.dtype.names
    for n in array.dtype.names:
        if array.dtype[n].kind not in "biuf":
            raise TypeError(f"cannot convert {n} of type {array.dtype[n]}")
    if tree is None:
        tree = Tree(name)
    tree.arrays.append(array.copy())
    return tree


def stand_ins():
    FILES.clear()
    FILES["trees"] = []
    root = types.ModuleType("ROOT")
    root.TFile, root.TTree, root.StringHolder = File, Tree, Holder
    root.AddressOf = lambda holder, member: (holder, member)
    root.gROOT = types.SimpleNamespace(ProcessLine=lambda line: 0)
    numpy = types.ModuleType("root_numpy")
    numpy.array2tree = array2tree
    return dict(ROOT=root, root_numpy=numpy)


@st.composite
def cases(draw):
    return dict(
        n_events=draw(st.integers(1, 6)), n_pixels=draw(st.integers(1, 8)),
        n_modules=draw(st.integers(1, 3)),
        columns=draw(st.lists(st.sampled_from(COLUMNS), max_size=5,
                              unique=True)),
        header=draw(st.lists(st.sampled_from(HEADER), unique=True)),
        unit=draw(st.sampled_from(["ns", "ns", "us", "s"])),
        nan=draw(st.sampled_from([0, 0, 0.2, 1])),
        output=draw(st.sampled_from([None, "other.root", "no ending",
                                     "out.tree.root", "a_dl1.h5.root"])),
        long=draw(st.booleans()),
        name=draw(st.sampled_from(["Run00012_dl1.h5", "a.b_dl1.h5", "plain",
                                   "r u n.hdf5"])),
        seed=draw(st.integers(0, 2 ** 16)))


def header(case, rng):
    stamp = lambda: pd.Timestamp(int(rng.randint(0, 2 ** 61,
                                                 dtype=np.int64)))
    values = dict(
        source="CHECLabPy", n_skipped=int(rng.randint(1000)),
        is_mc=bool(rng.rand() < 0.5), gain=float(rng.normal()),
        note=rng.choice(["", "two words", "Ångström", "x" * 200]),
        start_time=stamp(), end_time=stamp().as_unit(case["unit"]),
        nothing=None, run_id=int(rng.randint(10 ** 6)),
        camera_version="1.1.0")
    values["note"] = str(values["note"])
    return {k: values[k] for k in case["header"]}


def write(case, path):
    rng = np.random.RandomState(case["seed"])
    n, n_pix = case["n_events"], case["n_pixels"]
    size = n * n_pix
    columns = dict(
        t_cpu=np.repeat(rng.randint(0, 2 ** 61, n, dtype=np.int64).astype(
            "datetime64[ns]"), n_pix),
        charge_cc=rng.normal(size=size).astype(np.float32),
        t_event=rng.normal(size=size) * 1e9,
        n=rng.randint(-2 ** 15, 2 ** 15, size).astype(np.int16),
        first_cell_id=rng.randint(0, 2 ** 16, size).astype(np.uint16),
        flag=rng.rand(size) < 0.5)
    for c in ("charge_cc", "t_event"):
        columns[c][rng.rand(size) < case["nan"]] = rng.choice(
            [np.nan, np.inf])
    df = pd.DataFrame(dict(
        iev=np.repeat(np.arange(n), n_pix).astype(np.uint32),
        pixel=np.tile(np.arange(n_pix), n).astype(np.uint32),
        **{c: columns[c] for c in case["columns"]}))
    meta = dict(n_events=n, n_pixels=n_pix, n_modules=case["n_modules"],
                **header(case, rng))
    mapping = camera.clp_mapping(camera.build_layout(
        [(0, i) for i in range(case["n_modules"])]))
    with HDF5Writer(path) as w:
        w.append(df.copy(), key="data")
        w.add_metadata(**meta)
        w.add_mapping(mapping)
    return df, meta, mapping


def nanoseconds(stamp):
    return (stamp - pd.Timestamp(0)) // pd.Timedelta(1, "ns")


def check(ctx, case):
    path = ctx.path(case["name"])
    df, meta, mapping = write(case, path)
    before = open(path, "rb").read()
    out = os.path.splitext(path)[0] + ".root"
    args = [SCRIPT, "--in" if case["long"] else "-i", path]
    if case["output"]:
        out = ctx.path(case["output"])
        args += ["--out" if case["long"] else "-o", out]
    fakes = stand_ins()
    old, argv = {k: sys.modules.get(k) for k in fakes}, sys.argv

    def restore():
        sys.argv = argv
        for k, v in old.items():
            sys.modules.pop(k, None)
            if v is not None:
                sys.modules[k] = v

    ctx.cleanups.append(restore)
    sys.modules.update(fakes)
    sys.argv = args
    ctx.call("convert_hd52root", runpy.run_path, SCRIPT,
             run_name="__main__")
    restore()
    ctx.check(open(path, "rb").read() == before, "the DL1 file was changed")
    ctx.check(FILES.get("path") == out and
              str(FILES["mode"]).lower() == "recreate", lambda: (
        f"wrote {FILES.get('path')} ({FILES.get('mode')}), not {out}"))
    trees = {t.name: t for t in FILES["trees"]}
    ctx.check(len(trees) == len(FILES["trees"]) and
              set(trees) == {"tMeta", "tData", "tMapping"}, lambda: (
        f"trees {[t.name for t in FILES['trees']]}"))
    ctx.check(FILES["written"] == [3] and FILES["closed"],
              "the file was not written or closed after the trees")
    # rows
    data, = trees["tData"].arrays
    ctx.check(list(data.dtype.names) == list(df.columns), lambda: (
        f"columns {data.dtype.names}, not {list(df.columns)}"))
    for c in df.columns:
        want = df[c].values
        if c == "t_cpu":
            want = want.astype(np.int64)
        ctx.check(data[c].dtype == want.dtype and
                  T.same_values(data[c], want), lambda: (
            f"{c} is {data[c][:5]} ({data[c].dtype}), not {want[:5]}"))
    table, = trees["tMapping"].arrays
    ctx.check(list(table.dtype.names) == list(mapping.columns),
              "columns of the mapping")
    for c in mapping.columns:
        ctx.check(T.same_values(table[c], mapping[c].values),
                  f"mapping column {c}")
    # header
    texts, numbers = trees["tMeta"].rows, trees["tMeta"].arrays
    ctx.check(len(texts) == 1 and len(numbers) == 1 and
              len(numbers[0]) == 1, "the header is not a single entry")
    got = {**texts[0], **{k: numbers[0][k][0]
                          for k in numbers[0].dtype.names}}
    for k, v in meta.items():
        ctx.check(k in got, f"{k} is missing in the header")
        if v is None:
            want = "None"
        elif isinstance(v, pd.Timestamp):
            want = nanoseconds(v)
            ctx.note("times in the header")
        else:
            want = v
        ctx.check(got[k] == want and isinstance(got[k], str) ==
                  isinstance(want, str), lambda: (
            f"header {k} is {got[k]!r}, not {want!r}"))
    if "t_cpu" in case["columns"]:
        ctx.note("times in the rows")


SUBS = [Sub("convert", cases, check, quick=120,
            rule="times are converted in the header or the rows")]
