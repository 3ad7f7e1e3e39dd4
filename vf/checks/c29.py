"""C29: the SPE script fits every pixel once, serially or in parallel."""
import os
import subprocess
import sys
import numpy as np
import pandas as pd
import yaml
from hypothesis import strategies as st
from vf import camera
from vf.core import PACKAGE, Sub
from vf.checks import c28
from CHECLabPy.core.io import HDF5Reader, HDF5Writer
from CHECLabPy.scripts import extract_spe
from CHECLabPy.spectrum_fitters import MAPMFitter, SiPMGentileFitter

FITTERS = dict(sipm=SiPMGentileFitter, mapm=MAPMFitter)


@st.composite
def cases(draw, kind="sipm", processes=None):
    n = draw(st.sampled_from([1, 1, 1, 2, 2, 3]))
    ranges, u = c28.values(kind)
    truth = {k: [lo + (hi - lo) * draw(u) for _ in range(
        n if k == "lambda_" else 1)] for k, (lo, hi) in ranges.items()}
    most = draw(st.sampled_from([400, 400, 400, 2500]))
    return dict(
        kind=kind, n=n, truth=truth, n_pixels=draw(st.integers(1, 6)),
        n_events=draw(st.lists(st.integers(100, most), min_size=n,
                               max_size=n)),
        column=draw(st.sampled_from(["charge_cc", "charge_averagewf"])),
        n_processes=processes or draw(st.sampled_from(
            [1, 1, 2, 3, 4, 7])),
        config=draw(st.booleans()), seed=draw(st.integers(0, 2 ** 16)),
        n_bins=draw(st.sampled_from([30, 40, 64])),
        order=draw(st.booleans()))


def write_inputs(ctx, case):
    """DL1 files, and per file the charges of each event and pixel"""
    rng = np.random.RandomState(case["seed"])
    n_pix = case["n_pixels"]
    paths, charges, mappings = [], [], []
    for i in range(case["n"]):
        m = case["n_events"][i]
        one = []
        for p in range(n_pix):
            c, _ = c28.make_charges(dict(
                case, n=1, n_charges=m, n_bins=7, range=[-1e6, 1e6],
                ends=False, odd=False, dtype="float32", truth={
                    k: [v[i if len(v) > 1 else 0] * (
                        1 + 0.05 * p if k == "lambda_" else 1)]
                    for k, v in case["truth"].items()}), rng)
            c = c[0]
            one.append(np.resize(c, m))
        q = np.array(one).T
        path = ctx.path(f"Run{i ^ case['order']:05}_dl1.h5")
        other = "charge_averagewf" if case["column"] == "charge_cc" else \
            "charge_cc"
        df = pd.DataFrame(dict(
            iev=np.repeat(np.arange(m, dtype=np.uint32), n_pix),
            pixel=np.tile(np.arange(n_pix, dtype=np.uint32), m)))
        names = [case["column"], other]
        for name in names if case["order"] else names[::-1]:
            df[name] = q.ravel() if name == case["column"] else rng.normal(
                size=q.size).astype(np.float32) * 3
        layout = camera.build_layout([(0, 0), (0, 1)][:1 + i % 2],
                                     pitch=0.006 + 0.001 * i)
        mapping = camera.clp_mapping(layout)
        with HDF5Writer(path) as w:
            w.append(df, key="data")
            w.add_mapping(mapping)
            w.add_metadata(
                source="Reader", date_generated=pd.Timestamp(0), n_events=m,
                n_modules=1, n_pixels=n_pix, n_superpixels_per_module=1,
                n_samples=40, camera_version="1.1.0", is_mc=False, run_id=i)
        paths.append(path)
        charges.append(q)
        mappings.append(mapping)
    return paths, charges, mappings


def write_config(ctx, case):
    rng = np.random.RandomState(case["seed"] + 1)
    ranges, _ = c28.values(case["kind"])
    initial = {k: float(v[0] + 0.05 * (hi - lo) * rng.uniform(-1, 1))
               for (k, v), (lo, hi) in zip(case["truth"].items(),
                                           ranges.values())}
    limits = {k: [float(lo - (hi - lo)) if k == "eped" else float(lo * 0.3),
                  float(hi + (hi - lo)) if k != "opct" else 0.8]
              for k, (lo, hi) in ranges.items()}
    config = dict(n_bins=case["n_bins"], range=[-4, 16], initial=initial,
                  limits=limits, fixed=dict(eped=bool(rng.rand() < 0.4)))
    if not case["config"]:
        # only what is needed for a fit in these units
        config.pop("n_bins")
        config.pop("fixed")
    path = ctx.path("config.yml")
    with open(path, "w") as f:
        yaml.safe_dump(config, f)
    return path


def run_script(ctx, case, paths, config, output, n_processes):
    argv = ["extract_spe", "-f", *paths, "-o", output, "-C",
            case["column"], "-s", FITTERS[case["kind"]].__name__, "-c",
            config]
    if n_processes != 1:
        argv += ["--n_processes", str(n_processes)]
    if case["kind"] == "mapm":
        # its compiled code starts threads, do not fork after that
        code = ("import sys; sys.path.insert(0, sys.argv.pop(1)); "
                "from CHECLabPy.scripts.extract_spe import main; main()")
        res = subprocess.run(
            [sys.executable, "-W", "ignore", "-c", code,
             os.path.dirname(PACKAGE)] + argv[1:], capture_output=True,
            text=True, timeout=90)
        ctx.check(res.returncode == 0, lambda: (
            f"extract_spe ended with {res.returncode}: {res.stderr[-600:]}"))
        return
    old = sys.argv
    sys.argv = argv
    try:
        ctx.call(f"extract_spe with {n_processes} processes",
                 extract_spe.main)
    finally:
        sys.argv = old


def direct(case, charges, config):
    """Each pixel fitted with a fitter of its own"""
    out = []
    for p in range(case["n_pixels"]):
        f = FITTERS[case["kind"]](case["n"])
        f.load_config(config)
        f.apply(*[q[:, p] for q in charges])
        fx, fy = f.fit_result_curve
        hx, hy, he = f.charge_histogram
        out.append(dict(
            values=dict(f.fit_result_values), errors=dict(
                f.fit_result_errors),
            arrays=dict(charge_hist_x=hx, charge_hist_y=hy,
                        charge_hist_edges=he, fit_x=fx, fit_y=fy)))
    return out, f


def same(a, b):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


def compare(ctx, case, path, want, paths, mapping, config, what):
    n_pix = case["n_pixels"]
    with HDF5Reader(path) as r:
        tables = {k: ctx.call("read", r.read, k)
                  for k in ("values", "errors", "arrays")}
        got_mapping = r.get_mapping()
        meta = r.get_metadata()
    for key, df in tables.items():
        ctx.check(list(df.index) == list(range(n_pix)) and
                  df.index.name == "pixel", lambda: (
            f"{what}: rows of {key} are {list(df.index)}"))
        ctx.check(list(df.columns) == list(want[0][key]), lambda: (
            f"{what}: columns of {key} are {list(df.columns)}"))
        for p in range(n_pix):
            for c, w in want[p][key].items():
                g = df[c].iloc[p]
                ctx.check(same(g, w), lambda: (
                    f"{what}: {key} of pixel {p}: {c} is {g}, not {w}"))
    for c in mapping.columns:
        ctx.check(np.array_equal(got_mapping[c], mapping[c]), lambda: (
            f"{what}: mapping column {c}"))
    ctx.check(got_mapping.metadata["size"] == mapping.metadata["size"],
              f"{what}: mapping metadata")
    with open(config) as f:
        initial = yaml.safe_load(f)["initial"]
    lam = initial.pop("lambda_")
    initial.update({f"lambda_{i}": lam for i in range(case["n"])})
    for k, w in dict(files=paths, fitter=FITTERS[case["kind"]].__name__,
                     n_illuminations=case["n"], n_pixels=n_pix,
                     initial=initial).items():
        g = meta[k]
        g = list(g) if k == "files" else g
        ctx.check(g == w, f"{what}: metadata {k} is {g}, not {w}")


def check(ctx, case):
    paths, charges, mappings = write_inputs(ctx, case)
    config = write_config(ctx, case)
    results = []
    n = case["n_processes"]
    for m in {1, n} if case["kind"] == "sipm" else {n}:
        out = ctx.path(f"spe{m}.h5")
        run_script(ctx, case, paths, config, out, m)
        results.append((out, f"{m} processes"))
    want, _ = direct(case, charges, config)
    for out, what in results:
        compare(ctx, case, out, want, paths, mappings[0], config, what)
    if n > 1:
        ctx.note("in parallel")
    if case["n_pixels"] > 1:
        ctx.note("several pixels")


SUBS = [
    Sub("sipm", cases, check, quick=25, rule="several pixels, or in parallel"),
    Sub("mapm", lambda: cases("mapm"), check, quick=2,
        rule="several pixels, or in parallel"),
]
