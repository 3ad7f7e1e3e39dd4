"""C32: superpixel and module mappings regroup the pixel mapping."""
import numpy as np
from hypothesis import strategies as st
from vf import camera, runs
from vf.core import Sub
from CHECLabPy.utils import mapping as M

ASSUMPTIONS = ["target_calib and ctapipe are replaced by stand-ins"]
GRID = [(r, c) for r in range(6) for c in range(6)]


@st.composite
def layouts(draw, most=8):
    kind = draw(st.sampled_from(["few", "few", "one", "chec"]))
    if kind == "one":
        positions = [(0, 0)]
    elif kind == "chec":
        positions = list(draw(st.permutations(camera.CHEC_POSITIONS)))
    else:
        positions = draw(st.lists(st.sampled_from(GRID), min_size=1,
                                  max_size=most, unique=True))
    return dict(
        positions=positions, sp_perm=draw(st.permutations(range(16))),
        pix_perm=draw(st.permutations(range(4))),
        pitch=draw(st.sampled_from([0.006, 0.0061, 1.0])),
        gap=draw(st.sampled_from([0.0, 0.0005, 0.002])),
        off_x=draw(st.sampled_from([0.0, 0.1, -3.3])),
        off_y=draw(st.sampled_from([0.0, 0.07, 12.0])))


@st.composite
def cases(draw):
    return dict(layout=draw(layouts()), shuffle=draw(st.booleans()),
                seed=draw(st.integers(0, 2 ** 16)),
                single=draw(st.booleans()), version=draw(st.sampled_from(
                    ["1.0.1", "1.1.0", "7.0"])))


def regroup(layout, key, n, factor):
    """index -> (row, col, x, y, slot, asic) straight from the pixels"""
    c = layout["columns"]
    out = {}
    for i in range(len(c["pixel"])):
        out.setdefault(c[key][i], []).append(i)
    res = {}
    for k in sorted(out):
        rows = {c["row"][i] // factor for i in out[k]}
        cols = {c["col"][i] // factor for i in out[k]}
        assert len(rows) == len(cols) == 1 and len(out[k]) == n
        res[k] = dict(
            row=rows.pop(), col=cols.pop(),
            xpix=sum(c["xpix"][i] for i in out[k]) / n,
            ypix=sum(c["ypix"][i] for i in out[k]) / n,
            slot=c["slot"][out[k][0]],
            asic=min(c["asic"][i] for i in out[k]))
    return res


def check_derived(ctx, what, df, want, index, columns, meta, factor):
    ctx.check(set(df.columns) == set(columns), lambda: (
        f"{what}: columns {list(df.columns)}"))
    ctx.check(list(df[index]) == list(want), lambda: (
        f"{what}: rows are {list(df[index])[:8]}"))
    for c in columns:
        if c == index:
            continue
        w = [want[k][c] for k in want]
        g = df[c].values
        if c in ("xpix", "ypix"):
            ok = np.allclose(g, w, rtol=0, atol=1e-12 * (
                1 + np.abs(w).max()))
        else:
            ok = np.array_equal(g, w)
        ctx.check(ok, lambda: f"{what}: {c} is {g[:8]}, not {w[:8]}")
    expect = dict(meta, n_rows=max(v["row"] for v in want.values()) + 1,
                  n_columns=max(v["col"] for v in want.values()) + 1,
                  size=meta["size"] * factor)
    ctx.check(dict(df.metadata) == expect, lambda: (
        f"{what}: metadata {df.metadata}, not {expect}"))


def check(ctx, case):
    import target_calib as tc
    ctx.cleanups.append(runs.reset)
    layout = camera.build_layout(**case["layout"])
    mapping = camera.clp_mapping(layout, "/cfg/a.cfg", case["single"])
    meta = dict(mapping.metadata)
    if case["shuffle"]:
        order = np.random.RandomState(case["seed"]).permutation(len(mapping))
        mapping = mapping.iloc[order]
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore", UserWarning)
            mapping.metadata = dict(meta)
    kept = mapping.copy()
    sp = ctx.call("get_superpixel_mapping", M.get_superpixel_mapping, mapping)
    check_derived(ctx, "superpixels", sp, regroup(layout, "superpixel", 4, 2),
                  "superpixel", ["superpixel", "slot", "asic", "row", "col",
                                 "xpix", "ypix"], meta, 2)
    tm = ctx.call("get_tm_mapping", M.get_tm_mapping, mapping)
    check_derived(ctx, "modules", tm, regroup(layout, "slot", 64, 8), "slot",
                  ["slot", "row", "col", "xpix", "ypix"], meta, 8)
    ctx.check(kept.equals(mapping) and mapping.metadata == meta,
              "the pixel mapping was changed")
    # TARGET mappings
    version = case["version"]
    other = camera.build_layout([(0, 0)], pitch=0.5)
    camera.register_camera(version, layout, other,
                           reference_pulse_path="/ref/p.txt",
                           cfgfile="/cfg/a.cfg")
    camera.register_camera(version + "x", other, layout,
                           reference_pulse_path="/ref/q.txt",
                           cfgfile="/cfg/b.cfg")
    for v, single, lay, cfg, ref in (
            (version, False, layout, "/cfg/a.cfg", "/ref/p.txt"),
            (version, True, other, "/cfg/a.cfg", "/ref/p.txt"),
            (version + "x", True, layout, "/cfg/b.cfg", "/ref/q.txt")):
        got = ctx.call("get_clp_mapping_from_version",
                       M.get_clp_mapping_from_version, v, single)
        want = camera.clp_mapping(lay, cfg, single)
        ctx.check(got.equals(want), f"mapping of version {v}, {single}")
        ctx.check(dict(got.metadata) == dict(want.metadata), lambda: (
            f"metadata of version {v}, {single}: {got.metadata}, not "
            f"{want.metadata}"))
        back = ctx.call("get_tc_mapping_from_clp_mapping",
                        M.get_tc_mapping_from_clp_mapping, got)
        ctx.check(isinstance(back, tc.Mapping) and back.layout is lay and
                  back.GetCfgPath() == cfg and
                  back.IsSingleModule() == single, f"TARGET mapping of {v}")
        again = ctx.call("get_clp_mapping_from_tc_mapping",
                         M.get_clp_mapping_from_tc_mapping, back)
        ctx.check(again.equals(got) and again.metadata == got.metadata,
                  "there and back again")
        ctx.check(M.get_ref_path_from_version(v) == ref,
                  f"reference pulse of {v}")
    # the camera geometry
    if not case["shuffle"]:
        g = ctx.call("get_ctapipe_camera_geometry",
                     M.get_ctapipe_camera_geometry, mapping)
        ctx.check(np.array_equal(g.pix_id, mapping["pixel"]) and
                  np.array_equal(g.pix_x.to("m").value, mapping["xpix"]) and
                  np.array_equal(g.pix_y.to("m").value, mapping["ypix"]),
                  "pixels of the camera geometry")
        ctx.check(g.frame.n_mirrors == 2 and g.pix_type == "rectangular",
                  "frame of the camera geometry")
        ctx.check(g.sampling_rate.to("GHz").value == 1,
                  "sampling rate of the camera geometry")
    if len(case["layout"]["positions"]) > 1:
        ctx.note("several modules")


SUBS = [Sub("mapping", cases, check, quick=300, rule="several modules")]
