"""
Plain-data camera layouts, in the structure of the CHEC camera: square target
modules (TMs) of 8x8 pixels, made of 4x4 superpixels of 2x2 pixels, placed on
a grid of modules with gaps in between.
"""
import os
import numpy as np

IDENTITY16 = list(range(16))
IDENTITY4 = list(range(4))
CHEC_POSITIONS = [
    (r, c) for r in range(6) for c in range(6)
    if (r, c) not in ((0, 0), (0, 5), (5, 0), (5, 5))
]
COLUMNS = ["pixel", "slot", "asic", "channel", "tmpix", "row", "col",
           "sipmpix", "superpixel", "xpix", "ypix"]


def build_layout(positions, sp_perm=IDENTITY16, pix_perm=IDENTITY4,
                 pitch=0.006, gap=0.002, off_x=0.0, off_y=0.0):
    """
    positions : list of (row, col) of the module in each slot
    sp_perm   : block (of 4x4) at which each superpixel of a module is placed
    pix_perm  : corner (of 2x2) at which each pixel of a superpixel is placed
    """
    pos = np.array(positions)
    pos = pos - pos.min(0)
    n_tm = len(positions)
    pix = np.arange(n_tm * 64)
    slot = pix // 64
    tmpix = pix % 64
    block = np.array(sp_perm)[tmpix // 4]
    corner = np.array(pix_perm)[tmpix % 4]
    row = pos[slot, 0] * 8 + (block // 4) * 2 + corner // 2
    col = pos[slot, 1] * 8 + (block % 4) * 2 + corner % 2
    x = col * pitch + pos[slot, 1] * gap
    y = row * pitch + pos[slot, 0] * gap
    x = x - (x.max() + x.min()) / 2 + off_x
    y = y - (y.max() + y.min()) / 2 + off_y
    columns = dict(
        pixel=pix.tolist(), slot=slot.tolist(), asic=(tmpix // 16).tolist(),
        channel=(tmpix % 16).tolist(), tmpix=tmpix.tolist(),
        row=row.tolist(), col=col.tolist(), sipmpix=tmpix.tolist(),
        superpixel=(pix // 4).tolist(), xpix=x.tolist(), ypix=y.tolist(),
    )
    n_rows, n_cols = int(row.max()) + 1, int(col.max()) + 1
    meta = dict(
        n_pixels=n_tm * 64, n_modules=n_tm, n_tmpix=64,
        n_superpixels=n_tm * 16, n_rows=n_rows, n_columns=n_cols, size=pitch,
        fOTUpRow_l=n_rows - 5, fOTUpRow_u=n_rows - 1,
        fOTUpCol_l=n_cols - 4, fOTUpCol_u=n_cols - 3,
        fOTUpX_l=float(x.max()), fOTUpX_u=float(x.max()) + 0.01,
        fOTUpY_l=float(y.max()), fOTUpY_u=float(y.max()) + 0.02,
    )
    return dict(columns=columns, meta=meta)


def chec_layout(**kw):
    return build_layout(CHEC_POSITIONS, **kw)


def clp_mapping(layout, cfgfile="/cfg/camera.cfg", single=False):
    """The mapping dataframe with its metadata, built independently of /repo"""
    import warnings
    import pandas as pd
    df = pd.DataFrame({k: np.array(v) for k, v in layout["columns"].items()})
    with warnings.catch_warnings():
        warnings.simplefilter("ignore", UserWarning)
        df.metadata = dict(
            cfgfile=cfgfile, is_single_module=single, **layout["meta"])
    return df


def register_camera(version, layout, single_layout=None, n_cells=16384,
                    reference_pulse_path=None, cfgfile=None):
    import target_calib as tc
    cfgfile = cfgfile or f"/cfg/{version}.cfg"
    tc.CONFIGS[version] = dict(
        cfgfile=cfgfile, n_cells=n_cells,
        reference_pulse_path=reference_pulse_path,
    )
    tc.Mapping.REGISTRY[(cfgfile, False)] = layout
    tc.Mapping.REGISTRY[(cfgfile, True)] = single_layout or layout
    return cfgfile


def write_fits(path, with_event_header=True, compress=False):
    """A minimal file that announces itself as a TARGET IO file"""
    import gzip
    from astropy.io import fits
    h = fits.Header()
    h["SIMPLE"] = True
    h["BITPIX"] = 8
    h["NAXIS"] = 0
    h["EXTEND"] = True
    # every real TARGET IO file carries the standard FITS comment
    h["COMMENT"] = ("FITS (Flexible Image Transport System) format is "
                    "defined in")
    if with_event_header:
        h["EVENT_HEADER_VERSION"[:8]] = 1
        h["HIERARCH EVENT_HEADER_VERSION"] = 1
    data = h.tostring(sep="", endcard=True, padding=True).encode()
    op = gzip.open if compress else open
    with op(path, "wb") as f:
        f.write(data)


def register_run(path, run):
    import target_io
    target_io.RUNS[os.path.abspath(path)] = run
