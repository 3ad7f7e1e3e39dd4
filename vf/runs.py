"""Generated runs: TARGET IO files and simulated files, served by the fakes."""
from types import SimpleNamespace as NS
import numpy as np
from hypothesis import strategies as st
from vf import camera


@st.composite
def tio_runs(draw, max_events=10, is_r1=None, max_pixels=6, bad=True,
             n_samples=None):
    n_events = draw(st.one_of(
        st.integers(0, max_events), st.integers(max_events // 2, max_events)))
    n_modules = draw(st.sampled_from([1, 1, 2, 2, 3, 3, 4, 11, 32]))
    return dict(
        is_r1=draw(st.booleans()) if is_r1 is None else is_r1,
        n_events=n_events, n_modules=n_modules,
        n_pixels=n_modules * draw(st.integers(1, max_pixels)),
        n_samples=n_samples or draw(st.integers(1, 40)),
        seed=draw(st.integers(0, 2 ** 16)),
        run_id=draw(st.integers(0, 10 ** 6)),
        n_sp=draw(st.sampled_from([1, 2, 3, 11, 16])),
        n_cells=draw(st.sampled_from([128, 4096, 16384])),
        version=draw(st.sampled_from(["1.0.1", "1.1.0", "2.3.4"])),
    )


def make_run(case):
    """The run as the fake target_io serves it, events before any skipping"""
    rng = np.random.RandomState(case["seed"])
    shape = (case["n_pixels"], case["n_samples"])
    events = []
    for _ in range(case["n_events"]):
        if case["is_r1"]:
            samples = (rng.normal(size=shape) * 20).astype(np.float32)
        else:
            samples = rng.randint(0, 4096, shape).astype(np.uint16)
            if rng.rand() < 0.3:
                samples[rng.rand(*shape) < 0.3] = 65535
        events.append(dict(
            samples=samples,
            first_cell_id=int(rng.randint(0, 2 ** 14) * (rng.rand() < 0.8)),
            stale=bool(rng.rand() < 0.2),
            missing_packets=bool(rng.rand() < 0.2),
            t_tack=int(rng.randint(0, 2 ** 62, dtype=np.int64) *
                       (rng.rand() < 0.9)),
            t_cpu_s=int(rng.randint(0, 2 ** 32, dtype=np.int64)),
            t_cpu_ns=int(rng.randint(0, 10 ** 9))))
    nm, ns = case["n_modules"], case["n_sp"]
    return dict(
        is_r1=case["is_r1"], run_id=case["run_id"],
        n_pixels=case["n_pixels"], n_superpixels_per_module=ns,
        n_modules=nm, n_samples=case["n_samples"],
        camera_version=case["version"], events=events,
        sn=[int(rng.randint(0, [100, 2 ** 17, 2 ** 31 - 1][k]))
            for k in rng.randint(0, 3, nm)],
        sipm_temp=rng.normal(size=nm).tolist(),
        primary_temp=rng.normal(size=nm).tolist(),
        dac=(rng.randint(0, 256, (nm, ns)) *
             (rng.rand(nm, ns) < 0.9)).tolist(),
        hvon=rng.randint(0, 2, (nm, ns)).tolist())


def register(path, case, run=None, layout=None, ref_path=None):
    """Make a run available under a path; gives the run and its layout"""
    run = run or make_run(case)
    layout = layout or camera.build_layout(
        [(0, i) for i in range(case["n_modules"])])
    single = camera.build_layout([(0, 0)])
    cfg = camera.register_camera(
        case["version"], layout,
        single_layout=layout if case["n_modules"] == 1 else single,
        n_cells=case["n_cells"],
        reference_pulse_path=ref_path or f"/ref/{case['version']}.txt")
    camera.write_fits(path)
    camera.register_run(path, run)
    return run, layout, cfg


def reset():
    import target_io
    import target_calib
    import ctapipe.io
    target_io.reset()
    target_calib.reset()
    target_calib.Mapping.REGISTRY.clear()
    ctapipe.io.reset()


# ---------------------------------------------------------------- simulation
MARKERS = [3558836791, 931798996]
MC = ["energy", "alt", "az", "core_x", "core_y", "h_first_int", "x_max"]
HEADER_Q = [
    "energy_range_min", "energy_range_max", "prod_site_B_total",
    "prod_site_B_declination", "prod_site_B_inclination", "prod_site_alt",
    "max_alt", "min_alt", "max_az", "min_az", "max_viewcone_radius",
    "min_viewcone_radius", "max_scatter_range", "min_scatter_range",
    "injection_height", "corsika_wlen_min", "corsika_wlen_max"]
HEADER = [
    "corsika_version", "simtel_version", "spectral_index",
    "shower_prog_start", "shower_prog_id", "detector_prog_start",
    "detector_prog_id", "num_showers", "shower_reuse", "diffuse",
    "core_pos_mode", "atmosphere", "corsika_iact_options",
    "corsika_low_E_model", "corsika_high_E_model", "corsika_bunchsize",
    "corsika_low_E_detail", "corsika_high_E_detail"]


def simulate(layout, perm, n_events, n_samples, seed, tel=1, make=None):
    """
    Simulated events whose pixels are in another order than the camera's.
    Pixel i of the simulation is pixel perm[i] of the camera.  Gives the
    events and, per event, what the user should see.
    """
    from astropy import units as u
    from ctapipe.instrument import CameraGeometry
    from ctapipe.coordinates import CameraFrame
    rng = np.random.RandomState(seed)
    perm = np.asarray(perm)
    x = np.array(layout["columns"]["xpix"])[perm]
    y = np.array(layout["columns"]["ypix"])[perm]
    # a two-mirror telescope: the engineering frame is (-y, -x)
    geom = CameraGeometry("CHEC", np.arange(perm.size), -y * u.m, -x * u.m,
                          None, "rectangular", frame=CameraFrame())
    q = lambda: NS(value=float(rng.normal()))
    header = NS(**{k: q() for k in HEADER_Q},
                **{k: int(rng.randint(1000)) for k in HEADER})
    obs_id = int(rng.randint(1, 10000))
    events, seen = [], []
    for i in range(n_events):
        n = perm.size
        if make is None:
            wf = (rng.normal(size=(n, n_samples)) * 5).astype(np.float32)
        else:
            wf = make(rng, n, n_samples)
        true = rng.poisson(3, n)
        bright = rng.rand(n) < 0.02
        true[bright] = rng.randint(0, [300, 2 ** 17, 2 ** 24][
            (seed + i) % 3], bright.sum())
        sim_wf, sim_true = wf[perm], true[perm]
        gps = float(rng.randint(10 ** 9)) + 0.25
        mc = NS(**{k: q() for k in MC}, shower_primary_id=int(rng.randint(99)))
        mc.tel = {tel: NS(
            photo_electron_image=sim_true, azimuth_raw=float(rng.normal()),
            altitude_raw=float(rng.normal()), azimuth_cor=float(rng.normal()),
            altitude_cor=float(rng.normal()))}
        event = NS(
            count=i, r0=NS(tels_with_data=[tel], obs_id=obs_id, tel={
                tel: NS(waveform=(sim_wf[None] * 7 + 400))}),
            r1=NS(tel={tel: NS(waveform=sim_wf)}), mc=mc,
            trig=NS(gps_time=NS(value=gps)), mcheader=header,
            inst=NS(subarray=NS(tel={tel: NS(camera=geom)})))
        events.append(event)
        seen.append(dict(
            samples=wf, mc_true=true, gps=gps,
            mc={k: getattr(mc, k).value for k in MC},
            primary=mc.shower_primary_id,
            pointing={k: getattr(mc.tel[tel], k) for k in (
                "azimuth_raw", "altitude_raw", "azimuth_cor",
                "altitude_cor")}))
    head = dict(obs_id=obs_id, **{k: getattr(header, k).value
                                  for k in HEADER_Q},
                **{k: getattr(header, k) for k in HEADER})
    return events, seen, head


def register_simtel(path, events, marker=0, compress=False):
    import gzip
    import os
    import struct
    import ctapipe.io
    op = gzip.open if compress else open
    with op(path, "wb") as f:
        f.write(struct.pack("I", MARKERS[marker]) + b"\0" * 60)
    ctapipe.io.FILES[os.path.abspath(path)] = events
