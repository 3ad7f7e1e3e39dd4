"""C08: the right reader is chosen for every file."""
import gzip
import struct
from hypothesis import strategies as st
from vf import camera, runs
from vf.core import Sub
from CHECLabPy.core.io import (ReaderR0, ReaderR1, SimtelReader, TIOReader,
                               WaveformReader)

ASSUMPTIONS = [
    "target_io, target_calib and ctapipe are replaced by stand-ins",
]


@st.composite
def cases(draw):
    return dict(
        kind=draw(st.sampled_from(["tio", "tio", "simtel", "fits",
                                   "bytes", "fitsbytes"])),
        run=draw(runs.tio_runs(max_events=12)),
        compress=draw(st.booleans()), marker=draw(st.integers(0, 1)),
        name=draw(st.sampled_from([
            "Run00001_r0.tio", "Run00001_r1.tio", "run.simtel.gz", "x.fits",
            "gamma.simtel", "file", "a.tio.gz", "b.h5", "simtel_r1"])),
        raw=draw(st.binary(max_size=6) | st.binary(max_size=40)),
        max_events=draw(st.none() | st.integers(1, 12)))


def check(ctx, case):
    ctx.cleanups.append(runs.reset)
    path = ctx.path(case["name"])
    kind = case["kind"]
    expected = None
    n = None
    gz = case["compress"]
    if kind == "tio":
        run, _, _ = runs.register(path, case["run"])
        camera.write_fits(path, compress=gz)
        expected = TIOReader
        n = max(0, len(run["events"]) - 3)
    elif kind == "simtel":
        layout = camera.build_layout([(0, 0)])
        camera.register_camera("1.1.0", layout)
        events, _, _ = runs.simulate(layout, range(64), 6, 4, 1)
        runs.register_simtel(path, events, case["marker"], gz)
        expected = SimtelReader
        n = 6
    elif kind == "fits":
        camera.write_fits(path, with_event_header=False, compress=gz)
    else:
        raw = case["raw"]
        if kind == "fitsbytes":
            raw = raw + b"FITS" + raw
        if raw[:2] == b"\x1f\x8b" or (
                len(raw) > 3 and
                struct.unpack("I", raw[:4])[0] in runs.MARKERS):
            raw = b"abcd" + raw
        with (gzip.open if gz else open)(path, "wb") as f:
            f.write(raw)
    ctx.note(f"{kind}, {'compressed' if gz else 'plain'}",
             kind in ("tio", "simtel"))
    for cls in (TIOReader, SimtelReader, ReaderR0, ReaderR1):
        got = ctx.call("is_compatible", cls.is_compatible, path)
        want = expected is not None and issubclass(cls, expected)
        ctx.check(bool(got) == want,
                  f"{cls.__name__}.is_compatible is {got} for {kind}")
    reader = ctx.call("from_path", WaveformReader.from_path, path,
                      case["max_events"])
    if expected is None:
        ctx.check(reader is None, f"{type(reader).__name__} for {kind}")
        return
    ctx.check(type(reader) is expected,
              f"{type(reader).__name__} for {kind}")
    if case["max_events"]:
        n = min(n, case["max_events"])
    ctx.check(len(reader) == n, f"{len(reader)} events instead of {n}")
    reader = ctx.call("from_path", WaveformReader.from_path, path)
    ctx.check(reader.is_mc == (expected is SimtelReader), "is_mc")
    if expected is TIOReader:
        good, bad = (ReaderR1, ReaderR0) if run["is_r1"] else \
            (ReaderR0, ReaderR1)
        r = ctx.call("reader of the level", good, path)
        ctx.check(r.is_r1 == run["is_r1"], "level")
        ctx.raises("reader of the other level", IOError, bad, path)
        r = ctx.call("from_path of the level", good.from_path, path) \
            if good.__subclasses__() else None
    ctx.raises("a missing file", FileNotFoundError, TIOReader,
               ctx.path("missing"))
    ctx.raises("a missing file", FileNotFoundError, SimtelReader,
               ctx.path("missing"))


SUBS = [Sub("formats", cases, check, quick=600,
            rule="the file is a raw or simulated run")]
