"""C24: amplitude matching stays in range, terminates and honours masks."""
import numpy as np
from hypothesis import strategies as st
from vf import runs
from vf.core import Sub
from CHECLabPy.calib import (
    AmplitudeMatcher, IlluminationProfile, WaveformCalibrator)

ASSUMPTIONS = ["target_calib and target_io are replaced by stand-ins"]
N, NSP = 2048, 512
DAC = np.arange(256)
SKIP = 3   # the reader drops the first two events and the last
LIMIT = 600


@st.composite
def cases(draw, noisy=None):
    return dict(
        seed=draw(st.integers(0, 2 ** 16)),
        # mean amplitudes are multiples of a quarter
        aim=draw(st.integers(20, 400)) + (0.37 if noisy else draw(
            st.sampled_from([0.37, 0.37, 0, 0.25]))),
        noise=draw(st.sampled_from([0.5, 5, 50])) if noisy else 0,
        spread=draw(st.booleans()),
        start=draw(st.sampled_from([None, "same", "random", "grid", "ends",
                                    "int16", "columns"])),
        mask=draw(st.sampled_from([None, "few", "pixels", "grid", "most",
                                   "none"])),
        profile=draw(st.booleans()), n_events=draw(st.sampled_from([1, 2, 3])),
        steep=draw(st.booleans()), focus=draw(st.lists(
            st.tuples(st.integers(10, 255), st.floats(-0.49, 0.49)),
            max_size=6)),
        limit=draw(st.integers(3, 40)) if noisy else None,
        drift=draw(st.sampled_from([0, 0, 2, 15])))


def curves(case, rng):
    """Amplitude of each superpixel at each DAC value, falling with DAC"""
    aim = case["aim"]
    out = np.zeros((NSP, 256))
    kind = rng.randint(0, 6, NSP)
    for i in range(NSP):
        k = kind[i]
        at = rng.randint(10, 256)
        slope = rng.uniform(0.2, 8) if case["steep"] else rng.uniform(0.1, 1)
        y = aim + slope * (at + rng.uniform(-0.5, 0.5) - DAC)
        if k == 0:
            y = aim * np.exp((at - DAC) / rng.uniform(20, 200))
        elif k == 1:     # saturated
            y = np.minimum(y, aim * rng.uniform(0.8, 1.5))
        elif k == 2 and rng.rand() < 0.3:     # dead, or always too low / high
            y = aim * rng.choice([0, 0.5, 0.99, 1.01, 3]) - 0.02 * DAC
        elif k == 3:     # small steps
            y = aim + slope * (at - 4 * (DAC // 4))
        out[i] = y
    for j, (at, frac) in enumerate(case["focus"]):
        out[j] = aim + rng.uniform(0.5, 4) * (at + frac - DAC)
    return np.clip(out, 0, 3000)


def start_dacs(case, rng):
    return {
        None: None, "same": np.full(NSP, 60),
        "random": rng.randint(10, 256, NSP),
        "grid": rng.randint(10, 256, (32, 16)),
        "ends": rng.choice([10, 255], NSP),
        # laid out by columns in memory
        "columns": np.asfortranarray(rng.randint(10, 256, (32, 16))),
        "int16": rng.randint(10, 256, (32, 16)).astype(np.int16),
    }[case["start"]]


def masks(case, rng):
    """The argument, and the superpixels that it masks"""
    kind = case["mask"]
    if kind is None:
        return None, np.zeros(NSP, bool)
    m = rng.rand(NSP) < dict(few=0.05, most=0.9, none=0).get(kind, 0.2)
    if kind == "grid":
        m = m.reshape(32, 16)
        return (m if case["seed"] % 2 else np.asfortranarray(m)), m.ravel()
    if kind == "pixels":
        # a superpixel is masked when all of its pixels are
        pix = (rng.rand(NSP, 4) < 0.5) | m[:, None]
        return pix.ravel(), pix.all(1)
    return m, m


class Camera:
    def __init__(self, ctx, case, rng):
        import target_calib
        import target_io
        ctx.cleanups.append(runs.reset)
        self.case, self.rng = case, rng
        self.path = ctx.path("run_r0.tio")
        n = case["n_events"]
        self.ns = 4
        run = dict(is_r1=False, n_events=n + SKIP, n_modules=32, n_pixels=N,
                   n_samples=self.ns, seed=1, run_id=1, n_sp=16, n_cells=128,
                   version="1.1.0")
        self.run, _, _ = runs.register(self.path, run)
        self.ped = rng.randint(0, 40 if rng.rand() < 0.5 else 400, N)
        # how far the other samples go below the pedestal
        self.under = rng.choice([0, 3, 60, 390])
        target_calib.CALIBRATORS["/ped.tcal"] = dict(
            pedestal=self.ped, gain=1.0)
        self.calibrator = WaveformCalibrator("/ped.tcal", N, self.ns)
        self.profile, self.factor = None, np.ones(N)
        if case["profile"]:
            self.factor = rng.uniform(0.7, 1.3, N)
            path = ctx.path("profile.dat")
            with open(path, "w") as f:
                f.write("pixel\tcorrection\n")
                for i, c in enumerate(self.factor):
                    f.write(f"{i}\t{float(c)!r}\n")
            self.profile = IlluminationProfile(path)
        offset = rng.uniform(-6, 6, (NSP, 4)) if case["spread"] else np.zeros(
            (NSP, 4))
        # what the digitiser gives for each pixel (at every DAC value)
        amp = curves(case, rng)[:, None, :] + offset[:, :, None]
        self.counts = np.clip(np.round(
            amp.reshape(N, 256) * self.factor[:, None]), 0, 4000).astype(int)
        self.drifted = False

    def drift(self, by):
        """The response of the camera changes"""
        change = self.rng.uniform(-by, by, NSP)
        self.counts = np.clip(np.round(self.counts + np.repeat(
            change, 4)[:, None] * self.factor[:, None]), 0, 4000).astype(int)
        self.drifted = True

    def take(self, dac):
        """Record a run at these settings; gives the mean per pixel"""
        n = self.case["n_events"]
        counts = self.counts[np.arange(N), np.repeat(dac.ravel(), 4)]
        first = 2
        mean = np.zeros(N)
        for i in range(n):
            c = counts
            if self.case["noise"]:
                c = np.clip(np.round(counts + self.rng.normal(
                    0, self.case["noise"], N)), 0, 4000).astype(int)
            wf = -np.minimum(self.rng.randint(0, self.under + 1, (
                N, self.ns)), self.ped[:, None])
            at = self.rng.randint(0, self.ns, N)
            wf[np.arange(N), at] = c
            self.run["events"][first + i]["samples"] = (
                wf + self.ped[:, None]).astype(np.uint16)
            mean += c / self.factor
        return mean / n

    def truth(self):
        """Mean amplitude of the superpixels at every DAC value"""
        return (self.counts / self.factor[:, None]).reshape(
            NSP, 4, 256).mean(1)


class Procedure:
    """
    Steps of 10 towards the target until that makes it worse, which is taken
    back, or leads back to what was as good, then of 5, then of 1.  Once all
    superpixels are through, it starts over with the steps of 1.
    """
    def __init__(self, dac, masked, aim, noise):
        self.masked, self.aim, self.noise = masked, aim, noise
        self.dac, self.before = dac.copy(), dac.copy()
        self.steps = np.full(NSP, 0)
        self.last = None
        self.passes = 0
        self.sure = True

    def next(self, mean, got):
        """
        The settings that follow on these amplitudes.  With noise, whether it
        got worse can be a matter of rounding: then either may be the case.
        """
        mean = mean.reshape(NSP, 4).mean(1)
        if self.passes == 2:
            return self.dac
        distance = np.abs(mean - self.aim)
        worse = np.zeros(NSP, bool) if self.last is None \
            else distance > self.last
        size = np.array([10, 5, 1, 0])[self.steps]
        new = self.dac + size * np.sign(mean - self.aim).astype(int)
        going = self.steps < 3
        # going back to a setting that was as good
        equal = going & ~self.masked & (new == self.before) & (
            distance == self.last)
        if self.noise and self.last is not None:
            tie = going & ~self.masked & (
                np.abs(distance - self.last) <= 1e-9 * self.aim) & (
                    self.before != self.dac)
            limited = np.where((new < 10) | (new > 255), 255, new)
            self.sure &= not (tie & (limited == self.before)).any()
            equal = tie & (new == self.before) & (got == self.dac)
            worse = np.where(tie, got == self.before, worse)
        new = np.where(going & worse, self.before, new)
        new = np.where(going & equal, self.dac, new)
        out = going & ~worse & ~equal & ((new < 10) | (new > 255))
        self.steps = np.where(going & (worse | equal), self.steps + 1,
                              self.steps)
        self.steps[out | self.masked] = 3
        new[out] = 255
        new[self.masked & going] = 255
        self.before, self.dac, self.last = self.dac, new, distance
        if (self.steps == 3).all():
            self.passes += 1
            self.steps = np.full(NSP, 2)
            self.last = None
        return new


def follow(ctx, case, noisy):
    rng = np.random.RandomState(case["seed"])
    cam = Camera(ctx, case, rng)
    start = start_dacs(case, rng)
    given = None if start is None else start.copy()
    mask, masked = masks(case, rng)
    mask_given = None if mask is None else mask.copy()
    m = ctx.call("AmplitudeMatcher", AmplitudeMatcher, cam.calibrator,
                 case["aim"], starting_dacs=start, bad_hv=mask,
                 illumination_profile=cam.profile)
    dac = np.full(NSP, 100) if start is None else start.ravel().astype(int)
    previous = dac.copy()
    model = Procedure(dac, masked, case["aim"], case["noise"])
    finished = False
    moved = 0
    for it in range(case["limit"] or LIMIT):
        if model.passes == 1 and case["drift"] and not cam.drifted:
            cam.drift(case["drift"])
            ctx.note("response changed between the passes")
        mean = cam.take(dac)
        got, amplitude, finished = ctx.call("process", m.process, cam.path)
        ctx.check(np.shape(got) == (32, 16), f"DACs of shape {np.shape(got)}")
        ctx.check(np.allclose(amplitude, mean, rtol=1e-6, atol=1e-6), lambda: (
            f"iteration {it}: mean amplitudes {amplitude[:6]} instead of "
            f"{mean[:6]}"))
        new = np.asarray(got).ravel().astype(int).copy()
        ctx.check((np.asarray(got).ravel() == new).all() and (
            (new >= 10) & (new <= 255)).all(),
            lambda: f"iteration {it}: DACs outside of 10 to 255: {new}")
        ctx.check((new[masked] == 255).all(),
                  f"iteration {it}: a masked superpixel is not at 255")
        up = np.sign(mean.reshape(-1, 4).mean(1) - case["aim"]).astype(int)
        ok = masked | (new == dac) | (new == previous)
        for s in (10, 5, 1):
            to = dac + s * up
            ok |= new == to
            ok |= (new == 255) & ((to < 10) | (to > 255))
        ctx.check(ok.all(), lambda: (
            f"iteration {it}: superpixel {np.where(~ok)[0][0]} goes from "
            f"{dac[~ok][0]} (before: {previous[~ok][0]}) to {new[~ok][0]}, "
            f"amplitude {'too high' if up[~ok][0] > 0 else 'too low'}"))
        ends = model.passes == 2
        want = model.next(mean, new)
        ctx.check(bool(finished) == ends or not model.sure, lambda: (
            f"iteration {it}: finished is {finished} in pass {model.passes}"))
        ctx.check(np.array_equal(new, want) or not model.sure, lambda: (
            f"iteration {it}: superpixel {np.where(new != want)[0][0]} goes "
            f"from {dac[new != want][0]} to {new[new != want][0]}, not "
            f"{want[new != want][0]}"))
        if finished:
            ctx.check(np.array_equal(new, dac),
                      "the DACs change though the matching has finished")
            break
        moved += int((new != dac).sum())
        previous, dac = dac, new
    if case["limit"] is None:
        ctx.check(finished, f"not finished after {LIMIT} iterations")
    ctx.check(start is None or np.array_equal(start, given),
              "starting DACs changed")
    ctx.check(mask is None or np.array_equal(mask, mask_given),
              "mask changed")
    if not model.sure:
        ctx.note("lost track of the procedure", False)
    if moved > 100:
        ctx.note("many superpixels moved")
    return cam, m, dac, masked, finished


def check_ideal(ctx, case):
    cam, m, dac, masked, finished = follow(ctx, case, False)
    truth, aim = cam.truth(), case["aim"]
    distance = np.abs(truth - aim)
    for sp in range(NSP):
        if masked[sp]:
            continue
        allowed = distance[sp, 10:]
        best = allowed.min()
        if truth[sp, 10] < aim:
            # cannot reach the target
            if dac[sp] == 255 or distance[sp, dac[sp]] <= best + 1e-9:
                continue
            raise _bad(sp, dac, distance, truth)
        if distance[sp, dac[sp]] > best + 1e-6:
            raise _bad(sp, dac, distance, truth)
    # once finished it stays so
    cam.take(dac)
    again, _, done = ctx.call("process", m.process, cam.path)
    ctx.check(done and np.array_equal(np.ravel(again), dac),
              "the settings change after the end")


def _bad(sp, dac, distance, truth):
    from vf.core import Violation
    best = 10 + int(distance[sp, 10:].argmin())
    return Violation(
        f"superpixel {sp} ends at {dac[sp]} (off by "
        f"{distance[sp, dac[sp]]:.3f}) but {best} is better "
        f"({distance[sp, best]:.3f})")


def check_noisy(ctx, case):
    follow(ctx, case, True)


@st.composite
def long_cases(draw):
    return dict(n=draw(st.sampled_from([99, 100, 101, 130])),
                seed=draw(st.integers(0, 2 ** 16)))


def check_long(ctx, case):
    """At most the first hundred events are averaged"""
    rng = np.random.RandomState(case["seed"])
    cam = Camera(ctx, dict(n_events=case["n"], aim=100.37, steep=True,
                           focus=[], spread=False, profile=False, noise=0),
                 rng)
    m = AmplitudeMatcher(cam.calibrator, 100.37)
    amps = []
    for i in range(case["n"]):
        wf = rng.randint(0, 300, (N, cam.ns))
        cam.run["events"][2 + i]["samples"] = (
            wf + cam.ped[:, None]).astype(np.uint16)
        amps.append(wf.max(1))
    dac, amplitude, _ = ctx.call("process", m.process, cam.path)
    want = np.mean(amps[:100], axis=0)
    ctx.check(np.allclose(amplitude, want, rtol=1e-9), lambda: (
        f"{case['n']} events: {amplitude[:4]}, not {want[:4]}"))
    up = np.sign(want.reshape(-1, 4).mean(1) - 100.37)
    ctx.check(np.array_equal(np.ravel(dac), 100 + 10 * up), "first step")
    ctx.note("events averaged")


SUBS = [
    Sub("ideal", cases, check_ideal, quick=20,
        rule="the superpixels move more than 100 times in total"),
    Sub("noisy", lambda: cases(True), check_noisy, quick=60,
        rule="the superpixels move more than 100 times in total"),
    Sub("events", long_cases, check_long, quick=8,
        rule="the events are averaged"),
]
