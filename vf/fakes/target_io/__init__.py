"""
Stand-in for the TARGET `target_io` library: serves runs that the checks
register, through the interface CHECLabPy consumes.
"""
import os
import numpy as np

RUNS = {}  # absolute path -> vf.camera.Run-like dict


def reset():
    RUNS.clear()


class WaveformArrayReader:
    def __init__(self, path, skip_events=2, skip_end_events=1):
        run = RUNS[os.path.abspath(path)]
        self._run = run
        self._skip = int(skip_events)
        self.fR1 = bool(run["is_r1"])
        self.fNEvents = max(
            0, len(run["events"]) - int(skip_events) - int(skip_end_events)
        )
        self.fRunID = run["run_id"]
        self.fNPixels = run["n_pixels"]
        self.fNSuperpixelsPerModule = run["n_superpixels_per_module"]
        self.fNModules = run["n_modules"]
        self.fNSamples = run["n_samples"]
        self.fCameraVersion = run["camera_version"]

    def _get(self, iev, samples, dtype):
        # like the wrapped C++ functions, which do not raise IndexError
        if iev < 0:
            raise OverflowError("argument of type 'uint32_t'")
        if iev >= self.fNEvents:
            raise RuntimeError("event out of range")
        assert samples.dtype == dtype, samples.dtype
        ev = self._run["events"][iev + self._skip]
        samples[...] = ev["samples"]
        return (ev["first_cell_id"], ev["stale"], ev["missing_packets"],
                ev["t_tack"], ev["t_cpu_s"], ev["t_cpu_ns"])

    def GetR1Event(self, iev, samples):
        assert self.fR1
        return self._get(iev, samples, np.float32)

    def GetR0Event(self, iev, samples):
        assert not self.fR1
        return self._get(iev, samples, np.uint16)

    def _of_module(self, name, tm, sp=None):
        """Unchecked access, like that of the wrapped C++ vectors"""
        if not 0 <= tm < self.fNModules:
            return -9999
        if sp is None:
            return self._run[name][tm]
        if not 0 <= sp < self.fNSuperpixelsPerModule:
            return -9999
        return self._run[name][tm][sp]

    def GetSN(self, tm):
        return self._of_module("sn", tm)

    def GetSiPMTemp(self, tm):
        return self._of_module("sipm_temp", tm)

    def GetPrimaryTemp(self, tm):
        return self._of_module("primary_temp", tm)

    def GetSPDAC(self, tm, sp):
        return self._of_module("dac", tm, sp)

    def GetSPHVON(self, tm, sp):
        return self._of_module("hvon", tm, sp)
