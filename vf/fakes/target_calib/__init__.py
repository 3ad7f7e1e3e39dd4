"""
Stand-in for the TARGET `target_calib` library (C++/SWIG, not installable
here).  It implements only the interface CHECLabPy consumes, on top of camera
layouts that the checks generate and register.
"""
import numpy as np
import pandas as pd

CONFIGS = {}      # version -> dict(layout, n_cells, reference_pulse_path)
CALIBRATORS = {}  # pedestal path -> dict(pedestal, gain)
LOG = []


def reset():
    CONFIGS.clear()
    CALIBRATORS.clear()
    LOG.clear()


class Mapping:
    """Camera layout; `layout` is a dict of plain data (see vf.camera)."""

    REGISTRY = {}  # (cfgfile, single) -> layout

    def __init__(self, cfgfile, is_single_module=False):
        self._cfgfile = cfgfile
        self._single = bool(is_single_module)
        self.layout = self.REGISTRY[(cfgfile, self._single)]
        for name in ("fOTUpRow_l", "fOTUpRow_u", "fOTUpCol_l", "fOTUpCol_u",
                     "fOTUpX_l", "fOTUpX_u", "fOTUpY_l", "fOTUpY_u"):
            setattr(self, name, self.layout["meta"][name])

    def as_dataframe(self):
        return pd.DataFrame({
            k: np.array(v) for k, v in self.layout["columns"].items()
        })

    def GetCfgPath(self):
        return self._cfgfile

    def IsSingleModule(self):
        return self._single

    def _m(self, name):
        return self.layout["meta"][name]

    def GetNPixels(self):
        return self._m("n_pixels")

    def GetNModules(self):
        return self._m("n_modules")

    def GetNTMPix(self):
        return self._m("n_tmpix")

    def GetNSuperPixels(self):
        return self._m("n_superpixels")

    def GetNRows(self):
        return self._m("n_rows")

    def GetNColumns(self):
        return self._m("n_columns")

    def GetSize(self):
        return self._m("size")


class CameraConfiguration:
    def __init__(self, version):
        self._version = version
        self._c = CONFIGS[version]

    def GetMapping(self, singleModule=False):
        return Mapping(self._c["cfgfile"], singleModule)

    def GetNCells(self):
        return self._c["n_cells"]

    def GetVersion(self):
        return self._version

    def GetReferencePulsePath(self):
        return self._c["reference_pulse_path"]


class Calibrator:
    """r1 = (r0 - pedestal[pixel]) * gain, written into the output array."""

    def __init__(self, path):
        self.path = path
        LOG.append(("Calibrator", path))

    def ApplyEvent(self, waveforms, fci, out):
        c = CALIBRATORS[self.path]
        assert fci.dtype == np.uint16 and fci.shape == (waveforms.shape[0],)
        assert out.dtype == np.float32 and out.shape == waveforms.shape
        LOG.append(("ApplyEvent", int(fci[0]), bool((fci == fci[0]).all())))
        ped = np.asarray(c["pedestal"], dtype=np.float64)[:, None]
        res = (np.asarray(waveforms, np.float64) - ped) * c["gain"]
        np.asarray(out)[...] = res.astype(np.float32)


class CalibratorMultiFile(Calibrator):
    def __init__(self, path, sn_list):
        super().__init__(path)
        self.sn_list = list(sn_list)
        LOG.append(("CalibratorMultiFile", path, list(sn_list)))
