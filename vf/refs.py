"""Slow, plain re-evaluations shared by several checks."""
import numpy as np


def rounding(wf):
    """Relative rounding of sums in the precision of the waveforms"""
    return 1e-13 if np.asarray(wf).dtype == np.float64 else 2e-6


def neighbours(mapping):
    """List of neighbouring pixels (by position) of each pixel"""
    x = np.asarray(mapping["xpix"], float)
    y = np.asarray(mapping["ypix"], float)
    d = np.hypot(x[:, None] - x, y[:, None] - y)
    np.fill_diagonal(d, np.inf)
    return [np.where(row < 1.4 * d.min())[0] for row in d]


def neighbour_average(values, nb):
    """Mean over the neighbours of each pixel (without the pixel itself)"""
    out = np.zeros(values.shape)
    for i, j in enumerate(nb):
        if len(j):
            out[i] = values[j].astype(float).mean(0)
    return out


def candidates(row, tol):
    """Where a maximum may be found, up to rounding"""
    return np.where(row >= row.max() - tol)[0]


def quadratic_time(y, i):
    """
    Interpolated position of the extremum at sample i, and its uncertainty
    for an error of 1 on the samples (infinite if it cannot be told).
    """
    n = len(y)
    if not 0 < i < n - 1:
        return float(i), 0.0
    y0, y1, y2 = (float(v) for v in y[i - 1:i + 2])
    b = y0 - 2 * y1 + y2
    if b == 0:
        return float(i), np.inf
    t = 0.5 * (y0 - y2) / b
    pos = t + i
    err = (2 + 4 * abs(t)) / abs(b)
    if not 0 <= pos < n:
        return float(i), err
    return pos, err


def check_time(ctx, what, got, y, i, delta):
    """The time `got` is the interpolated peak of y around sample i"""
    n = len(y)
    t, err = quadratic_time(y, i)
    near_edge = err and min(abs(t), abs(t - n)) < 1e-6
    if not np.isfinite(err) or err * delta > 0.05 or near_edge:
        ctx.check(-1e-9 <= got <= n, f"{what} is {got}, outside the readout")
        return False
    # an extremum outside of the readout falls back to the sample itself
    ctx.check(abs(got - t) <= err * delta + 1e-9, lambda: (
        f"{what} is {got!r}, not {t!r}"))
    return True


# ------------------------------------------------------- production of DL1
def time_shift(wf, t_cor):
    """Linear interpolation of each pixel at (sample - correction)"""
    n = wf.shape[1]
    x = np.arange(n)[None] - np.asarray(t_cor)[:len(wf), None]
    lo = np.clip(np.floor(x).astype(int), 0, n - 2)
    rows = np.arange(len(wf))[:, None]
    y1, y2 = wf[rows, lo], wf[rows, lo + 1]
    return (y1 + (y2 - y1) * (x - lo)).astype(wf.dtype)


class RollingBaseline:
    """Mean of the first samples over the last n_base processed events"""

    def __init__(self, events, n_pixels, n_base=50, n_samples=16):
        self.n_base, self.n_samples = n_base, n_samples
        self.memory = [np.zeros((n_pixels, n_samples))] * n_base
        for i, wf in enumerate(events[:n_base]):
            self.memory[i] = np.asarray(wf[:, :n_samples], float)
        self.count = 0

    def process(self, wf):
        self.memory[self.count % self.n_base] = np.asarray(
            wf[:, :self.n_samples], float)
        self.count += 1
        self.baseline = np.array(self.memory).mean((0, 2))
        return np.asarray(wf) - self.baseline[:, None]
