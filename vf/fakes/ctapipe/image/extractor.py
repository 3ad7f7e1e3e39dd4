import numpy as np


def _peaks(waveforms, peak_index):
    n = waveforms.shape[0]
    return np.broadcast_to(np.asarray(peak_index, dtype=np.int64), (n,))


def _window(n_samples, peak, width, shift):
    start = peak - shift
    end = start + width
    return range(max(start, 0), min(end, n_samples))


def sum_samples_around_peak(waveforms, peak_index, width, shift):
    wf = np.asarray(waveforms)
    out = np.zeros(wf.shape[0])
    for i, p in enumerate(_peaks(wf, peak_index)):
        for s in _window(wf.shape[1], int(p), width, shift):
            out[i] += wf[i, s]
    return out


def extract_pulse_time_around_peak(waveforms, peak_index, width, shift):
    wf = np.asarray(waveforms)
    out = np.zeros(wf.shape[0])
    for i, p in enumerate(_peaks(wf, peak_index)):
        num = den = 0.0
        for s in _window(wf.shape[1], int(p), width, shift):
            if wf[i, s] > 0:
                num += float(wf[i, s]) * s
                den += float(wf[i, s])
        out[i] = num / den if den > 0 else p
    return out


def neighbor_average_waveform(waveforms, neighbors, lwt):
    """Average of the neighbouring pixels, plus `lwt` times the pixel."""
    wf = np.asarray(waveforms, dtype=float)
    total = wf * lwt
    count = np.full(wf.shape, lwt, dtype=float)
    for a, b in np.asarray(neighbors):
        total[a] += wf[b]
        count[a] += 1
    count[count == 0] = 1
    return total / count


class _WindowSum:
    def __init__(self, window_width=7, window_shift=3, lwt=0, **kwargs):
        self.window_width = window_width
        self.window_shift = window_shift
        self.lwt = lwt
        self.neighbors = None

    def _peak(self, waveforms):
        raise NotImplementedError

    def __call__(self, waveforms):
        wf = np.asarray(waveforms)
        peak = self._peak(wf)
        return (
            sum_samples_around_peak(
                wf, peak, self.window_width, self.window_shift),
            extract_pulse_time_around_peak(
                wf, peak, self.window_width, self.window_shift),
        )


class LocalPeakWindowSum(_WindowSum):
    def _peak(self, waveforms):
        return waveforms.argmax(axis=-1)


class NeighborPeakWindowSum(_WindowSum):
    def _peak(self, waveforms):
        return neighbor_average_waveform(
            waveforms, self.neighbors, self.lwt).argmax(axis=-1)
