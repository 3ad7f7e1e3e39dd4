"""Serves simulated events that the checks register, keyed by file path."""
import os

FILES = {}


def reset():
    FILES.clear()


class SimTelEventSource:
    def __init__(self, input_url, max_events=None, back_seekable=False, **kw):
        self.events = FILES[os.path.abspath(str(input_url))]
        if max_events:
            self.events = self.events[:max_events]

    def __iter__(self):
        return iter(self.events)


class EventSeeker:
    def __init__(self, reader, *args, **kwargs):
        self._reader = reader
        self._container = None

    def _fill(self, event):
        # One container is filled anew for every event
        if self._container is None:
            self._container = type(event)()
        vars(self._container).clear()
        vars(self._container).update(vars(event))
        return self._container

    def __getitem__(self, iev):
        return self._fill(self._reader.events[iev])

    def __iter__(self):
        for event in self._reader.events:
            yield self._fill(event)

    def __len__(self):
        return len(self._reader.events)
