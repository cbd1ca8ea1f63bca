class Event:
    """pm4py.objects.log.obj.Event: a mapping"""
    def __init__(self):
        self._dict = {}

    def __setitem__(self, key, value):
        self._dict[key] = value


class Trace:
    """pm4py.objects.log.obj.Trace: a sequence of events with attributes"""
    def __init__(self):
        self._list = []
        self.attributes = {}

    def append(self, event):
        self._list.append(event)

    def __iter__(self):
        return iter(self._list)


class EventLog:
    """pm4py.objects.log.obj.EventLog: a sequence of traces with attributes and header data"""
    def __init__(self):
        self._list = []
        self.attributes = {}
        self.properties = {}
        self.classifiers = {}
        self.extensions = {}
        self.omni_present = {}

    def append(self, trace):
        self._list.append(trace)

    def __iter__(self):
        return iter(self._list)
