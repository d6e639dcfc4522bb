"""C32: metrics declared where they are used, before anything is initialised."""
import os

import xoscar as xo
from xoscar.metrics import Metrics

EARLY = {
    "counter": Metrics.counter("early.counter", "c", ("t",)),
    "gauge": Metrics.gauge("early.gauge", "g"),
}


def exported(name):
    """What this process shows of a metric: {tags: value}."""
    from prometheus_client import REGISTRY

    out = {}
    for m in REGISTRY.collect():
        if m.name == name.replace(".", ":"):
            for s in m.samples:
                out[tuple(sorted(s.labels.items()))] = s.value
    return out


class Meter(xo.StatelessActor):
    def __init__(self):
        super().__init__()
        self.late = None

    def declare(self, name):
        self.late = Metrics.counter(name, "", ("t",))

    def record(self, which, value, tags):
        m = self.late if which == "late" else EARLY[which]
        if tags is None:
            m.record(value)
        else:
            before = dict(tags)
            m.record(value, tags)
            if tags != before:
                return f"tags became {tags}"

    def shown(self, name):
        return exported(name), os.getpid()

    def value(self, which):
        return (self.late if which == "late" else EARLY[which]).value
