import contextlib
import io
import os
import sys

sys.path.insert(0, os.getcwd())
from pyNTM import (  # noqa
    Demand,
    FlexModel,
    Interface,
    ModelException,
    Node,
    PerformanceModel,
    RSVP_LSP,
)


def quiet(call, *args, **kwargs):
    with contextlib.redirect_stdout(io.StringIO()):
        return call(*args, **kwargs)


def net(cls, circuits, demands=(), lsps=(), nodes=()):
    """circuits: (a, b, cost, capacity[, rsvp, percent]); names are 'a-b_i'"""
    by_name = {}

    def node(name):
        return by_name.setdefault(name, Node(name))

    for name in nodes:
        node(name)
    interfaces = set()
    for i, ckt in enumerate(circuits, 1):
        a, b, cost, capacity = ckt[:4]
        extra = ckt[4:]
        for x, y in ((a, b), (b, a)):
            interfaces.add(
                Interface("%s-%s_%d" % (x, y, i), cost, capacity, node(x), node(y), i, *extra)
            )
    dmds = {Demand(node(a), node(b), t, n) for a, b, t, n in demands}
    tunnels = {RSVP_LSP(node(x[0]), node(x[1]), *x[2:]) for x in lsps}
    return cls(interfaces, set(by_name.values()), dmds, tunnels)


def names(path):
    return [getattr(i, "name", None) or i.lsp_name for i in path]


def iface(model, name):
    return [i for i in model.interface_objects if i.name == name][0]


