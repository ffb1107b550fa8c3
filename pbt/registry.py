"""All properties by id"""
import importlib

MODULES = ["routing", "lsp", "state", "query", "files", "attrs", "vis"]


def load():
    out = {}
    for m in MODULES:
        try:
            mod = importlib.import_module("pbt.props." + m)
        except ModuleNotFoundError as e:
            if e.name != "pbt.props." + m:
                raise
            continue
        for x in vars(mod).values():
            if isinstance(x, type) and getattr(x, "id", None):
                out[x.id] = x
    return out


def get(pid):
    return load()[pid]()
