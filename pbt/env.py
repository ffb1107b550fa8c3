"""Loads the code under test from the working tree of /repo and makes runs reproducible."""
import itertools
import os
import random
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")


MOD = None


def load():
    global MOD
    import networkx  # noqa: F401  (from the environment, with its compiled files)

    # never read compiled files of the code under test
    sys.pycache_prefix = "/nonexistent/verif-pycache"
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import pyNTM

    if not os.path.abspath(pyNTM.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise SystemExit("pyNTM was not loaded from %s" % REPO)
    install_hashes(pyNTM)
    MOD = pyNTM
    return pyNTM


_salt = 0
_counter = itertools.count(1)


def _ordinal_hash(self):
    """Objects without a hash of their own are hashed by their order of creation, mixed with the
    salt of the case: sets of them iterate in an order that is reproducible and that differs
    between cases (instead of depending on memory addresses)"""
    d = self.__dict__
    h = d.get("_verif_hash")
    if h is None:
        n = next(_counter)
        h = ((n * 2654435761) ^ (_salt * 40503 + (_salt << 7))) & 0x7FFFFFFF
        d["_verif_hash"] = h
    return h


def install_hashes(pyNTM):
    for name in ("RSVP_LSP", "Demand", "SRLG", "Circuit"):
        cls = getattr(pyNTM, name)
        if cls.__hash__ is object.__hash__ and cls.__eq__ is object.__eq__ and not hasattr(cls, "__slots__"):
            cls.__hash__ = _ordinal_hash


def begin_case(spec):
    global _salt, _counter
    _salt = spec.get("salt", 0) if isinstance(spec, dict) else 0
    _counter = itertools.count(1)
    random.seed(_salt)


def end_case():
    pass
