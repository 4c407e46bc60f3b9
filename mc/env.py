"""Environment control: everything nondeterministic the code under test can
observe is owned here, and the code under test is imported from /repo's
working tree (never from an installed copy, never from cached bytecode).

Owned nondeterminism
  * random.choice / randrange / randint / shuffle / sample / random  -> choice.py
  * iteration order of sets of Demand and RSVP_LSP objects (identity hashes)
    -> small integer hashes handed out by this module
  * iteration order of sets of strings and of Node/Interface objects (which
    hash by name) -> PYTHONHASHSEED, fixed per worker process and recorded in
    every replay file
  * stdout (the library prints progress) -> discarded
"""
import os
import sys

REPO = os.environ.get("PYNTM_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)

from . import choice  # noqa: E402  (must patch `random` before pyNTM is imported)

choice.install()


class _Null:
    def write(self, *_):
        return 0

    def flush(self):
        pass

    def isatty(self):
        return False


class quiet:
    def __enter__(self):
        self._o = sys.stdout
        sys.stdout = _Null()

    def __exit__(self, *_):
        sys.stdout = self._o


with quiet():
    import pyNTM  # noqa: E402
    from pyNTM import (  # noqa: E402,F401
        Circuit,
        Demand,
        FlexModel,
        Interface,
        Model,
        ModelException,
        Node,
        Parallel_Link_Model,
        PerformanceModel,
        RSVP_LSP,
        SRLG,
    )

if not os.path.abspath(pyNTM.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise SystemExit("pyNTM was not imported from %s" % REPO)

_counter = [0]
_order = ["asc"]


def reset_order(order="asc"):
    """Start a fresh execution; `order` is 'asc' or 'desc' (creation order)."""
    _counter[0] = 0
    _order[0] = order


def _identity_hash(self):
    if not hasattr(self, "__dict__"):
        return object.__hash__(self)
    h = self.__dict__.get("_mc_h")
    if h is None:
        _counter[0] += 1
        n = _counter[0]
        h = n if _order[0] == "asc" else (1 << 12) - n
        self.__dict__["_mc_h"] = h
    return h


for _c in (Demand, RSVP_LSP):
    # only where the class really uses identity hashing
    if _c.__hash__ is object.__hash__ and _c.__eq__ is object.__eq__:
        _c.__hash__ = _identity_hash
