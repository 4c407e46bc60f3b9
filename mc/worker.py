"""Worker process: explores its share of the cases of one property.

argv: property tier seed shard nshards stopfile.  Prints one JSON line."""
import importlib
import json
import os
import signal
import sys
import time
import traceback

from . import env
from .monitors import Violation
from .stable import stable


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


class Stats:
    """Counts measured during one run."""

    def __init__(self):
        self.cases = 0        # cases of the bounded space decided
        self.execs = 0        # complete executions of the real code
        self.steps = 0        # public operations applied to the real code
        self.states = set()   # distinct observable states reached
        self.notes = {}       # free counters, per property

    def saw(self, h):
        self.states.add(h if isinstance(h, int) else stable(h))

    def count(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n


def run_case(mod, case, st, timeout):
    """None, or the text of the violation."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    try:
        with env.quiet():
            mod.check(case, st)
        return None
    except Violation as e:
        return str(e)
    except CaseTimeout:
        return "did not finish within %d s" % timeout
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:
        # an exception the library should not raise, or a result of a shape
        # the harness does not expect from it
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if f.filename.startswith(os.path.abspath(env.REPO) + os.sep)]
        f = (inside or tb)[-1]
        return "unexpected %s: %s (at %s:%s)" % (type(e).__name__, str(e)[:300], os.path.basename(f.filename), f.name)
    finally:
        signal.alarm(0)


def load(prop):
    return importlib.import_module("mc.props." + prop.lower())


def main(argv):
    prop, tier, seed, shard, nshards, stop = argv
    seed, shard, nshards = int(seed), int(shard), int(nshards)
    mod = load(prop)
    st = Stats()
    t0 = time.time()
    timeout = getattr(mod, "CASE_TIMEOUT", 120)
    budget = getattr(mod, "BUDGET", {}).get(tier)
    viol = []
    samples = []
    capped = False
    fam, ftime, slow = {}, {}, {}
    for idx, case in enumerate(mod.cases(tier)):
        # every case goes to exactly one worker; the seed only rotates which
        if (idx + seed) % nshards != shard:
            continue
        if st.cases % 64 == 0:
            if os.path.exists(stop):
                break
            if budget and time.time() - t0 > budget:
                capped = True
                break
        f = case.get("f", "?") if isinstance(case, dict) else "?"
        t1 = time.time()
        msg = run_case(mod, case, st, timeout)
        st.cases += 1
        t1 = time.time() - t1
        ftime[f] = ftime.get(f, 0) + t1
        slow[f] = max(slow.get(f, 0), t1)
        fam[f] = fam.get(f, 0) + 1
        if len(samples) < 2 or (fam[f] == 1 and len(samples) < 6):
            samples.append(case)
        if msg is not None:
            viol.append({"case": case, "msg": msg})
            if len(viol) >= 3:
                break
    json.dump({
        "shard": shard, "hashseed": os.environ.get("PYTHONHASHSEED"), "cases": st.cases, "execs": st.execs,
        "steps": st.steps, "states": sorted(st.states),
        "notes": st.notes, "violations": viol, "samples": samples, "capped": capped, "families": fam, "ftime": ftime, "slow": slow,
        "wall": time.time() - t0,
    }, sys.stdout)
    sys.stdout.write("\n")


if __name__ == "__main__":
    main(sys.argv[1:])
