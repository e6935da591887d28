"""Recording helpers for the drivers.

A driver exercises the public API of elli and writes what it observed; it never
judges.  Numbers are written without loss: a float becomes the exact rational
it denotes ("n/d"), a complex number "re|im".
"""
import json
import math
import os
import random
import sys
import traceback
import warnings
from fractions import Fraction

warnings.simplefilter("ignore")
os.environ.setdefault("MPLBACKEND", "Agg")


def q(x):
    """float / int / Fraction / complex -> exact string"""
    if isinstance(x, str):
        return x
    if isinstance(x, Fraction):
        return str(x)
    if isinstance(x, bool):
        raise TypeError("bool is not a number here")
    if isinstance(x, int):
        return str(x)
    import numpy as np

    if isinstance(x, np.integer):
        return str(int(x))
    if isinstance(x, (complex, np.complexfloating)):
        re, im = q(float(x.real)), q(float(x.imag))
        if im == "0":
            return re
        return re + "|" + im
    x = float(x)
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    n, d = x.as_integer_ratio()
    return str(n) if d == 1 else f"{n}/{d}"


def qs(a):
    """nested array -> nested list of strings"""
    import numpy as np

    a = np.asarray(a)
    if a.ndim == 0:
        return q(a.item())
    return [qs(b) for b in a]


def shape(a):
    import numpy as np

    return [int(i) for i in np.shape(a)]


def call(f, /, *args, **kw):
    """run f; return (value, "") or (None, exception name)"""
    try:
        return f(*args, **kw), ""
    except Exception as exc:  # noqa: BLE001 - the observation is the exception
        return None, type(exc).__name__


class Recorder:
    def __init__(self, out):
        self.out = out
        self.cases = []
        self.n_events = 0

    def case(self, name, events, **meta):
        """one case: a list of event dicts that the trace spec consumes in order"""
        self.cases.append({"name": name, "events": events, "meta": meta})
        self.n_events += len(events)

    def crash(self):
        """the code raised where the specification allows no error (or gave an unrecordable answer)"""
        tb = traceback.format_exc()
        sys.stderr.write(tb)
        self.cases.append({"name": "crash", "events": [], "crash": tb[-3000:], "meta": {}})

    def close(self):
        with open(self.out, "w") as f:
            json.dump({"cases": self.cases}, f)


def elli_frames(tb):
    return any("/src/elli/" in f.filename for f in traceback.extract_tb(tb))


def main(fn):
    import argparse

    p = argparse.ArgumentParser()
    p.add_argument("--out", required=True)
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--tier", default="quick")
    p.add_argument("--behaviours", default="")
    p.add_argument("--scratch", default="")
    p.add_argument("--prop", default="")
    a = p.parse_args()
    rng = random.Random(a.seed * 1000003 + 17)
    a.thorough = a.tier == "thorough"
    a.beh = json.load(open(a.behaviours)) if a.behaviours else []
    rec = Recorder(a.out)
    try:
        import elli

        assert elli.__file__.startswith(os.environ.get("VERIF_REPO", "/repo") + "/src/"), elli.__file__
        fn(a, rng, rec)
    except (OSError, MemoryError, KeyboardInterrupt):
        if not elli_frames(sys.exc_info()[2]):
            raise
        rec.crash()
    except Exception:  # noqa: BLE001 - an observation that cannot even be recorded
        rec.crash()
    rec.close()
    sys.stdout.write(f"cases={len(rec.cases)} events={rec.n_events}\n")
