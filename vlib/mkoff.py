"""Small OFF data sets with two lines, gain drift and arrival-phase dependence; and their state file."""
import os

import numpy as np

from .offs import OffSpec

T0 = 1_500_000_000_000_000_000


def off_file(d, chan, n=200, salt=0, base="o", peaks=(1000.0, 2000.0), nbasis=3):
    rng = np.random.RandomState(1000 * salt + chan)
    s = OffSpec(nbasis=nbasis)
    recs = []
    for i in range(n):
        ptm = 100 + 5 * np.sin(i / 20.0) + rng.randn()
        fv = peaks[i % len(peaks)] * (1 + 0.0005 * (ptm - 100)) * (1 + 0.002 * rng.randn()) * (1 + 0.01 * chan)
        extra = [float(k) for k in range(nbasis - 3)]
        recs.append(s.rec(i, unixnano=T0 + i * 1_000_000_000 + 7 * chan, ptm=float(ptm), resid=float(1 + 0.1 * rng.rand()),
                          coefs=[0.5 * fv, float(rng.randn()) * 0.1 * fv, float(fv)] + extra))
    os.makedirs(d, exist_ok=True)
    return s.write(os.path.join(d, f"{base}_chan{chan}.off"), recs)


def state_file(d, states, base="o"):
    """states = [(record index, label)]"""
    p = os.path.join(d, f"{base}_experiment_state.txt")
    with open(p, "w") as f:
        f.write("# unix time in nanoseconds, state label\n")
        for i, label in states:
            f.write(f"{T0 + int(i * 1_000_000_000) - 1000}, {label}\n")
    return p
