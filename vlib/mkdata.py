"""A small, deterministic pulse file plus noise file for one channel, with drift, arrival-time and gain effects."""
import os

import numpy as np

from .ljh import Spec

NS, NPRE = 64, 16
HEIGHTS = (2000, 3000, 2000)


def pulse_files(d, chan=1, npulses=60, nnoise=40, salt=3, heights=HEIGHTS, ns=NS, npre=NPRE, names=("a", "n"), early=()):
    rng = np.random.RandomState(salt + 100 * chan)
    t = np.arange(ns) - npre + 0.0
    recs = []
    usec = 1_600_000_000_000_000
    for i in range(npulses):
        e = heights[i % len(heights)] * (1 + 0.004 * rng.randn())
        x = np.clip(t + rng.rand() + (1 if i in early else 0), 0, None)
        drift = 10 * np.sin(i / 5.0)
        p = e * (1 + 0.0004 * drift) * (np.exp(-x / 12) - np.exp(-x / 2)) * 1.9
        y = np.round(1000 + drift + p + rng.randn(ns) * 3).astype(int)
        usec += 40_000_000 + 1000 * int(rng.randint(0, 1000))
        recs.append((usec - 1_600_000_000_000_000, usec, [int(v) for v in np.clip(y, 0, 65535)]))
    os.makedirs(d, exist_ok=True)
    a = Spec(nsamp=ns, npre=npre, rows=1, row=0, records=recs).write(os.path.join(d, f"{names[0]}_chan{chan}.ljh"))
    nrec = [(k * 100, 1_599_000_000_000_000 + k * 10000,
             [int(v) for v in np.round(1000 + rng.randn(ns) * 3)]) for k in range(nnoise)]
    n = Spec(nsamp=ns, npre=npre, rows=1, row=0, records=nrec).write(os.path.join(d, f"{names[1]}_chan{chan}.ljh"))
    return a, n
