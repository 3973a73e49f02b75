"""An independent, deliberately plain writer of LJH files and the reference model of their contents."""
import numpy as np


class Spec:
    """A complete description of an LJH file: header settings plus a list of records."""

    def __init__(self, version="2.2.0", client="DASTARD version 0.2.11", nsamp=4, npre=1, timebase="1.000000e-05",
                 newline="\n", rows=None, cols=None, row=None, col=None, source=None, subdiv=None, suboff=None,
                 offset=None, extra=(), records=()):
        self.version, self.client, self.nsamp, self.npre, self.timebase = version, client, nsamp, npre, timebase
        self.newline, self.rows, self.cols, self.row, self.col = newline, rows, cols, row, col
        self.source, self.subdiv, self.suboff, self.offset, self.extra = source, subdiv, suboff, offset, extra
        self.records = list(records)   # (t1, t2, samples): v2.2 (subframecount, posix_usec); v2.1 (us/4, ms)

    # ---------------------------------------------------------------- bytes
    @property
    def old(self):
        a, b = self.version.split(".")[:2]
        return (int(a), int(b)) < (2, 2)

    @property
    def recsize(self):
        return (6 if self.old else 16) + 2 * self.nsamp

    def header(self):
        n = self.newline
        lines = ["#LJH Memorial File Format", f"Save File Format Version: {self.version}"]
        if self.client is not None:
            lines.append(f"Software Version: {self.client}")
        if self.source is not None:
            lines.append(f"Data source: {self.source}")
        if self.rows is not None:
            lines.append(f"Number of rows: {self.rows}")
        if self.cols is not None:
            lines.append(f"Number of columns: {self.cols}")
        if self.row is not None:
            lines.append(f"Row number (from 0-{(self.rows or 99) - 1} inclusive): {self.row}")
        if self.col is not None:
            lines.append(f"Column number (from 0-{(self.cols or 99) - 1} inclusive): {self.col}")
        if self.subdiv is not None:
            lines.append(f"Subframe divisions: {self.subdiv}")
        if self.suboff is not None:
            lines.append(f"Subframe offset: {self.suboff}")
        lines += list(self.extra)
        lines += ["Digitized Word Size In Bytes: 2", f"Presamples: {self.npre}", f"Total Samples: {self.nsamp}"]
        if self.offset is not None:
            lines.append(f"Timestamp offset (s): {self.offset}")
        lines += [f"Timebase: {self.timebase}", "#End of Header"]
        return (n.join(lines) + n).encode()

    def body(self):
        out = b""
        for t1, t2, samples in self.records:
            if self.old:
                out += int(t1).to_bytes(1, "little") + b"\0" + int(t2).to_bytes(4, "little")
            else:
                out += int(t1).to_bytes(8, "little") + int(t2).to_bytes(8, "little")
            assert len(samples) == self.nsamp
            out += b"".join(int(s).to_bytes(2, "little") for s in samples)
        return out

    def write(self, path, cut=None):
        body = self.body()
        if cut is not None:
            body = body[:cut]
        with open(path, "wb") as fp:
            fp.write(self.header() + body)
        return path

    # ---------------------------------------------------------------- model
    def nrec(self, cut=None):
        return len(self.records) if cut is None else min(cut, len(self.body())) // self.recsize

    @property
    def true_npre(self):
        return self.npre + (0 if "DASTARD" in (self.client or "") or "MASS-generated" in (self.client or "") else 3)

    @property
    def dt(self):
        return float(self.timebase)

    @property
    def divisions(self):
        if self.subdiv is not None:
            return self.subdiv
        if "Abaco" in (self.source or ""):
            return 64
        return max(1, self.rows if self.rows is not None else 1)

    @property
    def suboffset(self):
        if self.suboff is not None:
            return self.suboff
        if "Abaco" in (self.source or ""):
            return 0
        return self.row or 0

    def data(self, n=None):
        n = len(self.records) if n is None else n
        return np.array([r[2] for r in self.records[:n]], dtype=np.uint16).reshape((n, self.nsamp))

    def frames(self, n):
        T = round(self.dt * 1e9)
        return [4 + (4000 * r[0] + 1000000 * r[1] - 1) // T for r in self.records[:n]]

    def subframes(self, n):
        if self.old:
            return [f * self.divisions + self.suboffset for f in self.frames(n)]
        return [r[0] for r in self.records[:n]]

    def times(self, n):
        if self.old:
            return [(f + self.suboffset / self.divisions) * self.dt for f in self.frames(n)]
        return [r[1] / 1e6 for r in self.records[:n]]

    def usec(self, n):
        """Posix microseconds; None when only defined to rounding (LJH 2.1)."""
        return None if self.old else [r[1] for r in self.records[:n]]


def pattern(nsamp, nrec, salt=0):
    """Samples that differ in every position, covering the 16-bit range."""
    special = (0, 65535, 32768, 32767, 1, 255, 256, 65280)
    out = []
    k = salt
    for r in range(nrec):
        row = []
        for s in range(nsamp):
            row.append(special[k % 8] if (k // 8) % 3 == 0 else (k * 7919 + r * 257 + s) % 65536)
            k += 1
        out.append(row)
    return out
