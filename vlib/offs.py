"""An independent writer of OFF files (all versions and both ways to store the model) and their contents."""
import base64
import json
import struct

import numpy as np


class OffSpec:
    def __init__(self, version="0.3.0", nbasis=3, nsamp=4, npre=1, frame=1e-5, storage=None, extra=None,
                 projectors=None, basis=None, ensure_ascii=True):
        self.version, self.nbasis, self.nsamp, self.npre, self.frame = version, nbasis, nsamp, npre, frame
        self.storage = storage or ("b64" if version == "0.1.0" else "bin")
        self.extra = extra or {}
        self.ensure_ascii = ensure_ascii
        k = np.arange(nbasis * nsamp, dtype=float).reshape(nbasis, nsamp)
        self.projectors = (k * 0.25 + 0.5) if projectors is None else np.asarray(projectors, float)
        self.basis = (k.T * 0.5 - 3.0) if basis is None else np.asarray(basis, float)

    # record = dict(samples, presamples, framecount, unixnano, ptm, ptdelta, resid, coefs)
    def rec(self, i, unixnano=None, **kw):
        r = dict(samples=self.nsamp, presamples=self.npre, framecount=1000 + i,
                 unixnano=1_500_000_000_000_000_000 + i * 1001 if unixnano is None else unixnano,
                 ptm=10.5 + i, ptdelta=0.25 * i, resid=1.5 + i, coefs=[100 * i + j + 0.5 for j in range(self.nbasis)])
        r.update(kw)
        return r

    @property
    def recsize(self):
        return 4 + 4 + 8 + 8 + 4 + 4 + (4 if self.version == "0.3.0" else 0) + 4 * self.nbasis

    def pack(self, r):
        out = struct.pack("<iiqqf", r["samples"], r["presamples"], r["framecount"], r["unixnano"], r["ptm"])
        if self.version == "0.3.0":
            out += struct.pack("<f", r["ptdelta"])
        out += struct.pack("<f", r["resid"])
        out += struct.pack(f"<{self.nbasis}f", *r["coefs"])
        assert len(out) == self.recsize
        return out

    def header(self):
        def mat(m):
            d = {"Rows": m.shape[0], "Cols": m.shape[1]}
            if self.storage == "b64":
                d["RowMajorFloat64ValuesBase64"] = base64.b64encode(
                    b"".join(struct.pack("<d", x) for row in m for x in row)).decode()
            return d
        h = {"FileFormat": "OFF", "FileFormatVersion": self.version, "FramePeriodSeconds": self.frame,
             "NumberOfBases": self.nbasis,
             "ModelInfo": {"Projectors": mat(self.projectors), "Basis": mat(self.basis), "ModelFile": "m.hdf5"},
             "ReadoutInfo": {"ColumnNum": 0, "RowNum": 3, "NumberOfColumns": 8, "NumberOfRows": 24},
             "CreationInfo": {"SourceName": "verif"}}
        h.update(self.extra)
        out = (json.dumps(h, indent=4, ensure_ascii=self.ensure_ascii) + "\n").encode()
        if self.storage == "bin":
            for m in (self.projectors, self.basis):
                out += b"".join(struct.pack("<d", x) for row in m for x in row)
        return out

    def write(self, path, records=()):
        with open(path, "wb") as f:
            f.write(self.header())
            for r in records:
                f.write(self.pack(r))
        return path
