"""Independent reader of the irrep tables shipped with irreptables (oracle side).

Nothing here imports irrep/irreptables code: the .dat files are read from the
repository tree and interpreted from their documented text format."""
import os
import numpy as np
from .env import REPO

TABDIR = os.path.join(REPO, "irreptables", "irreptables", "tables")


class TSym:
    __slots__ = ("R", "t", "S")

    def __init__(self, R, t, S):
        self.R, self.t, self.S = R, t, S


class TKpt:
    __slots__ = ("name", "k", "isym", "irreps")

    def __init__(self, name, k, isym):
        self.name, self.k, self.isym, self.irreps = name, k, isym, []


class TIrrep:
    __slots__ = ("name", "dim", "chars", "nfields")

    def __init__(self, name, dim, chars, nfields):
        self.name, self.dim, self.chars, self.nfields = name, dim, chars, nfields


class Table:
    pass


def _expand(tok):
    out = []
    for s in tok.split():
        if "-" in s:
            a, b = s.split("-")
            out += list(range(int(a), int(b) + 1))
        else:
            out.append(int(s))
    return out


_cache = {}


def table_path(sg, spinor):
    return os.path.join(TABDIR, "irreps-SG=%d-%s.dat" % (sg, "spin" if spinor else "scal"))


def read_table(sg, spinor):
    key = (sg, bool(spinor))
    if key in _cache:
        return _cache[key]
    T = Table()
    T.header = {}
    T.symmetries, T.kpoints, T.odd_lines = [], [], []
    with open(table_path(sg, spinor)) as f:
        lines = [l.strip() for l in f]
    i = 0
    while i < len(lines):
        l = lines[i]
        i += 1
        if l.startswith("symmetries"):
            break
        if "=" in l:
            a, b = l.split("=", 1)
            T.header[a.strip().lower()] = b.strip()
    nsym = int(T.header["nsym"])
    while len(T.symmetries) < nsym:
        tok = lines[i].split()
        i += 1
        if not tok:
            continue
        R = np.array([int(x) for x in tok[:9]]).reshape(3, 3)
        t = np.array([float(x) for x in tok[9:12]])
        S = None
        if len(tok) >= 20:
            S = (np.array([float(x) for x in tok[12:16]])
                 * np.exp(1j * np.pi * np.array([float(x) for x in tok[16:20]]))).reshape(2, 2)
        T.symmetries.append(TSym(R, t, S))
    kp = None
    for l in lines[i:]:
        if not l:
            continue
        if l.startswith("kpoint"):
            a, b, c = l.split(":")
            kp = TKpt(a.split()[1], np.array([float(x) for x in b.split()]), _expand(c))
            T.kpoints.append(kp)
            continue
        tok = l.split()
        n = len(kp.isym) if kp is not None else -1
        if kp is None or len(tok) not in (2 + n, 2 + 2 * n):
            T.odd_lines.append(l)
            continue
        ch = np.array([float(x) for x in tok[2:2 + n]])
        if len(tok) == 2 + 2 * n:
            ch = ch * np.exp(1j * np.pi * np.array([float(x) for x in tok[2 + n:]]))
        kp.irreps.append(TIrrep(tok[0], int(tok[1]), {s: c for s, c in zip(kp.isym, ch)}, len(tok)))
    T.nsym = nsym
    T.number = int(T.header["sg"])
    T.name = T.header.get("name", "")
    _cache[key] = T
    return T
