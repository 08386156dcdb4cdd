"""Writers of the DFT output formats read by irrep, built from the formats' own
definitions (not from irrep's parsers)."""
import os
import struct
import numpy as np
from .pw import HA, BOHR_A, TWOMHBAR2, reclat


# ------------------------------------------------------------------ VASP
def vasp_order(G):
    """VASP's ordering: loops over i3, i2, i1 (i1 fastest), each 0..+max,-min..-1."""
    def key(g):
        return tuple((0, x) if x >= 0 else (1, x) for x in g[::-1])
    return sorted(range(len(G)), key=lambda i: key(tuple(G[i])))


def write_poscar(path, lat, pos, numbers, scale=1.0, cartesian=False, selective=False, names=True,
                 title="generated", mode_word=None, comments=False, blank=False, negscale=False):
    order = sorted(range(len(numbers)), key=lambda i: numbers[i])
    kinds = sorted(set(numbers))
    cnt = [sum(1 for n in numbers if n == q) for q in kinds]
    with open(path, "w") as f:
        f.write(title + "\n%.15f\n" % (scale if not negscale else -abs(np.linalg.det(lat))))
        for r in np.asarray(lat) / scale:
            f.write("  " + "  ".join("%.16f" % x for x in r) + "\n")
        if names:
            f.write("  ".join("X%s" % "abcdefghij"[i] for i in range(len(kinds))) + "\n")
        f.write("  ".join(str(c) for c in cnt) + "\n")
        if selective:
            f.write((selective if isinstance(selective, str) else "Selective dynamics") + "\n")
        f.write((mode_word or ("Cartesian" if cartesian else "Direct")) + "\n")
        for n, i in enumerate(order):
            if blank and n == len(order) // 2:
                f.write("\n")
            x = pos[i] if not cartesian else (pos[i] @ np.asarray(lat)) / scale
            f.write("  ".join("%.16f" % v for v in x) + ("  T T F" if selective else "")
                    + ("  Xa ! site" if comments else "") + "\n")
    return order


def write_wavecar(path, lat, ecut, kds, ispin=1, iprec=45200, rl=None, perm=None, ef=0.0):
    """kds: list of KData with equal number of bands."""
    nk, nb = len(kds), len(kds[0].E)
    maxpw = max(k.C.shape[1] for k in kds)
    need = max(8 * 13, 8 * maxpw, 8 * (4 + 3 * nb), 24)
    rl = max(need, rl or 0)
    rl += (-rl) % 8

    def rec(arr):
        b = np.ascontiguousarray(arr).tobytes()
        assert len(b) <= rl
        return b + b"\0" * (rl - len(b))

    with open(path, "wb") as f:
        f.write(rec(np.array([rl, ispin, iprec], float)))
        f.write(rec(np.concatenate([[nk, nb, ecut], np.asarray(lat).reshape(-1), [ef]]).astype(float)))
        for kd in kds:
            order = np.array(vasp_order(kd.G))
            n = len(order)
            sel = np.concatenate([order, order + n]) if kd.spinor else order
            e = np.zeros((nb, 3))
            e[:, 0] = kd.E
            e[:, 2] = 1
            f.write(rec(np.concatenate([[len(sel)], kd.k, e.reshape(-1)])))
            for ib in range(nb):
                f.write(rec(kd.C[ib][sel].astype(np.complex64)))


# ------------------------------------------------------------------ Fortran records
class FRec:
    """Fortran sequential unformatted file. maxsub: length of subrecords (gfortran's -fmax-subrecord-length, 2 GB by
    default): the marker before a subrecord is negative if another follows, the one after it if another precedes."""

    def __init__(self, path, order="<", maxsub=None):
        self.f = open(path, "wb")
        self.order, self.maxsub = order, maxsub

    def rec(self, *parts):
        parts = [p if isinstance(p, bytes) else np.ascontiguousarray(p) for p in parts]
        b = b"".join(p if isinstance(p, bytes) else p.astype(p.dtype.newbyteorder(self.order)).tobytes() for p in parts)
        m = self.maxsub or max(len(b), 1)
        subs = [b[i:i + m] for i in range(0, len(b), m)] or [b""]
        for i, s in enumerate(subs):
            self.f.write(struct.pack(self.order + "i", -len(s) if i < len(subs) - 1 else len(s)) + s
                         + struct.pack(self.order + "i", -len(s) if i > 0 else len(s)))

    def close(self):
        self.f.close()


i4 = lambda *x: np.array(x, "<i4")
f8 = lambda *x: np.array(x, "<f8")


def write_abinit(path, lat_ang, pos, numbers, ecut_ha, kds, perms=None, ef_ha=0.0, version="9.6.2",
                 headform=80, nsppol=1, istwfk=1, occopt=1, usepaw=0, nspinor=None, nbands=None,
                 nsym=1, npsp_extra=0, nshift=(1, 1), order="<", maxsub=None):
    """ABINIT WFK (unformatted).  kds energies in eV."""
    lat = np.asarray(lat_ang) / BOHR_A
    spinor = kds[0].spinor
    nspinor = (2 if spinor else 1) if nspinor is None else nspinor
    nk, nat = len(kds), len(pos)
    kinds = sorted(set(numbers))
    typat = [kinds.index(n) + 1 for n in numbers]
    ntyp = len(kinds)
    nband = [len(k.E) for k in kds]
    bantot = sum(nband)
    F = FRec(path, order, maxsub)
    vs = version.encode()
    F.rec(vs.ljust(8 if int(version.split(".")[0]) >= 9 else 6), i4(headform, 2))
    npsp = ntyp + npsp_extra
    F.rec(i4(bantot, 20240101, 1, 1, nat, 10, 10, 10, nk, 1, nspinor, nsppol, nsym, npsp, ntyp, occopt, 0, usepaw),
          f8(ecut_ha, ecut_ha, 0.0, ecut_ha, 0, 0, 0), f8(*lat.reshape(-1)), f8(0.0, 0.0, 0.01), i4(0, nshift[0], nshift[1], max(nband)))
    istw = i4(*([istwfk] * nk)) if np.isscalar(istwfk) else i4(*istwfk)
    npw = [len(k.G) for k in kds]
    F.rec(istw, i4(*nband), i4(*npw), i4(*([1] * npsp)), i4(*([1] * nsym)), i4(*np.concatenate([np.roll(np.eye(3, dtype=int), i, axis=0).reshape(-1) * (-1) ** i for i in range(nsym)])),
          i4(*typat), f8(*np.concatenate([k.k for k in kds])), f8(*([1.0] * bantot)), f8(*(np.arange(3 * nsym) / 7)),
          f8(*[float(5 + i) for i in range(ntyp)]), f8(*([1.0 / nk] * nk)))
    F.rec(f8(0.0), f8(*np.asarray(pos).reshape(-1)), f8(-1.0), f8(ef_ha), f8(*([10.0] * ntyp)))
    F.rec(i4(1, 0), f8(4.0, 0.0), i4(0), i4(*np.eye(3, dtype=int).reshape(-1)), i4(*np.eye(3, dtype=int).reshape(-1)),
          f8(*(np.arange(3 * nshift[0]) / 2)), f8(*(np.arange(3 * nshift[1]) / 2)))
    for _ in range(npsp):
        F.rec(b"pseudo".ljust(132), f8(5.0, 4.0), i4(1, 20240101, 8, 11, 0), b"0" * 32)
    if usepaw == 1:
        F.rec(i4(1))
        F.rec(i4(1))
    for ik, kd in enumerate(kds):
        n = len(kd.G)
        perm = np.arange(n) if perms is None else perms[ik]
        F.rec(i4(n, nspinor, nband[ik]))
        F.rec(kd.G[perm].astype("<i4"))
        F.rec(np.concatenate([kd.E / HA, np.ones(len(kd.E))]).astype("<f8"))
        sel = np.concatenate([perm, perm + n]) if spinor else perm
        for ib in range(nband[ik]):
            F.rec(kd.C[ib][sel].astype("<c16"))
    F.close()


# ------------------------------------------------------------------ Quantum ESPRESSO
def write_espresso(prefix, lat_ang, pos, numbers, ecut_ha, kds, kds_dw=None, perms=None, ef_ha=None, upper=False,
                   alat=None, bscale=1.0, noncolin=None, names=("Aa", "Bb", "Cc", "Dd", "Ee", "Ff"), gamma=0):
    """prefix.save with data-file-schema.xml and wfc files. kds energies in eV. kds_dw: second
    spin channel."""
    lat = np.asarray(lat_ang) / BOHR_A
    B = reclat(lat)
    os.makedirs(prefix + ".save", exist_ok=True)
    kinds = sorted(set(numbers))
    spinor = kds[0].spinor
    alat = np.linalg.norm(lat[0]) if alat is None else alat
    nb = len(kds[0].E)
    x = ["<?xml version='1.0'?>", '<qes:espresso xmlns:qes="http://www.quantum-espresso.org/ns/qes/qes-1.0">']
    struct_xml = ['<atomic_structure nat="%d" alat="%.15e">' % (len(pos), alat), "<atomic_positions>"]
    for i, (p, n) in enumerate(zip(pos, numbers)):
        c = np.asarray(p) @ lat
        struct_xml.append('<atom name="%s" index="%d">%.15e %.15e %.15e</atom>' % ((names[kinds.index(n)], i + 1) + tuple(c)))
    struct_xml += ["</atomic_positions>", "<cell>"]
    for i in range(3):
        struct_xml.append("<a%d>%.15e %.15e %.15e</a%d>" % ((i + 1,) + tuple(lat[i]) + (i + 1,)))
    struct_xml += ["</cell>", "</atomic_structure>"]
    x += ["<input>", '<atomic_species ntyp="%d">' % len(kinds)]
    for i, _ in enumerate(kinds):
        x.append('<species name="%s"><mass>1.0</mass></species>' % names[i])
    x += ["</atomic_species>"] + struct_xml + ["<basis><ecutwfc>%.15e</ecutwfc></basis>" % ecut_ha, "</input>"]
    x += ["<output>"] + struct_xml + ["<band_structure>", "<lsda>%s</lsda>" % ("true" if kds_dw else "false"),
          "<noncolin>%s</noncolin>" % ("true" if (spinor if noncolin is None else noncolin) else "false"), "<spinorbit>%s</spinorbit>" % ("true" if spinor else "false")]
    if kds_dw:
        x += ["<nbnd_up>%d</nbnd_up>" % nb, "<nbnd_dw>%d</nbnd_dw>" % len(kds_dw[0].E)]
    else:
        x += ["<nbnd>%d</nbnd>" % nb]
    x.append("<nelec>4.0</nelec>")
    if ef_ha is not None:
        x.append("<fermi_energy>%.15e</fermi_energy>" % ef_ha)
    x.append("<nks>%d</nks>" % len(kds))
    for ik, kd in enumerate(kds):
        kc = kd.k @ B
        ev = kd.E / HA
        if kds_dw:
            ev = np.concatenate([ev, kds_dw[ik].E / HA])
        x += ["<ks_energies>", '<k_point weight="1.0">%.15e %.15e %.15e</k_point>' % tuple(kc * alat / (2 * np.pi)),
              "<npw>%d</npw>" % len(kd.G), '<eigenvalues size="%d">' % len(ev),
              "  ".join("%.15e" % e for e in ev), "</eigenvalues>",
              '<occupations size="%d">' % len(ev), "  ".join("1.0" for e in ev), "</occupations>", "</ks_energies>"]
    x += ["</band_structure>", "</output>", "</qes:espresso>"]
    with open(prefix + ".save/data-file-schema.xml", "w") as f:
        f.write("\n".join(x) + "\n")
    chans = [("", kds)] if not kds_dw else [("up", kds), ("dw", kds_dw)]
    for tag, ks in chans:
        for ik, kd in enumerate(ks):
            name = "wfc%s%d" % (tag, ik + 1)
            F = FRec("%s.save/%s.dat" % (prefix, name.upper() if upper else name))
            n = len(kd.G)
            perm = np.arange(n) if perms is None else perms[ik]
            npol = 2 if spinor else 1
            isp = {"": 1, "up": 1, "dw": 2}[tag]
            F.rec(i4(ik + 1), f8(*(kd.k @ B)), i4(isp), i4(gamma), f8(bscale))
            F.rec(i4(n + 1 + 3 * (n % 5), n, npol, len(kd.E)))
            F.rec(f8(*B.reshape(-1)))
            F.rec(kd.G[perm].astype("<i4"))
            sel = np.concatenate([perm, perm + n]) if spinor else perm
            for ib in range(len(kd.E)):
                F.rec(kd.C[ib][sel].astype("<c16"))
            F.close()


# ------------------------------------------------------------------ Wannier90
def fftgrid(kds, extra=2):
    m = np.max([np.abs(k.G).max(axis=0) for k in kds], axis=0)
    n = 2 * m + extra
    return [int(x) for x in n]


def write_w90(dirname, seed, lat_ang, pos, numbers, kds, mp_grid, grid=None, ef=None, units="ang", atoms="frac",
              order=("unit_cell", "atoms", "kpoints"), sep=" = ", spinors=True, case=str, comments=False, inline=False,
              names=("Aa", "Bb", "Cc", "Dd", "Ee", "Ff"), weights=False):
    lat = np.asarray(lat_ang)
    kinds = sorted(set(numbers))
    grid = grid or fftgrid(kds)
    spinor = kds[0].spinor
    nb = len(kds[0].E)
    L = []
    if comments:
        L += ["! generated file", "# another comment", ""]
    L.append(case("num_bands") + sep + str(nb))
    L.append(case("num_wann") + sep + str(min(2, nb)))
    if spinors:
        L.append(case("spinors") + sep + (".true." if spinor else ".false."))
    L.append(case("mp_grid") + sep + "%d %d %d" % tuple(mp_grid))
    if ef is not None:
        L.append(case("fermi_energy") + sep + "%.12f" % ef)
    if inline is True:
        L = [l + "   ! set by hand = 3" if l and l[0] not in "!#" else l for l in L]
    if comments:
        L.append("")
    blocks = {}
    b = ["begin unit_cell_cart"]
    if units == "bohr":
        b.append("bohr")
        ll = lat / BOHR_A
    else:
        if units == "ang":
            b.append("ang")
        ll = lat
    b += ["  ".join("%.14f" % v for v in r) for r in ll] + ["end unit_cell_cart"]
    blocks["unit_cell"] = b
    if atoms == "frac":
        b = ["begin atoms_frac"] + ["%s  %s" % (names[kinds.index(n)], "  ".join("%.14f" % v for v in p))
                                    for p, n in zip(pos, numbers)] + ["end atoms_frac"]
    else:
        b = ["begin atoms_cart"]
        sc = 1.0
        if atoms == "cart_bohr":
            b.append("bohr")
            sc = BOHR_A
        elif atoms == "cart_ang":
            b.append("ang")
        b += ["%s  %s" % (names[kinds.index(n)], "  ".join("%.14f" % v for v in (p @ lat / sc)))
              for p, n in zip(pos, numbers)] + ["end atoms_cart"]
    blocks["atoms"] = b
    blocks["kpoints"] = ["begin kpoints"] + ["  ".join("%.14f" % v for v in k.k) + ("   %.8f" % (1 / len(kds)) if weights else "") for k in kds] + ["end kpoints"]
    for o in order:
        L += [case(x) for x in blocks[o]]
        if comments:
            L.append("! --")
    if inline == "everywhere":
        # comments, with and without space before them, and lines without any content are allowed everywhere, also in the blocks
        tails = ["!x", "   ! set = 3", "#y", "", "\t# old value 7 ! was 8", "", "#", "  !"]
        between = ["", "#num_bands = 99", None, "! begin atoms_frac", None, "   ", "# 0.1 0.2 0.3", None, "!"]
        M = []
        for i, l in enumerate(L):
            M.append(l + tails[(i * 3 + len(kds)) % len(tails)] if l and l[0] not in "!#" else l)
            x = between[(i * 5 + nb) % len(between)]
            if x is not None:
                M.append(x)
        L = M
    with open(os.path.join(dirname, seed + ".win"), "w") as f:
        f.write("\n".join(L) + "\n")
    with open(os.path.join(dirname, seed + ".eig"), "w") as f:
        for ik, kd in enumerate(kds):
            for ib, e in enumerate(kd.E):
                f.write("%5d%5d%22.14f\n" % (ib + 1, ik + 1, e))
    for ik, kd in enumerate(kds):
        F = FRec(os.path.join(dirname, "UNK%05d.%s" % (ik + 1, "NC" if spinor else "1")))
        F.rec(i4(grid[0], grid[1], grid[2], ik + 1, nb))
        n = len(kd.G)
        for ib in range(nb):
            for s in range(2 if spinor else 1):
                a = np.zeros(grid, complex)
                a[tuple((kd.G % np.array(grid)).T)] = kd.C[ib][s * n:(s + 1) * n]
                u = np.fft.ifftn(a) * np.prod(grid)
                F.rec(u.ravel(order="F").astype("<c16"))
        F.close()
