"""C05: results do not depend on choices without physical meaning."""
import copy
import numpy as np
from vlib.case import *
from vlib.su2 import so3_to_su2
from vlib.crystals import random_rotation, random_unimodular
from vlib.pw import KData, reclat
from vlib.runner import quiet, Inconclusive

PROP = "C05"
RULE = ("one case = a crystal with wavefunctions at k points of the tables, analysed twice: as generated and after one or several changes "
        "without physical meaning (gauge and norms, order of atoms, rotation of the whole crystal, origin, reciprocal lattice vector added to "
        "k, order of plane waves and k points, another choice of cell vectors, interface); labels, multiplicities, levels, dimensions, traces of "
        "corresponding operations, indicators and gaps must agree; distinct = (SG, spinor, changes)")
MINIMUM = {"pairs": 1000, "levels_compared": 1500, "labels_compared": 1500, "cell": 80, "origin": 80, "rotation": 80, "gauge": 80, "reciprocal": 80, "atoms": 80,
           "interface": 80, "digits": 80, "searched": 90}
ASSUMPTIONS = ["labels are compared with the reference cell transformed together with the crystal (its choice is otherwise ambiguous); "
               "with an automatic search only when both searches lead to the same reference cell"]
CHANGES = ["gauge", "atoms", "rotation", "origin", "reciprocal", "cell", "interface", "digits"]


def jobs(tier, seed):
    rng = np.random.default_rng(seed + 5)
    out = []
    for rep in range(8 if tier == "quick" else 60):
        for sg in range(1, 231):
            n = int(rng.integers(1, 4))
            out.append(dict(sg=sg, rep=rep, spinor=bool(rng.random() < .5), change=[str(x) for x in sorted(rng.choice(CHANGES, n, replace=False))],
                            tr=bool(rng.random() < .3)))
    return out


def clone(case):
    c = Case()
    c.__dict__.update(case.__dict__)
    c.C = copy.copy(case.C)
    c.kds = []
    for kd in case.kds:
        n = KData()
        n.__dict__.update(kd.__dict__)
        n.C, n.E, n.G = kd.C.copy(), kd.E.copy(), kd.G.copy()
        c.kds.append(n)
    return c


def transform(case, ch, ref, rng):
    """returns the changed case and reference transformation (P, p): x = P y + p"""
    c = clone(case)
    C = c.C
    P, p = ref
    info = {}
    if ch == "gauge":
        for kd in c.kds:
            kd.C /= np.linalg.norm(kd.C, axis=1)[:, None]
            kd.regauge(rng)
    elif ch == "atoms":
        C.numbers = list(C.numbers)
        relabel = rng.permutation(sorted(set(C.numbers))) if rng.random() < .5 else sorted(set(C.numbers))
        mp = dict(zip(sorted(set(C.numbers)), [int(x) for x in relabel]))
        o = rng.permutation(len(C.numbers))
        C.positions = C.positions[o] + rng.integers(-1, 2, (len(o), 3)) * (rng.random() < .5)
        C.numbers = [mp[C.numbers[i]] for i in o]
    elif ch == "rotation":
        Q = random_rotation(rng)
        C.lattice = C.lattice @ Q.T
        if case.spinor:
            S = so3_to_su2(Q) * (1 if rng.random() < .5 else -1)
            for kd in c.kds:
                n = len(kd.G)
                up, dn = kd.C[:, :n].copy(), kd.C[:, n:].copy()
                kd.C[:, :n] = S[0, 0] * up + S[0, 1] * dn
                kd.C[:, n:] = S[1, 0] * up + S[1, 1] * dn
    elif ch == "origin":
        s = rng.uniform(0, 1, 3) if rng.random() < .6 else rng.integers(0, 8, 3) / 8
        C.positions = (C.positions + s) % 1
        C.ops = [(R, t + s - R @ s) for R, t in C.ops]
        for kd in c.kds:
            ph = np.exp(-2j * np.pi * ((kd.G + kd.k) @ s))
            kd.C = kd.C * (np.concatenate([ph, ph]) if case.spinor else ph)
        p = p + s
    elif ch == "reciprocal":
        for kd in c.kds:
            g = rng.integers(-1, 2, 3)
            kd.k = kd.k + g
            kd.G = kd.G - g
    elif ch == "cell":
        U = random_unimodular(rng, 1, lefthanded=bool(rng.random() < .3))
        Ui = np.round(np.linalg.inv(U)).astype(int)
        C.lattice = U.T @ C.lattice            # columns of U: new vectors in the old ones
        C.positions = (C.positions @ Ui.T) % 1
        C.ops = [(Ui @ R @ U, Ui @ t) for R, t in C.ops]
        for kd in c.kds:
            kd.k = U.T @ kd.k
            kd.G = kd.G @ U
        P, p = Ui @ P, Ui @ p
        info["U"] = U
    elif ch == "digits":
        # the noise of cells and positions written with few decimals
        d = int(rng.integers(7, 10))
        C.lattice = np.round(C.lattice, d)
        C.positions = np.round(C.positions, d)
    c.B = reclat(C.lattice)
    return c, (P, p), info


def run(job, ctx, rng):
    sg, spinor = job["sg"], job["spinor"]
    C = tame_crystal(sg, rng, volume=float(rng.uniform(28, 45)), usteps=int(rng.integers(0, 2)))
    tk = table_kpts(sg, spinor)
    tk = [tk[i] for i in rng.choice(len(tk), min(len(tk), 3), replace=False)]
    case = build(rng, sg, spinor, crystal=C, kref=[k for _, k in tk], npw=40, nb=12 if spinor else 8, trbreak=job["tr"])
    names = [t.name for t, _ in tk]
    search = rng.random() < .5
    ref = (np.asarray(C.P, float), np.asarray(C.p, float))
    codes = [str(rng.choice(["vasp", "abinit", "espresso", "wannier90"]))]
    codes.append(codes[0])
    case2, ref2 = case, ref
    kperm = np.arange(len(tk))
    for ch in job["change"]:
        ctx.event(ch)
        if ch == "interface":
            codes[1] = str(rng.choice([x for x in ["vasp", "abinit", "espresso", "wannier90"] if x != codes[0]]))
            kperm = rng.permutation(len(tk))
            case2 = clone(case2)
            case2.kds = [case2.kds[i] for i in kperm]
            continue
        case2, ref2, _ = transform(case2, ch, ref2, rng)
    import os
    res = []
    for i, (c, rf, code, nm) in enumerate(((case, ref, codes[0], names), (case2, ref2, codes[1], [names[j] for j in kperm]))):
        os.makedirs("r%d" % i)
        cwd = os.getcwd()
        os.chdir("r%d" % i)
        kw = dict(search_cell=True, trans_thresh=1e-4)
        if not search:
            kw.update(refUC=rf[0].T.copy(), shiftUC=rf[1].copy())
        b = run_code(c, code, rng=rng, **kw)
        if search:
            # name the points in the cell found
            k1 = [np.linalg.inv(np.asarray(b.spacegroup.refUC, float).T) @ dict((t.name, k) for t, k in tk)[n] - kd.k for n, kd in zip(nm, c.kds)]
            if any(np.abs(d - np.round(d)).max() > 1e-3 for d in k1):
                nm = None
        with quiet():
            b.identify_irreps(nm)
        os.chdir(cwd)
        res.append((b, c, rf, nm))
    (a, _, rf1, nm1), (b, _, rf2, nm2) = res
    tag = "SG %d spinor=%s %s %s search=%s" % (sg, spinor, job["change"], codes, search)
    ctx.event("pairs")
    ctx.close("group-number", a.spacegroup.number, b.spacegroup.number, 0, tag)
    ctx.require(a.spacegroup.name == b.spacegroup.name, "group-name", tag)
    if search:
        # the same reference cell if P2^-1 (refUC2) and its origin coincide with those of the first
        Y = [(np.linalg.inv(rf[0]) @ np.asarray(x.spacegroup.refUC, float), np.linalg.inv(rf[0]) @ (np.asarray(x.spacegroup.shiftUC) - rf[1])) for x, _, rf, _ in res]
        d = Y[0][1] - Y[1][1]
        same = np.allclose(Y[0][0], Y[1][0], atol=1e-6) and nm1 is not None and nm2 is not None and np.abs(d - np.round(d)).max() < 1e-4
        if same:
            ctx.event("searched")
    else:
        same = True
    inv = np.argsort(kperm)
    moved = "origin" in job["change"] or "cell" in job["change"]
    bk = [b.kpoints[i] for i in inv]
    for i, (x, y) in enumerate(zip(a.kpoints, bk)):
        if not ctx.close("dims", list(x.degeneracies), list(y.degeneracies), 0, tag):
            continue
        ctx.event("levels_compared", len(x.degeneracies))
        ctx.close("energies", x.Energy_mean, y.Energy_mean, 1e-5, tag)
        ctx.close("gap-above", -1 if np.isnan(x.upper) else x.upper, -1 if np.isnan(y.upper) else y.upper, 1e-5, tag)
        o1, o2 = [-1 if z.num_bandinvs is None else z.num_bandinvs for z in (x, y)]
        if moved and o1 >= 0 and o2 >= 0:
            # the reported inversion may be about a centre half a lattice vector away: odd and even are swapped together
            n = int(sum(x.degeneracies))
            ctx.require(o2 in (o1, n - o1), "odd", lambda: "%s %s of %s %s" % (o1, o2, n, tag))
        else:
            ctx.close("odd", o1, o2, 0, tag)
        ctx.close("little-group-order", len(x.little_group), len(y.little_group), 0, tag)
        if not same:
            continue
        dx = {s.ind: j for j, s in enumerate(x.little_group)}
        dy = {s.ind: j for j, s in enumerate(y.little_group)}
        if not ctx.require(sorted(dx) == sorted(dy), "little-group", lambda: "%s %s %s" % (sorted(dx), sorted(dy), tag)):
            continue
        for lx, ly in zip(x.irreps, y.irreps):
            ctx.event("labels_compared", len(lx))
            ctx.require(set(lx) == set(ly), "labels", lambda: "k %s: %s vs %s %s" % (names[i], lx, ly, tag))
            for k in set(lx) & set(ly):
                ctx.close("multiplicity", complex(lx[k]), complex(ly[k]), 2e-3, lambda: "k %s %s: %s vs %s %s" % (names[i], k, lx, ly, tag))
        # projector-like invariants of the traces: moduli of corresponding operations
        for ind in dx:
            ctx.close("trace-modulus", np.abs(np.asarray(x.char)[:, dx[ind]]), np.abs(np.asarray(y.char)[:, dy[ind]]), 1e-4, tag)
            ctx.close("spacegroup-op-angle", np.cos(x.little_group[dx[ind]].angle), np.cos(y.little_group[dy[ind]].angle), 1e-6, tag)
        ctx.distinct(sg, spinor, tuple(job["change"]), names[i])
    if not moved:
        ctx.close("total-odd", a.num_bandinvs, b.num_bandinvs, 0, tag)
    ctx.sample(sg=sg, spinor=spinor, change=job["change"], codes=codes, irreps=[{k: str(np.round(v, 3)) for k, v in d.items()} if not isinstance(d, str) else d for d in a.kpoints[0].irreps[:3]])
