"""C03: the transformation to the conventional cell turns every operation into the table's."""
import numpy as np
from vlib.case import *
from vlib.pw import in_little_group

PROP = "C03"
RULE = ("one case = random primitive cell of a space group in the tables' setting (random cell, origin, orientation, handedness); the "
        "transformation found (or given by the user) is applied by the monitor to every operation and compared with the independently "
        "parsed table; distinct = (SG, spinor, source of the transformation)")
MINIMUM = {"transformations": 500, "operations": 5000, "refcell_traces": 1500, "equivalent_settings": 200, "equivalent_settings_improper": 150, "wrong_transformations": 80, "wrong_lattices": 30, "other_axes": 50, "direct_matches": 2500, "partial_shift": 25, "partial_ref": 25, "partial_none": 25}
ASSUMPTIONS = ["tables round translations to 1e-5 (multiples of 1/3, 1/6): cells that amplify this above the default trans_thresh are "
               "run with trans_thresh=1e-4"]


CENTRED = [5, 8, 9, 12, 15, 20, 21, 35, 36, 37, 38, 39, 40, 41, 63, 64, 65, 66, 67, 68]


def jobs(tier, seed):
    rng = np.random.default_rng(seed + 3)
    n = 2 if tier == "quick" else 20
    out = [dict(sg=int(sg), rep=r, kind="search") for r in range(n) for sg in rng.permutation(np.arange(1, 231))]
    m = 120 if tier == "quick" else 900
    out += [dict(sg=int(rng.integers(1, 231)), rep=i, kind="trace") for i in range(m)]
    out += [dict(sg=int(rng.integers(1, 231)), rep=i, kind="wrong") for i in range(160 if tier == "quick" else 800)]
    out += [dict(sg=int(rng.choice(CENTRED)), rep=i, kind="wrong", axes=True) for i in range(60 if tier == "quick" else 300)]
    out += [dict(sg=int(rng.integers(1, 231)), rep=i, kind="partial") for i in range(150 if tier == "quick" else 1500)]
    return out


def integer(x, tol=1e-4):
    return np.abs(x - np.round(x)).max() < tol


def check_sg(ctx, S, T, C, tag, thirds=1e-4):
    ref, sh = np.asarray(S.refUC, float), np.asarray(S.shiftUC, float)
    inv = np.linalg.inv(ref)
    ctx.event("transformations")
    ctx.close("cell-volume", abs(np.linalg.det(ref)), C.ncent, 1e-4, tag)
    ctx.require(integer(ref), "not-lattice-vectors", lambda: "refUC=%s %s" % (ref, tag))
    ctx.require([s.ind for s in S.symmetries] == list(range(1, T.nsym + 1)), "order-of-tables",
                lambda: "%s %s" % ([s.ind for s in S.symmetries], tag))
    for s in S.symmetries:
        ctx.event("operations")
        R = inv @ np.asarray(s.rotation) @ ref
        t = inv @ (np.asarray(s.translation) + np.asarray(s.rotation) @ sh - sh)
        ts = T.symmetries[s.ind - 1]
        ctx.close("rotation", R, ts.R, 1e-4, lambda: "SG %d op %d %s" % (T.number, s.ind, tag))
        d = ref @ (ts.t - t)
        ctx.close("translation", d, np.round(d), 2e-4, lambda: "SG %d op %d: table t=%s found t=%s %s" % (T.number, s.ind, ts.t, t, tag))
        ctx.close("reported-rotation", np.asarray(s.rotation_refUC(ref)), ts.R, 0)
        ctx.close("reported-translation", np.asarray(s.translation_refUC(ref, sh)), t, 1e-8)


def check_match(ctx, S, S2, T, Mref, shift, sp):
    """match_symmetries asked for a setting other than the one of the space group (S2 was made with it)"""
    with quiet():
        ind, dt, signs = S.match_symmetries(refUC=Mref, shiftUC=shift, signs=sp, trans_thresh=1e-4)
        ind0, dt0, signs0 = S.match_symmetries(signs=sp, trans_thresh=1e-4)
    ctx.require(list(ind0) == list(range(T.nsym)) and sorted(ind) == list(range(T.nsym)), "match-order", lambda: "%s %s" % (ind0, ind))
    by = {tuple(np.asarray(s.rotation).ravel()): s for s in S2.symmetries}
    inv = np.linalg.inv(Mref)
    for j, s in enumerate(S.symmetries):
        ctx.event("direct_matches")
        s2 = by[tuple(np.asarray(s.rotation).ravel())]
        ctx.require(int(ind[j]) == s2.ind - 1, "match-index", lambda: "SG %d op %d: %s, the group made with this setting %d" % (T.number, j + 1, ind[j], s2.ind - 1))
        t = inv @ (np.asarray(s.translation) + np.asarray(s.rotation) @ shift - shift)
        ctx.close("match-translation", dt[j], T.symmetries[ind[j]].t - t, 1e-8)
        ctx.require(int(signs0[j]) == (s.sign if sp else 1) and int(signs[j]) in (-1, 1), "match-sign", lambda: "SG %d op %d: %s %s" % (T.number, j + 1, signs0[j], signs[j]))
        if sp:
            same = np.abs(np.asarray(s.spinor_rotation) - np.asarray(s2.spinor_rotation)).max() < 1e-6
            ctx.require(int(signs[j]) == s2.sign * (1 if same else -1), "match-sign", lambda: "SG %d op %d in another setting" % (T.number, j + 1))


def run(job, ctx, rng):
    from irrep.spacegroup import SpaceGroup
    sg = job["sg"]
    sp = bool(rng.random() < .5)
    T = read_table(sg, sp)
    if job["kind"] == "search":
        rounded = any(np.abs(t * 8 - np.round(t * 8)).max() > 1e-6 for _, t in std_ops(sg)[0])
        C = make_crystal(sg, rng, lefthanded=bool(rng.random() < .35), volume=float(rng.uniform(20, 150)), usteps=6 if rounded and rng.random() < .6 else None)
        kw = dict(trans_thresh=1e-4) if rounded else {}
        # the tables' rounding, in this cell, exceeds the default threshold
        ctx.event("beyond_default_threshold", any(np.abs(C.P @ (np.round(t, 5) - t)).max() > 1.2e-5 for _, t in std_ops(sg)[0]))
        S = get_sg(C, sp, search_cell=True, **kw)
        check_sg(ctx, S, T, C, "search_cell")
        js = S.json()
        same = np.allclose(S.refUC, np.eye(3)) and np.allclose(S.shiftUC, 0)
        ctx.require(bool(js["cells match"]) == bool(same), "cells-match-flag", str((S.refUC, S.shiftUC)))
        # transformation handed in by the user: the generator's own, plus any lattice shift of the origin
        Mref = np.round(C.P, 9)
        shift = C.p + Mref @ rng.integers(-1, 2, 3)
        for search in (False, True):
            S2 = get_sg(C, sp, search_cell=search, refUC=Mref.T.copy(), shiftUC=shift.copy(), **kw)
            ctx.close("user-refUC", np.asarray(S2.refUC, float), Mref, 1e-9)
            ctx.close("user-shiftUC", np.asarray(S2.shiftUC, float), shift, 1e-9)
            check_sg(ctx, S2, T, C, "user")
        # other settings equivalent to the tables' one: axes exchanged or reversed, the origin at another equivalent point
        for improper in (True, False):
            e = equivalent_setting(sg, rng, improper)
            if e is not None:
                Mref, shift = in_setting(C, *e)
                S2 = get_sg(C, sp, search_cell=bool(rng.random() < .5), refUC=Mref.T.copy(), shiftUC=shift.copy(), **kw)
                ctx.event("equivalent_settings_improper" if improper else "equivalent_settings")
                ctx.close("user-refUC", np.asarray(S2.refUC, float), Mref, 1e-9)
                check_sg(ctx, S2, T, C, "equivalent setting %s" % (e,))
                check_match(ctx, S, S2, T, Mref, shift, sp)
        ctx.distinct(sg, sp, "search")
        ctx.sample(sg=sg, refUC=np.round(S.refUC, 3).tolist(), shiftUC=np.round(S.shiftUC, 4).tolist())
    elif job["kind"] == "partial":
        # only one of the two given by the user, or none and no search: the other one is the identity
        what = str(rng.choice(["shift", "ref", "none"]))
        C = make_crystal(sg, rng, usteps=0 if what == "shift" else None, shift=what != "ref", volume=float(rng.uniform(20, 90)))
        search = bool(rng.random() < .5) and what != "none"
        if what == "shift" and not np.allclose(C.P, np.eye(3)):
            search = False
        kw = dict(trans_thresh=1e-4)
        if what == "shift":
            kw["shiftUC"] = C.p.copy()
        elif what == "ref":
            kw["refUC"] = C.P.T.copy()
        S = get_sg(C, sp, search_cell=search, **kw)
        ctx.event("partial_" + what)
        ctx.close("partial-refUC", np.asarray(S.refUC, float), C.P if what == "ref" else np.eye(3), 1e-9)
        ctx.close("partial-shiftUC", np.asarray(S.shiftUC, float), C.p if what == "shift" else np.zeros(3), 1e-9)
        if (what == "shift" and np.allclose(C.P, np.eye(3))) or what == "ref":
            check_sg(ctx, S, T, C, "partial")
        else:
            ctx.require(len(S.symmetries) == len(C.ops) and -1 not in match_ops(C, S.symmetries, 3e-5), "operations", "SG %d" % sg)
            inv = np.linalg.inv(np.asarray(S.refUC, float))
            for s in S.symmetries:
                R = np.asarray(s.rotation)
                ctx.close("reported-rotation-partial", np.asarray(s.rotation_refUC(S.refUC)), inv @ R @ S.refUC, 1e-9)
                ctx.close("reported-translation-partial", np.asarray(s.translation_refUC(S.refUC, S.shiftUC)),
                          inv @ (np.asarray(s.translation) + R @ S.shiftUC - S.shiftUC), 1e-8)
        ctx.distinct(sg, sp, "partial", what, search)
    elif job["kind"] == "trace":
        # traces in the reference cell: those of the tables' operations themselves
        tk = table_kpts(sg)
        kref = [tk[i][1] for i in rng.choice(len(tk), min(3, len(tk)), replace=False)]
        case = build(rng, sg, sp, crystal=tame_crystal(sg, rng, volume=float(rng.uniform(30, 50))), kref=kref, npw=40,
                     nb=8 if sp else 5)
        user = bool(rng.random() < .5)
        kw = dict(refUC=case.C.P.T.copy(), shiftUC=case.C.p.copy()) if user else {}
        b = run_vasp(case, search_cell=True, **kw)
        ref, sh = np.asarray(b.spacegroup.refUC, float), np.asarray(b.spacegroup.shiftUC, float)
        for kd, kp in zip(case.kds, b.kpoints):
            lv = kd.levels(LEVEL_TOL)
            ctx.close("k-in-reference-cell", kp.k_refUC, ref.T @ kd.k, 1e-8)
            for i, op in enumerate(kp.little_group):
                ts = T.symmetries[op.ind - 1]
                # the tables' operation expressed in the DFT cell
                R = np.round(ref @ ts.R @ np.linalg.inv(ref)).astype(int)
                t = ref @ ts.t + sh - R @ sh
                if op.ind - 1 < len(std_ops(sg)[0]) and user:
                    t = case.C.P @ std_ops(sg)[0][op.ind - 1][1] + sh - R @ sh
                Sm = None
                if sp:
                    Sm = np.asarray(op.spinor_rotation) * op.sign
                tr = true_traces(kd, R, t, Sm, lv)
                ctx.close("refcell-trace", kp.char_refUC[:, i], tr, 6e-4,
                          lambda: "SG %d spinor %s op %d k=%s" % (sg, sp, op.ind, kd.k))
                ctx.event("refcell_traces", len(lv))
                ctx.distinct(sg, sp, "trace", user, op.ind)
    else:
        # a transformation that does not lead to the tables must be refused when irreps are wanted
        C = tame_crystal(sg, rng)
        Mref = C.P.copy()
        how = rng.integers(6) if not job.get("axes") else 6
        sh = C.p.copy()
        if how == 0:
            sh = sh + rng.uniform(.05, .45, 3)
        elif how == 3:
            # slightly, but by more than the threshold
            sh = sh + Mref @ (rng.choice([-1, 1], 3) * 10 ** rng.uniform(-3, -2, 3))
        elif how == 4:
            # rotations remain those of the tables, but maybe not the lattice
            D = commuting(sg, rng)
            Mref = Mref @ D
            if rng.random() < .5:
                sh = np.zeros(3) if all(np.abs(t).max() < 1e-9 for _, t in C.ops) else sh
        elif how == 6:
            # other axes which keep the rotations of the tables: the centering may become another one
            Mref = Mref @ same_rotations(sg, rng)
            ctx.event("other_axes")
        elif how == 5:
            Mref = Mref @ (np.eye(3) + 10 ** rng.uniform(-2.7, -1.5) * rng.uniform(-1, 1, (3, 3)))
        elif how == 1:
            Q = random_unimod(rng)
            Mref = Mref @ Q
        else:
            Mref = Mref @ random_unimod(rng)
            sh = rng.uniform(0, 1, 3)
        inv = np.linalg.inv(Mref)
        # the vectors of the cell are those of the tables' lattice
        cent = np.array(std_ops(sg)[1])
        d = inv.T[:, None] - cent[None]
        lattice = bool((np.abs(d - np.round(d)).max(axis=2).min(axis=1) < 1e-4).all()) and abs(abs(np.linalg.det(Mref)) - len(cent)) < 1e-3
        good = lattice
        used = set()
        for R, t in C.ops:
            Rr, tr = inv @ R @ Mref, inv @ (t + R @ sh - sh)
            hit = [i for i, s in enumerate(read_table(sg, sp).symmetries) if np.abs(Rr - s.R).max() < 1e-6
                   and integer(Mref @ (s.t - tr), 2e-4)]
            used.update(hit)
            good &= len(hit) == 1
        try:
            S = get_sg(C, sp, search_cell=True, refUC=Mref.T.copy(), shiftUC=sh.copy(), trans_thresh=1e-4)
            ok = True
        except RuntimeError:
            ok = False
        ctx.event("wrong_transformations", int(not good))
        ctx.event("wrong_lattices", int(not lattice))
        ctx.require(ok == good, "wrong-transformation-accepted" if ok else "valid-transformation-refused",
                    lambda: "SG %d refUC=%s shift=%s" % (sg, Mref.tolist(), sh))
        ctx.distinct(sg, "wrong", int(how), good)


def commuting(sg, rng):
    """a matrix (of small fractions) that commutes with the rotations of the group, not too small or large"""
    rots = [np.array(R, float) for R, _ in std_ops(sg)[0]]
    while True:
        X = rng.integers(-2, 3, (3, 3)).astype(float)
        D = sum(R @ X @ np.linalg.inv(R) for R in rots) / len(rots)
        big = np.abs(D).max()
        if big < 1e-6:
            continue
        D *= float(rng.choice([1, 2, 3, .5])) / (big if rng.random() < .5 else 1)
        if .2 < abs(np.linalg.det(D)) < 30:
            return D


def same_rotations(sg, rng):
    """an integer matrix of determinant one that maps the set of rotations of the group onto itself"""
    rots = {tuple(np.asarray(R).ravel()) for R, _ in std_ops(sg)[0]}
    for _ in range(3000):
        if rng.random() < .5:
            Q = np.eye(3, dtype=int)[rng.permutation(3)] * rng.choice([-1, 1], 3)
        else:
            Q = random_unimod(rng)
        if np.array_equal(Q, np.eye(3)) or abs(round(np.linalg.det(Q))) != 1:
            continue
        Q = Q * int(round(np.linalg.det(Q)))
        inv = np.linalg.inv(Q)
        if {tuple(np.round(inv @ np.reshape(R, (3, 3)) @ Q).astype(int).ravel()) for R in rots} == rots:
            return Q
    return np.eye(3, dtype=int)


def random_unimod(rng):
    from vlib.crystals import random_unimodular
    return random_unimodular(rng, int(rng.integers(1, 3)))
