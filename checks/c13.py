"""C13: separation of the band structure by symmetry eigenvalues."""
import numpy as np
from vlib.case import *
from vlib.crystals import std_ops
from vlib.pw import in_little_group
from vlib.runner import quiet, Inconclusive

PROP = "C13"
RULE = ("one case = random crystal and wavefunctions (any interface), all k points left invariant by one or two commuting operations, "
        "BandStructure.Separate called (with or without Kramers grouping, once or twice); the subspaces are compared with the exact "
        "eigenspaces of the operators inside each level; distinct = (SG, spinor, operation type, eigenvalue pattern)")
MINIMUM = {"separations": 100, "nontrivial_separations": 60, "states": 500, "double": 15, "nongrouped": 30, "missing_at_some_k": 3, "generic_points": 40, "close_levels": 40}
ASSUMPTIONS = ["cases where distinct eigenvalues are closer than the code's grouping windows (0.05-0.1) are not generated"]


def jobs(tier, seed):
    rng = np.random.default_rng(seed + 13)
    out = []
    for rep in range(2 if tier == "quick" else 12):
        for sg in range(1, 231):
            if tier == "quick" and rng.random() < 0.2:
                continue
            out.append(dict(sg=sg, rep=rep, spinor=bool(rng.random() < .6), tr=bool(rng.random() < .4)))
    for i in range(10 if tier == "quick" else 80):
        out.append(dict(sg=int(rng.choice([2, 3, 4, 5, 6, 7, 10, 13, 14, 19, 77])), rep=100 + i, spinor=bool(i % 2), tr=bool(rng.random() < .4), big=True))
    return out


def classes(vals, real, tol):
    """cluster complex numbers; None if ambiguous (closer than tol but not equal)"""
    reps = []
    for v in vals:
        x = v.real if real else v
        for r in reps:
            if abs(r - x) < 2e-3:
                break
            if abs(r - x) < tol:
                return None
        else:
            reps.append(x)
    return reps


def opmat(case, kd, op):
    return op_matrix(kd, np.asarray(op.rotation), np.asarray(op.translation), np.asarray(op.spinor_rotation) if case.spinor else None)


def eigenspaces(D, lv, real, reps):
    """for every level and class: the projector (in the basis of the level) """
    out = []
    for a, b in lv:
        M = D[a:b, a:b]
        w, V = np.linalg.eig(M)
        x = w.real if real else w
        P = []
        Vi = np.linalg.inv(V)
        for r in reps:
            s = np.abs(x - r) < 0.03
            P.append((V[:, s] @ Vi[s]) if s.any() else np.zeros_like(M))
        out.append(P)
    return out


def to_case_order(kd, kp):
    look = {tuple(g): i for i, g in enumerate(kd.G)}
    idx = np.array([look[tuple(int(x) for x in g)] for g in np.asarray(kp.ig)[:3].T])
    n, m = len(kd.G), len(idx)
    W = np.asarray(kp.WF)
    if kd.spinor:
        out = np.zeros((len(W), 2 * n), complex)
        out[:, idx] = W[:, :m]
        out[:, n + idx] = W[:, m:]
    else:
        out = np.zeros((len(W), n), complex)
        out[:, idx] = W
    return out


def check_sub(ctx, case, b, subs, mats, reps_list, real, tag, noise=0.0):
    """subs: list of (keys tuple, BandStructure); mats: per symmetry list over k of operator matrices."""
    combos = {}
    nk = len(case.kds)
    for ik, kd in enumerate(case.kds):
        lv = kd.levels(LEVEL_TOL)
        sp = [eigenspaces(m[ik], lv, real, reps) for m, reps in zip(mats, reps_list)]
        for il in range(len(lv)):
            def rec(j, P, key):
                if j == len(sp):
                    d = np.trace(P)
                    n = int(round(d.real))
                    if n:
                        combos.setdefault(key, {})[(ik, il)] = (n, P)
                    return
                for c, Q in enumerate(sp[j][il]):
                    rec(j + 1, P @ Q, key + (c,))
            rec(0, np.eye(lv[il][1] - lv[il][0], dtype=complex), ())
    seen = set()
    for key, sub in subs:
        cl = []
        for x, reps in zip(key, reps_list):
            x = np.real(x) if real else x
            d = [abs(x - r) for r in reps]
            cl.append(int(np.argmin(d)))
            ctx.close("eigenvalue-label", x, reps[cl[-1]], 5e-3 + 3 * noise, tag)
        cl = tuple(cl)
        if not ctx.require(cl not in seen, "duplicate-subspace", "%s %s" % (cl, tag)):
            continue
        seen.add(cl)
        want = combos.get(cl, {})
        ks = sorted(set(ik for ik, _ in want))
        got = [kp.ik0 - 1 for kp in sub.kpoints]
        if len(ks) < nk:
            ctx.event("missing_at_some_k")
        if not ctx.require(got == ks, "kpoints-in-subspace", lambda: "eigenvalues %s: k points %s expected %s %s" % (key, got, ks, tag)):
            continue
        for ik, kp in zip(ks, sub.kpoints):
            kd, kp0 = case.kds[ik], b.kpoints[ik]
            lv = kd.levels(LEVEL_TOL)
            dims = [(il, want[(ik, il)]) for il in range(len(lv)) if (ik, il) in want]
            row = np.repeat([il for il, _ in dims], [n for _, (n, _) in dims])
            ctx.event("states", len(row))
            if not ctx.close("states-in-subspace", [kp.num_bands, len(kp.WF)], [len(row)] * 2, 0, "%s %s" % (key, tag)):
                continue
            ctx.close("energies", np.asarray(kp.Energy_mean), np.array([kd.E[lv[i][0]:lv[i][1]].mean() for i in row]), 1e-5, tag)
            ctx.close("dimensions-sum", int(sum(kp.degeneracies)), len(row), 0, tag)
            ctx.close("characters-of-level", np.asarray(kp.char), np.asarray(kp0.char)[row], 1e-9, tag)
            ctx.close("characters-refUC-of-level", np.asarray(kp.char_refUC), np.asarray(kp0.char_refUC)[row], 1e-9, tag)
            ctx.require(list(kp.irreps) == [kp0.irreps[i] for i in row], "irreps-of-level", tag)
            W = to_case_order(kd, kp)
            C = kd.C / np.linalg.norm(kd.C, axis=1)[:, None]
            A = C.conj() @ W.T                    # coefficients of the sub states on the true states
            ctx.close("norm", np.linalg.norm(A, axis=0), np.ones(len(row)), 1e-3 + 10 * noise, tag)
            s = np.linalg.svd(W, compute_uv=False)
            ctx.require(s.min() > 0.99 - 10 * noise, "independent-states", lambda: "singular values %s %s" % (s, tag))
            for j, il in enumerate(row):
                a, bb = lv[il]
                x = A[a:bb, j]
                ctx.close("state-in-level", np.linalg.norm(x), 1, 1e-4 + 10 * noise, tag)
                P = want[(ik, il)][1]
                ctx.close("state-in-eigenspace", P @ x, x, 1e-4 + 10 * noise, lambda: "k=%s level %d eigenvalues %s %s" % (kd.k, il, key, tag))
    ctx.require(seen == set(combos), "missing-subspaces", lambda: "%s expected %s %s" % (sorted(seen), sorted(combos), tag))


def run(job, ctx, rng):
    sg, spinor = job["sg"], job["spinor"]
    pts = [k for _, k in table_kpts(sg)]
    kref = [pts[i] for i in rng.choice(len(pts), min(3, len(pts)), replace=False)]
    if rng.random() < .5:
        # points anywhere on the line or plane left invariant by one operation: the
        # eigenvalues of operations with translations may then have any phase
        R = std_ops(sg)[0][int(rng.integers(0, len(std_ops(sg)[0])))][0]
        RiT, q, P = np.linalg.inv(R).T, rng.uniform(-.5, .5, 3), np.eye(3)
        proj = np.zeros((3, 3))
        for _ in range(12):
            proj, P = proj + P / 12, P @ RiT
        if np.abs(proj @ q).max() > 1e-3:
            kref = [k + proj @ (q * rng.uniform(.2, 1)) for k in kref[:2]]
            ctx.event("generic_points")
    size = dict(npw=40, nb=10 if spinor else 7)
    if job.get("big"):          # many bands and k points
        kref = [kref[i] + rng.integers(-1, 2, 3) for i in rng.integers(0, len(kref), int(rng.integers(4, 11)))]
        size = dict(npw=90, nb=26)
        ctx.event("big")
    case = build(rng, sg, spinor, kref=kref, **size, trbreak=job["tr"])
    if rng.random() < .4:
        # levels at all distances above the threshold
        for kd in case.kds:
            E = np.array(kd.E)
            for a, _ in kd.levels(LEVEL_TOL)[1:]:
                if rng.random() < .6:
                    E[a:] += E[a - 1] - E[a] + 10 ** rng.uniform(-3.4, -1)
            kd.E = E
        ctx.event("close_levels")
    # operation(s) leaving all (or, if none, one of the) k points invariant
    ops = case.C.ops
    lit = [[i for i, (R, t) in enumerate(ops) if in_little_group(R, kd.k)] for kd in case.kds]
    com = [i for i in lit[0] if all(i in l for l in lit)]
    while len(com) < 2 and len(case.kds) > 1:
        case.kds, case.ks = case.kds[:-1], case.ks[:-1]
        lit = lit[:-1]
        com = [i for i in lit[0] if all(i in l for l in lit)]
    code = str(rng.choice(["vasp", "abinit", "espresso", "wannier90"]))
    # wavefunctions that obey the symmetry only approximately, as PAW ones do
    noise = 0.0 if rng.random() < .8 else 0.01
    truth = [kd.C for kd in case.kds]
    for kd in case.kds:
        if noise:
            n0 = np.linalg.norm(kd.C, axis=1)[:, None]
            z = rng.normal(size=kd.C.shape) + 1j * rng.normal(size=kd.C.shape)
            kd.C = kd.C + noise * n0 * z / np.linalg.norm(z, axis=1)[:, None]
    b = run_code(case, code, rng=rng)
    for kd, c in zip(case.kds, truth):
        kd.C = c
    if noise:
        ctx.event("noisy")
    with quiet():
        b.identify_irreps(None)
    syms = {}
    for s, i in zip(b.spacegroup.symmetries, match_ops(case.C, b.spacegroup.symmetries)):
        syms[i] = s
    kramers = bool(rng.random() < .5)
    tag = "SG %d spinor=%s %s kramers=%s" % (sg, spinor, code, kramers)
    done = 0
    for i in rng.permutation(com)[:4]:
        s1 = syms[int(i)]
        if s1.ind == 1:
            with quiet():
                r = b.Separate(1, groupKramers=kramers)
            ctx.require(list(r) == [1] and r[1] is b, "identity", str(r))
            continue
        D1 = [opmat(case, kd, s1) for kd in case.kds]
        vals = [w for kd, D in zip(case.kds, D1) for a, e in kd.levels(LEVEL_TOL) for w in np.linalg.eigvals(D[a:e, a:e])]
        tol = 0.06 if kramers else 0.12
        reps = classes(vals, kramers, tol)
        if reps is None:
            ctx.event("ambiguous_skipped")
            continue
        with quiet():
            sub = b.Separate(s1.ind, groupKramers=kramers, v=int(rng.integers(0, 3)))
        ctx.event("separations")
        if not kramers:
            ctx.event("nongrouped")
        ctx.distinct(sg, spinor, int(np.trace(s1.rotation)), len(reps), kramers)
        t1 = tag + " op %d" % s1.ind
        if len(reps) == 1:
            ctx.require(len(sub) == 1 and list(sub.values())[0].num_k == b.num_k, "single-eigenvalue", t1)
            ctx.close("eigenvalue-label", (lambda x: np.real(x) if kramers else x)(list(sub)[0]), reps[0], 5e-3 + 3 * noise, t1)
            continue
        ctx.event("nontrivial_separations")
        ctx.sample(sg=sg, spinor=spinor, op=int(s1.ind), eigenvalues=[str(np.round(r, 4)) for r in reps],
                   subspaces={str(np.round(k, 4)): [kp.num_bands for kp in s.kpoints] for k, s in sub.items()})
        check_sub(ctx, case, b, [((k,), s) for k, s in sub.items()], [D1], [reps], kramers, t1, noise)
        done += 1
        # separate further with a commuting operation
        for i2 in rng.permutation(com)[:6]:
            s2 = syms[int(i2)]
            if s2.ind in (1, s1.ind):
                continue
            D2 = [opmat(case, kd, s2) for kd in case.kds]
            if any(np.abs(x @ y - y @ x).max() > 1e-6 for x, y in zip(D1, D2)):
                continue
            vals = [w for kd, D in zip(case.kds, D2) for a, e in kd.levels(LEVEL_TOL) for w in np.linalg.eigvals(D[a:e, a:e])]
            reps2 = classes(vals, kramers, tol)
            if reps2 is None:
                continue
            subs = []
            for k1, sb in sub.items():
                with quiet():
                    r = sb.Separate(s2.ind, groupKramers=kramers)
                subs += [((k1, k2), x) for k2, x in r.items()]
            ctx.event("double")
            check_sub(ctx, case, b, subs, [D1, D2], [reps, reps2], kramers, t1 + " then %d" % s2.ind, noise)
            break
