"""C16: unfolding weights, spin components and spin matrices (used by banduppy)."""
import itertools
import numpy as np
from vlib.case import *
from vlib.pw import in_little_group, KData, ball, reclat, TWOMHBAR2
from vlib.runner import quiet

PROP = "C16"
RULE = ("one case = random supercell (integer matrix, any handedness), random orthonormal states (scalar or spinor) with degenerate levels, read "
        "from the files of any interface; unfold() onto all primitive k points that fold to the k point is compared with weights and spins "
        "computed from the coefficients, and must sum up to the number of states; distinct = (supercell matrix, spinor, k)")
MINIMUM = {"large_supercells": 30, "very_large_supercells": 3, "unfolded": 300, "sum_rules": 80, "spin_components": 400, "refused": 40, "rounded_points": 50, "thresholds": 150, "unfolded_subspaces": 100}
ASSUMPTIONS = []


def jobs(tier, seed):
    rng = np.random.default_rng(seed + 16)
    n = 250 if tier == "quick" else 2500
    return [dict(rep=i) for i in range(n)] + [dict(rep=10000 + i, sep=True) for i in range(n // 2)]


def folded(S, K):
    """all k (primitive, in a cell) with S k = K mod 1"""
    Si = np.linalg.inv(S)
    m = int(round(abs(np.linalg.det(S))))
    out = []
    diagonal = np.array_equal(S, np.diag(np.diag(S)))
    for n in itertools.product(*[range(abs(int(S[i, i]))) if diagonal else range(-m, m + 1) for i in range(3)]):
        k = Si @ (K + np.array(n))
        f = k - np.floor(k + 1e-9)
        if not any(np.abs((f - o) - np.round(f - o)).max() < 1e-6 for o in out):
            out.append(f)
        if len(out) == m:
            break
    return out


def random_states(rng, B, k, ecut, nb, spinor):
    kd = KData()
    kd.k = np.asarray(k, float)
    kd.G = ball(B, kd.k, np.sqrt(ecut * TWOMHBAR2))
    n = len(kd.G) * (2 if spinor else 1)
    Z = rng.normal(size=(n, nb)) + 1j * rng.normal(size=(n, nb))
    Q, _ = np.linalg.qr(Z)
    kd.C = Q.T.copy()
    steps = rng.choice([0.0, 0.3, 0.07], nb)
    steps[0] = -1.0
    kd.E = np.cumsum(steps)
    kd.spinor = spinor
    return kd


def groups(E, thr):
    brd = [0] + [i + 1 for i in range(len(E) - 1) if E[i + 1] - E[i] > thr] + [len(E)]
    return list(zip(brd[:-1], brd[1:]))


def run_separated(job, ctx, rng):
    """unfolding the subspaces of a separation, before and after the whole"""
    from checks.c13 import classes, opmat
    from checks.c15 import projections
    spinor = bool(job["rep"] % 2)
    sg = int(rng.integers(2, 231))
    tk = table_kpts(sg, spinor)
    case = build(rng, sg, spinor, kref=[tk[int(rng.integers(len(tk)))][1]], npw=36, nb=10 if spinor else 8)
    kd = case.kds[0]
    code = str(rng.choice(["vasp", "abinit", "espresso", "wannier90"]))
    b = run_code(case, code, rng=rng)
    with quiet():
        b.identify_irreps(None)
    com = [s for s in b.spacegroup.symmetries if in_little_group(np.asarray(s.rotation), kd.k) and s.ind != 1]
    rng.shuffle(com)
    S = np.diag(rng.permutation([int(rng.integers(1, 4)), int(rng.integers(1, 3)), 1])) if rng.random() < .6 else np.array([[1, 1, 0], [-1, 1, 0], [0, 0, 1]])
    fk = folded(S, kd.k)
    first = bool(rng.random() < .5)
    kramers = bool(rng.random() < .5)
    Si = np.linalg.inv(S)
    sig = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]

    def want(x, f, thr):
        n = len(x.G)
        y = (x.G + x.k) @ Si.T - f
        sel = np.abs(y - np.round(y)).max(axis=1) < 1e-5
        parts = [x.C[:, :n], x.C[:, n:]] if spinor else [x.C]
        out = []
        for a, e in groups(x.E, thr):
            P = sum(p[a:e][:, sel].conj() @ p[a:e][:, sel].T for p in parts)
            M = [sum(s[i, j] * (parts[i][a:e].conj() @ parts[j][a:e].T) for i in (0, 1) for j in (0, 1)) for s in sig] if spinor else [parts[0][a:e].conj() @ parts[0][a:e].T]
            out.append([x.E[a:e].mean()] + [np.trace(P @ m).real for m in M])
        return np.array(out)

    full = KData()
    full.k, full.G, full.E, full.C = kd.k, kd.G, kd.E, kd.C / np.linalg.norm(kd.C, axis=1)[:, None]
    for s in com[:6]:
        D = opmat(case, kd, s)
        vals = [w for a, e in kd.levels(LEVEL_TOL) for w in np.linalg.eigvals(D[a:e, a:e])]
        reps = classes(vals, kramers, 0.06 if kramers else 0.12)
        if reps is None or len(reps) < 2:
            continue
        tag = "SG %d spinor=%s %s S=%s k=%s op %d kramers=%s" % (sg, spinor, code, S.tolist(), kd.k, s.ind, kramers)
        f = fk[int(rng.integers(len(fk)))]
        with quiet():
            if first:
                ctx.close("unfold-whole", b.kpoints[0].unfold(S, f, degen_thresh=LEVEL_TOL), want(full, f, LEVEL_TOL), 3e-5, tag)
            subs = b.Separate(s.ind, degen_thresh=LEVEL_TOL, groupKramers=kramers)
        truth = projections([kd], None, 0, case.nb, [D], reps, kramers)
        for ev, sub in subs.items():
            x = truth[int(np.argmin([abs((np.real(ev) if kramers else ev) - y) for y in reps]))][0]
            for g in fk[:4]:
                with quiet():
                    r = np.asarray(sub.kpoints[0].unfold(S, g, degen_thresh=LEVEL_TOL))
                w = want(x, g, LEVEL_TOL)
                ctx.event("unfolded_subspaces")
                if ctx.close("sub-unfold-shape", r.shape, w.shape, 0, tag):
                    ctx.close("sub-unfold", r, w, 3e-5, "k=%s eigenvalue %s %s" % (g, ev, tag))
        with quiet():
            ctx.close("unfold-whole", b.kpoints[0].unfold(S, f, degen_thresh=LEVEL_TOL), want(full, f, LEVEL_TOL), 3e-5, tag)
        ctx.distinct("sub", sg, spinor, code, len(reps))
        return


def run(job, ctx, rng):
    if job.get("sep"):
        return run_separated(job, ctx, rng)
    spinor = bool(rng.random() < .6)
    while True:
        S = rng.integers(-2, 3, (3, 3))
        u = rng.random()
        if u < .25:
            S = np.diag(rng.integers(1, 4, 3))
        elif u < .5:
            S = np.diag(rng.permutation([int(rng.integers(3, 9)), int(rng.integers(1, 3)), 1]))
            if u < .3:
                S = np.diag(rng.permutation([int(rng.integers(18, 41)), 1, 1]))
        d = abs(round(np.linalg.det(S)))
        if 1 <= d <= 12 or .25 <= u < .3:
            break
    C = tame_crystal(1, rng, volume=60.0)
    B = reclat(C.lattice)
    K = rng.choice([0.0, 0.5, 0.25, 1 / 3., -0.5, 0.17, 1.25], 3)
    nk = int(rng.integers(1, 3))
    ks = [K] + [rng.uniform(-.5, .5, 3) for _ in range(nk - 1)]
    ecut = pick_ecut(B, ks, 40, abs(np.linalg.det(C.lattice)))
    nb = int(rng.integers(2, 8))
    kds = [random_states(rng, B, k, ecut, nb, spinor) for k in ks]
    case = Case()
    case.C, case.ecut, case.kds, case.ks, case.spinor, case.nb, case.sg, case.B = C, ecut, kds, ks, spinor, nb, 1, B
    code = str(rng.choice(["vasp", "abinit", "espresso", "wannier90"]))
    b = run_code(case, code, rng=rng, calculate_traces=False)
    thr = float(rng.choice([1e-4, 0.1, 0.5]))
    tag = "S=%s K=%s spinor=%s thr=%g %s" % (S.tolist(), K, spinor, thr, code)
    kd, kp = kds[0], b.kpoints[0]
    n = len(kd.G)
    grp = groups(kd.E, thr)
    sig = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]
    CC = kd.C / np.linalg.norm(kd.C, axis=1)[:, None]
    parts = [CC[:, :n], CC[:, n:]] if spinor else [CC]

    def smat(a, e):
        if not spinor:
            return [parts[0][a:e].conj() @ parts[0][a:e].T]
        return [sum(s[x, y] * (parts[x][a:e].conj() @ parts[y][a:e].T) for x in (0, 1) for y in (0, 1)) for s in sig]

    # spin matrices
    rho = kp.get_rho_spin(thr)
    if ctx.close("rho-groups", [(r[0], r[1]) for r in rho], grp, 0, tag):
        for (a, e), r in zip(grp, rho):
            ctx.close("rho-energy", r[2], kd.E[a:e].mean(), 1e-5, tag)
            want = smat(a, e)
            if ctx.close("rho-components", len(r[3]), len(want), 0, tag):
                for c, (x, y) in enumerate(zip(r[3], want)):
                    ctx.close("rho-matrix", x, y, 5e-6, lambda: "component %d %s" % (c, tag))
                    ctx.event("spin_components")
    tot = np.zeros((len(grp), 4 if spinor else 1))
    Si = np.linalg.inv(S)
    fk = folded(S, K)
    ctx.require(len(fk) == d, "harness", "folding")
    if d > 6:
        ctx.event("large_supercells")
    if d > 12:
        ctx.event("very_large_supercells")
    for f in fk:
        f = f + rng.integers(-1, 2, 3)            # any equivalent primitive k
        if rng.random() < .3:
            f = np.round(f, 7)                    # as printed in files
            ctx.event("rounded_points")
        with quiet():
            r = np.asarray(kp.unfold(S, f, degen_thresh=thr))
        ctx.event("unfolded")
        # plane waves K+G that belong to f: inverse supercell image differs from f by an integer vector
        x = (kd.G + kd.k) @ Si.T - f
        sel = np.abs(x - np.round(x)).max(axis=1) < 1e-5
        if rng.random() < .3:
            # another threshold, then the first again
            t2 = float(rng.choice([1e-4, .1, .5, 20.0]))
            g2 = groups(kd.E, t2)
            with quiet():
                r2, r3 = np.asarray(kp.unfold(S, f, degen_thresh=t2)), np.asarray(kp.unfold(S, f, degen_thresh=thr))
            ctx.event("thresholds")
            ctx.close("unfold-again", r3, r, 1e-12, tag)
            if ctx.close("unfold-groups", len(r2), len(g2), 0, "%g %s" % (t2, tag)):
                for j, (a, e) in enumerate(g2):
                    P = sum(p[a:e][:, sel].conj() @ p[a:e][:, sel].T for p in parts)
                    ctx.close("unfold-threshold", r2[j], [kd.E[a:e].mean()] + [np.trace(P @ M).real for M in smat(a, e)], 2e-5, lambda: "%g %s" % (t2, tag))
        if not ctx.close("unfold-shape", r.shape, (len(grp), 5 if spinor else 2), 0, tag):
            continue
        for j, (a, e) in enumerate(grp):
            P = sum(p[a:e][:, sel].conj() @ p[a:e][:, sel].T for p in parts)
            want = [kd.E[a:e].mean()] + [np.trace(P @ M).real for M in smat(a, e)]
            ctx.close("unfold", r[j], want, 2e-5, lambda: "k=%s group %d %s" % (f, j, tag))
            tot[j] += r[j, 1:]
        ctx.distinct(tuple(S.ravel()), spinor, tuple(np.round(f, 3)))
    ctx.event("sum_rules")
    for j, (a, e) in enumerate(grp):
        ctx.close("sum-rule", tot[j], [np.trace(M).real for M in smat(a, e)], 5e-5, tag)
    # a primitive k point that does not fold to this one is refused
    bad = fk[0] + Si @ rng.choice([0.5, 0.3, 0.01] if rng.random() < .5 else [1e-3, 1e-4, 3e-4, 0.0, 1.0, -2e-3], 3)
    if np.linalg.norm(S @ (bad - fk[0]) - np.round(S @ (bad - fk[0]))) < 5e-5:
        bad = bad + Si @ [2e-4, 0, 0]
    try:
        with quiet():
            kp.unfold(S, bad)
        ctx.require(False, "unfold-wrong-k-accepted", "k=%s %s" % (bad, tag))
    except RuntimeError:
        ctx.event("refused")
        ctx.event("oracle_decisions")
    for off in (rng.integers(-2, 3, 3).astype(float), np.array([0, 0.5, 0.0]), rng.uniform(.01, .4, 3)):
        want = np.abs(off - np.round(off)).max() < 1e-9
        ctx.require(bool(kp.k_close_mod1(kd.k + off)) == want, "k_close_mod1", "%s" % off)
    ctx.require(np.array_equal(kp.K, kp.k), "K-alias", "")
    ctx.sample(S=S.tolist(), K=K.tolist(), spinor=spinor, groups=len(grp), folded_points=len(fk))
