"""C15: overlaps, Zak phases and Wannier charge centres along closed paths."""
import re
import numpy as np
from vlib.case import *
from vlib.pw import KData
from vlib.runner import quiet

PROP = "C15"
RULE = ("one case = random crystal, closed path of 3-7 k points along a reciprocal lattice vector (with random offsets and reciprocal "
        "displacements), random window of bands, any interface; overlaps, Zak phases, gaps and Wannier charge centres (API and CLI) are "
        "compared with the discrete Berry phases of the generating eigenvectors; distinct = (SG, spinor, direction, points)")
MINIMUM = {"overlaps": 300, "zak_phases": 150, "wcc": 150, "cli": 20, "sub_zak": 150, "sub_wcc": 40, "sub_cli": 15}
ASSUMPTIONS = ["phases are compared only where the determinant of the overlap is not close to zero (the phase is then not defined)"]


def jobs(tier, seed):
    rng = np.random.default_rng(seed + 15)
    n = 220 if tier == "quick" else 2000
    out = [dict(sg=int(rng.integers(1, 231)), rep=i, spinor=bool(rng.random() < .5), big=bool(i % 20 == 0)) for i in range(n)]
    # paths along which an operation holds, bands separated by its eigenvalues
    return out + [dict(sg=int(rng.integers(2, 231)), rep=10000 + i, spinor=bool(i % 2), sep=True) for i in range(n)]


def exact_overlap(kd1, kd2, g, bands):
    """<u_m(k1)|u_n(k2+g)>"""
    n1, n2 = len(kd1.G), len(kd2.G)
    look = {tuple(x): i for i, x in enumerate(kd1.G)}
    M = np.zeros((bands.stop - bands.start,) * 2, complex)
    i2 = [j for j, x in enumerate(kd2.G) if tuple(x - g) in look]
    i1 = [look[tuple(kd2.G[j] - g)] for j in i2]
    C1 = kd1.C[bands] / np.linalg.norm(kd1.C[bands], axis=1)[:, None]
    C2 = kd2.C[bands] / np.linalg.norm(kd2.C[bands], axis=1)[:, None]
    for s in ((0, 1) if kd1.spinor else (0,)):
        M += C1[:, s * n1 + np.array(i1)].conj() @ C2[:, s * n2 + np.array(i2)].T
    return M


def angdist(a, b, period):
    d = (np.asarray(a) - np.asarray(b)) / period
    return np.abs(d - np.round(d)) * period


def match_circle(got, want):
    """largest distance (period 1) of the best cyclic matching of two sorted lists"""
    got, want = np.sort(np.asarray(got) % 1), np.sort(np.asarray(want) % 1)
    return min(angdist(np.roll(got, s), want, 1.0).max() for s in range(len(want)))


def projections(kds, d, lo, hi, mats, reps, real):
    """States of each class of eigenvalues at each k: {class: [KData with .C, .E]}"""
    from checks.c13 import eigenspaces
    out = {}
    for c in range(len(reps)):
        ks = []
        for kd, D in zip(kds, mats):
            lv = [x for x in kd.levels(LEVEL_TOL) if x[0] >= lo and x[1] <= hi]
            sp = eigenspaces(D, lv, real, reps)
            Cn = kd.C / np.linalg.norm(kd.C, axis=1)[:, None]
            rows, E = [], []
            for (a, e), P in zip(lv, sp):
                u, s, _ = np.linalg.svd(P[c])
                n = int((s > .5).sum())
                rows.append(u[:, :n].T @ Cn[a:e])
                E += [kd.E[a:e].mean()] * n
            x = KData()
            x.k, x.G, x.spinor = kd.k, kd.G, kd.spinor
            x.C, x.E = np.vstack(rows), np.array(E)
            ks.append(x)
        out[c] = ks
    return out


def loop(ks, d):
    """overlaps along the closed path, for any number of states at each point"""
    O, N = [], len(ks)
    for j in range(N):
        a, b = ks[j], ks[(j + 1) % N]
        g = np.round(a.k + d / N - b.k).astype(int)
        n1, n2 = len(a.G), len(b.G)
        look = {tuple(x): i for i, x in enumerate(a.G)}
        i2 = [i for i, x in enumerate(b.G) if tuple(x - g) in look]
        i1 = [look[tuple(b.G[i] - g)] for i in i2]
        O.append(sum(a.C[:, s * n1 + np.array(i1)].conj() @ b.C[:, s * n2 + np.array(i2)].T for s in ((0, 1) if a.spinor else (0,))))
    return O


def run_separated(job, ctx, rng):
    from checks.c13 import classes, opmat
    from irrep.bandstructure import BandStructure
    sg, spinor = job["sg"], job["spinor"]
    C = tame_crystal(sg, rng, volume=float(rng.uniform(28, 45)))
    # an operation and a direction it leaves invariant, its eigenvalues the same all along
    pairs = []
    for R, t in C.ops:
        if np.array_equal(R, np.eye(3)):
            continue
        RiT = np.round(np.linalg.inv(np.asarray(R, float)).T)
        T, X = np.zeros(3), np.eye(3)
        proj = np.zeros((3, 3))
        for _ in range(12):
            T, proj, X = T + X @ t, proj + np.round(np.linalg.matrix_power(RiT, _)) / 12, X @ R
        for d in np.array(np.meshgrid([-1, 0, 1], [-1, 0, 1], [-1, 0, 1])).reshape(3, -1).T:
            if d.any() and np.array_equal(RiT @ d, d) and abs(d @ T) < 1e-6:
                pairs.append((R, t, d.astype(float), proj))
    if not pairs:
        ctx.event("no_invariant_path")
        return
    R, t, d, proj = pairs[int(rng.integers(len(pairs)))]
    N = int(rng.integers(3, 7))
    k0 = proj @ rng.choice([0.0, 0.5, 0.123, 0.3], 3)
    kpts = [k0 + d * j / N for j in range(N)]
    case = build(rng, sg, spinor, crystal=C, kpts=kpts, npw=36, nb=10 if spinor else 8, trbreak=bool(rng.random() < .5))
    kds = case.kds
    cut = [n for n in range(0, case.nb + 1) if all(n in (0, case.nb) or kd.E[n] - kd.E[n - 1] > 2e-3 for kd in kds)]
    lo, hi = (0, case.nb) if rng.random() < .5 else sorted(int(x) for x in rng.choice(cut, 2, replace=False))
    code = str(rng.choice(["vasp", "abinit", "espresso", "wannier90"]))
    files = write_code(case, code, rng=rng)
    with quiet():
        b = BandStructure(calculate_traces=True, degen_thresh=LEVEL_TOL, IBstart=lo + 1, IBend=hi, **files)
        b.identify_irreps(None)
    op = [s for s in b.spacegroup.symmetries if np.array_equal(s.rotation, R) and np.abs((lambda x: x - np.round(x))(np.asarray(s.translation) - t)).max() < 1e-3]
    op = op[0]
    kramers = bool(rng.random() < .5)
    mats = [opmat(case, kd, op) for kd in kds]
    vals = [w for kd, D in zip(kds, mats) for a, e in kd.levels(LEVEL_TOL) if a >= lo and e <= hi for w in np.linalg.eigvals(D[a:e, a:e])]
    reps = classes(vals, kramers, 0.06 if kramers else 0.12)
    if reps is None:
        ctx.event("ambiguous_skipped")
        return
    tag = "SG %d spinor=%s %s N=%d d=%s bands %d-%d op %d kramers=%s" % (sg, spinor, code, N, d, lo + 1, hi, op.ind, kramers)
    with quiet():
        subs = b.Separate(op.ind, degen_thresh=LEVEL_TOL, groupKramers=kramers)
    if not ctx.close("number-of-subspaces", len(subs), len(reps), 0, tag):
        return
    truth = projections(kds, d, lo, hi, mats, reps, kramers)
    zak_cli = wcc_cli = None
    if rng.random() < .5 and kramers:
        base = cli_files(files) + ["-IBstart=%d" % (lo + 1), "-IBend=%d" % hi, "-isymsep=%d" % op.ind, "-degenThresh=%g" % LEVEL_TOL]
        if all(len(x.C) for ks in truth.values() for x in ks):
            rc, out = run_cli(base + ["-ZAK"])
            zak_cli = re.split(r"symmetry eigenvalue : \((.*?),\)\s*Zak phases are :", out)[1:]
        if all(len({len(x.C) for x in ks}) == 1 and len(ks[0].C) for ks in truth.values()):
            rc, out = run_cli(base + ["-WCC"])
            wcc_cli = re.findall(r"symmetry eigenvalue : \((.*?),\)\s*WCC are\s*:\s*\[(.*?)\]\s*\n?\s*sumWCC=(\S+)", out, re.S)
    for n_, (ev, sub) in enumerate(subs.items()):
        dist = [abs((np.real(ev) if kramers else ev) - x) for x in reps]
        c = int(np.argmin(dist))
        ks = truth[c]
        counts = [len(x.C) for x in ks]
        tg = "eigenvalue %s %s" % (ev, tag)
        have = [i for i, n in enumerate(counts) if n]
        if not ctx.require([kp.ik0 - 1 for kp in sub.kpoints] == have and [kp.num_bands for kp in sub.kpoints] == [counts[i] for i in have], "subspace-bands",
                           lambda: "%s expected %s %s" % ([kp.num_bands for kp in sub.kpoints], counts, tg)):
            continue
        if len(have) < N:
            continue
        O = loop(ks, d)
        nb = min(counts)
        det = np.array([[np.linalg.det(M[:n, :n]) for n in range(1, nb + 1)] for M in O])
        z = np.angle(det).sum(axis=0)
        # the first n states are a subspace if no level is cut at any point
        whole = np.array([all(n == len(x.C) or x.E[n] - x.E[n - 1] > LEVEL_TOL for x in ks) for n in range(1, nb + 1)])
        good = whole & (np.abs(det).min(axis=0) > 0.02)
        with quiet():
            zz, gap, cen, loc = sub.zakphase()
        if ctx.close("sub-zak-shape", np.shape(zz), (nb,), 0, tg):
            ctx.event("sub_zak", int(good.sum()))
            ctx.close("sub-zak-phase", angdist(np.asarray(zz)[good], z[good], 2 * np.pi), np.zeros(good.sum()), 4e-3, tg)
        E = np.array([x.E[:nb] for x in ks])
        want = [E[:, n + 1].min() - E[:, n].max() for n in range(nb - 1)]
        ctx.close("sub-zak-gap", np.asarray(gap)[:nb - 1], want, 1e-5, tg)
        ctx.close("sub-zak-local-gap", np.asarray(loc)[:nb - 1], [(E[:, n + 1] - E[:, n]).min() for n in range(nb - 1)], 1e-5, tg)
        if zak_cli is not None and ctx.close("sub-cli-zak-blocks", len(zak_cli), 2 * len(subs), 0, tg):
            ctx.close("sub-cli-eigenvalue", complex(re.sub(r"^np\.\w+\((.*)\)$", r"\1", zak_cli[2 * n_])), ev, 1e-4, tg)
            rows = re.findall(r"^\s*(\d+)\s+([-\d.]+) pi gapwidth =\s*(\S+) gapcenter =\s*(\S+) localgap=\s*(\S+)", zak_cli[2 * n_ + 1], re.M)
            if ctx.close("sub-cli-zak-rows", [int(x[0]) for x in rows], list(range(1, nb + 1)), 0, tg):
                ctx.event("sub_cli")
                got = np.array([float(x[1]) for x in rows])
                ctx.close("sub-cli-zak", angdist(got[good], z[good] / np.pi, 2.0), np.zeros(good.sum()), 2e-3, tg)
                ctx.close("sub-cli-gap", [float(x[2]) for x in rows[:-1]], want, 1e-3, tg)
        if len(set(counts)) == 1:
            sv = min(np.linalg.svd(M, compute_uv=False).min() for M in O)
            W = np.eye(nb, dtype=complex)
            for M in O:
                u, s, vh = np.linalg.svd(M)
                W = W @ (u @ vh)
            wc = np.angle(np.linalg.eigvals(W)) / (2 * np.pi)
            if sv > .02:
                ctx.event("sub_wcc")
                with quiet():
                    got = np.asarray(sub.wcc())
                if ctx.close("sub-wcc-shape", got.shape, (nb,), 0, tg):
                    ctx.close("sub-wcc", match_circle(got, wc), 0.0, 4e-3, tg)
                if wcc_cli is not None and ctx.close("sub-cli-wcc-blocks", len(wcc_cli), len(subs), 0, tg):
                    got = np.array(wcc_cli[n_][1].split(), float)
                    if ctx.close("sub-cli-wcc-count", len(got), nb, 0, tg):
                        ctx.close("sub-cli-wcc", match_circle(got, wc), 0.0, 4e-3, tg)
                        ctx.close("sub-cli-wcc-sum", angdist(float(wcc_cli[n_][2]), wc.sum(), 1.0), 0.0, 2e-2, tg)
    ctx.event("separated_paths")
    ctx.distinct(sg, spinor, tuple(d), "sep", len(reps), kramers)


def run(job, ctx, rng):
    if job.get("sep"):
        return run_separated(job, ctx, rng)
    sg, spinor = job["sg"], job["spinor"]
    N = int(rng.integers(10, 22) if job["big"] else rng.integers(3, 8))
    dirn = int(rng.integers(3))
    if rng.random() < .7:
        d = np.eye(3)[dirn]
    else:
        d = rng.integers(-1, 2, 3).astype(float)
        if not d.any():
            d[dirn] = 1.0
    if rng.random() < .3:
        d = -d
    k0 = rng.choice([0.0, 0.5, 0.123, 0.3], 3)
    kpts = [k0 + d * j / N for j in range(N)]
    case = build(rng, sg, spinor, kpts=kpts, npw=60 if job["big"] else 32, nb=20 if job["big"] else 7, whole_levels=False)
    lo = min(int(rng.choice([0, 0, 1, 2])), case.nb - 1)
    hi = int(rng.integers(lo + 1, case.nb + 1))
    bands = slice(lo, hi)
    code = str(rng.choice(["vasp", "abinit", "espresso", "wannier90"]))
    files = write_code(case, code, rng=rng)
    from irrep.bandstructure import BandStructure
    with quiet():
        b = BandStructure(calculate_traces=True, degen_thresh=LEVEL_TOL, IBstart=lo + 1, IBend=hi, **files)
    tag = "SG %d spinor=%s %s N=%d d=%s k0=%s bands %d-%d" % (sg, spinor, code, N, d, k0, lo + 1, hi)
    O = []
    kds = case.kds
    for j in range(N):
        nxt = kds[(j + 1) % N]
        # k(j+1) = k(j) + d/N: the reciprocal vector completing the loop
        g = np.round(kds[j].k + d / N - nxt.k).astype(int)
        M = exact_overlap(kds[j], nxt, g, bands)
        got = b.kpoints[j].overlap(b.kpoints[(j + 1) % N])
        ctx.event("overlaps")
        ctx.close("overlap", got, M, 2e-5, lambda: "pair %d %s" % (j, tag))
        O.append(M)
    nb = hi - lo
    det = np.array([[np.linalg.det(M[:n, :n]) for n in range(1, nb + 1)] for M in O])
    z = np.angle(det).sum(axis=0)
    good = np.abs(det).min(axis=0) > 0.02
    with quiet():
        zz, gap, cen, loc = b.zakphase()
    ctx.close("zak-shape", np.shape(zz), (nb,), 0, tag)
    ctx.close("zak-phase", angdist(np.asarray(zz)[good], z[good], 2 * np.pi), np.zeros(good.sum()), 4e-3, tag)
    ctx.require(np.all(np.asarray(zz) >= 0) and np.all(np.asarray(zz) <= 2 * np.pi), "zak-range", tag)
    ctx.event("zak_phases", int(good.sum()))
    E = np.array([kd.E[bands] for kd in kds])
    emin, emax = E.min(axis=0), E.max(axis=0)
    want = [emin[n + 1] - emax[n] for n in range(nb - 1)]
    ctx.close("zak-gap", np.asarray(gap)[:nb - 1], want, 1e-5, tag)
    ctx.close("zak-gap-centre", np.asarray(cen)[:nb - 1], [(emin[n + 1] + emax[n]) / 2 for n in range(nb - 1)], 1e-5, tag)
    ctx.close("zak-local-gap", np.asarray(loc)[:nb - 1], [(E[:, n + 1] - E[:, n]).min() for n in range(nb - 1)], 1e-5, tag)
    ctx.require(gap[-1] == np.inf and loc[-1] == np.inf, "zak-last-gap", tag)
    # Wilson loop
    sv = min(np.linalg.svd(M, compute_uv=False).min() for M in O)
    W = np.eye(nb, dtype=complex)
    for M in O:
        u, s, vh = np.linalg.svd(M)
        W = W @ (u @ vh)
    wc = np.angle(np.linalg.eigvals(W)) / (2 * np.pi)
    if sv > 0.02:
        with quiet():
            got = np.asarray(b.wcc())
        ctx.event("wcc")
        if ctx.close("wcc-shape", got.shape, (nb,), 0, tag):
            ctx.close("wcc", match_circle(got, wc), 0.0, 4e-3, lambda: "%s vs %s %s" % (got, np.sort(wc % 1), tag))
            ctx.require(np.all((got >= 0) & (got <= 1)) and np.all(np.diff(got) >= 0), "wcc-range", lambda: "%s %s" % (got, tag))
    ctx.distinct(sg, spinor, tuple(d), N)
    ctx.sample(sg=sg, spinor=spinor, N=N, zak_over_pi=np.round((z % (2 * np.pi)) / np.pi, 4).tolist(), wcc=np.round(np.sort(wc % 1), 4).tolist())
    if rng.random() < .3:
        base = cli_files(files) + ["-IBstart=%d" % (lo + 1), "-IBend=%d" % hi]
        rc, out = run_cli(base + ["-ZAK"])
        rows = re.findall(r"^\s*(\d+)\s+([-\d.]+) pi gapwidth =\s*(\S+) gapcenter =\s*(\S+) localgap=\s*(\S+)", out, re.M)
        if ctx.close("cli-zak-rows", [int(r[0]) for r in rows], list(range(1, nb + 1)), 0, tag):
            got = np.array([float(r[1]) for r in rows])
            ctx.close("cli-zak", angdist(got[good], z[good] / np.pi, 2.0), np.zeros(good.sum()), 2e-3, tag)
            ctx.close("cli-zak-gap", [float(r[2]) for r in rows[:-1]], want, 1e-3, tag)
        if sv > 0.02:
            rc, out = run_cli(base + ["-WCC"])
            m = re.search(r"WCC are\s*:\s*\[(.*?)\]\s*\n?\s*sumWCC=(\S+)", out, re.S)
            if ctx.require(m is not None, "cli-wcc", tag):
                got = np.array(m.group(1).split(), float)
                if ctx.close("cli-wcc-count", len(got), nb, 0, tag):
                    ctx.close("cli-wcc-values", match_circle(got, wc), 0.0, 4e-3, tag)
                    ctx.close("cli-wcc-sum", angdist(float(m.group(2)), wc.sum(), 1.0), 0.0, 2e-2, tag)
        ctx.event("cli")
