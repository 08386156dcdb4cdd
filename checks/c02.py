"""C02: the operations reported are exactly the space group of the crystal."""
import numpy as np
from vlib.case import *
from vlib.su2 import cart_rotation
from vlib.pw import in_little_group

PROP = "C02"
RULE = ("one case = random crystal (generic orbits, random metric/orientation/origin/unimodular cell/handedness, primitive or "
        "conventional centred cell) of one space group; distinct = (SG, cell kind, search flag, spinor) whose complete operation list "
        "was compared with the generating group; permuted-atom copies must give the same group; and crystals lowered to a random "
        "subgroup by species alone, by displacements of 0.003-0.15 Angstrom, or by strain, whose operations are recomputed from the sites")
MINIMUM = {"crystals": 400, "operations": 5000, "groups_closed": 400, "lowered_species": 120, "lowered_distorted": 100, "lowered_strained": 100}
ASSUMPTIONS = ["spglib default symprec 1e-5; crystals are generated far from accidental higher symmetry (screened by spglib's number)"]


def jobs(tier, seed):
    rng = np.random.default_rng(seed + 2)
    n = 3 if tier == "quick" else 30
    out = [dict(sg=int(sg), rep=r) for r in range(n) for sg in rng.permutation(np.arange(1, 231))]
    for r in range(n):
        for sg in rng.permutation(np.arange(2, 231)):
            out.append(dict(sg=int(sg), rep=r, low=str(rng.choice(["species", "distorted", "strained"]))))
    return out


def rodrigues(n, a):
    n = n / np.linalg.norm(n)
    K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    return np.eye(3) + np.sin(a) * K + (1 - np.cos(a)) * K @ K


def subgroup(C, rng):
    """Indices of a random subgroup of the crystal's operations (modulo lattice translations)."""
    ops = [(R, t % 1) for R, t in C.ops]

    def find(R, t):
        for i, (R0, t0) in enumerate(ops):
            if np.array_equal(R, R0):
                return i
        raise AssertionError
    H = {find(np.eye(3, dtype=int), 0)}
    gen = [int(i) for i in rng.choice(len(ops), min(len(ops), int(rng.integers(0, 3))), replace=False)]
    while True:
        new = set(H)
        for a in list(H) + gen:
            for g in gen:
                R, t = ops[a][0] @ ops[g][0], ops[a][0] @ ops[g][1] + ops[a][1]
                new.add(find(R, t))
        if new == H:
            return sorted(H)
        H = new


def preserved(lat, pos, num, ops, tol=1e-7):
    """Operations that map the decorated crystal onto itself and keep its metric."""
    G = lat @ lat.T
    num = np.asarray(num)
    out = []
    for i, (R, t) in enumerate(ops):
        if np.abs(R.T @ G @ R - G).max() > tol * np.abs(G).max():
            continue
        x = pos @ R.T + t
        d = x[:, None] - pos[None]
        d = np.abs(d - np.round(d)).max(axis=2) < tol
        j = d.argmax(axis=1)
        if d.any(axis=1).all() and np.array_equal(num[j], num) and len(set(j)) == len(j):
            out.append(i)
    return out


def lowered(job, ctx, rng):
    """Crystals that keep only a subgroup of the symmetry of a parent: through the species alone, or through small distortions."""
    from irrep.spacegroup import SpaceGroup
    import spglib
    C = make_crystal(job["sg"], rng, lefthanded=bool(rng.random() < .3), volume=float(rng.uniform(20, 200)))
    H = subgroup(C, rng)
    ops = [(R, t) for R, t in C.ops]
    n = len(ops)
    lat, pos, num = np.array(C.lattice), np.array(C.positions), list(C.numbers)
    assert len(pos) % n == 0
    kind = job["low"]
    if kind == "species":
        # sites of one orbit: site i = op i on the first; H permutes them, one species for every orbit of H
        for o in range(len(pos) // n):
            if rng.random() < .3 and o:
                continue
            sites = list(range(o * n, (o + 1) * n))
            left = set(sites)
            col = 0
            while left:
                s0 = min(left)
                orb = set()
                for h in H:
                    x = ops[h][0] @ pos[s0] + ops[h][1]
                    d = pos[sites] - x
                    j = sites[int(np.abs(d - np.round(d)).max(axis=1).argmin())]
                    orb.add(j)
                for j in orb:
                    num[j] = 10 * (o + 1) + col % 10 + 60 * (col // 10)
                left -= orb
                col += 1
        amp = 0
    else:
        amp = float(10 ** rng.uniform(-2.6, -.8)) if kind == "distorted" else float(10 ** rng.uniform(-2.6, -1))
        if kind == "distorted":
            dx = rng.normal(size=pos.shape)
            dx /= np.linalg.norm(dx @ lat, axis=1)[:, None]
            new = np.zeros_like(pos)
            for h in H:
                R, t = ops[h]
                x = pos @ R.T + t
                d = x[:, None] - pos[None]
                j = np.abs(d - np.round(d)).max(axis=2).argmin(axis=1)
                new[j] += (dx @ R.T)
            pos = pos + amp * new / len(H)
        else:
            e = rng.normal(size=(3, 3))
            e = e + e.T
            G = lat @ lat.T
            D = lat @ e @ lat.T
            D = sum(ops[h][0].T @ D @ ops[h][0] for h in H) / len(H)
            L0 = np.linalg.cholesky(G)
            L1 = np.linalg.cholesky(G + amp * D)
            lat = L1 @ (np.linalg.inv(L0) @ lat)
    exp = preserved(lat, pos, num, ops)
    assert set(H) <= set(exp)
    # nothing may be nearly preserved
    if kind != "species":
        for tol in (1e-5, 1e-4):
            if preserved(lat, pos, num, ops, tol) != exp:
                raise Inconclusive("too small a distortion")
    with quiet():
        S = SpaceGroup((lat, pos, num), spinor=bool(rng.random() < .5), search_cell=False)
    tag = "%s (%.3g) of SG %d to %d of %d operations" % (kind, amp, job["sg"], len(exp), n)
    got = match_ops(C, S.symmetries, 3e-5)
    ctx.event("lowered_" + kind)
    ctx.event("operations", len(got))
    ctx.require(sorted(got) == exp, "operations-of-lowered-crystal", lambda: "%s: got %s, expected %s" % (tag, sorted(got), exp))
    Q = np.diag([1, 1, int(np.sign(np.linalg.det(lat)))])       # the type of the group as seen in right-handed axes
    ty = spglib.get_spacegroup_type_from_symmetry([Q @ ops[i][0] @ Q for i in exp], [Q @ ops[i][1] for i in exp], lattice=Q @ lat)
    if ty is not None:
        ctx.require(S.number == ty.number and S.name.split()[0] == ty.international_short.split()[0], "number-of-lowered-crystal",
                    lambda: "%s: %s %s, expected %s %s" % (tag, S.number, S.name, ty.number, ty.international_short))
        ctx.distinct("lowered", kind, job["sg"], ty.number)


def run(job, ctx, rng):
    if job.get("low"):
        return lowered(job, ctx, rng)
    sg = job["sg"]
    conv = bool(job["rep"] % 3 == 1)
    kw = dict(conventional=conv, lefthanded=bool(rng.random() < .35), volume=float(rng.uniform(20, 200)))
    if rng.random() < .3:
        kw.update(digits=7)         # a cell known to some decimals
    search = bool(not conv and rng.random() < .5)
    C = tame_crystal(sg, rng, **kw) if search else make_crystal(sg, rng, **kw)
    ctx.event("rounded_cells", "digits" in kw)
    sp = bool(rng.random() < .5)
    exp = [(R, t % 1) for R, t in C.ops]
    if conv and C.ncent > 1:
        cents = [C.P @ c for c in std_ops(sg)[1]]
        exp = [(R, (t + c) % 1) for R, t in exp for c in cents]
    perm = rng.permutation(len(C.numbers))
    variants = [("as generated", C.positions, C.numbers),
                ("permuted atoms, other representatives", C.positions[perm] + rng.integers(-1, 2, (len(perm), 3)),
                 [5 + 3 * C.numbers[i] for i in perm])]
    for tag, pos, num in variants:
        from irrep.spacegroup import SpaceGroup
        with quiet():
            S = SpaceGroup((C.lattice, pos, num), spinor=sp, search_cell=search)
        ctx.event("crystals")
        ctx.require(S.number == sg, "group-number", "%s: %s expected %d" % (tag, S.number, sg))
        ctx.require(len(S.symmetries) == len(exp) and S.order == len(exp), "order",
                    lambda: "%s SG %d: %d/%s operations, expected %d" % (tag, sg, len(S.symmetries), S.order, len(exp)))
        used = set()
        for s in S.symmetries:
            R = np.asarray(s.rotation)
            hit = [i for i, (R0, t0) in enumerate(exp) if np.array_equal(R, R0)
                   and np.abs((np.asarray(s.translation) - t0 + .5) % 1 - .5).max() < 3e-5]
            ctx.event("operations")
            if not ctx.require(len(hit) == 1 and hit[0] not in used, "operation-not-in-group",
                               lambda: "%s SG %d op R=%s t=%s matches %s (used %s)" % (tag, sg, R.tolist(), s.translation, hit, hit and hit[0] in used)):
                continue
            used.add(hit[0])
            O = cart_rotation(R, C.lattice)
            det = round(np.linalg.det(R))
            ctx.require(bool(s.inversion) == (det < 0), "inversion-flag", str(R.tolist()))
            ctx.close("axis-angle", rodrigues(np.asarray(s.axis, float), s.angle) * det, O, 1e-5,
                      lambda: "axis %s angle %s" % (s.axis, s.angle))
            a = s.angle / np.pi
            txt = s.angle_str.replace("pi", "").strip()
            val = float(txt.split("/")[0]) / (float(txt.split("/")[1]) if "/" in txt else 1)
            ctx.close("angle-text", val, a, 1e-9)
        ctx.require(used == set(range(len(exp))), "operation-missing", lambda: "%s SG %d missing %s" % (tag, sg, set(range(len(exp))) - used))
        inds = [s.ind for s in S.symmetries]
        ctx.require(sorted(inds) == list(range(1, len(exp) + 1)), "indices", str(inds))
        # monitor: closure of the reported set as a group modulo lattice translations
        key = {}
        for s in S.symmetries:
            key.setdefault(np.asarray(s.rotation).astype(int).tobytes(), []).append(np.asarray(s.translation))
        bad = 0
        ops = S.symmetries if len(S.symmetries) <= 24 else [S.symmetries[i] for i in rng.choice(len(S.symmetries), 24, replace=False)]
        for a_ in ops:
            for b_ in ops:
                R = (np.asarray(a_.rotation) @ np.asarray(b_.rotation)).astype(int)
                t = np.asarray(a_.rotation) @ np.asarray(b_.translation) + np.asarray(a_.translation)
                if not any(np.abs((t - x + .5) % 1 - .5).max() < 1e-4 for x in key.get(R.tobytes(), [])):
                    bad += 1
        ctx.require(bad == 0, "not-closed", "SG %d: %d products outside the reported set" % (sg, bad))
        ctx.event("groups_closed")
        ctx.distinct(sg, conv, search, sp)
    ctx.sample(sg=sg, conventional=conv, operations=len(exp), lattice=np.round(C.lattice, 3).tolist())
