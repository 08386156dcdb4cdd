"""C07: the shipped tables are exact small representations, and they are served faithfully."""
import numpy as np
from vlib.case import *
from vlib.crystals import std_ops
from vlib.runner import quiet

PROP = "C07"
RULE = ("exhaustive: all 230 groups x {scalar, spin}; monitor observes the object the library serves (IrrepTable) and checks: operations "
        "equal to an independent database (spglib Hall settings), group closure, little groups of every listed k, orthonormality, "
        "completeness and the class-multiplication identity of every irrep with the space group's own factor system; plus agreement with "
        "an independent reading of the shipped text; distinct = (SG, spin, k point, irrep)")
MINIMUM = {"tables": 460, "irreps": 8000, "kpoints": 2000, "served_values": 50000}
ASSUMPTIONS = ["tables keep 4-5 decimals: tolerances 2e-3"]


def jobs(tier, seed):
    return [dict(sg=sg, spin=sp) for sg in range(1, 231) for sp in (False, True)]


def run(job, ctx, rng):
    from irreptables import IrrepTable
    sg, sp = job["sg"], job["spin"]
    with quiet():
        T = IrrepTable(sg, sp)
    ctx.event("tables")
    tag = "SG %d %s" % (sg, "spin" if sp else "scalar")
    ctx.require(T.number == sg and bool(T.spinor) == sp, "header", "%s: %s %s" % (tag, T.number, T.spinor))
    ops, cent = std_ops(sg)
    n = len(ops)
    ctx.require(T.nsym == n and len(T.symmetries) == n, "number-of-operations", "%s: %s expected %d" % (tag, T.nsym, n))
    import spglib
    from vlib.crystals import hall_for
    ty = spglib.get_spacegroup_type(hall_for(sg))
    ctx.require(str(T.name).replace("_", "").replace(" ", "") == ty.international_short.replace("_", ""), "name",
                lambda: "%s: %s expected %s" % (tag, T.name, ty.international_short))
    Rs = np.array([np.asarray(s.R) for s in T.symmetries]).astype(int)
    ts = np.array([o[1] for o in ops])
    for i, (s, (R, t)) in enumerate(zip(T.symmetries, ops)):
        ctx.require(np.array_equal(s.R, R), "operation-rotation", "%s op %d" % (tag, i + 1))
        d = np.asarray(s.t) - t
        ctx.close("operation-translation", d, np.round(d), 2e-5, "%s op %d" % (tag, i + 1))
    key = {R.tobytes(): i for i, R in enumerate(Rs)}
    ctx.require(len(key) == n, "repeated-operation", tag)
    mul = np.array([[key[(a @ b).astype(Rs.dtype).tobytes()] for b in Rs] for a in Rs])
    nv = ts[:, None] + np.einsum("iab,jb->ija", Rs, ts) - ts[mul]
    sgn = np.ones((n, n))
    if sp:
        S = np.array([np.asarray(s.S) for s in T.symmetries])
        ctx.close("spin-unitary", np.einsum("iab,icb->iac", S, S.conj()), np.broadcast_to(np.eye(2), (n, 2, 2)), 2e-3, tag)
        P = np.einsum("iab,jbc,ijdc->ijad", S, S, S[mul].conj())
        f = (np.einsum("ijaa->ij", P) / 2)
        ctx.close("spin-projective", np.abs(f.real), np.ones((n, n)), 2e-3, tag)
        sgn = np.round(f.real)
    inv = np.array([int(np.where(mul[i] == 0)[0][0]) for i in range(n)])
    # ---- served irreps, grouped by k point
    groups = {}
    for ir in T.irreps:
        groups.setdefault(ir.kpname, []).append(ir)
    W = read_table(sg, sp)
    ctx.require(list(groups) == [k.name for k in W.kpoints], "kpoint-labels", lambda: "%s: %s vs %s" % (tag, list(groups), [k.name for k in W.kpoints]))
    ctx.require([x.name for x in T.irreps] == [i.name for k in W.kpoints for i in k.irreps], "irrep-labels", tag)
    for kname, irs in groups.items():
        ctx.event("kpoints")
        k = np.asarray(irs[0].k, float)
        ctx.require(all(np.array_equal(np.asarray(i.k), k) for i in irs), "k-of-irreps", tag)
        kk = np.round(k * 12) / 12
        ctx.close("k-coordinates", k, kk, 1e-5, tag + kname)
        # little group of k (conventional cell; the centring decides equivalence of k)
        lg = []
        for i, R in enumerate(Rs):
            d = np.linalg.inv(R).T @ kk - kk
            if np.abs(d - np.round(d)).max() < 1e-6 and all(abs(np.exp(2j * np.pi * d @ c) - 1) < 1e-6 for c in cent):
                lg.append(i)
        idx = np.array(lg)
        d = len(idx)
        Wk = [x for x in W.kpoints if x.name == kname][0]
        Cm = np.zeros((len(irs), n), complex)
        for a, ir in enumerate(irs):
            ctx.event("irreps")
            ctx.distinct(sg, sp, kname, ir.name)
            if not ctx.require(sorted(ir.characters) == [i + 1 for i in lg], "little-group", lambda: "%s %s %s: %s vs %s" % (
                    tag, kname, ir.name, sorted(ir.characters), [i + 1 for i in lg])):
                return
            for i in lg:
                Cm[a, i] = ir.characters[i + 1]
            wi = [x for x in Wk.irreps if x.name == ir.name][0]
            ctx.event("served_values", d)
            ctx.close("served-characters", [ir.characters[i + 1] for i in lg], [wi.chars[i + 1] for i in lg], 1e-4, "%s %s" % (tag, ir.name))
            ctx.require(ir.dim == wi.dim, "served-dimension", "%s %s" % (tag, ir.name))
        dims = np.array([ir.dim for ir in irs])
        ctx.close("character-of-identity", Cm[:, 0], dims, 1e-3, "%s %s" % (tag, kname))
        ctx.close("orthonormal", Cm[:, idx] @ Cm[:, idx].conj().T / d, np.eye(len(irs)), 3e-3, "%s %s" % (tag, kname))
        ctx.close("complete", (dims ** 2).sum(), d, 0, "%s %s" % (tag, kname))
        om = np.exp(2j * np.pi * (nv @ kk)) * sgn
        g, h, l = idx[:, None, None], idx[None, :, None], idx[None, None, :]
        li = inv[l]
        lh = mul[l, h]
        lhl = mul[lh, li]
        e = mul[g, lhl]
        f = om[l, h] * om[lh, li] / om[l, li] * om[g, lhl]
        s = (f[None] * Cm[:, e]).sum(-1)
        ctx.close("representation-identity", Cm[:, idx][:, :, None] * Cm[:, idx][:, None, :], dims[:, None, None] / d * s, 5e-3,
                  "%s %s" % (tag, kname))
    roundtrip(ctx, T, sg, sp, tag)
    if sg % 40 == 0:
        ctx.sample(sg=sg, spin=sp, kpoints={k: [i.name for i in v] for k, v in groups.items()})


def roundtrip(ctx, T, sg, sp, tag):
    """The library's own text form of a table, read back as a user-defined table, is the same table."""
    from irreptables import IrrepTable, KPoint
    L = ["SG=%d" % sg, "name=%s" % T.name, "nsym=%d" % T.nsym, "spinor=%s" % sp, "symmetries="]
    L += [s.str(spinor=sp) for s in T.symmetries] + [""]
    last = None
    for ir in T.irreps:
        if ir.kpname != last:
            L += ["", "kpoint " + KPoint(name=ir.kpname, k=ir.k, isym=list(ir.characters)).str()]
            last = ir.kpname
        L.append(ir.str())
    with open("user.dat", "w") as f:
        f.write("\n".join(L) + "\n")
    with quiet():
        U = IrrepTable(sg, sp, name="user.dat")
    ctx.event("roundtrips")
    ctx.require(U.name == T.name and U.nsym == T.nsym and len(U.symmetries) == T.nsym, "roundtrip-header", tag)
    for a, b in zip(T.symmetries, U.symmetries):
        ctx.require(np.array_equal(a.R, b.R), "roundtrip-rotation", tag)
        ctx.close("roundtrip-translation", b.t, a.t, 1e-5, tag)
        if sp:
            ctx.close("roundtrip-spin", b.S, a.S, 1e-4, tag)
    if ctx.require([(i.name, i.kpname, i.dim) for i in U.irreps] == [(i.name, i.kpname, i.dim) for i in T.irreps], "roundtrip-irreps", tag):
        for a, b in zip(T.irreps, U.irreps):
            ks = sorted(a.characters)
            if ctx.require(sorted(b.characters) == ks, "roundtrip-little-group", tag + a.name):
                ctx.close("roundtrip-characters", [b.characters[k] for k in ks], [a.characters[k] for k in ks], 2e-4, tag + " " + a.name)
            ctx.close("roundtrip-k", b.k, a.k, 1e-5, tag + a.name)
