"""C04: identified irreps are the true decomposition of every level."""
import numpy as np
from vlib.case import *
from vlib.tables import read_table

PROP = "C04"
RULE = ("one case = random crystal + plane-wave Hamiltonian (spinor/scalar, time reversal kept or broken) solved at several points of the "
        "tables, shifted by reciprocal lattice vectors; the identified multiplicities of every level are compared with the decomposition "
        "computed from the generating eigenvectors and the independently parsed tables (integer, dimension-summing, trace-reproducing); "
        "distinct = (SG, spin, k label, irrep label) seen in a decomposition")
MINIMUM = {"levels": 1500, "multiplicities": 5000, "kpoints": 500, "cut_levels": 100, "equivalent_settings": 150, "table_points": 3000, "table_characters": 100000, "wrong_points": 1500}
ASSUMPTIONS = ["levels are complete and separated by > 2 meV from their neighbours", "orientation of spin frame as certified by C06"]

# k points where table characters and Bloch functions use conjugate conventions
CONJ = [(24, 1, "W"), (73, 1, "W"), (109, 1, "P"), (110, 1, "P"), (122, 0, "P"), (122, 1, "P"), (141, 0, "P"), (141, 1, "P"),
        (142, 0, "P"), (142, 1, "P"), (199, 0, "P"), (199, 1, "P"), (206, 0, "P"), (206, 1, "P"), (214, 0, "P"), (214, 1, "P"),
        (220, 0, "P"), (220, 1, "P"), (230, 0, "P"), (230, 1, "P"), (203, 1, "W"), (227, 0, "W"), (227, 1, "W"), (228, 0, "W"), (228, 1, "W")]


def jobs(tier, seed):
    rng = np.random.default_rng(seed + 4)
    out = [dict(sg=s, spin=bool(p), only=k, rep=0, tr=False) for s, p, k in CONJ]
    for rep in range(2 if tier == "quick" else 14):
        for sg in rng.permutation(np.arange(1, 231)):
            for sp in (False, True):
                out.append(dict(sg=int(sg), spin=sp, only=None, rep=rep, tr=bool(rng.random() < .4)))
    return out


def table_characters(ctx, S, sg, sp, tk, rng, conj_ok):
    """What the table says of every irrep of every point, for the operations of the DFT cell"""
    T = read_table(sg, sp)
    ref, sh = np.asarray(S.refUC, float), np.asarray(S.shiftUC, float)
    inv = np.linalg.inv(ref)
    for tkp, k in tk:
        K = inv.T @ k + rng.integers(-2, 3, 3)
        with quiet():
            tab = S.get_irreps_from_table(tkp.name, K)
        name = "%s-%s-%s" % (sg, "spin" if sp else "scal", tkp.name)
        ctx.event("table_points")
        if not ctx.require(sorted(tab) == sorted(ir.name for ir in tkp.irreps), "table-irreps", lambda: "%s: %s" % (name, sorted(tab))):
            continue
        for ir in tkp.irreps:
            got = tab[ir.name]
            if not ctx.require(sorted(got) == sorted(tkp.isym), "table-operations", lambda: "%s: %s" % (ir.name, sorted(got))):
                continue
            want, want2 = [], []
            for i in tkp.isym:
                s = S.symmetries[i - 1]
                t = inv @ (np.asarray(s.translation) + np.asarray(s.rotation) @ sh - sh)
                d = np.round(ref @ (std_ops(sg)[0][i - 1][1] - t))          # a vector of the lattice
                ph = np.exp(2j * np.pi * (d @ (inv.T @ k))) * (s.sign if sp else 1)
                want.append(ir.chars[i] * ph)
                want2.append(np.conj(ir.chars[i]) * ph)
            got = np.array([got[i] for i in tkp.isym])
            ctx.event("table_characters", len(got))
            use = want2 if conj_ok(tkp.name) and np.abs(got - want2).max() < 5e-4 else want
            ctx.close("table-characters", got, np.array(use), 5e-4, lambda: "%s of %s" % (ir.name, name))
    # a point which is not the named one, a name which is not there
    tkp, k = tk[int(rng.integers(len(tk)))]
    K = inv.T @ k + rng.uniform(.003, .1, 3) * rng.choice([-1, 1], 3)
    for nm, q in ((tkp.name, K), (tkp.name + "x", inv.T @ k), (tkp.name.lower() if tkp.name != tkp.name.lower() else "0", inv.T @ k)):
        try:
            with quiet():
                S.get_irreps_from_table(nm, q)
            ok = True
        except RuntimeError:
            ok = False
        ctx.event("wrong_points")
        ctx.require(not ok, "wrong-point-accepted", lambda: "SG %d: point %s at %s" % (sg, nm, q))


def run(job, ctx, rng):
    sg, sp = job["sg"], job["spin"]
    C = tame_crystal(sg, rng, lefthanded=bool(rng.random() < .3), volume=float(rng.uniform(28, 45)))
    alt = None
    if job["only"] is None and rng.random() < .4:
        # another setting equivalent to the tables' one, given by the user
        alt = equivalent_setting(sg, rng, bool(rng.random() < .7) or None)
    kw = {}
    if alt is not None:
        M, sh = in_setting(C, *alt)
        kw = dict(refUC=M.T.copy(), shiftUC=sh.copy())
        ctx.event("equivalent_settings")
    S = get_sg(C, sp, search_cell=True, **kw)
    ref, sh = np.asarray(S.refUC, float), np.asarray(S.shiftUC, float)
    tk = [t for t in table_kpts(sg, sp) if job["only"] in (None, t[0].name) and (alt is None or (sg, int(sp), t[0].name) not in CONJ)]
    rs = rng.bit_generator.state
    table_characters(ctx, S, sg, sp, tk, rng, lambda nm: (sg, int(sp), nm) in CONJ)
    rng.bit_generator.state = rs
    pick = rng.choice(len(tk), min(len(tk), 5), replace=False)
    tk = [tk[i] for i in pick]
    ks = [np.linalg.inv(ref.T) @ k + rng.integers(-1, 2, 3) for _, k in tk]
    case = build(rng, sg, sp, crystal=C, kpts=ks, npw=45, nb=14 if sp else 9, trbreak=job["tr"])
    lo, hi = 0, case.nb
    if job["only"] is None and job["rep"] % 2 and case.nb > 2:
        # the bands selected may cut through levels: what is left of a level is decomposed as it is
        lo, hi = sorted(int(x) for x in rng.choice(case.nb + 1, 2, replace=False))
    b = run_vasp(case, search_cell=True, IBstart=lo + 1, IBend=hi, **kw)
    with quiet():
        b.identify_irreps([t[0].name for t in tk])
    T = read_table(sg, sp)
    assert np.allclose(b.spacegroup.refUC, ref)
    for (tkp, k), kd, kp in zip(tk, case.kds, b.kpoints):
        ctx.event("kpoints")
        full = kd.levels(LEVEL_TOL)
        lv = [(max(a, lo), min(z, hi)) for a, z in full if a < hi and z > lo]
        name = "%s-%s-%s" % (sg, "spin" if sp else "scal", tkp.name)
        by = {op.ind: op for op in kp.little_group}
        if not ctx.require(sorted(by) == sorted(tkp.isym), "little-group", lambda: "%s: %s vs %s" % (name, sorted(by), sorted(tkp.isym))):
            continue
        true = {}
        for i in tkp.isym:
            ts = T.symmetries[i - 1]
            R = np.round(ref @ ts.R @ np.linalg.inv(ref)).astype(int)
            t = ref @ std_ops(sg)[0][i - 1][1] + sh - R @ sh
            Sm = np.asarray(by[i].spinor_rotation) * by[i].sign if sp else None
            true[i] = true_traces(kd, R, t, Sm, lv)
        if not ctx.require(len(kp.irreps) == len(lv), "levels", lambda: "%s: %d irreps entries for %d levels" % (name, len(kp.irreps), len(lv))):
            continue
        conj = (sg, int(sp), tkp.name) in CONJ
        for il, (a, z) in enumerate(lv):
            got = {k_: complex(v) for k_, v in kp.irreps[il].items()}
            ctx.event("levels")
            known_names = {ir.name for ir in tkp.irreps}
            ctx.require(set(got) <= known_names, "foreign-label", lambda: "%s: %s" % (name, sorted(set(got) - known_names)))
            ex, exc = {}, {}
            for ir in tkp.irreps:
                x = np.array([ir.chars[i] for i in tkp.isym])
                ch = np.array([true[i][il] for i in tkp.isym])
                ex[ir.name] = (x @ ch.conj()) / len(ch)
                exc[ir.name] = (x.conj() @ ch.conj()) / len(ch)
            gv = np.array([got.get(n, 0) for n in ex])
            e1, e2 = np.array(list(ex.values())), np.array(list(exc.values()))
            ctx.event("multiplicities", len(gv))
            dims = np.array([ir.dim for ir in tkp.irreps])
            if conj:
                # either convention is accepted as formula; non-integers are the recorded finding
                use = e2 if np.abs(gv - e2).max() < 5e-3 else e1
                ctx.close("multiplicity", gv, use, 5e-3, name)
                if (a, z) in full and np.abs(gv - np.round(gv.real)).max() > 1e-2:
                    ctx.violation("conjugate-convention:%s" % name, "%s level %d: multiplicities %s" % (
                        name, il, {k_: np.round(v, 3) for k_, v in got.items()}))
            elif (a, z) not in full:
                ctx.event("cut_levels")
                ctx.close("multiplicity-cut", gv, np.where(np.abs(e1) > 2e-3, e1, gv), 1.5e-3, lambda: "%s bands %d-%d" % (name, a, z))
            else:
                ctx.close("multiplicity", gv, e1, 5e-3, lambda: "%s level %d dim %d, expected %s" % (
                    name, il, z - a, {k_: np.round(v, 3) for k_, v in ex.items() if abs(v) > 1e-3}))
                ctx.close("integer", gv, np.maximum(np.round(gv.real), 0), 1e-2, "%s level %d" % (name, il))
                ctx.close("dimensions-add-up", gv @ dims, z - a, 1e-2, "%s level %d" % (name, il))
            for n_, v in got.items():
                ctx.distinct(sg, sp, tkp.name, n_)
        # a level of a generic Hamiltonian is irreducible (or a TR pair): the monitor counts how many were
        ctx.event("single_irrep_levels", sum(len(x) == 1 for x in kp.irreps))
    ctx.sample(sg=sg, spin=sp, k=tkp.name, irreps=[{k_: str(np.round(v, 3)) for k_, v in d.items()} for d in kp.irreps[:3]])
