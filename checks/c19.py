"""C19: selections (bands, k points, cutoff, Fermi level, degeneracy threshold) restrict the full analysis and nothing else."""
import re
import numpy as np
from vlib.case import *
from vlib.pw import KData, TWOMHBAR2, HA, reclat, BOHR_A
from vlib.runner import quiet

PROP = "C19"
RULE = ("one case = random crystal and wavefunctions in any interface; BandStructure is run on a random selection of bands, k points, cutoff, "
        "Fermi level and degeneracy threshold; what it reports is compared with the corresponding part of the generating data and of the full "
        "run; distinct = (code, spinor, kind of each selection)")
MINIMUM = {"runs": 250, "band_windows": 100, "k_selections": 100, "reduced_cutoff": 60, "wide_threshold": 60, "fine_threshold": 60, "default_threshold": 30, "fermi_auto": 40, "refused": 30}
ASSUMPTIONS = ["band windows may cut through a level: the reported group is then the selected part of it",
               "reduced cutoffs are placed between shells of plane waves"]


def jobs(tier, seed):
    rng = np.random.default_rng(seed + 19)
    n = 500 if tier == "quick" else 4000
    return [dict(sg=int(rng.integers(1, 231)), rep=i, spinor=bool(rng.random() < .5), code=["vasp", "abinit", "espresso", "wannier90"][i % 4], big=bool(i % 25 < 2)) for i in range(n)]


def groups(E, thr):
    b = [0] + [i + 1 for i in range(len(E) - 1) if E[i + 1] - E[i] > thr] + [len(E)]
    return list(zip(b[:-1], b[1:]))


def run(job, ctx, rng):
    sg, spinor, code = job["sg"], job["spinor"], job["code"]
    if job["big"]:
        sg = int(rng.choice([1, 2, 3, 5, 6, 8, 10, 12, 15]))
    nk = int(rng.integers(10, 14) if job["big"] else rng.integers(2, 6))
    kpts = [rng.choice([0, .5, .25, .1], 3) if rng.random() < .6 else rng.uniform(-.5, .5, 3) for _ in range(nk)]
    case = build(rng, sg, spinor, kpts=kpts, npw=80 if job["big"] else 34, nb=int(rng.integers(24, 40) if job["big"] else rng.integers(5, 12)), whole_levels=False, v0=float(rng.choice([6.0, 2.0])))
    nb = case.nb
    fine = rng.random() < .3
    if fine:
        # levels at all distances, down to those of numerically converged states
        for kd in case.kds:
            E = np.array(kd.E)
            for j in range(1, nb):
                if rng.random() < .5:
                    E[j:] += E[j - 1] - E[j] + 10 ** rng.uniform(-7.5, -2.5)
            kd.E = E
    ef_ha = float(rng.choice([0.2, -0.1])) if rng.random() < .7 else None
    tag = "SG %d spinor=%s %s nk=%d nb=%d" % (sg, spinor, code, nk, nb)
    kw, kind = {}, []
    # bands
    lo, hi = 0, nb
    u = rng.random()
    if u < .7:
        lo = int(rng.integers(0, nb))
        hi = int(rng.integers(lo + 1, nb + 1))
        kw["IBstart"], kw["IBend"] = lo + 1, hi
        if rng.random() < .15:
            kw["IBend"], hi = int(rng.choice([0, -3, nb + 5])), nb
        if rng.random() < .15:
            kw["IBstart"], lo = int(rng.choice([0, -2])), 0
        if rng.random() < .1:
            kw.pop("IBend")
            hi = nb
        kind.append("bands")
        ctx.event("band_windows")
    # k points
    sel = list(range(nk))
    if rng.random() < .6:
        sel = [int(x) for x in rng.choice(nk, int(rng.integers(1, nk + 1)), replace=False)]
        if rng.random() < .5:
            sel.sort()
        lst = [s + 1 for s in sel]
        if rng.random() < .2:
            lst.insert(int(rng.integers(0, len(lst) + 1)), nk + int(rng.integers(1, 4)))      # beyond the file: left out
        kw["kplist"] = np.array(lst) if rng.random() < .5 else lst
        kind.append("k")
        ctx.event("k_selections")
    # cutoff
    files = write_code(case, code, rng=rng, ef_ha=ef_ha)
    e0 = case.ecut_code
    c = TWOMHBAR2 if code in ("vasp", "wannier90") else None
    en = [(((kd.G + kd.k) @ case.B) ** 2).sum(1) / TWOMHBAR2 if c else (((kd.G + kd.k) @ reclat(np.asarray(case.C.lattice) / BOHR_A)) ** 2).sum(1) / 2 * HA
          for kd in case.kds]
    cut = None
    u = rng.random()
    if u < .35:
        allE = np.sort(np.concatenate(en))
        gaps = [i for i in range(len(allE) // 4, len(allE) - 1) if allE[i + 1] - allE[i] > 2e-3 * e0]
        if gaps:
            i = gaps[int(rng.integers(len(gaps)))]
            cut = (allE[i] + allE[i + 1]) / 2
            top = np.where(allE < allE[-1] - 2e-4 * e0)[0]
            if rng.random() < .3 and len(top):        # just below the outermost shell (or just above the one before)
                hi_shell = allE[top[-1] + 1]
                cut = hi_shell - 2e-5 * e0 if rng.random() < .7 else allE[top[-1]] + 2e-5 * e0
                ctx.event("close_cutoff")
            if min((e < cut).sum() for e in en) >= 2:
                kw["Ecut"] = float(cut)
                kind.append("Ecut")
            else:
                cut = None
    elif u < .5 and code != "wannier90":
        kw["Ecut"] = float(rng.choice([-1.0, 0.0, e0 * 1.5]))
        kind.append("Ecut-ignored")
    # Fermi level
    efm = rng.random()
    ef = 0.0
    if efm < .4:
        ef = float(rng.choice([1.5, -2.25, 0.0]))
        kw["EF"] = rng.choice(["%g", " %g"]) % ef if rng.random() < .6 else ef
        kind.append("EF")
    elif efm < .7:
        kw["EF"] = str(rng.choice(["auto", "AUTO"]))
        ef = 0.0 if code == "vasp" or (ef_ha is None) else ef_ha * HA
        kind.append("auto")
        ctx.event("fermi_auto")
    # degeneracy threshold: in the largest gaps or between random ones
    thr = 1e-5
    gaps = np.concatenate([np.diff(kd.E[lo:hi]) for kd in case.kds] + [[0.01]])
    if rng.random() < .5:
        g = np.sort(gaps[gaps > 1e-3])
        if len(g) >= 2:
            i = int(rng.integers(0, min(len(g) - 1, 6)))
            if g[i + 1] - g[i] > 1e-5:
                thr = float((g[i] + g[i + 1]) / 2)
                kind.append("thr")
                ctx.event("wide_threshold")
    if fine:
        g = np.sort(gaps[gaps > 2e-8])
        g = [np.sqrt(x * y) for x, y in zip(np.concatenate([[1e-8], g[:-1]]), g) if y > 2.5 * x and y < 5e-3]
        if g:
            thr = float(g[int(rng.integers(len(g)))])
            kind.append("fine")
            ctx.event("fine_threshold")
    kw["degen_thresh"] = thr
    if rng.random() < .2 and not ((gaps > 2e-9) & (gaps < 5e-8)).any():
        kw.pop("degen_thresh")
        thr = 1e-8                  # documented default
        ctx.event("default_threshold")
    from irrep.bandstructure import BandStructure
    args = dict(calculate_traces=True)
    args.update(files)
    args.update(kw)
    kwc = {k: (v.copy() if isinstance(v, (np.ndarray, list)) else v) for k, v in args.items()}
    with quiet():
        # groups wider than a level mix energies only; shells cut by the band window need not be symmetric
        b = BandStructure(**kwc)
    for k, v in kwc.items():
        if isinstance(v, (np.ndarray, list)):
            ctx.require(np.array_equal(v, args[k]), "input-modified", lambda: "%s: %s -> %s" % (k, args[k], v))
    ctx.event("runs")
    ctx.distinct(code, spinor, tuple(sorted(kind)))
    tag += " %s" % {k: (v.tolist() if hasattr(v, "tolist") else v) for k, v in kw.items()}
    if cut is not None:
        ctx.event("reduced_cutoff")
    if not ctx.close("number-of-k", len(b.kpoints), len(sel), 0, tag):
        return
    ctx.close("num_k", b.num_k, len(sel), 0, tag)
    ctx.close("efermi", b.efermi, ef, 2e-5 * max(1, abs(ef)), tag)
    wantcut = cut if cut is not None else e0
    ctx.close("Ecut", b.Ecut, wantcut, 1e-5 * e0, tag)
    ups, lows = [], []
    for s, kp in zip(sel, b.kpoints):
        kd = case.kds[s]
        ctx.close("k-coordinates", kp.k, kd.k, 2e-7, tag)
        ctx.close("k-index", kp.ik0, s + 1, 0, tag)
        E = kd.E[lo:hi] - ef
        ctx.close("bands", kp.num_bands, hi - lo, 0, tag)
        ctx.close("energies", kp.Energy_raw, E, 3e-5, tag)
        gr = groups(E, thr)
        if ctx.close("group-dims", list(kp.degeneracies), [y - x for x, y in gr], 0, tag):
            ctx.close("group-energies", kp.Energy_mean, [E[x:y].mean() for x, y in gr], 3e-5, tag)
        if hi < nb:
            ctx.close("upper", kp.upper, kd.E[hi] - ef, 3e-5, tag)
        else:
            ctx.require(np.isnan(kp.upper), "upper-last", tag)
        # plane waves below the cutoff, coefficients unchanged up to normalisation
        keep = en[s] < wantcut * (1 + 1e-9)
        ig = np.asarray(kp.ig[:3]).T
        wantset = {tuple(g) for g in kd.G[keep]}
        gotset = {tuple(g) for g in ig}
        if ctx.require(gotset == wantset and len(ig) == len(wantset), "plane-waves-below-cutoff", lambda: "%d vs %d %s" % (len(ig), len(wantset), tag)):
            look = {tuple(g): i for i, g in enumerate(kd.G)}
            idx = np.array([look[tuple(g)] for g in ig])
            n = len(kd.G)
            W = kd.C[lo:hi][:, idx] if not spinor else kd.C[lo:hi][:, np.concatenate([idx, idx + n])]
            nrm = np.linalg.norm(W, axis=1)
            kept = nrm > 1e-4 * np.linalg.norm(kd.C[lo:hi], axis=1)     # states without weight below the cutoff have no direction
            W = W / np.where(kept, nrm, 1)[:, None]
            if ctx.close("coefficient-shape", np.asarray(kp.WF).shape, W.shape, 0, tag):
                ctx.close("coefficients", np.asarray(kp.WF)[kept], W[kept], 2e-5, tag)
            whole = [all(kept[x:y]) for x, y in gr]
            # traces of the selected states, in the selected plane waves
            k2 = KData()
            k2.k, k2.G, k2.E, k2.C, k2.spinor = kd.k, ig, E, W, spinor
            for i, op in enumerate(kp.little_group):
                D = op_matrix(k2, np.asarray(op.rotation), np.asarray(op.translation), np.asarray(op.spinor_rotation))
                ctx.event("traces", len(gr))
                ctx.close("trace", np.asarray(kp.char)[whole, i], [np.trace(D[x:y, x:y]) for (x, y), w in zip(gr, whole) if w], 5e-5, tag)
    # reported totals over the selection only
    with quiet():
        b.identify_irreps(None)
    js = b.json()
    if ctx.close("json-k", len(js["k points"]), len(sel), 0, tag):
        for s, j in zip(sel, js["k points"]):
            ctx.close("json-energies", j["energies_raw"], case.kds[s].E[lo:hi] - ef, 3e-5, tag)
    # selections that leave nothing
    if job["rep"] % 5 == 0:
        bad = dict(args)
        if "kplist" in bad:
            bad["kplist"] = np.array([1])
        bad["IBstart"], bad["IBend"] = (nb, nb - 1) if rng.random() < .5 else (nb + 1, nb + 2)
        try:
            with quiet():
                BandStructure(**bad)
            ctx.require(False, "empty-band-window-accepted", tag)
        except Exception:
            ctx.event("refused")
        bad = dict(args)
        if "kplist" in bad:
            bad["kplist"] = np.array([1])
        bad["EF"] = str(rng.choice(["fermi", "1,5", ""]))
        try:
            with quiet():
                BandStructure(**bad)
            ctx.require(False, "invalid-EF-accepted", "%s %s" % (bad["EF"], tag))
        except Exception:
            ctx.event("refused")
    ctx.sample(code=code, spinor=spinor, selection=kind, bands=[lo + 1, hi], k=[s + 1 for s in sel], dims=[int(x) for x in b.kpoints[0].degeneracies])
