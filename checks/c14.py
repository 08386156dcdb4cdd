"""C14: inversion-odd counts, Z2/Z4 indicators and gaps."""
import re
import numpy as np
from vlib.case import *
from vlib.pw import in_little_group
from vlib.runner import quiet

PROP = "C14"
RULE = ("one case = random crystal (centrosymmetric ones preferred, inversion centre anywhere) with the eight TRIMs or random k points and a "
        "random window of bands; counts of inversion-odd states, indicators and gaps returned, printed and written to json are compared with "
        "parities from the exact eigenvectors and with the generating energies; distinct = (SG, spinor, counts)")
MINIMUM = {"trim_counts": 300, "gaps": 100, "offcentre": 20, "z4": 40, "noncentro": 20, "reference_cells": 60}
ASSUMPTIONS = ["the parity is that of the reported inversion {-1|t}; for scalar wavefunctions only the count, not Z2/Z4, is judged"]

CENTRO = [2] + list(range(10, 16)) + list(range(47, 75)) + list(range(83, 89)) + list(range(123, 143)) + [147, 148] + \
    list(range(162, 168)) + [175, 176] + list(range(191, 195)) + list(range(200, 207)) + list(range(221, 231))
TRIMS = [np.array([a, b, c]) / 2 for a in (0, 1) for b in (0, 1) for c in (0, 1)]


def jobs(tier, seed):
    rng = np.random.default_rng(seed + 14)
    out = []
    for rep in range(2 if tier == "quick" else 14):
        for sg in CENTRO + list(rng.integers(1, 231, 25)):
            out.append(dict(sg=int(sg), rep=rep, spinor=bool(rng.random() < .6)))
    for i in range(14 if tier == "quick" else 100):
        out.append(dict(sg=int(rng.choice([1, 2, 10, 11, 12, 13, 14, 15, 147])), rep=100 + i, spinor=bool(i % 3), big=True))
    return out


def num(text, pat):
    m = re.findall(pat + r"\s*:?\s*([-+.\deE]+|nan|inf)", text)
    return [float(x) for x in m]


def run(job, ctx, rng):
    sg, spinor = job["sg"], job["spinor"]
    full = rng.random() < .6
    if full:
        kpts = [TRIMS[i] + rng.integers(-1, 2, 3) * (rng.random() < .2) for i in range(8)]
    else:
        kpts = [TRIMS[rng.integers(8)] for _ in range(2)] + [rng.uniform(-.5, .5, 3) for _ in range(2)]
    shift = bool(rng.random() < .5)
    size = dict(npw=36, nb=10 if spinor else 8)
    if job.get("big"):          # many bands; more k points than the eight
        if not full or rng.random() < .3:
            kpts = kpts + [rng.uniform(-.5, .5, 3) for _ in range(8)]
        size = dict(npw=90, nb=int(rng.integers(22, 40)))
        ctx.event("big")
    case = build(rng, sg, spinor, kpts=kpts, **size, whole_levels=False, shift=shift, regauge=False)
    # a window of bands ending on level boundaries everywhere
    nb = case.nb
    def clear(n):
        return all(n == 0 or (n < nb and kd.E[n] - kd.E[n - 1] > 2e-3) for kd in case.kds)
    ok = [n for n in range(0, nb) if clear(n)]
    for kd in case.kds:
        kd.regauge(rng)
    whole = len(ok) >= 2
    if whole:
        lo, hi = sorted(rng.choice(ok, 2, replace=False))
        if rng.random() < .5:
            lo = 0
    else:
        lo, hi = 0, int(rng.integers(1, max(2, nb)))
    if rng.random() < .15:
        lo, hi, whole = 0, nb, False
    code = str(rng.choice(["vasp", "abinit", "espresso", "wannier90"]))
    ef = float(rng.choice([0.0, 3.25]))
    cell = {}
    how = rng.random()
    if how < .25:       # the counts do not depend on the reference cell asked for
        cell = dict(refUC=case.C.P.T, shiftUC=case.C.p, trans_thresh=1e-4)
    elif how < .5:
        cell = dict(search_cell=True, trans_thresh=1e-4)
    ctx.event("reference_cells", bool(cell))
    b = run_code(case, code, rng=rng, IBstart=lo + 1, IBend=hi, EF=str(ef), **cell)
    with quiet() as buf:
        b.identify_irreps(None)
        b.write_characters()
    text = buf.getvalue()
    js = b.json()
    tag = "SG %d spinor=%s bands %d-%d" % (sg, spinor, lo + 1, hi)
    inv = [i for i, (R, t) in enumerate(case.C.ops) if np.array_equal(R, -np.eye(3, dtype=int))]
    total = 0
    per = []
    for kd, kp in zip(case.kds, b.kpoints):
        trim = np.abs(2 * kd.k - np.round(2 * kd.k)).max() < 1e-8
        if not inv or not trim:
            ctx.require(kp.num_bandinvs is None, "no-inversion", lambda: "%s k=%s %s" % (kp.num_bandinvs, kd.k, tag))
            per.append(None)
            if not inv:
                ctx.event("noncentro")
            continue
        sym = [s for s in b.spacegroup.symmetries if np.array_equal(np.asarray(s.rotation), -np.eye(3))][0]
        D = op_matrix(kd, np.asarray(sym.rotation), np.asarray(sym.translation), np.eye(2))
        if whole:
            odd = int(round((hi - lo - np.trace(D[lo:hi, lo:hi]).real) / 2))
            ctx.event("trim_counts")
            ctx.close("odd-states", -1 if kp.num_bandinvs is None else kp.num_bandinvs, odd, 0, lambda: "k=%s t=%s %s" % (kd.k, sym.translation, tag))
            if np.abs(sym.translation).max() > 1e-6:
                ctx.event("offcentre")
            total += odd
            per.append(odd)
    if whole:
        ctx.close("total-odd", b.num_bandinvs, total, 0, tag)
        ctx.distinct(sg, spinor, tuple(per))
        if spinor:
            pairs = total // 2
            ctx.close("json-pairs", js["number of inversion-odd Kramers pairs"], pairs, 0, tag)
            ctx.close("json-Z4", np.ravel(js["Z4"]), [pairs % 4], 0, tag)
            ctx.close("printed-total", num(text, "TOTAL number of inversions-odd Kramers pairs"), [pairs], 0, tag)
            ctx.close("printed-pairs", num(text, "Number of inversions-odd Kramers pairs"), [p // 2 for p in per if p is not None], 0, tag)
            ctx.close("printed-Z2", num(text, "Z2 invariant"), [pairs % 2], 0, tag)
            ctx.close("printed-Z4", num(text, "Z4 invariant"), [pairs % 4], 0, tag)
            ctx.event("z4")
        else:
            ctx.close("json-odd", js["number of inversion-odd states"], total, 0, tag)
            ctx.close("printed-total", num(text, "TOTAL number of inversions-odd states"), [total], 0, tag)
            ctx.close("printed-odd", num(text, "Number of inversions-odd states"), [p for p in per if p is not None], 0, tag)
    # gaps
    if hi < nb:
        def top(kd):
            # energy of the highest level of the window
            d = [n for n in range(lo + 1, hi) if kd.E[n] - kd.E[n - 1] > LEVEL_TOL]
            return kd.E[(d[-1] if d else lo):hi].mean()
        up = np.array([kd.E[hi] for kd in case.kds])
        low = np.array([top(kd) for kd in case.kds])
        dg, ig = (up - low).min(), up.min() - low.max()
        ctx.event("gaps")
        ctx.close("direct-gap", b.gap_direct, dg, 2e-6, tag)
        ctx.close("indirect-gap", b.gap_indirect, ig, 2e-6, tag)
        ctx.close("json-direct-gap", js["Minimal direct gap (eV)"], dg, 2e-6, tag)
        ctx.close("json-indirect-gap", js["indirect gap (eV)"], ig, 2e-6, tag)
        ctx.close("printed-indirect", num(text, "Indirect gap"), [ig], 2e-6, tag)
        ctx.close("printed-direct", num(text, "Smallest direct gap in the given set of k-points"), [dg], 2e-6, tag)
        ctx.close("printed-gap-k", num(text, "Gap with upper bands"), up - low, 2e-6, tag)
    else:
        ctx.require(all(np.isnan(kp.upper) for kp in b.kpoints), "upper-of-last-band", tag)
        ctx.require(len(num(text, "Gap with upper bands")) == 0, "printed-gap-of-last-band", tag)
    ctx.sample(sg=sg, spinor=spinor, bands=[int(lo) + 1, int(hi)], odd=per, total=int(b.num_bandinvs))
