"""C24: k-path lengths and band-plot files."""
import os
import re
import numpy as np
from vlib.case import *
from vlib.runner import quiet

PROP = "C24"
RULE = ("one case = random crystal and path of k points (segments shorter and longer than the break threshold, exact repeats), any interface; "
        "KPOINTSline (default, given points, supercell, threshold), the json k-point line and the plot file (API and CLI) are compared with "
        "cartesian distances and the generating band energies; distinct = (SG, points, breaks, origin)")
MINIMUM = {"lines": 300, "breaks": 100, "plots": 100, "supercells": 100, "cli": 25}
ASSUMPTIONS = ["distances within 1e-4 of the break threshold are not generated"]


def jobs(tier, seed):
    rng = np.random.default_rng(seed + 24)
    n = 250 if tier == "quick" else 2500
    return [dict(sg=int(rng.integers(1, 231)), rep=i, spinor=bool(rng.random() < .5), big=bool(i % 20 == 0)) for i in range(n)]


def line(K, thr=0.1):
    out = [0.0]
    near = False
    for a, b in zip(K[:-1], K[1:]):
        d = float(np.sqrt(((b - a) ** 2).sum()))
        near |= abs(d - thr) < 1e-4
        out.append(out[-1] + (0.0 if d > thr else d))
    return np.array(out), near


def parse_plot(path):
    rows = open(path).read().split("\n")
    head, blocks, cur = rows[0], [], []
    for r in rows[1:]:
        if r.strip():
            cur.append([float(x) for x in r.split()])
        elif cur:
            blocks.append(cur)
            cur = []
    if cur:
        blocks.append(cur)
    return head, blocks


def run(job, ctx, rng):
    sg, spinor = job["sg"], job["spinor"]
    from irrep.bandstructure import BandStructure
    C = make_crystal(sg, rng, volume=float(rng.uniform(30, 50)))
    B = 2 * np.pi * np.linalg.inv(C.lattice).T
    # path with steps of known cartesian length
    k = rng.choice([0, .5, .2], 3).astype(float)
    kpts = [k]
    for _ in range(int(rng.integers(10, 40) if job["big"] else rng.integers(2, 7))):
        v = rng.normal(size=3)
        v *= float(rng.choice([0.03, 0.08, 0.0999, 0.101, 0.15, 0.6, 0.0])) / np.linalg.norm(v)
        k = k + v @ np.linalg.inv(B)
        kpts.append(k)
    case = build(rng, sg, spinor, crystal=C, kpts=kpts, npw=60 if job["big"] else 28, nb=24 if job["big"] else 6, whole_levels=False)
    code = str(rng.choice(["vasp", "abinit", "espresso", "wannier90"]))
    files = write_code(case, code, rng=rng)
    lo = int(rng.integers(0, case.nb // 2))
    hi = int(rng.integers(lo + 1, case.nb + 1))
    ef = float(rng.choice([0.0, 2.0]))
    with quiet():
        b = BandStructure(calculate_traces=True, degen_thresh=LEVEL_TOL, IBstart=lo + 1, IBend=hi, EF=str(ef), **files)
        b.identify_irreps(None)
    tag = "SG %d %s bands %d-%d k=%s" % (sg, code, lo + 1, hi, np.round(kpts, 4).tolist())
    cart = np.array(kpts) @ B
    want, near = line(cart)
    if near:
        return
    ctx.event("breaks", int(sum(d == 0 for d in np.diff(want))))
    got = np.asarray(b.KPOINTSline())
    ctx.event("lines")
    ctx.close("k-line", got, want, 1e-6, tag)
    ctx.close("json-k-line", b.json()["kpoints line"], want, 1e-6, tag)
    ctx.close("json-kp-in-line", [float(k["kp in line"]) for k in b.json()["k points"]], want, 1e-6, tag)
    # other points, thresholds and supercells
    for _ in range(2):
        step = float(rng.choice([.1, .1, .6, 1.4]))
        pts = np.cumsum(rng.uniform(-step, step, (5, 3)), axis=0) + rng.integers(-2, 3, 3)
        pts0 = pts.copy()
        thr = float(rng.choice([0.1, 0.3, 0.02, 1e3] if step < .2 else [1.0, 1e3, 1e3]))
        w, near = line(pts @ B, thr)
        if not near:
            ctx.event("lines")
            ctx.close("k-line-given", b.KPOINTSline(kpred=pts if rng.random() < .5 else list(pts), breakTHRESH=thr), w, 2e-7, "thr=%g %s" % (thr, tag))
        S = rng.integers(-2, 3, (3, 3))
        S0 = S.copy()
        if abs(round(np.linalg.det(S))) >= 1:
            # rows of S: supercell vectors in primitive ones; k given in primitive reciprocal vectors
            Lp = np.linalg.inv(S) @ C.lattice
            Bp = 2 * np.pi * np.linalg.inv(Lp).T
            w, near = line(pts @ Bp, thr)
            if not near:
                ctx.event("supercells")
                ctx.close("k-line-supercell", b.KPOINTSline(kpred=pts, supercell=S, breakTHRESH=thr), w, 1e-6, "S=%s %s" % (S.tolist(), tag))
        ctx.require(np.array_equal(pts, pts0) and np.array_equal(S, S0), "arguments-modified", tag)
    ctx.close("k-line-again", b.KPOINTSline(), want, 1e-6, tag)
    ctx.close("k-points-unchanged", [kp.k for kp in b.kpoints], kpts, 2e-7, tag)
    # plot files

    def check_plot(path, how):
        head, blocks = parse_plot(path)
        ctx.event("plots")
        if not ctx.close("plot-bands", len(blocks), hi - lo, 0, how + tag):
            return
        for ib, blk in enumerate(blocks):
            blk = np.array(blk)
            if ctx.close("plot-shape", blk.shape, (len(kpts), 2), 0, how + tag):
                ctx.close("plot-k", blk[:, 0], want, 6e-5, how + tag)
                # energies are level averages, equal within the level
                ctx.close("plot-E", blk[:, 1], [kd.E[lo + ib] - ef for kd in case.kds], 2e-4, how + tag)
    with quiet():
        if rng.random() < .5:
            b.write_plotfile()
            fn = "bands-tognuplot.dat"
        else:
            fn = "plot%d.dat" % rng.integers(100)
            b.write_plotfile(fn)
    check_plot(fn, "API ")
    ctx.distinct(sg, len(kpts), tuple(np.diff(want) > 0), code)
    if job["rep"] % 5 == 0:
        suf = rng.choice(["", "abc", "x1"])
        rc, out = run_cli(cli_files(files) + ["-IBstart=%d" % (lo + 1), "-IBend=%d" % hi, "-plotbands", "-EF=%g" % ef] + (["-suffix=" + suf] if suf else []))
        fn = "bands-%s.dat" % (suf or "tognuplot")
        ctx.event("cli")
        if ctx.require(os.path.exists(fn), "cli-plotfile", "%s %s" % (fn, sorted(os.listdir(".")))):
            check_plot(fn, "CLI ")
    ctx.sample(sg=sg, line=np.round(want, 4).tolist())
