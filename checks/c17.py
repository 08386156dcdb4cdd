"""C17: what is printed and saved is the analysis."""
import itertools
import os
import re
import numpy as np
from vlib.case import *
from vlib.su2 import cart_rotation
from vlib.tables import read_table
from vlib.runner import quiet

PROP = "C17"
RULE = ("one case = one run of the command line on a random crystal (any space group, interface, band window, k-point selection, with the "
        "standard cell given, searched or not used); the printed report, irrep-output.json, trace.txt, irreps.dat and irreptable-template are "
        "parsed by independent readers and every number is compared with the generating crystal and wavefunctions; distinct = "
        "(SG, spinor, mode, output)")
MINIMUM = {"runs": 250, "separated_runs": 60, "separated_twice": 15, "sub_states": 500, "json_traces": 3000, "printed_traces": 3000, "trace.txt": 200, "irreps.dat": 100, "irreps.dat-many": 15, "merged_levels": 60, "fractional": 50, "template_ops": 1000, "printed_ops": 1000,
           "labels": 500, "refcell_traces": 1000}
ASSUMPTIONS = ["printed numbers are compared within their number of digits", "traces in the standard cell are judged only when it differs from the DFT cell"]
FL = r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?"


def jobs(tier, seed):
    rng = np.random.default_rng(seed + 17)
    out = []
    for rep in range(3 if tier == "quick" else 24):
        for sg in range(1, 231):
            out.append(dict(sg=sg, rep=rep, spinor=bool(rng.random() < .5), mode=str(rng.choice(["names", "search", "plain"], p=[.55, .25, .2])),
                            tr=bool(rng.random() < .4)))
    for i in range(230 if tier == "quick" else 1200):
        out.append(dict(sg=int(rng.integers(1, 231)), rep=200 + i, spinor=bool(i % 2), mode="sep", tr=bool(rng.random() < .4)))
    # many k points and bands
    for i in range(12 if tier == "quick" else 90):
        out.append(dict(sg=int(rng.choice([1, 2, 3, 5, 6, 8, 10, 12, 15])), rep=100 + i, spinor=bool(i % 2), mode=["names", "search", "plain"][i % 3], tr=True, big=True))
    return out


def floats(s):
    return [float(x) for x in re.findall(FL, s)]


def cnumbers(s):
    """real or complex numbers printed one after the other"""
    out = []
    for m in re.finditer(r"([-+]?\d+\.\d+)\s*(?:([-+]\s*\d+\.\d+)j)?", s):
        out.append(complex(float(m.group(1)), float(m.group(2).replace(" ", "")) if m.group(2) else 0.0))
    return np.array(out)


def parse_gk(s):
    """'gk = [-kx+2ky, ...]' -> matrix"""
    rows = s[s.index("[") + 1:s.index("]")].split(",")
    M = np.zeros((3, 3))
    for i, r in enumerate(rows):
        pos = 0
        r = r.strip()
        for m in re.finditer(r"([-+]?)\s*(%s)?\s*k([xyz])\s*" % r"\d*\.?\d*(?:e-?\d+)?", r):
            c = m.group(2)
            if pos and not m.group(1):          # terms are joined by their sign
                return None
            M[i, "xyz".index(m.group(3))] += (-1 if m.group(1) == "-" else 1) * (float(c) if c else 1.0)
            pos += len(m.group(0))
        if pos != len(r):
            return None
    return M


def parse_report(text):
    """The printed report -> dict"""
    o = {}
    L = text.splitlines()
    o["vectors"] = []
    o["atoms"] = []
    for l in L:
        m = re.match(r"a([012]) = (.*)\|\s*a\1 = (.*)", l)
        if m:
            o["vectors"].append((floats(m.group(2)), floats(m.group(3))))
    i = next(j for j, l in enumerate(L) if l.startswith("Atom type")) + 1
    while L[i].strip():
        p = L[i].split("|")
        o["atoms"].append((int(p[0]), floats(p[1]), floats(p[2])))
        i += 1
    m = re.search(r"Space group: (\S+) \(# (\d+)\)", text)
    o["name"], o["number"] = m.group(1), int(m.group(2))
    o["nsym"] = int(re.search(r"Number of symmetries: (\d+)", text).group(1))
    m = re.search(r"reference cell of tables is given by:\s*\n(.*)\n(.*)\n(.*)\n", text)
    rows = [g for g in m.groups()]
    o["refUC"] = np.array([floats(re.search(r"\|(.*?)\|", r).group(1)) for r in rows])
    o["shiftUC"] = np.array(floats(rows[1].split("shiftUC")[1]))
    body = text[m.end():]
    kpos = body.find(" k-point ")
    syms = re.split(r"\n ### (\d+) \n", body[:kpos if kpos >= 0 else len(body)])
    o["syms"] = []
    for ind, blk in zip(syms[1::2], syms[2::2]):
        s = dict(ind=int(ind))
        rows = [l for l in blk.splitlines() if l.count("|") >= 2][:3]
        first = [[int(x) for x in re.findall(r"-?\d+", l.split("|")[1])] for l in rows]
        s["R"] = np.array(first)
        if all(l.count("|") >= 4 for l in rows):
            s["Rref"] = np.array([[int(x) for x in re.findall(r"-?\d+", l.split("|")[3])] for l in rows])
        g = re.findall(r"gk = \[[^\]]*\]", blk)
        s["gk"] = [parse_gk(x) for x in g]
        m = re.search(r"spinor rot\.         : \|(.*)\|\n.*\|(.*)\|", blk)
        if m:
            s["S"] = cnumbers(m.group(1) + " " + m.group(2)).reshape(2, 2)
        m = re.search(r"spinor rot\. \(refUC\) : \|(.*)\|\n.*\|(.*)\|", blk)
        if m:
            s["Sref"] = cnumbers(m.group(1) + " " + m.group(2)).reshape(2, 2)
        s["t"] = np.array(floats(re.search(r"translation         :\s*\[(.*)\]", blk).group(1)))
        m = re.search(r"translation \(refUC\) :\s*\[(.*)\]", blk)
        if m:
            s["tref"] = np.array(floats(m.group(1)))
        m = re.search(r"axis: \[(.*)\] ; angle =\s*(.*?)\s*, inversion : (\w+)", blk, re.S)
        s["axis"] = np.array(floats(m.group(1)))
        a = m.group(2).strip()
        s["angle"] = 0.0 if a == "0" else np.pi * eval_frac(a)
        s["inv"] = m.group(3) == "True"
        o["syms"].append(s)
    o["k"] = parse_kpoints(body)
    return o


def parse_kpoints(body):
    out = []
    ks = re.split(r"\n k-point ", body)[1:]
    for blk in ks:
        h = re.match(r"\s*(\d+) : \[(.*?)\] \(in DFT cell\)\s*\[(.*?)\] \(after cell trasformation\)\s*number of states : (\d+)", blk, re.S)
        k = dict(ik=int(h.group(1)), k=floats(h.group(2)), kref=floats(h.group(3)), n=int(h.group(4)), levels=[])
        ls = blk[h.end():].splitlines()
        i = next(j for j, l in enumerate(ls) if "degeneracy" in l and "Energy" in l)
        k["ops"] = [int(x) for x in re.findall(r"\d+", ls[i + 1].split("|")[3])]
        i += 2
        while i < len(ls) and ls[i].count("|") == 3:
            p = ls[i].split("|")
            q = ls[i + 1].split("|")
            k["levels"].append(dict(E=float(p[0]), d=int(p[1]), irr=p[2].strip(), ch=cnumbers(p[3]), chref=cnumbers(q[3]), blank=not q[2].strip()))
            i += 2
        out.append(k)
    return out


def eval_frac(a):
    m = re.match(r"(-?\d+)(?:/(\d+))?\s*pi", a)
    return int(m.group(1)) / int(m.group(2) or 1)


def labels_of(s):
    out = {}
    for m in re.finditer(r"([^\s,()]+)\(([^)]*)\)", s):
        v = m.group(2)
        out[m.group(1)] = complex(v.replace("i", "j")) if "i" in v else complex(float(v))
    return out


def mod1(d):
    d = np.asarray(d, float)
    return d - np.round(d)


def eigenvalue(s):
    return complex(s.replace(" ", ""))


def run_separated(job, ctx, rng):
    """the report of every subspace of a separation by one or two operations"""
    import json
    import monty.serialization
    from checks.c13 import eigenspaces, classes, opmat
    from irrep.bandstructure import BandStructure
    from vlib.pw import in_little_group
    sg, spinor = job["sg"], job["spinor"]
    C = tame_crystal(sg, rng, volume=float(rng.uniform(28, 45)))
    tk = table_kpts(sg, spinor)
    tk = [tk[i] for i in rng.choice(len(tk), min(len(tk), int(rng.integers(1, 4))), replace=False)]
    kw = dict(kref=[k for _, k in tk])
    named = bool(rng.random() < .5)
    if not named and len(C.ops) > 1 and rng.random() < .8:
        # points of the plane or line that an operation leaves invariant: eigenvalues of any phase
        A = np.linalg.inv(np.asarray(C.ops[int(rng.integers(1, len(C.ops)))][0], float)).T
        pw = [np.linalg.matrix_power(A, n) for n in range(12)]
        kw = dict(kpts=[np.mean(pw, axis=0) @ rng.uniform(-.7, .7, 3) for _ in range(int(rng.integers(1, 3)))])
        ctx.event("separated_on_lines")
    case = build(rng, sg, spinor, crystal=C, npw=40, nb=10 if spinor else 7, trbreak=job["tr"], **kw)
    code = str(rng.choice(["vasp", "abinit", "espresso", "wannier90"]))
    files = write_code(case, code, ".", rng)
    P, p = np.asarray(C.P, float), np.asarray(C.p, float)
    kw, opts = {}, []
    if named:
        kw = dict(refUC=P.T, shiftUC=p, search_cell=True, trans_thresh=1e-4)
        opts = ["-refUC=" + ",".join(repr(float(x)) for x in P.T.ravel()), "-shiftUC=" + ",".join(repr(float(x)) for x in p),
                "-kpnames=" + ",".join(t.name for t, _ in tk), "-trans_thresh=1e-4"]
    with quiet():
        S = BandStructure(onlysym=True, **files, **kw).spacegroup
    com = [s for s in S.symmetries if all(in_little_group(np.asarray(s.rotation), kd.k) for kd in case.kds)]
    rng.shuffle(com)
    kramers = bool(rng.random() < .6)
    chosen, mats, reps = [], [], []
    for s in com[:8]:
        D = [opmat(case, kd, s) for kd in case.kds]
        if any(np.abs(x @ y - y @ x).max() > 1e-6 for M in mats for x, y in zip(M, D)):
            continue
        vals = [w for kd, M in zip(case.kds, D) for a, e in kd.levels(LEVEL_TOL) for w in np.linalg.eigvals(M[a:e, a:e])]
        r = classes(vals, kramers, 0.06 if kramers else 0.12)
        if r is None or (len(r) < 2 and rng.random() < .8):
            continue
        if len(r) == 1:
            ctx.event("separated_by_one_value")
        chosen.append(s)
        mats.append(D)
        reps.append(r)
        if len(chosen) == 2 or rng.random() < .5:
            break
    if not chosen:
        ctx.event("not_separable")
        return
    tag = "SG %d spinor=%s %s isymsep=%s kramers=%s" % (sg, spinor, code, [int(s.ind) for s in chosen], kramers)
    combos = {}
    for ik, kd in enumerate(case.kds):
        lv = kd.levels(LEVEL_TOL)
        sp = [eigenspaces(m[ik], lv, kramers, r) for m, r in zip(mats, reps)]
        for il, (a, e) in enumerate(lv):
            for cl in itertools.product(*[range(len(r)) for r in reps]):
                X = np.eye(e - a, dtype=complex)
                for c, s in zip(cl, sp):
                    X = X @ s[il][c]
                n = int(round(np.trace(X).real))
                if n:
                    combos.setdefault(cl, {}).setdefault(ik, []).append((il, n))
    ef = float(np.round(rng.uniform(-2, 2), 3))
    isep = ",".join(str(s.ind) for s in chosen)
    opts += ["-EF=%r" % ef]
    if kramers:
        opts.append("-isymsep=" + isep)
    else:
        json.dump({"isymsep": isep, "groupKramers": False}, open("c.json", "w"))
        opts.append("-config=c.json")
    rc, text = run_cli(cli_files(files) + opts)
    if not ctx.require(rc == 0, "exit-status", "%s: %s" % (tag, rc)):
        return
    ctx.event("separated_runs")
    if len(chosen) > 1:
        ctx.event("separated_twice")
    top, *blocks = text.split("NEXT SUBSPACE:")
    top = top[:top.index("SEPARATING BY SYMMETRY")]
    whole = parse_kpoints(top)
    js = monty.serialization.loadfn("irrep-output.json")
    ctx.require(js["separated by symmetry"] is True, "json-separated", tag)
    ctx.close("json-separating", list(js["separating symmetries"]), [s.ind for s in chosen], 0, tag)
    subs = js["characters and irreps"]
    if not ctx.close("number-of-subspaces", [len(blocks), len(subs)], [len(combos)] * 2, 0, tag):
        return
    seen = set()
    for blk, sub in zip(blocks, subs):
        head, body = blk.split("\n", 1)
        h = re.findall(r"sym # (\d+) -> eigenvalue (\S+)", head)
        ctx.close("header-symmetries", [int(x) for x, _ in h], [s.ind for s in chosen], 0, tag)
        evj = [complex(*x) if np.ndim(x) else complex(x) for x in sub["symmetry eigenvalues"]]
        if len(h) == len(evj):
            ctx.close("header-eigenvalues", [eigenvalue(x) for _, x in h], evj, 1.5e-3, tag)
        cl = []
        for x, r in zip(evj, reps):
            d = [abs((x.real if kramers else x) - y) for y in r]
            cl.append(int(np.argmin(d)))
            ctx.close("subspace-eigenvalue", min(d), 0, 5e-3, tag)
        cl = tuple(cl)
        if not ctx.require(cl in combos and cl not in seen, "subspace-unexpected", "%s %s" % (evj, tag)):
            continue
        seen.add(cl)
        want = combos[cl]
        pk, jk = parse_kpoints(body), sub["subspace"]["k points"]
        if not (ctx.close("printed-sub-k", [k["ik"] for k in pk], [i + 1 for i in sorted(want)], 0, tag) and ctx.close("json-sub-k", len(jk), len(want), 0, tag)):
            continue
        for k, j, ik in zip(pk, jk, sorted(want)):
            kd, w = case.kds[ik], whole[ik]
            tg = "k %d eigenvalues %s %s" % (ik + 1, evj, tag)
            lv = kd.levels(LEVEL_TOL)
            rows = [il for il, n in want[ik] for _ in range(n)]
            E = np.array([kd.E[slice(*lv[il])].mean() for il in rows]) - ef
            ctx.event("sub_states", len(rows))
            ctx.require(j["kpname"] == (tk[ik][0].name if named else None), "json-sub-kpname", tg)
            ctx.close("printed-sub-kcoord", k["k"], kd.k, 6e-6, tg)
            ctx.close("printed-sub-states", k["n"], len(rows), 0, tg)
            ctx.require(k["ops"] == w["ops"] and list(j["symmetries"]) == w["ops"], "sub-little-group", tg)
            if not (ctx.close("printed-sub-dims", sum(x["d"] for x in k["levels"]), len(rows), 0, tg) and ctx.close("json-sub-dims", sum(j["dimensions"]), len(rows), 0, tg)):
                continue
            # one line per state, or per level if it is not split
            levels = [x for x in k["levels"] for _ in range(x["d"])]
            ctx.close("printed-sub-energies", [x["E"] for x in levels], E, 7e-5, tg)
            ctx.close("json-sub-energies", np.repeat(j["energies_mean"], j["dimensions"]), E, 2e-5, tg)
            for x, il, cj in zip(levels, rows, np.repeat(np.asarray(j["characters"]), j["dimensions"], axis=0)):
                ctx.close("printed-sub-traces", x["ch"], w["levels"][il]["ch"], 1.5e-4, tg)
                ctx.close("printed-sub-traces-ref", x["chref"], w["levels"][il]["chref"], 1.5e-4, tg)
                ctx.close("json-sub-traces", cj, w["levels"][il]["ch"], 1.5e-4, tg)
                ctx.require(labels_of(x["irr"]) == labels_of(w["levels"][il]["irr"]), "printed-sub-irreps", lambda: "%s %s %s" % (x["irr"], w["levels"][il]["irr"], tg))
        ctx.distinct(sg, spinor, "sep", len(chosen), kramers, len(combos))
    ctx.sample(sg=sg, spinor=spinor, separated_by=[int(s.ind) for s in chosen], subspaces=[str(c) for c in combos])


def run(job, ctx, rng):
    if job["mode"] == "sep":
        return run_separated(job, ctx, rng)
    sg, spinor, mode = job["sg"], job["spinor"], job["mode"]
    C = tame_crystal(sg, rng, volume=float(rng.uniform(28, 45)), usteps=int(rng.integers(0, 3)))
    if rng.random() < .5:
        # atoms of a species need not be together
        i = rng.permutation(len(C.numbers))
        C.positions, C.numbers = np.asarray(C.positions)[i], np.asarray(C.numbers)[i]
    P, p = np.asarray(C.P, float), np.asarray(C.p, float)
    tk = table_kpts(sg, spinor)
    size = dict(npw=40, nb=10 if spinor else 7)
    if job.get("big"):
        size = dict(npw=90, nb=int(rng.integers(20, 34)))
        tk = [tk[i] for i in rng.integers(0, len(tk), int(rng.integers(10, 14)))]
        ctx.event("big")
    else:
        tk = [tk[i] for i in rng.choice(len(tk), min(len(tk), int(rng.integers(1, 4))), replace=False)]
    opts = []
    if mode == "search":
        S0 = get_sg(C, spinor, search_cell=True, trans_thresh=1e-4)
        P, p = np.asarray(S0.refUC, float), np.asarray(S0.shiftUC, float)
    elif mode == "plain":
        P, p = np.eye(3), np.zeros(3)
    if mode == "names":
        opts += ["-refUC=" + ",".join(repr(float(x)) for x in P.T.ravel()), "-shiftUC=" + ",".join(repr(float(x)) for x in p)]
        case = build(rng, sg, spinor, crystal=C, kref=[k for _, k in tk], **size, trbreak=job["tr"])
    else:
        case = build(rng, sg, spinor, crystal=C, kpts=[np.linalg.inv(P.T) @ k for _, k in tk], **size, trbreak=job["tr"])
    code = str(rng.choice(["vasp", "abinit", "espresso", "wannier90"]))
    files = write_code(case, code, ".", rng)
    ef = float(np.round(rng.uniform(-2, 2), 3))
    if rng.random() < .15:
        # energies with many digits
        ef = float(np.round(rng.choice([-1, 1]) * 10 ** rng.uniform(1, 4), 3))
        ctx.event("wide_energies")
    opts.append("-EF=%r" % ef)
    # a window of bands made of whole levels
    cut = [n for n in range(0, case.nb + 1) if all(n in (0, case.nb) or kd.E[n] - kd.E[n - 1] > 2e-3 for kd in case.kds)]
    lo, hi = 0, case.nb
    u = rng.random()
    if u < .25 and case.nb > 2:
        # or of any bands: what is left of a level has a trace, and multiplicities that are no integers
        cut = list(range(case.nb + 1))
    if len(cut) > 2 and u < .5:
        lo, hi = sorted(int(x) for x in rng.choice(cut, 2, replace=False))
        opts += ["-IBstart=%d" % (lo + 1), "-IBend=%d" % hi]
    thr = LEVEL_TOL
    if rng.random() < .35:
        # levels that are merged by the user: several irreps in one
        gaps = np.concatenate([np.diff(kd.E[lo:hi]) for kd in case.kds] + [[0.0]])
        cand = 10 ** rng.uniform(-1, .8, 20)
        cand = [x for x in cand if np.abs(gaps - x).min() > 1e-3]
        if cand:
            thr = float(np.round(cand[0], 6))
            opts.append("-degenThresh=%r" % thr)
            ctx.event("merged_levels")
    sel = list(range(len(tk)))
    if len(tk) > 1 and rng.random() < (.6 if mode == "plain" else .3):
        sel = sorted(int(x) for x in rng.choice(len(tk), int(rng.integers(1, len(tk))), replace=False))
        opts.append("-kpoints=" + ",".join(str(i + 1) for i in sel))
        if mode != "plain":
            ctx.event("names_of_selected_k")
    if mode != "plain":
        opts += ["-kpnames=" + ",".join(tk[i][0].name for i in sel), "-trans_thresh=1e-4"]
    shown = list(range(1, len(C.ops) + 1))
    if rng.random() < .3:
        shown = sorted(int(x) for x in rng.choice(shown, int(rng.integers(1, len(shown) + 1)), replace=False))
        opts.append("-symmetries=" + ",".join(map(str, shown)))
    tag = "SG %d %s spinor=%s %s" % (sg, mode, spinor, code)
    rc, text = run_cli(cli_files(files) + opts)
    if not ctx.require(rc == 0, "exit-status", "%s: %s" % (tag, rc)):
        return
    ctx.event("runs")
    T = read_table(sg, spinor)
    r = parse_report(text)
    import monty.serialization
    js = monty.serialization.loadfn("irrep-output.json")
    isref = not (np.allclose(P, np.eye(3)) and np.allclose(p, 0))
    # ---- crystal
    ctx.close("printed-vectors", [v[0] for v in r["vectors"]], C.lattice, 6e-5, tag)
    ctx.close("printed-ref-vectors", [v[1] for v in r["vectors"]], P.T @ C.lattice, 1e-4, tag)
    ctx.close("printed-atoms-n", len(r["atoms"]), len(C.positions), 0, tag)
    pos = np.array([a[1] for a in r["atoms"]])
    # every atom printed once, species by species
    D = np.abs(mod1(pos[:, None] - np.asarray(C.positions)[None])).max(axis=2)
    j = D.argmin(axis=1)
    ctx.require(sorted(j) == list(range(len(pos))) and D.min(axis=1).max() < 2e-4, "printed-positions", tag)
    ty = np.array([a[0] for a in r["atoms"]])
    nm = np.asarray(C.numbers)[j]
    ctx.require(np.array_equal(ty[:, None] == ty[None], nm[:, None] == nm[None]), "printed-species", tag)
    ctx.close("printed-ref-positions", np.array([a[2] for a in r["atoms"]]), (np.linalg.inv(P) @ (pos - p).T).T, 5e-4, tag)
    # ---- group
    ctx.close("printed-number", r["number"], sg, 0, tag)
    ctx.close("printed-order", r["nsym"], len(C.ops), 0, tag)
    ctx.close("printed-refUC", r["refUC"], P.T, 6e-5, tag)
    ctx.close("printed-shiftUC", mod1(r["shiftUC"] - p), [0, 0, 0], 2e-5, tag)
    g = js["spacegroup"]
    ctx.close("json-number", g["number"], sg, 0, tag)
    ctx.require(g["name"] == r["name"], "group-name", "%s %s" % (g["name"], r["name"]))
    ctx.close("json-order", g["num symmetries"], len(C.ops), 0, tag)
    ctx.require(g["spinor"] == spinor and g["cells match"] == (not isref), "json-spinor-cells", "%s %s %s" % (g["spinor"], g["cells match"], tag))
    ctx.require(sorted(int(x) for x in g["symmetries"]) == shown, "json-symmetries-selected", "%s expected %s %s" % (sorted(g["symmetries"]), shown, tag))
    ctx.require([s["ind"] for s in r["syms"]] == shown, "printed-symmetries-selected", lambda: "%s expected %s %s" % ([s["ind"] for s in r["syms"]], shown, tag))
    # ---- trace.txt: all operations with their matrices
    tok = open("trace.txt").read().split("\n")
    ctx.close("trace.txt-head", [int(tok[0]), int(tok[1]), int(tok[2])], [hi - lo, int(spinor), len(C.ops)], 0, tag)
    ops = {}
    n = len(C.ops)
    for i in range(n):
        v = [float(x) for x in tok[3 + i].split()]
        R, t = np.array(v[:9]).round().astype(int).reshape(3, 3), np.array(v[9:12])
        m = [(R0, t0) for R0, t0 in C.ops if np.array_equal(R0, R) and np.abs(mod1(t - t0)).max() < 5e-5]
        if not ctx.require(len(m) == 1, "trace.txt-operation", lambda: "%s: line %d %s %s" % (tag, i, R.tolist(), t)):
            return
        t0 = m[0][1] + np.round(t - m[0][1])
        O = cart_rotation(R, C.lattice)
        Sx = spin_lift(R, C.lattice)
        if spinor:
            Sp = np.array([complex(a, b) for a, b in np.array(v[12:20]).reshape(4, 2)]).reshape(2, 2)
            Sx = Sx if np.abs(Sx - Sp).max() < np.abs(Sx + Sp).max() else -Sx
            ctx.close("trace.txt-spinor", Sp, Sx, 2e-6, tag)
        ops[i + 1] = dict(R=R, t=t0, S=Sx, O=O)
    ctx.require(len({o["R"].tobytes() + mod1(o["t"]).round(4).tobytes() for o in ops.values()}) == n, "trace.txt-all-operations", tag)
    iP = np.linalg.inv(P)
    for o in ops.values():
        o["Rref"] = iP @ o["R"] @ P
        o["tref"] = iP @ (o["t"] + o["R"] @ p - p)
        o["sign"] = 1
    # ---- printed operations
    for s in r["syms"]:
        ctx.event("printed_ops")
        o = ops.get(s["ind"])
        if o is None:
            continue
        tg = "op %d %s" % (s["ind"], tag)
        ctx.close("printed-rotation", s["R"], o["R"], 0, tg)
        ctx.close("printed-translation", mod1(s["t"] - o["t"]), [0, 0, 0], 6e-5, tg)
        if ctx.require(len(s["gk"]) == (2 if isref else 1) and all(x is not None for x in s["gk"]), "printed-gk-format", tg):
            ctx.close("printed-gk", s["gk"][0], np.linalg.inv(o["R"]).T, 1e-6, tg)
            if isref:
                ctx.close("printed-gk-ref", s["gk"][1], np.linalg.inv(o["Rref"]).T, 1e-6, tg)
        if ctx.require(("Rref" in s) == isref and ("tref" in s) == isref, "printed-ref-part", tg) and isref:
            ctx.close("printed-rotation-ref", s["Rref"], o["Rref"], 1e-6, tg)
            ctx.close("printed-translation-ref", mod1(s["tref"] - o["tref"]), [0, 0, 0], 1.2e-4, tg)
        if ctx.require(("S" in s) == spinor, "printed-spinor-part", tg) and spinor:
            ctx.close("printed-spinor", s["S"], o["S"], 1e-3, tg)
            if isref:
                o["sign"] = 1 if np.abs(s["Sref"] - o["S"]).max() < np.abs(s["Sref"] + o["S"]).max() else -1
                ctx.close("printed-spinor-ref", s["Sref"], o["sign"] * o["S"], 1e-3, tg)
        check_axis(ctx, s["axis"], s["angle"], s["inv"], o["O"], 2e-5, tg)
    # ---- json operations
    for ind, d in g["symmetries"].items():
        o = ops.get(int(ind))
        if o is None:
            continue
        tg = "json op %s %s" % (ind, tag)
        ctx.close("json-rotation", d["rotation matrix"], o["R"], 0, tg)
        ctx.close("json-translation", mod1(np.asarray(d["translation"]) - o["t"]), [0, 0, 0], 1e-5, tg)
        ctx.close("json-rotation-ref", d["rotation matrix refUC"], o["Rref"], 1e-6, tg)
        ctx.close("json-translation-ref", mod1(np.asarray(d["translation refUC"]) - o["tref"]), [0, 0, 0], 5e-5, tg)
        check_axis(ctx, np.asarray(d["axis"]), float(d["angle pi"]) * np.pi, bool(d["inversion"]), o["O"], 2e-5, tg)
        a = d["angle str"].strip()
        ctx.close("json-angle", 0.0 if a == "0" else eval_frac(a), float(d["angle pi"]), 1e-6, tg)
        if spinor and isref:
            if len(shown) == n:
                ctx.close("json-sign", d["sign"], o["sign"], 0, tg)
            o["sign"] = int(d["sign"])
    # ---- template of table
    tl = open("irreptable-template").read().split("\n")
    head = "\n".join(tl[:4])
    ctx.require(re.search(r"SG=\s*%d\b" % sg, head) and re.search(r"name=\s*%s\b" % re.escape(r["name"]), head) and re.search(r"nsym=\s*%d\b" % n, head)
                and re.search(r"spinor=\s*%s" % spinor, head), "template-header", head)
    rows = [l for l in tl[5:] if l.strip()]
    if ctx.close("template-count", len(rows), n, 0, tag):
        for i, l in enumerate(rows):
            ctx.event("template_ops")
            v = [float(x) for x in l.split()]
            o = ops[i + 1]
            ctx.close("template-rotation", np.array(v[:9]).reshape(3, 3), o["Rref"], 1e-6, tag)
            ctx.close("template-translation", mod1(np.array(v[9:12]) - o["tref"]), [0, 0, 0], 3e-5, tag)
            if spinor:
                Z = (np.array(v[12:16]) * np.exp(1j * np.pi * np.array(v[16:20]))).reshape(2, 2)
                ctx.close("template-spinor", Z, o["S"], 5e-5, tag)
    # ---- k points: truth
    allsigns = spinor and isref and len(shown) < n
    truth = []
    for i in sel:
        kd = case.kds[i]
        br = [lo] + [x + 1 for x in range(lo, hi - 1) if kd.E[x + 1] - kd.E[x] > thr] + [hi]
        lv = list(zip(br[:-1], br[1:]))
        lg = [q for q in ops if in_lg(ops[q]["R"], kd.k)]
        ch = {q: true_traces(kd, ops[q]["R"], ops[q]["t"], ops[q]["S"], lv) for q in lg}
        kref = P.T @ kd.k
        chref = {}
        for q in lg:
            f = 1.0
            if isref and mode != "plain":
                dt = T.symmetries[q - 1].t - ops[q]["tref"]
                f = np.exp(-2j * np.pi * dt @ kref) * ops[q]["sign"]
            chref[q] = ch[q] * f
        truth.append(dict(kd=kd, E=np.array([kd.E[a:b].mean() - ef for a, b in lv]), d=[b - a for a, b in lv], ops=lg, ch=ch, chref=chref, kref=kref,
                          raw=kd.E[lo:hi] - ef, ik=i + 1, tk=tk[i]))

    def same_ops(name, got, want):
        return ctx.require(sorted(got) == sorted(want) and len(set(got)) == len(got), name, lambda: "%s expected %s %s" % (got, want, tag))

    jk = js["characters and irreps"][0]["subspace"]["k points"]
    ctx.require(len(js["characters and irreps"]) == 1 and js["separated by symmetry"] is False, "json-structure", tag)
    if not (ctx.close("json-number-of-k", len(jk), len(sel), 0, tag) and ctx.close("printed-number-of-k", len(r["k"]), len(sel), 0, tag)):
        return
    L0 = 3 + n
    ctx.close("trace.txt-number-of-k", int(tok[L0]), len(sel), 0, tag)
    pos = L0 + 1 + len(sel)
    from checks.c04 import CONJ
    datrows = []
    for it, (t, k, q) in enumerate(zip(truth, jk, r["k"])):
        tg = "k %d %s" % (t["ik"], tag)
        conj = (sg, int(spinor), t["tk"][0].name) in CONJ
        nl = len(t["d"])
        # json
        ctx.require(k["kpname"] == (None if mode == "plain" else t["tk"][0].name), "json-kpname", "%s %s" % (k["kpname"], tg))
        if same_ops("json-little-group", list(k["symmetries"]), t["ops"]) and ctx.close("json-dimensions", list(k["dimensions"]), t["d"], 0, tg):
            ctx.close("json-energies", k["energies_mean"], t["E"], 2e-5, tg)
            ctx.close("json-raw-energies", k["energies_raw"], t["raw"], 2e-5, tg)
            cj = np.asarray(k["characters"])
            cr = np.asarray(k["characters refUC"])
            wj = np.array([t["ch"][x] for x in k["symmetries"]]).T
            wr = np.array([t["chref"][x] for x in k["symmetries"]]).T
            ctx.event("json_traces", cj.size)
            ctx.close("json-traces", cj, wj, 1e-4, tg)
            if allsigns:
                ctx.close("json-traces-ref", np.abs(cr), np.abs(wr), 1e-3, tg)
            else:
                ctx.close("json-traces-ref", cr, wr, 1e-3, tg)
                if isref:
                    ctx.event("refcell_traces", cr.size)
            same = np.abs(cj - cr).max()
            if same < 5e-5 or same > 2e-4:
                ctx.require(k["characters refUC is the same"] == (same < 1e-4), "json-same-traces", tg)
        mult = None
        if mode != "plain" and not conj and not allsigns:
            mult = true_mult(t, T, ops)
        if mode == "plain":
            ctx.require(k["irreps"] is None, "json-no-irreps", tg)
        elif mult is not None:
            for il in range(nl):
                gj = {a: complex(*b) for a, b in k["irreps"][il].items()}
                check_mult(ctx, "json-irreps", gj, mult[il], 3e-3, tg)
        elif conj:
            # recorded finding of C04: these multiplicities may be complex; the outputs agree with each other
            mult = [{a: complex(*b) for a, b in x.items()} for x in k["irreps"]]
        # printed
        ctx.close("printed-k-index", q["ik"], t["ik"], 0, tg)
        ctx.close("printed-k", q["k"], t["kd"].k, 6e-6, tg)
        ctx.close("printed-k-ref", q["kref"], t["kref"], 1.1e-5, tg)
        ctx.close("printed-states", q["n"], hi - lo, 0, tg)
        if same_ops("printed-little-group", q["ops"], t["ops"]) and ctx.close("printed-dims", [x["d"] for x in q["levels"]], t["d"], 0, tg):
            ctx.close("printed-energies", [x["E"] for x in q["levels"]], t["E"], 7e-5, tg)
            for il, x in enumerate(q["levels"]):
                ctx.event("printed_traces", len(q["ops"]))
                ctx.close("printed-traces", x["ch"], np.array([t["ch"][o][il] for o in q["ops"]]), 2.5e-4, tg)
                w = np.array([t["chref"][o][il] for o in q["ops"]])
                ctx.close("printed-traces-ref", np.abs(x["chref"]) if allsigns else x["chref"], np.abs(w) if allsigns else w, 1e-3, tg)
                if mode == "plain":
                    ctx.require(x["irr"] == "None", "printed-no-irreps", tg)
                elif mult is not None:
                    ctx.event("labels", sum(abs(x) > 1e-2 for x in mult[il].values()))
                    check_mult(ctx, "printed-irreps", labels_of(x["irr"]), mult[il], 3e-3, tg)
        if mult is not None:
            datrows += [(e, m) for e, m in zip(t["E"], mult)]
        else:
            datrows += [(e, None) for e in t["E"]]
        # trace.txt
        ctx.close("trace.txt-k", floats(tok[L0 + 1 + it]), t["kd"].k, 1e-6, tg)
        lg = [int(x) for x in tok[pos + 1].split()]
        ctx.close("trace.txt-little-order", int(tok[pos]), len(t["ops"]), 0, tg)
        if same_ops("trace.txt-little-group", lg, t["ops"]):
            for il in range(nl):
                v = floats(tok[pos + 2 + il])
                if ctx.close("trace.txt-row", len(v), 3 + 2 * len(lg), 0, tg):
                    ctx.close("trace.txt-band", v[:2], [1 + sum(t["d"][:il]), t["d"][il]], 0, tg)
                    ctx.close("trace.txt-energy", v[2], t["E"][il], 7e-5, tg)
                    z = np.array(v[3:]).reshape(-1, 2) @ [1, 1j]
                    ctx.close("trace.txt-traces", z, np.array([t["ch"][o][il] for o in lg]), 1e-4, tg)
        pos += 2 + nl
        ctx.distinct(sg, spinor, mode, t["tk"][0].name)
    ctx.require(not "".join(tok[pos:]).strip(), "trace.txt-end", tag)
    ctx.event("trace.txt")
    # ---- irreps.dat
    if ctx.require(os.path.exists("irreps.dat") == (mode != "plain"), "irreps.dat-exists", tag) and mode != "plain":
        rows = [l for l in open("irreps.dat").read().split("\n") if l.strip()]
        if ctx.close("irreps.dat-rows", len(rows), len(datrows), 0, tag):
            for l, (e, m) in zip(rows, datrows):
                v = l.split()
                ctx.close("irreps.dat-energy", float(v[0]), e, 2e-5, tag)
                if m is not None and any(5e-4 < abs(x) < 4e-3 for x in m.values()):
                    ctx.event("irreps.dat-borderline")
                elif m is not None and len(m) <= 6:
                    m = [a for a in m if abs(m[a]) > 2e-3]
                    ctx.event("irreps.dat")
                    if len(m) > 2:
                        ctx.event("irreps.dat-many")
                    ctx.require("".join(v[1:]) in {"".join(x) for x in itertools.permutations(m)}, "irreps.dat-labels", lambda: "%r vs %s %s" % (l, sorted(m), tag))
    ctx.sample(sg=sg, spinor=spinor, mode=mode, code=code, options=opts, first_level=r["k"][0]["levels"][0]["irr"])


def in_lg(R, k):
    d = np.linalg.inv(np.asarray(R, float)).T @ k - k
    return np.abs(d - np.round(d)).max() < 1e-6


def check_mult(ctx, mech, got, want, tol, msg):
    names = sorted(set(want) | set(got))
    ctx.close(mech, [got.get(a, 0) for a in names], [want.get(a, 0) for a in names], tol, lambda: "%s expected %s %s" % (got, want, msg))
    ctx.require(all(a in got for a in want if abs(want[a]) > 4e-3), mech, lambda: "%s expected %s %s" % (got, want, msg))
    ctx.require(all(a in want for a in got), mech, lambda: "%s expected %s %s" % (got, want, msg))
    if any(abs(x - round(x.real)) > 1e-2 for x in want.values()):
        ctx.event("fractional")
        if any(abs(complex(x).imag) > 1e-2 for x in want.values()):
            ctx.event("complex")


def true_mult(t, T, ops):
    """Multiplicities by projection, with the tables' operations."""
    tkp = t["tk"][0]
    out = []
    for il in range(len(t["d"])):
        e = {}
        for ir in tkp.irreps:
            x = 0
            for q in tkp.isym:
                x += ir.chars[q] * np.conj(tabtrace(t, T, ops, q)[il])
            x /= len(tkp.isym)
            e[ir.name] = x
        out.append(e)
    return out


def tabtrace(t, T, ops, q):
    """trace of the table's operation q (same rotation, translation of the tables) with the reported spin matrix times its sign"""
    dt = T.symmetries[q - 1].t - ops[q]["tref"]
    return t["ch"][q] * np.exp(-2j * np.pi * dt @ t["kref"]) * ops[q]["sign"]


def check_axis(ctx, axis, angle, inv, O, tol, tg):
    d = np.sign(np.linalg.det(O))
    ctx.require(inv == (d < 0), "axis-inversion", tg)
    n = axis / max(1e-9, np.linalg.norm(axis))
    c, s = np.cos(angle), np.sin(angle)
    if abs(angle) < 1e-6:
        n = np.array([0, 0, 1.0])          # any axis will do
    else:
        ctx.close("axis-unit", np.linalg.norm(axis), 1.0, 5e-6, tg)
    K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    ctx.close("axis-angle", np.eye(3) + s * K + (1 - c) * K @ K, O * d, tol, tg)
