"""C22: the analysis is a pure function of its input: repeatable, side-effect free, independent of history."""
import contextlib
import copy
import hashlib
import json
import os
import subprocess
import sys
import threading
import numpy as np
from vlib.case import *
from vlib import env
from vlib.runner import quiet
from vlib.crystals import strained
from vlib.readers import text_differs, check_structure, check_kpoint
from vlib.tables import read_table

PROP = "C22"
RULE = ("one case = random crystal and wavefunctions; (a) a random history of queries (reports, files, identification, separation, unfolding, Zak "
        "phases, analyses of other crystals) on one analysis, every answer compared with the first one to the same question and with a fresh "
        "analysis; (b) files and arguments digested before and after; analyses in two threads at once; (c) runs over stale files of a former run; (d) the program run in "
        "subprocesses with different hash seeds, numbers of threads and directories; distinct = (query, previous query)")
MINIMUM = {"histories": 60, "queries": 1500, "files_digested": 300, "stale_runs": 30, "labels_checked": 2000, "partner_analyses": 120, "twin_analyses": 60, "twins_of_equal_size": 30, "space_groups_of_arrays": 200, "concurrent_analyses": 180, "subprocess_runs": 16}
ASSUMPTIONS = ["numbers may differ in the last digits (order of floating-point operations), phases modulo 2 pi"]


def jobs(tier, seed):
    rng = np.random.default_rng(seed + 22)
    n = 120 if tier == "quick" else 1200
    out = []
    for i in range(n):
        out.append(dict(sg=int(rng.integers(1, 231)), rep=i, spinor=bool(rng.random() < .5), code=["vasp", "abinit", "espresso", "wannier90"][i % 4],
                        sub=bool(i % (6 if tier == "quick" else 10) == 0), big=bool(i % 12 == 1)))
    return out


def digest(d="."):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    return out


def num_close(a, b, tol):
    return bool(np.all(np.abs(np.asarray(a, complex) - np.asarray(b, complex)) <= tol * (1 + np.abs(np.asarray(b, complex)))))


def differs(a, b, tol=1e-7, path=""):
    """'' or where two nested results differ"""
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(map(str, a)) != sorted(map(str, b)):
            return "%s keys %s | %s" % (path, sorted(map(str, a)), sorted(map(str, b)))
        for k in a:
            r = differs(a[k], b[k] if k in b else {str(x): y for x, y in b.items()}[str(k)], tol, path + "/" + str(k))
            if r:
                return r
        return ""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return "%s shape %s | %s" % (path, a.shape, b.shape)
        if a.dtype.kind in "biufc":
            with np.errstate(invalid="ignore"):
                ok = (a == b) | (np.abs(a - b) <= tol * (1 + np.abs(b))) | ((a != a) & (b != b))
            return "" if np.all(ok) else "%s: %s | %s" % (path, str(a)[:80], str(b)[:80])
        return "" if np.all(a == b) else path
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s length %d | %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = differs(x, y, tol, path + "/%d" % i)
            if r:
                return r
        return ""
    if isinstance(a, (bool, str, type(None))) or isinstance(b, (bool, str, type(None))):
        if isinstance(a, str) and isinstance(b, str):
            r = text_differs(a, b)
            return r and path + ": " + r
        return "" if a == b else "%s: %r | %r" % (path, a, b)
    if a == b or (a != a and b != b):
        return ""
    return "" if abs(a - b) <= tol * (1 + abs(b)) else "%s: %r | %r" % (path, a, b)


def file_of(fun, name):
    if os.path.exists(name):
        os.remove(name)
    with quiet() as t:
        fun()
    return open(name).read(), t.getvalue()


def printed(fun):
    with quiet() as t:
        r = fun()
    return t.getvalue(), r


def phases(z):
    return np.exp(2j * np.pi * np.asarray(z))


def summary(b):
    """Everything an analysis says, for comparison; never calls anything that changes it."""
    out = dict(sg=b.spacegroup.json(), lattice=np.array(b.Lattice), rec=np.array(b.RecLattice), ef=b.efermi, ecut=(b.Ecut, b.Ecut0),
               gaps=(b.gap_direct, b.gap_indirect), inv=b.num_bandinvs, nb=b.num_bands)
    for i, kp in enumerate(b.kpoints):
        out["k%d" % i] = dict(k=np.array(kp.k), E=np.array(kp.Energy_raw), Em=np.array(kp.Energy_mean), deg=list(map(int, kp.degeneracies)),
                              ch=np.array(kp.char), chr=np.array(kp.char_refUC), little=[s.ind for s in kp.little_group],
                              wf=np.array(kp.WF), ig=np.array(kp.ig), irreps=[dict(x) if isinstance(x, dict) else x for x in kp.irreps])
    return out


def queries(b, names, rng, case, ctx):
    """name -> callable returning a comparable value.  Arguments are drawn once, so that a query is always the same question."""
    nk = len(case.kds)
    q = {}
    given = []          # what the user passes: name, object, its copy

    def arg(name, x):
        given.append((name, x, copy.deepcopy(x)))
        return x
    q["json"] = lambda: b.json(names)
    q["json-unnamed"] = lambda: [dict(x, kpname=0) for x in b.json()["k points"]]
    q["write_characters"] = lambda: printed(b.write_characters)[0]
    q["trace.txt"] = lambda: file_of(b.write_trace, "trace.txt")
    q["irreps.dat"] = lambda: file_of(b.write_irrepsfile, "irreps.dat")
    q["plotfile"] = lambda: file_of(lambda: b.write_plotfile("p.dat"), "p.dat")
    q["kline"] = lambda: b.KPOINTSline(breakTHRESH=.3)
    S = arg("supercell", np.diag([1, 2, 1]))
    kpred = arg("kpred", [k.k @ np.linalg.inv(S) for k in b.kpoints])
    q["kline-supercell"] = lambda: b.KPOINTSline(kpred=kpred, supercell=S, breakTHRESH=9)
    kpred2 = arg("kpred", np.array(kpred))
    q["kline-array"] = lambda: b.KPOINTSline(kpred=kpred2, breakTHRESH=9)
    q["show"] = lambda: printed(b.spacegroup.show)[0]
    arg("names", names)
    sel = arg("symmetries", [int(x) for x in rng.choice(len(case.C.ops), min(3, len(case.C.ops)), replace=False) + 1])
    q["show-some"] = lambda: printed(lambda: b.spacegroup.show(symmetries=sel))[0]
    q["sg-json"] = lambda: b.spacegroup.json()
    q["sg-json-some"] = lambda: b.spacegroup.json(symmetries=sel)
    q["template"] = lambda: b.spacegroup.str()
    q["sym-file"] = lambda: file_of(lambda: b.spacegroup.write_sym_file("x.sym", alat=3.1), "x.sym")
    q["identify"] = lambda: (printed(lambda: b.identify_irreps(names)), [list(k.irreps) for k in b.kpoints])[1]

    def none_and_back():
        with quiet():
            b.identify_irreps(None)
            r = [list(k.irreps) for k in b.kpoints]
            b.identify_irreps(names)
        return r
    q["identify-none"] = none_and_back
    common = [s.ind for s in b.spacegroup.symmetries if all(in_little_group(s.rotation, kd.k, 1e-6) for kd in case.kds)]
    for o in [int(x) for x in rng.choice(common, min(2, len(common)), replace=False)]:
        for kr in (True, False):
            def sep(o=o, kr=kr):
                with quiet():
                    d = b.Separate(o, degen_thresh=LEVEL_TOL, groupKramers=kr)
                def key(v):
                    v = complex(v)
                    return "%+.1f %+.1f" % (round(v.real, 1) + 0.0, round(v.imag, 1) + 0.0)
                return {key(v): [dict(E=np.array(k.Energy_raw), n=k.num_bands, ch=np.array(k.char)) for k in s.kpoints] for v, s in d.items()}
            q["separate-%d-%s" % (o, kr)] = sep
    k0 = int(rng.integers(nk))
    M = arg("supercell", np.diag([2, 1, 1]))
    target = arg("kptPBZ", np.linalg.inv(M) @ (case.kds[k0].k + rng.integers(0, 2, 3)))
    for thr in (1e-4, 5.0):
        q["unfold-%g" % thr] = lambda thr=thr: b.kpoints[k0].unfold(M, target, degen_thresh=thr)
        q["rho-%g" % thr] = lambda thr=thr: [(x[0], x[1], x[2], [np.array(m) for m in x[3]]) if not case.spinor or True else 0
                                             for x in [(a, c, e, list(ms)) for a, c, e, ms in b.kpoints[k0].get_rho_spin(thr)]]
    q["wcc"] = lambda: np.sort(np.round(np.asarray(b.wcc()), 6) % 1)
    q["zak"] = lambda: (lambda z: [np.exp(1j * np.asarray(z[0]))] + [np.asarray(x) for x in z[1:]])(printed(b.zakphase)[1])
    return q, given


def space_group_of_arrays(ctx, C, spinor, rng, tag):
    """SpaceGroup made directly from the user's arrays or lists"""
    from irrep.spacegroup import SpaceGroup
    shift = rng.integers(-2, 3, np.asarray(C.positions).shape)
    cell = (np.array(C.lattice), np.array(C.positions) + shift, np.array(C.numbers))
    if rng.random() < .5:
        cell = (cell[0], cell[1], list(map(int, cell[2])))
    search = bool(rng.random() < .5)
    kw = dict(search_cell=search, trans_thresh=1e-4)
    if rng.random() < .4:
        S = get_sg(C, spinor, search_cell=True, trans_thresh=1e-4)
        kw.update(refUC=np.array(S.refUC).T, shiftUC=np.array(S.shiftUC))
    keep = copy.deepcopy((cell, kw))

    def facts(S):
        return dict(json=S.json(), text=S.str(), show=printed(S.show)[0], sym=file_of(lambda: S.write_sym_file("y.sym", alat=2.5), "y.sym"),
                    ref=(np.array(S.refUC), np.array(S.shiftUC)), pos=np.array(S.positions), lat=np.array(S.Lattice))
    first = None
    for i in range(2):
        with quiet():
            S = SpaceGroup(cell=cell, spinor=spinor, **kw)
        f = facts(S)
        first = first or f
        d = differs(f, first, 1e-9)
        ctx.require(not d, "not-repeatable", lambda: "%s: a second SpaceGroup from the same arrays differs: %s" % (tag, d))
        d = differs([list(cell), kw], [list(keep[0]), keep[1]], 0)
        ctx.require(not d, "argument-modified", lambda: "%s: SpaceGroup changed its arguments (cell / options): %s" % (tag, d))
        ctx.event("space_groups_of_arrays")
    os.remove("y.sym")


def concurrent(ctx, analyse, first, rng, tag):
    """Two analyses of different crystals in two threads, switching as often as possible, give what each gives alone."""
    from irrep.bandstructure import BandStructure
    try:
        sg2, sp2 = int(rng.integers(1, 231)), bool(rng.random() < .5)
        C2 = tame_crystal(sg2, rng)
        R2 = np.asarray(get_sg(C2, sp2, search_cell=True, trans_thresh=1e-4).refUC, float)
        t2 = table_kpts(sg2, sp2)[:2]
        c2 = build(rng, sg2, sp2, crystal=C2, kpts=[np.linalg.inv(R2.T) @ k for _, k in t2], npw=30, nb=6)
    except Inconclusive:
        return
    d = os.path.join(os.getcwd(), "concurrent")
    os.mkdir(d)
    a2 = dict(calculate_traces=True, degen_thresh=LEVEL_TOL, search_cell=True, trans_thresh=1e-4, save_wf=True)
    a2.update(write_code(c2, str(rng.choice(["vasp", "abinit", "espresso"])), d, rng, .05))

    def analyse2():
        b = BandStructure(**a2)
        b.identify_irreps([kp.name for kp, _ in t2])
        return b
    with quiet():
        first2 = summary(analyse2())
    res = {}
    start = threading.Barrier(2)

    def worker(i, fun):
        try:
            for rep in range(2):
                start.wait(60)
                res[i, rep] = fun()
        except Exception as e:      # judged below, in the main thread
            res[i, "error"] = e
            start.abort()
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        with quiet():
            T = [threading.Thread(target=worker, args=(0, lambda: analyse(quietly=False))), threading.Thread(target=worker, args=(1, analyse2))]
            [t.start() for t in T]
            [t.join(300) for t in T]
    finally:
        sys.setswitchinterval(old)
    for (i, rep), b in sorted(res.items(), key=str):
        if rep == "error":
            if isinstance(b, threading.BrokenBarrierError):
                continue
            ctx.violation("concurrent-error", "%s: analysis in a thread beside another one: %s: %s" % (tag, type(b).__name__, b))
            continue
        dd = differs(summary(b), (first, first2)[i], 1e-9)
        ctx.require(not dd, "concurrent-differs", lambda: "%s: analysis in a thread beside another one: %s" % (tag, dd))
        ctx.event("concurrent_analyses")


def labels_of_tables(ctx, b, sg, spinor, names, tag):
    """All irreps named belong to the table of this group, this kind of states and this point."""
    T = read_table(sg, spinor)
    for nm, kp in zip(names, b.kpoints):
        ok = {ir.name: ir.dim for t in T.kpoints if t.name == nm for ir in t.irreps}
        for d, irr in zip(kp.degeneracies, kp.irreps):
            ctx.event("labels_checked")
            ctx.require(set(irr) <= set(ok), "foreign-label", lambda: "%s point %s: %s, table has %s" % (tag, nm, list(irr), list(ok)))


def twin(ctx, case, spinor, rng, tag):
    n0 = [len(kd.G) for kd in case.kds]
    for _ in range(6):
        D = strained(case.C, rng, float(rng.choice([.01, .03, .06])))
        c2 = build(rng, case.sg, spinor, crystal=D, kpts=[kd.k for kd in case.kds], ecut=case.ecut, nb=case.nb)
        same = [len(kd.G) for kd in c2.kds] == n0
        if same:
            break
    ctx.event("twin_analyses")
    ctx.event("twins_of_equal_size", same)
    tag = "almost the same crystal: " + tag
    b = run_vasp(c2, ".", trans_thresh=1e-4)
    check_structure(ctx, b, D.lattice, D.positions, D.numbers)
    for kd, kp in zip(c2.kds, b.kpoints):
        check_kpoint(ctx, kp, kd, c2.ecut, c2.B, tag=tag)
        lv = kd.levels(LEVEL_TOL)
        for i, op in enumerate(kp.little_group):
            ctx.close("twin-trace", np.asarray(kp.char)[:, i], true_traces(kd, op.rotation, op.translation, np.asarray(op.spinor_rotation), lv), 5e-5, tag)


def run(job, ctx, rng):
    sg, spinor, code = job["sg"], job["spinor"], job["code"]
    C = tame_crystal(sg, rng)
    S = get_sg(C, spinor, search_cell=True, trans_thresh=1e-4)
    ref = np.asarray(S.refUC, float)
    tk = table_kpts(sg, spinor)
    # points of one plane-wave family: any points of the tables
    pick = [tk[int(i)] for i in rng.choice(len(tk), min(len(tk), 3), replace=False)]
    if job["big"]:
        pick = [tk[int(i)] for i in rng.integers(0, len(tk), 11)]
    names = [kp.name for kp, _ in pick]
    case = build(rng, sg, spinor, crystal=C, kpts=[np.linalg.inv(ref.T) @ k for _, k in pick], npw=60 if job["big"] else 34, nb=16 if job["big"] else 8 if spinor else 6)
    from irrep.bandstructure import BandStructure
    files = write_code(case, code, ".", rng, ef_ha=.1)
    for f in files:
        if f in ("fWAV", "fPOS", "fWFK", "prefix"):
            files[f] = os.path.basename(files[f])
    d0 = digest()
    st0 = {f: os.stat(f).st_mtime_ns for f in d0}
    tag = "SG %d %s spinor=%s" % (sg, code, spinor)
    args = dict(files, calculate_traces=True, degen_thresh=LEVEL_TOL, trans_thresh=1e-4, refUC=np.array(S.refUC).T, shiftUC=np.array(S.shiftUC),
                search_cell=True, kplist=np.arange(1, len(names) + 1), EF="auto", save_wf=True)

    def analyse(v=0, quietly=True):
        a = dict(args, v=v, refUC=args["refUC"].copy(), shiftUC=args["shiftUC"].copy(), kplist=args["kplist"].copy())
        n = list(names)
        with (quiet() if quietly else contextlib.nullcontext()):
            b = BandStructure(**a)
            b.identify_irreps(n, v=v)
        for k in args:
            ctx.require(np.all(np.asarray(a[k] == args[k])), "argument-modified", "%s: %s" % (tag, k))
        ctx.require(n == names, "argument-modified", "%s: names" % tag)
        return b
    b = analyse()
    first = summary(b)
    ctx.require(digest() == d0, "files-touched", lambda: "%s: constructing the analysis changed %s" % (
        tag, [f for f in set(d0) | set(digest()) if digest().get(f) != d0.get(f)]))
    rs = rng.bit_generator.state
    space_group_of_arrays(ctx, C, spinor, rng, tag)
    if job["rep"] // 4 % 2:
        concurrent(ctx, analyse, first, rng, tag)
    rng.bit_generator.state = rs
    # ------------------------------------------------ a: history of queries
    q, given = queries(b, names, rng, case, ctx)
    answers = {}
    prev = "start"
    ctx.event("histories")
    qn = list(q)
    others = 0
    labels_of_tables(ctx, b, sg, spinor, names, tag)
    partner_at, twin_at = int(rng.integers(0, 22)), int(rng.integers(0, 22))
    seq = [qn[int(i)] for i in rng.integers(0, len(qn), 22)]
    seq = seq + [x for x in seq[:8]]
    for step, name in enumerate(seq):
        if step == partner_at:
            # the same crystal with the other kind of states, and a different group, with the same labels
            for d, s2, sp2 in (("partner", sg, not spinor), ("partner2", sg % 230 + 1, spinor)):
                cwd = os.getcwd()
                os.mkdir(d)
                os.chdir(d)
                try:
                    c_ = C if s2 == sg else tame_crystal(s2, rng)
                    r_ = np.asarray(get_sg(c_, sp2, search_cell=True, trans_thresh=1e-4).refUC, float)
                    t2 = [x for x in table_kpts(s2, sp2)][:2]
                    c2 = build(rng, s2, sp2, npw=30, nb=6, whole_levels=True,
                               kpts=[np.linalg.inv(r_.T) @ k for _, k in t2], crystal=c_)
                    c2.n2 = [x[0].name for x in t2]
                    with quiet():
                        b2 = run_vasp(c2, ".", search_cell=True, trans_thresh=1e-4)
                        b2.identify_irreps(c2.n2)
                    labels_of_tables(ctx, b2, s2, sp2, c2.n2, "SG %d spinor=%s after SG %d spinor=%s" % (s2, sp2, sg, spinor))
                    ctx.event("partner_analyses")
                    prev = d
                except Inconclusive:
                    pass
                finally:
                    os.chdir(cwd)
        if step == twin_at:
            # nearly the same crystal: same group, k points, cutoff and (if possible) numbers of plane waves, other lattice constants
            cwd = os.getcwd()
            os.mkdir("twin")
            os.chdir("twin")
            try:
                twin(ctx, case, spinor, rng, tag)
                prev = "twin"
            except Inconclusive:
                pass
            finally:
                os.chdir(cwd)
        if rng.random() < .07 and others < 2:
            # another crystal analysed in between
            others += 1
            cwd = os.getcwd()
            os.mkdir("other%d" % others)
            os.chdir("other%d" % others)
            try:
                c2 = build(rng, int(rng.integers(1, 231)), bool(rng.random() < .5), kpts=[[0, 0, 0], [.5, 0, 0]], npw=24, nb=4)
                with quiet():
                    b2 = run_code(c2, str(rng.choice(["vasp", "abinit", "espresso", "wannier90"])), ".", rng)
                    b2.identify_irreps(None)
                    b2.write_characters()
                    b2.json()
                ctx.event("other_analyses")
                prev = "other"
            except Inconclusive:
                pass
            finally:
                os.chdir(cwd)
        try:
            ans = q[name]()
        except Exception as e:
            ans = "error " + type(e).__name__
            ctx.event("query-error:" + name.split("-")[0] + ":" + str(e)[:60])
        ctx.event("queries")
        for nm, now_, was in given:
            d = differs(now_, was, 0)
            ctx.require(not d, "argument-modified", lambda: "%s: %s given by the user changed during %s: %s" % (tag, nm, name, d))
        ctx.distinct(name.split("-")[0], prev.split("-")[0])
        if name in answers:
            d = differs(ans, answers[name], 1e-6)
            ctx.require(not d, "answer-changed:" + name.split("-")[0], lambda: "%s: %s asked again after %s: %s" % (tag, name, prev, d))
        else:
            answers[name] = ans
        prev = name
    d = differs(summary(b), first, 1e-9)
    ctx.require(not d, "state-changed", "%s: after %s: %s" % (tag, seq, d))
    # the same questions to a fresh analysis
    for f in ("trace.txt", "irreps.dat", "p.dat", "x.sym"):
        if os.path.exists(f):
            os.remove(f)
    b3 = analyse(int(rng.integers(0, 3)))        # what is printed on the way has no effect
    d = differs(summary(b3), first, 1e-9)
    ctx.require(not d, "not-repeatable", "%s: a second analysis differs: %s" % (tag, d))
    rs = rng.bit_generator.state
    now = {f: h for f, h in digest().items() if not f.startswith(("other", "partner", "twin", "concurrent"))}
    ctx.event("files_digested", len(d0))
    ctx.require(now == d0, "files-touched", lambda: "%s: %s" % (tag, sorted(f for f in set(d0) | set(now) if now.get(f) != d0.get(f))))
    ctx.require(all(os.stat(f).st_mtime_ns == t for f, t in st0.items()), "files-touched", "%s: modification times" % tag)
    rng.bit_generator.state = rs
    # ------------------------------------------------ b: no trace of former results
    cl = cli_files(files) + ["-degenThresh=%g" % LEVEL_TOL, "-trans_thresh=1e-4", "-kpnames=" + ",".join(names), "-plotbands", "-suffix=q", "-EF=auto",
                             "-refUC=" + ",".join("%.12g" % x for x in ref.T.ravel()), "-shiftUC=" + ",".join("%.12g" % x for x in S.shiftUC)]
    if code != "espresso":
        cl += ["-writesym", "-alat=4.2"] + (["-prefix=out"] if "prefix" not in files else [])
    else:
        cl += ["-writesym"]

    def outputs():
        return {f: open(f).read() for f in os.listdir(".") if os.path.isfile(f) and f not in d0}
    rc, t1 = run_cli(cl)
    o1 = outputs()
    ctx.require(rc == 0, "cli", tag)
    # leave something old and longer in every file that is written
    for f in o1:
        open(f, "w").write("STALE CONTENT\n" * 3 + o1[f] + "STALE 1.0 2.0\n" * 200)
    rc, t2 = run_cli(cl)
    o2 = outputs()
    ctx.event("stale_runs")
    ctx.require(rc == 0, "cli", tag)
    d = differs(o2, o1) or text_differs(t2, t1)
    ctx.require(not d, "stale", "%s: a run over the files of a former run differs: %s" % (tag, d))
    now = {f: h for f, h in digest().items() if f in d0}
    ctx.require(now == d0, "files-touched", lambda: "%s: the program changed %s" % (tag, sorted(f for f in d0 if now.get(f) != d0[f])))
    # ------------------------------------------------ c: other processes
    if job["sub"]:
        for i, ev in enumerate([dict(PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1"), dict(PYTHONHASHSEED=str(int(rng.integers(1, 9999)))),
                                dict(PYTHONHASHSEED="random", LC_ALL="C", PYTHONOPTIMIZE="", TZ="Asia/Tokyo", LANG="C")]):
            for f in o1:
                os.remove(f)
            e = dict(os.environ, **ev)
            e["PYTHONPATH"] = os.pathsep.join(p for p in sys.path if p)
            r = subprocess.run([sys.executable, "-W", "ignore", "-c", "from irrep.cli import cli; cli()"] + cl, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200)
            ctx.event("subprocess_runs")
            if not ctx.require(r.returncode == 0, "subprocess", "%s %s: exit %s %s" % (tag, ev, r.returncode, r.stderr[-400:])):
                return
            d = differs(outputs(), o1) or text_differs(r.stdout, t1)
            ctx.require(not d, "environment", "%s: with %s: %s" % (tag, ev, d))
            ctx.distinct("environment", i, code)
