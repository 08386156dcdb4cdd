"""C21: input that cannot be analysed correctly is refused, never silently analysed."""
import os
import re
import shutil
import struct
import numpy as np
from vlib.case import *
from vlib.runner import quiet
from vlib import writers
from vlib.crystals import random_rotation, std_ops
from vlib.pw import HA, BOHR_A, KData

PROP = "C21"
RULE = ("one case = random crystal and wavefunctions in one interface, accepted by the program; then one fault at a time is put into the files or "
        "the options and the program must refuse (an error, and no results written); distinct = (code, spinor, fault, interface)")
MINIMUM = {"baselines": 60, "faults": 600}
ASSUMPTIONS = ["any exception or non-zero exit is a refusal; its type and text are not judged",
               "only faults which make the results wrong or meaningless; the same input without the fault is accepted first"]
CPU = 60


def jobs(tier, seed):
    rng = np.random.default_rng(seed + 21)
    n = 480 if tier == "quick" else 900
    return [dict(sg=int(rng.integers(1, 231)), rep=i, spinor=bool((i // 4) % 2), code=["vasp", "abinit", "espresso", "wannier90"][i % 4]) for i in range(n)]


def edit(path, fun, binary=False):
    m = "b" if binary else ""
    with open(path, "r" + m) as f:
        s = f.read()
    s2 = fun(s)
    assert s2 != s, "fault not injected in " + path
    with open(path, "w" + m) as f:
        f.write(s2)


def cut(path, frac):
    n = os.path.getsize(path)
    with open(path, "r+b") as f:
        f.truncate(int(n * frac))


def sub1(pat, rep):
    return lambda s: re.sub(pat, rep, s, count=1, flags=re.S)


# Each fault: (name, function(case, args, rng) -> None or changed args). It runs in a
# directory with the correct files.

def vasp_faults(case, rng):
    C = case.C

    def pos(**kw):
        writers.write_poscar("POSCAR", C.lattice, C.positions, C.numbers, **kw)

    def wav(**kw):
        writers.write_wavecar("WAVECAR", C.lattice, case.ecut, case.kds, **kw)

    def latdiff(a):
        L = np.array(C.lattice, float)
        how = int(rng.integers(4))
        if how == 0:         # same shape, another orientation
            L = L @ random_rotation(rng).T
        elif how == 1:
            L = L[[1, 2, 0]]
        if how > 1 or np.abs(L - C.lattice).max() < .01:
            i, j = rng.integers(0, 3, 2)
            L[i, j] += rng.choice([.004, .05, -.1, 0.5])
        writers.write_wavecar("WAVECAR", L, case.ecut, case.kds)

    def drop_position(a):
        edit("POSCAR", lambda s: "\n".join(s.rstrip("\n").split("\n")[:-1]) + "\n")

    def count_up(a):
        L = open("POSCAR").read().split("\n")
        c = L[6].split()
        c[-1] = str(int(c[-1]) + 1)
        L[6] = " ".join(c)
        open("POSCAR", "w").write("\n".join(L))

    def badnum(a):
        L = open("POSCAR").read().split("\n")
        L[3] = "  1.0  abc  0.0"
        open("POSCAR", "w").write("\n".join(L))

    out = [("lattice-mismatch", latdiff), ("double-precision", lambda a: wav(iprec=int(rng.choice([45210, 53300, 53310, 45200 + 10])))),
           ("spin-polarised", lambda a: wav(ispin=2)), ("no-spinor", lambda a: a.update(spinor=None)),
           ("wrong-spinor", lambda a: a.update(spinor=not case.spinor)),
           ("mode-word", lambda a: pos(mode_word=str(rng.choice(["Fractional", "xyz", "bohr", "reciprocal"])))),
           ("missing-position", drop_position), ("extra-count", count_up), ("bad-lattice", badnum),
           ("no-POSCAR", lambda a: os.remove("POSCAR")), ("no-WAVECAR", lambda a: os.remove("WAVECAR")),
           ("truncated", lambda a: cut("WAVECAR", float(rng.choice([0.05, .3, .5, .8])))), ("empty", lambda a: cut("WAVECAR", 0))]

    def wrong_cutoff(a):
        # a sphere with another number of plane waves
        e2 = case.ecut * float(rng.choice([.6, 1.6]))
        writers.write_wavecar("WAVECAR", C.lattice, e2, case.kds)
    out.append(("cutoff-vs-planewaves", wrong_cutoff))

    def shells(a):
        # as many plane waves as within some shells of constant |g1|+|g2|+|g3|
        kds = []
        for kd in case.kds:
            n = np.abs(kd.G).sum(1)
            keep = np.where(n < n.max())[0]
            c = KData()
            c.k, c.G, c.E, c.spinor = kd.k, kd.G[keep], kd.E, kd.spinor
            c.C = kd.C[:, np.concatenate([keep, keep + len(kd.G)])] if kd.spinor else kd.C[:, keep]
            kds.append(c)
        writers.write_wavecar("WAVECAR", C.lattice, case.ecut, kds)
    out.append(("fewer-planewaves", shells))
    return out


def abinit_faults(case, rng):
    C = case.C
    B = reclat(np.asarray(C.lattice) / BOHR_A)
    ec = max((((k.G + k.k) @ B) ** 2).sum(1).max() for k in case.kds) / 2 * (1 + 1e-6)

    def w(**kw):
        writers.write_abinit("o_WFK", C.lattice, C.positions, C.numbers, ec, case.kds, **kw)
    nk = len(case.kds)
    ist = [1] * nk
    ist[int(rng.integers(nk))] = int(rng.integers(2, 10))

    def low(a):
        writers.write_abinit("o_WFK", C.lattice, C.positions, C.numbers, ec * float(rng.choice([.3, .7, .99])), case.kds)
    return [("cutoff-below-planewaves", low), ("headform", lambda a: w(headform=int(rng.choice([57, 53, 79, 44])))), ("nsppol", lambda a: w(nsppol=2)),
            ("occopt", lambda a: w(occopt=9)), ("nspinor", lambda a: w(nspinor=int(rng.choice([0, 3, 4])))),
            ("istwfk", lambda a: w(istwfk=ist)), ("istwfk-all", lambda a: w(istwfk=2)),
            ("nspinor-other", lambda a: w(nspinor=1 if case.spinor else 2)),
            ("truncated", lambda a: cut("o_WFK", float(rng.choice([.02, .3, .6, .9])))), ("empty", lambda a: cut("o_WFK", 0)),
            ("no-file", lambda a: os.remove("o_WFK"))]


def espresso_faults(case, rng):
    xml = "pre.save/data-file-schema.xml"
    nk = len(case.kds)
    ik = int(rng.integers(1, nk + 1))
    C = case.C
    B = reclat(np.asarray(C.lattice) / BOHR_A)
    ec = max((((k.G + k.k) @ B) ** 2).sum(1).max() for k in case.kds) / 2 * (1 + 1e-6)

    def polarised(a, **kw):
        shutil.rmtree("pre.save")
        writers.write_espresso("pre", C.lattice, C.positions, C.numbers, ec, case.kds, kds_dw=case.kds, **kw)

    def badchannel(a):
        polarised(a)
        a.update(spin_channel=str(rng.choice(["left", "u", "updown", "1"])))

    def npw(a):
        m = re.search(r"<npw>(\d+)</npw>", open(xml).read())
        edit(xml, sub1(r"<npw>\d+</npw>", "<npw>%d</npw>" % (int(m.group(1)) + int(rng.choice([-1, 1])))))
    out = [("channel-unpolarised", lambda a: a.update(spin_channel=str(rng.choice(["up", "dw", "down"])))),
           ("species-count", lambda a: edit(xml, sub1(r'ntyp="(\d+)"', 'ntyp="9"'))),
           ("unknown-species", lambda a: edit(xml, sub1(r'<atom name="\w+"', '<atom name="Zz"'))),
           ("no-wfc", lambda a: os.remove("pre.save/wfc%d.dat" % ik)), ("no-xml", lambda a: os.remove(xml)),
           ("truncated-wfc", lambda a: cut("pre.save/wfc%d.dat" % ik, float(rng.choice([.05, .4, .9])))),
           ("truncated-xml", lambda a: cut(xml, float(rng.choice([.3, .6, .9])))),
           ("npw-mismatch", npw),
           ("noncolin-flag", lambda a: edit(xml, sub1("<noncolin>\\w+<", "<noncolin>%s<" % ("false" if case.spinor else "true")))),
           ("noncolin-garbage", lambda a: edit(xml, sub1("<noncolin>\\w+<", "<noncolin>perhaps<"))),
           ("cutoff-below-planewaves", lambda a: edit(xml, sub1("<ecutwfc>.*?</ecutwfc>", "<ecutwfc>%.12e</ecutwfc>" % (ec * float(rng.choice([.3, .7, .99])))))),
           ("no-cutoff", lambda a: edit(xml, sub1("<ecutwfc>.*?</ecutwfc>", ""))),
           ("no-cell-vector", lambda a: edit(xml, sub1("<a2>.*?</a2>", "")))]
    if not case.spinor:
        out += [("polarised-no-channel", polarised), ("polarised-bad-channel", badchannel)]
    else:
        out += [("polarised-noncollinear", lambda a: (polarised(a, noncolin=True), a.update(spin_channel="up")))]
    return out


def w90_faults(case, rng):
    nk, nb = len(case.kds), case.nb
    ext = "NC" if case.spinor else "1"
    ik = int(rng.integers(1, nk + 1))
    unk = "UNK%05d.%s" % (ik, ext)

    def win(f):
        return lambda a: edit("wann.win", f)

    def eig(f):
        def g(a):
            L = [l for l in open("wann.eig").read().split("\n") if l.strip()]
            L = f(L)
            open("wann.eig", "w").write("\n".join(L) + "\n")
        return g

    def swapcol(c):
        def f(L):
            i = int(rng.integers(len(L)))
            t = L[i].split()
            t[c] = str(int(t[c]) + int(rng.choice([-1, 1])))
            return L[:i] + ["  ".join(t)] + L[i + 1:]
        return f

    def setint(pos_, v):
        def g(a):
            with open(unk, "r+b") as f:
                f.seek(4 + 4 * pos_)
                f.write(struct.pack("<i", v))
        return g

    def dup_param(s):
        n = str(rng.choice(["num_bands", "spinors", "mp_grid"]))
        m = re.search(r"^%s.*$" % n, s, re.M)
        return s + "\n" + m.group(0) + "\n"

    def drop_param(s):
        n = str(rng.choice(["num_bands", "spinors", "mp_grid"]))
        return re.sub(r"^%s.*\n" % n, "", s, flags=re.M)

    def dup_block(s):
        n = str(rng.choice(["unit_cell_cart", "atoms_frac", "kpoints"]))
        m = re.search(r"begin %s.*?end %s" % (n, n), s, re.S)
        return s + "\n" + m.group(0) + "\n"

    def bad_end(s):
        n = str(rng.choice(["unit_cell_cart", "atoms_frac", "kpoints"]))
        return s.replace("end " + n, "end something_else")

    def no_end(s):
        n = str(rng.choice(["unit_cell_cart", "atoms_frac", "kpoints"]))
        return s.replace("end " + n + "\n", "")

    def drop_block(s):
        n = str(rng.choice(["unit_cell_cart", "atoms_frac", "kpoints"]))
        return re.sub(r"begin %s.*?end %s\n" % (n, n), "", s, flags=re.S)

    def kcount(s):
        m = re.search(r"begin kpoints\n(.*?)end kpoints", s, re.S)
        rows = m.group(1).rstrip("\n").split("\n")
        rows = rows[:-1] if rng.random() < .5 else rows + ["0.1 0.2 0.3"]
        return s.replace(m.group(1), "".join(r + "\n" for r in rows))
    out = [("no-Ecut", lambda a: a.pop("Ecut")), ("no-win", lambda a: os.remove("wann.win")), ("no-eig", lambda a: os.remove("wann.eig")),
           ("no-unk", lambda a: os.remove(unk)), ("duplicate-parameter", win(dup_param)), ("missing-parameter", win(drop_param)),
           ("duplicate-block", win(dup_block)), ("wrong-end", win(bad_end)), ("unclosed-block", win(no_end)), ("missing-block", win(drop_block)),
           ("k-count", win(kcount)), ("two-values", win(sub1(r"(num_bands.*?)\n", r"\1 7\n"))),
           ("spinors-garbage", win(sub1(r"(spinors\s*=\s*)\S+", r"\1maybe"))),
           ("unknown-atoms-block", win(lambda s: s.replace("atoms_frac", "atoms_polar"))),
           ("eig-short", eig(lambda L: L[:-1])), ("eig-long", eig(lambda L: L + L[-1:])),
           ("eig-k-index", eig(swapcol(1))), ("eig-band-index", eig(swapcol(0))),
           ("eig-order", eig(lambda L: L[1:2] + L[:1] + L[2:])),
           ("unk-k-number", setint(3, ik + int(rng.choice([-1, 1])))), ("unk-bands", setint(4, nb + int(rng.choice([-1, 1])))), ("unk-grid", setint(0, 1 + int(rng.integers(2, 5)) * 37)),
           ("unk-truncated", lambda a: cut(unk, float(rng.choice([.05, .5, .95]))))]
    return out


def option_faults(case, code, rng):
    """Faults in the options; they apply to any interface.  (name, changes of the arguments, names of k points)."""
    nb, nk = case.nb, len(case.kds)
    out = [("code", dict(code=str(rng.choice(["siesta", "qe", "vasp5", "wannier", ""])))),
           ("EF", dict(EF=str(rng.choice(["abc", "aut", "1,5", "fermi"])))),
           ("no-bands", dict(IBstart=nb + int(rng.integers(1, 4)))),
           ("inverted-bands", dict(IBstart=nb, IBend=nb - 1) if nb > 1 else dict(IBstart=nb + 1)),
           ("singular-refUC", dict(refUC=np.array([[1., 0, 0], [0, 1, 0], [1, 1, 0]]), shiftUC=np.zeros(3), search_cell=True)),
           ("wrong-refUC", dict(refUC=np.array([[.3, .1, 0], [0, 1.7, .2], [.1, 0, .9]]), shiftUC=np.zeros(3), search_cell=True)),
           ("kplist-0d", dict(kplist=7.5)),
           ("refUC-shape", dict(refUC=np.ones((2, 3)), shiftUC=np.zeros(3))),
           ("missing-sym", dict(from_sym_file="nothere.sym", alat=1.0))]
    return out


def run(job, ctx, rng):
    sg, spinor, code = job["sg"], job["spinor"], job["code"]
    tk = table_kpts(sg, spinor)
    pick = [tk[int(i)] for i in rng.choice(len(tk), min(len(tk), 2), replace=False)]
    C = tame_crystal(sg, rng)

    names = [kp.name for kp, _ in pick]
    from irrep.bandstructure import BandStructure

    S = get_sg(C, spinor, search_cell=True, trans_thresh=1e-4)
    ref = np.asarray(S.refUC, float)
    kpts = [np.linalg.inv(ref.T) @ k for _, k in pick]
    case = build(rng, sg, spinor, crystal=C, kpts=kpts, npw=36)

    def analyse(files, opts, kpn):
        a = dict(files)
        a["degen_thresh"] = LEVEL_TOL
        a["calculate_traces"] = True
        a["trans_thresh"] = 1e-4
        a["search_cell"] = True
        a.update(opts)
        with quiet():
            b = BandStructure(**a)
            b.identify_irreps(kpn)
            b.write_characters()
            return b.json(kpn)
    cur = os.getcwd()

    def fresh(name):
        d = os.path.join(cur, name)
        os.mkdir(d)
        os.chdir(d)
        return {k: (os.path.basename(v) if k in ("fWAV", "fPOS", "fWFK", "prefix") else v) for k, v in write_code(case, code, ".", rng).items()}
    files = fresh("base")
    res = analyse(files, {}, names)
    ctx.event("baselines")
    ctx.require(all(k["kpname"] for k in res["k points"]), "baseline", "no names")
    os.chdir(cur)
    faults = {"vasp": vasp_faults, "abinit": abinit_faults, "espresso": espresso_faults, "wannier90": w90_faults}[code](case, rng)
    n = 0

    def refused(name, files, opts, kpn, via):
        tag = "SG %d %s spinor=%s fault=%s via %s" % (sg, code, spinor, name, via)
        ctx.event("faults")
        ctx.event("fault:" + name)
        ctx.distinct(code, spinor, name, via)
        out = None
        if via == "python":
            try:
                out = analyse(files, opts, kpn)
            except (Exception, SystemExit) as e:
                ctx.event("refusal:" + type(e).__name__)
                if isinstance(e, SystemExit) and not e.code:
                    ctx.violation("silent-exit", tag)
                return
            ctx.violation("accepted:" + name, "%s: analysed as if nothing was wrong: %s" % (tag, str(out)[:300]))
        else:
            args = cli_files(files) + ["-degenThresh=%g" % LEVEL_TOL, "-trans_thresh=1e-4", "-kpnames=" + ",".join(kpn)]
            for k, v in opts.items():
                args.append("-%s=%s" % (k, v))
            try:
                code_, outp = run_cli(args)
            except Exception as e:
                ctx.event("refusal:" + type(e).__name__)
                code_ = 1
            if not ctx.require(code_ != 0, "cli-accepted:" + name, "%s: exit status 0" % tag):
                return
            left = [f for f in ("irrep-output.json", "trace.txt", "irreps.dat") if os.path.exists(f)]
            ctx.require(not left, "cli-results:" + name, "%s: refused, but left %s" % (tag, left))

    for i, (name, fault) in enumerate(faults):
        f = fresh("f%d" % i)
        opts = {}
        extra = {}
        try:
            fault(f)
        finally:
            pass
        via = "cli" if rng.random() < .35 and name not in ("no-spinor", "wrong-spinor") and "channel" not in name and "polarised-non" not in name else "python"
        refused(name, f, opts, names, via)
        os.chdir(cur)
    # options
    for i, (name, ch) in enumerate(option_faults(case, code, rng)):
        f = fresh("o%d" % i)
        f.update(ch)
        refused(name, f, {}, names, "python")
        os.chdir(cur)
    # names of k points
    f = fresh("names")
    bad = list(names)
    i = int(rng.integers(len(bad)))
    known = {kp.name for kp, _ in tk}
    # also part of a name, or a name with something else
    like = [x for x in (bad[i][:-1], bad[i] + "1", bad[i] + "A", bad[i].lower(), bad[i] + " ", "-" + bad[i]) if x and x not in known and "," not in x]
    bad[i] = str(rng.choice(["QQQ", "gm", "GM'", "None1"] + like * 2))
    refused("unknown-kname", f, {}, bad, str(rng.choice(["cli", "python"])))
    others = [kp.name for kp, k in tk if all(not same_star(ref, k, k2) for _, k2 in pick)]
    if others:
        bad = list(names)
        bad[int(rng.integers(len(bad)))] = str(rng.choice(others))
        if bad != names:
            refused("other-kname", f, {}, bad, str(rng.choice(["cli", "python"])))
    # a point close to the named one
    shift = np.zeros((len(kpts), 3))
    shift[int(rng.integers(len(kpts))), int(rng.integers(3))] = float(rng.choice([.001, -.004, .02, -.05]))
    near = build(rng, sg, spinor, crystal=C, kpts=list(np.array(kpts) + shift), npw=20)
    os.chdir(cur)
    os.mkdir("near")
    os.chdir("near")
    f2 = {k: (os.path.basename(v) if k in ("fWAV", "fPOS", "fWFK", "prefix") else v) for k, v in write_code(near, code, ".", rng).items()}
    refused("k-point-near-the-named", f2, {}, names, str(rng.choice(["cli", "python"])))
    os.chdir(os.path.join(cur, "names"))
    strange_cell(case, f, ctx, rng)
    if len(names) > 1:
        refused("too-few-names", f, {}, names[:1], "python")
    os.chdir(cur)
    if code in ("vasp", "espresso"):
        half_sphere(code, ctx, rng, refused, analyse)
    os.chdir(cur)
    analysis_faults(case, code, ctx, rng, fresh, refused, names)
    os.chdir(cur)


def strange_cell(case, files, ctx, rng):
    """A reference cell which is not invariant: the operations have no integer matrices in it.  Nothing is compared with the tables."""
    for _ in range(10):
        X = np.round([np.diag(rng.choice([1, 1.3, .7, 1.1], 3)), np.eye(3) + rng.choice([0, 0, .3, -.2, .05], (3, 3))][int(rng.integers(2))], 6)
        if abs(np.linalg.det(X)) < .2:
            continue
        dev = max(np.abs(M - np.round(M)).max() for M in (np.linalg.inv(X) @ R @ X for R, t in case.C.ops))
        if dev > 1e-2:
            break
    else:
        return
    ctx.event("faults")
    ctx.event("fault:strange-cell")
    ctx.distinct(case.code if hasattr(case, "code") else "", case.spinor, "strange-cell")
    # the option has the vectors in its rows
    args = cli_files(files) + ["-degenThresh=%g" % LEVEL_TOL, "-refUC=" + ",".join("%g" % x for x in X.T.ravel())]
    try:
        rc, out = run_cli(args)
    except Exception as e:
        ctx.event("refusal:" + type(e).__name__)
        rc = 1
    left = [f for f in ("irrep-output.json", "trace.txt", "irreps.dat") if os.path.exists(f)]
    ctx.require(rc != 0 and not left, "cli-accepted:strange-cell", "SG %d spinor=%s refUC %s, deviation %.3g: exit %s, %s" % (case.sg, case.spinor, X.tolist(), dev, rc, left))


def half_sphere(code, ctx, rng, refused, analyse):
    """Gamma-only calculations store one of each pair G, -G.  No symmetry, so that nothing else can refuse them."""
    cur = os.getcwd()
    case = build(rng, 1, False, kpts=[np.zeros(3)], npw=36)
    C, kd = case.C, case.kds[0]
    B = reclat(np.asarray(C.lattice) / BOHR_A)
    ec = (((kd.G + kd.k) @ B) ** 2).sum(1).max() / 2 * (1 + 1e-6)
    lead = [tuple(g[::-1]) for g in kd.G]
    keep = np.array([i for i, g in enumerate(lead) if g >= (0, 0, 0)])
    h = KData()
    h.k, h.G, h.E, h.spinor, h.C = kd.k, kd.G[keep], kd.E, False, kd.C[:, keep] * np.where((kd.G[keep] == 0).all(1), 1, np.sqrt(2))

    def files(name, kds, gamma):
        d = os.path.join(cur, name)
        os.mkdir(d)
        os.chdir(d)
        if code == "vasp":
            writers.write_poscar("POSCAR", C.lattice, C.positions, C.numbers)
            writers.write_wavecar("WAVECAR", C.lattice, case.ecut, kds)
            return dict(code="vasp", fWAV="WAVECAR", fPOS="POSCAR", spinor=False)
        writers.write_espresso("pre", C.lattice, C.positions, C.numbers, ec, kds, gamma=gamma)
        return dict(code="espresso", prefix="pre")
    res = analyse(files("whole", case.kds, 0), {}, ["GM"])
    ctx.require(res["k points"][0]["kpname"] == "GM", "half-sphere-baseline", str(res["k points"][0])[:200])
    os.chdir(cur)
    refused("half-sphere", files("half", [h], int(rng.choice([1, -1]))), {}, ["GM"], str(rng.choice(["cli", "python"])))
    os.chdir(cur)


def analysis_faults(case, code, ctx, rng, fresh, refused, names):
    from irrep.bandstructure import BandStructure
    cur = os.getcwd()

    def must(name, fun, distinct=""):
        ctx.event("faults")
        ctx.event("fault:" + name)
        ctx.distinct(code, case.spinor, name, distinct)
        try:
            with quiet():
                out = fun()
        except Exception as e:
            ctx.event("refusal:" + type(e).__name__)
            ctx.event("why:%s:%s" % (name, type(e).__name__))
            return
        ctx.violation("accepted:" + name, "SG %d %s spinor=%s fault=%s: accepted: %s" % (case.sg, code, case.spinor, name, str(out)[:300]))
    # plane waves without their symmetric partners
    if code in ("abinit", "espresso"):
        for ik, kd in enumerate(case.kds):
            orb = []
            for R, t in case.C.ops:
                if not in_little_group(R, kd.k, 1e-6):
                    continue
                RiT = np.round(np.linalg.inv(np.asarray(R, float)).T)
                orb.append(np.round((kd.G + kd.k) @ RiT.T - kd.k).astype(int))
            moved = [g for g in range(len(kd.G)) if any((o[g] != kd.G[g]).any() for o in orb)]
            if not moved:
                continue
            g = int(rng.choice(moved))
            keep = np.delete(np.arange(len(kd.G)), g)
            bad = KData()
            bad.k, bad.G, bad.E, bad.spinor = kd.k, kd.G[keep], kd.E, kd.spinor
            bad.C = kd.C[:, np.concatenate([keep, keep + len(kd.G)])] if kd.spinor else kd.C[:, keep]
            kds = list(case.kds)
            kds[ik] = bad
            d = os.path.join(cur, "pw")
            os.mkdir(d)
            os.chdir(d)
            a = write_code(case, code, ".", rng, kds=kds)
            refused("unpaired-plane-wave", {k: v for k, v in a.items()}, {}, names, "python")
            os.chdir(cur)
            break
    # separation
    f = fresh("sep")
    with quiet():
        b = BandStructure(calculate_traces=True, degen_thresh=LEVEL_TOL, **f)
        b.identify_irreps(None)
    ops = b.spacegroup.symmetries
    outside = [s.ind for s in ops if any(not in_little_group(s.rotation, kd.k, 1e-6) for kd in case.kds)]
    if outside:
        o = int(rng.choice(outside))
        must("separate-outside-little-group", lambda: b.Separate(o, degen_thresh=LEVEL_TOL, groupKramers=False))
        if rng.random() < .4:
            ctx.event("faults")
            try:
                c, _ = run_cli(cli_files(f) + ["-degenThresh=%g" % LEVEL_TOL, "-isymsep=%d" % o])
            except Exception:
                c = 1
            ctx.require(c != 0, "cli-accepted:separate-outside-little-group", "SG %d %s op %d" % (case.sg, code, o))
            ctx.distinct(code, case.spinor, "separate-outside", "cli")
    nope = int(rng.choice([0, -1, -len(ops), len(ops) + 1, len(ops) + 3, 1000]))
    must("separate-no-such-op", lambda: b.Separate(nope, degen_thresh=LEVEL_TOL, groupKramers=bool(rng.random() < .5)), np.sign(nope))
    if rng.random() < .4:
        ctx.event("faults")
        sep = str(nope) if rng.random() < .5 else "1,%d" % nope
        try:
            c, _ = run_cli(cli_files(f) + ["-degenThresh=%g" % LEVEL_TOL, "-isymsep=" + sep])
        except Exception:
            c = 1
        ctx.require(c != 0, "cli-accepted:separate-no-such-op", "SG %d %s -isymsep=%s of %d operations" % (case.sg, code, sep, len(ops)))
        ctx.distinct(code, case.spinor, "separate-no-such-op", "cli", np.sign(nope))
    # symmetric levels cut by the selection of bands: the eigenvalues within the selection are not unitary
    for kd, kp in zip(case.kds, b.kpoints):
        lv = [(x, y) for x, y in kd.levels(LEVEL_TOL) if y - x > 1]
        if not lv:
            continue
        x, y = lv[int(rng.integers(len(lv)))]
        sel = None
        for s, (R, t) in zip(ops, [(s.rotation, s.translation) for s in ops]):
            if s.ind == 1 or not in_little_group(R, kd.k, 1e-6):
                continue
            D = op_matrix(kd, R, t, s.spinor_rotation, rows=np.arange(x, y))
            if abs(abs(D[0, 0]) - 1) > .4:
                sel = s.ind
        if sel:
            ik = [i for i, k in enumerate(case.kds) if k is kd][0]

            def cutlevel():
                bb = BandStructure(calculate_traces=True, degen_thresh=LEVEL_TOL, IBstart=x + 1, IBend=x + 1, kplist=np.array([ik + 1]), **f)
                bb.identify_irreps(None)
                return bb.Separate(sel, degen_thresh=LEVEL_TOL, groupKramers=bool(rng.random() < .5))
            must("separate-cut-level", cutlevel)
            break
    # unfolding onto a point that does not fold onto this one
    M = np.diag([2, 1, 3]) if rng.random() < .5 else np.array([[1, 1, 0], [-1, 1, 0], [0, 0, 1]])
    kp, kd = b.kpoints[0], case.kds[0]
    q = np.linalg.inv(M) @ (kd.k + rng.choice([.1, -.25, .5]) * np.eye(3)[int(rng.integers(3))])
    must("unfold-incompatible", lambda: kp.unfold(M, q))
    # symmetries from a file
    b.spacegroup.write_sym_file("ok.sym", alat=1.0)
    L = open("ok.sym").read().rstrip("\n").split("\n")
    open("short.sym", "w").write("\n".join(L[:-1]) + "\n")
    a = dict(f, onlysym=True)
    with quiet():
        BandStructure(from_sym_file="ok.sym", alat=1.0, **a)
    if code != "espresso":
        must("sym-file-no-alat", lambda: BandStructure(from_sym_file="ok.sym", **a))
    must("sym-file-short", lambda: BandStructure(from_sym_file="short.sym", alat=1.0, **a))
    rows = [i for i, l in enumerate(L) if len(l.split()) == 3]
    i = int(rng.choice([r for n, r in enumerate(rows) if n % 4 != 3]))
    v = np.array(L[i].split(), float)
    v[int(rng.integers(3))] += float(rng.choice([.37, -.05, .01]))
    L[i] = "  ".join("%.9f" % x for x in v)
    open("bad.sym", "w").write("\n".join(L) + "\n")
    must("sym-file-not-a-lattice-symmetry", lambda: BandStructure(from_sym_file="bad.sym", alat=1.0, **a))
    # irreps are those of the group of the tables: all its operations, in the reference cell
    def irreps(**kw):
        bb = BandStructure(calculate_traces=True, degen_thresh=LEVEL_TOL, trans_thresh=1e-4, **kw, **f)
        bb.identify_irreps(names)
        return [kp.irreps for kp in bb.kpoints]
    s = ops[int(rng.integers(len(ops)))]
    gen, R, t = [], np.eye(3, dtype=int), np.zeros(3)
    while True:
        gen.append((R, t))
        R, t = np.asarray(s.rotation) @ R, np.asarray(s.rotation) @ t + s.translation
        if np.array_equal(R, np.eye(3)):
            break
    lat = np.asarray(case.C.lattice)
    if len(gen) < len(ops):
        with open("sub.sym", "w") as g:
            g.write(" %d\n" % len(gen))
            for R, t in gen:
                for row in np.vstack([lat.T @ R @ np.linalg.inv(lat.T), -(t @ lat) / BOHR_A]):
                    g.write("\n" + " ".join("%20.15f" % x for x in row))
        must("irreps-of-subgroup", lambda: irreps(from_sym_file="sub.sym", alat=1.0, search_cell=bool(rng.random() < .7)), len(gen))
    std = std_ops(case.sg)[0]
    own = all(any(np.array_equal(R, r) and np.abs((d := t - u) - np.round(d)).max() < 1e-3 for r, u in std) for R, t in case.C.ops)
    if not own:
        must("irreps-in-another-cell", irreps)
    from irreptables import IrrepTable
    must("table-number", lambda: IrrepTable(int(rng.choice([0, 231, -3, 1000])), bool(rng.random() < .5)))
    os.chdir(cur)


def same_star(ref, k1, k2):
    """Same point modulo the reciprocal lattice of the crystal (coordinates of the reference cell)."""
    P = ref
    d = np.linalg.inv(P.T) @ (np.asarray(k1, float) - np.asarray(k2, float))
    return np.abs(d - np.round(d)).max() < 1e-6
