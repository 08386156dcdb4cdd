"""C18: the file prefix.sym describes the operations, and reading it back gives them."""
import os
import numpy as np
from vlib.case import *
from vlib.su2 import cart_rotation, su2_to_so3
from vlib.pw import BOHR_A, in_little_group
from vlib.runner import quiet
from vlib.tables import read_table

PROP = "C18"
RULE = ("one case = random crystal in a random cell and orientation; the .sym file written (API, with and without alat; CLI -writesym for "
        "every interface) is parsed by an independent reader and compared with the crystal's operations acting as r -> rR - t on cartesian "
        "positions in units of alat; independent files (any order, subgroups, translations shifted by lattice vectors, blank lines) are read "
        "back and give exactly those operations, and traces computed with them are exact; distinct = (SG, way, alat)")
MINIMUM = {"files_written": 300, "ops_written": 2000, "files_read": 300, "ops_read": 2000, "atoms_mapped": 2000, "cli": 30, "traces": 500, "centred": 15, "refcell_traces": 400, "refcell_traces_subgroup": 50}
ASSUMPTIONS = ["alat in Bohr (Quantum ESPRESSO's convention), positions in angstrom"]


def jobs(tier, seed):
    rng = np.random.default_rng(seed + 18)
    out = []
    for rep in range(2 if tier == "quick" else 12):
        for sg in range(1, 231):
            out.append(dict(sg=sg, rep=rep, spinor=bool(rng.random() < .5), wf=bool(rng.random() < (.3 if tier == "quick" else .5))))
    return out


def parse_sym(path):
    tok = open(path).read().split()
    n = int(tok[0])
    a = np.array([float(x) for x in tok[1:]])
    if len(a) != 12 * n:
        return None
    return a.reshape(n, 4, 3)


def write_sym(path, ops, lat, alat, rng, style):
    with open(path, "w") as f:
        f.write("  %d\n" % len(ops))
        for R, t in ops:
            O = cart_rotation(R, lat)
            # acting on rows r R - t
            tc = -(np.asarray(t) @ lat) / (alat * BOHR_A)
            if style % 2 == 0:
                f.write("\n")
            for row in np.vstack([O, tc]):
                f.write(("  ".join("%20.15f" % x for x in row) if style < 2 else " ".join("%.17e" % x for x in row)) + "\n")


def same_lattice_translation(d, tol):
    d = np.asarray(d)
    return np.abs(d - np.round(d)).max() < tol


def run(job, ctx, rng):
    from irrep.spacegroup import SpaceGroup
    sg, spinor = job["sg"], job["spinor"]
    kw = {}
    centred = False
    if job["wf"]:
        case = build(rng, sg, spinor, kpts=[rng.choice([0, .5], 3), rng.uniform(-.5, .5, 3)], npw=30, nb=8)
        C = case.C
    else:
        conv = bool(rng.random() < .25 or (sg in (225, 226, 227, 228) and job["rep"] == 0))         # centred cells: several operations with one rotation
        C = make_crystal(sg, rng, lefthanded=bool(rng.random() < .3), volume=float(rng.uniform(25, 60)), conventional=conv)
        centred = conv and C.ncent > 1
        if centred:
            ctx.event("centred")
            C.ops = [(R, t + C.P @ c) for R, t in C.ops for c in std_ops(sg)[1]]
            ctx.worst("most_operations", len(C.ops))
    lat = np.asarray(C.lattice)
    alat = float(rng.choice([1.0, np.linalg.norm(lat[0]) / BOHR_A, 10.26, 0.37]))
    tag = "SG %d alat=%.3f" % (sg, alat)
    inv = np.linalg.inv(lat)

    def check_file(path, alat, how):
        a = parse_sym(path)
        ctx.event("files_written")
        if not ctx.require(a is not None, "sym-format", how + tag):
            return
        if not ctx.close("sym-count", len(a), len(C.ops), 0, how + tag):
            return
        used = set()
        for X in a:
            ctx.event("ops_written")
            O = X[:3]
            ctx.close("sym-orthogonal", O @ O.T, np.eye(3), 1e-7, how + tag)
            # columns of positions: x -> O x - t*alat
            Rf = np.linalg.inv(lat.T) @ O @ lat.T
            m = [i for i, (R, t) in enumerate(C.ops) if np.abs(Rf - R).max() < 1e-6
                 and same_lattice_translation(-X[3] * alat * BOHR_A @ inv - t, 1e-5)]
            if ctx.require(len(m) == 1, "sym-operation", lambda: "%s%s not an operation of the crystal: %s" % (how, tag, X.round(5).tolist())):
                used.add(m[0])
            cart = C.positions @ lat
            im = (cart @ O.T - X[3] * alat * BOHR_A) @ inv
            d = im[:, None] - C.positions[None]
            d -= np.round(d)
            near = np.abs(d).max(axis=2)
            j = near.argmin(axis=1)
            ctx.event("atoms_mapped", len(j))
            ctx.require(near.min(axis=1).max() < 1e-4 and np.array_equal(np.asarray(C.numbers)[j], C.numbers), "sym-atoms",
                        lambda: how + tag + " atoms are not mapped onto atoms")
        ctx.close("sym-complete", len(used), len(C.ops), 0, how + tag)

    tame_kw = dict(trans_thresh=1e-4)
    with quiet():
        S = SpaceGroup(C.cell(), spinor=spinor, alat=alat, search_cell=bool(rng.random() < .5) and not centred, **tame_kw)
        S.write_sym_file("a.sym")
    check_file("a.sym", alat, "own alat: ")
    with quiet():
        S.write_sym_file("b.sym", alat=2 * alat)
    check_file("b.sym", 2 * alat, "given alat: ")
    if rng.random() < .3:
        with quiet():
            S2 = SpaceGroup(C.cell(), spinor=spinor)
            S2.write_sym_file("c.sym")
        check_file("c.sym", 1.0, "no alat: ")
    ctx.distinct(sg, "write", alat == 1.0)

    # reading back
    def check_read(S, ops, how, exact_t=False):
        ctx.event("files_read")
        if not ctx.close("read-count", len(S.symmetries), len(ops), 0, how + tag):
            return
        ctx.close("read-order", S.order, len(ops), 0, how + tag)
        left = list(range(len(ops)))
        for s in S.symmetries:
            ctx.event("ops_read")
            m = [i for i in left if np.array_equal(np.asarray(s.rotation), ops[i][0]) and same_lattice_translation(np.asarray(s.translation) - ops[i][1], 1e-5)]
            if ctx.require(len(m) >= 1, "read-operation", lambda: "%s%s %s %s" % (how, tag, np.asarray(s.rotation).tolist(), s.translation)):
                left.remove(m[0])
            if spinor:
                O = cart_rotation(s.rotation, lat)
                ctx.close("read-spinor", su2_to_so3(np.asarray(s.spinor_rotation)), O * np.sign(np.linalg.det(O)), 1e-6, how + tag)
        ctx.require(sorted(s.ind for s in S.symmetries) == list(range(1, len(ops) + 1)), "read-indices", how + tag)
    with quiet():
        S3 = SpaceGroup(C.cell(), spinor=spinor, alat=alat, from_sym_file="a.sym", **tame_kw)
    check_read(S3, C.ops, "round trip: ")
    # an independent file: any order, lattice translations added, possibly a subgroup
    ops = [(R, t + rng.integers(-1, 2, 3)) for R, t in C.ops]
    sub = rng.random() < (.65 if job["wf"] else .4)
    if sub and len(ops) > 1:
        # cyclic subgroup generated by one operation (modulo lattice)
        R0, t0 = ops[int(rng.integers(len(ops)))]
        gen, R, t = [], np.eye(3, dtype=int), np.zeros(3)
        while True:
            gen.append((R, t))
            R, t = R0 @ R, R0 @ t + t0
            if np.array_equal(R, np.eye(3)) and same_lattice_translation(t, 1e-6):
                break
        ops = gen
    ops = [ops[i] for i in rng.permutation(len(ops))]
    write_sym("d.sym", ops, lat, alat, rng, int(rng.integers(4)))
    with quiet():
        S4 = SpaceGroup(C.cell(), spinor=spinor, alat=alat, from_sym_file="d.sym", **tame_kw)
    check_read(S4, ops, "independent file: ")
    ctx.distinct(sg, "read", len(ops))
    ctx.close("read-number", S4.number, sg, 0, tag)
    # without its inversion, the origin of a centrosymmetric group is not looked for at the centers
    E1 = -np.eye(3, dtype=int)
    searchable = any(np.array_equal(R, E1) for R, t in ops) == any(np.array_equal(R, E1) for R, t in C.ops)
    if not centred and searchable:
        with quiet():
            S5 = SpaceGroup(C.cell(), spinor=spinor, alat=alat, from_sym_file="d.sym", search_cell=True, **tame_kw)
        check_read(S5, ops, "file, searching the cell: ")
    try:
        with quiet():
            SpaceGroup(C.cell(), spinor=spinor, from_sym_file="d.sym")
        ctx.require(False, "read-without-alat-accepted", tag)
    except (AssertionError, RuntimeError, ValueError):
        ctx.event("oracle_decisions")
    if not job["wf"]:
        return
    # wave functions: traces with the operations of the file, and the file written by each interface
    code = str(rng.choice(["vasp", "abinit", "espresso", "wannier90"]))
    al = float(np.linalg.norm(lat[0]) / BOHR_A)
    unit = al
    if rng.random() < .5:       # a unit given by the user, also for Quantum ESPRESSO, whose files have one
        unit = float(rng.uniform(.6, 2)) * al
        ctx.event("alat_given")
    write_sym("e.sym", ops, lat, unit, rng, int(rng.integers(4)))
    extra = {} if code == "espresso" and unit == al else dict(alat=unit)
    search = searchable and bool(rng.random() < .7)
    b = run_code(case, code, rng=rng, from_sym_file="e.sym", trans_thresh=1e-4, search_cell=search, **extra)
    T = read_table(sg, spinor)
    ref, sh = np.asarray(b.spacegroup.refUC, float), np.asarray(b.spacegroup.shiftUC, float)
    check_read(b.spacegroup, ops, "from %s: " % code)
    for kd, kp in zip(case.kds, b.kpoints):
        lv = kd.levels(LEVEL_TOL)
        ctx.close("file-little-group", len(kp.little_group), sum(in_little_group(R, kd.k) for R, t in ops), 0, tag)
        for i, op in enumerate(kp.little_group):
            tr = true_traces(kd, np.asarray(op.rotation), np.asarray(op.translation), np.asarray(op.spinor_rotation), lv)
            ctx.event("traces", len(lv))
            ctx.close("file-trace", np.asarray(kp.char)[:, i], tr, 5e-5, tag)
            if not search:
                continue
            # in the reference cell: the tables' operation with this rotation, expressed in the DFT cell
            R = np.asarray(op.rotation)
            ts = [x for x in T.symmetries if np.abs(ref @ x.R @ np.linalg.inv(ref) - R).max() < 1e-6]
            if ctx.require(len(ts) == 1, "file-table-operation", tag):
                tr = true_traces(kd, R, ref @ ts[0].t + sh - R @ sh, np.asarray(op.spinor_rotation) * op.sign if spinor else None, lv)
                ctx.event("refcell_traces", len(lv))
                ctx.event("refcell_traces_subgroup", len(lv) * (len(ops) < len(C.ops)))
                ctx.close("file-refcell-trace", np.asarray(kp.char_refUC)[:, i], tr, 6e-4, tag)
    files = write_code(case, code, rng=rng)
    files.setdefault("prefix", "out")
    args = cli_files(files) + ["-writesym", "-onlysym", "-trans_thresh=1e-4"]
    if code != "espresso" or unit != al:
        args.append("-alat=%.12f" % unit)
    for f in os.listdir("."):
        if f.endswith(".sym"):
            os.remove(f)
    rc, out = run_cli(args)
    ctx.event("cli")
    fn = files["prefix"] + ".sym"
    if ctx.require(os.path.exists(fn), "cli-sym-file", "%s: %s not written (%s)" % (code, fn, rc)):
        check_file(fn, unit, "CLI %s: " % code)
    args = cli_files(write_code(case, code, rng=rng)) + ["-from_sym_file=" + fn, "-onlysym", "-trans_thresh=1e-4"] + ([] if code == "espresso" and unit == al else ["-alat=%.12f" % unit])
    rc, out = run_cli(args)
    ctx.close("cli-read-sym", out.count("### "), len(C.ops), 0, tag)
    ctx.sample(sg=sg, spinor=spinor, ops=len(C.ops), read=len(ops), code=code, alat=alat)
