"""C20: every option has its documented effect, whichever way it is given (command line, YAML, JSON, both, Python)."""
import json
import os
import re
import shutil
import numpy as np
from vlib.case import *
from vlib.runner import quiet
from vlib import writers
from vlib.readers import text_differs

PROP = "C20"
RULE = ("one case = random crystal, interface and set of options; the same options are given on the command line, in a YAML file, in a JSON file, "
        "split between both, and to the Python classes; exit status, printed text and every file written must agree, and agree with the Python "
        "interface and with direct monitors of each option's effect; distinct = (option, way)")
MINIMUM = {"cases": 200, "ways": 800, "api_compared": 150, "refusals_agree": 10, "threshold_effect": 60, "trans_thresh_effect": 20, "correct_ecut0": 10,
           "kranges": 40, "alat": 20, "suffix": 30, "filenames": 60, "onlysym": 20, "isymsep": 20, "zak": 10, "from_sym_file": 12, "groupkramers": 8,
           "unknown_options": 30, "unusable_values": 60, "empty_entries": 200}
ASSUMPTIONS = ["keys of configuration files are the option names, in any case"]


def jobs(tier, seed):
    rng = np.random.default_rng(seed + 20)
    n = 520 if tier == "quick" else 3000
    return [dict(sg=int(rng.integers(1, 231)), rep=i, spinor=bool(rng.random() < .5), code=["vasp", "vasp", "abinit", "espresso", "wannier90", "vasp"][i % 6],
                 tr=bool(rng.random() < .4)) for i in range(n)]


def ranges(sel, rng):
    """a string of comma-separated numbers and ranges"""
    out, i = [], 0
    while i < len(sel):
        j = i
        while j + 1 < len(sel) and sel[j + 1] == sel[j] + 1:
            j += 1
        if j > i and rng.random() < .7:
            out.append("%d-%d" % (sel[i], sel[j]))
        else:
            out += [str(x) for x in sel[i:j + 1]]
        i = j + 1
    return ",".join(out)


def snapshot(text):
    files = {}
    for f in sorted(os.listdir(".")):
        if os.path.isfile(f) and (f.startswith(("bands-", "irrep", "trace.txt")) or f.endswith(".sym")) and f != "given.sym":
            files[f] = open(f).read()
            os.remove(f)
    return dict(text=text, files=files)


def way(args, rng):
    """exit status: 0 or the kind of exception"""
    try:
        rc, text = run_cli(args)
        return rc, text
    except (Exception, SystemExit) as e:
        return "%s" % type(e).__name__, ""


def run(job, ctx, rng):
    sg, spinor, code = job["sg"], job["spinor"], job["code"]
    C = tame_crystal(sg, rng, volume=float(rng.uniform(28, 45)), usteps=int(rng.integers(0, 3)))
    tk = table_kpts(sg, spinor)
    tk = [tk[i] for i in rng.choice(len(tk), min(len(tk), int(rng.integers(2, 5))), replace=False)]
    case = build(rng, sg, spinor, crystal=C, kref=[k for _, k in tk], npw=40, nb=10 if spinor else 7, trbreak=job["tr"])
    nk = len(case.kds)
    opt = {}                       # option name -> value (python types)
    ef_ha = float(rng.uniform(-.2, .2))
    files = write_code(case, code, ".", rng, ef_ha=ef_ha)
    if code == "vasp":
        names = {"fWAV": "W%d.bin" % rng.integers(99), "fPOS": "cell%d.vasp" % rng.integers(99)}
        os.rename("WAVECAR", names["fWAV"])
        os.rename("POSCAR", names["fPOS"])
        files.update(names)
        ctx.event("filenames")
    if code == "abinit":
        os.rename("o_WFK", "data%d_WFK" % job["rep"])
        files["fWFK"] = "data%d_WFK" % job["rep"]
        ctx.event("filenames")
    opt.update({k: v for k, v in files.items() if not (k == "spinor" and not v)})
    kmode = rng.random()
    sel = list(range(1, nk + 1))
    if kmode < .6:
        sel = [int(x) for x in rng.permutation(nk)[:rng.integers(1, nk + 1)] + 1]
        if rng.random() < .6:
            sel = sorted(sel)
        opt["kpoints"] = ranges(sel, rng)
        if "-" in opt["kpoints"]:
            ctx.event("kranges")
    named = rng.random() < .45
    refusal = False
    if named:
        opt["kpnames"] = [tk[i - 1][0].name for i in sel]
        opt["trans_thresh"] = 1e-4
        opt["refUC"] = [float(x) for x in np.asarray(C.P).T.ravel()]
        sh = np.asarray(C.p, float)
        if rng.random() < .35:
            # a shift known to three digits only
            bad = sh + rng.choice([-1, 1], 3) * 4e-4
            opt["shiftUC"] = [float(x) for x in bad]
            opt["trans_thresh"] = float(rng.choice([1e-4, 2e-2]))
            # a shift along which the group is polar changes no translation
            iP = np.linalg.inv(np.asarray(C.P, float))
            dev = max(np.abs(iP @ ((R - np.eye(3)) @ (bad - sh))).max() for R, t in C.ops)
            refusal = opt["trans_thresh"] < 1e-3 and dev > 2e-4
            if opt["trans_thresh"] < 1e-3 and 5e-5 < dev < 2e-4:
                opt["trans_thresh"] = 2e-2
            ctx.event("trans_thresh_effect")
        else:
            opt["shiftUC"] = [float(x) for x in sh]
    elif rng.random() < .3:
        opt["refUC"] = [float(x) for x in np.asarray(C.P).T.ravel()]
        if rng.random() < .7:
            opt["shiftUC"] = [float(x) for x in C.p]
    elif rng.random() < .3:
        opt["searchcell"] = True
        opt["trans_thresh"] = 1e-4
    if rng.random() < .5:
        opt["EF"] = [str(x) for x in [round(float(rng.uniform(-3, 3)), 3), "auto"]][int(rng.random() < .4)]
    if case.nb >= 3 and rng.random() < .4:
        opt["IBstart"] = int(rng.integers(1, 3))
    if case.nb >= 3 and rng.random() < .4:
        opt["IBend"] = int(rng.integers(3, case.nb + 1))
    if rng.random() < .4:
        opt["degenThresh"] = float(rng.choice([0.05, 0.6, 2.0]))
    if rng.random() < .3:
        opt["symmetries"] = ranges(sorted(int(x) for x in rng.choice(len(C.ops), int(rng.integers(1, len(C.ops) + 1)), replace=False) + 1), rng)
    if code != "wannier90" and rng.random() < .25:
        opt["Ecut"] = float(case.ecut_code * rng.uniform(.93, .99))
    if rng.random() < .3:
        opt["plotbands"] = True
        if rng.random() < .7:
            opt["suffix"] = "s%d" % rng.integers(99)
            ctx.event("suffix")
    if rng.random() < .3:
        opt["writesym"] = True
        opt.setdefault("prefix", "out")
        if code != "espresso":
            opt["alat"] = round(float(rng.uniform(3, 9)), 4)
            ctx.event("alat")
    if rng.random() < .15:
        opt["onlysym"] = True
        ctx.event("onlysym")
    if rng.random() < .15:
        opt["v"] = 2
    fromsym = False
    if not named and "searchcell" not in opt and "refUC" not in opt and code != "espresso" and rng.random() < .2:
        al = round(float(rng.uniform(3, 9)), 4)
        write_sub(C, al, rng)
        opt["from_sym_file"] = "given.sym"
        opt["alat"] = al
        opt.pop("symmetries", None)
        fromsym = True
        ctx.event("from_sym_file")
    sep = None
    if "onlysym" not in opt and not refusal and rng.random() < .3:
        good = []
        for i, (R, t) in enumerate(C.ops):
            if all(in_little_group(R, kd.k) for kd in case.kds) and not np.array_equal(R, np.eye(3)):
                good.append(i)
        if good and not fromsym:
            # the numbering of operations is that of irrep: ask for it
            from irrep.bandstructure import BandStructure
            kw = {k: files[k] for k in files}
            for o, shp in (("refUC", (3, 3)), ("shiftUC", 3)):
                if o in opt:
                    kw[o] = np.array(opt[o]).reshape(shp)
            if named or "searchcell" in opt:
                kw.update(search_cell=True, trans_thresh=opt["trans_thresh"])
            with quiet():
                S = BandStructure(onlysym=True, **kw).spacegroup
            inds = [s.ind for s in S.symmetries if any(np.array_equal(C.ops[i][0], np.asarray(s.rotation)) for i in good)]
            if inds:
                sep = int(rng.choice(inds))
                opt["isymsep"] = str(sep)
                opt["degenThresh"] = 1e-4
                opt.pop("IBstart", None)
                opt.pop("IBend", None)
                if code != "wannier90":
                    opt.pop("Ecut", None)
                opt.pop("plotbands", None)       # refused if a subspace has not as many bands at every k point
                ctx.event("isymsep")
    if "isymsep" not in opt and "onlysym" not in opt and nk > 1 and rng.random() < .12:
        opt[str(rng.choice(["ZAK", "WCC"]))] = True
        ctx.event("zak")
    if code == "vasp" and "Ecut" not in opt and sep is None and rng.random() < .7:
        # the cutoff stored in the file misses the last shell of one k point by a little
        kd = case.kds[int(rng.integers(nk))]
        B = reclat(C.lattice)
        e = np.sort((((kd.G + kd.k) @ B) ** 2).sum(1) / TWOMHBAR2)
        d = 1e-3
        if all(abs((((k.G + k.k) @ B) ** 2).sum(1).max() / TWOMHBAR2 - e[-1]) > 5e-3 or k is kd for k in case.kds):
            others = [(((k.G + k.k) @ B) ** 2).sum(1).max() / TWOMHBAR2 for k in case.kds]
            if max(others) <= e[-1] + 1e-9:
                writers.write_wavecar(opt["fWAV"], C.lattice, e[-1] - d, case.kds)
                opt["correct_Ecut0"] = 2 * d
                ctx.event("correct_ecut0")
                args = [a for a in cli_args(opt) if "correct" not in a]
                rc, _ = way(args, rng)
                snapshot("")
                ctx.require(rc != 0 or "onlysym" in opt or case.kds.index(kd) + 1 not in sel, "correct_ecut0-needed", "read without correction")
    ctx.event("cases")
    tag = "SG %d %s spinor=%s %s" % (sg, code, spinor, opt)

    # ------------------------------------------------ the same options in different ways
    res = {}
    rc, text = way(cli_args(opt), rng)
    res["cli"] = (rc, snapshot(text))

    def in_config(d, name):
        d2 = {}
        for k, v in d.items():
            key = [k, k.lower(), k.upper()][int(rng.integers(3))]
            if isinstance(v, list) and rng.random() < .5:
                v = ",".join(str(x) for x in v)
            elif k in ("kpoints", "symmetries") and "-" not in v and rng.random() < .6:
                v = [int(x) for x in v.split(",")]
                v = v[0] if len(v) == 1 and rng.random() < .5 else v
            elif k == "EF" and v != "auto" and rng.random() < .6:
                v = float(v)
            elif k == "isymsep" and rng.random() < .5:
                v = int(v)
            d2[key] = v
        for k in NULLS:
            # an empty entry: as if it was not there
            if k not in opt and k not in d and rng.random() < .12:
                d2[[k, k.lower(), k.upper()][int(rng.integers(3))]] = None
                ctx.event("empty_entries")
        if name.endswith("json"):
            json.dump(d2, open(name, "w"))
        else:
            open(name, "w").write("".join("%s: %s\n" % (k, json.dumps(v)) for k, v in d2.items()) or "{}\n")
    in_config(opt, "conf.yml")
    rc, text = way(["-config=conf.yml"], rng)
    res["yaml"] = (rc, snapshot(text))
    in_config(opt, "conf.json")
    rc, text = way(["-config=conf.json"], rng)
    res["json"] = (rc, snapshot(text))
    part = {k: v for k, v in opt.items() if rng.random() < .5}
    in_config(part, "half.yaml")
    rc, text = way(cli_args({k: v for k, v in opt.items() if k not in part}) + ["-config=half.yaml"], rng)
    res["both"] = (rc, snapshot(text))
    r0, s0 = res["cli"]
    for w in ("yaml", "json", "both"):
        r, s = res[w]
        ctx.event("ways")
        if not ctx.require(r == r0, "way-status:" + w, lambda: "%s: %s, on the command line: %s; %s" % (w, r, r0, tag)):
            continue
        d = text_differs(s["text"], s0["text"], modulo="ZAK" in opt or "WCC" in opt)
        ctx.require(not d, "way-text:" + w, lambda: "%s differs from command line: %s; %s" % (w, d, tag))
        if ctx.require(sorted(s["files"]) == sorted(s0["files"]), "way-files:" + w, lambda: "%s %s %s" % (sorted(s["files"]), sorted(s0["files"]), tag)):
            for f in s["files"]:
                d = text_differs(s["files"][f], s0["files"][f], tol=1e-7 if f.endswith("json") else 1.1e-4)
                ctx.require(not d, "way-content:" + w, lambda: "%s: %s: %s %s" % (w, f, d, tag))
        for o in opt:
            ctx.distinct(o, w)

    # ------------------------------------------------ options which do not exist and values which cannot be converted
    if rng.random() < .6:
        unusable(opt, in_config, ctx, rng, tag)

    # ------------------------------------------------ the Python interface
    api = dict(fWAV=opt.get("fWAV"), fPOS=opt.get("fPOS"), fWFK=opt.get("fWFK"), prefix=opt.get("prefix"), code=code, Ecut=opt.get("Ecut"),
               IBstart=opt.get("IBstart"), IBend=opt.get("IBend"), kplist=np.array(sel) if "kpoints" in opt else None, calculate_traces=True,
               onlysym="onlysym" in opt, refUC=np.array(opt["refUC"]).reshape(3, 3) if "refUC" in opt else None,
               shiftUC=np.array(opt["shiftUC"]) if "shiftUC" in opt else None, search_cell=named or "searchcell" in opt,
               trans_thresh=opt.get("trans_thresh", 1e-5), degen_thresh=opt.get("degenThresh", 1e-4), save_wf=True, alat=opt.get("alat"),
               from_sym_file=opt.get("from_sym_file"), correct_Ecut0=opt.get("correct_Ecut0", 0.0), EF=opt.get("EF", "0.0"))
    if code == "vasp":
        api["spinor"] = spinor
    from irrep.bandstructure import BandStructure
    try:
        with quiet():
            b = BandStructure(**api)
        rb = 0
    except (Exception, SystemExit) as e:
        rb = type(e).__name__
    ctx.require((rb == 0) == (r0 == 0), "api-status", "python: %s, command line: %s; %s" % (rb, r0, tag))
    ctx.require((r0 != 0) == refusal, "refusal", "%s, expected %s; %s" % (r0, "refusal" if refusal else "acceptance", tag))
    if r0 != 0 or rb != 0:
        ctx.event("refusals_agree")
        return
    want = {"writesym": [opt.get("prefix", "") + ".sym"]}
    expected = set()
    if "onlysym" not in opt:
        expected |= {"irrep-output.json", "trace.txt", "irreptable-template"} | ({"irreps.dat"} if named else set())
        if "plotbands" in opt and not ("ZAK" in opt or "WCC" in opt) and sep is None:
            expected.add("bands-%s.dat" % opt.get("suffix", "tognuplot"))
    if "writesym" in opt and os.path.dirname(want["writesym"][0]) in ("", "."):
        expected.add(os.path.basename(want["writesym"][0]))
    got = set(s0["files"])
    ctx.require(got == expected, "files-written", "%s expected %s; %s" % (sorted(got), sorted(expected), tag))
    if "onlysym" in opt:
        return
    ctx.event("api_compared")
    names = opt.get("kpnames")
    with quiet():
        b.identify_irreps(names)
    import monty.json
    js = json.loads(s0["files"]["irrep-output.json"], cls=monty.json.MontyDecoder)
    if sep is None:
        same(ctx, js["characters and irreps"][0]["subspace"], b.json(names), "api-json", tag)
    else:
        kr = True
        with quiet():
            sub = b.Separate(sep, degen_thresh=1e-4, groupKramers=kr)
        a = [x["subspace"] for x in js["characters and irreps"]]
        ctx.close("api-subspaces", len(a), len(sub), 0, tag)
        ctx.require(list(js["separating symmetries"]) == [sep], "json-separating", tag)
        nn = {kp.ik0: n for kp, n in zip(b.kpoints, names)} if names else {}
        for x, (ev, s) in zip(a, sub.items()):
            same(ctx, x, s.json([nn.get(kp.ik0) for kp in s.kpoints]), "api-json-subspace", tag)
        if rng.random() < .6:
            # the only way to switch grouping off is the configuration file
            in_config(dict(opt, groupKramers=False), "nogroup.yml")
            rc, text = way(["-config=nogroup.yml"], rng)
            s = snapshot(text)
            ctx.event("groupkramers")
            if ctx.require(rc == 0, "groupkramers-status", "%s %s" % (rc, tag)):
                with quiet():
                    sub = b.Separate(sep, degen_thresh=1e-4, groupKramers=False)
                a = [x["subspace"] for x in json.loads(s["files"]["irrep-output.json"], cls=monty.json.MontyDecoder)["characters and irreps"]]
                ctx.close("groupkramers-effect", len(a), len(sub), 0, tag)
                sp = json.loads(s["files"]["irrep-output.json"], cls=monty.json.MontyDecoder)["characters and irreps"]
                ctx.close("groupkramers-values", [np.ravel(x["symmetry eigenvalues"]) @ [1, 1j] for x in sp], list(sub), 1e-9, tag)
            if same_nb(sub):
                in_config(dict(opt, plotbands=True, suffix="q"), "plot.yml")
                rc, text = way(["-config=plot.yml"], rng)
                s = snapshot(text)
                with quiet():
                    sub2 = b.Separate(sep, degen_thresh=1e-4, groupKramers=True)
                if same_nb(sub2):
                    ctx.event("sub_plots")
                    ctx.require(rc == 0, "sub-plot-status", "%s %s" % (rc, tag))
                    ctx.close("sub-plot-files", sum(f.startswith("bands-q-") for f in s["files"]), len(sub2), 0, "%s %s" % (sorted(s["files"]), tag))
                    for ev, x in sub2.items():
                        # the file has the symmetry and its eigenvalue in the name
                        mine = [f for f in s["files"] if f.startswith("bands-q-") and names_eigenvalue(f, sep, ev)]
                        if ctx.require(len(mine) == 1, "sub-plot-name", lambda: "%s of %s: %s; %s" % (ev, sep, sorted(s["files"]), tag)):
                            with quiet():
                                x.write_plotfile("ref.plot")
                            d = text_differs(s["files"][mine[0]], open("ref.plot").read(), tol=1.1e-4)
                            ctx.require(not d, "sub-plot-content", lambda: "%s %s %s" % (mine[0], d, tag))
    same(ctx, js["spacegroup"], b.spacegroup.json(symmetries=parse_ranges(opt["symmetries"]) if "symmetries" in opt else None), "api-json-group", tag)
    # ------------------------------------------------ direct effects
    lo, hi = max(opt.get("IBstart", 1), 1) - 1, opt.get("IBend", case.nb)
    if sep is None:
        jk = js["characters and irreps"][0]["subspace"]["k points"]
        ef = 0.0
        if "EF" in opt:
            ef = float(opt["EF"]) if opt["EF"] != "auto" else {"vasp": 0.0}.get(code, ef_ha * HA_CODE(code))
        ctx.close("effect-kpoints", len(jk), len(sel), 0, tag)
        thr = opt.get("degenThresh", 1e-4)
        for s_, j in zip(sel, jk):
            E = case.kds[s_ - 1].E[lo:hi]
            ctx.close("effect-energies", j["energies_raw"], E - ef, 5e-5, tag)
            near = np.abs(np.diff(E) - thr).min() < 1e-3 * thr if len(E) > 1 else False
            if not near:
                dims, n = [], 1
                for d in np.diff(E):
                    if d > thr:
                        dims.append(n)
                        n = 0
                    n += 1
                dims.append(n)
                ctx.close("effect-degenThresh", list(j["dimensions"]), dims, 0, tag)
                if thr > 1e-3:
                    ctx.event("threshold_effect")
    if "symmetries" in opt:
        ctx.require(sorted(int(x) for x in js["spacegroup"]["symmetries"]) == parse_ranges(opt["symmetries"]), "effect-symmetries", tag)
    if fromsym:
        ctx.close("effect-from_sym_file", js["spacegroup"]["num symmetries"], int(open("given.sym").read().split()[0]), 0, tag)
    ctx.sample(sg=sg, code=code, options={k: str(v) for k, v in opt.items()}, files=sorted(s0["files"]))


NULLS = ["Ecut", "fWFK", "prefix", "from_sym_file", "kpoints", "kpnames", "refUC", "shiftUC", "isymsep", "alat", "symmetries"]
BAD = [("Ecut", ["abc", "5o", "1,2"]), ("correct_Ecut0", ["small"]), ("IBstart", ["first", "1.5"]), ("IBend", ["last", "3.5"]), ("alat", ["a0"]),
       ("degenThresh", ["tiny"]), ("trans_thresh", ["1e-"]), ("code", ["siesta", "VASP5", "vas"]), ("EF", ["fermi", "1,2"]),
       ("refUC", ["1,0,0,0,1,0,0,0", "1,0,0,0,1,0,0,0,x", "1,0,0"]), ("shiftUC", ["0,0", "0,0,a"]), ("kpoints", ["GM", "1;2", "1-"]),
       ("symmetries", ["all", "1-x"]), ("isymsep", ["C2", "x"])]
UNKNOWN = ["ecutoff=50", "kpoint=1", "fwave=WAVECAR", "IBfirst=1", "IBlast=3", "trans_tresh=1e-3", "refuc=1,0,0,0,1,0,0,0,1", "band=1", "plot", "soc", "--kpnames", "config=absent.yml", "config=absent.json"]


def unusable(opt, in_config, ctx, rng, tag):
    if rng.random() < .35:
        o = UNKNOWN[int(rng.integers(len(UNKNOWN)))]
        args = cli_args(opt)
        args.insert(int(rng.integers(len(args) + 1)), "-" + o)
        rc, text = way(args, rng)
        s = snapshot(text)
        ctx.event("unknown_options")
        ctx.require(rc != 0 and not s["files"], "unknown-option", "%s: %s, %s; %s" % (o, rc, sorted(s["files"]), tag))
        return
    # the Fermi energy is not used if only symmetries are asked for
    pool = [x for x in BAD if not (x[0] == "EF" and "onlysym" in opt)]
    name, values = pool[int(rng.integers(len(pool)))]
    v = values[int(rng.integers(len(values)))]
    new = dict({k: x for k, x in opt.items() if k != name}, **{name: v})
    w = ["cli", "yaml", "json"][int(rng.integers(3))]
    if w == "cli":
        args = cli_args(new)
    else:
        f = "bad." + {"yaml": "yml", "json": "json"}[w]
        d = {[k, k.lower(), k.upper()][int(rng.integers(3))]: x for k, x in new.items()}
        if w == "json":
            json.dump(d, open(f, "w"))
        else:
            open(f, "w").write("".join("%s: %s\n" % (k, json.dumps(x)) for k, x in d.items()))
        args = ["-config=" + f]
    rc, text = way(args, rng)
    s = snapshot(text)
    ctx.event("unusable_values")
    ctx.distinct("unusable", name, w)
    ctx.require(rc != 0 and not s["files"], "unusable-value:" + name, "%s=%s (%s): %s, %s; %s" % (name, v, w, rc, sorted(s["files"]), tag))


def names_eigenvalue(f, sep, ev):
    """Does this name of a file end with the symmetry and the eigenvalue?"""
    m = re.search(r"(\d+):([-+][\d.]+j?)([-+][\d.]+j)?\.dat$", f)
    if not m or int(m.group(1)) != sep:
        return False
    val = sum(complex(x) for x in m.groups()[1:] if x)
    return abs(val - ev) < 2e-3


def same_nb(sub):
    return all(len({kp.num_bands for kp in x.kpoints}) == 1 for x in sub.values())


def HA_CODE(code):
    from vlib.pw import HA
    return HA


def parse_ranges(s):
    out = []
    for x in s.split(","):
        a = x.split("-")
        out += list(range(int(a[0]), int(a[-1]) + 1))
    return out


def cli_args(opt):
    out = []
    for k, v in opt.items():
        if k == "v":
            out += ["-v"] * v
        elif v is True:
            out.append("-" + k)
        elif isinstance(v, list):
            out.append("-%s=%s" % (k, ",".join(str(x) for x in v)))
        else:
            out.append("-%s=%s" % (k, v if isinstance(v, str) else repr(v)))
    return out


def write_sub(C, alat, rng):
    """identity and one more operation, generating a cyclic subgroup"""
    from vlib.su2 import cart_rotation
    from vlib.pw import BOHR_A
    R, t = C.ops[int(rng.integers(len(C.ops)))]
    ops = [(np.eye(3, dtype=int), np.zeros(3))]
    X = (R, np.asarray(t, float))
    while not np.array_equal(X[0], np.eye(3)) and len(ops) < 12:
        ops.append(X)
        X = (R @ X[0], R @ X[1] + t)
    with open("given.sym", "w") as f:
        f.write("%d\n" % len(ops))
        for A, s in ops:
            O = cart_rotation(A, C.lattice)
            f.write("\n" + "".join("  ".join("%20.15f" % x for x in r) + "\n" for r in O))
            f.write("  ".join("%20.15f" % x for x in -(s @ C.lattice) / (alat * BOHR_A)) + "\n")


def same(ctx, a, b, mech, tag, path=""):
    """structures from json and from Python hold the same values"""
    if isinstance(b, dict):
        kb = {str(k): v for k, v in b.items()}
        ka = {str(k): v for k, v in a.items()} if isinstance(a, dict) else {}
        if ctx.require(sorted(ka) == sorted(kb), mech, lambda: "%s: %s | %s %s" % (path, sorted(ka), sorted(kb), tag)):
            for k in kb:
                same(ctx, ka[k], kb[k], mech, tag, path + "/" + k)
    elif b is None or isinstance(b, (str, bool, np.bool_)):
        ctx.require(a == b, mech, lambda: "%s: %r | %r %s" % (path, a, b, tag))
    elif isinstance(b, (list, tuple)) and not all(isinstance(x, (int, float, complex, np.number)) for x in b):
        if ctx.close(mech, len(a), len(b), 0, path):
            for i, (x, y) in enumerate(zip(a, b)):
                same(ctx, x, y, mech, tag, path + "/%d" % i)
    else:
        x, y = np.asarray(a), np.asarray(b)
        if np.shape(x) == np.shape(y) and x.dtype.kind in "fc" and not np.isfinite(y).all():
            ctx.require(np.array_equal(np.isfinite(x), np.isfinite(y)), mech, path)
            return
        ctx.close(mech, x, y, 1e-9, lambda: "%s %s" % (path, tag))
