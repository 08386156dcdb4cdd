"""Regenerates properties.jsonl and MANIFEST.json from the table below.

Only properties with a checks/cNN.py are claimed; a property listed in NA is declared not applicable.
"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, tech, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None),
                  _tech=tech, _note=note))


TESTS = "The five shipped fixtures exercise a handful of crystals at fixed k points"

prop("C01", "Symmetry traces are the exact traces of the operators on each level",
     "For every level (group of degenerate bands) of a given set of wavefunctions, the trace reported for each little-group operation {R|t} equals the trace of that operator over the level, with Bloch phase exp(-i(k.t)) of the reported translation and, with spin-orbit coupling, with the reported spinor rotation. This holds for any space group, cell, k point, scalar or spinor wavefunctions, and regardless of normalisation precision or gauge inside the level.",
     ["inputs"], "all crystals, k points, wavefunction coefficients, spinor and scalar",
     TESTS + "; a wrong phase or G-vector map on a non-symmorphic or oblique case is not sampled.",
     ["irrep/gvectors.py", "irrep/kpoint.py", "irrep/spacegroup.py"],
     [("symm_eigenvalues / symm_matrix", "irrep/gvectors.py"), ("transformed_g", "irrep/gvectors.py"), ("calculate_traces", "irrep/kpoint.py")],
     "runtime oracle: independent operator-trace monitor over generated wavefunctions for all 230 groups",
     "Exploration: real code is run on synthetic wavefunctions of random symmetric Hamiltonians; an independent dense-matrix oracle decides every trace. Trusts numpy and spglib.",
     [("char", "traces per level and symmetry", "irrep/kpoint.py Kpoint")], ["Kpoint.char", "json output", "trace.txt"])
prop("C02", "Detected symmetry operations are exactly the crystal's space group",
     "For any crystal the reported operations are exactly the symmetry operations of the (given) cell: each maps every atom onto an atom of the same species and every lattice vector into the lattice, the set is closed under composition with lattice translations, complete, free of duplicates, and has the identity. Space-group number and name agree with them.",
     ["inputs"], "all crystals: lattice, positions, species, cell choice, magnitude, handedness",
     TESTS + ".", ["irrep/spacegroup.py"], [("SpaceGroup.__cell_vectors / _findsym", "irrep/spacegroup.py")],
     "runtime oracle: group-axiom and crystal-invariance monitors over generated crystals of all 230 groups",
     "Exploration over generated crystals of all 230 groups; the independent oracle re-derives the operations by applying them to the atoms. Trusts spglib's standard database for the expected number.",
     [], ["SpaceGroup.symmetries"])
prop("C03", "Standard-cell transformation matches the character tables",
     "The reported transformation (refUC, shiftUC) to the standard cell is such that, expressed in it, the crystal's operations are exactly those of the group's character table (rotations equal, translations equal up to lattice vectors of the standard cell). When no suitable transformation is given by the user and the search is enabled one is always found; a wrong one given by the user is refused.",
     ["inputs", "configurations"], "all space groups, cell choices, origins, user-given transformations",
     TESTS + "; the 230 transformations and user-provided ones are not tested.", ["irrep/spacegroup.py"],
     [("determine_basis_transf / match_symmetries", "irrep/spacegroup.py")],
     "runtime oracle: operation-by-operation comparison in the transformed cell against the tables",
     "Exploration over generated crystals of all 230 groups in randomly skewed primitive cells.", [], ["SpaceGroup.refUC", "SpaceGroup.shiftUC"])
prop("C04", "Irrep labels are the true decomposition of each level",
     "At every k point of the tables, the irreps assigned to each level are those of the tables whose characters the level's traces carry: the multiplicities are the character projections of the level's traces, refer only to irreps of that k point and group, and add up (weighted by dimension) to the number of bands in the level. Complete levels have integer multiplicities.",
     ["inputs"], "all space groups, single and double valued, all k points of the tables, any wavefunctions",
     TESTS + "; most of the ~10 000 irreps never occur in a test.", ["irrep/kpoint.py", "irrep/spacegroup.py", "irreptables"],
     [("Kpoint.identify_irreps", "irrep/kpoint.py"), ("SpaceGroup.get_irreps_from_table", "irrep/spacegroup.py")],
     "runtime oracle: multiplicities recomputed from true traces and independently parsed tables",
     "Exploration; 25 (group, spin, k point) triples where the tables' factor system is the opposite of the computed traces' are recorded as known findings.",
     [], ["Kpoint.irreps"])
prop("C06", "Spinor rotations form a faithful double-group lift compatible with the tables",
     "Each operation's spinor matrix is the SU(2) image (up to the reported sign) of its Cartesian rotation, with inversion acting as the identity; together with the reported signs the matrices equal the tables' ones up to one common change of spin frame. The choice is deterministic, the products obey one consistent sign factor set, and rotating the whole crystal rotates the matrices with it.",
     ["inputs"], "all space groups, orientations and cells", TESTS + ".", ["irrep/spacegroup.py"],
     [("SymmetryOperation.spinor_rotation", "irrep/spacegroup.py"), ("__match_spinor_rotations", "irrep/spacegroup.py")],
     "runtime oracle: SU(2) covering, factor-set and covariance monitors over all 230 groups",
     "Exploration over all 230 groups in random orientations.", [], ["SymmetryOperation.spinor_rotation", "SymmetryOperation.sign"])
prop("C07", "Character tables are consistent group representations and round-trip as text",
     "Every shipped character table loads and lists a space group's operations closed under composition, and for each k point a little group together with characters of distinct irreducible (projective) representations: orthonormal rows, dimension equal to the identity's character, and dimension-squares adding up to the group order or completing it. Writing a table as text and reading it back gives the same table.",
     ["inputs"], "all 230 groups, single and double valued, every k point and irrep",
     "Tests load a handful of tables.", ["irreptables/irreptables.py", "irreptables/tables"],
     [("IrrepTable", "irreptables/irreptables.py"), ("SymopTable / KPoint / Irrep parsing and printing", "irreptables/irreptables.py")],
     "runtime oracle: orthogonality and closure monitors over every table as loaded",
     "Exhaustive over the shipped tables as loaded by the real code.", [], ["IrrepTable"])

RD = "Exploration: files written byte by byte by an independent writer for known physics; everything the real reader returns is compared with what was written. Trusts the writer's reading of the format (cross-checked with the shipped real files)."
prop("C09", "VASP files are read faithfully",
     "From a VASP calculation (WAVECAR and POSCAR) the cell, atoms, k points, cutoff, band energies, plane waves and coefficients reported are those stored in the files, for any lattice shape, scaling factor, direct or cartesian coordinates, number of atoms and species, scalar or spinor wavefunctions: each coefficient is attached to its own G vector and spin component, and the plane waves are exactly those below the cutoff.",
     ["inputs", "configurations"], "all valid WAVECAR/POSCAR pairs", TESTS + ".", ["irrep/readfiles.py", "irrep/gvectors.py"],
     [("ParserVasp", "irrep/readfiles.py"), ("sortIG / calc_gvectors", "irrep/gvectors.py")],
     "runtime oracle: written-versus-read monitor over generated VASP files", RD, [], ["Kpoint.WF", "Kpoint.ig", "Kpoint.Energy_raw"])
prop("C10", "ABINIT files are read faithfully",
     "From an ABINIT WFK file the cell, atoms, k points, cutoff, band energies, Fermi level, plane waves and coefficients reported are those stored in the file, for any list of requested k points, header version, number of atoms and bands, and for scalar and spinor wavefunctions.",
     ["inputs", "configurations"], "all valid WFK files and k-point selections", TESTS + ".", ["irrep/readfiles.py"],
     [("ParserAbinit", "irrep/readfiles.py")],
     "runtime oracle: written-versus-read monitor over generated WFK files", RD, [], ["Kpoint.WF", "Kpoint.ig", "Kpoint.Energy_raw"])
prop("C11", "Quantum ESPRESSO files are read faithfully",
     "From a Quantum ESPRESSO save directory the cell, atoms, k points, cutoff, band energies, Fermi level, plane waves and coefficients reported are those stored in the files, for non-collinear, unpolarised and spin-polarised calculations (selected channel only).",
     ["inputs", "configurations"], "all valid save directories, k-point and spin-channel selections", TESTS + ".", ["irrep/readfiles.py"],
     [("ParserEspresso", "irrep/readfiles.py")],
     "runtime oracle: written-versus-read monitor over generated save directories", RD, [], ["Kpoint.WF", "Kpoint.ig", "Kpoint.Energy_raw"])
prop("C12", "Wannier90 interface files are read faithfully",
     "From Wannier90 input (.win), eigenvalues (.eig) and UNK files the cell, atoms, k points, band energies and wavefunctions reported are those in the files, for every syntax Wannier90 accepts for these entries (comments, separators, units, cartesian or fractional atoms, order of blocks), scalar and spinor; the plane-wave coefficients are the Fourier components of the periodic part below the given cutoff.",
     ["inputs", "configurations"], "all valid .win/.eig/UNK sets", TESTS + ".", ["irrep/readfiles.py", "irrep/bandstructure.py"],
     [("ParserW90", "irrep/readfiles.py")],
     "runtime oracle: written-versus-read monitor over generated Wannier90 files", RD, [], ["Kpoint.WF", "Kpoint.ig", "Kpoint.Energy_raw"])
prop("C13", "Separation by a symmetry splits every level into exact eigenspaces",
     "Separating a band structure by a symmetry operation (that leaves the k points invariant) distributes all states over the reported eigenvalues: at each k point each state lies in exactly one subspace, its wavefunction belongs to the eigenspace of the operator with that eigenvalue (or its Kramers-conjugate pair when grouping), it keeps its energy, states stay orthonormal, and separating by several commuting operations gives the common eigenspaces. Only k points without that eigenvalue are absent from a subspace.",
     ["inputs", "configurations"], "all crystals, operations, k points, chains of separations, with and without Kramers grouping", TESTS + "; separation is tested for one mirror of one crystal.",
     ["irrep/bandstructure.py", "irrep/kpoint.py", "irrep/gvectors.py"],
     [("BandStructure.Separate", "irrep/bandstructure.py"), ("Kpoint.Separate / copy_sub", "irrep/kpoint.py"), ("symm_matrix", "irrep/gvectors.py")],
     "runtime oracle: exact operator eigenspaces compared with the separated states",
     "Exploration with generated crystals; separations whose eigenvalues differ by less than the code's grouping windows are not generated.", [], ["BandStructure.Separate", "separated json"])
prop("C14", "Inversion-odd counts, Z2/Z4 indicators and gaps are exact",
     "At every k point invariant under inversion the reported number of inversion-odd states is the number of states of odd parity in the selected bands; the totals, Kramers pairs, Z2 and Z4 printed and saved follow from it. The direct and indirect gaps, and the gap at each k point, are those between the selected bands and the next one.",
     ["inputs", "configurations"], "all crystals, inversion centres, band windows, scalar and spinor", TESTS + ".",
     ["irrep/bandstructure.py", "irrep/kpoint.py"], [("num_bandinvs, gap_direct, gap_indirect", "irrep/bandstructure.py")],
     "runtime oracle: parities and gaps recomputed from the generating eigenvectors and energies",
     "Exploration with generated crystals. The Z2/Z4 of scalar wavefunctions are not judged.", [], ["num_bandinvs", "gaps", "stdout", "json"])
prop("C15", "Overlaps, Zak phases and WCCs are the discrete Berry phases of the path",
     "Along a closed path of k points the overlaps are <u_m(k)|u_n(k+G)> with the closing reciprocal vector, the Zak phase of the first n bands is the phase of the product of their overlap determinants for every n, Wannier charge centres are the phases of the eigenvalues of the Wilson loop, and gap widths, centres and local gaps are those of the bands. After separating the bands by a symmetry that holds along the path, each subspace has the phases of its own states. All are gauge invariant and equal in the API and the command line.",
     ["inputs"], "all crystals, paths, band windows", TESTS + "; Zak phases and WCC have no test.", ["irrep/bandstructure.py", "irrep/kpoint.py", "irrep/cli.py"],
     [("zakphase / wcc", "irrep/bandstructure.py"), ("overlap", "irrep/kpoint.py")],
     "runtime oracle: Berry phases recomputed from the generating eigenvectors", "Exploration with generated crystals and paths.", [], ["zakphase", "wcc", "-ZAK", "-WCC"])
prop("C16", "Unfolding weights and spins are the exact projections onto the primitive k point",
     "Unfolding a supercell k point onto a compatible primitive k point gives, for each level, its energy, the weight of the plane waves that belong to the primitive point (weights over all compatible points add up to the degeneracy) and, for spinors, the spin expectation values of that projection; incompatible points are refused.",
     ["inputs"], "all supercells, crystals and k points", "No test covers unfolding.", ["irrep/kpoint.py"], [("unfold / get_rho_spin / k_close_mod1", "irrep/kpoint.py")],
     "runtime oracle: projections recomputed from the generating eigenvectors", "Exploration with generated crystals and supercells.", [], ["Kpoint.unfold"])
prop("C05", "Results do not depend on choices without physical meaning",
     "Analysing the same physical system twice gives the same group, levels, gaps, traces of corresponding operations, irreps and indicators when only something without physical meaning is changed: the gauge, phases and norms of the states inside each level, the order or species numbers of the atoms, the orientation of the crystal (with its spinors) in space, the origin, a reciprocal lattice vector added to k, the order of the k points, the choice of unit cell vectors, or the code whose files are read.",
     ["inputs", "configurations"], "all crystals, wavefunctions and combinations of the changes", TESTS + "; no test compares two descriptions of the same system.",
     ["irrep/bandstructure.py", "irrep/kpoint.py", "irrep/spacegroup.py", "irrep/gvectors.py", "irrep/readfiles.py"],
     [("BandStructure / Kpoint / SpaceGroup", "irrep")],
     "runtime oracle: metamorphic pairs of runs on files of the same physical system",
     "Exploration with generated crystals in all 230 groups. Where the labels are ambiguous (several equivalent standard cells) the pair is given corresponding standard cells.", [], ["Kpoint.irreps", "Kpoint.char", "num_bandinvs", "gaps"])
prop("C18", "The written symmetry file holds the operations and is read back unchanged",
     "The file prefix.sym (written with -writesym or from the API) lists exactly the crystal's operations, as cartesian rotation and translation in units of alat in Quantum ESPRESSO's convention, whatever the interface, cell, orientation and alat; reading such a file (any order of operations, subgroups, translations in other cells) gives exactly its operations, with matching rotations in the lattice basis, translations and spinor matrices, and traces computed with them are exact.",
     ["inputs"], "all crystals, interfaces, alat values, valid .sym files", "No test writes or reads a .sym file.", ["irrep/spacegroup.py", "irrep/utility.py", "irrep/cli.py"],
     [("write_sym_file / from_sym_file / read_sym_file", "irrep/spacegroup.py")],
     "runtime oracle: independent parser applies the written operations to the atoms; independent files read back", "Exploration with generated crystals in all 230 groups.", [], ["prefix.sym", "SpaceGroup.symmetries"])
prop("C19", "Selections restrict the full analysis and nothing else",
     "Choosing a range of bands, a list of k points, a smaller plane-wave cutoff, the Fermi level (value, or automatic) and the degeneracy threshold selects exactly that part of the data: the reported k points, bands, energies relative to the Fermi level, groups of bands closer than the threshold, plane waves below the cutoff, coefficients and traces are those of the full data restricted to the selection. Empty or impossible selections are refused and the user's arguments are not modified.",
     ["inputs", "configurations"], "all interfaces and all selections", TESTS + " and one or two selections.", ["irrep/bandstructure.py", "irrep/kpoint.py", "irrep/readfiles.py"],
     [("BandStructure.__init__ / init_*", "irrep/bandstructure.py"), ("Kpoint.__init__", "irrep/kpoint.py")],
     "runtime oracle: restricted runs compared with the generating data", "Exploration; cutoffs between shells of plane waves.", [], ["BandStructure", "json"])
prop("C24", "k-path lengths and band-plot files are the cartesian path and the band energies",
     "The k-point line is the cumulative cartesian distance in 1/angstrom between consecutive k points, jumps longer than the break threshold counting as zero; with given points or a supercell it is that of those points and cell. The plot file has for each band the line coordinate and the energy relative to the Fermi level at every k point, whatever the interface and band selection.",
     ["inputs"], "all crystals, paths, thresholds and supercells", "No test covers the path or the plot files.", ["irrep/bandstructure.py", "irrep/cli.py"],
     [("KPOINTSline / write_plotfile", "irrep/bandstructure.py")],
     "runtime oracle: distances and energies recomputed from the generating data", "Exploration with generated crystals and paths.", [], ["KPOINTSline", "bands-<suffix>.dat", "json"])
prop("C17", "What is printed and saved is the analysis",
     "The screen report, irrep-output.json, trace.txt, irreps.dat, the table written for a group without irreps, and the crystal description in each of them all state the same analysis: the same k points, energies, degeneracies, traces (with their imaginary parts) in the DFT cell and in the standard cell, irreps with their multiplicities, inversion counts and direct and indirect gaps, in the same order and for the same numbering of symmetry operations. Each operation listed is described correctly (rotation, translation, axis, angle, spinor matrix, in both cells), and each file can be read back to the analysis within its printed precision.",
     ["inputs", "configurations"], "all crystals, k points, wavefunctions, interfaces and output options", "The tests compare one screen report with a stored one and ignore the files.",
     ["irrep/bandstructure.py", "irrep/kpoint.py", "irrep/spacegroup.py", "irrep/cli.py", "irrep/utility.py"],
     [("write_characters / json / write_trace", "irrep/bandstructure.py, irrep/kpoint.py"), ("SpaceGroup.show / json", "irrep/spacegroup.py")],
     "runtime oracle: parsers of every output compared with each other and with the generating data", "Exploration. Layout and whitespace are not judged; only the content is.", [], ["stdout", "irrep-output.json", "trace.txt", "irreps.dat", "irreptable-template"])
prop("C20", "Every option has its documented effect, however it is given",
     "Each option of the command line has its documented effect, and the same set of options gives the same results when given on the command line, in a YAML or JSON configuration file (keys in any case), as a mixture (the file prevailing), or through the Python interface. Options of the command line that do not exist, and values that cannot be what the option needs, wherever they are given, are refused without results.",
     ["configurations"], "all options, their combinations and the ways to give them", "The tests give a few options, on the command line only.",
     ["irrep/cli.py", "irrep/bandstructure.py"], [("cli", "irrep/cli.py")],
     "runtime oracle: runs of the real program given the same options in different ways compared, and with the effect recomputed", "Exploration over random sets of options.", [], ["exit status", "stdout", "json", "output files"])
prop("C21", "Input that cannot be analysed correctly is refused",
     "Files or options which do not define a correct analysis are refused with an error, leaving no results, and are never analysed as if nothing was wrong: inconsistent, truncated or missing files; calculations of an unsupported kind (spin-polarised, double precision, reduced plane-wave storage such as that of Gamma-only calculations, old headers, unsupported occupations); a spin channel missing, invalid or given without need; malformed, missing, duplicated or unclosed entries; unknown codes, Fermi levels and k-point names; names of k points that do not match the coordinates or are too few; empty selections of bands; wrong or singular transformations to the standard cell; irreps wanted for operations which are not all those of the tables in the reference cell; separation by an operation which does not leave the k points invariant or over levels cut by the selection; plane-wave sets which are not symmetric; unfolding onto incompatible points; symmetry files that do not belong to the lattice.",
     ["inputs", "configurations", "fault_sequences"], "all interfaces, crystals and injected faults", "The tests only run correct inputs.",
     ["irrep/readfiles.py", "irrep/bandstructure.py", "irrep/spacegroup.py", "irrep/gvectors.py", "irrep/kpoint.py"],
     [("parsers' consistency checks", "irrep/readfiles.py"), ("get_irreps_from_table / match_symmetries", "irrep/spacegroup.py"), ("transform_gk", "irrep/gvectors.py")],
     "runtime fault injection: one fault put into an accepted input, the monitor requires a refusal without results",
     "Exploration. The type and text of the error are not judged. The input without the fault is accepted first.", [], ["exceptions", "exit status", "files left"])
prop("C22", "The analysis is a pure function of its input",
     "The same input gives the same results whenever and wherever it is analysed: reports, files and queries may be asked for in any order and any number of times, with analyses of other crystals in between or in another thread, without changing any later answer; a second analysis, another verbosity, process, hash seed, locale, number of threads, or files left by a former run make no difference. The input files and the user's arguments are not modified.",
     ["histories", "schedules"], "all histories of queries and environments", "The tests run each command once in a fresh directory.",
     ["irrep/bandstructure.py", "irrep/kpoint.py", "irrep/spacegroup.py", "irrep/cli.py"],
     [("BandStructure queries", "irrep/bandstructure.py"), ("lru_cache of get_rho_spin, copy_sub", "irrep/kpoint.py")],
     "runtime monitoring of histories: each answer compared with the first answer to the same question and with a fresh analysis; digests of files",
     "Exploration over random histories. Answers may differ in the last digits.", [], ["BandStructure", "files", "stdout"])
#---NEXT

NA = {}


def main():
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py")):
            checks.append(dict(property=p["id"], quick_cmd="./check %s --tier quick" % p["id"],
                               thorough_cmd="./check %s --tier thorough" % p["id"],
                               evidence_file="evidence/%s.json" % p["id"],
                               technique=p["_tech"], level="exploration", level_note=p["_note"]))
        else:
            na.append(dict(property=p["id"], reason=NA.get(p["id"], "no check built yet")))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
             notes="Pure-Python code: checks import irrep from /repo's working tree, so there is nothing to build. No hooks were needed in /repo.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
