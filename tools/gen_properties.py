"""Writes /verif/properties.jsonl (kept as code so the entries stay readable)."""
import json, os

S = "src/magnopy/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": [S + f for f in files],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})


prop("C01", "An interaction matrix is exactly the sum of its physical parts",
     "For every real 3x3 interaction matrix the isotropic value is a third of the trace, the symmetric anisotropy is the traceless symmetric remainder, "
     "and the DMI vector D is the one with u.(M_antisym v) = D.(u x v) for all u, v; the isotropic, symmetric and antisymmetric parts add up to the matrix. "
     "A parameter built from any combination of an isotropic value, a traceless symmetric anisotropy and a DMI vector reports exactly those parts back, "
     "and the derived quantities (component values, transposed parameter, DMI module and its ratio to the isotropic value) agree with the matrix.",
     ["inputs"], "all real 3x3 matrices (nine free real entries), all isotropic values, traceless symmetric matrices and vectors, all subsets of the parts",
     "the tests decompose a few fixed integer matrices; a wrong sign or factor on one entry or on one subset of parts is only visible for matrices they do not list",
     ["spinham/parameter.py"], [("decomposition properties of the parameter class", "src/magnopy/spinham/parameter.py")],
     ["MatrixParameter(...)", "MatrixParameter.iso", "MatrixParameter.aniso", "MatrixParameter.dmi", "MatrixParameter.matrix"])

prop("C02", "Setting one part of an interaction matrix leaves the other parts alone",
     "After the isotropic value, the (traceless symmetric) anisotropy, the DMI vector or a single element of a parameter is set, reading it back gives the new value and the "
     "other two parts, respectively the other eight elements, are what they were; setting the whole matrix discards the old one completely. "
     "The parameter keeps its own copy of what it was given, and a value of wrong shape or type is refused with an error and changes nothing.",
     ["inputs", "histories"], "all prior matrices, all new values, every sequence of setters",
     "the tests set parts of a fixed matrix and look at the part that was set; cross-talk between parts for other matrices or after several setters is not reached",
     ["spinham/parameter.py"], [("setters of the parameter class", "src/magnopy/spinham/parameter.py")],
     ["MatrixParameter setters"])

prop("C03", "Parameter arithmetic is matrix arithmetic and never disturbs its operands",
     "Addition, subtraction, multiplication and division (also with a remainder) by a number, negation, absolute value, transposition, matrix products from either side and comparison of parameters "
     "give what the same operation on their matrices gives, for all matrices and numbers. The operands keep their values and the result can be changed afterwards without changing any operand.",
     ["inputs", "histories"], "all pairs of real 3x3 matrices and all numbers; later modification of the results",
     "tests evaluate each operator on one or two numeric matrices and do not look at the operands or at later modifications",
     ["spinham/parameter.py"], [("arithmetic dunder methods", "src/magnopy/spinham/parameter.py")],
     ["operators of MatrixParameter"])

prop("C04", "Changing the notation never changes the energy of any spin configuration",
     "Rewriting a Hamiltonian whose notation is defined into any other notation (double counting, spin normalisation, exchange factor, on-site factor; one at a time, together, or by a predefined name) "
     "leaves the energy it assigns to every spin configuration unchanged, where the energy is read off the stored parameters and the notation it reports. "
     "Going to another notation and back restores every parameter, and the notation reported is the one that was requested. "
     "Declaring an entry of the notation that was undefined so far leaves the stored parameters as they are (declaring double counting only adds or removes the mirrored copy of a bond).",
     ["inputs", "histories", "configurations"], "all Hamiltonians whose bonds join distinct sites, all spins (non-zero when normalisation changes), all non-zero factors, all sequences of notation changes, all spin directions",
     "tests switch notations on one or two small Hamiltonians and compare single numbers; the claim is about every combination of keys, spins, factors and presence of mirrored bonds",
     ["spinham/hamiltonian.py"], [("notation setters", "src/magnopy/spinham/hamiltonian.py")],
     ["SpinHamiltonian.notation", "SpinHamiltonian.double_counting", "SpinHamiltonian.spin_normalized", "SpinHamiltonian.exchange_factor", "SpinHamiltonian.on_site_factor", "SpinHamiltonian.exchange", "SpinHamiltonian.on_site"])

prop("C05", "With double counting every bond has its transposed mirror; without it, none has",
     "While double counting is declared on, each bond from an atom to another atom shifted by a lattice vector is accompanied by the reversed bond with the opposite lattice vector and the transposed matrix, "
     "after every addition, replacement, removal, filtering by distance or change of notation; while it is declared off, no bond and its reversal are stored together and no interaction is lost. "
     "Before the notation is declared, bonds are stored exactly as given; when a single bond is added or replaced in either mode, that interaction afterwards has the new value.",
     ["histories", "inputs"], "all histories of additions, replacements, removals and notation changes; all pairs of atoms (including atoms with equal names or equal indices) and all lattice vectors between distinct sites",
     "tests add a handful of bonds in one order and count entries; the invariant must survive every order, key and replacement",
     ["spinham/hamiltonian.py"], [("mirrored bond handling in add/remove and in the double counting setter", "src/magnopy/spinham/hamiltonian.py")],
     ["SpinHamiltonian.add_exchange", "SpinHamiltonian.remove_exchange", "SpinHamiltonian.double_counting", "SpinHamiltonian.exchange"])

prop("C06", "Storing, reading or removing a parameter touches only that parameter",
     "Storing an exchange or on-site parameter makes it retrievable (by atom or by atom name) with the value given, and removing it makes it absent, while every other bond, on-site term and atom "
     "stays as it was; removing something absent raises an error unless this is suppressed and changes nothing. "
     "The Hamiltonian shares no parameters with its callers and nothing with its copies: changing a parameter that was handed to it, a copy or the returned crystal afterwards does not change the Hamiltonian, and vice versa.",
     ["histories", "inputs"], "all keys, values and prior contents; atoms given as objects or names; all notations; later modification of the arguments",
     "tests check the presence of the touched entry for a few bonds, not the rest of the Hamiltonian nor the later life of the arguments",
     ["spinham/hamiltonian.py"], [("dictionary-like access, add/remove methods, copy", "src/magnopy/spinham/hamiltonian.py")],
     ["SpinHamiltonian.__getitem__", "SpinHamiltonian.__setitem__", "SpinHamiltonian.__delitem__", "SpinHamiltonian.__contains__", "SpinHamiltonian.add_exchange", "SpinHamiltonian.add_on_site", "SpinHamiltonian.remove_exchange", "SpinHamiltonian.remove_on_site", "SpinHamiltonian.copy", "SpinHamiltonian.crystal"])

prop("C07", "Filtering and atom removal drop exactly what they are asked to drop",
     "Filtering keeps a bond exactly when its length lies between the given minimum and maximum (ends included) and the custom condition accepts its parameter, keeps an on-site term exactly when "
     "no positive minimum length is asked for and the custom condition accepts it, and changes no kept value; the copying variant returns that result and leaves the original untouched. "
     "Removing an atom removes it together with exactly the bonds that start or end on it and its on-site term.",
     ["inputs", "configurations"], "all cells, positions, lattice vectors, thresholds, accept/reject patterns symmetric in a bond and its mirror, with and without double counting",
     "tests filter one model with a few thresholds; boundary values, combinations of conditions and mirrored bonds are sampled at single points",
     ["spinham/hamiltonian.py"], [("filter, filtered, remove_atom", "src/magnopy/spinham/hamiltonian.py")],
     ["SpinHamiltonian.filter", "SpinHamiltonian.filtered", "SpinHamiltonian.remove_atom"])

prop("C08", "Iterating a Hamiltonian visits every parameter exactly once with its value",
     "The exchange and on-site views yield each stored term exactly once with its atoms, lattice vector and current value, and report their number; the combined view yields the same bonds "
     "plus every on-site term as a zero-vector bond of the atom with itself, rescaled so that the exchange factor applies to it. "
     "Views are repeatable and change nothing, and the list of magnetic atoms holds each atom that occurs in some parameter exactly once, ordered by index.",
     ["inputs", "histories"], "all Hamiltonians, all non-zero factors (the on-site factor may be undefined without on-site terms), repeated and nested iteration",
     "tests iterate one Hamiltonian with factors that hide the rescaling and rarely more than once",
     ["spinham/hamiltonian.py"], [("iterators and magnetic_atoms", "src/magnopy/spinham/hamiltonian.py")],
     ["SpinHamiltonian.exchange", "SpinHamiltonian.on_site", "SpinHamiltonian.exchange_like", "SpinHamiltonian.magnetic_atoms", "SpinHamiltonian.I"])

prop("C09", "The ferromagnetic-cell energy equals the Hamiltonian evaluated on the spins",
     "For every Hamiltonian in any notation (defined at least as far as its parameters need it), every set of (not necessarily normalised) non-zero spin directions and every magnetic field, the energy returned for the single-cell state equals the sum of the Hamiltonian's exchange and on-site terms "
     "for spins of the atoms' lengths along those directions plus Bohr magneton times g-factor times S.B of every spin. "
     "Computing energies changes neither the Hamiltonian nor the directions passed in, and later changes of the Hamiltonian or of the field, spins and g-factors handed over do not affect the energies.",
     ["inputs", "configurations"], "all parameters, spins, directions, fields, g-factors and all notations",
     "tests compare a few numeric energies in one notation; scaling with spins, factors, double counting and on-site terms must hold for all values",
     ["spinham/energy.py", "spinham/hamiltonian.py"], [("Energy constructor and ferro", "src/magnopy/spinham/energy.py")],
     ["Energy(spinham)", "Energy.ferro", "Energy.magnetic_field", "Energy.spins", "Energy.g_factors"])

prop("C10", "Spiral and antiferromagnetic energies are lattice averages of rotated spins",
     "The energy returned for a spiral state equals the energy per cell, averaged over the lattice and the phase of the spiral, of the configuration in which the spins of the cell at lattice vector R are the given directions rotated about the cone axis by q.R; "
     "for the antiferromagnetic state the same holds, with the phases 0 and pi, for wave vectors that take every lattice vector to a multiple of pi. "
     "Neither depends on the length of the directions or of the axis or on the notation of the Hamiltonian, both coincide with the single-cell energy at q = 0 when all spins lie along the axis, and the arguments are left unchanged.",
     ["inputs", "configurations"], "all parameters, lattice vectors, cells, directions, cone axes and wave vectors, all notations and fields",
     "tests evaluate no energy of a cone state for general axes and wave vectors; the identity between rotation matrices and the closed formula holds or fails for all of them at once",
     ["spinham/energy.py"], [("Energy.spiral and Energy.antiferro", "src/magnopy/spinham/energy.py")],
     ["Energy.spiral", "Energy.antiferro"])

prop("C11", "Minimisation moves unit vectors downhill and stops at stationary states",
     "Every trial step of the energy minimisation rotates each spin direction (and the cone axis) without changing its length, moves to first order downhill along the gradient it is given and shifts the wave vector, when it is free, against its gradient; "
     "the gradients and torques it uses are the derivatives of the energy of the state, and evaluating them leaves the state unchanged. "
     "Starting states are normalised copies of the guess, a guess of the wrong size or type is refused, and the state returned has unit vectors. "
     "Search directions are those of the L-BFGS algorithm for the remembered steps (the gradient at the start and after negative curvature), an accepted step satisfies the Wolfe conditions, so the energy never goes up from one iteration to the next, "
     "and when the minimisation stops before the maximum number of iterations the torques of the returned state are below the tolerances.",
     ["inputs", "histories"], "all states, search directions, step lengths and Hamiltonians, any number of iterations",
     "tests run no minimisation step on general states; a wrong index, sign or missing restoration only shows for several spins or general directions",
     ["spinham/energy.py"], [("gradient, update and starting-point functions of the minimisation", "src/magnopy/spinham/energy.py")],
     ["Energy.optimize"])

prop("C12", "The magnon Hamiltonian is the Hermitian quadratic form of the spin model",
     "At every wave vector the magnon matrix is Hermitian, couples creation and annihilation blocks of k and -k consistently, and equals the quadratic (linear spin-wave) expansion of the Hamiltonian around the atoms' spin vectors, up to the free choice of transverse axes. "
     "The local frame of each spin is right-handed and orthonormal with its third axis along the spin. "
     "The matrix does not depend on the notation the Hamiltonian was given in, and building the dispersion leaves the Hamiltonian unchanged.",
     ["inputs", "configurations"], "all wave vectors, bonds, symmetric on-site terms, spin vectors and notations",
     "the tests diagonalise given numeric matrices; no test relates the matrix to the Hamiltonian for general spins, bonds and wave vectors",
     ["magnons/dispersion.py"], [("J, A, B, C, h and the local frames", "src/magnopy/magnons/dispersion.py")],
     ["MagnonDispersion.h", "MagnonDispersion.J", "MagnonDispersion.A", "MagnonDispersion.B", "MagnonDispersion.C"])

prop("C13", "Bosonic diagonalisation returns the spectrum and a para-unitary transformation",
     "For every positive-definite Hermitian matrix D of even size the diagonalisation returns non-negative mode energies E, each half sorted as documented, and a matrix G that diagonalises D to E and preserves the bosonic commutation metric, including when modes are degenerate; "
     "a matrix that is not positive definite is reported as a failure. "
     "The magnon frequencies reported at a wave vector are those of the magnon matrix (of its negative, with opposite sign, when only that is positive definite), one per magnetic atom, for single points and for lists of points alike.",
     ["inputs"], "all positive-definite Hermitian matrices of even size; all wave vectors",
     "tests check a few fixed matrices without degenerate modes and only the energies",
     ["magnons/diagonalization.py", "magnons/dispersion.py"], [("Colpa algorithm and omega", "src/magnopy/magnons/diagonalization.py")],
     ["solve_via_colpa", "MagnonDispersion.omega", "MagnonDispersion.omegas"])

prop("C14", "A Hamiltonian survives writing to and reading from the text format",
     "Writing any Hamiltonian (unique atom names, symmetric on-site terms) to the text format and reading the file back gives the same cell, atoms in the same order with positions and spins, notation, bonds, on-site terms, "
     "cone axis and spiral vector, each number within the precision the file shows, for every way the writer offers to express parameters fully and spins. "
     "Writing does not change the Hamiltonian.",
     ["inputs", "configurations"], "all cells, positions, spins, matrices, notations, numbers of bonds and output options that express the full matrix",
     "tests round-trip no Hamiltonian with general matrices, options and ground-state vectors",
     ["io/txt/internal.py", "geometry.py"], [("text writer and reader", "src/magnopy/io/txt/internal.py"), ("vector_to_angles", "src/magnopy/geometry.py")],
     ["dump_spinham_txt", "load_spinham_txt"])

prop("C15", "Text-file units, scales and coordinate forms are converted correctly",
     "Every section of a text model file is read with the units it declares: lengths in Angstrom or Bohr with one or three positive scale factors, positions relative or absolute, spins as Cartesian components, angles or a length along z, "
     "exchange and on-site energies in meV, eV, Joule, Kelvin or Rydberg given as matrix, isotropic value, DMI and symmetric anisotropy in any combination, cone axis and spiral vector relative, absolute or as angles. "
     "Keywords are not case sensitive, comments and blank lines are ignored, and the documented defaults apply where units are omitted.",
     ["inputs", "configurations"], "all numeric values in the file, all unit keywords, all documented forms of each section",
     "tests read a few files in one set of units and do not compare converted values",
     ["io/txt/internal.py", "units/inside.py", "units/si.py"], [("section readers", "src/magnopy/io/txt/internal.py"), ("unit constants", "src/magnopy/units/si.py")],
     ["load_spinham_txt"])

prop("C16", "A Hamiltonian survives writing to and reading from the HDF5 format",
     "Writing any Hamiltonian with unique atom names to an HDF5 file and reading it back gives the same cell, the same atoms in the same order with positions, spins, g-factors and charges, the same notation, bonds, on-site terms, cone axis and spiral vector, exactly. "
     "Several Hamiltonians can live in one file under different group names: each is read back from its own group, an existing group is only replaced on request, and an ambiguous or missing group is refused. A file in any of the documented units is converted on reading. "
     "Writing does not change the Hamiltonian.",
     ["inputs", "histories"], "all Hamiltonians, any number of atoms and bonds, all group names and overwrite choices",
     "tests read back at most a small model; order with ten or more atoms, several groups and general values are not sampled",
     ["io/hdf5/internal.py"], [("HDF5 writer and reader", "src/magnopy/io/hdf5/internal.py")],
     ["dump_spinham_hdf5", "load_spinham_hdf5"])

prop("C17", "Malformed text model files are refused and well-formed ones accepted",
     "A text model file is accepted exactly when its sections are complete and well formed: required sections present, headers with allowed units, right number of rows and of numbers per row, numbers that are numbers, a position for every atom, unique and legal atom names, bonds and on-site terms that refer to listed atoms with integer lattice vectors and at least one value, no value of a bond or of the notation given twice, and a notation that defines what the given sections need. "
     "A violation of any of these in any section is reported as a verification failure before a Hamiltonian is produced.",
     ["inputs"], "all placements of a defect in any section, word or row, for any well-formed rest",
     "tests call the verifier on short lists of hand-written blocks; positions, combinations and interactions of sections are unbounded",
     ["io/txt/verify.py"], [("verification of the sections", "src/magnopy/io/txt/verify.py")],
     ["load_spinham_txt"])

prop("C18", "A TB2J result file is read into the Hamiltonian it describes",
     "Reading a TB2J output gives the cell, every atom with its name, absolute position, charge and magnetic moment, and one interaction per listed bond between the named atoms and lattice vector, equal to the isotropic, DMI and anisotropic entries given for it (missing ones zero), in the TB2J notation. "
     "Atoms keep the order of the file and no bond or atom of the file is skipped or read twice.",
     ["inputs"], "all numeric contents, any number of atoms and bonds, any subset of the optional entries",
     "tests load one sample file and check counts, not the values bond by bond for general files",
     ["io/txt/tb2j.py"], [("TB2J reader", "src/magnopy/io/txt/tb2j.py")],
     ["load_tb2j"])

prop("C19", "Vampire export describes the same Hamiltonian and leaves it intact",
     "The exported unit-cell file lists the cell, each magnetic atom once with its position and material, and each exchange and on-site term once with its atoms, lattice vector and tensor in Joule in Vampire's convention, so that the energy of every spin configuration is that of the original Hamiltonian, within the printed precision; "
     "the options that drop DMI or anisotropy remove exactly that part. "
     "The material file lists every material once with its moment and direction, and exporting changes neither the Hamiltonian nor its notation.",
     ["inputs", "configurations"], "all Hamiltonians in all notations, all option combinations and material assignments",
     "tests export one model with default options; equality of energies and preservation of the source are not examined",
     ["io/txt/vampire.py"], [("UCF and material writers", "src/magnopy/io/txt/vampire.py")],
     ["dump_ucf", "dump_mat", "dump_vampire"])

prop("C20", "Ground-state vectors, fields and factors are stored validated and independent",
     "A cone axis given as any non-zero 3-vector (components within 1e-8 of zero count as zero) is stored as the unit vector along it, a spiral vector or magnetic field is stored unchanged, and the notation accepts exactly predefined names (in any case) and three or four values, one factor then serving for both terms. "
     "Inputs of wrong shape, type or length, a zero axis and unknown names are refused with an error and leave the stored value unchanged. "
     "Undefined notation entries raise a notation error when read, and the stored values do not change when the caller later modifies what was passed in.",
     ["inputs", "histories"], "all 3-vectors, all factor values, all sequences of settings",
     "tests set a few vectors; normalisation, independence and the state after a refused value must hold for all",
     ["spinham/hamiltonian.py", "spinham/energy.py"], [("setters of ground-state vectors, notation and field", "src/magnopy/spinham/hamiltonian.py")],
     ["SpinHamiltonian.cone_axis", "SpinHamiltonian.spiral_vector", "SpinHamiltonian.notation", "Energy.magnetic_field"])

prop("C21", "Standardising the cell changes the description, not the model",
     "Standardising the unit cell of a Hamiltonian leaves the physical model as it is: every atom keeps its place in space and its spin, every bond joins the same two sites in space as before and has the same value, on-site terms, notation and ground-state vectors keep their values, no interaction is lost or duplicated and double counting stays as declared. "
     "Energies of spin configurations therefore stay the same, and copies made before are not affected.",
     ["inputs", "configurations"], "all cells, positions, lattice vectors of bonds and values, all matrices of the standardisation",
     "no test standardises the cell of a Hamiltonian with parameters; only cells that are not in the standard form show a difference",
     ["spinham/hamiltonian.py", "score/magnon_dispersion.py"], [("inherited crystal operations of the Hamiltonian", "src/magnopy/spinham/hamiltonian.py")],
     ["SpinHamiltonian.standardize"])

prop("C22", "Command-line tools report what the library computes for the given file",
     "A file is read by the reader of the format given, in any case, or implied by its name. The converter writes, in the format asked for or implied by the name, a file that reads back as the TB2J Hamiltonian. "
     "The minimisation tool minimises exactly the ground-state types asked for (26 wave vectors for the antiferromagnetic one), in the field given, each with a history file of its own, and lists for each of them every magnetic atom with its name, position and direction, the cone axis and wave vector found, and the energy of that state; "
     "a history has one row per step with the energy, torques and state. "
     "The dispersion tool writes one row per point of the path in the standardised cell: path coordinate, the magnon frequencies of the model at that point, relative and absolute coordinates.",
     ["inputs", "histories"], "all files, formats, states, fields, ground-state types and paths",
     "no test runs the tools; what they print depends on the atoms, types and fields in combination",
     ["score/convert_tb2j.py", "score/minimize_energy.py", "score/magnon_dispersion.py", "io/__init__.py"],
     [("converter", "src/magnopy/score/convert_tb2j.py"), ("minimisation tool", "src/magnopy/score/minimize_energy.py"), ("dispersion tool", "src/magnopy/score/magnon_dispersion.py")],
     ["magnopy-convert-tb2j", "magnopy-minimize-energy", "magnopy-magnon-dispersion", "load_spinham"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
