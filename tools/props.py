"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "A primitive cell is exactly what its edit history says",
 "After any sequence of successful edits of a primitive cell (adding, changing and removing orbitals and hopping terms in fractional or Cartesian units, trimming dangling orbitals, removing terms along non-periodic directions, resetting the lattice), its orbitals, on-site energies, hopping terms, counts and every array or position or distance view of them are exactly those the edits dictate. A hopping term and its Hermitian conjugate are one and the same term: either may be used to write, read or remove it, and only one of the pair is reported. Views read between edits never change later results and are never out of date.",
 ["histories", "inputs"], "all edit sequences up to a depth over an alphabet of edits, from several initial cells",
 "The tests apply a handful of fixed edit sequences and compare counts; staleness and conjugate bookkeeping depend on the order of edits and on which views were read in between.",
 ["tbplas/builder/primitive.py", "tbplas/builder/base.py", "tbplas/base/lattice.py"],
 [("conjugate normalisation and deletion of hopping terms", "tbplas/builder/base.py:IntraHopping"),
  ("synchronisation of arrays with the orbital list and hopping table", "tbplas/builder/primitive.py:sync_array, sync_orb, sync_hop")],
 [("orbital list, hopping table", "the model", "PrimitiveCell.orbital_list / hopping_dict"),
  ("array caches", "orb_pos, orb_eng, hop_ind, hop_eng and what they were made from", "PrimitiveCell")],
 ["num_orb", "num_hop", "orb_pos", "orb_eng", "hop_ind", "hop_eng", "get_hopping", "dr_nm", "set_ham_dense"])

prop("C02", "A rejected edit changes nothing",
 "When an edit of a primitive cell, hopping table, super cell, inter-cell hopping or sample is refused with an error (unknown orbital or term, wrong coordinate length, on-site term given as hopping, invalid vacancy, locked object and the like), the object and everything derived from it are exactly as they were before the call. Edits naming orbitals which do not exist are refused, not applied in part.",
 ["fault_sequences", "inputs", "histories"], "every kind of invalid argument of every editing call, at every position of a batch argument, in every state reached by a bounded history",
 "Tests only check that some exceptions are raised, not the state that remains.",
 ["tbplas/builder/primitive.py", "tbplas/builder/base.py", "tbplas/builder/super.py", "tbplas/builder/sample.py"],
 [("argument validation before mutation", "tbplas/builder/primitive.py; tbplas/builder/super.py:OrbitalSet.add_vacancies, set_vacancies")],
 (), ["exceptions raised", "all public views before and after"])

prop("C03", "Locked models are immutable and derived objects are never stale",
 "A primitive cell which belongs to a super cell, and a super cell or inter-cell hopping which belongs to a sample, refuse every modification until unlocked, and unlocking is the only way around it. After a legitimate unlock-and-modify, every object built on top (array views, super cells, inter-cell hoppings and newly built samples) reflects the modified model, whatever was read before.",
 ["histories"], "all interleavings of build, unlock, modify, lock and read operations up to a depth over a hierarchy of cell, super cell, inter-cell hopping and sample",
 "Whether a cache is refreshed depends on the sequence of reads, modifications and locks; tests have one such sequence.",
 ["tbplas/builder/base.py", "tbplas/builder/primitive.py", "tbplas/builder/super.py", "tbplas/builder/sample.py"],
 [("lock, check_lock, subscribers and update", "tbplas/builder/base.py:Observable, Lockable"),
  ("synchronisation on change", "tbplas/builder/super.py:OrbitalSet.sync_array")])

prop("C04", "The Bloch Hamiltonian is the Fourier sum of the model",
 "For every model and every k-point the Hamiltonian is Hermitian and equals on-site energies plus the sum over hopping terms and their conjugates with the phase of the chosen convention, identically for the dense, sparse and printed forms, and both conventions have the same eigenvalues. Bands, states, density of states and local density of states computed from a cell, from an overlap-carrying (non-orthogonal) model or from a sample are those of that Hamiltonian, including when the model is changed between two calculations of the same solver.",
 ["inputs", "configurations", "histories"], "all small models over a finite set of orbitals, terms and complex amplitudes x k-points x convention x solver call sequences",
 "Tests compare plots or a few bands for graphene only.",
 ["tbplas/builder/primitive.py", "tbplas/builder/overlap.py", "tbplas/diagonal/base.py", "tbplas/cython/primitive.pyx", "tbplas/builder/sample.py"],
 [("Hamiltonian assembly", "tbplas/builder/primitive.py:set_ham_dense, set_ham_csr; tbplas/cython/primitive.pyx"),
  ("diagonalisation", "tbplas/diagonal/base.py:DiagSolver")])

prop("C05", "Super-cell orbital numbering is a bijection",
 "For every super cell the primitive-cell representation (cell index, orbital) and the flat super-cell index of its orbitals are in one-to-one correspondence: converting forth and back, singly or in batches, is the identity on exactly the orbitals which are not vacancies, consecutive numbers are used, and orbital count, energies and positions follow the same numbering. Everything else (vacancies, out-of-range indices) is rejected with an error.",
 ["inputs", "histories"], "all dimensions, periodicities and vacancy subsets up to a bound, and all sequences of vacancy edits up to a depth",
 "Tests use one or two vacancy lists on one cell.",
 ["tbplas/builder/super.py", "tbplas/cython/super.pyx"],
 [("vacancy bookkeeping and index conversion", "tbplas/builder/super.py:OrbitalSet"), ("native index conversion", "tbplas/cython/super.pyx")])

prop("C06", "A super cell is the periodic replication of its primitive cell",
 "The hopping terms of a super cell are, each physical pair once and with its amplitude, the translates of the primitive-cell terms whose ends both exist, wrapped along periodic directions and cut along open ones, then modified as the user's modifier asks; their distance vectors are the unwrapped physical separations, and trimming removes exactly the orbitals left with at most one bond. Vacancies, periodicity, dimension and modifier never change anything else, and with full periodicity the spectrum is the folded spectrum of the primitive cell.",
 ["inputs", "configurations"], "all primitive models from a finite family x dimensions x periodicities x vacancy subsets x modifiers x order of operations",
 "Tests compare fast and general builders on one graphene sheet.",
 ["tbplas/builder/super.py", "tbplas/cython/super.pyx"],
 [("hopping construction", "tbplas/builder/super.py:SuperCell.get_hop; tbplas/cython/super.pyx:build_hop*")])

prop("C07", "A sample is the sum of its super cells and their connections",
 "A sample built from any number of super cells and inter-super-cell hoppings has the orbitals of the super cells in the given order and exactly the hopping terms of the super cells and of the connections with indices shifted accordingly; energies, positions, hopping and distance arrays agree with each other. Every representation of its Hamiltonian and of its current operators (dense, sparse, and the packed form used for time propagation in any of its build options) is the same Hermitian operator.",
 ["inputs", "configurations"], "all samples over a finite family of super cells, connections, k-points and build options",
 "Tests check one two-super-cell sample by count.",
 ["tbplas/builder/sample.py", "tbplas/builder/super.py", "tbplas/cython/sample.pyx"],
 [("assembly", "tbplas/builder/sample.py:Sample.init_*"), ("packed Hamiltonian", "tbplas/cython/sample.pyx:build_ham_dxy*")])

prop("C08", "Sample state after any sequence of operations",
 "After any sequence of initialising, resetting, rescaling, saving, loading, and reading the arrays of a sample, the represented Hamiltonian is the model Hamiltonian divided by the current scaling factor: the order of initialisation, repeated rescaling and reading never change the physical operator, resetting restores the freshly built state, and loading what was saved restores the saved state. An incomplete set of saved on-site energies, hopping terms and scaling factor is ignored as a whole, never mixed with the model or with older data, whether files are missing or saving over older data was interrupted at any point.",
 ["histories", "fault_sequences"], "all operation sequences up to a depth; all subsets of missing files; all crash points of saving over older data",
 "The outcome depends on the order of lazily initialising calls; tests use one order.",
 ["tbplas/builder/sample.py"], [("lazy initialisation, rescale and persistence", "tbplas/builder/sample.py:Sample")])

prop("C09", "Magnetic field and k-point act as gauge phases",
 "Applying a magnetic field to a sample multiplies each hopping term by the phase of the vector potential integrated along the straight bond, so amplitudes keep their modulus, the Hamiltonian stays Hermitian, a field of zero or of opposite sign gives the original or the conjugate phases, and the flux through every closed loop of bonds of an open sample equals field times enclosed area in every supported gauge. Assigning a k-point multiplies terms by the Bloch phase of their distance vector.",
 ["inputs", "configurations"], "all gauges x fields x triangles and plaquettes of bonds in all orientations over a family of open samples",
 "Tests have a single Landau-level picture in one gauge.",
 ["tbplas/builder/sample.py", "tbplas/cython/sample.pyx", "tbplas/builder/super.py"],
 [("Peierls phase", "tbplas/cython/sample.pyx:set_mag_field"), ("Bloch phase", "tbplas/builder/sample.py:set_k_point")])

prop("C10", "Automatic rescaling bounds the spectrum",
 "When a sample chooses its own scaling factor, the factor is positive and every eigenvalue of the rescaled Hamiltonian lies within [-1, 1], whatever the signs and sizes of on-site energies and hopping amplitudes (not all zero); the reported energy range then covers the whole spectrum of the original Hamiltonian.",
 ["inputs"], "all samples over a finite family of on-site energies of either sign and amplitudes",
 "Tests only use graphene with zero on-site energies.",
 ["tbplas/builder/sample.py", "tbplas/cython/sample.pyx"], [("spectral bound estimate", "tbplas/builder/sample.py:rescale_ham; tbplas/cython/sample.pyx:get_rescale")])

prop("C11", "Cell transformations preserve the physics",
 "Extending, reshaping, rotating, trimming and merging primitive cells keeps on-site energies, bond lengths, bond amplitudes and orbital density: an extended or reshaped cell has the volume ratio times the orbitals (each exactly once) and the folded spectrum of the original, rotation changes no spectrum and no bond length, and merging gives the union of the cells plus exactly the requested connections with conjugates honoured. Source cells are not altered by extending, reshaping or merging, and cells with incompatible lattices are refused.",
 ["inputs", "configurations"], "all dimensions and all integer lattice matrices with entries up to a bound, all angles of a finite set, over a family of models",
 "Tests extend and reshape one or two cells.",
 ["tbplas/builder/advanced.py"], [("extend, reshape, spiral, merge", "tbplas/builder/advanced.py")])

prop("C12", "Neighbour search finds every bond exactly once",
 "Searching a cell (or two different cells) for neighbours returns every ordered pair of an orbital in the home cell and an orbital in any cell of the searched range whose distance is positive and does not exceed the cutoff, each exactly once, with correct cell index, orbital indices, displacement and distance, in order of distance, and nothing else.",
 ["inputs"], "all cells over a finite family of lattices and orbital arrangements x search ranges x cutoffs",
 "Tests use it implicitly for one material.",
 ["tbplas/builder/advanced.py", "tbplas/cython/atom.pyx"], [("neighbour search", "tbplas/builder/advanced.py:find_neighbors")])

prop("C13", "Slater-Koster and spin-orbit integrals obey their symmetry laws",
 "Two-centre integrals for every pair of s, p and d orbitals and every direction equal the published direction-cosine formulas: the integral matrix between full shells transforms covariantly under rotations, swapping the two atoms transposes it with the parity sign, and along a bond axis it is diagonal in the bond parameters. Spin-orbit matrix elements equal those of L.S in the real-orbital basis for every orbital and spin pair, and are Hermitian with the right multiplet structure.",
 ["inputs"], "all orbital pairs x a finite set of directions covering every octant and axis x unit vectors of the parameter space (the integrals are linear in the parameters)",
 "Tests reach the orbital pairs used by two materials.",
 ["tbplas/builder/advanced.py"], [("Slater-Koster table", "tbplas/builder/advanced.py:SK"), ("spin-orbit table", "tbplas/builder/advanced.py:SOC, SOCTable")])

prop("C14", "Results do not depend on the number of processes",
 "For every number of processes and every problem size, including sizes smaller than the number of processes, each task is done by exactly one process, all processes take part in the same collective operations in the same order, and the assembled result on the master (and on every process, where it is shared) equals that of a serial run; no process is left waiting. Files are written by one process only.",
 ["schedules", "configurations", "inputs"], "all process counts up to a bound x problem sizes x parallel calculations, executed with a simulated communicator",
 "The test-suite runs MPI code with a single process.",
 ["tbplas/parallel.py", "tbplas/diagonal/base.py", "tbplas/diagonal/lindhard.py", "tbplas/diagonal/magnetic.py", "tbplas/diagonal/z2.py", "tbplas/tbpm/solver.py"],
 [("task distribution and reductions", "tbplas/parallel.py:MPIEnv")])

prop("C15", "Lattice, coordinate and k-point conversions are consistent",
 "Lattice vectors, lengths, angles, reciprocal vectors, volume, fractional and Cartesian coordinates, rotations and k-point meshes and paths are mutually consistent for every non-degenerate lattice, offset and kind of coordinates (integers or floats, lists or arrays): conversion forth and back is the identity, reciprocal vectors are dual to lattice vectors, k-meshes are complete and free of duplicates, and k-paths pass through the given points in the requested number of steps with monotonous distances.",
 ["inputs"], "all lattices, coordinates, meshes and paths over finite grids",
 "Tests sample a few lattices.",
 ["tbplas/base/lattice.py", "tbplas/base/kpoints.py"], [("conversions", "tbplas/base/lattice.py"), ("k-points", "tbplas/base/kpoints.py")])

prop("C16", "Response functions equal the Lindhard formula",
 "Dynamic polarization, dielectric function and AC conductivity computed from eigenstates equal the direct Lindhard and Kubo sums over the same k-mesh, for every model, frequency, temperature, chemical potential, momentum and k-mesh; all back ends and the regular-momentum and arbitrary-momentum variants agree where both apply. Momentum conversions and the results reported for several momenta in one call equal those of single calls.",
 ["inputs", "configurations"], "all small models x meshes x momenta x frequencies x parameters from finite sets, all back ends",
 "Tests compare plots for graphene and are not exact.",
 ["tbplas/diagonal/lindhard.py", "tbplas/cython/lindhard.pyx", "tbplas/fortran/lindhard.f90"], [("response sums", "tbplas/diagonal/lindhard.py:Lindhard")])

prop("C17", "Stochastic propagation reproduces exact quantum evolution",
 "Time propagation and the correlation functions and moments built on it (wave-function evolution, total and local DOS, quasi-eigenstates, AC and DC conductivity, dynamic polarization, Hall moments, Haydock recursion) equal the exact expressions evaluated with the exact Hamiltonian for the same initial states, for every sample, time step, number of steps, set of logged times and number of random states. Norm is conserved, the same seed gives the same result, and results do not depend on the number of threads.",
 ["inputs", "configurations", "schedules"], "all small samples x solver configurations x time-log subsets x thread counts from finite sets",
 "Tests only plot the results for graphene.",
 ["tbplas/tbpm/solver.py", "tbplas/tbpm/config.py", "tbplas/fortran/tbpm.f90", "tbplas/fortran/propagation.f90", "tbplas/fortran/funcs.f90", "tbplas/fortran/random.f90", "tbplas/fortran/kpm.f90"],
 [("Chebyshev propagation", "tbplas/fortran/propagation.f90"), ("correlation functions", "tbplas/fortran/tbpm.f90")])

prop("C18", "Correlation analysis is the stated transform of the data",
 "Turning correlation functions and moments into DOS, local DOS, AC, DC and Hall conductivities, polarization, dielectric function and diffusion coefficients applies exactly the documented Fourier and polynomial sums with the chosen window, energies and units: results are linear in the data (or normalised as documented), have the stated energy grid, scale with the spin degeneracy and dimension as documented, and do not alter the input.",
 ["inputs", "configurations"], "all unit-vector correlation data (a basis of the linear maps) x windows x dimensions x degeneracies x small step counts",
 "Tests plot one graphene curve per quantity.",
 ["tbplas/tbpm/analysis.py", "tbplas/fortran/analysis.f90"], [("transforms", "tbplas/tbpm/analysis.py:Analyzer")])

prop("C19", "Wannier90 import reproduces the Wannier Hamiltonian",
 "Importing Wannier90 output gives a primitive cell whose lattice, orbital positions and Bloch Hamiltonian equal those defined by the files, including on-site terms, degeneracy weights, Wigner-Seitz translation corrections and the number of entries per record, for every k-point; terms below the energy cutoff are dropped and no others.",
 ["inputs"], "all small synthetic Hermitian file sets over finite choices of orbitals, cell indices, degeneracies, corrections and cutoffs",
 "No test reads Wannier90 files.",
 ["tbplas/adapter/wannier90.py"], [("file parsing and conversion", "tbplas/adapter/wannier90.py:wan2pc")])

prop("C20", "Topological phases and spin textures follow from the eigenstates",
 "Wilson-loop phases equal the phases of the product of overlap matrices of the occupied states along the loop, are independent of the eigenvector gauge, of the ordering and of the placement of orbitals, and count to the Z2 index of the model; reordering phases which are well resolved only permutes them at every point and never alters its input. Spin expectation values and spin textures equal the expectation values of the Pauli matrices in the eigenstates of the current model.",
 ["inputs", "configurations", "histories"], "all small models x occupations x loop resolutions x gauges from finite sets, and call sequences with model changes",
 "Tests look at a picture for one material.",
 ["tbplas/diagonal/z2.py", "tbplas/diagonal/magnetic.py"], [("Wilson loops", "tbplas/diagonal/z2.py:Z2"), ("spin expectation", "tbplas/diagonal/magnetic.py:SpinTexture")])

prop("C21", "Material models have the symmetries of the material",
 "Every ready-made material cell is a valid Hermitian model with the published geometry and parameters, whose spectrum has the symmetries of the material for all k-points: time reversal, Kramers degeneracy with spin-orbit coupling and inversion, rotational or mirror symmetry of the lattice, electron-hole symmetry of nearest-neighbour graphene, and rectangular cells are foldings of hexagonal ones. Geometry parameters scale the geometry only, and options switch on exactly what they name.",
 ["inputs", "configurations"], "all materials x options x parameters from finite sets x symmetry operations x k-points",
 "Tests compare one band structure per material at default parameters, or only plot it.",
 ["tbplas/materials/graphene.py", "tbplas/materials/antimonene.py", "tbplas/materials/phosphorene.py", "tbplas/materials/xs2.py"], [("model construction", "tbplas/materials")])
prop("C22", "Figures and cube files show exactly the data and the model given",
 "Plotting a primitive cell, super cell or sample draws every orbital and every hopping term above the cutoff at its true projected position for every view, and nothing else; options switch exactly what they name. Curves, bands, phases, scalar and vector fields and images are drawn from the data unchanged, at the right coordinates. A cube file holds the Bloch sum of hydrogen-like orbitals with the stated quantum numbers, coefficients, k-point and convention at every grid point, the right grid, and every atom once. Neither data nor model are altered.",
 ["inputs", "configurations"], "all quantum numbers up to n=4 x charges x grids; cells x k-points x conventions x ranges; models x option combinations x views x cutoffs; data sizes x options",
 "Tests write figures and look at none of them.",
 ["tbplas/visual.py", "tbplas/builder/visual.py", "tbplas/cython/atom.pyx"], [("figures and cube files", "tbplas/visual.py:Visualizer"), ("model plots", "tbplas/builder/visual.py:ModelViewer"), ("atomic orbitals", "tbplas/cython/atom.pyx:set_cube")])

prop("C23", "Results do not depend on how threads are scheduled",
 "Every loop which the compiled core runs in parallel (propagation, moments, filters, spectra, polarization, conductivity) gives the same result for every number of threads and every interleaving of them: no two threads access the same memory without order where one of them writes.",
 ["schedules"], "all parallel regions reached by all quantities of small models; teams of 2 to 4 members in all orders and one member per iteration",
 "Tests run one schedule and compare nothing between thread counts.",
 ["tbplas/fortran/tbpm.f90", "tbplas/fortran/lindhard.f90", "tbplas/fortran/analysis.f90", "tbplas/fortran/math.F90", "tbplas/fortran/csr.F90", "tbplas/fortran/kpm.f90", "tbplas/fortran/funcs.f90"], [("parallel loops", "tbplas/fortran")])
prop("C24", "Configurations, parameter fits and helpers do what they document",
 "A configuration saved with a calculation reads back equal, undefined parameters are refused in every section by every consumer, configurations share no state. A parameter fit minimises exactly the weighted difference of bands from any starting point of a linear model, normalises weights of any type without altering them, and reports failure. Timers follow their tic/toc automaton for every history, progress bars report every scale once with the right counts, test helpers accept exactly what they state, and printed tables of spin-orbit elements equal the evaluated ones.",
 ["histories", "inputs", "configurations"], "all timer histories up to depth 5; all single-key changes of configurations; small fits x weights x starting points; small inputs of the helpers",
 "Tests use a few helpers incidentally.",
 ["tbplas/utils.py", "tbplas/tbpm/config.py", "tbplas/builder/advanced.py"], [("timers and helpers", "tbplas/utils.py:Timer"), ("configuration", "tbplas/tbpm/config.py:Config"), ("parameter fit", "tbplas/builder/advanced.py:ParamFit")])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P))
