#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
S = "src/tight_binding_redweasel/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None):
    a = {"files": [S + f for f in files], "mechanism": [{"name": n, "where": S + w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "The Hamiltonian is the Hermitian Fourier sum of the stored couplings",
  "For every set of real-space couplings, H(k) equals the on-site matrix plus, for every other stored lattice vector R, H_R*exp(2*pi*i k.R) and its Hermitian conjugate, so it is Hermitian at every real k, and has period 1 in k for integer R. All model classes and all storage layouts of the same couplings (exponential, cosine/sine, 'reduced' cosine, coefficients shared by symmetry) give the same H(k). The result does not depend on how many k-points are passed at once, in which array shape or in which order.",
  ["inputs", "configurations"], "all dimensions 1-3, band counts, neighbour sets (integer or real, half of +-R), coupling matrices, storage layouts and k-points",
  "Tests compare two classes on one fixed neighbour list and a handful of k-points in 3D; dimension, layout, batch-shape and coupling combinations are unbounded.",
  ["tight_binding_asym.py", "bandstructure.py", "tight_binding.py"],
  [("HermitianFourierSeries.f", "tight_binding_asym.py"), ("BandStructureModel.f and coefficient functions", "bandstructure.py")])

p("C02", "Bands are the sorted (generalised) eigenvalues of H(k)",
  "Evaluating a model at any list of k-points returns, per k-point, one real value per band in ascending order that solve det(H(k) - E S(k)) = 0, where S is the overlap (identity unless given). Calling the model, asking for its bands and asking for bands together with gradients or Hessians give the same energies, and band counts and dimensions are reported consistently. A k-point's energies do not depend on the other k-points evaluated with it.",
  ["inputs", "configurations"], "all couplings, positive definite overlaps, k-point lists (also of length 1), both model classes",
  "Tests check one benchmark model; the overlap path and per-point independence are never exercised.",
  ["tight_binding_asym.py", "bandstructure.py", "linalg.py"],
  [("bands / geigvalsh / geigh", "linalg.py"), ("AsymTightBindingModel.bands", "tight_binding_asym.py"), ("BandStructureModel.bands", "bandstructure.py")])

p("C03", "Band gradients and Hessians are the derivatives of the bands",
  "The derivatives of H(k) that a model reports are the true first and second derivatives of its H(k). At every k-point where a band is not degenerate, the reported gradient and Hessian of that band equal the first and second derivatives of the band energy with respect to k (also with a k-dependent overlap matrix, for every model class that supports one), the Hessian is symmetric, and shapes are (points, dim, bands) and (points, dim, dim, bands). At degenerate points the gradients of a multiplet still sum to the derivative of the sum of its energies.",
  ["inputs", "configurations"], "all models, k-points (generic and at band crossings), dimensions 1-3",
  "Tests compare one gradient against a finite difference on one model; Hessians, overlaps, degeneracies and other dimensions are not covered.",
  ["linalg.py", "bandstructure.py", "tight_binding_asym.py"],
  [("eigh_grad, geigh_grad, eigh_grad_hess", "linalg.py"), ("df, ddf, bands_grad, bands_grad_hess", "tight_binding_asym.py")])

p("C04", "Complex couplings survive a round trip through every parameter layout",
  "Setting a model's complex couplings and reading them back returns the same couplings for every storage layout that can represent them, and the model then has exactly the bands of these couplings. Normalising a model is a change of basis only: it never changes the energies at any k-point, it leaves the on-site matrix Hermitian, and repeating it changes nothing about the energies. Wrong coupling counts are rejected.",
  ["inputs", "histories", "configurations"], "all coupling sets, storage layouts and sequences of set/read/normalise/permute",
  "Tests set couplings once on one model; layouts x inversion x dimensions are not enumerated and normalisation is only exercised inside a fit.",
  ["bandstructure.py", "tight_binding_asym.py"],
  [("params_complex / set_params_complex / normalize", "bandstructure.py"), ("normalize / set_from_complex", "tight_binding_asym.py")])

p("C05", "Saved models load back as the same model",
  "Every model that is saved (JSON or python text format) loads back with the same bands at every k-point and the same couplings up to reordering of the lattice vectors and rounding of values below 1e-14, in every model class that reads the format. Saving and loading leave the model and numpy's print settings unchanged, whatever these settings were. Unknown formats or extensions are rejected with an error and write nothing.",
  ["inputs", "histories", "configurations"], "all couplings (including very large, tiny, zero and negative values), neighbour sets, file formats, print settings",
  "Tests load one shipped file; the format is a hand-written numeric serialisation whose corner cases are unbounded.",
  ["json_tb_format.py", "bandstructure.py", "tight_binding_asym.py"],
  [("json_tb_format.save/load", "json_tb_format.py"), ("save/load", "bandstructure.py"), ("save/load", "tight_binding_asym.py")])

p("C06", "Wannier90 tight-binding files are read as the Hamiltonian they define",
  "Reading a well-formed Wannier90 hr or tb file gives the model whose H(k) is the sum over all listed lattice vectors R of H(R)*exp(2*pi*i k.R) divided by the degeneracy that the file lists for R, independent of the order in which lattice vectors are listed. One vector of each +-R pair is kept, the origin first and by increasing length; lattice vectors, position matrix elements and degeneracies of a tb file are returned as listed. Malformed lines are rejected with an error.",
  ["inputs"], "all band counts, lattice vector sets closed under inversion, degeneracies, listing orders, whitespace layouts",
  "No test reads a Wannier90 file at all (4% line coverage).",
  ["wannier90_tb_format.py", "bandstructure.py", "tight_binding_asym.py"],
  [("load_hr / load_tb", "wannier90_tb_format.py")])

p("C07", "Model arithmetic acts on the bands as written and never on the operands",
  "Multiplying a model by a number multiplies all its bands, adding a number shifts all its bands, adding two models gives the sorted union of both band sets, permuting the basis leaves the bands alone, and transforming the lattice with A gives at k the bands the model had at A^T k. A result or a copy never shares couplings with its source: changing one leaves the other's bands unchanged. Adding neighbours with no coupling leaves the bands alone, and limiting or cleaning up neighbours keeps exactly the couplings that satisfy the requested length, count or size limit (always including the origin).",
  ["inputs", "histories"], "all models, scalars, permutations, lattice matrices, and all sequences of these operations",
  "Tests use a few of these operations once; aliasing and sequences are not tested.",
  ["tight_binding_asym.py", "bandstructure.py"],
  [("__add__, __mul__, copy, permute, transform", "bandstructure.py"), ("HermitianFourierSeries neighbour editing", "tight_binding_asym.py")],
  [("coefficient functions linked to the neighbour array", "copies of a BandStructureModel share neighbours (documented)", "bandstructure.py")])

p("C08", "A supercell model has exactly the folded bands of the original",
  "For every integer matrix of non-zero determinant that describes the enlarged lattice in terms of the original one, the supercell model has |det| times as many bands, and at every k its energies are the union of the original energies at all |det| k-points that fold onto it. The trace of H per original band is preserved and an identity supercell is the same model.",
  ["inputs", "configurations"], "all models (with or without overlap), all supercell matrices (also negative entries, negative determinant, non-diagonal), lattices, dimensions 1-3",
  "Only one diagonal supercell is used (to build the free electron model); folding is never compared.",
  ["tight_binding_asym.py", "bandstructure.py"],
  [("supercell", "tight_binding_asym.py"), ("supercell", "bandstructure.py")])

p("C09", "The free-electron reference model reproduces k^2 bands",
  "The built-in orthorhombic free-electron model has, for any positive lattice constants and any number of bands per direction, lowest band energies converging to |k|^2 (in its stated unit) folded into the Brillouin zone: the error at every k shrinks when more neighbours are used, and the energy at the zone centre and the effective mass match free electrons within the truncation error. The analytic free-electron model has energies exactly |k+G|^2-like, with gradient and Hessian that match.",
  ["inputs", "configurations"], "all lattice constants, neighbour counts, band counts, k-points",
  "Tests use one cubic configuration with loose tolerances on bulk numbers.",
  ["tight_binding_asym.py", "bulk_properties.py"],
  [("free_electron_model_orthogonal", "tight_binding_asym.py")])

p("C10", "Symmetry groups are groups, and group operations obey group theory",
  "Every named point group and every group generated from matrices is closed under product and inverse, contains the identity, lists each operation once (inversion included exactly when requested), and has the textbook order; changing basis, transposing, taking the dual or copying gives an isomorphic group of the same order. Equality, membership of a subgroup, products, quotients by normal subgroups, conjugacy classes and subgroups selected by a class function agree with the same notions computed on the full list of operations. Infinite or invalid generators are rejected.",
  ["inputs", "histories"], "all named groups and their subgroups, random orthogonal and unimodular bases, generator lists, orders of operations",
  "Tests check sizes of a few named groups; equality, containment, quotient and basis changes are unbounded.",
  ["symmetry.py"],
  [("Symmetry constructors, from_generator, __eq__, __contains__, __mul__, __truediv__, conjugacy_classes, subgroup", "symmetry.py")])

p("C11", "Orbits, irreducible k-points and neighbour stars are complete and consistent",
  "Completing a list of neighbours with a symmetry gives the origin first and exactly one vector of each +-R pair of every star, with no vector missing or repeated. Expanding symmetric data produces every symmetry image of every k-point once with the value of its source, reducing keeps exactly one representative per orbit, and reducing then expanding gives the same point set back. The k-point weights and orbit sizes equal the numbers obtained by counting images directly.",
  ["inputs"], "all point groups, dimensions, neighbour lists and k-point sets (special and generic points, zone boundary points)",
  "Tests use one cubic grid and spot-check counts.",
  ["symmetry.py"],
  [("realize_symmetric, realize_symmetric_data, reduce_symmetric_data, complete_neighbors, k_weight, r_class_size, find_classes", "symmetry.py")])

p("C12", "Tensor symmetrisation projects onto the invariant tensors",
  "For every group and every tensor rank, symmetrising a tensor gives a tensor that is left unchanged by every operation of the group (inversion included, with the sign rule of pseudo-tensors), leaves already invariant tensors unchanged, is linear, and equals the average over all operations. It follows that it is idempotent, and that odd-rank tensors vanish with inversion.",
  ["inputs"], "all groups, ranks, covariant/contravariant splits, tensors, pseudo or not, non-orthogonal bases",
  "Tests check one cubic rank-2 example.",
  ["symmetry.py"], [("Symmetry.symmetrize", "symmetry.py")])

p("C13", "Unitary representations are representations and symmetrise matrices",
  "Each built-in representation assigns to the operations of its group unitary matrices that multiply like the operations do, with the right inversion sign, and sums and products of representations are representations of the summed and multiplied dimension. Symmetrising a matrix or a coupling list with a representation gives the group average: a projection whose result commutes with the representation; the fast precompiled form agrees with the direct one.",
  ["inputs", "configurations"], "all built-in representations, their sums/products, groups, matrices",
  "Tests check a few fixed representations on random matrices.",
  ["unitary_representations.py"],
  [("UnitaryRepresentation constructors, __add__, __mul__, symmetrize, symmetrizer", "unitary_representations.py")])

p("C14", "Symmetrised Hamiltonians are symmetric in every band and k-point",
  "Symmetrising any couplings with a declared Hamiltonian symmetry gives couplings whose H(k) commutes with the symmetry, so that the bands at k and at every symmetry image of k are equal; symmetrising again changes nothing, symmetrising an already symmetric Hamiltonian returns it, and the operation is linear. The fast precompiled symmetriser gives the same result as the direct one for complete neighbour sets.",
  ["inputs", "configurations"], "all point groups with orbital sites and representations, neighbour stars, couplings, k-points",
  "Tests check a few crystals with one random Hamiltonian each.",
  ["hamiltonian_symmetry.py", "unitary_representations.py"],
  [("HamiltonianSymmetry.symmetrize / symmetrizer / append", "hamiltonian_symmetry.py")])

p("C15", "Geometric cut functions are exact volumes and areas",
  "The fraction of a grid cell (cube, tetrahedron, sphere) that lies below an energy plane is monotone in the energy, runs from 0 to 1, is the complement of itself under reversing the plane, and equals the exact geometric volume; the matching cross-section area is its derivative. Values depend only on the plane (not on order or sign of gradient components) up to the documented rounding of tiny components.",
  ["inputs"], "all gradient directions (including axis-aligned, diagonal, zero and near-zero components) and plane offsets",
  "Tests compare a handful of directions with tolerances; boundary cases of the piecewise formulas are unbounded.",
  ["smearing.py"], [("cube / tetrahedron / sphere slice functions", "smearing.py")])

p("C16", "Density of states counts states: normalised, monotone and consistent",
  "For every model and every interpolation method the number of states below an energy goes monotonically from 0 to the number of bands, splits into the contributions of the single bands, shifts with the bands, and scales with them; the density of states is its derivative and integrates to the number of bands. The result is the same for symmetric copies of the model, for re-ordered bands and for any lattice basis, and for models with linear dispersion it equals the analytic value.",
  ["inputs", "configurations"], "all models (random couplings, analytic functions), grid sizes, interpolation methods, energies",
  "Tests check three analytic dispersions at one grid size.",
  ["density_of_states.py", "smearing.py"],
  [("DensityOfStates.states_below, density, states_density, full_curve", "density_of_states.py")])

p("C17", "Fermi energy, chemical potential and band gap follow from the state count",
  "The Fermi energy of n electrons is an energy at which the count of states equals n (inside the gap when there is one); the chemical potential at temperature T keeps the thermal occupation equal to n and tends to the Fermi energy for T to 0. The reported band gap is the distance between the highest occupied and lowest unoccupied band edge, with their k-points, and non-existing solutions are reported as errors, never as wrong numbers.",
  ["inputs", "configurations"], "all models, fillings, sorted lists of temperatures, methods",
  "Tests check a metal at one filling.",
  ["density_of_states.py"],
  [("fermi_energy, chemical_potential, bandgap", "density_of_states.py")])

p("C18", "Thermal averages are exact for the interpolated state count",
  "The built-in thermal kernels integrate polynomials (and piecewise linear curves) against the Fermi function and its derivatives exactly, at every temperature and offset. Internal energy and heat capacity computed from a state-count curve agree with direct integration, the heat capacity is the temperature derivative of the energy at fixed particle number, and both reduce to the ground state for T to 0.",
  ["inputs"], "all curves, chemical potentials, temperatures, polynomial orders",
  "Tests check one 1D integral.",
  ["density_of_states.py", "bulk_properties.py"],
  [("convolve_df, convolve_ddf, energy, heat_capacity", "density_of_states.py"), ("gauss kernels, int_poly", "bulk_properties.py")])

p("C19", "Fermi-surface samples lie on the surface and carry its measure",
  "Every point returned by Fermi-surface sampling lies on the interpolated iso-energy surface of its band, in the Brillouin zone, and its weight is its share of the area of that surface (in units of the Brillouin zone volume), such that sum(weight/|gradient|) is the density of states at that energy. Bands that do not cross the energy contribute nothing, and normalised weights sum to one.",
  ["inputs", "configurations"], "all models, energies, lattice bases, methods",
  "No test calls it.",
  ["density_of_states.py"], [("fermi_surface_samples", "density_of_states.py")])

p("C20", "Fermi-surface fields and meshes represent the zero set of E(k)-E_F",
  "The signed distance fields contain exactly the bands that cross the Fermi energy, in order, with values E(k)-E_F at the passed k-points, and the exported mesh files list only valid faces, whose vertices lie on the iso-surface (in units of the sampling grid), grouped by band. Contour plots draw exactly these bands and leave the model and the inputs unchanged.",
  ["inputs"], "all models, Fermi energies, grids and k-ranges",
  "0% line coverage.",
  ["fermi_surface.py"], [("fermi_surface, export_3D_fermi_surface, plot_2D_fermi_surface", "fermi_surface.py")])

p("C21", "Transport integrals equal their definition and transform as tensors",
  "The transport integrals are the sum over bands of the Brillouin zone integral of velocity products weighted with powers of (E-mu) and the derivative of the Fermi function; they are symmetric positive semi-definite, rotate as tensors with the model, scale with the lattice constant and band energies by the powers their units demand, and reduce to the Fermi-surface integral for T to 0. Conductivity, Seebeck, Peltier and thermal conductivity follow from them by the Onsager relations (Peltier = T * transposed Seebeck), and insulators at T = 0 give zero conductivity rather than an error.",
  ["inputs", "configurations"], "all models, sorted lists of temperatures, chemical potentials, cells",
  "Tests check one free-electron gas.",
  ["bulk_properties.py"], [("KIntegral", "bulk_properties.py")])

p("C22", "Loss functions measure the stated distance between band sets",
  "The fit loss is the root mean square over k-points of the weighted band differences, zero exactly for equal bands, and the per-band error is the largest absolute difference; all loss entry points of all models agree. The windowed loss is the smallest such distance over all admissible band assignments and only counts reference energies inside the window, and the error histogram reports the largest error among the reference energies in each bin. Inputs are never modified.",
  ["inputs"], "all band arrays, weights, offsets, windows, band count mismatches of either sign",
  "Tests compare two implementations on one model; windowed loss and histogram are untested (27% coverage).",
  ["loss.py", "bandstructure.py", "tight_binding_asym.py"], [("model_error, model_loss, model_windowed_loss, model_error_hist", "loss.py")])

p("C23", "Fitting never ends worse than promised and keeps its invariants",
  "Every optimiser reports, as its last logged loss, the loss of the model it leaves behind; it recovers data of a model of the same form when started close to it, never changes the passed reference data, weights or k-points, keeps structural zeros when asked, keeps a declared symmetry, and leaves the on-site matrix Hermitian. The log is chronological, contains every iteration's loss, and zero iterations change nothing but the normalisation.",
  ["inputs", "histories"], "all small models, reference data, weights, offsets, optimiser options and repeated runs",
  "Tests fit one fixed data set per optimiser.",
  ["bandstructure.py", "tight_binding_asym.py", "logger.py", "linalg.py"],
  [("optimize, optimize_cg", "bandstructure.py"), ("optimize, optimize_cg", "tight_binding_asym.py"), ("OptimisationLogger", "logger.py")])

p("C24", "k-paths visit their points in order with consistent lengths and labels",
  "A k-path built by any sequence of segments starts at its start point, contains every requested corner in order at the reported index, has equally spaced points on each segment and a path coordinate that is the accumulated distance and never decreases. Named points, tuples and arrays are interchangeable, transformed or exported paths refer to the same points, and building paths or asking for point tables never changes other paths or the shared tables.",
  ["inputs", "histories"], "all sequences of path construction, point specifications, sample counts, dimensions",
  "Tests plot two fixed paths.",
  ["kpaths.py"], [("KPath.to, path, x coordinates, str", "kpaths.py")],
  [("points", "module-level table of named symmetry points", "kpaths.py")])

p("C25", "Tabulated high-symmetry points have the symmetry they are named for",
  "For every lattice shape parameter, each tabulated point lies on the boundary of the Brillouin zone of that lattice (or is its centre): no reciprocal lattice vector is closer to it than the origin, and corner points are equidistant to as many lattice points as their type demands. The tables depend only on their arguments, also after other tables have been requested.",
  ["inputs", "histories"], "all lattice ratios and angles accepted by the generators, and all call orders",
  "Tests never call the lattice-dependent generators.",
  ["kpaths.py"], [("hexagonal_points, tetragonal_bc_points, trigonal_points, ...", "kpaths.py")])

p("C26", "Interpolated band data reproduces the data and its symmetry",
  "Interpolating band data given on a full or a symmetry-reduced periodic grid returns exactly the data at every data point and its periodic and symmetric images, stays within the data range for linear interpolation, is periodic, converges to smooth periodic data with the order of the method everywhere in the unit cell, and does not depend on the order in which the data points are listed. Looking up unstructured data returns the data at known points and NaN elsewhere.",
  ["inputs", "configurations"], "all grids (sizes, dimensions, reduced by symmetry or not), band data, point orders, methods",
  "Tests interpolate one cubic model on one grid.",
  ["kpaths.py", "symmetry.py"], [("interpolate, interpolate_unstructured", "kpaths.py")])

p("C27", "Linear algebra helpers satisfy their defining equations",
  "Direct sums are block diagonal, Kronecker products and axis merging match their definition for any number of factors, random Hermitian/unitary matrices are Hermitian/unitary, generalised eigenpairs satisfy the eigenvalue equation with overlap-orthonormal vectors, conjugate gradients solve any positive definite system to the requested residual, and lattice enumeration returns exactly the lattice points inside the sphere, each once. No helper modifies its arguments.",
  ["inputs"], "all matrix shapes, positive definite systems, starting vectors, lattice bases (also skewed ones) and radii",
  "Only covered indirectly by other tests.",
  ["linalg.py"], [("direct_sum, kron, merge_axes, geigh, conjugate_gradient_solve, lattice_in_sphere", "linalg.py")])

p("C28", "Quantum Espresso lattices and input text describe the requested crystal",
  "Every lattice constructor returns, as columns, lattice vectors with the requested lengths, angles, centring and cell volume, and the constructors that take angles or several lengths (triclinic to rhombohedral) reject impossible parameters. The generated input text contains exactly the requested cell, species, positions, k-points and path in the requested units, and mass density and rescaling to a density are consistent with cell volume and atomic masses and leave the caller's arrays alone. Preparing a run registers the requested pseudopotential files and only fetches missing files with plain names.",
  ["inputs", "configurations"], "all lattice parameters, bases, species, units, k-point lists and paths",
  "12% line coverage, no test generates input.",
  ["qespresso_interface.py"], [("sc, fcc, ..., rhombohedral, k_points, k_grid, QECrystal input generation, mass_density", "qespresso_interface.py")])

p("C29", "Quantum Espresso output is read back as the data it contains",
  "Reading band-structure, projection, density-of-states, wave-function and charge-density output returns exactly the numbers in the files, in the documented units, coordinates, order and shape, and a crystal restored from disk has the cell, atoms, positions, cut-off and pseudopotentials of the run. k-points are in crystal coordinates and symmetry operations map the reciprocal lattice onto itself.",
  ["inputs"], "all well-formed output files (any number of k-points, bands, atoms, symmetries, spins, lattices)",
  "Tests read no Quantum Espresso file.",
  ["qespresso_interface.py"], [("read_bands_crystal, read_projections, read_wavefunctions, read_charge_density, from_disk", "qespresso_interface.py")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
