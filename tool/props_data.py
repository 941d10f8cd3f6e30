prop("C01", "Parallel execution never races and never changes results",
 "For every number of threads and every schedule, no two threads of any parallel section touch the same memory location at the same time with at least one of them writing, unless both accesses are protected by the same synchronisation. Parallel builds of matrix elements, two-electron tables, exchange matrices and exchange-correlation grids therefore give what the serial loops give up to summation order.",
 ["schedules", "inputs"], "every interleaving of every OpenMP team, every basis, density and functional",
 "The existing tests never enter a parallel section with competing threads, and a lost update shows only under particular interleavings.",
 ["libhelfem/src/FiniteElementBasis.cpp", "libhelfem/src/RadialBasis.cpp", "libhelfemqc/include/CoulombExchangeFE.h", "src/atomic/TwoDBasis.cpp", "src/atomic/dftgrid.cpp", "src/sadatom/dftgrid.cpp", "src/sadatom/basis.cpp", "src/sadatom/scf.cpp", "src/diatomic/basis.cpp", "src/diatomic/dftgrid.cpp", "src/diatomic/twodquadrature.cpp", "src/general/gaunt.cpp"],
 [("per-iteration output slots", "vectors indexed by element / (L,element) / grid point in each parallel loop"),
  ("even/odd element sweeps separated by a barrier", "DFTGrid::eval_Fxc in src/atomic/dftgrid.cpp and src/sadatom/dftgrid.cpp"),
  ("thread-private workers and reductions", "DFTGridWorker objects declared inside the parallel block; reduction clauses"),
  ("serial priming of lazily filled caches", "DFTGrid::prime_quadrature_cache before the batched Fock build in src/sadatom/scf.cpp")],
 technique="interprocedural effect analysis with affine partition proofs over OpenMP regions",
 note="Decides every parallel region of the parsed program: each shared write gets a disjointness or synchronisation argument from the source, for all schedules. Trusts Eigen/libxc/libstdc++ internals and that element index ranges overlap only between neighbours; indices of undecided shape are listed in the evidence and not alarmed on.")

prop("C02", "Extended-precision calculations never drop to double precision",
 "For every instantiation of the library templates for a floating-point type wider than double (quadrature rules, polynomial and finite-element bases, radial integrals, two-electron integrals, Coulomb and exchange contraction, special functions, the atomic basis): every value that reaches a result is computed and stored in the working type throughout, every constant is exact in the working type, and every tolerance that decides between numerical branches is scaled with the working precision, so that the accuracy of the result follows the chosen type.",
 ["inputs"], "every input of every function instantiated for an extended type",
 "A value rounded to double somewhere in the middle is within every tolerance the double-precision tests use; the loss is only visible in results compared at a precision the tests do not sample.",
 ["libhelfem/src/quadrature.cpp", "libhelfem/src/FiniteElementBasis.cpp", "libhelfem/src/RadialBasis.cpp", "libhelfem/src/erfc_expn.cpp", "libhelfem/src/utils.cpp", "libhelfem/src/PolynomialBasis.cpp", "libhelfem/include/math.h", "libhelfemqc/include/CoulombExchangeFE.h", "src/atomic/TwoDBasis.cpp", "src/atomic/TwoDBasis.h", "src/legendre/Legendre.h"],
 [("templates on the scalar type", "explicit instantiations for long double in libhelfem/src and src/atomic"),
  ("constants and tolerances", "literals, math constants and thresholds in those templates")],
 technique="type-width dataflow lint over the type-checked AST",
 note="Every maximal narrower-typed expression in every function instantiated for long double is classified. One template body serves all wider types, so long double stands for them. Density-functional grids are double by interface and not covered; accuracy of algorithms is not decided.")

prop("C04", "What is saved to a checkpoint is what a later run loads",
 "For every value type the checkpoint interface accepts (scalars, strings, vectors, real and integer matrices, in every supported floating-point width) and every shape, reading an entry written by the same interface returns the same shape and elements, and entries of another rank or element class are rejected. Reading a stored atomic or diatomic basis yields a basis built from exactly the constructor parameters it was written from, a checkpoint of the other program is rejected, every polynomial basis carries the identifier and node count by which it can be rebuilt, and every entry name a program loads is one that the same family of programs saves with a compatible type.",
 ["inputs", "histories"], "every value, shape and basis parameter set; every save/load pair of runs",
 "Tests round-trip a few square or column-shaped values at one precision; a transposed, truncated or swapped field only shows for particular shapes or parameter values, in a second run.",
 ["src/general/checkpoint.cpp", "src/general/checkpoint.h", "libhelfem/src/PolynomialBasis.cpp", "src/atomic/TwoDBasis.cpp", "src/diatomic/basis.cpp", "src/sadatom/scf.cpp", "src/diatomic/main.cpp", "src/diatomic/density_grid.cpp", "src/diatomic/completeness.cpp"],
 [("dataspace extents and native types of each write/read pair", "Checkpoint::write / Checkpoint::read overloads"),
  ("basis (de)serialisation", "Checkpoint::write(const TwoDBasis &), Checkpoint::read(TwoDBasis &) and the getters they use"),
  ("identifier of a polynomial basis", "polynomial_basis::get_basis and the id field of each basis class"),
  ("entry names", "literal names given to Checkpoint::read and Checkpoint::write across src/")],
 technique="symbolic dataflow composition of writer and reader over the type-checked AST",
 note="Every write/read overload and instantiation is composed symbolically (rank, extents, element type, source/destination); basis read-after-write is evaluated on uninterpreted constructor arguments through constructors and getters. Trusts HDF5 and Eigen storage order; field values of matrices other than through these interfaces are not tracked.")

prop("C05", "Checkpoint files are never left in a bad state or silently wrong",
 "On every path through the checkpoint interface that returns normally, for a file that was open or closed and readable or writable on entry: each HDF5 handle acquired is released exactly once by the matching call and not used afterwards, a file or dataset handle is used only after its creation was checked, the file is left open if it was open before and closed if it was closed, nothing is created, written or deleted through a checkpoint opened for reading, an entry that already exists can be saved again, and the failure of a data transfer or deletion is reported to the caller instead of being ignored.",
 ["histories", "faults"], "every call sequence, entry state and failure of an HDF5 operation",
 "Tests write and read one healthy file; leaked handles, files left open and swallowed write errors do not change the values read back in the same process.",
 ["src/general/checkpoint.cpp", "src/general/checkpoint.h"],
 [("open-if-needed / close-if-opened protocol", "the cl flag in every Checkpoint member function"),
  ("write protection", "CHECK_WRITE in Checkpoint::write and Checkpoint::remove"),
  ("failure detection", "hdf5_check in src/general/checkpoint.cpp")],
 technique="disjunctive typestate analysis, interprocedural within the class",
 note="All member functions and instantiations, all entry states, all branch combinations. Exits by exception are not claimed (the current code leaks handles and leaves the file open there). Trusts HDF5 return codes as documented.")

prop("C03", "The exchange-correlation Fock matrix is the derivative of the energy",
 "For every functional (local, gradient-corrected, and meta-GGA depending on the kinetic-energy density and/or the Laplacian), spin-restricted or spin-polarized, with or without minority-spin electrons, for every density and on every grid of the atomic, spherically averaged atomic, and diatomic programs: the exchange-correlation Fock matrix that is assembled is the derivative, with respect to the density matrix, of the assembled exchange-correlation energy; every density ingredient handed to the functional is the one its role in the functional calls for; each grid point, element, functional and spin channel contributes exactly once with its quadrature weight; and the reported number of electrons and kinetic energy are integrals of the same density.",
 ["inputs"], "every density matrix, functional, grid and basis",
 "No test of the buildable suite evaluates a Fock matrix; a wrong factor, a swapped spin component or a missing cross term only affects particular kinds of functional with particular spin states.",
 ["src/general/dftgrid_common.h", "src/general/dftgrid_common.cpp", "src/atomic/dftgrid.cpp", "src/atomic/dftgrid.h", "src/sadatom/dftgrid.cpp", "src/diatomic/dftgrid.cpp", "src/diatomic/twodquadrature.cpp"],
 [("density ingredients", "update_density of the grid workers"),
  ("call of the functionals", "compute_xc in src/general/dftgrid_common.cpp"),
  ("energy", "eval_Exc"), ("Fock matrix", "eval_Fxc, increment_lda/increment_gga/increment_mgga_kin/increment_mgga_lapl"),
  ("loops over elements, shells and mirror blocks", "DFTGrid::eval_Fxc and compute_bf")],
 technique="abstract evaluation of the worker pipelines to an index-notation normal form, compared with the symbolic derivative",
 note="120 pipelines (4 worker classes x functional kinds x spin modes) evaluated symbolically for all values and sizes; drivers checked for exactly-once accumulation. Trusts libxc's documented argument roles and that tabulated basis-function derivatives are derivatives. Code of a shape the evaluator does not model is reported as undecided, not as a violation.")

prop("C06", "Basis functions, derivatives and boundary conditions are consistent",
 "For every family of element shape functions (Lagrange, Hermite of first, second and third order, Legendre), every number of nodes, element size, element position and evaluation point: the routine that returns the derivative of order n+1 returns the derivative of what it returns for order n with respect to the physical coordinate; a shape function has the value or derivative one it stands for at its own node and vanishes at all others together with the derivatives carried by other shape functions; B(r)/r and its derivatives are those of the shape function divided by r, also at the nucleus; a boundary condition removes exactly the functions it names; physical and reference coordinates are inverse to each other and weights are scaled by the same factor; consecutive elements share exactly their overlapping functions; and the radial functions, derivatives, second derivatives and values at the nucleus returned by the radial basis are those of B(r)/r.",
 ["inputs"], "every basis family, order, node set, element, point and derivative order that is accepted",
 "Tests compare a few functions at a few points to finite differences with loose tolerances; an error in a high derivative, in a Taylor or deflated branch, or for particular boundary conditions goes unnoticed.",
 ["libhelfem/src/PolynomialBasis.cpp", "libhelfem/src/FiniteElementBasis.cpp", "libhelfem/src/RadialBasis.cpp", "libhelfem/include/LIPBasis.h", "libhelfem/include/HIPBasis.h", "libhelfem/include/HIP2Basis.h", "libhelfem/include/HIP3Basis.h", "libhelfem/include/LegendreBasis.h", "libhelfem/include/PolynomialBasisT.h"],
 [("primitive evaluators", "eval_lip_prim_dnf, eval_hip_prim_dnf, eval_hip2_prim_dnf, eval_hip3_prim_dnf, LegendreBasisT::eval_prim_dnf"),
  ("B/r", "eval_over_r of each family, HIPBasis_over_r.h, HIP2Basis_over_r.h, HIP3Basis_over_r.h"),
  ("boundary conditions", "drop_first and drop_last of each family, FiniteElementBasisT::get_basis and update_bf_list"),
  ("element maps", "FiniteElementBasisT::eval_coord, eval_prim, eval_weights, scaling_factor"),
  ("radial functions", "FEMRadialBasisT::get_bf, get_df, get_lf, nuclear_density, nuclear_density_gradient, nuclear_orbital")],
 technique="abstract evaluation to a polynomial normal form and differential-algebra comparison",
 note="All derivative orders the code accepts (and the rejection of others), generic nodes and points, double and long double instantiations. Exact arithmetic: rounding and cancellation are not considered. Coincidence of a point with a node is treated as the separate branch the code takes for it.")

prop("C07", "Radial matrix elements are the integrals they are named for",
 "For every element, element size and position, polynomial basis, quadrature order, exponent, multipole order, potential and pair of bases: the overlap, kinetic, centrifugal, nuclear-attraction, r^n, Bessel-function, off-centre nuclear, model-potential and confinement matrix elements of an element are the quadrature of exactly that operator between the element's functions (or derivatives) over the element or over the requested part of it, split wherever the operator has a kink (the kinks a model potential reports, the onset of a confinement); whole-basis matrices add each element's block at that element's functions, so shared functions receive both contributions; integrals between two different radial bases cover exactly the common interval of every overlapping pair of elements; the primitive two-electron integrals (Coulomb, Yukawa, complementary error function) are the ordered double integrals over both electrons with the product of functions i and j at row i*n+j; the spherical potential is the inner plus the outer charge integral at every point; a confinement is selected, scaled and parametrised as documented, and meaningless parameters are refused.",
 ["inputs"], "every element, element size, basis, exponent, multipole order, operator parameter and pair of bases",
 "Tests compare a few total energies; a wrong factor in a rarely used operator, a missed kink, or a lost contribution for one relative position of two element grids changes nothing that is tested.",
 ["libhelfem/src/FiniteElementBasis.cpp", "libhelfem/src/RadialBasis.cpp", "libhelfem/src/quadrature.cpp"],
 [("adaptive element quadrature", "FiniteElementBasisT::matrix_element, matrix_element_auto, vector_element and converge_panel"),
  ("named integrals", "FEMRadialBasisT::overlap, kinetic, kinetic_l, nuclear, radial_integral, bessel_il_integral, bessel_kl_integral, model_potential, nuclear_offcenter"),
  ("confinement", "FEMRadialBasisT::confinement_potential and the four potentials it selects from"),
  ("two bases", "FEMRadialBasisT::matrix_element(rh, ...), overlap(rh), radial_integral(rh), model_potential(rh)"),
  ("two-electron primitives", "quadrature::twoe_integral, yukawa_integral, erfc_integral, spherical_potential")],
 technique="abstract evaluation to a polynomial normal form compared with the definition of each integral",
 note="Quadrature rules and basis functions are uninterpreted, so the result holds for all of them; two-electron primitives are compared on a rule of three symbolic points and two functions, cross-basis integrals on six relative positions of two grids of up to two elements. Convergence of the quadrature and rounding are not decided.")

prop("C08", "One-electron matrices and angular couplings are those of the operators",
 "For every list of angular channels, element layout, charge, field strength and internuclear distance: the overlap, kinetic, nuclear-attraction, radial-power, dipole, quadrupole, magnetic-field, confinement and other one-electron matrices of the atomic, spherically averaged atomic and diatomic programs have, between every two basis functions, the angular coefficient of the operator times the corresponding radial integral, and nothing between functions it does not couple; every Gaunt coefficient and modified coupling coefficient used equals the integral of the spherical harmonics it is named for, is zero where selection rules forbid it, and coefficients beyond the tabulated range are refused instead of read from elsewhere.",
 ["inputs"], "every channel list, element layout, operator parameter and pair of functions",
 "Tests exercise the s and p channels of a few systems; a wrong coefficient for one combination of l and m, or a lost off-diagonal block, changes only calculations with fields, higher multipoles or diatomics.",
 ["src/atomic/TwoDBasis.cpp", "src/sadatom/basis.cpp", "src/diatomic/basis.cpp", "src/general/gaunt.cpp", "src/general/gaunt.h"],
 [("block assembly", "TwoDBasis::overlap, kinetic, nuclear, dipole_z, quadrupole_zz, Bz_field and others; set_sub, add_sub, get_sub"),
  ("off-centre nuclei", "atomic TwoDBasis::nuclear with charges away from the origin"),
  ("prolate spheroidal one-electron matrices", "diatomic TwoDBasis::overlap, kinetic, nuclear, dipole_z, quadrupole_zz"),
  ("coupling coefficients", "gaunt::Gaunt tables: coeff, mod_coeff, cosine_coupling, cosine2_coupling, sine2_coupling, cosine_sine2_coupling")],
 technique="abstract interpretation in a polynomial term domain, compared with matrices written from the operators",
 note="Exact and for all values of the radial integrals, charges, fields and distances. The discrete structure is enumerated, not quantified: three element layouts, channel lists up to l=3 with all signs of m, couplings up to l=4. Radial integrals themselves are C07. Code of a shape the interpreter does not model is undecided, not alarmed on.")

prop("C09", "Coulomb and exchange matrices contract the two-electron integrals correctly",
 "For every density matrix, element layout and list of angular channels, and for the Coulomb, Yukawa and error-function kernels: the Coulomb matrix is the contraction of the two-electron integrals with the density over the pair of functions of the other electron, the exchange matrix (in its plain, symmetry-restricted and range-separated forms, atomic, spherically averaged and diatomic) is the contraction over crossed pairs of the same integrals; every pair of channels and multipole enters with its coupling coefficients and prefactor, every pair of elements with its in-element integrals or its product of inner and outer moments, and nothing is dropped other than by a screening threshold that is negligible relative to machine accuracy.",
 ["inputs"], "every density matrix, element layout, channel list and kernel",
 "Tests run closed-shell atoms whose density has few nonzero blocks; a transposed block, a missing sign for odd m, or swapped inner and outer moments only matters for densities that couple different channels or elements.",
 ["src/atomic/TwoDBasis.cpp", "src/sadatom/basis.cpp", "src/diatomic/basis.cpp", "libhelfemqc/include/CoulombExchangeFE.h", "libhelfem/src/RadialBasis.cpp"],
 [("atomic", "TwoDBasis::coulomb, exchange, rs_exchange, compute_tei, compute_yukawa, compute_erfc"),
  ("spherically averaged", "sadatom TwoDBasis::coulomb, exchange, rs_exchange"),
  ("diatomic", "diatomic TwoDBasis::coulomb, exchange, compute_tei and the Cholesky factors of the in-element integrals"),
  ("shared finite-element contraction", "libhelfemqc/include/CoulombExchangeFE.h")],
 technique="abstract interpretation in a polynomial term domain, compared with the contraction of the integrals",
 note="Exact and for all densities and radial integrals. The discrete structure is enumerated: two and three elements of unequal size and channel lists with mixed l and m including incomplete shells. Radial integrals of an element are C07, couplings C08; the accuracy of a Cholesky factor or of screening below 1e-12 is not decided.")

prop("C10", "Symmetry blocks and function lists describe the basis exactly",
 "For every element layout and list of angular channels: the numbers of functions, the lists of functions a basis hands out for an element, for m, for (l,m), for a parity, and for each symmetry block contain exactly the functions with the stated property, in increasing order and with no function left out or listed twice; blocks partition the basis and differ in the label of their symmetry; block labels and mirror blocks (the partners with -m) are in step with the blocks; removing and restoring boundary functions loses and invents nothing; and a symmetry that is not known is refused.",
 ["inputs"], "every element layout, channel list and symmetry setting",
 "Tests use full shells of small l; a list that is wrong for interleaved or incomplete channel lists silently loses functions from the calculation.",
 ["src/atomic/TwoDBasis.cpp", "src/diatomic/basis.cpp", "src/general/angular_index_helpers.h"],
 [("symmetry blocks", "TwoDBasis::get_sym_idx, get_sym_mirror_idx"), ("index lists", "lm_indices, m_indices, bf_list, bf_list_dummy, pure_indices"),
  ("boundary functions", "remove_boundaries, expand_boundaries"), ("labels", "get_l, get_m, lm_labels and m maps")],
 technique="abstract interpretation of the index functions over enumerated layouts",
 note="The layouts are enumerated: three element layouts and channel lists with mixed and incomplete l and m up to l=3.")

prop("C11", "The SCF drivers minimise the energy they print",
 "For every density, Hamiltonian, field, functional kind, spin state, symmetry setting and start mode of the atomic, spherically averaged atomic and diatomic programs: the energy the Fock builder returns for a set of orbitals and occupations is the total energy functional of their density, the Fock matrices are its derivative in the orthonormal basis of each block (also when densities are evaluated in batches); block sizes, maximum occupations and electron numbers describe the requested charge, multiplicity and symmetry; a symmetry broken by the field or by the nuclei is not imposed; the initial guess is the requested one; loaded densities are projected and normalised to the requested electron number with orbitals and occupations in step; frozen occupations are passed to the block they name; and the saved densities and orbitals are those of the final state.",
 ["inputs", "histories"], "every density and option combination, including restarts",
 "The drivers are not exercised by any test of the buildable suite, and a single run converges to a plausible energy even if, for one option, Fock matrix and energy disagree or a block is degenerate by mistake.",
 ["src/atomic/main.cpp", "src/diatomic/main.cpp", "src/sadatom/scf.cpp", "src/general/scf_driver_common.h", "src/general/scf_helpers.cpp"],
 [("Fock builder", "build_fock lambdas of atomic and diatomic main and of run_atomic_scf"), ("block data", "fill_block_specs and its callers"),
  ("electron counts", "derive_nela_nelb_restricted, parse_nela_nelb"), ("guess, load and save", "the parts of the drivers around the solver call")],
 technique="abstract interpretation of the drivers in a polynomial term domain",
 note="Exact in all matrix elements, orbitals, occupations, fields, charges and distances. 91 option scenarios; electron counts on 5040 combinations. The solver (OpenOrbitalOptimizer) is outside the repository and taken at its interface.")

prop("C12", "Grid functions, densities and weights are those of the orbitals",
 "For every element layout, channel list, point and density matrix: the integration grids of the atomic, spherically averaged atomic, diatomic and model-potential codes carry the weights and scale factors of their coordinates (angular rule times radial or confocal measure, mirrored half-ranges counted twice), the basis functions and their gradients and Laplacians at a grid point are those of the basis function the index denotes, and spin densities, reduced gradients, kinetic energy densities, Laplacians and integrated particle numbers are those of the given density matrices; Gaussian and Slater orbitals used for projections are normalised and placed at the centre they are asked for.",
 ["inputs"], "every element layout, channel list, density matrix, rule and point",
 "Tests compare converged totals of closed-shell systems; a wrong component for odd m, a wrong mirror weight or a mislaid centre is invisible when the density has one symmetry.",
 ["src/atomic/dftgrid.cpp", "src/diatomic/dftgrid.cpp", "src/sadatom/dftgrid.cpp", "src/diatomic/twodquadrature.cpp", "src/general/lcao.cpp", "src/general/angular.cpp", "src/general/spherical_harmonics.cpp"],
 [("atomic grid", "atomic::dftgrid::DFTGridWorker::compute_bf, update_density"), ("diatomic grid", "diatomic::dftgrid::DFTGridWorker and its pure-m variant"),
  ("basis on points", "TwoDBasis::eval_bf, eval_df, eval_lf"), ("2D quadrature", "TwoDGridWorker"), ("angular rules", "angular::compound_rule, angular_chebyshev"), ("atomic orbitals", "lcao::radial_GTO, radial_STO")],
 technique="abstract interpretation with textbook expressions as oracle",
 note="Interpreted from source with radial shape functions, nodes, lengths, rule points and density elements as symbols; results are compared as analytic expressions at generic points. A few element layouts and channel lists stand for all. Accuracy of quadrature and roundoff are not decided.")

prop("C13", "Spherical atoms: densities, screening charges and model potentials",
 "For every tabulated or freshly computed spherical atom, occupation, element layout and radius: the density, its gradient and Laplacian, the kinetic energy density, the charge inside a sphere, and the Coulomb and exchange-correlation screening charges are those of the stored orbitals; potentials exclude no charge and count none twice, at the nucleus, at element boundaries and past the last point; radius searches return a crossing whenever one exists; and every nuclear model and model potential (point, Gaussian, spherical, hollow, regularised, GSZ, Thomas-Fermi, tabulated SAP) has its defined value on each side of its break points, and never reads outside its tables.",
 ["inputs"], "every atom, occupation, layout, radius and parameter",
 "Tests look at one or two atoms' total energies; screening charges and potential guesses only change where the SCF starts, so a wrong one passes every energy test.",
 ["src/general/atomdb.cpp", "src/sadatom/basis.cpp", "src/general/gsz.cpp", "src/general/model_potential.cpp", "src/general/sap.cpp", "libhelfemqc/src/RegularizedNucleus.cpp", "libhelfemqc/src/SphericalNucleus.cpp", "libhelfemqc/src/GaussianNucleus.cpp", "libhelfemqc/src/HollowNucleus.cpp"],
 [("tabulated atoms", "atomdb: density, enclosed charge, hartree and xc screening"), ("sadatom output", "sadatom::basis::TwoDBasis: electron_density, coulomb_screening, xc_screening, vdw_radius"), ("potentials", "modelpotential::get_nuclear_model, GSZAtom, TFAtom, SAPAtom, GaussianNucleus, RegularizedNucleus")],
 technique="abstract interpretation with textbook expressions as oracle",
 note="Interpreted from source with orbital coefficients, shape functions and libxc's outputs as symbols; compared as analytic expressions at generic points. Bisection loops are followed on an enumerated family of profiles. Values of tabulated coefficients and roundoff are not decided.")

for _id, _t, _s, _o, _q, _w, _f, _m, _na in [
 ("N01", "SCF iterations converge to the reference energies", "For every atom or molecule, basis and start, the SCF iteration reaches a stationary point whose energy agrees with the literature reference to the accuracy of the basis.", ["inputs", "histories"], "every system, basis and start", "Tests sample a few light closed-shell systems.", ["src/atomic/main.cpp", "src/diatomic/main.cpp", "src/sadatom/main.cpp"], [("SCF", "OpenOrbitalOptimizer solver calls")], "The fixed point of a nonlinear iteration in an external library depends on run-time spectra; no static argument in reach bounds it."),
 ("N02", "Quadratures, series and recurrences reach machine accuracy", "For every argument a calculation can produce, the radial quadratures, Legendre P and Q functions, Bessel functions and screened-interaction expansions are accurate to a few units of rounding.", ["inputs"], "every argument, order and number of nodes", "Tests tabulate a few arguments.", ["libhelfem/src/RadialBasis.cpp", "libhelfem/src/erfc_expn.cpp", "src/legendre/Legendre.cpp"], [("series", "erfc_expn, Legendre")], "Convergence rate and rounding are quantitative run-time matters; C06, C07 and C12 decide that the right expression is formed, not how accurately it is summed."),
 ("N03", "Decomposed two-electron integrals stay within the requested tolerance", "For every basis and tolerance, integrals rebuilt from a pivoted Cholesky factor differ from the exact ones by no more than the tolerance.", ["inputs"], "every basis and tolerance", "The remainder depends on the spectrum of each integral matrix.", ["libhelfemqc/include/CoulombExchangeFE.h"], [("Cholesky", "factorised exchange")], "The remainder depends on the spectrum of computed integrals, which no static argument in reach bounds."),
 ("N04", "Orthonormalisation is numerically stable", "For every basis that is not linearly dependent, the half-inverse overlap orthonormalises the basis to working accuracy.", ["inputs"], "every basis", "Tests use well-conditioned bases.", ["src/diatomic/basis.cpp", "src/atomic/TwoDBasis.cpp"], [("half inverse", "TwoDBasis::Sinvh")], "A condition number is a property of computed spectra, not of the source."),
 ("N05", "Run time and memory stay within documented scaling", "For every input, run time and memory grow with the documented powers of the basis size.", ["inputs"], "every basis size", "Tests use small bases.", ["libhelfemqc/include/CoulombExchangeFE.h"], [("scaling", "two-electron tables")], "Cost bounds over run-time sizes of external linear algebra are outside the analyses in reach."),
]:
    prop(_id, _t, _s, _o, _q, _w, _f, _m, na=_na)
