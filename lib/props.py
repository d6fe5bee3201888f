"""Source of properties.jsonl and MANIFEST.json (run: python3 lib/mkmanifest.py)."""
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, note, state=(), technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, note=note, state=state,
                  technique=technique or "TLA+ specification checked by TLC; TLC-generated inputs replayed in the code and recorded traces validated against the specification"))

L = "libdiskpp/include/diskpp/"
p("M01", "Mesh generators produce conforming meshes of the unit domain",
  "Every mesh made by the built-in generators (triangles, quadrilaterals, hexagons, tetrahedra, hexahedra; any level or number of refinements) covers its domain exactly once with cells of positive measure, has each face exactly once and shared by one or two cells on opposite sides, and marks as boundary exactly the faces on the boundary of the domain, with the documented side numbers. Generating a level again on the same generator gives the same mesh as generating it on a fresh one.",
  ["inputs", "histories"], "all mesh families, sizes/levels and all sequences of make_level/refine calls",
  "unit tests check cell counts and boundary numbers of two families at fixed sizes",
  [L + "mesh/meshgen.hpp"], [("simple_mesher::refine, fvca5_hex_mesher::make_level, make_level", L + "mesh/meshgen.hpp")],
  ["mesh queries (cells, faces, points, boundary_info) after each generator call"],
  "Exhaustive check of the tiling clauses on every generated mesh of the explored sizes; meshes beyond the explored levels rest on the regularity of the construction.")
p("M02", "Mesh queries agree with each other and with the mesh",
  "For any mesh, the queries (cells, faces, points of an element, faces of a cell, lookup, offset, boundary and internal face iterators, boundary ids and counts, domain ids, neighbours, bounding box) all describe the same mesh: lookups invert iteration, face lists and neighbour relations are symmetric, counts equal enumerations. This stays true after transforming the points or declaring internal interfaces, which change only the coordinates and only the marks of the interface faces; looking up an element that is not in the mesh is reported.",
  ["inputs", "histories"], "all conforming meshes of all mesh types and all histories of transform/mark/query",
  "tests sample a couple of generated meshes and never compare the query paths with one another",
  [L + "mesh/mesh.hpp", L + "mesh/mesh_storage.hpp", L + "geometry/element_generic.hpp", L + "geometry/element_simplicial.hpp", L + "geometry/element_hexahedral.hpp", L + "mesh/mesh_utility.hpp", L + "loaders/loader_utils.hpp"],
  [("mesh::lookup, boundary iterators, connectivity_via_faces, mark_internal_faces, bounding_box", L + "mesh/mesh.hpp")],
  ["public mesh queries"], "Meshes are drawn from the document generator specification (seven mesh kinds, random numbering, stretching, shearing and domain/boundary numbering).")
p("M03", "Refinement hierarchy: levels are nested and located points are right",
  "In a mesh hierarchy each level refines the previous one: every fine cell lies inside its reported parent, the cells of a level tile the domain, and boundary and domain marks are inherited. Locating a point of the domain gives a cell of the asked level that contains it, and asking for a level that does not exist is rejected.",
  ["inputs", "histories"], "all initial triangular meshes, refinement depths, points and level arguments",
  "no existing test builds a hierarchy",
  [L + "mesh/mesh_hierarchy.hpp"], [("mesh_hierarchy::build_next, locate_point, meshes_begin", L + "mesh/mesh_hierarchy.hpp")],
  ["mesh_hierarchy public interface"], "Depth up to three on the explored initial meshes.")
p("M04", "Mesh loaders load exactly the mesh the file describes or report failure",
  "Every mesh file loader (FVCA5, FVCA6, Netgen 2D/3D, DiSk++ cartesian 2D/3D, Medit 2D/3D, polyhedral formats) gives a conforming mesh with exactly the points, cells and boundary faces (with their numbers) that the file describes. A missing, truncated or malformed file is reported as a failure instead of a wrong mesh, a crash or an endless loop.",
  ["inputs", "fault_sequences"], "all well-formed files of each format, and missing/truncated/malformed ones",
  "no existing test loads a mesh file",
  [L + "loaders/" + x for x in ("loader.hpp", "loader_fvca5.hpp", "loader_fvca6.hpp", "loader_netgen.hpp", "loader_cartesian.hpp", "loader_medit.hpp", "loader_poly.hpp", "loader_uniform.hpp", "loader_utils.hpp")] ,
  [("*_loader::read_mesh / populate_mesh, load_mesh_*", L + "loaders/")],
  ["return value of read_mesh/load_mesh and the queries of the loaded mesh"],
  "Files are written from generated abstract meshes by an independent writer; faults are a fixed set of truncations and corruptions per format.")
p("G01", "Geometric quantities of cells and faces are exact",
  "For every cell and face of every mesh type, measure (signed or not), barycenter, diameter, bounding-box sizes and centre, average diameter, convexity test, local axes and point-in-cell test equal their exact geometric values up to rounding. Normals are of unit length, orthogonal to the face and point out of the given cell, so that the face normals of a cell weighted by face measures add up to zero.",
  ["inputs"], "all cells and faces, including non-convex polygons, hanging nodes (aligned vertices) and any vertex numbering",
  "unit tests check a handful of fixed meshes with regular cells",
  [L + "geometry/geometry_all.hpp", L + "geometry/geometry_generic.hpp", L + "geometry/geometry_simplicial.hpp", L + "geometry/geometry_hexahedral.hpp", L + "common/simplicial_formula.hpp"],
  [("measure, barycenter, normal, diameter(s), is_inside, is_convex, inertia_axes", L + "geometry/")],
  ["return values of the geometry functions"], "Exact integer arithmetic in the specification; values of the code are compared after projection with relative accuracy 1e-9..1e-6.")
p("G02", "Decompositions of elements in simplices tile the element",
  "Every decomposition of a cell or face in triangles or tetrahedra (fan, ear cutting, constrained triangulation, barycentric split) covers the element exactly once: pieces do not overlap, do not leave the element and their measures add up to its measure. This holds for convex and non-convex polygons and with aligned vertices.",
  ["inputs"], "all two- and three-dimensional cells and faces of all mesh types",
  "tests only check that the areas sum up on two mesh families",
  [L + "geometry/geometry_generic_triangulations.hpp", L + "quadratures/bits/raw_simplices.hpp", L + "contrib/earcut.hpp"],
  [("triangulate_polygon, triangulate_nonconvex_polygon, split_in_raw_triangles, split_in_raw_triangles_index, split_in_raw_tetrahedra", L + "quadratures/bits/raw_simplices.hpp")],
  ["lists of simplices returned"], "Tiling is decided exactly (oriented boundary chains in 2D, containment and separating planes in 3D).")
p("B01", "The boundary condition registry reflects the declarations made on it",
  "After any history of declarations (Dirichlet, Neumann, Robin, contact; per boundary number or Dirichlet everywhere; scalar or vector), each face reports exactly the last declaration of each kind made for its boundary number (kind, type, number, function scaled by the factor in force), independently of the other kinds. Face counts, cell queries, contact face lists and numbers of imposed unknowns equal the ones computed from the per-face answers, and invalid requests are rejected.",
  ["histories", "inputs"], "all histories of declarations on all meshes with numbered boundary faces (including numbers without faces and interfaces)",
  "no existing test builds a boundary condition object",
  [L + "boundary_conditions/boundary_conditions.hpp"],
  [("BoundaryConditions::add*BC, search_faces, *_boundary_*, faces_with_*", L + "boundary_conditions/boundary_conditions.hpp")],
  ["public queries of BoundaryConditions after each declaration"],
  "All histories of two declarations over a representative set of operations and random histories of eight, on meshes of all kinds.")
p("A01", "Assembled global systems are the sum of the local contributions",
  "For the scalar HHO, Stokes and discontinuous Galerkin assemblers, the unknowns that are not imposed are numbered once each, without gaps, and shared exactly by the cells sharing the mesh entity. The finalised matrix and right hand side equal the sum of the local contributions assembled since the last initialisation, in any order of the cells, with imposed (Dirichlet) unknowns eliminated and moved to the right hand side, and Neumann and Robin terms and the pressure mean-value constraint added once. Reading a solution back for a cell gives the entries of its unknowns and the imposed values; calls that make no sense (wrong overload, conflicting conditions on a face) are rejected.",
  ["histories", "inputs"], "all meshes, degrees, declarations of boundary conditions and histories of assembling, finalising and initialising again",
  "existing tests solve two model problems and look only at convergence rates",
  [L + "methods/implementation_hho/assembler_hho.hpp", L + "methods/implementation_dg/assembler.hpp"],
  [("diffusion_condensed_assembler, scalar_primal_hho_assembler, basic_condensed_assembler, stokes_assembler, discontinuous_galerkin_assembler", L + "methods/")],
  ["LHS, RHS, take_local_solution, expand_solution"],
  "Local contributions are small random integer matrices; the numbering is observed through the assembler's own read-back and then the finalised system is compared entry by entry with the specification.")
p("A02", "Assembled systems of vector unknowns honour per-component conditions",
  "For the assemblers of vector problems (mechanics, vector primal, incremental mechanics; uniform, contact-enriched or per-face degrees, faces without unknowns), exactly the components of a face that its Dirichlet type does not impose are unknowns, numbered once each without gaps. The finalised system is the sum of the local contributions with imposed components eliminated and moved to the right hand side (in the incremental form, the increment missing to the current value of the face) and the Neumann load added once to the free components only. Reading back (cell, face, expansion to all faces) gives the entries of the unknowns and the imposed values or increments; types that make no sense in the dimension, Neumann on fully imposed faces and unsupported contact types are rejected.",
  ["histories", "inputs"], "all meshes, degrees, declarations of per-component conditions, current values and histories of assembling and initialising",
  "no existing test uses partial (per-component) conditions or the incremental assemblers on them",
  [L + "methods/implementation_hho/assembler_hho.hpp", L + "boundary_conditions/boundary_conditions.hpp", L + "adaptivity/adaptivity.hpp"],
  [("assembler_mechanics, vector_primal_hho_assembler, vector_mechanics_hho_assembler", L + "methods/implementation_hho/assembler_hho.hpp")],
  ["LHS, RHS, take_local_data, take_local_solution[_nonlinear], expand_solution[_nonlinear|_nl]"],
  "Boundary functions are constant; degrees up to 3; local contributions are random integer matrices. Faces without unknowns carry no condition.")
p("T01", "Nonlinear mechanics computations step in time as requested",
  "The nonlinear mechanics solver attempts exactly the requested time steps in order; an attempt that fails (loads that throw, residuals that are not finite, too many iterations) leaves the state (displacement, velocity, acceleration, internal variables) as it was and is replaced by its two halves, until the deepest sublevel fails and the computation stops unconverged. An attempt that converges is accepted once: it carries displacement, velocity and acceleration by Newmark's scheme when unsteady, internal variables by the return mapping of the material, and produces each output asked for that time, once, with the displacement, stress, plastic state and stabilization of that time. The list of steps, the file of parameters, the stabilization coefficients and the errors and counts reported agree with that history.",
  ["histories", "inputs", "faults"], "all requests of steps, sublevels and outputs, all patterns of failing attempts, all load histories, materials, meshes, degrees and files of parameters",
  "no existing test runs the solver; the examples look at one printed error",
  [L + "mechanics/NewtonSolver/" + x for x in ("NewtonSolver.hpp", "NewtonStep.hpp", "NewtonIteration.hpp", "TimeManager.hpp", "NewtonSolverParameters.hpp", "NewtonSolverComput.hpp", "NewtonSolverInformations.hpp", "StabilizationManager.hpp")] + [L + "mechanics/behaviors/laws/behaviorlaws.hpp"],
  [("NewtonSolver::compute, initial_fields, outputs and errors; ListOfTimeStep; NewtonSolverParameter::readParameters; StabCoeffManager", L + "mechanics/NewtonSolver/")],
  ["attempts seen by the load function, files written (through a stand-in of gmsh_tools), solve information, errors reported"],
  "Computations are manufactured: the solution is an amplitude (integer, exact in the specification, Newmark and return mapping included) times a polynomial the method represents; attempts are made to fail through the load function. MKL Pardiso and gmsh_tools, not installed, are replaced by stand-ins. Contact and Mfront laws are left out; failures of Newton's own iterations are only planned through the iteration limit.")
p("L01", "Material laws give the stress, tangent and history of their model",
  "For every law and measure of deformation the behavior accepts, the stress computed at a quadrature point, plastic flag and cumulated plastic strain are those of the constitutive model for the history committed at that point by updates (trials never committed, other points and the tangent request change nothing): Hooke, Hencky-Mises, hyperelastic stresses as derivatives of their energy, von Mises return mappings that keep the stress on or inside the yield surface with the normal flow rule, and for logarithmic strains the first Piola-Kirchhoff stress that does the same work as the small strain law. Away from the yield surface the tangent is the derivative of the stress. Incompatible laws and impossible deformations are refused, and material parameters, traction curves, quadrature points and projections of stress and plastic state are consistent with what was given.",
  ["inputs", "histories"], "all laws, material parameters, traction curves, strains and deformation gradients (equal or close stretches included), histories of trials and updates at any points, dimensions 2 and 3",
  "no existing test evaluates a material law; errors show only on particular paths (reversals, kinks of curves, close stretches)",
  [L + "mechanics/behaviors/laws/" + x for x in ("behaviorlaws.hpp", "behaviorlaws_names.hpp", "law_bones.hpp", "law_cell_bones.hpp", "law_qp_bones.hpp", "materialData.hpp", "LinearElasticityLaw/LinearElasticityLaw.hpp", "HenckyMises/HenckyMises_qp.hpp", "Neohookean/Neohookean_qp.hpp", "Cavitation/Cavitation_qp.hpp", "LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp", "IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp")]
  + [L + "mechanics/behaviors/logarithmic_strain/" + x for x in ("LogarithmicStrain.hpp", "LogarithmicStrain_qp.hpp", "logarithmic_tools.hpp")],
  [("Behavior (compute_whole, compute_stress3D, update, projectStressOnCell), the laws at quadrature points, LogarithmicStrain_qp, MaterialData", L + "mechanics/behaviors/")],
  ["stress, tangent, plastic flag, cumulated plastic strain, exceptions"],
  "Exact integers along proportional histories and for elastic, Hencky-Mises and rational hyperelastic strains; other paths to 3e-3 by the relations of the model; tangents against finite differences. The tangent of Hencky-Mises is the elastic one, as documented. Mfront laws (MGIS) are not installed.")
p("L02", "Tensor algebra, kinematics and stress measures follow their definitions",
  "Every operation of the tensor library (products, contractions, transposes, identities, single entries), every kinematic measure (displacement gradient, deformation gradient, Cauchy-Green, Green-Lagrange, linearized strain), every change of stress measure (first and second Piola-Kirchhoff, Cauchy), the derivatives of the jacobian and of norms and the conversions to 2D, 3D, Mandel and MGIS notations give what their definition says, in both dimensions. Positions out of range and sizes that are not supported are refused.",
  ["inputs"], "all operands (bilinear operations are decided by their values on units), both dimensions",
  "no existing test calls these operations",
  [L + "mechanics/behaviors/" + x for x in ("maths_tensor.hpp", "maths_utils.hpp", "maths_jacobian_derivate.hpp", "tensor_conversion.hpp")] + [L + "mechanics/deformation_tensors.hpp", L + "mechanics/stress_tensors.hpp"],
  [("Kronecker, ProductSup/Inf, Odot, ContractedProduct, tm_prod, coeff, convert*, deviator, invariants", L + "mechanics/")],
  ["values returned, exceptions"],
  "Exact integer oracle (signed squares where square roots appear).")
p("Q01", "Quadratures integrate exactly all polynomials of the degree asked",
  "For every cell and face of every mesh type, and for every raw rule (Gauss, Lobatto, Golub-Welsch, triangle rules, Dunavant, Grundmann-Moeller, tetrahedron rules, tensor rules), the rule asked for a degree integrates exactly (up to rounding) every polynomial of that degree or less over the element, whatever its shape and position. A degree for which there is no rule is rejected.",
  ["inputs"], "all elements, all supported degrees and all polynomials of the degree asked",
  "existing tests integrate a few monomials on the unit triangle and tetrahedron",
  [L + "quadratures/quadratures.hpp", L + "quadratures/quad_bones.hpp"] + [L + "quadratures/bits/" + x for x in ("quad_phys_cartesian.hpp", "quad_phys_generic.hpp", "quad_phys_simplicial.hpp", "quad_raw_gauss.hpp", "quad_raw_gauss_lobatto.hpp", "quad_raw_tetra.hpp", "quad_raw_triangle.hpp", "triquad.hpp")] + ["libdiskpp/contrib/jburkardt/src/simplex_gm_rule.cpp", "libdiskpp/contrib/jburkardt/src/tetrahedron_arbq_rule.cpp"],
  [("integrate(msh, elem, degree), triangle_gauss, gauss_legendre, gauss_lobatto, arbq, grundmann_moeller, tensorized_gauss_legendre", L + "quadratures/")],
  ["points and weights returned"],
  "Exact moments of powers of affine forms (arbitrary precision naturals in TLA+); relative accuracy 1e-7..1e-6. Degrees up to 7 on meshes, all degrees of the raw rules.")
p("P01", "Bases span their polynomial spaces; matrices and projections are exact",
  "Each basis (monomial, Legendre, harmonic-top, vector, matrix, symmetric, Raviart-Thomas, tangential, Nedelec; cells and faces; any axes) has exactly as many functions as the dimension of the space it is named for, and they generate that space; their gradients, symmetric gradients, divergences and curls are the derivatives of their values. Mass and stiffness matrices and right-hand sides contain the exact integrals for polynomials, and bases declared orthonormal are so. Projections (of functions, vectors, gradients; cells and faces) reproduce every polynomial of the space and keep its moments.",
  ["inputs"], "all elements of all mesh types, all degrees and all members of the spaces",
  "existing tests check projection convergence rates and the mass matrix of one basis",
  [L + "bases/" + x for x in ("bases_all.hpp", "bases_scalar.hpp", "bases_vector.hpp", "bases_matrix.hpp", "bases_new.hpp", "bases_utils.hpp", "bases_operations.hpp")] + [L + "methods/implementation_hho/utils_hho.hpp"],
  [("scaled_monomial_*_basis, scaled_legendre_scalar_basis, scaled_harmonic_top_scalar_basis, *_RT, make_mass_matrix, make_stiffness_matrix, make_rhs, project_function, L2_project", L + "bases/")],
  ["values of basis functions and derivatives at points, matrices, right-hand sides, coefficients of projections"],
  "The functions are observed through the combination of them that matches each generator of the space at a unisolvent lattice; the specification recomputes it with exact integer polynomial calculus. Degrees up to 4 (10 for Legendre); eval_curls of 3D vector bases, marked deprecated, is left out.")
p("H01", "HHO reconstructions reproduce polynomials, stabilisations vanish on them",
  "On every cell of every mesh type, with any admissible degrees of cell, face and reconstruction unknowns, the HHO reconstructions (potential, gradient, symmetric gradient, divergence, curl; mixed-order, harmonic, Raviart-Thomas and Nedelec variants; scalar and vector) applied to the interpolate of a polynomial give exactly that polynomial (or its gradient, divergence, curl) up to the degree the theory guarantees, and stabilisations (HHO, HDG, dG, curl) vanish on such interpolates. The local forms made of a consistency and a stabilisation term are symmetric, positive semidefinite, and vanish only for constants (rigid motions, gradients for curl forms). Different entry points for the same operator (fixed degrees, mesh degrees, with/without diameter choice) agree, and the stabilisations scale as announced with the size of the cell.",
  ["inputs"], "all cells of all mesh types, all combinations of degrees, all polynomials",
  "existing tests measure convergence rates of two model problems",
  [L + "methods/implementation_hho/" + x for x in ("scalar_hho_laplacian.hpp", "scalar_hho_divrec.hpp", "scalar_stabilization.hpp", "vector_hho_laplacian.hpp", "vector_hho_gradrec.hpp", "vector_stabilization.hpp", "matrix_hho_gradrec.hpp", "methods_hho.hpp", "curl.hpp", "utils_hho.hpp")] + [L + "methods/hho_slapl.hpp"],
  [("make_*_hho_laplacian, make_*_gradrec*, make_*_stabilization, curl_reconstruction*, curl_*_stabilization, project_function, project_tangent", L + "methods/implementation_hho/")],
  ["matrices returned by the operators applied to interpolates"],
  "Operators are applied to interpolates of polynomials with random coefficients on all generators of the space whose degree the specification computes; the result is compared at a unisolvent lattice with the exact polynomial calculus of the specification. Degrees up to 3 in 2D and 2 in 3D; curl_reconstruction_div and the two-parameter curl_hho_stabilization, which have no exact consistency statement, are left out.")
p("C01", "Condensing, solving and expanding gives the solution of the whole system",
  "For every local system with a symmetric positive definite cell block (the coupling with the faces may be unsymmetric), every static condensation routine returns exactly the Schur complement and condensed right-hand side, and every decondensation returns the unique cell unknowns satisfying the cell equations with the face unknowns kept; wrong sizes are rejected. Condensing all cells, assembling, solving and expanding satisfies all cell equations, the sum of the face equations over the cells sharing a face, and the imposed values. The conjugate gradient solver returns the solution within the asked residual unless it reports its limits through the history, honours its parameters (initial guess, limits, configuration) and refuses systems of inconsistent sizes without touching the solution.",
  ["inputs"], "all local systems and meshes, all boundary conditions, all solver parameters",
  "existing tests solve symmetric model problems with direct solvers",
  [L + "methods/implementation_hho/scalar_hho_condensation.hpp", L + "methods/implementation_hho/vector_hho_condensation.hpp", L + "methods/implementation_hho/curl.hpp", L + "methods/hho_assemblers.hpp", L + "methods/implementation_vem/methods_vem_2d.hpp", L + "solvers/solver.hpp"],
  [("make_*_static_condensation*, static_condensation, schur, *decondensation*, deschur, conjugated_gradient", L + "methods/ and solvers/")],
  ["matrices and vectors returned, iteration history file"],
  "Cell blocks are L L^T with unit triangular integer L, so that all results are integers computed exactly by the specification; the equivalence of condensed and full systems is model-checked exhaustively for small systems. Pardiso, MUMPS, AGMG and FEAST are not installed.")
p("O01", "Files and post-processing meshes hold the mesh and the fields written",
  "After every history of calls on silo databases (create, open, close, meshes, point meshes, variables of every form and centering, expressions), each call returns true exactly when it was done, and each file holds exactly the meshes (points, cells, faces with their orientation), values and expressions written since it was created. Post-processing meshes and gmsh conversions of every mesh cover exactly its cells, once, with elements of the right orientation and the points of the mesh. Text output (netgen meshes, matlab plots, aspect ratios, sparse matrices with and without header, raw sparse matrices) gives back the mesh or the matrix.",
  ["histories", "inputs"], "all histories of calls, all meshes, all values",
  "no existing test reads back an output",
  [L + "output/" + x for x in ("silo.hpp", "postMesh.hpp", "gmshConvertMesh.hpp", "gmshDisk.hpp")] + [L + "mesh/mesh_hierarchy.hpp", L + "mesh/mesh.hpp", L + "common/eigen.hpp"],
  [("silo_database, PostMesh, convertMesh, mesh_aspect, dump_to_matlab, dump_netgen_format, dump_sparse_matrix, eigen_sparse_raw", L + "output/")],
  ["return values, files read back with the silo library or as text, meshes returned"],
  "Databases are a state machine (open file, contents of the files); exact comparison of contents, area and incidence cover conditions for meshes. 3D cells that gmsh has no element for are left out of its meshes, as documented by the code; the HDF5 writer has no headers here.")
p("V01", "Virtual elements are consistent, stable and conforming in two dimensions",
  "For every two-dimensional mesh and degree, the VEM numbering gives each point and each edge node one global number (all numbers used, the points first), so that cells sharing an edge share exactly its unknowns, and lists the nodes of exactly the outer boundary edges; numbering again on the same object equals a new numbering and degree 0 is refused. On every cell the local matrices are those of the method: unknowns at the Gauss-Lobatto nodes and moments, projectors that reproduce polynomials (the L2 projector is exact on the whole local polynomial space), a symmetric positive stiffness whose kernel is the constants and that integrates by parts exactly against polynomials, and exact loads. Problems whose solution is a polynomial of the degree of the method are solved exactly on the whole mesh, with condensation and expansion of the inner unknowns.",
  ["inputs"], "all meshes of all 2D types, all degrees up to 5, all polynomials",
  "the only existing VEM test prints matrices of one cell",
  [L + "methods/implementation_vem/methods_vem_2d.hpp", L + "quadratures/bits/quad_raw_gauss_lobatto.hpp"],
  [("dof_mapper, faces_ccw, matrix_G, matrix_B, matrix_D, projector_nabla, projector_zero, local_stiffness_matrix, local_rhs, compute_local, vem::schur, vem::deschur", L + "methods/implementation_vem/methods_vem_2d.hpp")],
  ["numbers returned by the mapper, local matrices and loads applied to polynomials, solutions of assembled problems"],
  "The numbering algorithm is model-checked on small complexes with all numberings of the points; traces of the code are compared with exact positions, fluxes and moments. On thin cells and cells with many edges the degree is limited by conditioning.")
p("D01", "The discrete geometric approach gives the exact complex and metric of the mesh",
  "On every tetrahedral mesh, the edge queries list each edge once and agree with each other, and absent edges and faces of other cells are refused; gradient and curl matrices are the incidences of the oriented complex (curl of a gradient vanishes, Stokes holds). Primal and dual edge and area vectors and normals are the exact ones with the orientations documented, and integrals of constant fields on them follow. Edge and face matrices, for scalar and tensor parameters, are exactly the symmetric positive ones of the method, so that constant fields give exact dual fluxes and circulations and affine potentials are found exactly on the whole mesh.",
  ["inputs"], "all tetrahedral meshes, all scalar and symmetric tensor parameters, all constant fields",
  "no existing test covers the DGA",
  [L + "methods/implementation_dga/methods_dga.hpp"],
  [("edges, edge_ids, offset, primal_*_vectors, dual_*_vectors, integrate_on_*, normals, grad_matrix, curl_matrix, edge_matrix, face_matrix", L + "methods/implementation_dga/methods_dga.hpp")],
  ["vectors and matrices returned, scaled to integers"],
  "The identities behind the definitions (duality, exactness on constant fields, Stokes) are model-checked on all tetrahedra of a small lattice; the code is compared entry by entry with exact integers.")
p("E01", "First order conforming finite elements on triangles are exact",
  "On every triangle of every two-dimensional simplicial mesh, whatever its orientation, the shape functions of the conforming finite element module are the affine functions that are one at a vertex and zero at the two others, and their gradients are the exact constant ones. The mass and the stiffness matrices (without and with a diffusion tensor) are the exact integrals of these functions, and the load shares the source at the barycentre evenly, which is exact for constant sources and has the exact total for affine ones. Problems with an affine solution are solved exactly on the whole mesh.",
  ["inputs"], "all two-dimensional simplicial meshes, all diffusion tensors, all affine sources",
  "no existing test covers the finite element module",
  [L + "cfem/cfem.hpp"],
  [("eval_basis, eval_basis_grad, mass_matrix, stiffness_matrix, make_rhs", L + "cfem/cfem.hpp")],
  ["values and matrices returned, scaled to integers"],
  "Exact integer definitions, model-checked on all triangles of a small lattice, compared entry by entry with the code.")
p("S01", "Contact and friction contributions are Nitsche's, and bodies at rest are found",
  "For every boundary face declared in contact with the rigid half space below the plane x_d = 0 (face or cell unknowns, no friction, Tresca, Coulomb), the residual added to a cell is the one of Nitsche's formulation of the contact law: minimum of zero and trial pressure, projection of the trial traction on the ball of the bound, consistency term with any theta. The tangent is its derivative on each branch, symmetric for theta = 1, touches no other unknowns when theta = 0, and several contact faces of a cell add up whatever their kinds. The solver finds the exact state of bodies pressed on, sliding on or lifted from the obstacle with affine solutions.",
  ["inputs"], "all meshes, all boundary faces, all displacements on a branch, all parameters",
  "no existing test covers contact",
  [L + "mechanics/NewtonSolver/NewtonSolverContact.hpp", L + "boundary_conditions/boundary_conditions.hpp", L + "mechanics/NewtonSolver/NewtonSolver.hpp"],
  [("contact_contribution::compute and the eval_* functions", L + "mechanics/NewtonSolver/NewtonSolverContact.hpp"), ("compute_contact_terms", L + "mechanics/NewtonSolver/NewtonSolverComput.hpp")],
  ["residual and tangent tested with affine fields, scaled to integers", "errors of solved problems"],
  "The reformulation of the contact law and the Newton iteration are model-checked; the residuals are exact integers of the specification compared with the code.")
p("N01", "Problems with a polynomial solution are solved exactly on whole meshes",
  "Diffusion with a constant tensor (Dirichlet, Neumann and Robin conditions, both sets of operators), the vector Laplacian and linear elasticity (the solvers of the applications, Dirichlet and Neumann conditions) and Stokes flows (gradient or symmetric gradient form): whenever the solution is a polynomial of degree at most k+1 (pressure: k), with unknowns of degree k on faces and k-1 (if supported), k or k+1 in cells, the discrete solution is that polynomial: the gradient reconstructed in every cell, the cell unknowns when their degree suffices, the pressure (shifted to mean zero), and the errors the solvers report (zero against the solution, exact against a shifted one). Elasticity needs cell unknowns of degree 1.",
  ["inputs"], "all meshes, degrees, data and mixes of boundary conditions with polynomial solutions",
  "no existing test solves a problem with an exact solution for these methods other than diffusion on generated meshes",
  [L + "methods/implementation_hho/assembler_hho.hpp", L + "methods/implementation_hho/scalar_hho_laplacian.hpp", L + "methods/implementation_hho/vector_hho_laplacian.hpp", L + "methods/implementation_hho/scalar_stabilization.hpp", L + "methods/implementation_hho/vector_stabilization.hpp", L + "methods/hho_slapl.hpp", L + "methods/hho_assemblers.hpp", "apps/linear_elasticity/src/linear_elasticity_solver.hpp", "apps/vector_laplacian/src/vector_laplacian_solver.hpp"],
  [("stokes_assembler, scalar_primal_hho_assembler, assembler_mechanics", L + "methods/implementation_hho/assembler_hho.hpp"), ("linear_elasticity_solver", "apps/linear_elasticity/src/linear_elasticity_solver.hpp"), ("vector_laplacian_solver", "apps/vector_laplacian/src/vector_laplacian_solver.hpp")],
  ["solutions evaluated on lattices, scaled to integers", "errors reported by the solvers"],
  "The problems are made by the specification (source, flux and conditions derived from the solution with exact polynomial calculus; conservation of mass, momentum and angular momentum model-checked). Linear systems are solved with a sparse LU standing in for the absent Pardiso.")
p("K01", "Exact numbers, points, identifiers, lines of files and registries of degrees",
  "Rational numbers: every operation and comparison is exact, whatever the signs and whether or not the operands are in lowest terms, with a positive denominator; measures and barycentres of triangle meshes with rational coordinates are exact, and refining such a mesh keeps its area; gcd, lcm, factorials and binomial coefficients are exact; points add, scale, convert and reject wrong sizes as vectors do; an identifier that was not given cannot be used. A mapped non-empty file gives its lines in order and then reports the end. A registry of polynomial degrees (of a mesh or a cell) gives back what was last set for that cell or face, nothing else changes, every query agrees, and copies are independent.",
  ["inputs", "histories"], "all rationals and points, all histories of setters on all meshes, all texts",
  "the existing tests do not use rationals with negative parts nor registries with unequal degrees",
  [L + "mesh/rational.hpp", L + "mesh/point.hpp", L + "mesh/ident.hpp", L + "adaptivity/adaptivity.hpp", L + "geometry/geometry_simplicial.hpp", "libdiskpp/src/common/mapped_file.cpp", "libdiskpp/src/common/util.cpp"],
  [("rational, gcd, lcm", L + "mesh/rational.hpp"), ("DegreeInfo, CellDegreeInfo, MeshDegreeInfo", L + "adaptivity/adaptivity.hpp"), ("mapped_file", "libdiskpp/src/common/mapped_file.cpp")],
  ["numbers, coordinates, lines and degrees returned"],
  "The registry is a state machine of the specification whose histories are replayed; the rational arithmetic of the specification is model-checked to be an ordered field on the generated numbers.")
NA = []
