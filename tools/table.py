prop("P01", "Assembled residual equals the discrete weak form",
     "For every state and parameter field, the global residual a problem assembles equals the quadrature of its declared weak form over every cell of the mesh: fluxes tested against shape-function gradients, sources against shape-function values, each quadrature point seeing the field value, gradient, coordinates and parameter value belonging to that point. This holds for every supported element type, number of components and coupled fields, for parameters given per cell, per node, per quadrature point or as vectors, and independently of node/cell numbering and of how cells are batched.",
     ["inputs", "configurations"], "every nodal state and parameter field within the box; every element type, field combination and parameter kind in the gallery",
     "The tests solve a few fixed problems on one or two element types; a wrong weight, gather or batching that only matters for other states, element types or parameter kinds passes them.",
     ["feax/assembler.py", "feax/fe.py", "feax/basis.py", "feax/problem.py", "feax/traced_params.py"],
     [("cell kernels and batched scatter", "feax/assembler.py get_res"), ("shape functions and quadrature weights", "feax/fe.py, feax/basis.py")],
     "Bounded: small meshes of every element type plus meshes spanning several assembly batches, all states/parameters in a box.")
prop("P02", "Surface terms integrate over exactly the selected faces",
     "A boundary term contributes, for every state and load field, the surface quadrature of the declared traction over exactly the boundary faces whose nodes satisfy that term's location function, with the correct area measure and coordinates. Several surfaces and coupled fields combine additively and nothing is added elsewhere.",
     ["inputs", "configurations"], "every state and surface-variable field within the box; every element type and face selection in the gallery",
     "Tests use uniform tractions on one straight side, so errors in face selection, weights, ordering of faces or per-point variables cancel.",
     ["feax/assembler.py", "feax/fe.py", "feax/basis.py", "feax/problem.py", "feax/traced_params.py"],
     [("face selection", "feax/fe.py get_boundary_conditions_inds"), ("face kernels", "feax/assembler.py compute_face")],
     "Bounded: small meshes, every face-bearing element type, symbolic states and per-quadrature-point loads.")
prop("P03", "Assembled tangent is the exact derivative of the residual",
     "For every state and parameters, the Jacobian matrix is the exact derivative of the assembled residual with respect to all degrees of freedom, in full storage and (for symmetric problems) as the stored triangle, with or without precomputed structure arguments, in fused, batched and matrix-free form. Every operation offered on the sparse matrix (products, transposes, diagonal, dense form) agrees with the matrix it stores.",
     ["inputs", "configurations"], "every state, direction and parameter field within the box; every storage mode and evaluation path",
     "Newton converges and tests pass with a slightly inconsistent tangent; tests compare tangents at one state if at all.",
     ["feax/assembler.py", "feax/csr.py", "feax/problem.py", "feax/traced_structure.py"],
     [("CSR slot maps", "feax/problem.py"), ("element tangents", "feax/assembler.py"), ("sparse operations", "feax/csr.py")],
     "Bounded: polynomial laws up to cubic, small meshes, all states in a box (or a 3-dimensional subspace).")
prop("P04", "Dirichlet conditions constrain exactly the named dofs to the named values",
     "A boundary-condition configuration constrains exactly the degrees of freedom whose node satisfies a specification's location function, in the named component(s) and field(s), to that specification's value at the node; where specifications overlap the first listed one wins and every dof is listed once. In the residual a constrained row becomes state minus prescribed value and in the tangent an identity row (and, for symmetric elimination, a zero column), all other entries being untouched; values can be replaced without changing the constrained set.",
     ["inputs", "configurations"], "every prescribed value field, state and parameter within the box; every combination of specifications in the gallery",
     "Tests use one clamped side and one moved side with constants; overlap order, multi-field offsets, component selection and value functions are not pinned down.",
     ["feax/DCboundary.py", "feax/assembler.py", "feax/utils.py", "feax/solvers/common.py"],
     [("row/value construction", "feax/DCboundary.py create_bc"), ("elimination", "feax/DCboundary.py apply_boundary_to_J_csr")],
     "Bounded: meshes up to 8 cells, up to 4 overlapping specifications, symbolic values, states and parameters.")
prop("P05", "Linear solves satisfy the constrained discrete equations",
     "For a problem whose residual is affine in the state, the linear solver returns, for every parameter field, traced boundary value and initial guess, the state whose unconstrained residual rows vanish and whose constrained dofs take the prescribed (or overriding) values, whichever linear solver (direct, Krylov, AMG, auto), matrix view (full, upper, lower), elimination mode or parameter path is selected, inside and outside jit and under vmap. Sample parameters given at construction must not influence the answer for other parameters, and convergence checking turns a result whose residual exceeds the threshold into NaN and leaves every other result unchanged.",
     ["inputs", "configurations"], "every parameter field, prescribed value and initial guess within the box; every backend, view and elimination mode in the gallery",
     "Tests solve one sample with one backend; wrong lifting of boundary values, stale structure, dropped surface tangents or wrong batching only show for other data.",
     ["feax/solvers/linear.py", "feax/solvers/common.py", "feax/solver.py", "feax/solvers/direct/", "feax/solvers/amg.py", "feax/assembler.py", "feax/DCboundary.py"],
     [("solver construction", "feax/solver.py create_solver"), ("linear pipeline", "feax/solvers/linear.py"), ("host backends", "feax/solvers/direct/*.py")],
     "Bounded: small meshes; the linear-algebra kernel (factorization, Krylov iteration) is a contract stub: it returns the x with A x = b for the A and b the code hands it.")
prop("P06", "Gradients through solves are the exact implicit derivatives",
     "Differentiating any function of a solver's output with respect to parameters, traced boundary values or geometry-independent inputs gives the derivative of the exact discrete solution: for every cotangent and every direction, the returned gradient paired with the direction equals the cotangent paired with the sensitivity defined by the linearised constrained residual. This holds for linear and Newton solvers, symmetric and non-symmetric operators, every backend, matrix view and control-flow variant, under vmap, and an initial guess has zero influence.",
     ["inputs", "configurations"], "every cotangent, parameter direction and (for traced solvers) state within the box",
     "Tests compare one gradient with finite differences on a symmetric problem; a missing transpose or bc term shows only for non-symmetric operators, other views or nonzero boundary values.",
     ["feax/solvers/newton.py", "feax/solvers/linear.py", "feax/solvers/common.py", "feax/solver.py", "feax/assembler.py", "feax/DCboundary.py"],
     [("adjoint rules", "feax/solvers/newton.py, feax/solvers/linear.py"), ("bc and parameter pullbacks", "feax/solvers/common.py")],
     "Bounded: small meshes; the forward Newton loop is replaced by an arbitrary state, inner linear solves are contract stubs. AMG-rebuild Newton's host-only backward is out of scope.")
prop("P07", "Nonlinear solves follow Newton's method and stop only at tolerance or limit",
     "A nonlinear solve iterates exact Newton steps on the constrained residual from the given guess, with prescribed boundary values satisfied from the start; each step is the first of 1, rho, rho^2, ... times the Newton direction meeting the Armijo decrease condition, so the residual norm of successive states never increases. It stops only when the residual norm is within the absolute or relative tolerance, the iteration limit is reached, or the line search fails (reported by an exception from eager calls); a guess already within tolerance is returned unchanged, and for a residual affine in the state the result satisfies the constrained equations whatever the guess, backend, matrix view or elimination mode. Batched solves behave per lane. Solvers with a user-supplied extra residual (assembled or matrix-free) and solvers with a rebuilt AMG preconditioner follow the same method on the total residual, with the plain test that the residual norm decreases, and keep the last accepted state when no trial decreases it.",
     ["inputs", "configurations"], "every guess, load, stiffness and prescribed value within the box; backends, views, tolerances and line-search settings in the gallery",
     "Tests converge from one guess; wrong stopping rules, stale residuals or a wrong acceptance test still converge on the easy samples.",
     ["feax/solvers/newton.py", "feax/solvers/common.py", "feax/solver.py", "feax/solvers/options.py"],
     [("Newton loop and line search", "feax/solvers/newton.py create_callback_newton_solver, create_armijo_line_search_scan")],
     "Bounded: 2-3 free dofs, cubic law, two strengths of the reaction, up to 2 steps x 4 trials unrolled (host loops: every path of up to 2 steps / 3 trials); inner linear solves are contract stubs.")
prop("P08", "Periodic and cyclic constraints span exactly the constrained fields",
     "The prolongation matrix built from a unit cell's periodic pairs (2-D, 3-D, single directions, or user pairs) spans exactly the fields that take equal values at nodes that are lattice translates of each other: every reduced vector expands to such a field and every such field is reached by exactly one reduced vector, per component. Edges and corners fall in one class with all their images, unpaired nodes stay free, cells need not start at the origin, and cyclic-symmetry constraints relate the two cut faces by the sector rotation in the same sense.",
     ["inputs", "configurations"], "every reduced vector and every nodal field within the box; unit cells, directions and component counts in the gallery",
     "Tests look at one unit cube; wrong pairing of edges/corners, offsets, component strides or chained masters still produce a plausible matrix.",
     ["feax/flat/pbc.py", "feax/flat/unitcell.py"],
     [("pairing", "feax/flat/pbc.py periodic_bc_2D/3D"), ("prolongation", "feax/flat/pbc.py prolongation_matrix")],
     "Bounded: cells up to 3x2x2 elements with shifted origins and non-uniform nodes.")
prop("P09", "Periodic (reduced) solves and their gradients satisfy the reduced equations",
     "With a constraint matrix P and an affine residual, the solve returns for every parameter, prescribed value and starting field the state that differs from the starting field (carrying the prescribed values) by a constrained field only and whose residual is orthogonal to every free constrained field, with Krylov and direct solvers alike; overridden Dirichlet values are honoured. Gradients with respect to parameters and prescribed values are the exact sensitivities of that solution, also for non-symmetric operators. Prescribing only part of a periodic class is rejected at construction.",
     ["inputs", "configurations"], "every stiffness, load, prescribed value, starting field and cotangent within the box; solvers and pins in the gallery",
     "Tests check one homogenization value with zero pins and a symmetric operator.",
     ["feax/solvers/reduced.py", "feax/solver.py", "feax/asd.py", "feax/flat/pbc.py"],
     [("reduced solve and adjoint", "feax/solvers/reduced.py"), ("reduced operator assembly", "feax/asd.py")],
     "Bounded: 3x2 cells; inner linear solves are contract stubs; the AMG variant is host-only and exercised concretely; gradients with respect to the starting field are not claimed.")
prop("P10", "Homogenized stiffness is the averaged stress of the periodic response",
     "For every material distribution, the homogenized stiffness computed from a unit cell is, column by column in Voigt order with engineering shear, the volume-averaged stress of the periodic response in equilibrium under the corresponding unit macroscopic strain, independent of where the cell starts and of the pinned node, in 2-D and 3-D; its gradients with respect to material parameters are exact, and the volume averages, macroscopic displacement fields and direction-dependent Young's moduli derived from it agree with their definitions.",
     ["inputs", "configurations"], "every per-cell stiffness and nodal parameter field within the box",
     "Tests check a homogeneous cell, where every averaging or ordering mistake cancels.",
     ["feax/flat/solver.py", "feax/flat/utils.py", "feax/flat/pbc.py", "feax/solvers/reduced.py"],
     [("homogenization", "feax/flat/solver.py create_homogenization_solver"), ("averages", "feax/flat/utils.py")],
     "Bounded: cells up to 2x2x2; inner linear solves are contract stubs; the cuDSS path needs a GPU and is out of reach.")
prop("P11", "Time stepping covers the window exactly and follows the chosen scheme",
     "A time integration visits, for every step size, start and end time, a strictly increasing sequence of times that starts at t_start, advances by the (adapted) step size except for a shorter last step, and ends exactly at t_end without a spurious vanishing step; every step receives the state and time the previous one produced. Each integrator's step solves the documented update of its scheme from exactly that state. Callbacks, snapshots and the recorded history correspond to the steps and times they are labelled with, at the configured intervals, and adaptive step sizes respect their limits and growth factor.",
     ["inputs", "histories"], "every start/end time and step size in the bounded ranges, every proposed adaptive step; every state, load and coefficient for the schemes",
     "Tests run a few round step sizes where the window divides evenly; off-by-one steps, drifting times or wrong scheme coefficients are within their tolerances.",
     ["feax/solvers/time_solver.py"],
     [("time loop", "feax/solvers/time_solver.py run"), ("schemes", "feax/solvers/time_solver.py pipelines")],
     "Bounded: up to 6 steps per run with symbolic times and step sizes (float rounding of the time modelled as a bounded error); scheme steps on small meshes with contract-stubbed solves.", tech=TECH_PY)
prop("P12", "Implicit grids, sparse designs and bands address exactly the named cells",
     "On a structured grid, cell and node ids, index triples, coordinates, connectivity, point lookup, predicates and dilation are mutually consistent bijections with the grid's geometry, at any size. A sparse design returns exactly the stored value of every stored id and the default for every other id, and merging overwrites exactly the named ids. A narrow band contains exactly the cells over threshold, dilated by the margin and joined with kept cells; gathering, scattering and solving on the band act on exactly those cells and nodes, agree with the full mesh there, and a superset band asks for re-extraction exactly when the guarded active set leaves it.",
     ["inputs", "configurations", "histories"], "every cell/node id, point, stored id/value, query and field value in range; every active set on the gallery meshes",
     "Tests use one small grid; index arithmetic errors need a particular axis ratio, boundary cell, missing id or band history to show.",
     ["feax/spgrid.py", "feax/narrowband.py"],
     [("grid arithmetic", "feax/spgrid.py StructuredGrid"), ("sparse lookup", "feax/spgrid.py SparseDesign"), ("band maps", "feax/narrowband.py")],
     "Bounded: grids up to 900x1300x1100 cells with symbolic ids, designs of up to 4 entries, bands on meshes up to 12 cells, three-step superset histories. Where a per-cell and a per-node reading of an array coincide in length, the documented per-cell reading applies. Points within 1e-7 of a cell boundary and duplicate stored ids are excluded.", tech=TECH_PY)
prop("P13", "Design filters and responses compute the averages and integrals they document",
     "The density filter maps every field to the distance-weighted average with the documented cone, gaussian or constant weights (so constants are reproduced), the Helmholtz filter returns the solution of its discrete equation (also under periodic constraints) on every mesh type, the projection is the documented tanh law, and the cell-based sensitivity filter the documented weighted average over active in-radius neighbours normalised by all in-grid weights. Compliance responses equal the surface integral of traction times displacement over all loaded surfaces with each surface's own load parameters; the volume response is the density integral over the domain volume for nodal, cell and point densities. Derivatives of the filters and the volume response are the exact transposes.",
     ["inputs", "configurations"], "every density, sensitivity, state, load and cotangent within the box; radii, weight kinds, element types and active sets in the gallery",
     "Tests look at uniform fields or smoothness; wrong weights, normalisation or measures leave uniform fields unchanged.",
     ["feax/gene/filters.py", "feax/gene/responses.py"],
     [("filters", "feax/gene/filters.py"), ("responses", "feax/gene/responses.py")],
     "Bounded: meshes up to 27 cells (one of 560 nodes); the inner linear solve is a contract stub, tanh uninterpreted. Volume densities whose length fits two readings (nodes/cells/points equal in number) and unsorted active sets are excluded.", tech=TECH_PY)
prop("P14", "Optimization drivers follow their schedule and enforce their constraints",
     "The optimizer hands its backend, for every objective, constraint, bound and target, exactly the declared problem: objective and gradient of the current pipeline at the current continuation values, each constraint signed for its type against its target, design bounds with passive entries pinned. Over a whole run the iteration budget, continuation schedule (clamped at its final value), remeshing schedule and recorded history/outputs are those requested, and after a remesh everything is evaluated on the new mesh with the transferred design. The optimality-criteria update stays in its box and move limits and meets the volume target with one common multiplier; the moving band and multi-resolution drivers solve on exactly the current band, level by level; the differential-multiplier constraints have the documented loss and multiplier updates.",
     ["inputs", "histories"], "every design, objective/constraint value, target, bound and continuation parameter in range; every early-stop pattern within the budget",
     "Tests run one tiny optimization and look at the trend; wrong budgets, stale compiled functions after remeshing, sign or clamping mistakes only show for particular schedules.",
     ["feax/gene/optimizer.py", "feax/gene/narrowband.py", "feax/gene/mdmm.py"],
     [("main loop", "feax/gene/optimizer.py run"), ("constraint compilation", "feax/gene/optimizer.py _compile"), ("OC update and bands", "feax/gene/narrowband.py"), ("multipliers", "feax/gene/mdmm.py")],
     "Bounded: up to 3 iterations/2 remeshes with the external optimizer (nlopt) replaced by an arbitrary caller; OC on 2-3 entries with fixed sensitivities; continuation steps whose sign contradicts the direction are excluded.", tech=TECH_PY)
prop("P15", "Solutions, parameters and exported files keep every value in its place",
     "Whatever values they carry, solution objects give back, per field, node and component, exactly the entries of the flat vector they wrap (also batched, under jit, grad, vmap and arithmetic), and behave as the nodal field when handed to another problem as a coefficient. Parameter containers keep every volume and surface variable in its slot under transformation and replacement, and variable creators return the documented uniform, per-cell, per-node or function-evaluated values. Exported VTU files and XDMF series contain the mesh's points, connectivity with the right cell type, and every named nodal and cell field (tensors in their documented layout) with its values at the right node, cell and time.",
     ["inputs", "configurations"], "every nodal, cell and time value within the box; field layouts, element types and field shapes in the gallery",
     "Tests write one scalar file and look at the shapes; swapped components, wrong strides, mixed-up frames or wrong cell types keep every shape.",
     ["feax/solution.py", "feax/traced_params.py", "feax/utils.py", "feax/solver.py", "feax/problem.py"],
     [("solution fields", "feax/solution.py Solution"), ("parameters", "feax/traced_params.py TracedParams"), ("files", "feax/utils.py save_sol, XDMFWriter")],
     "Bounded: meshes of a few cells, two fields, two frames; meshio is a recording stand-in while h5py files are really written and read. Excluded: a solution used as coefficient on a mesh with as many cells as nodes, 3-D shells of 4-node quads, QUAD9/HEX27 output.", tech=TECH_PY)
prop("P16", "Sparse differentiation and operator assembly reproduce the dense operators",
     "Sparse Jacobians and Hessians obtained through coloring equal the dense derivatives entry by entry for every function, point and requested mode, with the detected or a supplied sparsity pattern (in any accepted format, unordered, with stored zeros, or larger than necessary), and their structure is that pattern. A matrix recovered from a linear operator by probing a covering pattern, the reduced operator of a constraint matrix, merged structures and value scatters reproduce the operator exactly, and the pattern built from a mesh contains every pair of dofs sharing a cell.",
     ["inputs", "configurations"], "every evaluation point, coefficient and matrix value within the box; patterns, formats and modes in the gallery",
     "Tests compare one random point; a wrong color class, permutation or transposed pattern can be hidden by symmetric or banded samples.",
     ["feax/asd.py"],
     [("sparse derivatives", "feax/asd.py jacobian/hessian wrappers"), ("operator recovery and merging", "feax/asd.py")],
     "Bounded: functions of up to 8 variables, matrices up to 9x9, meshes up to 6 cells; the coloring library (asdex) is executed, not modelled.")
prop("P17", "Mechanics building blocks implement their documented laws",
     "Cohesive openings, potentials and interface weights follow the documented exponential and bilinear laws (loading, unloading along the history maximum, mixed mode); ply, laminate and Reissner-Mindlin plate stiffnesses are the thickness integrals of the rotated ply laws and the plate residual is their virtual work; 3-D orthotropic and rotated stiffnesses and thermal expansions transform as tensors; layered solids integrate ply by ply with each ply's stiffness, normal, stacking and temperature, with consistent stress recovery and geometric stiffness. Orientation parameterisations and closures have the documented moments, traces and symmetries, averaged stiffness is the orientation average, and third-medium contact interpolates density, regularizes and classifies as documented; pressure-vessel meshes and winding frames follow the documented meridian, thickness and winding-angle geometry.",
     ["inputs", "configurations"], "every opening, strain, stiffness entry, angle, thickness, temperature and state within the box; laminates, meshes and cases in the gallery",
     "Tests check isotropic or aligned special cases; angle signs, Voigt factors, ply order or coupling terms vanish there.",
     ["feax/mechanics/cohesive.py", "feax/mechanics/shell.py", "feax/mechanics/layered_solid_element.py", "feax/mechanics/orientation.py", "feax/mechanics/tmc.py", "feax/mechanics/copv.py"],
     [("cohesive laws", "feax/mechanics/cohesive.py"), ("laminates and plates", "feax/mechanics/shell.py"), ("layered solids", "feax/mechanics/layered_solid_element.py"), ("orientation", "feax/mechanics/orientation.py"), ("third medium", "feax/mechanics/tmc.py")],
     "Bounded: up to 3 plies, meshes of 1-4 cells, bounded boxes; exp/sqrt/trigonometric values are uninterpreted atoms with their identities. The third-medium regularization claimed is kr*lambda*L^2*int(H:H - 1/d Lap.Lap) over the medium. Eigenvectors of orientation tensors are not claimed.", tech=TECH_PY)
prop("P18", "Meshes tile their domain and transfer between meshes is exact",
     "Structured rectangles place one node at every grid position of the requested origin and size and connect the grid's cells in order; boxes, spheres and cylinders (any axis), refined and adaptive meshes are conforming, positively oriented, free of stray nodes and tile the requested body, with opposite faces matching on periodic boxes. Importing a mesh keeps all points and every cell of the selected type. Transferring a nodal field to new points gives the linear interpolant of the containing cell (nearest node outside), on graded meshes too and within the clip range; the gradient refinement field is the node-averaged gradient magnitude over its maximum, and element sizes follow the refinement field at the nearest old node.",
     ["inputs", "configurations"], "every origin, size, connectivity, nodal value, query point and refinement field within the box; element types and bodies in the gallery",
     "Tests look at one uniform box or symmetric fields; missing blocks, wrong orientation or a transposed element map leave counts and ranges unchanged.",
     ["feax/mesh.py", "feax/gene/adaptive.py"],
     [("mesh generation, import and refinement", "feax/mesh.py"), ("transfer and refinement fields", "feax/gene/adaptive.py")],
     "Bounded: rectangles up to 4x3 cells with symbolic geometry, imports of up to 4 blocks with symbolic connectivity, transfers on up to ~60 tetrahedra; bodies from the external generator (gmsh, executed) are compared for all quadratic fields at a gallery of sizes. count_selected_faces, refinement of quadratic meshes and box_mesh(recombine=False) are not claimed.", tech=TECH_PY)
prop("P19", "Implicit density fields, CSG and lattices evaluate the shape they describe",
     "Inside the mesh a density field evaluates, point by point and in batches, to the threshold minus the finite-element interpolant of the nodal density, for every supported element type on distorted and graded meshes; far outside it is void (or the nearest node's value when the boundary is left open). Unions, intersections and differences combine fields by min, max and max with the negative, fields read from files or optimization results are those on that mesh, and surface extraction samples the field and reports vertices in the same world coordinates. A lattice contains exactly the points within the radius of one of its edges, whether given by edges or adjacency matrix, conversions between the two are inverse, and lattice densities are solid exactly at the cells (or nodes) whose centroid (or position) it contains.",
     ["inputs", "configurations"], "every nodal density, threshold, combined value, adjacency entry and density level within the box; every point of the claimed lines/boxes for lattices",
     "Tests use axis-aligned linear meshes and smooth fields, where a transposed map or permuted nodes does not show.",
     ["feax/gene/sdf.py", "feax/flat/graph.py"],
     [("density field", "feax/gene/sdf.py DensityField"), ("CSG and surface grid", "feax/gene/sdf.py SDF"), ("lattices", "feax/flat/graph.py")],
     "Bounded: meshes of up to 12 cells (one graded of 41), sampled points of every cell with symbolic densities; graphs of up to 4 nodes. Points outside the mesh but near it or inside its bounding box, points within 1e-6 of a strut surface, marching cubes and volume remeshing are not claimed.", tech=TECH_PY)
prop("P20", "Direct back ends answer the system handed to them, whatever they solved before",
     "Every direct linear solve (CHOLMOD on the stored triangle, UMFPACK also transposed, SciPy), single or batched over matrices, right-hand sides or both, returns the solution of exactly the system it was handed - whatever systems, sparsity patterns, values or batch sizes the same back end solved earlier in the process, including trailing padding entries beyond the last row offset. Automatic selection never picks a method invalid for the matrix (Cholesky or CG only for matrices classified SPD), makes Cholesky read the triangle that is stored, and keeps every other option the caller set; a visibly unsymmetric matrix is never classified symmetric or SPD, and a symmetric one is SPD exactly when its diagonal is positive.",
     ["inputs", "histories", "configurations"], "every sparsity pattern, matrix value and right-hand side of the histories in the gallery; every 2x2 matrix for classification; every option value for selection",
     "Tests solve one system per back end or re-solve the same pattern; a stale factorization needs a particular sequence of patterns in one process to show.",
     ["feax/solvers/direct/", "feax/solvers/options.py"],
     [("factorization caches and batching", "feax/solvers/direct/umfpack.py, cholmod.py, spsolve.py, _callback_utils.py"), ("selection and classification", "feax/solvers/options.py resolve_direct_solver, resolve_iterative_solver, detect_matrix_property")],
     "Bounded: histories of 2-3 calls, 2 equations with 3 stored entries and symbolic pattern (3 equations with listed patterns), batches of 2; the factorization libraries are contract stand-ins (a factor solves with the values last factorized on its own pattern, anything otherwise). cuDSS and nested vmap are not claimed.", tech=TECH_PY)
prop("P21", "Linear buckling returns the lowest positive factors, with exact sensitivities",
     "For a stiffness K and geometric stiffness Kg the buckling solver works on exactly the free dofs: it returns the requested number of smallest positive load factors of (K + lambda Kg) phi = 0 in ascending order, each with its own mode, normalised to phi^T K phi = 1, placed at the free dofs and zero elsewhere; factors that do not exist are infinite with zero modes, and negative (reversed-load) or complex pairs never take a slot. The gradient of any function of the factors is lambda phi phi^T with respect to the stored entries of K and lambda^2 phi phi^T with respect to those of Kg (zero at constrained entries, unaffected by missing factors); modes carry no gradient. The iterative path raises instead of returning an unconverged fundamental pair. The generalised symmetric eigensolver returns A x = w B x with B-orthonormal x.",
     ["inputs", "fault_sequences", "configurations"], "every stiffness entry, eigenvalue sign, order and multiplicity within the box; free sets, mode counts and back ends in the gallery; any eigenpair quality for the convergence test",
     "Tests use one definite pencil whose factors are all positive and whose free dofs are contiguous; order, padding, sign and placement errors vanish there.",
     ["feax/solvers/eigen.py"],
     [("dense and iterative eigensolve", "feax/solvers/eigen.py _dense_buckling, _sparse_buckling"), ("driver and sensitivities", "feax/solvers/eigen.py create_linear_buckling_solver"), ("generalised eigenproblem", "feax/solvers/eigen.py generalized_eigh")],
     "Bounded: pencils of 4 to 7 dofs with 2 to 5 free, up to 3 factors, |eigenvalue| in [0.01, 100]; the LAPACK/ARPACK/SuperLU routines are contract stand-ins that check the matrices they are handed. The matfree and cuDSS back ends, sensitivities of repeated factors and ARPACK's own convergence are not claimed; the NaN guard for missing factors is replayed on a concrete pencil only.", tech=TECH_PY)
