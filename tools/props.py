"""The table of properties: statement, anchors, and how (or why not) each is decided."""
T = "abstract interpretation of the clang SSA form into exact rational-function normal forms"
CM = "Proof relative to the clang 18 front end and optimiser, the IR exporter and the normal-form algebra; floating-point rounding is outside (values are compared as exact rational functions)."

PROPS = [
 dict(id="P01", title="Element matrices are the exact integrals for every cell size",
  statement="For every 2D and 3D cell size, each entry of each element matrix (Laplacian, strain tensor, mass, pressure/velocity-divergence coupling; both the matrix-free and the assembled variants) equals the exact integral over the cell of the corresponding product of Q1 shape functions and derivatives, in the node order used by the elements (x fastest) and, for assembled variants, in the row and column order in which they are inserted in the matrix. The coupling entries are minus the integral of a pressure shape function times the divergence of a velocity shape function, over a pressure cell made of 2^d velocity cells.",
  over=["inputs"], text="every cell size h in 2D and 3D, every entry of every element matrix",
  why="The tests only solve 2D problems on square cells; 3D matrices, anisotropic cells and individual blocks are never compared with the integral.",
  files=["cafes/fem/matElem.hpp"], mech=[("closed-form element matrices per dimension", "cafes/fem/matElem.hpp")],
  technique=T, note=CM + " Decimal and integer fractions folded by the compiler are read back as rationals (tolerance 1e-14)."),
 dict(id="P02", title="Q1 shape functions and their gradients are exact everywhere",
  statement="For every point and every cell size in 2D and 3D, the Q1 shape function values are the multilinear functions equal to 1 at their own node and 0 at the others (hence sum to 1), and the shape function gradients are the exact partial derivatives scaled by the cell volume (hence sum to 0 in each direction).",
  over=["inputs"], text="every point of every cell of any size, 2D and 3D",
  why="Tests only exercise a few quadrature points through complete solves; 3D is never run.",
  files=["cafes/fem/quadrature.hpp"], mech=[("P1_integration and P1_integration_grad", "cafes/fem/quadrature.hpp")],
  technique=T, note=CM),
 dict(id="P03", title="Element node lists and local matrix indices follow the grid numbering",
  statement="For every element position, the node list of a pressure/Q1 element (4 or 8 nodes) and of the matching velocity 4Q1 element (9 or 27 nodes, on the grid refined twice) enumerates exactly the element's nodes, x fastest, and the local indices used for assembly are the ghosted local indices of those nodes and components in the same order.",
  over=["inputs", "configurations"], text="every element position, every ghosted DMDA window and number of components",
  why="Tests run a handful of grids; an index error at another offset, decomposition or in 3D is not observed.",
  files=["cafes/fem/quadrature.hpp"], mech=[("get_element, get_element_4Q1, get_indices, get_indices_tensor, get_indices_4Q1", "cafes/fem/quadrature.hpp")],
  technique=T, note=CM + " PETSc's ghosted local numbering dof*((j-gys)*gxm+(i-gxs))+c is trusted."),
 dict(id="P05", title="Matrix-free kernels apply the exact operator once on every element",
  statement="For every grid, decomposition, cell size and input field, in 2D and 3D, the matrix-free application of the Laplacian, strain-tensor, mass and pressure/velocity-coupling operators (and of the diagonals of the Laplacian and mass operators) adds to the output, for each element whose first node is owned by the process and exactly once, the exact element matrix applied to that element's nodal values, and changes nothing else.",
  over=["inputs", "configurations"], text="every grid size, periodicity, decomposition, cell size and nodal field, 2D and 3D",
  why="Tests compare converged 2D solutions on a few small grids with a tolerance; 3D kernels, periodic grids and anisotropic cells are never applied.",
  files=["cafes/fem/operator.hpp", "cafes/fem/mesh.hpp", "cafes/algorithm/iterate.hpp", "cafes/fem/matElem.hpp"],
  mech=[("element loops", "cafes/fem/operator.hpp"), ("element sweep bounds", "cafes/fem/mesh.hpp get_DM_bounds"), ("box iteration", "cafes/algorithm/iterate.hpp")],
  technique=T, note=CM + " PETSc's node ownership ranges are trusted; input and output are assumed distinct vectors."),
 dict(id="P08", title="Dirichlet conditions act on every constrained dof of every non-periodic face",
  statement="For every 2D or 3D velocity grid, decomposition and set of boundary conditions, the vector, right-hand-side and homogeneous Dirichlet routines write exactly the nodes owned by the process on each face of each non-periodic axis, only for the components that carry a condition, with respectively the input vector's value, the condition evaluated at the node's coordinates, and zero. The assembled 2D routine zeroes, with unit diagonal, exactly the two velocity rows of every node of the process's ghosted window that lies on a face of a non-periodic axis.",
  over=["inputs", "configurations"], text="every grid size, periodicity, decomposition and combination of conditions, 2D and 3D",
  why="Tests use Dirichlet conditions on all faces of small 2D grids; periodic axes, partial conditions and 3D faces are not run.",
  files=["cafes/fem/bc.hpp", "cafes/petsc/vec.hpp", "cafes/algorithm/iterate.hpp"],
  mech=[("SetDirichletOnVec, SetDirichletOnRHS, SetNullDirichletOnRHS, SetDirichletOnMat", "cafes/fem/bc.hpp")],
  technique=T, note=CM + " PETSc's node ownership, ghost window and MatZeroRowsLocal are trusted."),
 dict(id="P06", title="Matrix-free products equal boundary-corrected sums of ghosted local products",
  statement="For every input, grid and decomposition, a matrix-free product is exactly the sum over processes of the context's operator, with the context's cell sizes, applied to the ghosted input of each grid, with constrained entries replaced by the input's when boundary conditions are set; it depends neither on the previous content of the output nor on stale work vectors, leaves the input unchanged and gives back everything it obtained (Stokes product, single-grid and composite block products and diagonals, 2D and 3D). Shell matrices carry the local and global sizes of their grids and the right product and diagonal callbacks, and the composite mass product uses the cell size of each grid.",
  over=["inputs", "configurations"], text="every input vector, previous output content, single or composite grid, with or without boundary conditions, 2D and 3D",
  why="Tests apply a few 2D operators; a missing reset, a wrong scatter or a wrong cell size on one grid can be hidden by fresh (zero) work vectors or by converging anyway.",
  files=["cafes/fem/matrixFree.hpp", "cafes/fem/mesh.hpp", "cafes/petsc/vec.hpp"],
  mech=[("diag_block_matrix, diag_diag_block_matrix, stokes_matrix, make_matrix, apply_mass_matrix", "cafes/fem/matrixFree.hpp"), ("get_DM_sizes", "cafes/fem/mesh.hpp")],
  technique="abstract interpretation of the PETSc vector protocol over symbolic contents", note=CM + " The semantics given to PETSc's scatters, vector operations and shell matrices are trusted; the operators themselves are P05, Dirichlet copying is P08."),
 dict(id="P10", title="A grid-vector view reaches the right cells and releases all it took",
  statement="For every grid (single or composite part, 2D and 3D) and access mode, a view built on a vector points at its own local work vector and at the chosen component of the global vector with the right grid and number of components, reads the cell of the requested node, and its destruction gives back each work vector, array and component exactly once, with the access mode it was taken with. Its transfers insert or accumulate local values into the global vector, fill ghosts from it, and its fills set every entry to the given value; none of these leaves a transfer pending.",
  over=["inputs", "configurations"], text="every vector, grid, component, access mode, node and fill value; the whole lifetime of a view",
  why="Tests use read-write 2D composite views and never check array release, read-only access, 3D indexing or the accumulate mode on several processes.",
  files=["cafes/petsc/vec.hpp"], mech=[("petsc_vec constructor, destructor, at, at_g, transfers, fills; get_DM, get_Vec, retore_Vec", "cafes/petsc/vec.hpp")],
  technique="abstract interpretation of the PETSc vector protocol over symbolic contents; acquire/release typestate", note=CM + " PETSc's own behaviour is trusted; copying or moving a view is outside (only in-place construction is used)."),
 dict(id="P07", title="Assembled matrices are the sum of the exact element matrices",
  statement="For every 2D mesh, decomposition and cell size, the assembled Laplacian, strain-tensor, mass and pressure/velocity coupling matrices receive, for each element whose first node the process owns and exactly once, the exact element matrix added at the rows and columns of that element's nodes and components in the ghosted local numbering (pressure numbered after the velocity), and nothing else; the assembled coupling has the signs of the matrix-free product. The diagonal pass adds only zeros, on the pressure entries; functions that report an error code return success.",
  over=["inputs", "configurations"], text="every 2D mesh, decomposition, periodicity and cell size",
  why="Tests solve a few Stokes problems on one process; an element swept twice at a process boundary, a wrong offset or a transposed block shows only in parallel, on anisotropic cells or as slow convergence.",
  files=["cafes/fem/assembling.hpp", "cafes/fem/quadrature.hpp", "cafes/fem/matElem.hpp"],
  mech=[("laplacian/strain_tensor/mass/diagonal/B_BT_assembling", "cafes/fem/assembling.hpp"), ("get_DM_bounds", "cafes/fem/mesh.hpp")],
  technique=T, note=CM + " MatSetValuesLocal and PETSc's ghosted numbering are trusted; preallocation is P28."),
 dict(id="P09", title="Meshes have the documented sizes, boundaries and matching partitions",
  statement="For every number of points, periodicity and number of processes, in 2D and 3D, a Stokes mesh is a composite of velocity then pressure grids: one pressure component on the given points (one fewer along periodic axes), one velocity component per axis on the twice-refined points, the requested periodic boundaries, box stencils of width one, and each process owning exactly the velocity nodes over its pressure nodes. A scalar mesh has the given points, one fewer along periodic axes. Every grid is set up before use, creation succeeds, and temporary grids and arrays are given back once.",
  over=["inputs", "configurations"], text="every number of points, periodicity pattern and process grid, 2D and 3D",
  why="Tests build a few closed 2D meshes on one process; 3D, periodic and multi-process partitions are never compared.",
  files=["cafes/fem/mesh.hpp"], mech=[("createMesh, createLaplacianMesh, createDMDA, set_lxu", "cafes/fem/mesh.hpp")],
  technique="abstract interpretation of the clang SSA form into exact normal forms; creation/set-up/release typestate", note=CM + " PETSc's own partitioning and object life cycle are trusted; -da_* options changing grids are outside."),
 dict(id="P11", title="The Stokes right-hand side is the mass-weighted forcing with Dirichlet values",
  statement="For every forcing, mesh and decomposition (2D, 3D), setting up the Stokes right-hand side adds to the velocity part the product of the mass matrix, with the problem's cell sizes, by the forcing evaluated exactly once per given component at every owned node (coordinates: node index times cell size), summed over processes with ghosts filled first, and leaves the pressure part unchanged. It does so exactly when some component is given, then imposes the Dirichlet values of the problem on the velocity; work vectors start from zero and are given back.",
  over=["inputs", "configurations"], text="every forcing and boundary data, mesh and decomposition, 2D and 3D",
  why="Tests use a few 2D one-process problems with fresh vectors; a node range that misses the last row, a stale work vector or a wrong scatter mode shows only in parallel or on reuse.",
  files=["cafes/fem/rhs.hpp", "cafes/problem/stokes.hpp"], mech=[("set_rhs, set_rhs_impl, has_condition", "cafes/fem/rhs.hpp"), ("stokes::setup_RHS", "cafes/problem/stokes.hpp")],
  technique="abstract interpretation of the PETSc vector protocol over symbolic contents", note=CM + " The mass product is P05, the Dirichlet values are P08; PETSc's scatters are trusted."),
 dict(id="P04", title="Box sweeps visit each point once; ownership ranges and sizes are exact",
  statement="In 2D and 3D, sweeping a box of integer points applies the action exactly once to each point of the half-open box and never for an empty box. For every grid, decomposition and periodicity, the ranges a process sweeps start at its first owned node and end after its last owned node, or one node earlier when final points are excluded and the process owns the last node of a non-periodic axis; the global sizes and periodicity flags returned are those of the grid.",
  over=["inputs", "configurations"], text="every box, grid size, decomposition, periodicity, component of a composite grid, 2D and 3D",
  why="Tests run 2D grids on one process; empty boxes, periodic axes, inner process boundaries and 3D sweeps are not exercised.",
  files=["cafes/algorithm/iterate.hpp", "cafes/fem/mesh.hpp", "cafes/particle/geometry/box.hpp"],
  mech=[("iterate", "cafes/algorithm/iterate.hpp"), ("get_DM_bounds, get_global_size, get_boundary_type", "cafes/fem/mesh.hpp")],
  technique=T, note=CM + " PETSc's ownership ranges are trusted."),
 dict(id="P12", title="Points, vectors and boxes obey their algebra on every component",
  statement="In 2D and 3D, sums, differences, products and quotients of positions, vectors, velocities and forces, with each other, with scalars and with spacings, act component by component with the usual signs, floor and ceil apply per component, and cross products follow the right-hand rule. For boxes whose lower corner is not above the upper one, intersection tests, intersections, enclosing boxes and measures are exact on every axis, and a point is inside a box exactly when every coordinate lies in the half-open range.",
  over=["inputs"], text="every value of every operand, 2D and 3D",
  why="Most operators and nearly all 3D instances are never called by a test; a wrong sign or a skipped axis changes a force silently.",
  files=["cafes/particle/geometry/position.hpp", "cafes/particle/geometry/vector.hpp", "cafes/particle/geometry/cross_product.hpp", "cafes/particle/geometry/box.hpp", "cafes/particle/physics/velocity.hpp", "cafes/particle/physics/force.hpp"],
  mech=[("operators", "cafes/particle/geometry/vector.hpp"), ("box tests", "cafes/particle/geometry/box.hpp")],
  technique=T, note=CM),
 dict(id="P13", title="Rotations and super-ellipsoids describe one and the same rigid shape",
  statement="For every angle and axis, a quaternion has unit norm, its conjugate is its inverse, and applying it (2D about z, 3D) is the right-handed rotation. For every centre, half-axes, exponents and rotation, in 2D and 3D, parametric points, radial vectors, implicit function and inside test (strictly below one) describe the same rotated super-ellipsoid; bounding boxes are the exact extent of the rotated half-axis box, and the grid index ranges derived from them contain every node of that box. Areas, volumes and drag factors of circles and spheres are the exact ones.",
  over=["inputs"], text="every rotation, centre, half-axes, exponents, parameters and points, 2D and 3D",
  why="Tests use unrotated circles; rotated or 3D shapes are never compared with each other.",
  files=["cafes/particle/geometry/quaternion.hpp", "cafes/particle/geometry/super_ellipsoid.hpp", "cafes/particle/geometry/circle.hpp", "cafes/particle/geometry/sphere.hpp", "cafes/particle/geometry/box.hpp"],
  mech=[("quaternion", "cafes/particle/geometry/quaternion.hpp"), ("super_ellipsoid", "cafes/particle/geometry/super_ellipsoid.hpp")],
  technique=T, note=CM + " Sampling of whole surfaces is outside; identities between sines, cosines and powers beyond the Pythagorean one are not used."),
 dict(id="P14", title="Contact fields are divergence-free with exact gradients",
  statement="For every two particles near contact (gap, curvatures, relative speed, cut-off), in 2D and 3D, each coded gradient entry of the squeezing and of the sliding contact velocity is the exact derivative of the coded velocity component, cut-off terms included, and the trace is zero; 3D values on the contact axis are their limits. Where the cut-off is 1 (3D sliding aside) the velocity equals minus and plus half the relative velocity on the first and second osculating parabola, with other components zero. There the pressure is constant across the gap and its gradient along the surfaces equals the viscosity-free second derivative of the velocity across the gap.",
  over=["inputs"], text="every contact geometry, point, relative velocity and cut-off value, 2D and 3D",
  why="Tests only compare a few norms of one configuration; a wrong term in a long product formula shifts the singular force without failing anything.",
  files=["cafes/particle/singularity/UandPNormal.hpp", "cafes/particle/singularity/UandPTang.hpp"],
  mech=[("normal (squeezing) fields", "cafes/particle/singularity/UandPNormal.hpp"), ("tangential (sliding) fields", "cafes/particle/singularity/UandPTang.hpp")],
  technique=T, note=CM + " The cut-off itself is P15; the frame that feeds these formulas is separate. Pressure of 3D sliding is not decided."),
 dict(id="P15", title="The contact cut-off is a smooth step with exact derivatives",
  statement="For every point, the contact cut-off weight is 1 for squared distance below threshold minus width, 0 from threshold plus width on, and between them one half of 1 minus the normalised odd polynomial whose slope is 315/128 (1-s^2)^4. Its coded first to fourth derivatives are the exact derivatives with respect to the coordinate, in each branch, and vanish outside the transition and at both its ends.",
  over=["inputs"], text="every point, threshold and width",
  why="No test evaluates the cut-off inside its transition; a wrong derivative silently breaks incompressibility of the contact fields.",
  files=["cafes/particle/singularity/truncation.hpp"], mech=[("chiTrunc and derivatives", "cafes/particle/singularity/truncation.hpp")],
  technique=T, note=CM),
 dict(id="P16", title="The contact frame is rigid and carries fields and points exactly",
  statement="For every two discs or balls, the contact frame is right-handed orthonormal, its normal points from the first centre to the second and its origin lies on the first surface (gap below 1); it holds the second velocity minus the first in its components, both curvatures, the gap, and the cut-off radius max(sqrt2 h, min(both radii, 4 sqrt(gap/mean curvature))), with half its square as cut-off threshold. Changes of coordinates are exact and the world squeezing velocity, gradient and pressure are the frame values at the point's frame coordinates, rotated. The contact box runs from the floor of the smallest to the ceiling of the largest corner, over the spacings, of the region where the two arcs meet the cut-off radius.",
  over=["inputs"], text="every pair of discs or balls, velocities, spacing and point, 2D and 3D",
  why="Tests use one horizontal pair at rest; oblique 3D contacts, the degenerate sliding direction and the transposed rotation of a gradient are never compared.",
  files=["cafes/particle/singularity/singularity.hpp", "cafes/particle/geometry/cross_product.hpp", "cafes/particle/particle.hpp"],
  mech=[("construct_base, constructor", "cafes/particle/singularity/singularity.hpp"), ("get_u_sing, get_grad_u_sing, get_p_sing, get_box", "cafes/particle/singularity/singularity.hpp")],
  technique=T, note=CM + " The field formulas are P14; sin(asin t)=t and opaque cos(asin t) are used for the box."),
 dict(id="P17", title="Particles are sampled exactly once by nodes, surface points and sub-points",
  statement="For every shape, grid, range of owned nodes and spacing, in 2D and 3D: the control nodes listed for a particle are exactly the nodes of the half-open range whose coordinates lie in the shape, x fastest; a surface point is listed, in order, with its element (floor of position over spacing) and its offset in it, exactly when that element is in the half-open range, and the radial list holds point minus centre for the same points. Sampling all particles applies this to every particle whose box meets the owned range, on the intersection of the two; it returns the number of local control nodes and sums over all processes the numbers of surface points and of inside sub-points (scale^d per element). Differences of centres and velocities and the distance of two particles are exact.",
  over=["inputs", "configurations"], text="every shape, particle list, decomposition, spacing, subdivision, 2D and 3D",
  why="Tests run one or two discs on one process; a range off by one, a swapped axis or a lost reduction only shows in 3D, across process boundaries or as a slightly wrong force.",
  files=["cafes/particle/particle.hpp", "cafes/particle/geometry/box.hpp", "cafes/algorithm/iterate.hpp"],
  mech=[("find_fluid_points_insides, find_surf_points_insides, find_radial_surf_points_insides, set_materials, kernel_num_count", "cafes/particle/particle.hpp")],
  technique="abstract interpretation of the clang SSA form with recorded list insertions; loop-nest and guard comparison with the definition", note=CM + " Exact arithmetic: accumulated coordinates count as index times spacing. The shapes' own tests are P13; allocation and copying of std::vector are trusted."),
 dict(id="P18", title="Surface samples lie on the shape and cover it by symmetry",
  statement="For every super-ellipsoid (radii, exponents, spacing): sampled 2D boundary points are (a cos^p t, b sin^p t) at angles rising from 0 to the diagonal, the same angles backwards with sine and cosine exchanged, and mirrored copies of that quadrant such that each axis point occurs once; an angle above the tolerance advances by spacing over the speed of the unit curve. A 3D surface is such rings, scaled by cos^q w at height c sin^q w and exchanged, from equator and pole to the diagonal, plus all of them at negated height; every sample is then rotated once if the shape is and moved by the centre once. Equispaced values are start + i (end-start)/intervals, a single one being the start.",
  over=["inputs"], text="every radii, exponent, spacing, rotation and centre, 2D and 3D",
  why="The tests only write the 3D cloud of one shape to disk; a sample off the surface, or a missing half, silently corrupts every surface integral of the particle solvers.",
  files=["cafes/particle/geometry/uniform_sampling.hpp", "cafes/particle/geometry/super_ellipsoid.hpp", "cafes/particle/geometry/linspace.hpp"],
  mech=[("uniform_sampling, theta", "cafes/particle/geometry/uniform_sampling.hpp"), ("super_ellipsoid::surface", "cafes/particle/geometry/super_ellipsoid.hpp"), ("linspace", "cafes/particle/geometry/linspace.hpp")],
  technique="abstract interpretation of the clang SSA form with recorded list insertions; exact comparison with the parametrisation", note=CM + " Points shared by two 3D rings (equator, poles, diagonal) are not deduplicated by the code and this is not claimed."),
 dict(id="P19", title="Particle surface and volume operators are the stated sums",
  statement="For every list of particles and samples, 2D and 3D: interpolation gives each surface sample the finite element value at it, minus velocity + angular velocity x radius on request; the single layer correction takes from each density value its mean over the particle's samples and the rotation (Cd * mean of radius x density) x radius, means being over all processes; a density enters the right-hand side at an element's corners as basis value * density * surface area / number of samples, added over processes, then boundary rows are set. The projection sums the finite element velocity, and its moment about the centre, over the sub-points inside the particle of the elements of the process meeting its box, divides by the given count and adds over processes.",
  over=["inputs"], text="every number of particles, samples, elements and sub-points, every shape, 2D and 3D",
  why="These sums couple fluid and particles; the tests never call them, and an error in one shows only as a wrong motion of the particles.",
  files=["cafes/problem/particle_operator.hpp", "cafes/fem/quadrature.hpp", "cafes/fem/mesh.hpp", "cafes/algorithm/iterate.hpp"],
  mech=[("interp_rigid_motion_, interp_fluid_to_surf, simple_layer, SL_to_Rhs, projection, projection_impl, kernel_projection", "cafes/problem/particle_operator.hpp"), ("P1_integration, get_element", "cafes/fem/mesh.hpp")],
  technique="abstract interpretation of the clang SSA form, replayed for one symbolic list element and sub-point; exact comparison of every sum, nest and guard with the formula", note=CM + " Shapes enter through an abstract bounding box, inside test, area and Cd. Counts of at least one sub-point per direction are assumed."),
 dict(id="P20", title="Control operators are solve, read, correct, apply, solve",
  statement="For every particle list and control, 2D and 3D: a control enters the right-hand side as the mass product of the field holding its entries (plus density * force on request) at the grid nodes the process owns inside particles, read back in that order; forcing, singular part and boundary values (else zeros) are added per the context's flags. One product solves from a zero right-hand side, interpolates the surface velocity, adds its single layer (mobility: corrected) and solves again; it returns the velocity at those nodes (mobility: minus the projected rigid motion). The control's right-hand side is minus that product with forcing, the control solves the product without it, and the final fluid solution is one solve with both (plus the singular part if enabled; a new problem has it disabled, and keeps the particles, fluid problem and spacing it is given).",
  over=["inputs", "histories"], text="every particle list, control, mesh range and flag setting, 2D and 3D, any fluid solver",
  why="The two control problems are only correct if every step sees the right vectors and flags in the right order; the tests run one tiny case without comparing results.",
  files=["cafes/problem/particle_operator.hpp", "cafes/problem/dton.hpp", "cafes/problem/sem.hpp", "cafes/problem/context.hpp"],
  mech=[("set_rhs_problem, set_rhs_problem_impl, init_problem, compute_y", "cafes/problem/particle_operator.hpp"), ("DtoN, DtoN_matrix", "cafes/problem/dton.hpp"), ("SEM, sem_matrix", "cafes/problem/sem.hpp")],
  technique="effect analysis of the clang SSA form: contents of vectors and lists as terms over prior contents, per flag setting; replay of node loops for one symbolic node", note=CM + " The fluid problem is abstract (setup, solve and singular part are opaque); mass product, boundary rows and surface operators are other properties."),
 dict(id="P21", title="Forces and torques are the control's sums, plus contact forces",
  statement="For all particles and controls, 2D and 3D: a particle's force and torque are the sums over all processes of the control at the grid nodes inside it and of its moment about the center, times volume / node count (kept when none), plus contact forces if asked (not in the mobility solver). For each pair i < j in contact (range 4, threshold 1/5), contact forces (a list, or the particles' own) start from zero and lose, for either particle, the traction (unit viscosity) of the pair's singular stress times area, turned to grid axes. Its samples lie on the surface within asin(cut-off * curvature) of the contact axis: equal angles i/N, i from -N to N-1 in 2D, polar 1..N times azimuth 1..N in 3D.",
  over=["inputs", "configurations"], text="every particle list, control, mesh range and spacing, 2D and 3D, any pair and any number of samples",
  why="Forces and torques are the quantity users read off a simulation; no test compares them with anything.",
  files=["cafes/particle/forces_torques.hpp", "cafes/particle/singularity/add_singularity.hpp", "cafes/problem/sem.hpp"],
  mech=[("forces_torques_with_control, set_torques", "cafes/particle/forces_torques.hpp"), ("compute_singular_forces, compute_singular_forces_on_part1, compute_singular_forces_on_part2", "cafes/particle/singularity/add_singularity.hpp"), ("get_new_forces_torques", "cafes/problem/sem.hpp")],
  technique="effect analysis of the clang SSA form: loops replayed for one symbolic particle, node, pair and surface sample; exact rational-function comparison with the defining formulas", note=CM + " The singular gradient and pressure themselves are other properties; the in-plane off-diagonal 3D gradient entries are taken as equal."),
 dict(id="P22",title="The Stokes system is built and solved from the options, mesh and data given",statement="The 2D Stokes problem reads its options, builds the mesh and the whole-mesh solution and (zero) right-hand side vectors, and keeps forcing, conditions and cell sizes (L/(points-1), half for velocity). Matrix-free: A is the Stokes operator of the chosen viscous term, P the block-diagonal viscous operator (with conditions) and pressure mass; assembled: A = viscous + coupling + zero pressure diagonal, P = viscous + pressure mass, Dirichlet rows on both, constant pressures declared in A's kernel. The solver (2D, 3D) uses (A,P) with options prefixed stokes_, (A,A) for a direct assembled solve, solves rhs into sol; with -PMM every velocity multigrid level applies that operator, its conditions and its own grid's cell sizes.",over=["inputs"],text="every option value, mesh and boundary condition; each combination of the options, and of periodic axes for the level operators, is decided separately; 3D construction is out of range because it does not compile",why="tests run a few option sets on square grids and look at convergence only; a wrong block of the preconditioner, level cell size or boundary flag merely slows a solve, or hangs it on other grids",files=["cafes/problem/stokes.hpp","cafes/problem/context.hpp","cafes/fem/matrixFree.hpp"],mech=[("creation of vectors, contexts and matrices","cafes/problem/stokes.hpp"),("multigrid level operators","cafes/problem/stokes.hpp")],technique="abstract interpretation of the object wiring: effect summaries of the inlined LLVM IR are replayed over symbolic objects per option scenario and compared with the specified blocks, contexts and solver settings",note=CM+" PETSc's solvers themselves are trusted."),
 dict(id="P23",title="Each command-line option sets its own quantity and nothing else",statement="For every command line, in 2D and 3D: -mx, -my, -mz set the number of points, -Lx, -Ly, -Lz the length and -xperiod, -yperiod, -zperiod the periodicity of their own direction, -strain_tensor, -assembling and -PMM their own switch, each unconditionally and independently of the others, and nothing else changes the options. Without options there are 17 points, length 1 and no periodicity in each direction and all switches are off; -help reports each option's own current value.",over=["inputs"],text="every set of options given and every value, 2D and 3D",why="tests give a handful of options in 2D, nearly always the same value in x and y; a crossed target, a misspelt name or a wrong default in the third direction is never exercised",files=["cafes/problem/options.hpp"],mech=[("option table","cafes/problem/options.hpp")],technique="dataflow over the inlined LLVM IR: every option query's name, kind, default and target cell are resolved to a member of the options object and compared with the documented table",note=CM+" PetscOptions calls are trusted to write only their target."),
 dict(id="P24", title="Saved fields are complete and described as they are stored",
  statement="For every 2D mesh, periodicity, directory and file name, saving a solution makes every process store its velocity and its pressure, unchanged, each once and under its own name in directory/name.h5, a file opened for writing and closed afterwards. Process 0 alone writes directory/name.xdmf, a well-formed file with one node-centred uniform grid per field. Its node counts and value dimensions are those of the stored dataset (points along y, then along x, then two components for the velocity), its origin is zero, its steps are the field's cell sizes along x then y, and it refers to that field in name.h5.",
  over=["inputs"], text="every mesh size and spacing, periodic or not, every directory and file name, any number of processes",
  why="The saved files are how users see results; no test reads them back, and a wrong size or reference makes a viewer show garbage or nothing.",
  files=["cafes/io/hdf5.hpp"],
  mech=[("save_hdf5, create_xdmf", "cafes/io/hdf5.hpp")],
  technique="effect analysis of the clang SSA form: every stream and string replayed symbolically, the resulting text parsed and compared with the stored datasets", note=CM + " Only 2D exists. That insertions print enough digits is not decided."),
 dict(id="P25", title="Refined fields are the bilinear interpolants of the computed ones",
  statement="For every 2D solution on a non-periodic mesh and all positive refinement factors, one per direction, linear interpolation onto a refined mesh returns a new mesh, made of the velocity mesh and the pressure mesh each refined by the factor of its own direction, and a vector on that mesh. Every refined node of every cell the process owns (both ends included) receives, in every component of its field and in no other place, the bilinear interpolant of the four values at the corners of its cell, fetched from neighbours beforehand and stored afterwards. The solution itself is not changed.",
  over=["inputs"], text="every mesh size, spacing, pair of refinement factors and field values in 2D, any owned range of cells",
  why="No test calls it; refined fields are what convergence studies compare with, and a wrong factor or neighbour gives smooth looking but wrong errors.",
  files=["cafes/posttraitement/interpolation.hpp", "cafes/fem/mesh.hpp", "cafes/fem/quadrature.hpp"],
  mech=[("linear_interpolation", "cafes/posttraitement/interpolation.hpp"), ("get_element, P1_integration, get_DM_bounds", "cafes/fem/mesh.hpp")],
  technique="effect analysis of the clang SSA form: calls replayed symbolically, stores replayed for one symbolic cell, refined node and component; exact rational-function comparison with the interpolant", note=CM + " DMRefine and the coarse values behind the views are trusted (the views are P10)."),
 dict(id="P26", title="Contact singularities enter equations and solutions as stated sums",
  statement="For every list of particles, the singular part of each pair i < j in contact is summed over the sub-points (element corner plus multiples of spacing/scale in each direction) of every velocity element that the process owns and that the pair's box holds, as long as the sub-point is outside both particles and, in 2D, at most the cut-off radius away from the contact axis. To the right-hand side (2D, 3D) it adds, per corner function f and component d, cell volume/scale^dim times (p df/dd minus the sum over k of du_d/dk df/dk); to the solution (2D), u_d f/scale^2. Contributions start from zero and are added over processes to what the vector holds.",
  over=["inputs"], text="every list of particles, mesh range, spacing and sub-point scale, any number of processes",
  why="No test has a contact close enough to switch the singular part on and looks at the numbers; a lost neighbour or transposed gradient only degrades accuracy in the gap.",
  files=["cafes/particle/singularity/add_singularity.hpp", "cafes/particle/geometry/box.hpp", "cafes/fem/quadrature.hpp"],
  mech=[("add_singularity_in_fluid, computesingularST, add_singularity_to_last_sol, addsingularity", "cafes/particle/singularity/add_singularity.hpp"), ("box_inside, intersect", "cafes/particle/geometry/box.hpp"), ("P1_integration, P1_integration_grad", "cafes/fem/quadrature.hpp")],
  technique="effect analysis of the clang SSA form: the nest replayed for one symbolic pair, element, sub-point and corner; exact rational-function comparison of every increment, range and guard with the formula", note=CM + " The pair's fields, frame and box are other properties; the particles' inside tests are opaque. The 3D update of the solution does not compile and is not covered."),
 dict(id="P27", title="What is borrowed or created for a while is given back exactly once",
  statement="In every run in which the library calls succeed, each thing that an operation takes for its own use is given back exactly once on every path, to the owner and through the call that matches the one that took it, and is not touched afterwards. This covers arrays of vectors (read or write), work vectors of a mesh, parts of a composite vector, scratch memory, and matrices, vectors, grids, null spaces and files created for the duration of the operation. The operations are: building the meshes, preallocating the matrix, imposing Dirichlet rows on it, declaring the constant pressures, the mass product, the forcing of a grid vector, the control's right-hand side, reading velocities back into a control vector, forces and torques, and saving a solution.",
  over=["inputs"], text="every input, mesh, particle list and path through these operations on which no call fails, any number of processes",
  why="A lost or doubled restore on a rare path changes no value a test looks at: it leaks per application of an operator, or fails when a mesh is destroyed.",
  files=["cafes/fem/mesh.hpp", "cafes/fem/bc.hpp", "cafes/fem/assembling.hpp", "cafes/fem/matrixFree.hpp", "cafes/fem/rhs.hpp", "cafes/problem/stokes.hpp", "cafes/problem/particle_operator.hpp", "cafes/particle/forces_torques.hpp", "cafes/io/hdf5.hpp"],
  mech=[("createDMDA, set_lxu", "cafes/fem/mesh.hpp"), ("PreallocateMat", "cafes/fem/assembling.hpp"), ("set_dirichlet_on_mat_impl", "cafes/fem/bc.hpp"), ("apply_mass_matrix", "cafes/fem/matrixFree.hpp"), ("set_rhs", "cafes/fem/rhs.hpp"), ("CreatePressureNullSpace", "cafes/problem/stokes.hpp"), ("set_rhs_problem, compute_y", "cafes/problem/particle_operator.hpp"), ("forces_torques_with_control", "cafes/particle/forces_torques.hpp"), ("save_hdf5", "cafes/io/hdf5.hpp")],
  technique="typestate analysis on the clang SSA form: per receiving variable, calls that take and give folded along all paths as exact Boolean conditions; ownership, pairing and later uses compared", note=CM + " Grid-vector views are a whole here (their own releases are P10); error exits are not considered; saving is 2D only (the 3D one is not written)."),
 dict(id="P28", title="Assembled matrices reserve exactly the entries their rows receive",
  statement="For every 2D mesh, periodicity and decomposition, the two assembled Stokes matrices are created on the problem's mesh with the process's and the system's numbers of unknowns, and each owned row reserves exactly one entry per node sharing an element with its own (beyond closed sides nothing, across periodic sides the wrapped nodes), counted as own or other by the owner of the column: velocity rows the velocity nodes (every component with the strain tensor, at least the same one otherwise) and pressure rows the pressure nodes; in the coupled matrix also velocity rows the pressure nodes and pressure rows both velocity components. No index list exceeds its array.",
  over=["inputs", "configurations"], text="every 2D mesh size, periodicity, process grid and choice of operator",
  why="Tests assemble closed meshes on one process with a few sizes; a reserved pattern that is short on one kind of subdomain, at a periodic side or for one operator makes the assembly stop, or crawl, only there.",
  files=["cafes/fem/assembling.hpp"],
  mech=[("PreallocateMat", "cafes/fem/assembling.hpp")],
  technique="abstract interpretation of the clang SSA form; induction over the loop nest for the running positions; per-axis comparison of index windows over every kind of subdomain in a linear-inequality domain", note=CM + " PETSc's ghost windows (width one), ownership and preallocation calls are trusted; the entries assembly adds are P07, the partitions P09."),
]
