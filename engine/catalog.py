"""Texts of the properties (source of properties.jsonl and MANIFEST.json)."""
C = []
TECH = "symbolic execution of the compiled LLVM IR of the real code, obligations decided by Z3 (SMT), counterexamples replayed natively"


def prop(id, title, statement, over, quant, why, files, mech, note, tech=TECH, na=None):
    C.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": quant}, why_tests_cant=why,
                  anchors={"files": files,
                           "mechanism": [{"name": n, "where": w} for n, w in mech]},
                  _note=note, _tech=tech, _na=na))


FC = "include/tree_topology/filling_curve.h"
prop("K01", "Morton keys interleave coordinates, decode back and nest by depth",
     "The Morton key of a position is the interleaving of its cell indices in the domain, so keys order as the "
     "Z-curve, every position (ends of the domain included) has a valid key, and decoding a key gives the "
     "lower corner of the cell that holds the position. A key computed at a smaller depth equals the full key "
     "truncated to that depth, and the box reported for a key is exactly the set of positions whose keys start "
     "with it; the children of a key tile its box.",
     ["inputs", "configurations"],
     "every position in the domain on a grid of cells, every depth, 1/2/3 dimensions; boxes for depth <= 8/4/3; "
     "rounding is covered by separate tasks in IEEE-754 double arithmetic",
     "the tests draw random points in 2D/3D and compare with a few known keys; truncated depths, box limits, "
     "domain borders and 1D are never exercised",
     [FC], [("filling_curve base: key arithmetic and range", "filling_curve"),
            ("encoder, coordinates and range", "morton_curve_u")],
     "bounded model checking of the compiled code: every coordinate bit symbolic, all depths; exact real arithmetic plus "
     "bit-precise IEEE tasks (1D quick, 2D/3D thorough).")
prop("K02", "Hilbert keys are a bijection between cells whose consecutive keys touch",
     "Decoding the Hilbert key of a position returns the cell that holds it, different cells have different "
     "keys, and two consecutive keys at the deepest level belong to cells that share a face. A key computed at "
     "a smaller depth is the full key truncated to that depth.",
     ["inputs", "configurations"],
     "every cell of the 16-bit curve (7 levels in 2D, 5 in 3D), the whole 64-bit curve in 1D, and for the "
     "64-bit curve in 2D/3D every window of consecutive levels between constant patterns",
     "the tests compare a handful of keys and random points with loose tolerance; continuity of the curve and "
     "injectivity range over all pairs of cells",
     [FC], [("encoder with rotations", "hilbert_curve_u"), ("decoder", "hilbert_curve_u::coordinates")],
     "bounded model checking: all cells of the 16-bit curves, windows of levels for 64-bit keys; the 64-bit "
     "roundtrip windows are decided in the thorough tier.")
prop("K03", "Curve keys form a complete tree: parent, child, root and depth agree",
     "Every key is reached from the root by a unique sequence of child digits: popping undoes pushing, the "
     "popped value is the digit pushed, the depth of a key is the number of its digits and the root has depth "
     "zero. Truncating keys keeps ancestors, two keys conflict exactly at the depth where their digits first "
     "differ, and the smallest and largest keys of a depth bound all keys of that depth in order.",
     ["inputs", "histories"],
     "every digit string up to the maximal depth of 64-bit keys in 1/2/3 dimensions",
     "the tests never build keys digit by digit nor compare conflict depths",
     [FC], [("push/pop/truncate/conflict_depth/depth", "filling_curve"),
            ("digit order in the hashed tree", "include/tree_topology/tree_topology.h")],
     "bounded model checking over symbolic digits; depth range limited in 1D to 20 digits for one task.")

TH = "include/tensor.h"
prop("T01", "Tensor elements keep one storage place per index and honour symmetry",
     "Reading or writing a tensor element by an index tuple touches exactly one stored value, different index "
     "tuples of an unsymmetric tensor touch different values, and index tuples related by a declared symmetry "
     "touch the same value. The named accessors and the linear order agree with the index tuples, and the "
     "number of stored values is the number of distinct elements.",
     ["inputs", "configurations"],
     "every pair of index tuples, ranks 1-4, dimensions 1-4, full, symmetric and mixed index groups",
     "the test builds one small tensor per rank and reads back a few elements",
     [TH], [("index mapping", "tensor_u::operator()"), ("element count", "symmetric index groups"),
            ("named accessors", "x(), xy(), ...")],
     "bounded model checking: every pair of index tuples for rank <= 4 and dimension <= 4.")
prop("T02", "Vector and tensor arithmetic is the element-wise linear algebra",
     "Sums, differences, products with scalars, compound assignments (also of an object with itself), copies, "
     "comparisons and construction of vectors and tensors act element by element as in linear algebra. Dot, "
     "cross, magnitude, distance, norms, traces and products with symmetric tensors are the textbook values, "
     "and operands are not modified.",
     ["inputs"], "all real element values, vectors and symmetric rank-2 tensors, dimension 1-4",
     "the test uses a few numbers per operation and never aliases operands",
     [TH, "include/space_vector.h"], [("operators", "tensor_u"), ("products", "space_vector.h")],
     "bounded model checking in exact real arithmetic; all elements symbolic.")

prop("G01", "Box and sphere predicates and opening criterion are geometrically exact",
     "Box-box and sphere-sphere overlap tests, point-in-sphere and point-in-box tests answer exactly the "
     "geometric question, and the sphere-box test never misses an overlap and never reports a box farther away "
     "than the radius. The multipole acceptance tests accept a node only if the ratio of its size to its "
     "distance is below the opening angle.",
     ["inputs"], "all real coordinates, radii and angles, 1/2/3 dimensions",
     "no test exercises the predicates; errors are visible only for touching, nested or degenerate shapes",
     ["include/tree_topology/tree_geometry.h"],
     [("predicates", "tree_geometry"), ("acceptance criterion", "tree_geometry::mac / box_MAC")],
     "bounded model checking in exact real arithmetic: all values symbolic.")

KH = "include/physics/kernels.h"
prop("W01", "SPH kernels have compact support, right scaling, sign and direction",
     "Every kernel and its gradient vanish at and beyond the smoothing length, scale with the smoothing length "
     "as the dimension requires, and the gradient is odd, radial and depends only on the distance. The "
     "monotone kernels are nonnegative and do not grow with distance, and selecting a kernel by name installs "
     "that kernel and its own gradient.",
     ["inputs", "configurations"], "all distances and smoothing lengths, the 8 kernels, 1/2/3 dimensions",
     "no test evaluates a kernel; the drivers use one kernel at fixed smoothing lengths",
     [KH, "include/params.h"], [("kernels and gradients", "kernel / kernel_gradient"), ("selection", "select")],
     "bounded model checking in exact real arithmetic (exp and sin uninterpreted with axioms).")
prop("W02", "SPH kernel gradients are the kernels' derivatives and kernels integrate to 1",
     "For every kernel the gradient function is the derivative of the kernel with respect to position. The "
     "piecewise polynomial kernels and their gradients have no jump inside or at the edge of their support, "
     "and integrate to one over space.",
     ["inputs", "configurations"],
     "all pairs of distances in one piece of the kernel (exact quadrature identity), 8 kernels, 1/2/3 "
     "dimensions; normalisation for the polynomial kernels at two smoothing lengths",
     "a wrong coefficient changes results by a few percent, which no test would notice",
     [KH], [("kernels and gradients", "kernel / kernel_gradient"), ("normalisation constants", "*_sigma")],
     "bounded model checking in exact real arithmetic; derivative shown by an exact 11-point Newton-Cotes identity.")

DP = "include/physics/default_physics.h"
VI = "include/physics/viscosity.h"
prop("S01", "SPH forces conserve momentum and energy exactly and follow the equations",
     "Accelerations from pressure and artificial viscosity are pairwise opposite along the line between the "
     "particles, so total linear and angular momentum do not change, and the work they do equals the loss of "
     "internal energy, in both the internal and the total energy formulation. The rates are the published SPH "
     "sums over neighbours; during relaxation there is no heating, drag opposes the velocity, and the "
     "short-range repulsion acts only inside its radius, along the line between particles, with equal and "
     "opposite force.",
     ["inputs", "configurations"],
     "all states of 2 particles in 1/2/3 dimensions and of 3 particles in 1/2 dimensions, both viscosity models, "
     "every parameter value, any radial kernel",
     "the tests run a shock tube for a few steps and look only for failures; conservation in every state needs "
     "all positions, velocities and parameters",
     [DP], [("momentum equation", "compute_acceleration"), ("energy equations", "compute_dudt, compute_dedt"),
            ("relaxation", "add_drag_*, add_short_range_repulsion")],
     "bounded model checking in exact real arithmetic; 3 particles in 2D only in the thorough tier.")
prop("S02", "Artificial viscosity only dissipates and its controls stay in their range",
     "The artificial viscosity is zero between receding particles, never negative between approaching ones, and "
     "symmetric in the pair; its value is the formula of the selected model. The shear limiter stays between "
     "zero and one, and the adaptive viscosity parameter stays between zero and its maximum and starts at the "
     "value of the model.",
     ["inputs", "configurations"],
     "all pairs of particles and parameters in 1/2/3 dimensions; the limiter with one neighbour, the parameter "
     "with a neighbour at unit distance",
     "no test runs the adaptive viscosity and none evaluates the viscosity",
     [VI], [("mu", "viscosity::mu"), ("models", "viscosity_function"), ("limiter and switch", "compute_xi, compute_alpha")],
     "bounded model checking in exact real arithmetic; 3D limiter and 2D/3D parameter range in the thorough tier.")
prop("S03", "Density, signal speed and smoothing length are the SPH estimates",
     "The density of a particle is the kernel sum over all its neighbours including itself with the mean "
     "smoothing length, hence positive; the signal speed bounds the sound speeds and the approach speed of all "
     "neighbours; the smoothing length is the kernel width times the particle's linear size from mass and "
     "density, and the uniform smoothing length is the average over all particles.",
     ["inputs", "configurations"], "all states of 2 particles in 1/2/3 dimensions, any radial kernel; the average also over two ranks with 1 to 2 particles each",
     "tests never compare these quantities with the sums that define them",
     [DP], [("density", "compute_density"), ("signal speed", "compute_signalspeed"),
            ("smoothing length", "compute_smoothinglength, compute_average_smoothinglength")],
     "bounded model checking in exact real arithmetic.")

EO = "include/physics/eos/eos.h"
EF = "include/physics/eforce.h"
IN = "include/physics/integration.h"
prop("E01", "Equations of state follow their formulas and total energy splits exactly",
     "Each equation of state gives the pressure, sound speed and internal energy of its published formula: ideal and "
     "polytropic gas (the sound speed squared is gamma P / rho, and states stay on one adiabat when the density "
     "changes), piecewise polytrope, zero-temperature white dwarf, or no equation of state, which changes nothing. Total "
     "energy is the sum of internal, kinetic and external potential energy, the internal energy recovered from it is the "
     "one it was made of, and the half-step prediction of pressure leaves the internal energy untouched.",
     ["inputs", "configurations"], "all densities, energies, velocities and parameters of each equation of state",
     "the only test evaluates the ideal gas at one state",
     [EO, DP], [("equations of state", "eos::compute_pressure*, compute_soundspeed*, compute_internal_energy*"),
            ("energy split", "set_total_energy, recover_internal_energy, recompute_pressure_soundspeed*")],
     "bounded model checking in exact real arithmetic (cbrt, asinh and pow by their algebraic laws); tabulated equations "
     "of state (data files) are outside.")
prop("E02", "External forces are minus the gradient of their potential and add up",
     "Every external force gives an acceleration that is the negative gradient of its potential energy: over any "
     "segment the work done equals the potential lost. Walls and profiles act only on their own side and push away from "
     "the wall; gravity, orbital and density-support forces follow their formulas in every dimension; a rotated profile "
     "turns the force with it. Selecting a list of forces applies exactly their sum, whatever the order, and replaces the "
     "former list.",
     ["inputs", "configurations"],
     "all positions, powers and parameters; segments inside one region of a force; 1/2/3 dimensions; lists of up to three forces",
     "no test selects an external force",
     [EF], [("forces and potentials", "external_force::acceleration_*, potential_*"), ("list of forces", "external_force::select")],
     "bounded model checking in exact real arithmetic (exact quadrature of polynomial forces); 3D spherical wall and "
     "rotated profile in the thorough tier.")
prop("D01", "Density profiles hold unit mass and table interpolation is exact",
     "The mass inside radius r of each analytic profile is the integral of its density, is 0 at the centre and 1 at "
     "the outer radius; the density is never negative, never grows outwards, has the reported slope and is continuous. "
     "Table interpolation finds the interval that holds the argument, reproduces a tabulated cubic polynomial exactly, "
     "passes through every point of any table using the four nearest points, and returns zero outside the table.",
     ["inputs", "configurations"], "all radii of the profiles in 1/2/3 dimensions with 7 rim widths; tables of 5 points with any spacing for the search, of 4 to 7 points with any values for the interpolation",
     "no test integrates a profile or evaluates the interpolation",
     ["include/physics/density_profiles.h"],
     [("profiles", "spherical_density_profile, spherical_mass_profile, spherical_drho_dr"),
      ("interpolation", "get_interval_index, cubic_interp")],
     "bounded model checking in exact real arithmetic.")
prop("I01", "Leapfrog integration is kick-drift-kick and time-reversible",
     "A step of the leapfrog integrator is half a kick with the whole (hydrodynamic plus gravitational) acceleration, a full "
     "drift with the half-step velocity and half a kick; internal and total energy are kicked by half steps as well. No part "
     "of the step touches what another part owns, and running a step with the sign of the timestep reversed in a "
     "position-dependent force field returns exactly to the starting state.",
     ["inputs", "histories"], "all states, accelerations and timesteps of a particle; a step forward and back",
     "no test compares an integrated trajectory with an exact solution",
     [IN], [("kick, drift, kick", "integration::leapfrog_kick_v, leapfrog_drift, leapfrog_kick_u, leapfrog_kick_e")],
     "bounded model checking in exact real arithmetic.")
prop("S04", "Timesteps respect every particle's limit and never pass an output time",
     "The timestep limit of a particle keeps its motion by velocity, acceleration and signals within the CFL fraction of its "
     "size, and the potential energy it gains in the step below half its internal energy. The global adaptive step never exceeds "
     "the limit of any particle, is positive, at most doubles, shrinks only as far as needed and lands on output times instead of "
     "passing them; time advances by the step and the run ends at the configured final iteration or time.",
     ["inputs", "histories"],
     "all particle states; runs of up to 3 steps with up to 2 particles of any limits and any combination of 3 output intervals",
     "tests run with a fixed timestep; the failure needs a sequence of limits against an output interval",
     [DP], [("limits", "compute_dt"), ("adaptive step", "set_adaptive_timestep"), ("clock", "advance_time, termination_criteria")],
     "bounded model checking in exact real arithmetic; 3-step runs with outputs in the thorough tier.")

prop("B01", "Periodic boundaries re-enter particles and surround the box with images",
     "After generating periodic boundaries, every particle that left the box by less than a period along a periodic axis is "
     "back in it, moved by exactly one period, and nothing else about it changed; axes that are not periodic are left alone. "
     "Every particle within the halo of periodic faces has exactly one wall image for every non-empty combination of those "
     "faces, at the shifted position with the same state; images are numbered uniquely after the particles of all ranks. "
     "Cleaning removes the images and nothing else.",
     ["inputs", "configurations"],
     "all positions and box sizes with the halo below half a box; every combination of periodic axes in 1/2/3 dimensions; "
     "1 and 2 particles, and 2 ranks with one particle each",
     "tests have no periodic run; corners, ties on the faces and the numbering across ranks need all positions",
     ["include/physics/boundary.h"], [("re-entry and images", "boundary::pboundary_generate, add_corner_*"), ("removal", "boundary::pboundary_clean")],
     "bounded model checking in exact real arithmetic; unoptimised IR as well, so that stray writes are kept; 2 particles in 2D and "
     "2 ranks in 3D in the thorough tier.")

TT = "include/tree_topology/tree_topology.h"
prop("X01", "The tree holds every particle exactly once below the prefixes of its key",
     "Building the tree from particles sorted by key gives a rooted tree of unique keys in which every particle is a leaf exactly "
     "once and sits at a prefix of its own key; a node has a child in exactly the octants that hold particles, splits at least "
     "two particles, and its mass and particle count are the sums over what is below it. Construction terminates for every set "
     "of particles.",
     ["inputs"], "all subsets of up to 4 (thorough: 5) of the key cells listed per dimension (1D: every cell with any first two and last "
     "digits), every mass, radius and position",
     "tests build one random tree; the failures need particular common prefixes of keys",
     [TT, "include/tree_topology/hashtable.h", "include/tree_topology/tree_types.h"],
     [("construction", "tree_topology::build_tree"), ("moments from the children", "tree_topology::build_tree with f_c"), ("table", "hashtable::emplace, find")],
     "bounded model checking in exact real arithmetic; keys of 16 bits, so that the depth is reached within the bounds; "
     "particles sharing a deepest cell are a known finding.")
prop("M01", "Node moments bound everything below the node",
     "The mass, particle count and centre of mass of a node are those of its children. Its box is the smallest box holding the "
     "interaction ranges of the child particles and the boxes of the child nodes; its radius reaches every child particle and "
     "past the radius of every child node, and its lap reaches past the interaction range of each. By induction the bounds hold for "
     "every particle below, so no traversal that prunes with them can miss one.",
     ["inputs"], "all masses, positions and extents of up to 2 child particles and 2 child nodes (reach: 1 and 2) in 1/2/3 dimensions, below 1e9",
     "tests see moments only of whole trees; a loose bound shows only with a particle at a particular place",
     [DP, "include/physics/node.h"], [("moments", "physics::compute_cofm")],
     "bounded model checking in exact real arithmetic; the induction over the depth is an argument in DESIGN.md.")

prop("X02", "Radius search returns exactly the particles in reach",
     "find_in_radius returns every particle whose distance from the centre is at most the larger of the given radius and its own "
     "radius, once, and no other, for every tree whose node moments bound what is below them.",
     ["inputs"], "trees of up to 3 (thorough: 4) particles along any axis, every centre, radius, particle size and node moments that "
     "bound the particles; positions off the axis with 3 particles in the thorough tier",
     "no test compares a search with a direct count",
     [TT, "include/tree_topology/tree_geometry.h"], [("search", "tree_topology::find_in_radius")],
     "bounded model checking in exact real arithmetic; node moments are any values with the property decided by M01.")
prop("X03", "SPH traversal visits each particle once with its complete neighbour list",
     "On one rank the SPH traversal calls the physics function once per particle; its neighbour list holds every particle (itself "
     "included) within half the sum of the two smoothing lengths exactly once, and only particles within the larger of the two.",
     ["inputs"], "trees of up to 3 (thorough: 4) particles along any axis, every position and size, leaf groups of one, two or all particles, "
     "every radius and lap of the nodes that bounds the particles",
     "tests of the tree use random particles and are not in the stable set; a missed neighbour changes results silently",
     [TT, "include/tree_topology/tree_geometry.h"], [("traversal", "tree_topology::traversal_sph")],
     "bounded model checking in exact real arithmetic.")
prop("X04", "FMM traversal lets every particle act exactly once on every particle",
     "On one rank, through node-node, particle-node, node-particle and particle-particle interactions and the expansion of the "
     "nodes, every particle receives every particle of the tree exactly once, no particle acts on itself through a node, and an "
     "interaction is approximated only where the opening criterion holds.",
     ["inputs"], "trees of up to 3 (thorough: 4) particles in 1/2/3 dimensions, every position and every node centre and radius, opening "
     "angles 0, 1/2 and 1",
     "a lost or doubled interaction appears only at particular distances between nodes",
     [TT, "include/tree_topology/tree_geometry.h"], [("traversal", "tree_topology::traversal_fmm")],
     "bounded model checking in exact real arithmetic; the operators themselves are F01.")
prop("X05", "Traversals over several ranks see the particles of all ranks",
     "When the particles are split over ranks, the root of each rank's tree sums up all of them, the SPH traversal still visits each "
     "particle once, on its rank, with its complete neighbour list with unchanged data, again on a second traversal and after the ghosts are "
     "reset, and the FMM traversal still lets every particle act exactly once on every particle. The exchange terminates for every "
     "order in which messages become visible and for every number of ranks, a power of two or not.",
     ["inputs", "schedules", "configurations"],
     "2 to 5 (thorough: to 9) ranks with one to three particles each, along one axis, every position and size; for 2 and 3 ranks, the first "
     "2 or 3 probes of each rank see or miss a pending message in every combination; keys of 32 bits",
     "the multi-rank tests are not in the stable set; failures need a node owned by another rank within reach, or a number of ranks "
     "that is not a power of two",
     [TT, "include/tree_topology/tree_types.h"],
     [("sharing", "share_nodes_, find_nodes_, load_shared_*, cofm_update_"), ("requests", "request_, recv_*_replies_, check_comms_, wait_comms_"),
      ("traversals", "traversal_sph, traversal_fmm"), ("reset", "reset_ghosts")],
     "bounded model checking of all ranks together, message passing modelled in the executor; replayed with one process per rank.")
prop("F01", "Gravity operators obey Newton's law and expand it to first order",
     "Particle-particle interactions add -G m/r to the potential and -G m r/|r|^3 to the acceleration of the sinks, skip the particle "
     "itself, touch nothing else and conserve momentum. Node and particle sources add the same field at the centre of a node, "
     "and the expansion adds the node's acceleration and its potential to first order to each particle.",
     ["inputs"], "all positions, masses and prior fields of up to 3 particles and a node in 1/2/3 dimensions",
     "no test evaluates gravity",
     ["include/physics/fmm.h", "include/physics/node.h"],
     [("particles", "fmm_p2p, gravitation_p2p"), ("nodes", "taylor_c2c, taylor_p2c, gravitation_fc"), ("expansion", "fmm_c2p, interaction_c2p")],
     "bounded model checking in exact real arithmetic.")
prop("P01", "The distributed sort orders all particles over the ranks and keeps their counts",
     "After psort every rank holds as many particles as it gave in, the particles are sorted within each rank and from rank to rank, and "
     "they are a permutation of the particles before with their data unchanged, also when the order ties; the sort ends on every rank and nothing outside the ranks' vectors is read or written.",
     ["inputs", "configurations"],
     "1 to 3 (thorough: 4) ranks with one to three particles each in every distribution, every pattern of keys of up to 16 values, ties broken by identity; 2 and 3 ranks with 2 to 3 (thorough: 4) particles each that the order does not tell apart",
     "the sort test is not in the stable set and draws random keys; the splitter search branches on how the keys of all ranks interleave",
     ["mpisph/psort.h"], [("splitters", "psort::Split::split"), ("exchange", "psort::psort")],
     "bounded model checking of all ranks together.")
IO = "mpisph/io.h"
prop("O01", "Snapshots read back exactly what was written, on any number of ranks",
     "Reading a snapshot gives, in file order over the ranks, every particle that was written once, with the same position, velocity, mass, smoothing "
     "length, density, pressure, internal energy, time step, identity, type and state; the total is known on every rank and the particles "
     "are spread evenly, whatever the numbers of writing and reading ranks and of particles on each.",
     ["inputs", "schedules", "configurations"],
     "1 or 2 (thorough: 3) writing and reading ranks (three writers with one reader as well) with 0 to 2 particles each, every value of the fields, 1/2/3 dimensions; HDF5 itself is "
     "an in-memory model",
     "the only I/O test needs parallel HDF5, is not built here, and writes equal random particles from each rank",
     [IO], [("writing", "outputDataHDF5, H5P_writeDataset, H5P_setNumParticles"), ("reading", "inputDataHDF5, H5P_bodiesReadDataset"),
            ("files", "H5P_openFile, H5P_setStep")],
     "bounded model checking of the real io.h over an in-memory model of the HDF5 calls it makes (harness/h5mem.h).")
prop("O02", "Particles read from a file without identities get the identities 1 to N",
     "When a file holds no identities, the particles read get the numbers 1 to N, each exactly once over all ranks, for every number of particles and ranks.",
     ["inputs", "configurations"], "1 to 3 ranks, 1 to 6 particles",
     "no test reads such a file; the numbers differ only when N is not a multiple of the number of ranks or smaller than it",
     [IO], [("identities", "H5P_bodiesReadDataset")], "bounded model checking over the in-memory HDF5 model.")
prop("O03", "Snapshot files are recognised, found and cleaned up by their name",
     "Exactly the names <prefix>_NNNNN.h5part are taken as snapshots, with number NNNNN. The search for an iteration gives a snapshot that holds it, or none if "
     "there is none. Cleaning an output prefix removes exactly its snapshots after the given number, in their directory, and no other file.",
     ["inputs", "configurations"],
     "every file name of up to 16 characters and prefix of up to 2; 0 to 2 (thorough: 3) snapshots in any listing order, with or without a directory, a file of "
     "somebody else, 1 or 2 (thorough: 3) ranks",
     "no test covers the file handling; it depends on what else lies in the directory and in which order it is listed",
     [IO], [("names", "H5P_isPrefixSnapshot"), ("search", "H5P_findIterationSnapshot"), ("cleaning", "H5P_removePrefix")],
     "bounded model checking; the directory calls work on an in-memory directory.")
prop("O04", "A restart takes up the chosen iteration and appends to the record",
     "Starting from an iteration on disk gives the particles, time and time step of that iteration, with one file for all steps or a file for each. When the run "
     "continues in the same files, the steps up to the start stay as they were and the next output follows them.",
     ["inputs", "histories", "configurations"],
     "1 or 2 ranks writing one or two steps, restart on 1 or 2 ranks, both file modes, one further output, then reading either step",
     "no test restarts a run",
     [IO], [("reading", "inputDataHDF5"), ("appending", "outputDataHDF5")],
     "bounded model checking over the in-memory HDF5 model.")
