# property -> harnesses. "full": link the libROM-dependent half of the repository too (through shim/).
NEEDS_LIBROM = {"advdiff_solver", "linelast_solver", "main_workflow", "multiblock_solver", "navier_solver",
                "poisson_solver", "random_sample_generator", "rom_handler", "rom_interfaceform",
                "rom_nonlinearform", "sample_generator", "steady_ns_solver", "stokes_solver", "unsteady_ns_solver"}
PROPS = {
    "C01": {
        "harnesses": [{"name": "h_config"}],
        "rule": "number of different final configuration contents",
        "bounds": "all sequences of up to 4 (thorough 5) of 13 operations over 7 nested keys from 3 documents; all override strings of up to 3 (4) of 9 assignments; all record lists of up to 3 (5) of 7 records; documents of every length 0-300 and around powers of two up to 65 kB (thorough 0-9000) read serially and as each of 3 processes, broadcast by broadcast; all pairs of paths over two names up to 5 (6) levels, chains of up to 14 levels that part at every level; up to 24 (60) overrides of every type of value; lists of up to 70 (300) values and records",
    },
    "C02": {
        "harnesses": [{"name": "h_hdf5", "asan": True}],
        "rule": "number of different objects and object triples stored",
        "bounds": "all shapes up to 4 (thorough 6) per axis of 19 kinds of object, all sparsity patterns of up to 6 (9) entries, all absent/empty/filled patterns of 2x2 blocks, all 8000 ordered triples of 20 objects in one re-opened file; larger matrices, vectors and tables (up to thousands of entries, unsorted columns), unusual numbers (NaN, infinities, signed zero, denormal)",
    },
    "C03": {
        "harnesses": [{"name": "h_param", "ldflags": ["-Wl,--wrap=_Z13UniformRandomv", "-Wl,--wrap=_Z13UniformRandomRKiS0_"]}],
        "rule": "number of different (range, scale, size, key) settings",
        "bounds": "all pairs of 8 range ends x 3 scale settings x sizes 1..9 (thorough 24) x all indices forward and backward x 4 nested keys; 17 controlled draws over each range; all integer and file-name ranges between 8 ends; all sequences of up to 5 (7) settings of 4 parameters",
    },
}
PROPS["C11"] = {
    "harnesses": [{"name": "h_smoother", "asan": True}],
    "rule": "number of different results of a sweep",
    "bounds": "all partitions into up to 3 blocks of sizes 1..3, all patterns of missing off-diagonal blocks, 4-block patterns, 3 sweep types x 1..3 iterations x both modes; all histories of up to 4 (thorough 6) SetOperator/apply steps over 4 operators of different shapes; up to 11 (thorough 16) blocks in 8 patterns and 4 size sets, up to 9 sweeps; operators changed in place, block by block or replaced",
}
PROPS["C12"] = {
    "harnesses": [{"name": "h_linalg", "asan": True}],
    "rule": "number of different result matrices and vectors",
    "bounds": "all shapes up to 4 (thorough 5) per axis of the projection, row-restricted, tensor, orthonormalisation and basis kernels, all row selections of up to 3-4 rows (repeated, unsorted), all presence patterns and target indices of 2x2 block tables in a 3x3 block matrix, all copies between tables up to 3x2, optimiser on all non-singular 2x2 systems with entries in {-1,0,1,2} x 4 right-hand sides x 3 starts; larger shapes; optimiser on 1-5 unknowns, square and overdetermined, consistent and inconsistent",
}
PROPS["C15"] = {
    "harnesses": [{"name": "h_profiler", "asan": True}],
    "rule": "number of different timer tables reported",
    "bounds": "all histories of up to 7-8 (thorough 9-10) start/stop/report steps over 1-3 timers under a controlled clock; 1-4 simulated processes x 1-3 reports; text lengths 0..300; integer draw ranges within -3..4; up to 30 (60) overlapping timers with long and similar names on 1, 2 and 9 processes",
}
WRAP_SUBMESH = ["-Wl,--wrap=_ZN4mfem7SubMesh16CreateFromDomainERKNS_4MeshENS_5ArrayIiEE"]
PROPS["C05"] = {
    "harnesses": [{"name": "h_submesh", "asan": True, "ldflags": WRAP_SUBMESH}],
    "rule": "number of different decompositions (interface sets)",
    "bounds": "all attribute assignments of meshes of up to 6-8 elements (thorough 9-12) of 4 element kinds in 2D and 3D with up to 4 subdomains, all local vertex orders of two neighbours on every side, 3 element orders, 4 boundary attribute sets, with and without refinement and decomposition; larger boxes of up to 64 cells in up to 77 subdomains, 6 patterns, straight and curved (order 1-3), attribute numbers up to 1000",
}
PROPS["C06"] = {
    "harnesses": [{"name": "h_component", "asan": True}],
    "rule": "number of different arrangements (placements and port lists)",
    "bounds": "9 two-dimensional and 7 three-dimensional arrangements of 1-8 unit boxes: all assignments of 2-3 components, all quarter turns of up to 3 meshes, all orders x directions of 4 ports (quick: a third), all local vertex orders of two neighbours (quad, triangle, hexahedron, tetrahedron), 4 sources of the port descriptions including write and re-read, 4 boundary numberings, refinement 0-2, node order 1-3, periodic rings of 2-3, all pairs of 5 boundary numberings of two components; curved components of order 2 and 3",
}
PROPS["C07"] = {
    "harnesses": [{"name": "h_interface", "asan": True, "ldflags": WRAP_SUBMESH}],
    "rule": "number of different interface matrices and residuals",
    "bounds": "8 interface terms on 4 element kinds in 2D and 3D: all local vertex orders of two neighbours on every side (3D, quick: a covering subset), all attribute assignments of small meshes, straight and curved, node/vdim orderings, all orders x directions of 4 ports, 8 states including zero, one side zero and reversed, all sign/penalty settings x orders 1-3 (thorough 4), all ordered pairs of element configurations through one integrator object, 5 arrangements of components with and without shared reference ports; orders up to 5 (3D: 3) and unequal, elements scaled by 0.01 and 60; 6x5 and larger meshes with up to 12 subdomains; curved components",
}
PROPS["C08"] = {
    "harnesses": [{"name": "h_nonlinear", "asan": True, "ldflags": WRAP_SUBMESH}],
    "rule": "number of different residuals",
    "bounds": "15 domain and 9 face terms (4 coefficients, prescribed velocity, boundary data) x elements, interior faces, boundary faces, interfaces x 5 element kinds x orders 1-3 x 4 shapes x all local vertex orders (3D faces: a twelfth, thorough half) x 8 states with an explicit rule; exactness of the default rules; differences of the code's own residual; all sequences of 3 evaluations over 6 element / 10 face configurations through one object; whole forms on 4 meshes x orders x orderings x 3 term sets x 3 boundary selections; orders up to 7 / 6 / 4 in 1 / 2 / 3 dimensions, unequal, elements scaled by 0.01 and 60",
}
PROPS["C09"] = {
    "harnesses": [{"name": "h_quadrature", "asan": True, "ldflags": WRAP_SUBMESH}],
    "rule": "number of different full or reduced residuals",
    "bounds": "11 domain and 6 face terms x elements, interior faces, boundary faces, interfaces x 5 element kinds x orders 1-3 x 4 shapes x local vertex orders: every quadrature point with 4 weights; bases of 1-4 vectors (all pairs on interfaces) and complete bases, every point and the sum of all points in scrambled order; all sequences of 3 of the 6 evaluations over 5 element / 7 face configurations through one object; all lists of up to 4 (5) stored samples; orders up to 6 / 5 / 3, elements scaled by 0.01 and 60, bases of up to 12 vectors; lists of up to 300 stored samples",
}

PROPS["C10"] = {
    "harnesses": [{"name": "h_dgterms", "asan": True, "ldflags": WRAP_SUBMESH}],
    "rule": "number of different matrices and vectors",
    "bounds": "vector diffusion (4 coefficients x 6 parameter pairs), mixed normal flux, 5 kinds of boundary data (zero, constant, two variable; 3 coefficients) x interior and boundary faces x 5 element kinds x orders 1-3 x 4 shapes x all local vertex orders (3D interior faces: a twelfth, thorough a third) with an explicit rule; exactness of the default rules; whole mixed, diffusion and linear forms x orderings x markers x copies x continuous and discontinuous spaces; consistency for polynomial solutions of every degree up to the order 4; all sequences of 3 evaluations over 10 configurations through one object; orders up to 7 / 6 / 4, unequal, elements scaled by 0.01 and 60",
}

PROPS["C13"] = {
    "harnesses": [{"name": "h_romelem", "asan": True}],
    "rule": "number of different contents of collections",
    "bounds": "every pattern of missing, empty, diagonal, full and irregular blocks in collections of 6 and 10 blocks (one member of 4 blocks: all 5^4; ports of 16 blocks: up to 3 present or missing); 9 configurations of 1-3 components x 1-3 variables x separate or joint x boundary numberings x sources x every order of components and ports when saving and when loading; loading part of a larger collection; all sequences of 5 (thorough 6) fills, saves and loads over two files, one collection or two",
}

PROPS["C14"] = {
    "harnesses": [{"name": "h_problem", "asan": True}],
    "rule": "number of different (problem, start, first and second assignment) histories",
    "bounds": "all 17 problems: all sequences of 2 (thorough, up to 26 parameters: 3) assignments over every parameter x 3-5 values from 3 starting points, by name, by index, mixed, and in one batch (repeated parameters included); single-run sections of one, two and all parameters; all data functions at 2 points and times in 2 and 3 dimensions, written over NaN and over other values; all ordered pairs of problems one after the other; unknown names; defaults with every switch on",
}

PROPS["C04"] = {
    "harnesses": [{"name": "h_sample", "full": True}],
    "rule": "number of different sampling grids, shares and snapshot histories",
    "bounds": "all grids of 1-4 (thorough 5) parameters x sizes 1-4 (5) and 7 larger ones, every sample twice; all N 1-30 (60) x 1-9 (17) processes x all ranks x 3 kinds of generators; 72 naming configurations; basis tags of 6 solvers x 3 component lists; all histories of up to 4 (5) samples over 7 arrangements of 3 components x joint and separate variables, all pairs and triples of such files collected in every order by port and by basis; sampling runs of 4 grids split over 1-4 processes",
}

PROPS["C16"] = {
    "harnesses": [{"name": "h_romform", "full": True, "ldflags": WRAP_SUBMESH}],
    "rule": "number of different reduced residuals",
    "bounds": "quadrilaterals, triangles, hexahedra and tetrahedra (2x2 and 2x1x1 boxes, straight, curved and rotated elements); orders 1 to 3; 5 sets of integrators over elements, interior and boundary faces with 3 boundary selections; bases of 1 to 5 vectors (with zero vectors, row offsets) and complete ones; 5 kinds of sample lists incl. empty, repeated and negative weights; every sequence of 4 (thorough 6) of 8 operations; training with both criteria, 3 tolerances, 1 to 3 snapshots, simulated 1 to 4 (7) processes; interfaces of 8 divisions of a mesh and of 8 component arrangements in 4 orientations",
}

PROPS["C18"] = {
    "harnesses": [{"name": "h_fom", "full": True, "asan": True, "ldflags": WRAP_SUBMESH, "cxxflags": ["-fno-access-control"]}, {"name": "h_setup", "full": True, "asan": True, "ldflags": WRAP_SUBMESH, "cxxflags": ["-fno-access-control"]}],
    "rule": "number of different (solution, decomposition) pairs",
    "bounds": "six solvers on all divisions (up to 4 parts) of boxes of 2x2, 3x2, 2x1 and 1x1 quadrilaterals, triangles, hexahedra and tetrahedra, straight and two sheared shapes, refined, and seven arrangements of 1-4 component boxes with all orders and directions of ports and quarter turns; orders 1-3 (flow 1-2), continuous and discontinuous, direct, iterative and multigrid-preconditioned solvers, essential sides or one natural side, two polynomial solutions of full degree (quick: every fourth or fifth combination, thorough: every second); 17 problems x 3 parameter sets x the solvers of their kind x 11 boundary attribute sets (thorough: all 625 sets of 4 sides with attributes 1-5) x 4 divisions, and all ordered pairs of problems; tetrahedral flow solutions up to the degree to which the divergence data are integrated exactly",
}

WRAP_PROBLEM = ["-Wl,--wrap=_Z24InitParameterizedProblemv", "-Wl,--wrap=_ZN13PoissonSolver23SetParameterizedProblemEP20ParameterizedProblem"]
PROPS["C17"] = {
    "harnesses": [{"name": "h_rom", "full": True, "asan": True, "ldflags": WRAP_SUBMESH + WRAP_PROBLEM, "cxxflags": ["-fno-access-control"]}],
    "rule": "number of different (reduced space, solution) pairs",
    "bounds": "whole workflow on real files (samples, bases, supremizers, EQP training, reduced operators, reduced runs): six solvers x 4 meshes divided by attributes and 15 arrangements of 2-4 component boxes (quad, tri, hex, tet; both port directions), orders 1-2, continuous and discontinuous, three sets of boundary types, joint and separate bases, operators stored not at all, globally or per component, both block orderings, every direct and iterative reduced solver with every preconditioner, tensor and EQP (with and without precomputation) handling, complete and truncated bases, 1-3 parameter values, full-order solution absent, recomputed or loaded; component operators trained on four boxes put together in four other arrangements (quick: every combination on three decompositions, order 1 and one set of sides on the others; thorough: every combination on all)",
}

PROPS["C19"] = {
    "harnesses": [{"name": "h_unsteady", "full": True, "asan": True, "ldflags": WRAP_SUBMESH + WRAP_PROBLEM, "cxxflags": ["-fno-access-control"]}],
    "rule": "number of different (step counts, intervals, restart point, files, final state) combinations",
    "bounds": "runs of up to 4 steps: all step counts 0-4 x restart-file intervals 0-5, view intervals 0-3 x file intervals 1-2 (thorough 1-3), all 8 ways to cut a run into restarted pieces (with several view intervals), restart of every step with file intervals 0-3, snapshot intervals 1-4 x bootstrap 0-3 for two parameter values with the port columns, reduced runs between every pair of steps with and without precomputation; on 4 divided meshes and 4 (thorough 6) component arrangements, quadrilaterals and triangles, orders 1-2, continuous and discontinuous, three sets of boundary types, four kinds of initial conditions, two step sizes (quick: 176 of these combinations, thorough: all)",
}

PROPS["C20"] = {
    "harnesses": [{"name": "h_config", "python": True}],
    "rule": "number of different configurations written",
    "bounds": "the generators run as they are (h5py in memory, random draws under control): boxes of up to 3x2 (thorough 3x3, 4x2) components x 4 periodicities x every order of adding (up to 4 boxes) x component assignments of 1-3 components; complete enumerations by the generator up to 2x2 with 5 components (thorough 3x2 with 2), all random choices; all interleavings of building two configurations; all channels of up to 7 (thorough 9) components from both start components, with the generator's own enumeration and all random choices; lattices of up to 4x4 (6x6) cells x 4 sets of sizes x 4 rotations of the boundary conditions; the fixed configurations; training meshes with 1-6 attributes",
}

PROPS["C21"] = {
    "harnesses": [{"name": "h_meshtool", "asan": True}],
    "rule": "number of different meshes written",
    "bounds": "the tools run as they are, one process per run, the files read back: rectangles of 1-4 x 1-4 cells (quadrilaterals, triangles) in every even division x non-periodic and 3 kinds of periodicity x refinement 0-1 (thorough 0-2) x order 1-3 (4) x 2 sizes (quick: every third combination); boxes of up to 2x2x2 (3x3x3) hexahedra or tetrahedra in every even division x 5 kinds of periodicity, refined, order 1-2 (3); lines of 1-6 cells; default and given file names; refused divisions, element types and directions; gmsh files of 4 kinds of elements converted with every option, numbered in order and in reverse",
}

WRAP_RANDOM = ["-Wl,--wrap=_Z13UniformRandomv", "-Wl,--wrap=_Z13UniformRandomRKiS0_"]
WRAP_MPI = ["-Wl,--wrap=MPI_Init", "-Wl,--wrap=MPI_Finalize"]
PROPS["C22"] = {
    "harnesses": [{"name": "h_visual", "full": True, "asan": True, "ldflags": WRAP_SUBMESH + WRAP_PROBLEM + WRAP_MPI, "cxxflags": ["-fno-access-control"], "programs": [("utils/sol2paraview.cpp", "vc_prog_sol2paraview")]}],
    "rule": "number of different files for viewing",
    "bounds": "all 7 solvers (Poisson, advection-diffusion, elasticity, Stokes, Navier-Stokes with and without Lax-Friedrichs flux, unsteady) on 6 divided meshes and 4 component arrangements (quadrilaterals, triangles, hexahedra, tetrahedra), order 1-3, conforming and full-dg; every choice of offset and frequency of the shown subdomains and the unified view; all histories of 3 (thorough 4) saves with and without a step; views of the 4 samples of a parameter grid; unsteady runs: view interval 0-4 x 0-3 steps x every restart point x selections; every basis (joint, separate, with supremizers), reduced-order and error views for the three ways of loading; every field at every point of every file read back",
}

PROPS["C23"] = {
    "harnesses": [{"name": "h_stages", "full": True, "ldflags": WRAP_SUBMESH + WRAP_PROBLEM + WRAP_MPI + WRAP_RANDOM, "cxxflags": ["-fno-access-control"], "programs": [("bin/main.cpp", "vc_prog_main")]}],
    "rule": "number of different (stage, files present) pairs",
    "technique": "explicit-state model checking: every reachable state of a transition model of the program's directory, every transition executed by the real program and its result compared with the model",
    "bounds": "bin/main.cpp run as a program in a directory of its own: every reachable content (samples, bases, global and component operators and EQP rules, each absent or from one of two sets of samples; up to 57 contents) x every stage and run (up to 16), options alternately in the input file and on the command line; 5 solvers (Navier-Stokes with tensor and EQP handling) x 3 meshes divided by attributes and 3 arrangements of components, joint and separate bases; 12 malformed invocations; samples of 2 or 3 runs collected in 6 ways (by basis or by port; list, numbers, both) and from the configured run; comparison with files that hold multiples of the solution, alike or different per variable, of other sizes, or missing; every pattern of up to 4 converging and failing attempts at 2 (thorough 3) random samples; random single runs and samples (thorough: joint and separate for all solvers, all meshes)",
}
