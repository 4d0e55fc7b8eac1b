#!/usr/bin/env python3
# Source of /verif/properties.jsonl: run it to regenerate the file.
import json, os
L = []
def P(id, title, statement, over, q, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    L.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a})

P("C01", "Configuration options: what is set is what is read, defaults never overwrite",
  "After any sequence of loading a YAML file, applying command-line overrides and setting options, reading a slash-separated option path returns the value most recently given for exactly that path, in the requested type, and no other path is affected. Reading never changes the configuration: an absent option yields the caller's fallback (again and again, whatever fallback is passed) and a required option that is absent stops the program. Looking an option up in a list of records returns the value belonging to the first record whose name matches, and the fallback (or a stop, if required) otherwise.",
  ["histories", "inputs"], "every sequence of load / override / set / read / look-up operations over any set of nested option paths and types",
  "The tests run one fixed sequence over one fixed file; order of overwriting, prefix paths, interleaved reads with different fallbacks and repeated use are never combined.",
  ["include/input_parser.hpp", "src/input_parser.cpp"],
  [("InputParser::GetOption / GetRequiredOption / SetOption / GetOptionFromDict", "include/input_parser.hpp"), ("InputParser::Parse, override strings", "src/input_parser.cpp")])
P("C02", "Stored data comes back from a file exactly as it was written",
  "Every kind of object the library can store (numbers, flags, strings, tags, integer/real/boolean arrays in one and two dimensions, vectors, dense matrices, third-order tensors, sparse matrices, block matrices, matrix-block tables, hyper-reduction samples) is read back with the same shape and bit-identical entries, for every shape and sparsity pattern, whatever the receiving object held before. Storing several objects under different names, in groups, after re-opening the file and reading them in any order gives each one back unchanged. Asking for something that is not in the file stops the program instead of returning made-up data.",
  ["inputs", "histories"], "all shapes, sparsity patterns, values, write/re-open/read orders and prior contents of the receiver",
  "The tests write one or two square or random objects each into a fresh file and read them into fresh objects.",
  ["include/hdf5_utils.hpp", "src/hdf5_utils.cpp", "src/hyperreduction_integ.cpp", "include/hyperreduction_integ.hpp"],
  [("hdf5_utils::WriteDataset/ReadDataset family, WriteSparseMatrix, WriteBlockMatrix, attributes", "include/hdf5_utils.hpp, src/hdf5_utils.cpp"), ("EQPElement::Save/Load", "src/hyperreduction_integ.cpp")])
P("C03", "Parameter ranges: samples are evenly spaced, in order, inside the range",
  "A real parameter with n samples takes, for sample indices 0..n-1, the n equally spaced values (geometrically spaced on a logarithmic scale) from its minimum to its maximum, both included, and writes exactly that value under exactly its own option path. An integer parameter takes the minimum plus equal integer steps (the range divided by n-1, rounded down, so that the maximum is reached when it divides evenly), and a file-name parameter the file name formatted with that integer; all file names of its range can be listed. A random draw writes a value inside the closed range, on a logarithmic scale for logarithmic parameters, over the whole range and nothing else.",
  ["inputs", "configurations", "histories"], "all ranges, sample counts, sample indices, scales, draw values and orders of setting several parameters into one configuration",
  "The only tests of parameters need libROM and are not part of the suite; they use one list of parameters.",
  ["include/parameter.hpp", "src/parameter.cpp", "src/etc.cpp"],
  [("DoubleParam/IntegerParam/FilenameParam::SetParam, SetRandomParam, ParseFilenames", "src/parameter.cpp"), ("UniformRandom", "src/etc.cpp")])
P("C04", "Sampling covers every parameter combination once; each job has one owner",
  "For any set of sampled parameters the sample indices 0..N-1 (N the product of the parameter sizes) correspond one-to-one to the combinations of parameter values, and setting sample s sets every parameter to its value of that combination; the index-to-combination and combination-to-index maps invert each other. Whatever the number of processes, every sample is the job of exactly one process and the shares differ by at most one. Snapshot files and basis tags derived from a generator's configuration name the samples and components they were made for. Every snapshot taken is stored once, in order, under its own tag; the column pairs recorded for a port point at the two snapshots taken together, also after the files of several runs have been collected in any order. A sampling run, split over any number of processes, finishes, produces every sample once and leaves the configuration as it was.",
  ["configurations", "inputs", "schedules"], "all numbers of parameters, sizes, sample indices, process counts and ranks, and histories of samples and collected files",
  "The existing test needs libROM, uses three sizes and one process.",
  ["src/sample_generator.cpp", "include/sample_generator.hpp", "src/random_sample_generator.cpp", "src/main_workflow.cpp"],
  [("SampleGenerator::GetSampleIndex / GetNestedIndex / SetSampleParams / DistributeSamples / IsMyJob", "src/sample_generator.cpp")])
P("C05", "Splitting a mesh by element attribute loses nothing and pairs interfaces exactly",
  "Decomposing a mesh into subdomains by element attribute puts every element in exactly one subdomain and every boundary element, with its original attribute, in exactly one subdomain. Every interior face between two subdomains appears as exactly one interface record, in the one port belonging to that pair of subdomains, and the two recorded boundary elements lie geometrically on that same face; port attributes are pairwise different, not used by the global boundary, and present on both subdomain meshes. Transferring a field between the global mesh and the subdomains and back reproduces it.",
  ["inputs", "configurations"], "all meshes, attribute assignments (including disconnected and interleaved subdomains), dimensions and refinements",
  "The tests only compare a few fixed partitions of two meshes against a component-wise description of the same partition.",
  ["src/topology_handler.cpp", "include/topology_handler.hpp"],
  [("SubMeshTopologyHandler constructor, BuildPortDataFromMesh, BuildInterfaceInfos, TransferToGlobal, UpdateAttributes/UpdateBdrAttributes", "src/topology_handler.cpp")])
P("C06", "Assembling components through ports gives the intended global mesh",
  "Building a global configuration from component meshes places each component by its own rotation and translation, and every port joins exactly the boundary faces that coincide geometrically: each boundary element of a port on one side is paired with one on the other side, with matching vertices, none twice and none omitted. All other boundary elements carry the global boundary attributes the configuration file assigns to that mesh and boundary. Writing port descriptions to a file and reading them back gives the same ports, and the result is the same topology as decomposing the equivalent single mesh.",
  ["configurations", "inputs", "histories"], "all arrangements of components, port lists (in any order and direction), rotations, translations and boundary assignments",
  "The tests cover one 2D and one 3D arrangement with all ports declared in one order.",
  ["src/component_topology_handler.cpp", "include/component_topology_handler.hpp"],
  [("ComponentTopologyHandler::SetupComponents/SetupReferencePorts/SetupMeshes/SetupBoundaries/SetupReferenceInterfaces/SetupPorts", "src/component_topology_handler.cpp")])
P("C07", "Forms on decomposed domains equal the same forms on the undivided domain",
  "For every decomposition, adding the interface terms between subdomains to the subdomains' own terms gives exactly the matrix, residual and Jacobian of the discontinuous Galerkin form on the undivided mesh, after renumbering. This holds for every interface term the library offers, for each coefficient and penalty, whichever side of a port is listed first and in whatever order ports are listed (where a term distinguishes its two sides, such as the skew-symmetric flux advected by its first side, the undivided form being the one whose first side is the one the port lists first). Repeated evaluation and assembly give the same result as a first one.",
  ["inputs", "configurations", "histories"], "all decompositions, element orders, dimensions, states, coefficient values, and call histories",
  "Existing tests check gradients of one interface flux on one two-subdomain mesh with random states, or global convergence rates needing libROM.",
  ["src/interface_form.cpp", "src/interfaceinteg.cpp", "include/interfaceinteg.hpp", "include/interface_form.hpp"],
  [("InterfaceForm::AssembleInterfaceMatrices, InterfaceAddMult, InterfaceGetGradient; MixedInterfaceForm", "src/interface_form.cpp"), ("Interface*Integrator::AssembleInterfaceMatrix/Vector/Grad", "src/interfaceinteg.cpp")])
P("C08", "Nonlinear residuals are the stated forms and Jacobians their derivatives",
  "For every nonlinear domain, interior-face, boundary-face and interface term and every state, the assembled residual is the integral the term is documented to represent and the assembled Jacobian is the derivative of that residual. This holds with and without the optional coefficients, on elements, faces and boundaries of any supported shape and order. Residual and Jacobian depend on the given state only, not on what was evaluated before.",
  ["inputs", "histories", "configurations"], "all states (including zero and reversed flow), elements, faces, coefficients, and evaluation histories",
  "The tests draw one random state per run, with one coefficient set, on one mesh, and evaluate in one fixed order.",
  ["src/nonlinear_integ.cpp", "src/interfaceinteg.cpp", "src/hyperreduction_integ.cpp"],
  [("VectorConvectionTrilinearFormIntegrator, IncompressibleInviscidFluxNLFIntegrator, TemamTrilinearFormIntegrator, DGLaxFriedrichsFluxIntegrator, DGTemamFluxIntegrator", "src/hyperreduction_integ.cpp, src/nonlinear_integ.cpp, src/interfaceinteg.cpp")])
P("C09", "Sampled quadrature with all points and weights equals the full integral",
  "Evaluating a nonlinear term at a single quadrature point and summing over all points with their quadrature weights gives exactly the fully integrated residual and Jacobian, for elements, interior faces, boundary faces and interfaces. The precomputed fast evaluation on a reduced basis gives exactly the projection of the term evaluated at the same sampled points with the same weights. Contributions of samples add up independently of how they are grouped or ordered.",
  ["inputs", "configurations", "histories"], "all quadrature points, elements, faces, bases, weights and sample subsets",
  "Only libROM-dependent tests (not part of the suite) exercise this, for random samples.",
  ["src/hyperreduction_integ.cpp", "include/hyperreduction_integ.hpp", "src/interfaceinteg.cpp"],
  [("AssembleQuadratureVector/AssembleQuadratureGrad, AppendPrecompute*Coeffs, AddAssembleVector_Fast/AddAssembleGrad_Fast", "src/hyperreduction_integ.cpp, src/interfaceinteg.cpp")])
P("C10", "Linear DG terms assemble the stated bilinear and linear forms",
  "Every linear face, boundary and domain term (vector diffusion and elasticity penalty terms, mixed velocity-pressure face terms, weak Dirichlet and flux right-hand sides) assembles the integral it is documented to represent, for all polynomial orders, dimensions and coefficients. The discrete forms are consistent: for a polynomial solution representable in the space the assembled system with its boundary terms is satisfied exactly. Symmetric variants are symmetric, boundary terms are zero for zero data and linear in the data.",
  ["inputs", "configurations"], "all meshes, orders, dimensions, coefficients, penalty parameters and boundary data",
  "The suite has no test of these terms that runs here; the convergence tests need a solver stack and only watch error rates for one smooth solution.",
  ["src/dg_bilinear.cpp", "src/dg_mixed_bilin.cpp", "src/dg_linear.cpp", "include/dg_bilinear.hpp", "include/dg_linear.hpp", "include/dg_mixed_bilin.hpp"],
  [("DGVectorDiffusionIntegrator, DGElasticity...", "src/dg_bilinear.cpp"), ("MixedBilinearFormDGExtension, DGNormalFluxIntegrator", "src/dg_mixed_bilin.cpp"), ("DGVectorDirichletLFIntegrator and the boundary linear forms", "src/dg_linear.cpp")])
P("C11", "Block smoothers perform exactly the stated block sweeps",
  "Applying the block Jacobi smoother applies exactly the inverses of the diagonal blocks once (the only supported use), and the block Gauss-Seidel smoother performs exactly n forward, backward or symmetric block sweeps, with the exact inverses of the diagonal blocks and for any block sizes and any pattern of missing blocks. The exact solution is a fixed point when iterating, and one sweep solves a block-triangular system exactly. The smoother always acts with the operator given to it last.",
  ["inputs", "configurations", "histories"], "all block partitions, zero-block patterns, iteration counts, sweep types and operator-replacement histories",
  "The tests run one 4-block random matrix of full pattern against a loop of the same form.",
  ["src/block_smoother.cpp", "include/block_smoother.hpp"],
  [("BlockSmoother::SetOperator, BlockGSSmoother::Mult, BlockDSmoother::Mult", "src/block_smoother.cpp")])
P("C12", "Dense/sparse kernels compute the documented algebra for every shape",
  "Every projection, row-restricted product, tensor contraction, orthonormalisation, block-table addition and basis-extraction kernel returns the documented algebraic result for all shapes, row selections (unsorted, repeated, single) and zero patterns, and variants that accumulate add to what was there while the others overwrite it. Orthonormalising a full-rank matrix against another gives orthonormal columns spanning the same space. The optimiser never ends with a larger objective than it started from and reaches the minimiser of convex least-squares problems.",
  ["inputs", "histories"], "all matrix shapes, row selections, weights, receivers' prior contents",
  "Tests cover two of the kernels at one size with one random draw each.",
  ["src/linalg_utils.cpp", "include/linalg_utils.hpp"],
  [("RtAP family, MultSubMatrix family, AddSubMatrixRtAP, Tensor* contractions, Orthonormalize, modifiedGramSchmidt, MatrixBlocks, AddToBlockMatrix, CGOptimizer, GetBasisElement", "src/linalg_utils.cpp")])
P("C13", "Reduced-operator collections survive saving and loading unchanged",
  "A collection of reduced operators (per component, per component boundary, per reference port, optional mass) that is saved and loaded into a fresh collection over the same components gives back every block of every member unchanged, whichever members and blocks exist and whatever their sizes. Component and port members are matched by name, so that a collection loaded into a configuration that lists the same components in another order still assigns every operator to its own component.",
  ["inputs", "configurations", "histories"], "all numbers of components, variables, boundaries and reference ports, block patterns, sizes and save/load histories",
  "No test in the suite saves or loads a collection.",
  ["src/rom_element_collection.cpp", "include/rom_element_collection.hpp"],
  [("ROMLinearElement::Save/Load", "src/rom_element_collection.cpp")])
P("C14", "Problem definitions: parameters drive exactly the data they name",
  "Each named problem exposes its parameters by name; setting a parameter by name or by index, singly or in a batch and in any order, changes exactly the problem data that parameter names and nothing else, last value wins. Boundary, forcing and initial data are fully determined by the current parameters and the position: evaluating them writes every component of the result, never depends on what the result vector held before, and evaluating twice gives the same. Boundary conditions stay consistent with the parameters after every change (a wall that is not driven is a zero wall, an inflow side is Dirichlet, an outflow side Neumann).",
  ["inputs", "histories", "configurations"], "all problems, parameter assignment sequences, positions and times",
  "Only a libROM-dependent test touches problems, with one sequence; nothing tests the data functions.",
  ["src/parameterized_problem.cpp", "include/parameterized_problem.hpp"],
  [("ParameterizedProblem::SetParams, FlowPastArray::SetBattr, PoissonComponent::SetBattr, function_factory::*", "src/parameterized_problem.cpp"), ("InitParameterizedProblem", "src/parameterized_problem.cpp")])
P("C15", "Timers and formatting helpers report exactly what happened",
  "A time profiler reports, for every name ever started, the number of completed start/stop pairs and a time per call that times the calls gives the total, in the order of first use, whatever the order in which timers are nested or interleaved; starting a running timer or stopping one that is not running stops the program. String formatting produces the whole text for any length. Uniform draws lie inside the requested closed range and can reach both ends.",
  ["histories", "inputs"], "all interleavings of start, stop and report over any set of timer names",
  "No test uses the profiler.",
  ["include/etc.hpp", "src/etc.cpp"],
  [("TimeProfiler::Start/Stop/Print, string_format, UniformRandom", "include/etc.hpp, src/etc.cpp")])
P("C16", "Hyper-reduced forms with every sample equal the projected full form",
  "A reduced nonlinear form (within a subdomain or across an interface) that is given every quadrature point with its own weight has exactly the residual and Jacobian of the full form projected on the basis, for every basis and reduced state. With any list of samples the form is the weighted sum of the contributions of exactly those points. Precomputing the sampled contributions changes no result, and saving and loading the samples gives a form with identical results. Samples obtained by training have positive weights at points where the integrator acts and reproduce the projected full quadrature of every snapshot within the requested tolerance and criterion; reported sample coordinates are the coordinates of those points.",
  ["inputs", "configurations", "histories"], "all bases, reduced states, subdomain arrangements and sample sets",
  "Tests of these forms need libROM, are not part of the suite and draw one random basis and state.",
  ["src/rom_nonlinearform.cpp", "src/rom_interfaceform.cpp"],
  [("ROMNonlinearForm::Mult/GetGradient, PrecomputeCoefficients", "src/rom_nonlinearform.cpp"), ("ROMInterfaceForm::InterfaceAddMult/InterfaceGetGradient", "src/rom_interfaceform.cpp")])
P("C17", "Reduced runs return the Galerkin solution, and the full-order solution when the basis contains it",
  "For every solver, decomposition and reduction option, the trained bases are orthonormal and contain the snapshots, supremizers are orthonormal to the velocity basis and supply the divergence of the pressure basis, and a reduced run assembles the projection of the full-order system in the stored basis and returns its solution; when the basis contains the full-order solution the run returns that solution and reports a relative error at the level of rounding. This does not depend on the operator storage level (none, global, component: stored to a file and loaded again, also in another arrangement of the components), the block ordering, joint or separate variable bases, the linear solver and preconditioner, tensor or (tightly trained) EQP handling, or whether the full-order solution is loaded or recomputed.",
  ["configurations", "inputs", "histories"], "all combinations of physics, decomposition, basis assignment, operator storage level, solver type and parameter values",
  "Workflow tests need libROM, and cover a few combinations.",
  ["src/main_workflow.cpp", "src/rom_handler.cpp", "src/multiblock_solver.cpp", "src/poisson_solver.cpp", "src/stokes_solver.cpp", "src/steady_ns_solver.cpp", "src/linelast_solver.cpp"],
  [("TrainROM / BuildROM / SingleRun", "src/main_workflow.cpp"), ("MFEMROMHandler::ProjectOperatorOnReducedBasis, Solve", "src/rom_handler.cpp")])
P("C18", "Full-order solvers compute the solution of the stated problem on every decomposition",
  "A solver set up from a problem definition applies exactly the condition, source and material the problem states: each boundary attribute gets the condition of its own entry, attributes without an entry or with a natural condition get none, a later problem replaces an earlier one, and the velocity on the boundary of an enclosed fluid has no net inflow. If the exact solution of the problem lies in the finite element space, every solver (Poisson, advection-diffusion, elasticity, Stokes, Navier-Stokes with and without Lax-Friedrichs flux) returns it to solver accuracy, for every division of a mesh or arrangement of components, order, continuous or fully discontinuous discretisation, natural or essential sides, and linear solver. With a fully discontinuous discretisation every solution is the same for every division. Stored solutions and flow fields load unchanged, and the reported relative error of two solutions is that of their difference.",
  ["inputs", "configurations"], "all problems, solutions, divisions and arrangements, boundary attribute sets, orders, discretisations and linear solvers",
  "The tests of the suite do not build the solvers; the others check convergence rates for a few meshes.",
  ["src/poisson_solver.cpp", "src/linelast_solver.cpp", "src/stokes_solver.cpp", "src/steady_ns_solver.cpp", "src/advdiff_solver.cpp", "src/multiblock_solver.cpp"],
  [("*Solver::BuildOperators / SetupBCOperators / Assemble / Solve / SetParameterizedProblem", "src/*_solver.cpp"), ("MultiBlockSolver::SaveSolution, LoadSolution, CompareSolution", "src/multiblock_solver.cpp")])
P("C19", "Unsteady Navier-Stokes: every history of steps, files and restarts is the same discrete evolution",
  "Each step of the unsteady solver solves its discrete equations (implicit viscous, pressure and mass terms, explicit Lax-Friedrichs advection of the previous state), starting with the initial condition of the problem; the state written to a restart file, taken as a snapshot or returned at the end is the state of exactly that step, with its step number and time, at exactly the requested intervals (snapshots only after the bootstrap steps), whatever else is written in between; continuing a run with a restart file, any number of times and at any steps, gives the states of the uninterrupted run; and the reduced unsteady model with a basis containing the states follows them, also from a restart file and with operators built for another time step size.",
  ["histories", "configurations"], "all step counts, restart points, ways to cut a run, and file, view and snapshot intervals up to a bound, x decompositions and boundary types",
  "The tests check one convergence rate, and no restart or snapshot of a time-dependent run.",
  ["src/unsteady_ns_solver.cpp", "src/multiblock_solver.cpp", "src/sample_generator.cpp"],
  [("UnsteadyNSSolver::Solve/Step/SolveROM/SetupInitialCondition", "src/unsteady_ns_solver.cpp"), ("MultiBlockSolver::SaveSolutionWithTime/LoadSolutionWithTime/SaveSnapshots", "src/multiblock_solver.cpp")])
P("C20", "Generated configurations describe the geometry that was asked for",
  "Every configuration file written by the Python generators (boxes of components with any periodicity, channels along self-avoiding paths, lattices of joints and rods, their training variants, the fixed sample configurations) is consistent: every mesh has the component and position asked for; every side of every mesh appears exactly once, as a boundary or in one interface; the interfaces are exactly the abutting sides (periodic images included; consecutive members for channels) and refer to the port between these two components and sides, which places the second component as the meshes are placed; boundaries have the attribute of their side, of inlet (4), outlet (2), walls (1 and 3) and objects (5) of a channel, or of the outer side of a lattice (5 inside), rotated cyclically in training variants; unused components are left out. Enumerating generators write every configuration exactly once under consecutive numbers and return their count, random ones write one of these, and neither a previous save nor another object influences a configuration. Training meshes equal the original mesh up to the cyclic shift of their boundary attributes.",
  ["inputs", "histories"], "all sequences of adding components, all periodicities, component assignments and lattice sizes",
  "No test covers the generators.",
  ["utils/python/"],
  [("BoxChannelConfig.addMesh/close/save/GenerateAllConfigs/CreateRandomConfig", "utils/python/box_channel_config.py"), ("ChannelConfig.addMesh/close/GenerateAllConfigs", "utils/python/channel_config.py"), ("Configuration.appendInterface/appendRefPort/save", "utils/python/config.py"), ("cw_generate_nu_mxn, cw_generate_nu_1x1, LatticeCantilever, SimpleL", "utils/python/linelast_comp_base.py, utils/python/linelast_comp.py"), ("CWTrain*, PermuteBdrData, shift_mesh_battrs", "utils/python/linelast_cwtrain.py"), ("Config*", "utils/python/sample_comp.py")])
P("C21", "Mesh tools write exactly the box, subdivision and periodicity that was asked for",
  "rectangle_mesh, cubic_mesh and 1d_mesh write, under the name given or the default name, a mesh of exactly the requested box with the requested number and kind of elements (times the refinement), order and, in two and three dimensions, subdomains: the element attribute is 1 + the index of its subdomain (x fastest), every subdomain having the same volume; in a periodic direction opposite sides are joined and nothing else is, the other sides carry MFEM's boundary attributes. Divisions that do not come out even, unknown element types and directions are refused. gmsh2mfem writes the same elements, boundary elements, attributes and geometry as the input file in two and three dimensions, with discontinuous nodes of the requested order.",
  ["inputs", "configurations"], "all sizes, divisions, orders, refinements, periodicities and element types",
  "No test runs the mesh tools.",
  ["utils/rectangle_mesh.cpp", "utils/cubic_mesh.cpp", "utils/1d_mesh.cpp", "utils/gmsh2mfem.cpp"],
  [("main", "utils/rectangle_mesh.cpp, utils/cubic_mesh.cpp, utils/1d_mesh.cpp, utils/gmsh2mfem.cpp")])
P("C22", "Visualization output shows the states it is labelled with",
  "Every saved view holds exactly the state it is labelled with: for each subdomain that is selected by the domain offset and frequency (and for no other), or for the unified view for the whole domain, each variable's field equals the solution that the solution file or the solver holds, component by component and point by point on the mesh of that subdomain. In unsteady runs the series lists every state at the view interval with its own step number and time, the initial state as the step the run starts from, and no later state under an earlier step, with any combination of view interval, restart interval, number of steps and restart point. Views of sampled solutions, of reduced-order runs (with the absolute error to the full-order solution) and of bases (every basis vector of every component and variable, joint or separate) hold those vectors; the written EQP sample coordinates are the locations of the samples. Where viewing is off nothing is written, and viewing never changes the solution.",
  ["inputs", "configurations", "histories"], "all solvers, subdomain selections, view intervals, run lengths and restart points",
  "No test reads a visualization file.",
  ["src/multiblock_solver.cpp", "src/unsteady_ns_solver.cpp", "src/advdiff_solver.cpp", "src/rom_handler.cpp", "src/topology_handler.cpp", "src/steady_ns_solver.cpp"],
  [("MultiBlockSolver::InitVisualization, SaveVisualization, CompareSolution", "src/multiblock_solver.cpp"), ("UnsteadyNSSolver::SaveVisualization, Solve", "src/unsteady_ns_solver.cpp"), ("AdvDiffSolver::SaveVisualization", "src/advdiff_solver.cpp"), ("MFEMROMHandler::SaveBasisVisualization", "src/rom_handler.cpp"), ("TopologyHandler::TransferToGlobal", "src/topology_handler.cpp")])
P("C23", "Program stages: what a stage writes depends only on its options and the files it reads",
  "The main program carries out exactly the stage that main/mode names, with the options of the input file as overridden on the command line (-f), in any order and any number of times: samples, bases, supremizers, EQP rules, reduced operators and solutions written by a stage are the same whether the options come from the file or the command line, and whatever was run before in the same directory (other samples, an earlier training, repeated or failed stages), given the files it reads; it writes its own files, replaces outdated ones, and leaves all other files as they are. A reduced run gives the full-order solution of its parameters if its basis holds it, from the latest training, and a run without reduced model the full-order solution. A stage whose input files do not exist, an unknown stage, solver or sampling type, or a malformed override ends with an error, without writing anything. The output file (-o) holds the times of what was done, -1 for what was not, and the error of each variable; reduced and projected full-order solutions are written where asked. Parameters chosen at random lie in the given ranges.",
  ["histories", "configurations"], "all contents of the directory that sequences of stages with two sets of samples can produce, and every stage from each, x solvers, decompositions and bases",
  "The tests of the suite that build here never run the main program.",
  ["bin/main.cpp", "src/main_workflow.cpp", "src/input_parser.cpp", "src/sample_generator.cpp", "src/rom_handler.cpp", "src/multiblock_solver.cpp"],
  [("main", "bin/main.cpp"), ("GenerateSamples, TrainROM, AuxiliaryTrainROM, TrainEQP, BuildROM, SingleRun", "src/main_workflow.cpp"), ("RandomSampleGenerator::SetParamSpaceSizes, SetSampleParams", "src/random_sample_generator.cpp")])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in L))
