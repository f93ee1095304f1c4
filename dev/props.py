"""Property texts, shared by dev/mk.py which writes properties.jsonl and MANIFEST.json."""
P = []


def p(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, observe=observe))


p("L01", "Linear solves end within their limit and report their outcome honestly",
  "Every iterative linear solve ends after at most the configured number of iterations; it is reported as converged only if its residual is within the tolerance "
  "times the norm of the right-hand side, and reported as failed when the limit is reached or a breakdown occurs. "
  "After a failed solve the caller is told (or the program ends with a failure status) and nothing computed from the failed solution is kept; a failed solve does not influence the outcome of the next one.",
  ["inputs", "histories"], "all matrices, right-hand sides, tolerances and iteration limits, and every sequence of solves of one object",
  "The unit tests solve a few well conditioned systems; they never reach the limit, a breakdown or a NaN, and never solve again after a failure.",
  ["src/algebra/iter.h", "src/algebra/cg.h", "src/algebra/bicg.h", "src/solver.cpp", "src/electrostatSolver.cpp", "src/spinAccumulationSolver.cpp", "src/time_integration.cpp"],
  [("iteration counter and status of the monitor", "src/algebra/iter.h"), ("status tests after the solver call", "src/solver.cpp, src/electrostatSolver.cpp, src/spinAccumulationSolver.cpp")],
  "typestate analysis of the convergence monitor by context-sensitive abstract interpretation of the clang AST; outcome forking at every solver call",
  "Sound for the modelled language fragment: every path through every solver template and solver class is covered, with all three outcomes at each call. Trusts the frontend, the models of the standard library, and that comparisons with NaN are false.")

p("L02", "Each linear system is assembled from a cleared matrix and right-hand side",
  "Every time a linear system is assembled and solved, its matrix and its right-hand side contain only the contributions of that assembly: nothing of an earlier assembly of the same object is left in them.",
  ["histories"], "all sequences of solves by one solver object",
  "The unit tests assemble each system once; left-over coefficients only show from the second solve on.",
  ["src/solver.cpp", "src/solver.h", "src/electrostatSolver.cpp", "src/spinAccumulationSolver.cpp", "src/algebra/sparseMat.h"],
  [("clearing of the matrix and of the right-hand side at the start of an assembly", "LinAlgebra::solve, spinAcc::solve"), ("single use of the electrostatic solver object", "spinAcc::spinAcc")],
  "typestate (used / cleared) of matrix and right-hand side over two consecutive histories, by abstract interpretation",
  "Decides that a full clear dominates the first accumulation on every history; assumes a mesh has at least one element, node and row.")

p("X01", "User expressions are evaluated with the right arguments, safely and repeatably",
  "A user-supplied expression is called with the values of its declared parameters in their declared order, and its components are returned in order, for any number of evaluations: "
  "the interpreter's stack is the same after each evaluation as before. An error in the expression ends the program with a message instead of an unprotected interpreter abort.",
  ["inputs", "histories"], "all expressions, and every number of evaluations of one parser",
  "The tests evaluate a few expressions a few times; a leak of one stack slot per call or a mistaken index only shows on particular shapes or after many calls.",
  ["src/expression_parser.cpp", "src/expression_parser.h", "src/settings.h"],
  [("balanced push / pop around each call, function kept at the bottom of the stack", "src/expression_parser.cpp")],
  "typestate (stack height and slot contents) of the script engine by abstract interpretation",
  "All paths of the parser methods; slot contents are symbolic. Trusts the stack effects of the Duktape API as documented.")

p("M03", "Every index designates an object of the kind its container holds",
  "Nodes, tetrahedrons, triangles, volume regions and surface regions are numbered separately: a table about one kind of object is only sized by, and looked up with, numbers of that kind, "
  "and a position in a list of selected objects (such as the magnetic elements) is never used as the number of an object. So every per-object datum is stored and read for the same object, whatever the mesh.",
  ["inputs", "configurations"], "all meshes, numberings and mixes of magnetic and non-magnetic regions",
  "On the all-magnetic meshes of the tests the numberings coincide, so mixing them up changes nothing there.",
  ["src/mesh.h", "src/mesh.cpp", "src/read.cpp", "src/solver.h", "src/solver.cpp", "src/linear_algebra.cpp", "src/energy.cpp", "src/spinAccumulationSolver.cpp", "src/electrostatSolver.cpp", "src/tetra.cpp"],
  [("per-kind containers and the index fields of the elements", "src/mesh.h, src/element.h, src/tetra.h")],
  "index-space inference by unification over a context-sensitive abstract interpretation of the whole program",
  "Covers every subscript of a vector reachable from main whose index has an inferable space; subscripts by unrelated counters get no space and are listed as not covered by omission.")

p("M02", "Renumbering the nodes of a mesh changes no element and no table",
  "When the nodes are sorted along an axis at start-up, every node of the file is kept exactly once, every vertex number of every tetrahedron and triangle is replaced exactly once by the new number of the same node, "
  "the table from file order to internal order that the result files rely on describes that very permutation, and nothing computed from vertex numbers before the sort is used after it.",
  ["inputs"], "all meshes and all node orders in the mesh file",
  "The test meshes are few and small, and the tests look at volumes and counts which a wrong renumbering of some vertices often leaves unchanged; no test has elements of several kinds in an order that exercises the permutation and its inverse separately.",
  ["src/mesh.h", "src/mesh.cpp"],
  [("sortNodes: permutation of the nodes, inverse table node_index, rewriting of the vertex numbers", "src/mesh.cpp"), ("order of the construction steps", "Mesh::mesh constructor, src/mesh.h")],
  "symbolic access-path analysis of the permutation, its inverse and the vertex rewrites by abstract interpretation of the mesh constructor",
  "Recognises gather and scatter forms; decides completeness (all nodes, all vertices of all elements, once) for all meshes. That std::sort permutes its range is trusted.")

p("M01", "Only valid meshes are accepted, and every boundary face has one surface element",
  "The program goes on with a mesh only if it is three-dimensional, its volume elements are all tetrahedrons and its surface elements all triangles, every region named in the settings exists in the mesh file, "
  "node numbers are within the number of nodes, there is at least one tetrahedron, no face is shared by more than two tetrahedrons, no surface triangle is listed twice, lies on no tetrahedron or lies inside a region. "
  "Any other mesh ends the program with a failure status. For each face on the boundary of a region or between two regions there is then exactly one surface element: the missing ones are created.",
  ["inputs"], "all mesh files and settings",
  "The unit tests have a handful of bad meshes, one per message; combinations, the last group of faces, and each face of a tetrahedron in turn are not sampled.",
  ["src/mesh.cpp", "src/mesh.h", "src/read.cpp", "src/meshUtils.h"],
  [("controlTriangles, diffTriHandler, assertNoErrInTriangle", "src/mesh.cpp"), ("checkMeshFile, readNodes", "src/read.cpp"), ("checkNamedObjects", "src/meshUtils.h")],
  "counter abstraction and interval analysis, path-sensitive, by abstract interpretation of the mesh constructor",
  "Every combination of 0, 1, 2, 3 or more coinciding surface triangles and tetrahedron faces is a separate abstract case. Trusts that sorting brings coinciding triangles together and that gmsh reports what the file contains.")

p("L05", "A solve reported as converged satisfies the system it was given",
  "When an iterative solver (conjugate gradient or stabilised bi-conjugate gradient, with or without imposed values) ends with the status 'converged', the vector whose norm passed the convergence test is, in exact arithmetic, "
  "the residual rhs - A x of the very x that is returned, restricted to the unknowns that are not imposed; that norm is compared with the norm of the right-hand side of the system; and no update changes an unknown whose value is imposed.",
  ["inputs"], "all matrices, right-hand sides, initial guesses, imposed values and numbers of iterations",
  "The tests solve a few fixed systems and end through one or two of the exits of each solver; the early exit in the middle of a step, the first and later iterations, and the masked variants each keep their own copy of the recurrences.",
  ["src/algebra/cg.h", "src/algebra/bicg.h", "src/algebra/algebra.h"],
  [("cg, cg_dir", "src/algebra/cg.h"), ("bicg, bicg_dir (2)", "src/algebra/bicg.h"), ("iteration::finished, set_rhsnorm", "src/algebra/iter.h")],
  "affine-relation analysis: vectors as linear forms over formal operators, invariant kept at loop heads, by abstract interpretation",
  "Exact arithmetic: rounding is not addressed. The element-wise kernels (add, scaled, mult, applyMask) are summarised by their names and signatures. A vector written element by element is not decided (assumption reported).")

p("S02", "A time step is accepted completely or leaves no trace",
  "Whatever the sequence of successes and failures: a trial step whose linear solve failed, or that moves the magnetisation by more than the largest change allowed (max(du), at any node), neither changes the magnetisation the simulation goes on from nor the time. "
  "An accepted step replaces the magnetisation once, after the demagnetising potential of the new one is known, and advances the time by exactly the time step with which the element matrices and the update were computed, or sets it to the output instant when that step is exactly the remaining distance. "
  "The local bases belong to the magnetisation the step starts from and do not change between assembly and update. The applied field is evaluated at the time of the magnetisation it is used with, for the dynamics as for the energies. "
  "Each output instant is written exactly once, and every magnetisation written to a file is an accepted one, also when a signal ends the run.",
  ["histories", "crash points"], "all sequences of accepted and rejected steps, all settings, a signal at any step",
  "The time integration is not covered by the unit tests at all; the integration tests are two runs in which hardly any step is rejected and the field is constant in time.",
  ["src/time_integration.cpp", "src/time_integration.h", "src/fem.h", "src/solver.cpp", "src/node.h", "src/energy.cpp", "src/save.cpp"],
  [("Fem::time_integration", "src/time_integration.cpp"), ("Fem::compute_all", "src/fem.h"), ("LinAlgebra::solve", "src/solver.cpp"), ("Node::make_evol, evolution", "src/node.h"), ("savesol", "src/save.cpp")],
  "typestate of the trial step with value numbering (polynomials), partitioned abstract interpretation of the whole time integration",
  "Loops over nodes and elements are taken to run at least once. Assembly is recognised as the calls of integrales; its arithmetic is not part of this property. Real arithmetic.")

p("S06", "Time steps stay within their bounds and rejected steps shrink",
  "Every time step is at most max(dt) and at most the distance to the next output instant; no step below min(dt) is integrated: needing one ends the run with a failure status. "
  "After a rejected step the next trial is strictly smaller, and the limit on the step never grows above max(dt).",
  ["histories"], "all sequences of accepted and rejected steps and all settings",
  "The stepper has no unit test, and the bounds are only reached after particular sequences of growth, rejection and output instants.",
  ["src/time_integration.cpp", "src/time_integration.h"],
  [("TimeStepper", "src/time_integration.cpp"), ("Fem::time_integration", "src/time_integration.cpp"), ("timing", "src/time_integration.h")],
  "inductive upper-bound analysis (symbolic order domain) by abstract interpretation of the time integration",
  "Real arithmetic; the initial step (geometric mean of the bounds) is taken to be below the maximum.")

p("L04", "Parallel loops are free of data races",
  "Loops handed to the standard library with an execution policy (assembly of the element matrices and of the sparse matrix, matrix-vector product, update of the nodes, averages and reductions) give the same result whatever the number of threads and the schedule, up to rounding: "
  "an iteration writes only its own variables and its own element, or a shared matrix row while it holds the mutex of that row, which it always releases; it reads nothing that another iteration writes; it calls nothing with hidden shared state (the random generator, the script interpreter); "
  "and values are combined only by operations that do not depend on the order. Adding to the sparse matrix is safe from several threads at once.",
  ["schedules"], "all interleavings and numbers of threads",
  "A race needs two iterations at the same place at the same time; the tests compare one or two runs on small meshes and would pass with most schedules.",
  ["src/linear_algebra.cpp", "src/solver.cpp", "src/solver.h", "src/algebra/sparseMat.h", "src/mesh.h", "src/mesh.cpp", "src/tetra.cpp", "src/triangle.cpp"],
  [("prepareElements", "src/linear_algebra.cpp"), ("LinAlgebra::solve", "src/solver.cpp"), ("SparseMatrix::add, mult", "src/algebra/sparseMat.h"), ("setBasis, evolution, max_angle", "src/mesh.h"), ("avg, thiele", "src/mesh.cpp")],
  "interprocedural effect analysis with ownership (private / element / shared) and lock-set tracking, by abstract interpretation of each parallel closure",
  "The lists of magnetic elements are taken to hold each index once. OpenMP threads inside the fast multipole library are outside.")

p("I01", "The settings printed are the settings in force, and can be read back",
  "The settings printed by the program (--verify) name every setting that can be given in a settings file, each with the value in force, under the section and key it is read from: reading the print-out gives the same settings, to the printed precision. "
  "A key is left out only when its feature is switched off (axes of a zero anisotropy constant, recentering and spin accumulation parameters when disabled); an undefined number is printed as null, not as a number that cannot be read. "
  "Settings that can be given in several forms (initial_magnetization, Bext) are used and printed in the form read last: a form read from an earlier settings file does not survive it.",
  ["inputs", "histories"], "all settings and all sequences of settings files",
  "The unit tests read a few keys one at a time and never read a print-out back; a forgotten or exchanged key, or a stale alternative, needs the whole cycle with that very key set.",
  ["src/settings.cpp", "src/settings.h", "src/fem.h", "src/main.cpp"],
  [("Settings::read(YAML::Node)", "src/settings.cpp"), ("Settings::toYaml, str", "src/settings.cpp"), ("use of restoreFileName", "src/fem.h")],
  "string and provenance analysis: two abstract interpretations (key -> field of the reader, printed key -> field and condition of the printer) whose maps are compared",
  "Strings printed without quotes are taken to be plain YAML scalars, and the escaping of quoted strings is not examined; number formatting is that of the stream.")

p("I06", "Ill-formed and contradictory settings are refused",
  "A settings file is refused, with a message and a failure status, when a section is not a map or the list of columns is not a sequence, an axis or vector is not a sequence of exactly three numbers, mesh.length_unit is not positive, "
  "a volume region has both Ms and Js, a surface region has both jn and V, the recentering direction is not X, Y or Z, mag_config_every is 'true', initial_magnetization is a map, a list of expressions has not three elements, or Bext is a map without both space and time. "
  "The axes given (uk, ex, ey, ez, uP) are normalised.",
  ["inputs"], "all YAML documents",
  "The tests try a few of the bad inputs, in isolation; which combinations of kinds and values reach the end of the reader is a question about all its paths.",
  ["src/settings.cpp", "src/settings.h"],
  [("Settings::read(YAML::Node), assign", "src/settings.cpp")],
  "abstract interpretation of the reader over all documents: possible kinds of each node and outcomes of value tests as facts on every path",
  "yaml-cpp is trusted to throw when a node has not the kind or the content a conversion needs. Keys unknown to the reader are not part of the property.")

p("I05", "A saved magnetisation can be restored",
  "Starting from a .sol file written by the program gives, at every node, the magnetisation and the potential written for that node, and the time written, to the printed precision, for any mesh, any reordering of its nodes, non-magnetic regions (undefined values) and spin accumulation columns. "
  "Rows carry the node numbers of the mesh file. A file without time, with rows of other nodes, or that is truncated or malformed is refused with a failure status, never restored in part; a file that cannot be opened for reading or writing ends the run with a failure status.",
  ["inputs", "histories"], "all meshes, states and files",
  "Saving is not linked in the unit tests at all, and no test restarts a simulation; the layout of the rows is written in one place and read in another, each looking right alone.",
  ["src/save.cpp", "src/read.cpp", "src/settings.cpp", "src/tags.h", "src/fem.h"],
  [("Mesh::mesh::savesol", "src/save.cpp"), ("Mesh::mesh::readSol", "src/read.cpp"), ("Settings::solMetadata", "src/settings.cpp"), ("tags::sol", "src/tags.h")],
  "abstract interpretation of the text written and read: row layout as access paths against tokens followed to the fields they are stored in",
  "strtod and stod are trusted to read what an ostream writes for a double. A number cut in its last digits, at the very end of a file, cannot be told from a shorter number.")

p("I03", "Each column of the evolution file holds the quantity it is named after",
  "For every list of columns: each output writes one row, one value per column in the order of the list, separated by tabs and ended by a newline. Under each documented name stands that quantity at the time of the row: iter, t, dt, max_dm (largest rate of change times the time step), max_angle, "
  "<Mx> to <Mz> and <dMx/dt> to <dMz/dt> (average of that component of the magnetisation or of its rate of change), Thiele_length, E_ex, E_aniso, E_demag, E_zeeman (that energy term and no other), E_tot, Hx, Hy, Hz (that component of the applied field). "
  "Averages and Thiele length named region:quantity are those of that region, without prefix those of all magnetic regions. A name that is none of these, or an unknown region, ends the run with a failure status. "
  "The magnetisation is saved exactly on the outputs whose number is a multiple of mag_config_every, each to its own file, and never when it is disabled.",
  ["inputs"], "all lists of columns, regions and output numbers",
  "Nothing in the unit tests links the code that writes the evolution file; an exchanged index, a wrong component or a region that is ignored gives plausible numbers.",
  ["src/save.cpp", "src/energy.cpp", "src/fem.h", "src/node.h"],
  [("Fem::saver", "src/save.cpp"), ("Fem::energy", "src/energy.cpp"), ("get_u_comp, get_v_comp", "src/node.h")],
  "abstract interpretation partitioned by the comparisons of the column name, values as terms over access paths and calls",
  "Averages, Thiele length and largest angle are recognised as calls of Mesh::avg, thiele, max_angle. Columns written through tables of functions would not be followed.")

p("P01", "The energies reported are those of the micromagnetic energy functional",
  "After each accepted step the energies are, to rounding, the integrals by the quadrature of the elements, over all magnetic tetrahedra and triangles, of: exchange A |grad u|^2; uniaxial anisotropy -K (uk.u)^2; "
  "cubic anisotropy K3 (a^2 b^2 + b^2 c^2 + c^2 a^2), a, b, c the components of u on ex, ey, ez; surface anisotropy -Ks (uk.u)^2; "
  "demagnetising energy (mu0/2) (-Ms div u in the volume + dMs u.n on the surface) phi; Zeeman energy -mu0 Ms u.Hext, for a uniform field and for a field given as a space part times a time part. "
  "u and phi are those of the end of the step; each term is started from zero; the total is the sum of the terms, each once.",
  ["inputs", "histories"], "all meshes, materials, fields and magnetisations",
  "The unit tests call single energy functions on one element with random numbers; nothing tests their use, the combination of terms, the state they are given or the reset, and a test only samples a formula.",
  ["src/energy.cpp", "src/tetra.cpp", "src/triangle.cpp", "src/tetra.h", "src/triangle.h", "src/settings.h"],
  [("Fem::energy", "src/energy.cpp"), ("Tet::exchangeEnergy, uniaxialAnisotropyEnergy, cubicAnisotropyEnergy, demagEnergy, zeemanEnergy", "src/tetra.cpp"), ("Tri::anisotropyEnergy, demagEnergy", "src/triangle.cpp")],
  "abstract interpretation in a domain of polynomial normal forms over material, shape-function and nodal symbols; the derived form is compared with the energy functional",
  "Real arithmetic. Elements, Gauss points and nodes are summarised by one representative each, with the position kept in the symbol; the shape function tables and weights are symbols, not numbers.")

p("P02", "The linear system is that of the tangent plane scheme of the LLG equation",
  "For every magnetic element the matrix and right-hand side assembled for a step are those of the tangent plane scheme for the Landau-Lifshitz-Gilbert equation whose effective field is -1/(mu0 Ms) dE/du for the energies of exchange, uniaxial, cubic and surface anisotropy, "
  "plus demagnetising and applied field: mass with the (corrected) damping and the precession terms, theta-implicit exchange and anisotropy, the potentials and rate potentials with the weights of the second order scheme, spin accumulation torque where enabled. "
  "The damping correction is the documented function of the local field and of the time step. The test and trial functions are the two tangent vectors of each node; values are those of the beginning of the step.",
  ["inputs"], "all meshes, materials, fields, time steps and magnetisations",
  "Unit tests compare some kernels with copies of older code for one random element; a wrong term, sign, factor or component for one combination of materials changes the dynamics quietly.",
  ["src/linear_algebra.cpp", "src/tetra.cpp", "src/triangle.cpp", "src/tetra.h", "src/triangle.h", "src/element.h"],
  [("LinAlgebra::prepareElements", "src/linear_algebra.cpp"), ("Tet::integrales, lumping, calc_alpha_eff, calc_aniso_uniax, calc_aniso_cub", "src/tetra.cpp"), ("Tri::integrales", "src/triangle.cpp")],
  "abstract interpretation in a domain of polynomial normal forms, piecewise for the damping correction; each coefficient is compared with the scheme derived from the energy functional",
  "Real arithmetic. Without moving frame (the drift velocity is not set anywhere). The contribution of v to the cubic anisotropy field is a known finding; anything else about it is still checked.")

p("P03", "Demagnetising potentials are those of the magnetic charges of the new state",
  "After each step, phi at every magnetic node is 1/4pi times the potential of the charges of the new magnetisation and phiv that of the charges of its rate of change: -Ms w div u at the Gauss points of the magnetic tetrahedra, dMs w u.n at those of the surface triangles, dMs the difference of Ms across the surface; "
  "for the nodes of a triangle the contribution of its own Gauss points is replaced by the exact potential of the triangle. Each evaluation renews all charges, each at the position of its own Gauss point, and starts from zeroed potentials, corrections and expansions: nothing of an earlier evaluation remains.",
  ["inputs", "histories"], "all meshes, materials and sequences of evaluations",
  "The evaluation of the field is not linked in the unit tests; wrong numbering of the sources or something left from an earlier evaluation only shows in a full simulation, as a plausible field.",
  ["src/fmm_demag.h", "src/tetra.cpp", "src/triangle.cpp", "src/mesh.h", "src/node.h"],
  [("fmm::fmm, calc_demag, demag, calc_charges", "src/fmm_demag.h"), ("Tet::charges", "src/tetra.cpp"), ("Tri::charges, correctionCharges", "src/triangle.cpp")],
  "abstract interpretation in a domain of polynomial normal forms with arrays indexed by symbols; order of effects on the octree checked as a typestate",
  "The fast multipole library and the closed form of the potential of a triangle (Tri::potential) are trusted.")

p("L03", "Element contributions reach the rows of their nodes, solutions their nodes",
  "Each coefficient of an element matrix or vector is added to the rows and columns of the global system that belong to the nodes and components it was computed for, for every solver (one, two or three unknowns per node) and for tetrahedra and triangles alike; "
  "the system solved is the one assembled; unknowns 2i and 2i+1 of the solution are the components on ep and eq of the rate of change of node i, and the new magnetisation of that node is u + dt v, normalised to length one, with v = gamma0 (vp ep + vq eq). Nodes that are not magnetic are not moved.",
  ["inputs"], "all meshes and element matrices",
  "The test of the assembly uses one small mesh and one block size; exchanging rows, blocks or components still gives a solvable system.",
  ["src/solver.h", "src/solver.cpp", "src/linear_algebra.cpp", "src/node.h", "src/mesh.h"],
  [("solver::buildMat, buildVect", "src/solver.h"), ("LinAlgebra::solve", "src/solver.cpp"), ("Node::make_evol", "src/node.h")],
  "abstract interpretation with symbolic indices: polynomial index maps of every addition to the system compared with the numbering of the unknowns",
  "The linear solvers are those of L05. Nodes are represented by one symbolic index.")
