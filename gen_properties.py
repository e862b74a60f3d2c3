#!/usr/bin/env python3
"""Writes properties.jsonl (the one place where the property texts are edited)."""
import json, os
F = "anifem++/fem/"; O = F + "operations/"; S = F + "spaces/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- containers
prop("I01", "Interval map behaves as a partial function on keys after every insert history",
 "After any sequence of insertions of finite, one-sided infinite or unbounded half-open intervals, every lookup (contains, count, find, at, indexing, bounds, iteration, interval ends) answers as a point-wise key-to-value function would. An insertion is rejected exactly when it is empty or disagrees with a value already present, a rejected insertion leaves the content unchanged, and the stored intervals are the maximal runs of equal value in increasing order.",
 ["histories"], "every sequence of insertions (any length), clears, swaps and copies over any keys and values",
 "the tests insert a handful of fixed histories; overwriting through an infinite end needs a particular order of two or three insertions",
 ["anifem++/interval/interval_map.h", "anifem++/interval/interval_map.inl"],
 [("insert / search / merge", "anifem++/interval/interval_map.inl insert(...)"), ("lookup", "internal_find, contains, internal_lower_bound, internal_upper_bound")],
 [("interval list", "sorted disjoint intervals with values", "interval_map::m_map_list"), ("infinite ends", "which outer ends are infinite", "interval_map::boundary_status")],
 ["size, find, at, contains, iteration"])
prop("I02", "Interval map text form round-trips",
 "Printing any interval map and parsing the text with the same delimiters yields a map with the same content, whatever non-empty delimiters, padding symbols, start offset and length limit at an element boundary are chosen.",
 ["histories", "inputs"], "every reachable map content and every admissible choice of delimiters",
 "tests parse two fixed strings with the default delimiters",
 ["anifem++/interval/interval_map.inl"], [("printer", "PrintState::print"), ("parser", "parse_interval_map")])
prop("I03", "Interval and index enumerators list exactly their elements in order",
 "An enumerator over intervals, or over index tuples selected by per-axis interval or explicit index sets with optional remapping, visits exactly the selected elements once each in lexicographic order. Its size, random access, iterator arithmetic and comparison, membership and search all agree with that sequence.",
 ["inputs", "histories"], "every bounded list of intervals or axis selections and every walk of iterator steps",
 "tests walk a few fixed arrays forward",
 ["anifem++/interval/interval_enum.h", "anifem++/interval/interval_enum.inl", "anifem++/interval/ext_array_enum.h", "anifem++/interval/ext_array_enum.inl"],
 [("enumerators", "interval_enum.h, ext_array_enum.h iterators")])
# ---------------------------------------------------------------- memory
prop("M01", "Work-memory pool never hands out overlapping or lost memory",
 "In every sequence of chunk requests, releases, defragmentations and whole-pool operations, chunks that are alive at the same time never overlap, have at least the requested sizes, and keep what was written to them until they are released. Memory of released chunks becomes available again and the pool reports its use consistently.",
 ["histories"], "every sequence of allocate, release, move and maintenance operations of any sizes and any release order",
 "the unit test releases chunks in one or two fixed orders",
 [F + "fem_memory.h"], [("chunk bookkeeping", "DynMem alloc / clearChunk / defragment")],
 [("chunk list", "storage blocks with their busy part", "DynMem::m_mem")])
prop("M02", "Parallel work-memory pool is safe under every thread interleaving",
 "When several threads request, use and release work memory from one shared pool at the same time, no two live chunks share memory, no request gets memory in use by another thread, and every release makes exactly its own chunk reusable, in every interleaving. No interleaving deadlocks.",
 ["schedules"], "every interleaving of two or three threads each doing a few requests and releases",
 "no test uses the shared pool from more than one thread, and a race shows only for particular interleavings",
 [F + "fem_memory_parallel.h", F + "mutex_type.h", F + "fem_memory.h"],
 [("block acquisition", "DynMemParallel alloc / release / defragment under its mutex")],
 [("block states", "which block belongs to which thread", "DynMemParallel::m_mem, m_busy...")])
prop("M03", "Advertised workspace size always suffices and is never exceeded",
 "For every supported finite element pair, operator pair, quadrature order and batch size, running an integration, evaluation or interpolation with exactly the advertised amount of caller-supplied work memory succeeds and never touches memory outside that workspace or the output. The result is the same as with automatically managed memory.",
 ["inputs", "configurations"], "every combination of spaces, operators, orders and batch sizes of every entry point with caller-supplied memory",
 "tests pass generous buffers or automatic memory for a few combinations; an overrun of a few numbers goes unnoticed",
 [F + "fem_memory.h", F + "operators.h", O + "core.inl", O + "int_tet.inl", O + "int_face.inl", O + "int_edge.inl", O + "int_pnt.inl", O + "interpolate.inl"],
 [("memory requirement functions", "*_memory_requirements, PlainMemory::setMemory/allocateFromRaw"), ("carving", "AniMemory set up from plain memory")])
prop("M04", "Parallel loop helper executes every index exactly once",
 "The parallel loop helper runs its body exactly once for every index of the range, for any range length, thread count and chunking, and returns only when all of them are done.",
 ["inputs", "schedules"], "every range length, thread count and parallel back end",
 "no test runs the parallel loop helper",
 [F + "mutex_type.h"], [("loop splitting", "ThreadPar::ParallelFor")])
prop("M05", "Assembling with several threads gives the result of one thread",
 "When matrices, right-hand sides or sparsity templates are assembled with several threads, every schedule of the threads assembles every cell exactly once and gives the same matrix, right-hand side and returned status as one thread, for all options (ordered or unordered insertion, prepared templates, dropping of small values, initial values, enumerations). No schedule has a data race or a deadlock. Each cell is handed to the element function with the same data as with one thread, and an element value that is not a number is reported as with one thread.",
 ["schedules", "configurations"], "every interleaving of the worker threads, every combination of assembling options, every small mesh and space",
 "no test assembles at all, and a race or a lost lock shows only for particular interleavings of two threads on rows they share",
 ["anifem++/inmost_interface/assembler.inl", "anifem++/inmost_interface/assembler.h", "anifem++/inmost_interface/elemental_assembler.cpp", F + "mutex_type.h", F + "fem_memory_parallel.h"],
 [("threaded loop over cells", "AssemblerT::Assemble* / parallel_for"), ("row locks and buffers per thread", "assembler.inl, assemble step under OrderInfo / LockService")],
 [("data of each worker", "element assembler, memory and status of a thread", "AssemblerT::internal_data / worker objects")])
# ---------------------------------------------------------------- degrees of freedom
prop("D01", "Degree-of-freedom numbering is a bijection with geometric location",
 "For any space numbering built from scalar, vector, composed and nested parts, converting a local number to its geometric location (element kind, element, index on it) and back is the identity on all numbers and on all valid locations. Counts per element kind, totals and component locations are consistent with that bijection, and every location is attached to the element it names.",
 ["programs", "inputs"], "every numbering expression and every local number",
 "the tests check a handful of numberings; component and nesting effects need specific positions in a composite",
 [F + "tetdofmap.h", F + "tetdofmap.cpp", F + "tetdofmap.inl"],
 [("numbering and its inverse", "BaseDofMap::LocalOrderOnTet / TetDofID / TypeOnTet")])
prop("D02", "Selective traversal visits exactly the selected degrees of freedom once",
 "Traversing the degrees of freedom of any numbering restricted to any selection of vertices, edges, faces and the interior yields each selected one exactly once and no others, in both traversal orders. The geometry-ordered traversal lists them element by element.",
 ["programs", "inputs"], "every numbering and each of the 2^15 element selections",
 "tests try a few selections on a few numberings",
 [F + "tetdofmap.h", F + "tetdofmap.cpp", F + "tetdofmap.inl"],
 [("selective iterators", "DofIterator, IncrementByGeomSparsity, BeginByGeomSparsity")])
prop("D03", "Compile-time and run-time numberings and their sub-views agree",
 "A numbering assembled at compile time and the one assembled at run time from the same parts assign the same numbers to the same locations. A view of any component at any depth reproduces exactly that component's numbers in the whole, and simplifying copies or nested products never change the numbering.",
 ["programs"], "every bounded expression of products, powers and nested sub-views",
 "tests compare one or two composites",
 [F + "tetdofmap.h", F + "tetdofmap.cpp", F + "tetdofmap.inl", F + "fem_space.inl"],
 [("composite maps", "VectorDofMap, ComplexDofMap, NestedDofMap and their compile-time twins")])
prop("D04", "Renumbering the vertices permutes degrees of freedom consistently",
 "For any permutation of the vertices of a tetrahedron or of one of its elements, the induced renumbering of locations on edges and faces is a bijection, respects composition of permutations and keeps every location on the same geometric entity. Two cells that share a face or an edge therefore agree on the order of the shared degrees of freedom.",
 ["inputs", "configurations"], "all 24 vertex permutations, all elements and all symmetry classes",
 "no test renumbers vertices",
 [F + "tetdofmap.h", F + "tetdofmap.cpp", F + "tetdofmap.inl"],
 [("symmetry tables", "DofSymmetries, index_on_reordered_elem")])
prop("D05", "Element selections obey set algebra",
 "A selection of tetrahedron elements built by any sequence of set, unset, union, intersection, complement and difference steps contains exactly the elements that the same steps select on plain sets, and its traversal and closure queries list exactly those.",
 ["histories", "inputs"], "every sequence of selection operations",
 "tests build a few selections",
 [F + "tetdofmap.h", F + "tetdofmap.cpp"], [("bit sets", "TetGeomSparsity")])
prop("D06", "Dirichlet conditions replace exactly the constrained equations",
 "Imposing prescribed values on any set of degrees of freedom of an element system produces the system in which exactly those unknowns are eliminated or fixed as documented, leaving every other entry as it was. The imposed system has the same solution as the reduced one and stays symmetric where symmetry is promised.",
 ["histories", "inputs"], "every element matrix shape, every subset of constrained unknowns and every order of imposing them",
 "tests impose one fixed selection on one matrix",
 [O + "dc_on_dof.h", O + "dc_on_dof.inl"], [("row and column elimination", "applyDir*, setVectorDir*")])
# ---------------------------------------------------------------- quadrature and geometry
prop("Q01", "Every quadrature rule is exact to its order with positive interior points",
 "For every available order the segment, triangle and tetrahedron rules integrate every monomial up to that order exactly (to rounding), have weights that sum to one, points in barycentric form inside the element, and the symmetry they declare.",
 ["inputs", "configurations"], "every rule, every order and every monomial of degree up to the order",
 "tests integrate selected polynomials; a perturbed coordinate of one rule stays unnoticed below a loose tolerance",
 [F + "quadrature_formulas.h", F + "quadrature_formulas.cpp"], [("rule tables", "quadrature_formulas.cpp")])
prop("G01", "Dense kernels solve, invert and factor every matrix they accept",
 "The dense kernels (3x3 inverse and determinant, fully pivoted elimination, Cholesky, orthogonal factorisation, singular values) return factors, inverses and solutions that satisfy their defining equations for every matrix in their documented domain, including permuted and rank-deficient ones where allowed. In-place use gives the same result as out-of-place use.",
 ["inputs", "configurations"], "every small matrix with entries from a small set, every size and both linear algebra back ends",
 "tests factor a few fixed matrices per kernel, mostly needing no column exchange",
 [F + "geometry.h"], [("kernels", "inverse3x3, fullPivLU*, cholesky*, QR, jacobiSVD in geometry.h")])
prop("G02", "Element geometry quantities match their definitions",
 "Volumes, areas, normals, centres and Jacobians computed for any non-degenerate tetrahedron equal their geometric definitions, outward normals point outward for every face and vertex orientation, and quantities are consistent under translation, scaling and renumbering of vertices.",
 ["inputs"], "every tetrahedron with vertices on a small lattice, every vertex order and every face",
 "tests use one or two tetrahedra",
 [F + "geometry.h", O + "core.inl"], [("geometry helpers", "Tetra, cross, face_normal, tri_area in geometry.h")])
# ---------------------------------------------------------------- spaces
prop("F01", "Basis functions are dual to the degrees of freedom of their space",
 "For every finite element space, simple or composite, interpolating the k-th basis function of a tetrahedron yields the k-th unit coefficient vector. Interpolation therefore reproduces every function of the space on every non-degenerate tetrahedron.",
 ["inputs", "programs"], "every space expression, every basis function and tetrahedra of every shape and orientation",
 "tests interpolate a few functions on one tetrahedron",
 [S + "*.h", F + "fem_space.cpp", F + "operators.h"], [("interpolation functionals and basis evaluation", "Dof<...>::interpolate, Operator<IDEN, ...>")])
prop("F02", "Differential operators give the exact derivatives of basis functions",
 "For every space and each of its gradient, divergence, curl and partial-derivative operators, the values at any point of any tetrahedron equal the exact derivatives of the space's basis functions there. Vector and composed spaces place each component's values at that component's rows and columns.",
 ["inputs", "programs"], "every space, operator, point, tetrahedron and batch of tetrahedra",
 "tests compare a few spaces with themselves along another code path",
 [S + "*.h", F + "operators.h", F + "fem_space.cpp", F + "numeric_expr.inl"], [("operator evaluation", "Operator<OP, ...>::apply, applyOP")])
prop("F03", "Space algebra is consistent",
 "Products, powers, unions, copies and sub-spaces of spaces have the dimensions, counts, orders and numbering that their parts dictate; two spaces compare equal exactly when they are built of equal parts in the same order, and operators taken from unequal spaces never compare equal. Sub-space selection returns the selected part.",
 ["programs"], "every bounded expression built from the basic spaces",
 "tests build a few expressions and never compare different ones",
 [F + "fem_space.h", F + "fem_space.inl", F + "fem_space.cpp"], [("space composition", "FemSpace operators, ComplexFemSpace, VectorFemSpace, UniteFemSpace")])
prop("F04", "Run-time and compile-time spaces evaluate identically",
 "Any space built at run time evaluates every operator, interpolates every function and numbers every degree of freedom exactly as the compile-time space of the same composition.",
 ["programs", "inputs"], "every composition available in both forms, every operator and batch size",
 "tests compare some of the compositions at one set of points",
 [F + "fem_space.cpp", F + "fem_space.inl", F + "operators.h", F + "operators.inl"], [("two implementations of each space", "GenSpace / Operator<...>")])
prop("F05", "Neighbouring cells agree on the traces their space shares",
 "For two tetrahedra sharing a face, an edge or a vertex under any local vertex orders, functions with equal shared degrees of freedom have the continuity their space promises across the shared element: values for nodal spaces, tangential parts for edge spaces, normal parts for face spaces, face averages for non-conforming ones.",
 ["inputs", "configurations"], "every pair of local vertex orders of the two cells and every space",
 "every test works on single, identically ordered cells",
 [S + "*.h", F + "tetdofmap.cpp"], [("orientation rules and numbering of shared degrees of freedom", "spaces/*.h, DofSymmetries")])
# ---------------------------------------------------------------- assembly
prop("A01", "Cell integrals equal exact polynomial integrals",
 "The element matrix of any pair of spaces and operators with a polynomial coefficient equals the exact integral over the tetrahedron whenever the requested order covers the integrand's degree, with test functions on rows and trial functions on columns, for every shape and orientation of the tetrahedron.",
 ["inputs", "programs", "configurations"], "every pair of spaces and operators, coefficient, order and tetrahedron",
 "tests compare a few pairs with stored numbers",
 [O + "int_tet.inl", O + "core.inl", F + "diff_tensor.h"], [("integration", "fem3Dtet, internalFem3Dtet, applyDU")])
prop("A02", "Face integrals equal exact polynomial integrals on the right face",
 "The face matrix of any pair of spaces and operators equals the exact surface integral over the chosen face, including the outward-normal coefficient variant, whenever the order covers the degree, for every face and every tetrahedron.",
 ["inputs", "programs"], "every face, pair of spaces and operators, coefficient, order and tetrahedron",
 "tests compare one face against stored numbers",
 [O + "int_face.inl", O + "core.inl"], [("face integration", "fem3Dface, fem3DfaceN")])
prop("A03", "Edge, vertex and point operations equal their definitions",
 "Edge integrals equal exact line integrals along the chosen edge, vertex and point forms equal the products of values at the chosen points with the given weights, and applying an operator at points equals its values there, for every edge, vertex, point set and tetrahedron.",
 ["inputs", "programs"], "every edge, vertex, point set, pair of spaces and operators",
 "tests compare single elements against stored numbers",
 [O + "int_edge.inl", O + "int_pnt.inl", O + "core.inl"], [("edge / node / point forms", "fem3Dedge, fem3Dnode, fem3DpntL, fem3DpntX, fem3DapplyL, fem3DapplyX")])
prop("A04", "The declared coefficient kind never changes the integral",
 "A coefficient declared as identity, scalar, symmetric or general, constant or varying per point or per cell, evaluated one point at a time or for a whole batch, gives the same element matrix whenever it describes the same tensor.",
 ["inputs", "programs"], "every way of declaring the same coefficient for every pair of operators",
 "tests check a few declarations on one pair",
 [F + "diff_tensor.h", O + "core.inl"], [("per-kind code paths", "internal_Dfunc::applyDU, DfuncTraits")])
prop("A05", "Processing cells in batches equals processing them one by one",
 "Integrating, evaluating, applying or interpolating on a batch of tetrahedra gives for every cell exactly what processing that cell alone gives, for every batch size, order of cells, space and operator.",
 ["inputs", "programs", "configurations"], "every batch size and cell order, both linear algebra back ends",
 "most tests use batches of one size; mixing of cells needs different cells in one batch",
 [O + "core.inl", F + "operators.h", F + "fem_space.cpp"], [("batched storage", "fusion index in core.inl and operator storage")])
prop("E01", "Evaluating a discrete function equals summing its basis functions",
 "The value of a discrete function, or of any operator applied to it, with or without a coefficient, at any points of any cell equals the sum of the coefficients times the operator of the basis functions there, through every evaluation entry point.",
 ["inputs", "programs"], "every space, operator, coefficient vector, point set and entry point",
 "tests evaluate a few functions",
 [O + "eval.h", O + "eval.inl", O + "core.inl"], [("evaluation", "fem3DapplyX with degrees of freedom, Eval")])
prop("N01", "Interpolation on a geometric element reproduces the function there",
 "Interpolating a function on a vertex, edge, face or the whole cell of any space sets exactly the degrees of freedom that belong to it, reproduces functions of the space's trace exactly, and agrees between compile-time and run-time spaces; other coefficients are left alone.",
 ["inputs", "programs"], "every space, element and polynomial function of the space",
 "tests interpolate on whole cells and some faces only",
 [O + "interpolate.h", O + "interpolate.inl", F + "fem_space.cpp"], [("interpolation by region", "interpolateByDOFs, interpolateOnRegion, interpolateByRegion")])
prop("U01", "Run-time integration forms agree with the compile-time forms",
 "Every integration and application form taking operators chosen at run time gives the same element matrix as the compile-time form of the same operators, whether trial and test operators are equal, unequal or taken from different spaces, with automatic or caller-supplied memory.",
 ["programs", "inputs", "configurations"], "every pair of operators of the available spaces in every form",
 "tests compare a few operator pairs",
 [O + "dyn_ops.h", O + "dyn_ops.inl", O + "core.inl"], [("reuse of evaluated operators", "internalFem3Dtet runtime form, ApplyOp equality")])
# ---------------------------------------------------------------- differentiation
prop("X01", "Automatic differentiation gives exact first and second derivatives",
 "The value, gradient and Hessian of any expression built from constants, parameters, variables, arithmetic and elementary functions equal the mathematical ones at every point of its domain, however the expression is grouped and wherever constants appear.",
 ["programs", "inputs"], "every bounded expression and sample point",
 "tests check a dozen fixed expressions",
 ["anifem++/autodiff/autodiff.h", "anifem++/autodiff/autodiff.inl"], [("derivative rules", "autodiff.inl operators and unary_operation")])
prop("X02", "Small-tensor algebra agrees with full index notation",
 "Every operation on the compact (symmetric and general) matrices and fourth-rank tensors gives the result of the same operation on fully expanded index arrays; reading and writing through compact storage are inverse, and symmetry is preserved where the type promises it.",
 ["inputs", "programs"], "every operation on every tensor type over basis tensors (all operations are linear or bilinear) and small mixed values",
 "tests check selected products",
 ["anifem++/autodiff/physical_tensors.h", "anifem++/autodiff/physical_tensors.inl", "anifem++/autodiff/physical_tensors_3d.inl"], [("compact storage", "SymMtx, PhysMtx, BiSymTensor4Rank, SymTensor4Rank")])
prop("X03", "Strain invariants and their derivatives are exact",
 "Every strain invariant equals its definition, and its gradient and Hessian with respect to the strain are the exact derivatives, alone and inside stored energy expressions.",
 ["inputs", "programs"], "every invariant, fibre direction and strain on a lattice of admissible strains",
 "tests check a few strains against finite differences with loose tolerances",
 ["anifem++/autodiff/cauchy_strain_invariants.h", "anifem++/autodiff/cauchy_strain_invariants.inl", "anifem++/autodiff/cauchy_strain_autodiff.h"], [("invariants", "cauchy_strain_invariants.inl")])
prop("X04", "Symbolic expressions and basis functions evaluate like plain arithmetic",
 "Every operation of symbolic matrix expressions (element-wise functions, reductions, sub-blocks and elements, transposition, products, scalar broadcast) evaluates to what the same operation on plain arrays gives, for every compatible shape, leaving its operands unchanged; the symbolic basis functions of every space evaluate to the values of the basis functions of that space.",
 ["programs", "inputs"], "every operation and chain of operations over every small shape; every space, basis function and point",
 "tests evaluate the symbolic functions of a few spaces at a few points and never the vector spaces RT0 and ND0 or the face functions of P3",
 [F + "expr_interface.h", F + "expr_interface.inl", F + "fem_space.cpp", F + "spaces/rt0.inl"], [("symbolic expressions", "Expr, evaluated through any implementation"), ("symbolic basis functions", "Basis<>::eval, BaseFemSpace::evalBasisFunctions")])
# ---------------------------------------------------------------- outside
prop("P01", "Global numbers of degrees of freedom are a consistent bijection",
 "For every set of variables, mesh, distribution of cells to processes and ordering, the enumerator gives every degree of freedom of every element that a process sees exactly one global number, the same on every process that sees it; the numbers owned by the processes are disjoint consecutive intervals that cover 0 .. N-1, follow the requested ordering, and the inverse queries, iterators and copies between tags, variables and vectors agree with them.",
 ["configurations", "programs"], "every mesh, partition, process count, set of variables, ordering and query",
 "the mesh library is absent, so nothing of this is tested; wrong numbers need oriented degrees of freedom or a process without elements of some dimension",
 ["anifem++/inmost_interface/global_enumerator.h", "anifem++/inmost_interface/global_enumerator.cpp", "anifem++/interval/ext_array_enum.h"], [("numbering", "IGlobEnumeration, SimpleEnumerator, OrderedEnumerator, GlobEnumeration"), ("copies", "CopyVarByEnumeration")])
prop("P02", "Wrappers of element functions keep what they wrap",
 "A wrapper built from any supported callable (element matrix, right-hand side or both, with full or sparse result, with or without work memory and user data) reports exactly the sizes, sparsity and requirements the callable declared, calls it once with exactly the arrays it was given and with memory no other user has, and keeps that through every copy, move and assignment; conversions between compressed and dense element matrices place every element where the sparsity says.",
 ["programs", "inputs"], "every kind of callable, array sizes, and construction, copy, move or assignment over any other wrapper",
 "tests never build these wrappers: they belong to the interface whose mesh library is absent",
 ["anifem++/inmost_interface/func_wrap.h", "anifem++/inmost_interface/func_wrap.inl"], [("wrappers", "MatFuncWrap, MatFuncWrapDynamic, MatFuncWrapHolder, GenerateElem*"), ("sparsity", "MatSparsityView, MatSparsity, SparsedData")])
prop("P03", "Degrees of freedom of a cell agree between mesh and local ordering",
 "For every local order of the nodes of a cell and every global numbering, the connectivity, node permutation, orientation and the places of the degrees of freedom of a cell address, on an element shared by cells, the same stored values in the same order and with the sign its orientation requires; gathering values of all or of one variable and renumbering of element matrices and vectors are inverse to each other.",
 ["inputs", "configurations"], "every pair of cells, local vertex orders, global numbering and set of variables",
 "the mesh library is absent, so nothing of this is tested; an error shows only for particular vertex orders and element kinds",
 ["anifem++/inmost_interface/ordering.h", "anifem++/inmost_interface/ordering.inl"], [("ordering of a cell", "ordering functions and gathering of data on elements")])
prop("Z01", "Global assembly adds every element contribution to its own global place",
 "Assembling element matrices and vectors over a distributed mesh yields, on the rows of each process, the sum of all element contributions in the global numbering, for every partition, ordering, kind of element function, sparsity pattern and insertion mode, whatever was assembled before with the same assembler; entries that are not numbers are reported and solutions are stored to and read from the mesh under the same numbering.",
 ["configurations", "programs", "histories"], "every mesh partition, set of variables, combination of options and sequence of problems",
 "not tested at all here: the mesh and message passing library it needs is absent; most defects need several processes, mixed kinds of element functions or reuse of an assembler",
 ["anifem++/inmost_interface/assembler.h", "anifem++/inmost_interface/assembler.inl", "anifem++/inmost_interface/elemental_assembler.cpp", "anifem++/inmost_interface/elemental_assembler.h"], [("assembly", "AssemblerT"), ("element systems", "ElementalAssembler")])
prop("Z02", "Parts handed to the nonlinear solver do what that library prescribes",
 "The vectors, matrices and linear solvers the wrapper hands to the nonlinear solver library carry out every operation as the library defines it, for every distribution to processes (some without unknowns) and every aliasing of operands; the linear solver reports success, a reduced residual or a failure as it happened; settings reach the library under their names and refused ones change nothing; every evaluation calls the function the user gave and a failure on any process is reported on all; the wrapper reports success exactly if the library does, with a reason of its own for every status; moving the wrapper keeps it working and every object is freed exactly once.",
 ["inputs", "fault_sequences", "histories"], "every operand, distribution, evaluation and failure history, and sequence of settings",
 "not tested at all here: the solver library it wraps is absent; defects show with several processes, aliased operands or failures at one process",
 ["anifem++/kinsol_interface/SUNNonlinearSolver.cpp", "anifem++/kinsol_interface/SUNNonlinearSolver.h"], [("solver wrapper", "SUNNonlinearSolver"), ("vectors", "N_VInitOps_Inmost"), ("matrices", "SUNMatInitOps_Inmost"), ("linear solver", "SUNLinSolSolve_Inmost")])
prop("Z03", "Generated box meshes are conforming and complete on any number of processes",
 "For every number of cells along the axes, every size and place of the box and every number of processes, more processes than cells included, the parts of the generated mesh together fill the box with six tetrahedra per grid cell: every grid point is a node, no cell occurs twice or is flat, every inner face belongs to exactly two cells and every outer one to one.",
 ["configurations", "inputs"], "every box, grid and number of processes",
 "not tested at all here: the mesh library it needs is absent; defects show only for grids that the number of processes does not divide",
 ["anifem++/utils/mesh_utils.cpp"], [("box meshes", "GenerateParallelepiped"), ("cells of a grid cell", "CreateNWTetElements")])
prop("Z04", "Fields stored on a mesh are projected, integrated, solved for and read back",
 "Storing a field of a finite element space on a distributed mesh and reading it back with any operator at any point of any cell gives the field: the projection reproduces every field that lies in the space, integrals over the mesh count every cell once and are exact up to the order asked for, and the stationary diffusion problem is solved exactly when its solution lies in the space, for every choice of boundary faces with prescribed values or fluxes, kind of coefficient and distribution; tags have room for all degrees of freedom; markers of the user stay as they are.",
 ["inputs", "configurations"], "every space, mesh, distribution, field and boundary condition",
 "not tested at all here: the mesh library is absent; errors show only for spaces with several values on an edge, for particular boundary conditions or on several processes",
 ["anifem++/utils/utils.cpp", "anifem++/utils/utils.h", "anifem++/utils/utils.inl"], [("projection", "make_l2_project"), ("values of a stored field", "eval_op_var_by_barycentric_points"), ("integrals", "integrate_vector_func"), ("diffusion problem", "solve_stationary_diffusion"), ("tags", "createFemVarTag")])

prop("Z05", "Metrics for mesh adaptation follow the Hessian and stay in their bounds",
 "For every scalar field on a distributed mesh the metric built at every node is symmetric, positive definite, within the absolute and relative bounds on eigenvalues that were set, and the same on every process; it is the scaled absolute Hessian of the cell around the node with the largest determinant, or the logarithmic mean over those cells, with degenerate cells replaced or left out as documented, whatever the space of the field, the local order of the cells and the kind of tag; nothing temporary remains in the mesh.",
 ["inputs", "configurations"], "every field, mesh, distribution and setting",
 "not tested at all here: the mesh library is absent; errors show only for degenerate Hessians, active bounds or particular spaces",
 ["anifem++/utils/adapt_mesh.cpp", "anifem++/utils/adapt_mesh.h"], [("metrics", "construct_metrics")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
