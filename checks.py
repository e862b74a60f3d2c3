"""Table of harness jobs and properties (read by run.py)."""
import os
NOTES = "Trusted: the compiler, the reference implementation inside the harness, and for numbers a rounding tolerance."
NOT_APPLICABLE = {}
JOBS = {
    "interval_map": dict(src="interval_map.cpp", configs=["plain"], shards=8),
    "interval_text": dict(src="interval_map.cpp", configs=["plain"], shards=8, args=["--variant", "text"]),
    "dynmem": dict(src="dynmem.cpp", configs=["noeigen", "asan_noeigen"], shards=8, thorough_configs=["asan_noeigen"]),
    "parpool": dict(src="parpool.cpp", configs=["noeigen"], shards=8, extra=[("parpool_lib.cpp", ["-fsanitize=thread", "-fno-builtin-memmove", "-fno-builtin-memcpy", "-fno-builtin-memset"])],
                    ldflags=["-Wl,--wrap=memmove,--wrap=memcpy,--wrap=memset"]),
    "parloop": dict(src="parloop.cpp", configs=["noeigen"], shards=8, extra=[("parloop_lib.cpp", ["-fsanitize=thread", "-fno-builtin-memmove", "-fno-builtin-memcpy", "-fno-builtin-memset"])],
                    ldflags=["-Wl,--wrap=memmove,--wrap=memcpy,--wrap=memset"]),
    "parloop_omp": dict(src="parloop.cpp", configs=["noeigen"], shards=4, args=["--variant", "omp"], extra=[("parloop_lib.cpp", [])], flags=["-fopenmp", "-DWITH_OPENMP"], ldflags=["-fopenmp", "-Wl,--wrap=memmove,--wrap=memcpy,--wrap=memset"]),
    "quad": dict(src="quad.cpp", configs=["noeigen", "eigen"], shards=4, libs=["quad"]),
    "dense": dict(src="dense.cpp", configs=["noeigen", "eigen"], shards=8, opt="-O2"),
    "geom": dict(src="geom.cpp", configs=["noeigen"], shards=8, opt="-O2"),
    "femop_f01": dict(src="femop.cpp", configs=["noeigen", "eigen"], shards=8, args=["--variant", "f01"], libs=["space"], opt="-O1"),
    "femop_f02": dict(src="femop.cpp", configs=["noeigen", "eigen"], shards=8, args=["--variant", "f02"], libs=["space"], opt="-O1"),
    "femop_f04": dict(src="femop.cpp", configs=["noeigen", "eigen"], shards=8, args=["--variant", "f04"], libs=["space"], opt="-O1"),
    "femrt_ops": dict(src="femrt.cpp", configs=["noeigen", "eigen"], shards=8, args=["--variant", "ops"], libs=["space"], opt="-O1"),
    "femrt_dof": dict(src="femrt.cpp", configs=["noeigen", "eigen"], shards=8, args=["--variant", "dof"], libs=["space"], opt="-O1"),
}
for v in ("a01", "a02", "a03", "a04", "a05", "m03", "u01"):     # integration: operators chosen at run time / known at compile time (four shares of the pairs)
    m = dict(configs=["noeigen", "eigen", "asan_noeigen"], thorough_configs=["asan_noeigen"] if v != "m03" else [], shards=8, args=["--variant", v], libs=["space"], opt="-O1")
    JOBS["femint_rt_" + v] = dict(m, src="femint_rt.cpp")
    for k in range(4):
        JOBS["femint_ct%d_%s" % (k, v)] = dict(m, src="femint_ct.cpp", flags=["-DMC_PART=%d" % k], configs=["noeigen", "eigen"] if v != "m03" else m["configs"], thorough_configs=[])
        if v == "a04":
            JOBS["femint_decl%d" % k] = dict(m, src="femint_ct.cpp", flags=["-DMC_PART=%d" % k, "-DMC_ONLY_TRAITS"], configs=["noeigen", "eigen"], thorough_configs=["eigen"])
for v in ("e01", "a05", "m03"):                                  # application of operators at points
    m = dict(configs=["noeigen", "eigen", "asan_noeigen"] if v == "m03" else ["noeigen", "eigen"], shards=8, args=["--variant", v], libs=["space"], opt="-O1")
    JOBS["fempnt_rt_" + v] = dict(m, src="fempnt_rt.cpp")
    for k in range(4):
        JOBS["fempnt_ct%d_%s" % (k, v)] = dict(m, src="fempnt_ct.cpp", flags=["-DMC_PART=%d" % k])
for v in ("n01", "m03"):                                         # interpolation
    m = dict(configs=["noeigen", "eigen", "asan_noeigen"] if v == "m03" else ["noeigen", "eigen"], shards=8, args=["--variant", v], libs=["space"], opt="-O1")
    JOBS["interp_rt_" + v] = dict(m, src="interp.cpp")
    for k in range(1, 4):
        JOBS["interp_ct%d_%s" % (k, v)] = dict(m, src="interp.cpp", flags=["-DMC_PART=%d" % k])
for v in ("d01", "d02", "d03", "d04", "d05"):                    # numberings of degrees of freedom
    JOBS["dofmap_" + v] = dict(src="dofmap.cpp", configs=["noeigen"], shards=8, args=["--variant", v], libs=["space"], opt="-O1")
for v in ("number", "map", "rotated"):                           # prescribed values in element systems
    JOBS["dirichlet_" + v] = dict(src="dirichlet.cpp", configs=["noeigen"], shards=8, args=["--variant", v], libs=["space"], opt="-O1")
for v in ("spaces", "construct", "equality", "eval"):            # algebra of spaces
    JOBS["space_" + v] = dict(src="spacealg.cpp", configs=["noeigen"], shards=8, args=["--variant", v], libs=["space"], opt="-O1")
JOBS["trace"] = dict(src="trace.cpp", configs=["noeigen", "eigen"], shards=8, libs=["space"], opt="-O1")
for v in ("intervals", "ranged", "renamed"):                     # enumerators
    JOBS["enum_" + v] = dict(src="enumr.cpp", configs=["plain"], shards=8, args=["--variant", v])
JOBS["carve"] = dict(src="carve.cpp", configs=["noeigen"], shards=4)
JOBS["ad_array"] = dict(src="autodiff.cpp", configs=["noeigen"], shards=8, args=["--variant", "array"])
for v in ("matrix", "symmetric"):
    JOBS["ad_" + v] = dict(src="autodiff.cpp", configs=["noeigen"], shards=8, args=["--variant", v], flags=["-DAD_MATRIX"])
JOBS["strain"] = dict(src="strain.cpp", configs=["noeigen"], shards=8, flags=["-D_GLIBCXX_ASSERTIONS"])
JOBS["symexpr"] = dict(src="symexpr.cpp", configs=["noeigen"], shards=8, libs=["space"], opt="-O1")
MOCK = dict(configs=["noeigen"], shards=8, libs=["space", "inmost"], opt="-O1", flags=["-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "mock"), "-DNO_ASSEMBLER_TIMERS"])
JOBS["inm_enum"] = dict(MOCK, src="inm_enum.cpp")              # the interface to INMOST, compiled against a stand-in of that library
JOBS["inm_wrap"] = dict(src="inm_wrap.cpp", configs=["noeigen"], shards=8, opt="-O1")
for v in ("conn", "places", "tags", "renumber"):
    JOBS["inm_local_" + v] = dict(MOCK, src="inm_local.cpp", args=["--variant", v])
for v in ("meshes", "options", "again", "nan"):
    JOBS["inm_assm_" + v] = dict(MOCK, src="inm_assm.cpp", args=["--variant", v])
TS = ["-fsanitize=thread", "-fno-builtin-memmove", "-fno-builtin-memcpy", "-fno-builtin-memset"]
for v in ("options", "all", "sets", "meshes", "nan"):           # assembling with several threads: the threads are ours, every access is watched
    JOBS["asmthr_" + v] = dict(MOCK, src="asmthr.cpp", src_flags=TS, args=["--variant", v], libs=["spaceonly"], extra=[("asmthr_lib.cpp", TS), ("asmthr_lib2.cpp", TS), ("asmthr_rt.cpp", [])], ldflags=["-Wl,--wrap=memmove,--wrap=memcpy,--wrap=memset"])
for v in ("box", "fields", "diffusion", "metrics"):
    JOBS["inm_util_" + v] = dict(MOCK, src="inm_util.cpp", args=["--variant", v], libs=["space", "inmost", "utils"])
JOBS["inm_util_metrics"].update(configs=["noeigen", "eigen"], thorough_configs=["eigen"])
KIN = dict(MOCK, src="kin.cpp", libs=["kinsol"])                # the same for the interface to SUNDIALS, compiled against stand-ins of both libraries
for v, f in (("mpi", ["-DUSE_MPI"]), ("mpi_ptr", ["-DUSE_MPI", "-DMOCK_COMM_POINTER"]), ("serial", []), ("serial5", ["-DSUNDIALS_VERSION_MAJOR=5"]), ("mpi5", ["-DUSE_MPI", "-DSUNDIALS_VERSION_MAJOR=5"])):
    JOBS["kin_" + v] = dict(KIN, flags=MOCK["flags"] + f)
JOBS["tensors"] = dict(src="tensors.cpp", configs=["noeigen", "asan_noeigen"], shards=4)
def nj(v): return ["interp_rt_" + v] + ["interp_ct%d_%s" % (k, v) for k in range(1, 4)]
def pj(v): return ["fempnt_rt_" + v] + ["fempnt_ct%d_%s" % (k, v) for k in range(4)]
def ij(v): return ["femint_rt_" + v] + ["femint_ct%d_%s" % (k, v) for k in range(4)]
PROPS = {
    "I01": dict(jobs=["interval_map"], bound=dict(
        quick="all insert histories (any length, to the fixpoint of container states) over 5 integer keys and 2 values, for each of the 15 non-empty choices of insert kinds (finite, right-infinite, left-infinite, whole line); all lookups at 11 points after every insert",
        thorough="the same with 6 keys, plus 3 values on 5 keys")),
    "I02": dict(jobs=["interval_text"], bound=dict(
        quick="every container state reachable over 5 keys (negative included) and 2 values x 5 delimiter sets x plain/padded/offset/limited text",
        thorough="the same with 6 keys, plus 3 values on 5 keys")),
    "M01": dict(jobs=["dynmem"], bound=dict(
        quick="every history of allocate / clear / move / assign-over / defragment of length <= 8 (7 with 4 request shapes) with at most 4-5 live parts over three request alphabets; allocate/destroy histories of length 5 of the adaptor",
        thorough="lengths 9/8/9, plus destruction of parts; lengths 6/5/6 under AddressSanitizer")),
    "M02": dict(jobs=["parpool"], bound=dict(
        quick="all schedules (switching at every lock, no preemption bound) of 18 client programs of 2-4 threads (acquire / use / release, single and ranges, up to 8 pool operations each 2 threads, 3 with one round) started on pools with 0, 1 or 3 earlier released memories; happens-before race check on every memory access of the pool in every schedule",
        thorough="5 longer programs (up to 9 operations in 2 threads, 6 in 3, 5 in 4)")),
    "M04": dict(jobs=["parloop", "parloop_omp"], bound=dict(
        quick="all schedules (switching at thread creation, join, and inside every body call) for 2 threads and ranges 0..10, 3 threads and 0..8, 4 threads and 0..5, three iterator/argument kinds, requested or hardware thread count; happens-before race check on every access; every shape 0..40 and 15 lengths up to 4099 x 9 thread counts on one schedule; OpenMP variant: every shape 0..40 x 8 thread counts, schedule not controlled",
        thorough="2 threads 0..12, 3 threads 0..10, 4 threads 0..7, shapes to 120, OpenMP to 200")),
    "M05": dict(jobs=["asmthr_" + v for v in ("options", "all", "sets", "meshes", "nan")], bound=dict(
        quick="the schedule may switch at thread creation, end, lock, unlock and inside the element functions, every access between them is checked for races; two cells, 2 threads: every combination of the 2240 assembler option sets at most 2 preemptions (every fifth with the hardware's number of threads), 27 of them every schedule of at most 5 (3) preemptions; 22 space combinations; 7 meshes with 2 and 3 threads, at most 1-2 preemptions; an entry of an element that is not a number, every entry of every cell; Assemble, AssembleMatrix, AssembleRHS and AssembleTemplate",
        thorough="3 preemptions for every option set, 8 for 68 of them, 12 (10) option sets for every space combination (mesh)")),
    "Q01": dict(jobs=["quad"], bound=dict(
        quick="every rule (segment 0..21, triangle 0..20, tetrahedron 0..20), every monomial of degree <= order in all barycentric coordinates, every point, every orbit, both builds",
        thorough="the same (it is complete)")),
    "G01": dict(jobs=["dense"], bound=dict(
        quick="both builds; every matrix: 3x3 inverse over {-1,0,1} at 3 scales; LU 1..2 over {-2..2}, 3 over {-1,0,1}, 4x4 over {0,1}, every row/column permutation of diag(1..n) n<=5, widely graded 2x2/3x3; Cholesky of G^T G + I for every G to 4x4; QR of every shape to 4x4 and SVD of every shape to 4x4 over {-1,0,1} (small) or {0,1}, three scales, in place and out of place, 36 patterns of systems of size 5..60, QR and SVD to 17 x 12 by their residuals, workspace with canaries",
        thorough="inverse over {-2..2}, permutations to n=6, QR 4x3 and SVD to 9 entries over {-1,0,1}")),
    "G02": dict(jobs=["geom"], bound=dict(
        quick="every ordered non-degenerate tetrahedron with vertices on {0,1,2}^3, 4 scale/translation combinations, every face and every vertex order of it; 7 points each",
        thorough="the same; plus one eighth (a fixed residue class) of the ordered tetrahedra on {0,..,3}^3")),
    "F01": dict(jobs=["femop_f01", "femrt_dof"], bound=dict(
        quick="both builds; 36 compile-time spaces (9 elementary; powers, products, unions, depth <= 3) and about 950 run-time trees (powers to 10, products to 7 parts); every ordered tetrahedron on the vertices of the (sheared) unit cube for spaces with <= 12 functions, one third of the orders up to 40 functions; every functional x every basis function, one and two fused functions",
        thorough="every ordered tetrahedron for all compile-time spaces, about 2000 run-time trees on 8 ordered tetrahedra each")),
    "F02": dict(jobs=["femop_f02", "femrt_ops"], bound=dict(
        quick="both builds; 36 compile-time spaces and about 950 run-time trees (powers to 10, products to 7 parts) x every operator they support x every basis function x 35 lattice points and one outside point x batches of 1..3 different cells; every ordered tetrahedron of the sheared cube as for F01",
        thorough="every ordered tetrahedron for all compile-time spaces, about 2000 run-time trees with 8 batches each")),
    "F04": dict(jobs=["femop_f04"], bound=dict(
        quick="both builds; the 36 spaces in their run-time form x every operator x every basis function x 36 points on every ordered tetrahedron; interpolation of a function outside the space by every functional, orders 1, 3, 5, one and two fused functions, on one seventh of the ordered tetrahedra",
        thorough="every ordered tetrahedron for every space")),
    "A01": dict(jobs=ij("a01"), bound=dict(
        quick="both builds; run time: every ordered pair of the operators of 22 spaces (simple, vector, composed, union, nested) on 6 batches, 6 pairs on every ordered tetrahedron of the sheared cube; compile time: 29 operator pairs on 1392 batches covering every ordered tetrahedron, by caller, automatic and stack memory, the wrapped run-time form and the Eigen interface; polynomial coefficient tensors, every entry of every element matrix",
        thorough="26 spaces and all partial derivatives, 18 batches, AddressSanitizer build as well")),
    "A02": dict(jobs=ij("a02"), bound=dict(
        quick="as A01 for the face and normal-face integrals on every face (large operator pairs: two of the four faces per pair)",
        thorough="26 spaces, 18 batches, every face of every pair; compile time on every ordered tetrahedron")),
    "A03": dict(jobs=ij("a03") + ["fempnt_rt_e01"], bound=dict(
        quick="as A01 for edges, vertices and point sets (1 and 5 points, one outside the cell) in barycentric and physical coordinates; application of operators at 1..30 points",
        thorough="26 spaces, 18 batches; compile time on every ordered tetrahedron")),
    "A04": dict(jobs=ij("a04") + ["femint_decl%d" % k for k in range(4)], bound=dict(
        quick="both builds; 17 declarations x 4 tensor kinds x 3 variations x every declared kind able to express the tensor (fixed, or changing from point to point or cell to cell) x 13 operator pairs x 3 batches x 7 forms x both memory modes at run time; 29 operator pairs x 4 kinds at compile time on 48 batches; 6 declarations at compile time on 48 batches",
        thorough="every face, edge, vertex; 348 batches")),
    "A05": dict(jobs=ij("a05") + pj("a05"), bound=dict(
        quick="both builds; every sequence of length <= 4 of 4 cells (3 at compile time) and batches of up to 40 different cells x 8 (29) operator pairs x every form, entry by entry against each cell alone; application of operators on every sequence of length <= 4",
        thorough="sequences to length 5 (6 at compile time)")),
    "M03": dict(jobs=["carve"] + ij("m03") + pj("m03") + nj("m03"), bound=dict(
        quick="the memory descriptions with every pair of counts 0..5 of two to four element types at every start position 0..23 and every size up to one more than needed; builds without and with Eigen and with AddressSanitizer (workspace a separate block of exactly the advertised size); every ordered pair of operators of 22 spaces x every form, 4 of the orders 0..20, batches 1..2; 29 compile-time pairs x orders 0..20 x batches 1..4 by caller, automatic and stack memory; evaluation and interpolation calls likewise",
        thorough="every order 0..20 and batches 1..4 for every pair")),
    "U01": dict(jobs=ij("u01"), bound=dict(
        quick="both builds; every ordered pair of operators of 27 spaces taken as the same object, two copies, two equal spaces built apart, views of one space; 29 compile-time pairs against their wrapped form and the operators of run-time spaces in every form on 48 batches",
        thorough="every form for unequal operators; 348 batches")),
    "N01": dict(jobs=nj("n01"), bound=dict(
        quick="both builds; about 40 run-time and 31 compile-time spaces x 5 functions (members of the space, vertex hats, polynomials outside it) x every single vertex, edge, face, the cell and 60 further selections x every entry point and caller or automatic memory, on ordered tetrahedra of the sheared cube; projection on every vertex, edge, face and the cell; parts of composed spaces; the constant fill",
        thorough="the same (complete for its bound)")),
    "E01": dict(jobs=pj("e01"), bound=dict(
        quick="both builds; run time: every operator of 26 spaces on every ordered tetrahedron of the sheared cube (1 and 5 points) and 96 batches of 1..4 cells (1, 5, 24, 30, 84 points), barycentric and physical points, caller and automatic memory; with a tensor of 1, 3, 9 or Dim rows: 17 declarations x 4 kinds x 3 variations x 12 batches; compile time: every operator of 33 spaces x 11 entry points x 4 point counts on 348 batches",
        thorough="every batch start; 96 batches for tensors; 1392 batches at compile time")),
    "D01": dict(jobs=["dofmap_d01"], bound=dict(
        quick="12 elementary numberings (each library layout, several orbits, no symmetry data), every count 0..2 on every kind of element (729), about 6000 vector/composed/nested trees to depth 3 with up to 4 parts, 14 long or deep ones (up to 3000 numbers, 11 parts, depth 7), and 11 compile-time tree types over 6..12 elementary numberings per leaf: every number, every location (also two beyond every range), traversal and iterator arithmetic",
        thorough="about 27000 numberings (8..12 choices per leaf)")),
    "D02": dict(jobs=["dofmap_d02"], bound=dict(
        quick="every numbering of D01 x 280 selections x both orders; every one of the 32768 selections of vertices, edges, faces and interior x both orders for about 400 numberings of at most 45 numbers",
        thorough="all numberings of the thorough D01; every selection for all of the second group")),
    "D03": dict(jobs=["dofmap_d03"], bound=dict(
        quick="every part at every depth of every numbering of D01 as view, nested map, copy, sub-map and view of a view, each number, location and 41 selections; every ordered pair of about 80 numberings multiplied, merged, compressed (2, 3 and 4 factors), powers 1..4; parts of a compile-time product set in both orders and set again",
        thorough="thorough D01 numberings, pairs of about 150")),
    "D04": dict(jobs=["dofmap_d04"], bound=dict(
        quick="all 24 vertex orders x every element x every symmetry kind x every index; all 576 compositions; permutation matrices of 25 numberings under all 24 orders and all 576 compositions; cell orbits against the point order of the quadrature rules",
        thorough="the same (it is complete)")),
    "D05": dict(jobs=["dofmap_d05"], bound=dict(
        quick="all 32768 selections x 130 steps (every set/unset with and without closure, whole dimensions, complement, 5 binary operations x 11 operands), each result compared with plain sets and re-explored where its stored form differs; all pairs of sub-selections of one dimension",
        thorough="the same (it is complete: every history is covered by induction over the selections)")),
    "D06": dict(jobs=["dirichlet_" + v for v in ("number", "map", "rotated")], bound=dict(
        quick="every subset of the unknowns of systems to size 5, every matrix over {-1,0,1} of size <= 2 (one seventh of size 3), imposed one by one and at once, in every order for few unknowns; every numbering of D02 and its parts x selections, pairs of numberings; vector unknowns in rotated frames",
        thorough="systems to size 6, every 3x3 matrix over {-1,0,1}, three times more selections and pairs")),
    "F03": dict(jobs=["space_" + v for v in ("spaces", "construct", "equality", "eval")], bound=dict(
        quick="about 200 run-time trees (every elementary space, powers 1..3, products, unions, nested to depth 3): counts, dimensions, orders, numbering, every part by every access path; the operators that build them from every grouping; every ordered pair of the trees for equality, with its consequences; evaluation after copying",
        thorough="products over 9 elementary spaces and three times denser pairs")),
    "F05": dict(jobs=["trace"], bound=dict(
        quick="both builds; every pair of cells that share a face, an edge or a vertex in 2 geometries x all 24 x 24 local vertex orders x two global numberings x about 100 run-time spaces (9 elementary, powers, products, unions): every basis function of either side at points of the shared part",
        thorough="3 geometries and about 180 spaces")),
    "I03": dict(jobs=["enum_" + v for v in ("intervals", "ranged", "renamed")], bound=dict(
        quick="every subset of 9 consecutive values (three origins, negative included) stored in maximal, unit and alternating intervals, three kinds of storage; every base set of up to 4 tuples of length 1 over 4 values, up to 9 of length 2 over 3 (8 of length 3 over 2), each with every choice of ranges up to 3 for the extra components, also with permuted positions; every iterator position, distance, lookup and bound",
        thorough="subsets of 12 values, ranges up to 3 throughout, larger base sets")),
    "X01": dict(jobs=["ad_array", "ad_matrix", "ad_symmetric"], bound=dict(
        quick="8 points x orders of differentiation 0, 1, 2; every expression with one of about 70 unary and 14 binary operations over every static kind of operand (parameter, variable, constant, linear, full); every chain of two operations; chosen third operations; gradients and Hessians over vectors, 3x3 matrices and symmetric 3x3 matrices",
        thorough="every order and point for matrices, further third operations")),
    "X02": dict(jobs=["tensors"], bound=dict(
        quick="dimensions 1..4; every type x every index and storage position; every linear and bilinear operation on every (pair of) basis tensor(s) and on generic tensors; every conversion; determinant, inverse and adjugate of every matrix over {-1,0,1} to 3x3 ({0,1} at 4x4) at scales 1e-9, 0.3, 1, 1e15; also under AddressSanitizer",
        thorough="every scale for 4x4")),
    "X03": dict(jobs=["strain"], bound=dict(
        quick="every strain with diagonal components in {-1/4,0,1/2} and others in {-1/4,0,1/8}, at two scales, for which 2E + I is positive definite, x a fifth of the ordered pairs of 29 fibre directions (a different fifth per strain); every invariant: value, gradient, Hessian, orders 0..2, double and float; 13 stored energies, compared with direct differentiation in the nine components of the displacement gradient (one third of the 19683 gradients over {-1/4,0,1/2})",
        thorough="every pair of fibre directions, every gradient")),
    "X04": dict(jobs=["symexpr"], bound=dict(
        quick="every unary and binary operation on every shape to 3 x 3 (with scalar broadcast), every sub-block, element and assignment, determinants and inverses of all 3 x 3 matrices over {-1,0,1}, for an implementation with every operation and one that relies on all defaults; every symbolic basis function and gradient of about 150 spaces (9 elementary, powers, products, unions, nested) on ordered tetrahedra of the sheared cube, every lattice point",
        thorough="270 spaces, six times more cells")),
    "P01": dict(jobs=["inm_enum"], bound=dict(
        quick="stand-in mesh: 1..4 cells in 7 arrangements x every distribution of the cells to up to 3 processes, each cell to its own and to more processes than cells, two meshes of 9 and 12 cells to up to 5 processes (three halo depths, three storage orders; one fifth of the distributions of three and more cells to several processes) x 24 sets of variables x the kinds of ordering in turn (the fixed kinds: a third per mesh; general orderings: one of 240 per mesh); for each: every number, tag, iterator, inverse query and copy",
        thorough="every distribution, every fixed kind, one of 30 general orderings")),
    "P02": dict(jobs=["inm_wrap"], bound=dict(
        quick="every sparsity of every matrix with n, m <= 4 and n*m <= 12 in three pairs of index and value types: every conversion, copy and owner; every one of 27 forms of callable x rows 0..3 x columns 0..3 x work sizes 0..2, each also copied, assigned over another form, moved and held, called with 0..3 memory identifiers allocated, released and ranged",
        thorough="all matrices to 4 x 4 (65536 sparsities)")),
    "P03": dict(jobs=["inm_local_" + v for v in ("conn", "places", "tags", "renumber")], bound=dict(
        quick="two stand-in cells over every shared part with all 24 x 24 local vertex orders, two global numberings, about 70 spaces: connectivity, places, signs, gathering and scattering of values; 1600 of the renumberings of a cell per space",
        thorough="14400 renumberings per space")),
    "Z01": dict(jobs=["inm_assm_" + v for v in ("meshes", "options", "again", "nan")], bound=dict(
        quick="stand-in mesh with 1..4 cells in 7 arrangements and two meshes of 9 and 12 cells x the distributions to up to 6 processes (one seventh of those of three and more cells) x 24 sets of variables, each with two of the 2240 combinations of options (kinds of element functions, sparsity, insertion mode, template, drop tolerance) in turn; every combination on a two-cell mesh for five sets; 360 sequences of four problems on one assembler; every place of an element system that is not a number; saving and reading solutions: entry by entry against the sum over cells",
        thorough="every distribution, six combinations per mesh, 3600 sequences")),
    "Z02": dict(jobs=["kin_" + v for v in ("mpi", "mpi_ptr", "serial", "serial5", "mpi5")], bound=dict(
        quick="vectors of 1..3 elements x every distribution to 1..3 processes x every combination of elements of a small set of values x every aliasing of the operands, for every operation; every matrix with elements of a small set of values to size 2 (positions to size 3); every outcome of the linear solver; every sequence of two evaluations x functions given x failing evaluation x failing process x way to construct and move; every sequence of two settings in every notation; every status; with and without message passing, two kinds of communicator, two generations of the library",
        thorough="three-operand operations also for three elements on one and three processes")),
    "Z03": dict(jobs=["inm_util_box"], bound=dict(
        quick="boxes of 1..4 cells along each axis (and rows of up to 20) x 1..16 processes x three places and sizes: the union of the parts cell by cell, face by face and node by node",
        thorough="boxes of 1..6 cells along each axis on up to 12 processes, rows of up to 40 on up to 24")),
    "Z04": dict(jobs=["inm_util_fields", "inm_util_diffusion"], bound=dict(
        quick="stand-in meshes of 1..4 cells x distributions to up to 3 processes: tags of 24 sets of variables; integrals of every monomial of degree <= 6 in three forms; projections of fields of 15 spaces at run time and 6 at compile time (one third of the distributions), read back with every operator at points of every cell; the diffusion problem in 7 spaces on 6 meshes x every choice of the boundary faces with prescribed values x up to 5 kinds of coefficient; spaces by name; reports",
        thorough="every distribution, eight distributions per diffusion problem")),
    "Z05": dict(jobs=["inm_util_metrics"], bound=dict(
        quick="6 meshes of 1..4 cells with distributions to up to 3 processes in turn x 5 spaces x 228 fields (every quadratic form with coefficients of a small set, degenerate and vanishing ones included; scattered values) x 28 settings, one seventh of the combinations; with and without an earlier call, three kinds of tag: every node against the definition",
        thorough="every combination, both kinds of linear algebra")),
}
