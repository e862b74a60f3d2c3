// Z02: vectors, matrices, linear solver and the nonlinear solver object handed to SUNDIALS, against the definitions of that library.
#include "mc.h"
#include "inmost.h"
#include "anifem++/kinsol_interface/SUNNonlinearSolver.h"
#include <cmath>
#include <functional>
#include <set>
#include <sstream>
using namespace INMOST; typedef std::vector<double> Vec; typedef Sparse::Vector SV; typedef Sparse::Matrix SM;
#if SUNDIALS_VERSION_MAJOR >= 6
#define CTX(c) c,
struct Ctx { sundials::Context c; operator SUNContext() { return c; } };
#else
#define CTX(c)
struct Ctx {};
#endif
#ifdef USE_MPI
static const int MAXP = 3; static const INMOST_MPI_Comm COMM = MPI_COMM_WORLD;
#else
static const int MAXP = 1; static const INMOST_MPI_Comm COMM = INMOST_MPI_Comm();
#endif
static std::vector<std::vector<int>> parts(int L) { std::vector<std::vector<int>> r; for (int np = 1; np <= MAXP; ++np) { std::vector<int> n(np, 0); std::function<void(int, int)> go = [&](int i, int left) { if (i == np - 1) { n[i] = left; r.push_back(n); return; } for (int k = 0; k <= left; ++k) n[i] = k, go(i + 1, left - k); }; go(0, L); } return r; }
static std::string name_of(const std::vector<int>& d) { std::string s; for (int k : d) s += (s.empty() ? "" : "+") + std::to_string(k); return s; }
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || (std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= 1e-13 * (std::fabs(a) + std::fabs(b))); }
static Vec digits(long c, int L, const Vec& A) { Vec v(L); for (int i = 0; i < L; ++i) v[i] = A[c % A.size()], c /= A.size(); return v; }
static long power(size_t a, int L) { long r = 1; for (int i = 0; i < L; ++i) r *= long(a); return r; }
/// one process: its part of every vector
struct Proc {
    int p, b, e, L; std::string& why; Ctx ctx; std::vector<std::unique_ptr<SV>> data; std::vector<N_Vector> v;
    Proc(int p, const std::vector<int>& d, std::string& why, int nv): p(p), b(0), why(why) { for (int i = 0; i < p; ++i) b += d[i]; e = b + d[p]; L = 0; for (int k : d) L += k; for (int i = 0; i < nv; ++i) { data.emplace_back(new SV("v" + std::to_string(i), b, e, COMM)); v.push_back(N_VNew_Inmost(CTX(ctx) data.back().get())); } }
    ~Proc() { for (auto x : v) x->ops->nvdestroy(x); }
    void set(int i, const Vec& x) { for (int k = b; k < e; ++k) (*data[i])[k] = x[k]; }
    void say(const std::string& s) { if (why.empty()) why = s; }
    void is(int i, const Vec& x, const char* what) { mc::checked(); if (int(data[i]->GetFirstIndex()) != b || int(data[i]->GetLastIndex()) != e) return say(std::string(what) + ": interval changed"); for (int k = b; k < e; ++k) if (!same((*data[i])[k], x[k])) return say(mc::fmt("%s: element %d is %g instead of %g", what, k, (*data[i])[k], x[k])); }
    void num(double a, double x, const char* what) { mc::checked(); if (!same(a, x)) say(mc::fmt("%s is %.17g instead of %.17g", what, a, x)); }
};
static void processes(const std::vector<int>& d, const std::string& sg, int nv, std::function<void(Proc&)> f) {
    mock::Count c0 = mock::count(); std::vector<std::string> why(d.size()); { World w; w.run(int(d.size()), [&](int p) { Proc q(p, d, why[p], nv); f(q); }); }
    for (size_t p = 0; p < d.size(); ++p) { mc::state(); MC_REQ(why[p].empty(), sg, "process %d of %s: %s", int(p), name_of(d).c_str(), why[p].c_str()); }
    mock::Count c1 = mock::count(); MC_REQ(c0.vec == c1.vec && c0.mat == c1.mat && c0.ls == c1.ls && c0.ctx == c1.ctx && c0.kin == c1.kin, sg + ":leak", "objects are not freed: %ld vectors, %ld matrices, %ld linear solvers, %ld solvers", c1.vec - c0.vec, c1.mat - c0.mat, c1.ls - c0.ls, c1.kin - c0.kin);
}
// ---- vectors
static const Vec A4{-2, 0, 1, 4};
// elementwise operations; alias: 0 all different, 1 z is x, 2 z is y, 3 x is y, 4 all the same
static void binary(const std::vector<int>& d, const std::string& sg) { processes(d, sg, 3, [&](Proc& q) {
    long n = power(4, q.L); static const double S[5][2] = {{1, 1}, {1, -1}, {-0.5, 3}, {0, 2}, {4, 0}};
    for (long cx = 0; cx < n; ++cx) for (long cy = 0; cy < n; ++cy) for (int al = 0; al < 5; ++al) {
        Vec x0 = digits(cx, q.L, A4), y0 = digits(cy, q.L, A4); if (al >= 3) { if (cy) break; y0 = x0; } int ix = 0, iy = al >= 3 ? 0 : 1, iz = al == 0 || al == 3 ? 2 : al == 2 ? 1 : 0; N_Vector x = q.v[ix], y = q.v[iy], z = q.v[iz]; auto o = x->ops;
        Vec z0(q.L, -77), r(q.L); auto start = [&] { q.set(2, z0); q.set(1, y0); q.set(0, x0); mc::trans(); }; auto done = [&](const char* w) { q.is(iz, r, w); if (ix != iz) q.is(ix, x0, w); if (iy != iz && iy != ix) q.is(iy, y0, w); };
        for (auto& s : S) { start(); o->nvlinearsum(s[0], x, s[1], y, z); for (int i = 0; i < q.L; ++i) r[i] = s[0] * x0[i] + s[1] * y0[i]; done("linear sum"); }
        start(); o->nvprod(x, y, z); for (int i = 0; i < q.L; ++i) r[i] = x0[i] * y0[i]; done("product");
        start(); o->nvdiv(x, y, z); for (int i = 0; i < q.L; ++i) r[i] = x0[i] / y0[i]; done("quotient");
        if (al == 0 || al == 3) { start(); Vec h; double g = 0, l = 0, wl = 0, wg = 0, mg = BIG_REAL, ml = BIG_REAL; for (int i = 0; i < q.L; ++i) { bool in = i >= q.b && i < q.e; double t = x0[i] * y0[i]; g += t; wg += t * t; if (y0[i] != 0) mg = std::min(mg, x0[i] / y0[i]); if (in) { l += t; wl += t * t; if (y0[i] != 0) ml = std::min(ml, x0[i] / y0[i]); } }
            q.num(o->nvdotprod(x, y), g, "dot product"); q.num(o->nvdotprodlocal(x, y), l, "local dot product"); q.num(o->nvwl2norm(x, y), std::sqrt(wg), "weighted norm"); q.num(o->nvwrmsnorm(x, y), std::sqrt(wg / q.L), "weighted root mean square norm"); q.num(o->nvwsqrsumlocal(x, y), wl, "local weighted sum"); q.num(o->nvminquotient(x, y), mg, "least quotient"); q.num(o->nvminquotientlocal(x, y), ml, "local least quotient"); r = z0; done("reductions"); }
    } }); }
static void unary(const std::vector<int>& d, const std::string& sg) { processes(d, sg, 2, [&](Proc& q) {
    long n = power(6, q.L); static const Vec A6{-2, 0, 1, 4, -0.5, 0.25};
    for (long cx = 0; cx < n; ++cx) for (int al = 0; al < 2; ++al) {
        Vec x0 = digits(cx, q.L, A6), z0(q.L, -77), r(q.L); N_Vector x = q.v[0], z = q.v[al ? 0 : 1]; auto o = x->ops; auto start = [&] { q.set(1, z0); q.set(0, x0); mc::trans(); }; auto done = [&](const char* w) { q.is(al ? 0 : 1, r, w); if (!al) q.is(0, x0, w); };
        for (double c : {0., 1., -1., 2.5}) { start(); o->nvscale(c, x, z); for (int i = 0; i < q.L; ++i) r[i] = c * x0[i]; done("scaling"); start(); o->nvaddconst(x, c, z); for (int i = 0; i < q.L; ++i) r[i] = x0[i] + c; done("addition of a constant"); start(); o->nvcompare(c, x, z); for (int i = 0; i < q.L; ++i) r[i] = std::fabs(x0[i]) >= c; done("comparison"); start(); o->nvconst(c, z); r.assign(q.L, c); done("constant"); }
        start(); o->nvabs(x, z); for (int i = 0; i < q.L; ++i) r[i] = std::fabs(x0[i]); done("absolute value"); start(); o->nvinv(x, z); for (int i = 0; i < q.L; ++i) r[i] = 1 / x0[i]; done("inverse");
        for (int loc = 0; loc < 2; ++loc) { start(); bool t = true; for (int i = 0; i < q.L; ++i) { if (x0[i] == 0 && (!loc || (i >= q.b && i < q.e))) t = false; } booleantype s = loc ? o->nvinvtestlocal(x, z) : o->nvinvtest(x, z); if ((s != SUNFALSE) != t) q.say("inverse with test: wrong answer"); for (int i = q.b; i < q.e; ++i) if (x0[i] != 0 && (*q.data[al ? 0 : 1])[i] != 1 / x0[i]) q.say("inverse with test: wrong value"); mc::checked(2); }
        if (!al) { start(); double mx = 0, mn = BIG_REAL, l1 = 0, mxl = 0, mnl = BIG_REAL, l1l = 0; for (int i = 0; i < q.L; ++i) { double a = std::fabs(x0[i]); mx = std::max(mx, a); mn = std::min(mn, x0[i]); l1 += a; if (i >= q.b && i < q.e) { mxl = std::max(mxl, a); mnl = std::min(mnl, x0[i]); l1l += a; } }
            q.num(o->nvmaxnorm(x), mx, "maximum norm"); q.num(o->nvmaxnormlocal(x), mxl, "local maximum norm"); q.num(o->nvmin(x), mn, "minimum"); q.num(o->nvminlocal(x), mnl, "local minimum"); q.num(o->nvl1norm(x), l1, "sum of absolute values"); q.num(o->nvl1normlocal(x), l1l, "local sum of absolute values"); q.num(double(o->nvgetlength(x)), q.L, "length"); r = z0; done("reductions"); }
    } }); }
static void ternary(const std::vector<int>& d, const std::string& sg) { processes(d, sg, 3, [&](Proc& q) {
    static const Vec C{-2, -1, 0, 1, 2}, X{-3, -0.25, 0, 0.25, 3}, I{-1, 0, 0.5}, W{-2, 0, 1}; auto o = q.v[0]->ops; Vec z0(q.L, -77), r(q.L);
    for (long cc = 0; cc < power(5, q.L); ++cc) for (long cx = 0; cx < power(5, q.L); ++cx) for (int loc = 0; loc < 2; ++loc) { Vec c = digits(cc, q.L, C), x = digits(cx, q.L, X); q.set(0, c); q.set(1, x); q.set(2, z0); bool ok = true; for (int i = 0; i < q.L; ++i) { bool bad = c[i] == 2 ? x[i] <= 0 : c[i] == 1 ? x[i] < 0 : c[i] == -1 ? x[i] > 0 : c[i] == -2 ? x[i] >= 0 : false; r[i] = bad; if (bad && (!loc || (i >= q.b && i < q.e))) ok = false; }
        booleantype s = loc ? o->nvconstrmasklocal(q.v[0], q.v[1], q.v[2]) : o->nvconstrmask(q.v[0], q.v[1], q.v[2]); mc::trans(); if ((s != SUNFALSE) != ok) q.say("constraints: wrong answer"); q.is(2, r, "constraints"); q.is(0, c, "constraints"); q.is(1, x, "constraints"); }
    for (long cx = 0; cx < power(3, q.L); ++cx) for (long cw = 0; cw < power(3, q.L); ++cw) for (long ci = 0; ci < power(3, q.L); ++ci) { Vec x = digits(cx, q.L, W), w = digits(cw, q.L, W), id = digits(ci, q.L, I); q.set(0, x); q.set(1, w); q.set(2, id); double g = 0, l = 0; for (int i = 0; i < q.L; ++i) if (id[i] > 0) { double t = x[i] * w[i]; g += t * t; if (i >= q.b && i < q.e) l += t * t; }
        q.num(o->nvwrmsnormmask(q.v[0], q.v[1], q.v[2]), std::sqrt(g / q.L), "masked weighted root mean square norm"); q.num(o->nvwsqrsummasklocal(q.v[0], q.v[1], q.v[2]), l, "local masked weighted sum"); mc::trans(); }
    }); }
static void fused(const std::vector<int>& d, const std::string& sg) { processes(d, sg, 5, [&](Proc& q) {
    auto o = q.v[0]->ops; Vec A{-2, 0, 1}; long n = power(3, q.L);
    for (int nv = 1; nv <= 4; ++nv) for (int al = 0; al < 2; ++al) for (long cc = 0; cc < power(3, nv); ++cc) for (long s = 0; s < n; ++s) {
        Vec c = digits(cc, nv, {1, -1, 0.5}); std::vector<Vec> X; N_Vector P[4]; Vec r(q.L, 0.0); for (int k = 0; k < nv; ++k) { X.push_back(digits((s * (k + 1) + 7 * k) % n, q.L, A)); q.set(k, X[k]); P[k] = q.v[k]; for (int i = 0; i < q.L; ++i) r[i] += c[k] * X[k][i]; } q.set(4, Vec(q.L, -77));
        double dp[4]; int st = o->nvdotprodmulti(nv, P[nv - 1], P, dp); if (st) q.say("several dot products: failed"); for (int k = 0; k < nv; ++k) { double g = 0; for (int i = 0; i < q.L; ++i) g += X[k][i] * X[nv - 1][i]; q.num(dp[k], g, "one of several dot products"); }
        st = o->nvlinearcombination(nv, c.data(), P, al ? P[0] : q.v[4]); mc::trans(2); if (st) q.say("linear combination: failed"); q.is(al ? 0 : 4, r, "linear combination"); for (int k = al; k < nv; ++k) q.is(k, X[k], "operand of a linear combination"); }
    N_Vector P[1] = {q.v[0]}; double c = 1, dp; if (!o->nvlinearcombination(0, &c, P, q.v[1]) || !o->nvdotprodmulti(0, q.v[0], P, &dp)) q.say("no vectors: not refused"); }); }
static void objects(const std::vector<int>& d, const std::string& sg) { processes(d, sg, 1, [&](Proc& q) {
    Vec x0(q.L); for (int i = 0; i < q.L; ++i) x0[i] = i + 1; q.set(0, x0); N_Vector v = q.v[0]; if (v->ops->nvgetvectorid(v) != SUNDIALS_NVEC_CUSTOM) q.say("kind of the vector"); if (N_VContent_Inmost(v)->data != q.data[0].get() || N_VContent_Inmost(v)->own_data || N_VContent_Inmost(nullptr)) q.say("content");
#ifdef USE_MPI
    if (!v->ops->nvgetcommunicator(v) || *static_cast<MPI_Comm*>(v->ops->nvgetcommunicator(v)) != COMM) q.say("communicator");
#else
    if (v->ops->nvgetcommunicator(v)) q.say("communicator");
#endif
    std::set<std::string> names{q.data[0]->GetName()}; std::vector<N_Vector> all{v}; // clones of clones; every one has data of its own
    for (int k = 0; k < 5; ++k) { N_Vector w = all[k / 2], c = w->ops->nvclone(w); if (!c) { q.say("clone failed"); return; } auto n = N_VContent_Inmost(c); mc::trans(); mc::checked(3); if (!n->data || !n->own_data || n->data->GetFirstIndex() != unsigned(q.b) || n->data->GetLastIndex() != unsigned(q.e) || n->data->GetCommunicator() != COMM) { q.say("clone has another interval"); return; } if (!names.insert(n->data->GetName()).second) q.say("clones have equal names"); if (memcmp(c->ops, v->ops, sizeof *c->ops)) q.say("clone has other operations"); all.push_back(c); c->ops->nvconst(100 + k, c); }
    q.is(0, x0, "original of clones"); for (int k = 1; k <= 5; ++k) for (int i = q.b; i < q.e; ++i) if ((*N_VContent_Inmost(all[k])->data)[i] != 99 + k) q.say("clones share data");
    for (int k : {2, 1, 5, 4, 3}) all[k]->ops->nvdestroy(all[k]); q.is(0, x0, "original of destroyed clones");
    N_Vector e = v->ops->nvcloneempty(v); if (!e || !N_VContent_Inmost(e) || N_VContent_Inmost(e)->data || memcmp(e->ops, v->ops, sizeof *e->ops)) q.say("empty clone"); N_Vector ee = e->ops->nvclone(e); if (!ee || N_VContent_Inmost(ee)->data) q.say("clone of an empty vector"); ee->ops->nvdestroy(ee); e->ops->nvdestroy(e); N_VDestroy_Inmost(nullptr);
    N_Vector o = N_VNew_Inmost(CTX(q.ctx) std::string("named")); if (!o || !N_VContent_Inmost(o)->own_data || N_VContent_Inmost(o)->data->GetName() != "named") q.say("vector with a name"); o->ops->nvdestroy(o); sunindextype a = -1, b = -1; v->ops->nvspace(v, &a, &b); if (a < 0 || b < 0) q.say("space"); }); }
// ---- matrices
typedef std::map<std::pair<int, int>, double> Ent;
static Ent entries(SM& m) { Ent r; for (auto i = m.GetFirstIndex(); i < m.GetLastIndex(); ++i) for (auto& q : m[i].data) if (q.second != 0) r[{int(i), int(q.first)}] += q.second; return r; }
static void matrices(const std::vector<int>& d, const std::string& sg) { processes(d, sg, 2, [&](Proc& q) {
    long n = power(q.L <= 2 ? 3 : 2, q.L * q.L); Vec V = q.L <= 2 ? Vec{0, 1, -2} : Vec{0, 1};
    for (long c = 0; c < n; ++c) { Vec e = digits(c, q.L * q.L, V); SM m("m", q.b, q.e, COMM); Ent ref; for (int i = q.b; i < q.e; ++i) for (int k = 0; k < q.L; ++k) { int j = (k + int(c)) % q.L; if (e[i * q.L + j] != 0) m[i].Push(j, ref[{i, j}] = e[i * q.L + j] * (q.L <= 2 ? 1 : 1 + i + 3 * j)); }
        SUNMatrix A = SUNMatInmost(CTX(q.ctx) &m, 0); mc::trans(); mc::checked(6); if (A->ops->getid(A) != SUNMATRIX_CUSTOM || SUNMatContent_Inmost(A)->data != &m || SUNMatContent_Inmost(A)->own_data) q.say("content of the matrix");
        for (int t = 0; t < 3; ++t) { Vec x(q.L), y(q.L, -77), r(q.L, 0.0); for (int i = 0; i < q.L; ++i) x[i] = t == 0 ? 1 : t == 1 ? i - 1 : 1 << (3 * i); q.set(0, x); q.set(1, y); int st = A->ops->matvec(A, q.v[0], q.v[1]); for (int i = q.b; i < q.e; ++i) for (int j = 0; j < q.L; ++j) if (ref.count({i, j})) r[i] += ref[{i, j}] * x[j]; if (st) q.say("product of a matrix and a vector: failed"); q.is(1, r, "product of a matrix and a vector"); q.is(0, x, "operand of the product"); if (entries(m) != ref) q.say("product of a matrix and a vector: the matrix changed"); }
        long a = -1, b = -1; if (A->ops->space(A, &a, &b) || a < 0 || b < 0) q.say("space of the matrix");
        if (q.e > q.b || q.L == 0) {} SUNMatrix B = A->ops->clone(A), E = SUNMatCloneEmpty_Inmost(A); auto cb = SUNMatContent_Inmost(B); if (!cb->own_data || cb->data == &m || cb->data->GetFirstIndex() != unsigned(q.b) || cb->data->GetLastIndex() != unsigned(q.e) || cb->data->GetName() == "m" || cb->overlap != 0 || memcmp(A->ops, B->ops, sizeof *A->ops)) q.say("clone of the matrix"); if (SUNMatContent_Inmost(E)->data || SUNMatContent_Inmost(nullptr)) q.say("empty clone of the matrix"); E->ops->destroy(E);
        if (q.e > q.b) (*cb->data)[q.b].Push(0, 55); if (A->ops->copy(A, B)) q.say("copy of the matrix: failed"); if (entries(*cb->data) != ref || entries(m) != ref) q.say("copy of the matrix"); if (A->ops->zero(A)) q.say("zero matrix: failed"); if (!entries(m).empty() || entries(*cb->data) != ref) q.say("zero matrix"); B->ops->destroy(B); A->ops->destroy(A); if (m.GetFirstIndex() != unsigned(q.b)) q.say("matrix of the user was destroyed"); }
    SUNMatrix o = SUNMatInmost(CTX(q.ctx) std::string("named")); if (!SUNMatContent_Inmost(o)->own_data || SUNMatContent_Inmost(o)->data->GetName() != "named" || SUNMatContent_Inmost(o)->overlap) q.say("matrix with a name"); o->ops->destroy(o); SUNMatDestroy_Inmost(nullptr); SM m2; SUNMatrix o2 = SUNMatInmost(CTX(q.ctx) &m2, 2), o3 = o2->ops->clone(o2); if (SUNMatContent_Inmost(o2)->overlap != 2 || SUNMatContent_Inmost(o3)->overlap != 2) q.say("overlap of the matrix"); o2->ops->destroy(o2); o3->ops->destroy(o3); }); }
// ---- linear solver
struct Quiet { std::streambuf *a, *b; Quiet(): a(std::cout.rdbuf(nullptr)), b(std::cerr.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
static void linear(const std::vector<int>& d, const std::string& sg) { Quiet quiet; processes(d, sg, 2, [&](Proc& q) {
    // histories of setup of two matrices, change of a matrix (always followed by setup) and solution
    int len = mc::thorough() ? 6 : 4; for (long c = 0; c < power(3, len); ++c) { Solver s; SM m0("a", q.b, q.e, COMM), m1("b", q.b, q.e, COMM); for (int i = q.b; i < q.e; ++i) m0[i].Push(i, 1 + i), m1[i].Push((i + 1) % q.L, 5 + i); SUNMatrix A[2] = {SUNMatInmost(CTX(q.ctx) &m0), SUNMatInmost(CTX(q.ctx) &m1)}; SUNLinearSolver S = SUNLinSolInmost(CTX(q.ctx) &s); if (S->ops->gettype(S) != SUNLINEARSOLVER_MATRIX_ITERATIVE || S->ops->getid(S) != SUNLINEARSOLVER_CUSTOM || SUNLinSolContent_Inmost(S)->data != &s || SUNLinSolContent_Inmost(nullptr)) q.say("kind of the linear solver"); if (S->ops->initialize(S) != SUNLS_SUCCESS) q.say("initialisation");
        int cur = -1; long x = c; for (int k = 0; k < len; ++k, x /= 3) { mc::trans(); int w = int(x % 3); if (w < 2) { SM& m = w ? m1 : m0; if (q.e > q.b) m[q.b].Push(q.b, 10 + k); cur = w; size_t n0 = s.calls.size(); if (S->ops->setup(S, A[w]) != SUNLS_SUCCESS) q.say("setup failed"); mc::checked(); if (s.calls.size() != n0 + 1 || s.calls.back().what || s.calls.back().A != &m || s.calls.back().b) q.say("setup does not hand the matrix to the solver"); }
            else { SUNMatrix M = A[cur < 0 ? 1 : cur]; s.act = [&](SV& r, SV& z) { if (&r != q.data[1].get() || &z != q.data[0].get()) q.say("solution with other vectors"); }; s.resid = 0.5; s.flag = true; if (S->ops->solve(S, M, q.v[0], q.v[1], 1.0) != SUNLS_SUCCESS) q.say("solution failed"); Solver::Call* last = nullptr; for (auto& cl : s.calls) if (!cl.what) last = &cl; SM& m = *SUNMatContent_Inmost(M)->data; decltype(Solver::Call::mat) now; for (auto i = m.GetFirstIndex(); i < m.GetLastIndex(); ++i) for (auto& e : m[i].data) now[{i, e.first}] += e.second; mc::checked(3); if (!last || last->A != &m || last->mat != now) q.say("system is solved with another matrix"); if (!s.calls.back().what) q.say("nothing is solved"); if (s.par["absolute_tolerance"] != 1.0) q.say("tolerance is not handed over"); s.its = 3 + k; if (S->ops->numiters(S) != 3 + k || S->ops->resnorm(S) != 0.5) q.say("iterations or residual"); } }
        if (S->ops->free(S)) q.say("free"); A[0]->ops->destroy(A[0]); A[1]->ops->destroy(A[1]); }
    // what the solver reports
    double init = q.L == 1 ? 4 : 5; Vec bb(q.L, 0.0); bb[0] = q.L == 1 ? 4 : 3; if (q.L > 1) bb[q.L - 1] = 4; q.set(1, bb); q.set(0, Vec(q.L, 0.0));
    for (int flag = 0; flag < 2; ++flag) for (double tol : {0.5, 3.0, 4.5, 7.0}) for (double res : {0.0, 0.5, 2.0, 3.0, 4.0, 4.25, 5.0, 6.0, double(NAN), double(INFINITY)}) for (int verb = 0; verb < 4; ++verb) { Solver s; SM m("a", q.b, q.e, COMM); SUNMatrix A = SUNMatInmost(CTX(q.ctx) &m); SUNLinearSolver S = SUNLinSolInmost(CTX(q.ctx) &s); SUNLinSolContent_Inmost(S)->verbosity = verb; S->ops->setup(S, A); s.flag = flag; s.resid = res; int st = S->ops->solve(S, A, q.v[0], q.v[1], tol); mc::trans(); mc::checked(); bool reach = res <= tol, red = res <= init; mc::outcome(std::to_string(st));
        bool ok = flag && reach ? st == SUNLS_SUCCESS : reach ? st != SUNLS_SUCCESS && st != SUNLS_RES_REDUCED : red ? st == SUNLS_RES_REDUCED : st > 0 && st != SUNLS_RES_REDUCED; if (!ok) q.say(mc::fmt("solver %s, residual %g of initially %g, tolerance %g: status %d", flag ? "succeeds" : "fails", res, init, tol, st)); S->ops->free(S); A->ops->destroy(A); }
    SUNLinearSolver e = SUNLinSolNewEmpty_Inmost(
#if SUNDIALS_VERSION_MAJOR >= 6
        q.ctx
#endif
    ); if (e->ops->initialize(e) == SUNLS_SUCCESS || SUNLinSolInitialize_Inmost(nullptr) == SUNLS_SUCCESS || SUNLinSolFree_Inmost(nullptr)) q.say("a solver without content is accepted"); e->ops->free(e); }); }
// ---- nonlinear solver
typedef SUNNonlinearSolver NS;
static NS* make(int form, Solver& s, SM& m, SV& x) { NS* n; if (form == 0) return new NS(s, m, x); n = form == 1 ? new NS() : new NS(
#if SUNDIALS_VERSION_MAJOR >= 6
    sundials::Context()
#else
    nullptr
#endif
    ); n->SetLinearSolver(s).SetMatrix(m).SetInitialGuess(x); return n; }
static mock::Kin& kin(NS& n) { return *static_cast<mock::Kin*>(n.kin); }
static void callbacks(const std::vector<int>& d, const std::string& sg) { processes(d, sg, 0, [&](Proc& q) {
    // which functions are given (bits: right-hand side, matrix, both), sequence of evaluations, which of them fail and on which process, whether the object is moved before or after its initialisation
    int np = int(d.size()), len = 2; for (int form = 0; form < 3; ++form) for (int fun = 0; fun < 8; ++fun) for (int moved = 0; moved < 3; ++moved) for (int seq = 0; seq < 4; ++seq) for (int fail = 0; fail < 4; ++fail) for (int who = 0; who < np; ++who) for (int code : {-1, -7}) { if (!fail && (who || code == -7)) continue;
        { Solver s; SM m("m", q.b, q.e, COMM); SV x("x", q.b, q.e, COMM); for (int i = q.b; i < q.e; ++i) x[i] = i; std::unique_ptr<NS> n(make(form, s, m, x)), old; int at = 0; std::string got; SV *ex = nullptr, *eb = nullptr; SM* eJ = nullptr; long cookie = 0;
            auto ret = [&] { return (fail >> at & 1) && q.p == who ? code : (at + q.p) % 2 * 3; };
            if (fun & 1) n->SetAssemblerRHS([&](SV& a, SV& b) { got = "rhs"; if (&a != ex || &b != eb) q.say("right-hand side is evaluated with other vectors"); for (int i = q.b; i < q.e; ++i) b[i] = 10 + i; return ret(); }); if (fun & 2) n->SetAssemblerMAT([&](SV& a, SM& J) { got = "mat"; if (&a != ex || &J != eJ) q.say("matrix is evaluated with other arguments"); return ret(); }); if (fun & 4) n->SetAssembler([&](SV& a, SM& J, SV& b) { got = "both"; if (&a != ex || &J != eJ || &b == eb || &b == ex) q.say("matrix and right-hand side are evaluated with other arguments"); for (int i = q.b; i < q.e; ++i) b[i] = -5; return ret(); });
            std::string told; n->SetErrHandlerFn([&](int c, const char* a, const char* b, char* t) { told += mc::fmt("E%d %s %s %s", c, a, b, t); cookie = c; }); n->SetInfoHandlerFn([&](const char* a, const char* b, char* t) { told += mc::fmt("I %s %s %s", a, b, t); });
            auto mv = [&] { old = std::move(n); n.reset(new NS(std::move(*old))); if (seq & 1) old.reset(); }; if (moved == 1) mv(); NS* ini = &n->Init(); if (ini != n.get()) q.say("Init"); if (moved == 2) mv();
            auto& k = kin(*n); mc::checked(4); if (k.ls != n->LS || k.A != n->A || !k.jac || !k.f || n->GetLinearSolver() != &s || n->GetMatrix() != &m || n->GetVectorX() != &x) q.say("solver is not set up");
            mock::solve() = [&](mock::Kin& z) { if (&z != &k || z.u != n->x) q.say("solution of another problem"); for (N_Vector sc : {z.us, z.fs}) { auto c = N_VContent_Inmost(sc); for (int i = q.b; i < q.e; ++i) if ((*c->data)[i] != 1) q.say("scaling is not one"); }
                N_Vector f = n->x->ops->nvclone(n->x), t1 = f->ops->nvclone(f), t2 = f->ops->nvclone(f), u = f->ops->nvclone(f); for (auto v : {f, t1, t2}) v->ops->nvconst(-3, v); int bad = 0;
                for (at = 0; at < len; ++at) { got = ""; bool rhs = !(seq >> at & 1), can = rhs ? fun & 1 : fun & 6; N_Vector xx = at ? u : z.u; ex = N_VContent_Inmost(xx)->data; eb = N_VContent_Inmost(f)->data; eJ = SUNMatContent_Inmost(z.A)->data; f->ops->nvconst(-3, f); int st = rhs ? z.f(xx, f, z.user) : z.jac(xx, f, z.A, z.user, t1, t2); mc::trans(); mc::checked(2); std::string e = !can ? "" : rhs ? "rhs" : fun & 2 ? "mat" : "both"; if (got != e) q.say("evaluated '" + got + "' instead of '" + e + "'"); bool expect = can && !(fail >> at & 1); if ((st == 0) != expect) q.say(mc::fmt("status %d of an evaluation that %s", st, expect ? "succeeds" : "fails")); for (int i = q.b; i < q.e; ++i) if ((*eb)[i] != (rhs && can ? 10 + i : -3)) q.say("wrong right-hand side"); bad += st != 0; }
                char txt[] = "text"; z.eh(7 + seq, "M", "F", txt, z.euser); z.ih("M", "G", txt, z.iuser); for (auto v : {f, t1, t2, u}) v->ops->nvdestroy(v); return bad ? KIN_SYSFUNC_FAIL : KIN_SUCCESS; };
            // the function of the stand-in is shared by the processes: every process solves with its own one
            auto mine = mock::solve(); static std::map<int, std::function<int(mock::Kin&)>> per; per[q.p] = mine; mock::solve() = [](mock::Kin& z) { World* w = World::current(); return per[w->cur](z); };
            bool ok = n->Solve(NS::NONE); bool e = true; for (int a = 0; a < len; ++a) { bool rhs = !(seq >> a & 1); e &= (rhs ? fun & 1 : fun & 6) && !(fail >> a & 1); } if (ok != e) q.say("wrong result of the solution"); if (told != mc::fmt("E%d M F textI M G text", 7 + seq)) q.say("messages are not handed over: " + told); n.reset(); if (old) old.reset(); if (s.alive() < 1) q.say("linear solver of the user was destroyed"); } }
    }); }
static void settings() { Quiet quiet; Solver s; SM m("m", 0, 2, COMM); SV x("x", 0, 2, COMM); mock::Count c0 = mock::count(); std::string sg = "settings";
    auto P = NS::GetAvaliableParametrs(); std::set<std::string> names; for (auto& p : P) { MC_REQ(names.insert(p.name).second, sg, "parameter %s is listed twice", p.name.c_str()); mc::state(); }
    static const char* ALL[] = {"MaxIters", "UseInitSetup", "UseResMon", "MaxSetupCalls", "MaxSubSetupCalls", "EtaForm", "EtaConstValue", "EtaGamma", "EtaAlpha", "ResMonWmin", "ResMonWmax", "ResMonConst", "UseMinEps", "MaxNewtonStep", "MaxBetaFails", "FuncNormTol", "ScaledSteptol", "MAA", "DampingAA"};
    for (auto a : ALL) MC_REQ(names.count(a), sg, "parameter %s is not listed", a); MC_REQ(names.size() == sizeof ALL / sizeof *ALL, sg, "%d parameters are listed", int(names.size()));
    struct K { const char *set; bool neg; int place; }; std::map<std::string, K> M{{"UseInitSetup", {"NoInitSetup", true, 0}}, {"UseResMon", {"NoResMon", true, 0}}, {"UseMinEps", {"NoMinEps", true, 0}}, {"EtaGamma", {"EtaParams", false, 0}}, {"EtaAlpha", {"EtaParams", false, 1}}, {"ResMonWmin", {"ResMonParams", false, 0}}, {"ResMonWmax", {"ResMonParams", false, 1}}};
    // every sequence of two settings, in every way to write them; what was set last for each counts
    for (int ways = 0; ways < 9; ++ways) for (auto& p : P) for (auto& r : P) { std::unique_ptr<NS> n(make(0, s, m, x)); std::map<std::string, std::vector<double>> e; double pairs[2][2] = {{0.9, 2.0}, {1e-5, 0.9}}; int k = 0;
        for (auto* w : {&p, &r}) { int way = k++ ? ways / 3 : ways % 3; double val; bool ok; mc::trans(); switch (w->type) { case NS::REAL: val = 0.125 * (k + way); ok = way == 0 ? n->SetParameterReal(w->name, val) : n->SetParameter(w->name, way == 1 ? mc::fmt("%.10g", val) : mc::fmt("%.10e", val)); break; case NS::INTEGER: val = 3 + k + way; ok = way == 0 ? n->SetParameterIntegral(w->name, int(val)) : n->SetParameter(w->name, mc::fmt(way == 1 ? "%d" : "  %d", int(val))); break; case NS::BOOLEAN: { val = (k + way) & 1; static const char* T[2][3] = {{"", "false", "FALSE"}, {"", "true", "True"}}; ok = way == 0 ? n->SetParameterIntegral(w->name, int(val)) : n->SetParameter(w->name, T[int(val)][way]); break; } default: val = 1 + (k + way) % 3; ok = way == 0 ? n->SetParameterIntegral(w->name, int(val)) : n->SetParameter(w->name, std::to_string(int(val))); }
            MC_REQ(ok, sg, "parameter %s was refused", w->name.c_str()); auto it = M.find(w->name); if (it == M.end()) e[w->name] = {val}; else if (it->second.neg) e[it->second.set] = {val ? 0. : 1.}; else { bool eta = !strcmp(it->second.set, "EtaParams"); double* q = pairs[eta ? 0 : 1]; q[it->second.place] = val; e[it->second.set] = {q[0], q[1]}; } }
        mc::checked(); MC_REQ(kin(*n).set == e, sg + ":" + p.name, "%s after %s: the solver library gets other settings", r.name.c_str(), p.name.c_str()); }
    for (auto* t : {"", "maxiters", "MaxIter", "Tol", "EtaParams"}) { std::unique_ptr<NS> n(make(1, s, m, x)); MC_REQ(!n->SetParameter(t, "1") && !n->SetParameterReal(t, 1) && !n->SetParameterIntegral(t, 1) && kin(*n).sets == 0, sg, "unknown parameter '%s' is accepted", t); }
    for (auto& p : P) { std::unique_ptr<NS> n(make(1, s, m, x)); MC_REQ(p.type == NS::REAL ? !n->SetParameterIntegral(p.name, 1) : !n->SetParameterReal(p.name, 1), sg, "parameter %s is taken in another type", p.name.c_str()); MC_REQ(kin(*n).sets == 0, sg, "refused parameter %s was set", p.name.c_str()); }
    for (int v : {0, 4, -1}) { std::unique_ptr<NS> n(make(1, s, m, x)); MC_REQ(!n->SetParameterIntegral("EtaForm", v) && kin(*n).sets == 0, sg, "form %d of eta is accepted", v); } for (double v : {-0.5, 1.5}) { std::unique_ptr<NS> n(make(1, s, m, x)); MC_REQ(!n->SetParameterReal("DampingAA", v) && kin(*n).sets == 0, sg, "damping %g is accepted", v); }
    for (int l = -2; l < 6; ++l) { std::unique_ptr<NS> n(make(1, s, m, x)); n->SetVerbosityLevel(l); MC_REQ(kin(*n).print == std::max(0, std::min(3, l)), sg, "verbosity %d", l); }
    { std::unique_ptr<NS> n(make(1, s, m, x)); SV c("c", 0, 2, COMM); for (int k = 0; k < 3; ++k) { c[0] = k, c[1] = -k; n->SetConstraints(c); auto q = N_VContent_Inmost(kin(*n).constraints); MC_REQ(q && (*q->data)[0] == k && (*q->data)[1] == -k && c[0] == k, sg, "constraints"); } }
    // statuses of the solution
    std::map<std::string, int> texts; static const int F[] = {0, 1, 2, -1, -2, -3, -4, -5, -6, -7, -8, -9, -10, -11, -12, -13, -14, -15, -77, 55};
    for (int f : F) for (auto st : {NS::NONE, NS::LINESEARCH, NS::PICARD}) for (int form = 0; form < 3; ++form) { std::unique_ptr<NS> n(make(form, s, m, x)); MC_REQ(n->GetReasonFlag() < 0, sg, "solved before the solution"); n->SetAssemblerRHS([](SV&, SV&) { return 0; }); n->Init(); int seen = -1; mock::solve() = [&](mock::Kin& z) { seen = z.strategy; return f; }; bool ok = n->Solve(st); mc::trans(); mc::checked(4); MC_REQ(ok == (f >= 0) && n->GetReasonFlag() == f && seen == int(st), sg, "status %d is reported as %s", f, ok ? "success" : "failure"); std::string t = n->GetReason(); bool known = f >= -15 && f <= 2; auto it = texts.find(t); MC_REQ(!t.empty() && (it == texts.end() || it->second == f || (!known && (it->second < -15 || it->second > 2))), sg, "status %d has the reason of status %d", f, it->second); texts[t] = f;
        MC_REQ(n->GetNumFuncEvals() == 101 && n->GetNumNolinSolvIters() == 102 && n->GetNumBetaCondFails() == 103 && n->GetNumBacktrackOps() == 104 && n->GetNumJacEvals() == 105 && n->GetNumLinFuncEvals() == 106 && n->GetNumLinIters() == 107 && n->GetNumLinConvFails() == 108 && n->GetLastLinFlag() == 109 && n->GetResidualNorm() == 110 && n->GetStepLength() == 111, sg, "statistics"); MC_REQ(n->GetLinReturnFlagName() == "FLAG109", sg, "name of the flag");
        // solving once more and replacing the parts
        SM m2("m2", 0, 2, COMM); SV x2("x2", 0, 2, COMM); Solver s2; n->SetMatrix(m2).SetInitialGuess(x2).SetLinearSolver(s2).Init(); MC_REQ(n->GetMatrix() == &m2 && n->GetVectorX() == &x2 && n->GetLinearSolver() == &s2 && kin(*n).A == n->A && kin(*n).ls == n->LS && kin(*n).tmpl == n->x, sg, "parts are not replaced"); MC_REQ(n->Solve(st) == (f >= 0), sg, "second solution"); n->SetMatrix(std::string("own")); MC_REQ(n->GetMatrix() && n->GetMatrix()->GetName() == "own", sg, "matrix with a name"); }
    { std::unique_ptr<NS> n(new NS()); bool refused = false; try { n->Init(); } catch (std::exception&) { refused = true; } MC_REQ(refused, sg, "initialisation without anything succeeds"); MC_REQ(!n->GetMatrix() && !n->GetVectorX() && !n->GetLinearSolver(), sg, "empty solver has parts"); mock::solve() = [](mock::Kin&) { return 0; }; MC_REQ(!n->Solve() && n->GetReasonFlag() < 0, sg, "empty solver solves"); }
    { std::ostringstream e, i; std::unique_ptr<NS> n(make(1, s, m, x)); n->SetErrHandlerFile(e).SetInfoHandlerFile(i); char t[] = "words"; auto& k = kin(*n); k.eh(KIN_WARNING, "mod", "fun", t, k.euser); k.eh(-3, "mod", "fun", t, k.euser); k.ih("mod", "fun", t, k.iuser); MC_REQ(e.str().find("WARNING") != std::string::npos && e.str().find("ERROR") != std::string::npos && e.str().find("words") != std::string::npos && i.str().find("words") != std::string::npos, sg, "messages in files"); }
    mock::Count c1 = mock::count(); MC_REQ(c0.vec == c1.vec && c0.mat == c1.mat && c0.ls == c1.ls && c0.kin == c1.kin && c0.ctx == c1.ctx, sg + ":leak", "objects are not freed: %ld vectors, %ld matrices, %ld linear solvers, %ld solvers", c1.vec - c0.vec, c1.mat - c0.mat, c1.ls - c0.ls, c1.kin - c0.kin); }
static void body() {
    for (int L = 1; L <= 3; ++L) for (auto& d : parts(L)) { std::string n = name_of(d);
        mc::run_case("unary " + n, "vectors", [&] { unary(d, "vector:unary"); }); mc::run_case("binary " + n, "vectors", [&] { binary(d, "vector:binary"); }); if (L < 3 || mc::thorough() || d.size() == 2) mc::run_case("ternary " + n, "vectors", [&] { ternary(d, "vector:ternary"); }); mc::run_case("fused " + n, "vectors", [&] { fused(d, "vector:fused"); }); mc::run_case("objects " + n, "vectors", [&] { objects(d, "vector:objects"); });
        mc::run_case("matrices " + n, "matrices", [&] { matrices(d, "matrix"); }); mc::run_case("linear " + n, "linear", [&] { linear(d, "linear solver"); }); if (L == 2 || (L == 3 && d.size() == 3)) mc::run_case("callbacks " + n, "nonlinear", [&] { callbacks(d, "nonlinear solver"); }); }
    mc::run_case("settings", "nonlinear", [] { settings(); });
}
MC_MAIN(body)
