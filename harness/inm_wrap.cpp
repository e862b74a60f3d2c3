// P02: wrappers of element functions: conversion between compressed and dense element matrices for every sparsity, and wrappers made from plain functions.
#include "mc.h"
#include "anifem++/inmost_interface/func_wrap.h"
#include <map>
#include <memory>
#include <numeric>
using namespace Ani;
template <class Int> struct Pat { Int n, m, nnz; std::vector<Int> colind, row; std::vector<char> on; };
template <class Int> static Pat<Int> pattern(int n, int m, unsigned bits) { Pat<Int> p; p.n = Int(n), p.m = Int(m); p.on.resize(n * m); p.colind.push_back(0); for (int j = 0; j < m; ++j) { for (int i = 0; i < n; ++i) if (bits >> (j * n + i) & 1) p.row.push_back(Int(i)), p.on[j * n + i] = 1; p.colind.push_back(Int(p.row.size())); } p.nnz = Int(p.row.size()); return p; }
static const double GUARD = -7777;
// every operation of a view on one pattern
template <class Int, class Real, class V> static void ops(const V& v, const Pat<Int>& p, const std::string& sg, bool view, V& mv) {
    size_t full = size_t(p.n) * p.m, nnz = size_t(p.nnz); std::vector<Real> from(nnz + 2, Real(GUARD)); for (size_t k = 0; k < nnz; ++k) from[k] = Real(k + 1);
    std::vector<Real> dense(full, Real(0)), filled(full, Real(-3)); { size_t k = 0; for (size_t q = 0; q < full; ++q) if (p.on[q]) dense[q] = filled[q] = from[k++]; }
    auto ok = [&](const std::vector<Real>& a, const std::vector<Real>& b, size_t n, size_t o) { for (size_t i = 0; i < n; ++i) if (a[i + o] != b[i]) return false; for (size_t i = n + o; i < a.size(); ++i) if (a[i] != Real(GUARD)) return false; for (size_t i = 0; i < o; ++i) if (a[i] != Real(GUARD)) return false; return true; };
    mc::state(); mc::checked(9);
    std::vector<Real> a(full + 2, Real(GUARD)); v.template densify<Real>(from.data(), a.data() + 1); MC_REQ(ok(a, dense, full, 1), sg + "densify", "wrong dense matrix");
    a.assign(full + 2, Real(GUARD)); v.template densify<Real>(from.data(), a.data() + 1, Real(-3)); MC_REQ(ok(a, filled, full, 1), sg + "densify-fill", "wrong dense matrix with a given value of empty places");
    a.assign(full + 1, Real(GUARD)); std::copy(from.begin(), from.begin() + nnz, a.begin()); mv.template densify<Real>(a.data()); MC_REQ(ok(a, dense, full, 0), sg + "densify-inplace", "wrong dense matrix in place");
    a.assign(full + 1, Real(GUARD)); std::copy(from.begin(), from.begin() + nnz, a.begin()); v.template densify<Real>(a.data(), a.data(), Real(-3)); MC_REQ(ok(a, filled, full, 0), sg + "densify-inplace", "wrong dense matrix in place with a given value of empty places");
    std::vector<Real> all(full); for (size_t q = 0; q < full; ++q) all[q] = Real(100 + q); std::vector<Real> exp; for (size_t q = 0; q < full; ++q) if (p.on[q]) exp.push_back(all[q]);
    a.assign(nnz + 2, Real(GUARD)); v.template sparsify<Real>(all.data(), a.data() + 1); MC_REQ(ok(a, exp, nnz, 1), sg + "sparsify", "wrong compressed matrix");
    // in place the elements are moved to the front
    std::vector<Real> in = all; v.template sparsify<Real>(in.data(), in.data()); bool same = true; for (size_t k = 0; k < nnz; ++k) same &= in[k] == exp[k]; MC_REQ(same, sg + "sparsify-inplace", "wrong compressed matrix in place");
    std::vector<long> ci(p.m + 3, -7), ro(nnz + 2, -7); v.template copyCSC<long>(ci.data() + 1, ro.data() + 1); same = ci[0] == -7 && ci.back() == -7 && ro[0] == -7 && ro.back() == -7; for (Int j = 0; j <= p.m; ++j) same &= ci[1 + j] == long(p.colind[j]); for (size_t k = 0; k < nnz; ++k) same &= ro[1 + k] == long(p.row[k]); MC_REQ(same, sg + "copy", "indices are copied wrongly");
    std::vector<bool> b(full + 2, true); for (size_t q = 0; q < full; ++q) b[q + 1] = (q % 3) != 0; v.template fillTemplate<decltype(b.begin()), bool>(b.begin() + 1); same = b[0] && b[full + 1]; for (size_t q = 0; q < full; ++q) same &= b[q + 1] == bool(p.on[q]); MC_REQ(same, sg + "template", "wrong places of nonzero elements");
    std::vector<int> bi(full, 5); v.template fillTemplate<int*, int>(bi.data()); same = true; for (size_t q = 0; q < full; ++q) same &= bi[q] == int(p.on[q]); MC_REQ(same, sg + "template", "wrong places of nonzero elements");
    (void)view;
}
template <class Int, class Real> static void patterns(const char* tn) {
    int lim = mc::thorough() ? 16 : 12;
    for (int n = 0; n <= 4; ++n) for (int m = 0; m <= 4; ++m) { if (n * m > lim) continue; mc::run_case(mc::fmt("%s: %d x %d", tn, n, m), "sparsity", [&] { std::string sg = std::string("sparsity:") + tn + ":";
        for (unsigned bits = 0; bits < (1u << (n * m)); ++bits) { auto p = pattern<Int>(n, m, bits); typedef MatSparsityView<Int> V; typedef MatSparsity<Int> M;
            V v = V::make_as_sparse(p.nnz, p.n, p.m, p.colind.data(), p.row.data()), v2(V::SPARSE_CSC, p.nnz, p.n, p.m, p.colind.data(), p.row.data()); MC_REQ(v.m_tp == V::SPARSE_CSC && v.m_nnz == p.nnz && v.m_sz1 == p.n && v.m_sz2 == p.m, sg + "make", "sparse %d x %d matrix with %d elements has %d elements", n, m, int(p.nnz), int(v.m_nnz));
            ops<Int, Real, V>(v2, p, sg, true, v2); ops<Int, Real, V>(v, p, sg, true, v); M s = M::make_as_sparse(p.nnz, p.n, p.m, p.colind, p.row); ops<Int, Real, M>(s, p, sg + "owner-", false, s);
            SparsedData<Real, Int> sd(v2, nullptr); std::vector<Real> w(n * m + p.nnz + 1, Real(0)); for (Int k = 0; k < p.nnz; ++k) w[k] = Real(k + 1); sd.m_dat = w.data(); std::vector<Real> o(n * m + 1, Real(GUARD)); sd.densify(o.data()); int k = 0; for (int q = 0; q < n * m; ++q) MC_REQ(o[q] == (p.on[q] ? Real(++k) : Real(0)), sg + "data", "wrong dense matrix");
            if (bits + 1 == (1u << (n * m))) { V d = V::make_as_dense(p.n, p.m); ops<Int, Real, V>(d, p, sg + "dense-", true, d); M e = M::make_as_dense(p.n, p.m); ops<Int, Real, M>(e, p, sg + "dense-owner-", false, e); } } }); }
}
// ---- wrappers
typedef MatFuncWrapDynamic<> W; typedef W::IOData IO; typedef DynMem<double, long> DM;
struct Log { const double** a; double *r0, *r1, *w; long* iw; void* ud; DM* dm; int calls; }; static Log L;
struct Form { const char* name; int kind /*0 matrix and rhs, 1 matrix, 2 rhs*/; bool w, ud, dm; std::function<W(size_t, size_t, size_t, size_t)> make; };
static void rec(const double** a, double* r0, double* r1, double* w, long* iw, void* ud, DM* dm) { int n = L.calls; L = Log{a, r0, r1, w, iw, ud, dm, n + 1}; }
static std::vector<Form> forms() {
    std::vector<Form> F; typedef const double** A; typedef double* D; typedef long* I; typedef void* U; auto N = ThreadPar::Type::NONE; (void)N;
#define TP <ThreadPar::Type::NONE, double, long>
    F.push_back({"matrix and rhs", 0, false, false, false, [](size_t r, size_t c, size_t, size_t) -> W { return GenerateElemMatRhs TP([](A a, D x, D y) { rec(a, x, y, 0, 0, 0, 0); }, r, c); }});
    F.push_back({"matrix and rhs, data", 0, false, true, false, [](size_t r, size_t c, size_t, size_t) -> W { return GenerateElemMatRhs TP([](A a, D x, D y, U u) { rec(a, x, y, 0, 0, u, 0); }, r, c); }});
    F.push_back({"matrix and rhs, work arrays, data", 0, true, true, false, [](size_t r, size_t c, size_t w, size_t i) -> W { return GenerateElemMatRhs TP([](A a, D x, D y, D w, I i, U u) { rec(a, x, y, w, i, u, 0); }, r, c, w, i); }});
    F.push_back({"matrix and rhs, work arrays", 0, true, false, false, [](size_t r, size_t c, size_t w, size_t i) -> W { return GenerateElemMatRhs TP([](A a, D x, D y, D w, I i) { rec(a, x, y, w, i, 0, 0); }, r, c, w, i); }});
    F.push_back({"matrix and rhs, work arrays, data, memory", 0, true, true, true, [](size_t r, size_t c, size_t w, size_t i) -> W { return GenerateElemMatRhs TP([](A a, D x, D y, D w, I i, U u, DM* m) { rec(a, x, y, w, i, u, m); }, r, c, w, i); }});
    F.push_back({"matrix", 1, false, false, false, [](size_t r, size_t c, size_t, size_t) -> W { return GenerateElemMat TP([](A a, D x) { rec(a, x, 0, 0, 0, 0, 0); }, r, c); }});
    F.push_back({"matrix, data", 1, false, true, false, [](size_t r, size_t c, size_t, size_t) -> W { return GenerateElemMat TP([](A a, D x, U u) { rec(a, x, 0, 0, 0, u, 0); }, r, c); }});
    F.push_back({"matrix, work arrays, data", 1, true, true, false, [](size_t r, size_t c, size_t w, size_t i) -> W { return GenerateElemMat TP([](A a, D x, D w, I i, U u) { rec(a, x, 0, w, i, u, 0); }, r, c, w, i); }});
    F.push_back({"matrix, work arrays", 1, true, false, false, [](size_t r, size_t c, size_t w, size_t i) -> W { return GenerateElemMat TP([](A a, D x, D w, I i) { rec(a, x, 0, w, i, 0, 0); }, r, c, w, i); }});
    F.push_back({"matrix, work arrays, data, memory", 1, true, true, true, [](size_t r, size_t c, size_t w, size_t i) -> W { return GenerateElemMat TP([](A a, D x, D w, I i, U u, DM* m) { rec(a, x, 0, w, i, u, m); }, r, c, w, i); }});
    F.push_back({"rhs", 2, false, false, false, [](size_t r, size_t, size_t, size_t) -> W { return GenerateElemRhs TP([](A a, D x) { rec(a, x, 0, 0, 0, 0, 0); }, r); }});
    F.push_back({"rhs, data", 2, false, true, false, [](size_t r, size_t, size_t, size_t) -> W { return GenerateElemRhs TP([](A a, D x, U u) { rec(a, x, 0, 0, 0, u, 0); }, r); }});
    F.push_back({"rhs, work arrays, data", 2, true, true, false, [](size_t r, size_t, size_t w, size_t i) -> W { return GenerateElemRhs TP([](A a, D x, D w, I i, U u) { rec(a, x, 0, w, i, u, 0); }, r, w, i); }});
    F.push_back({"rhs, work arrays", 2, true, false, false, [](size_t r, size_t, size_t w, size_t i) -> W { return GenerateElemRhs TP([](A a, D x, D w, I i) { rec(a, x, 0, w, i, 0, 0); }, r, w, i); }});
    F.push_back({"rhs, work arrays, data, memory", 2, true, true, true, [](size_t r, size_t, size_t w, size_t i) -> W { return GenerateElemRhs TP([](A a, D x, D w, I i, U u, DM* m) { rec(a, x, 0, w, i, u, m); }, r, w, i); }});
    for (int ud = 0; ud < 2; ++ud) for (int dm = 0; dm < 2; ++dm) {
        F.push_back({"matrix and rhs, record", 0, true, ud != 0, dm != 0, [ud, dm](size_t r, size_t c, size_t w, size_t i) -> W { return GenerateElemMatRhs TP([](IO x) { rec(x.args, x.res[0], x.res[1], x.w, x.iw, x.user_data, x.allocator); }, r, c, w, i, ud != 0, dm != 0); }});
        F.push_back({"matrix, record", 1, true, ud != 0, dm != 0, [ud, dm](size_t r, size_t c, size_t w, size_t i) -> W { return GenerateElemMat TP([](IO x) { rec(x.args, x.res[0], 0, x.w, x.iw, x.user_data, x.allocator); }, r, c, w, i, ud != 0, dm != 0); }});
        F.push_back({"rhs, record", 2, true, ud != 0, dm != 0, [ud, dm](size_t r, size_t, size_t w, size_t i) -> W { return GenerateElemRhs TP([](IO x) { rec(x.args, x.res[0], 0, x.w, x.iw, x.user_data, x.allocator); }, r, w, i, ud != 0, dm != 0); }}); }
    return F;
}
template <class T> static void probe(T& f, const Form& F, size_t r, size_t c, size_t nw, size_t ni, const std::string& sg) {
    size_t nout = F.kind == 0 ? 2 : 1, a = 99, b = 99, w = 99, i = 99; f.working_sizes(a, b, w, i); if (!F.w) nw = ni = 0; if (F.kind == 2) c = 1;
    MC_REQ(bool(f) && f.isValid() && f.n_in() == 4 && f.n_out() == nout && a == 4 && b == nout && w == nw && i == ni && f.is_user_data_required() == F.ud, sg + "signature", "%s: %d inputs %d outputs, sizes %d %d %d %d instead of 4 %d %d %d", F.name, int(f.n_in()), int(f.n_out()), int(a), int(b), int(w), int(i), int(nout), int(nw), int(ni));
    for (int q = 0; q < 4; ++q) MC_REQ(f.in_size1(q) == 3 && f.in_size2(q) == 1 && f.in_nnz(q) == 3 && f.in_sparsity(q).m_tp == MatSparsityView<>::DENSE, sg + "input", "%s: input %d", F.name, q);
    for (size_t q = 0; q < nout; ++q) { long n = long(r), m = q ? 1 : long(c); auto s = f.out_sparsity(long(q)); MC_REQ(f.out_size1(long(q)) == n && f.out_size2(long(q)) == m && f.out_nnz(long(q)) == n * m && s.m_tp == MatSparsityView<>::DENSE && s.m_nnz == n * m && s.m_sz1 == n && s.m_sz2 == m, sg + "output", "%s: output %d", F.name, int(q)); std::vector<long> ci(m + 1), ro(n * m); f.out_csc(long(q), ci.data(), ro.data()); for (long k = 0; k < n * m; ++k) MC_REQ(ro[k] == k % n, sg + "output", "rows"); for (long k = 0; k <= m; ++k) MC_REQ(ci[k] == k * n, sg + "output", "columns"); }
    const double* args[4]; double x[4][3], A[2], R[2], W0[1]; double* res[2] = {A, R}; long IW[1]; int ud; for (int q = 0; q < 4; ++q) args[q] = x[q];
    auto call = [&](long id, DM*& seen) { L.calls = 0; MC_REQ(f(args, res, W0, IW, &ud, id) == 0 && L.calls == 1, sg + "call", "%s: code of return or number of calls", F.name); seen = L.dm; mc::trans(); mc::checked();
        MC_REQ(L.a == args && L.r0 == A && L.r1 == (F.kind == 0 ? R : nullptr), sg + "call", "%s: inputs or outputs are not passed", F.name); bool rc = strstr(F.name, "record") != nullptr; MC_REQ(L.w == (F.w ? W0 : nullptr) && L.iw == (F.w ? IW : nullptr) && (rc || L.ud == (F.ud ? &ud : nullptr)) && (!F.ud || L.ud == &ud), sg + "call", "%s: work arrays or user data are not passed", F.name);
        MC_REQ((L.dm != nullptr) == (F.dm && id >= 0), sg + "memory", "%s: memory %ld", F.name, id); };
    DM *d0 = 0, *d1 = 0, *d2 = 0; call(-1, d0);
    long i0 = f.setup_and_alloc_memory(), i1 = f.setup_and_alloc_memory(); MC_REQ(i0 >= 0 && i1 >= 0, sg + "memory", "memory was not allocated"); call(i0, d0); call(i1, d1); MC_REQ(!F.dm || d0 != d1, sg + "memory", "%s: two allocations share memory", F.name);
    f.defragment_memory(i0); f.defragment_memory(i1); f.release_memory(i1); long i2 = f.setup_and_alloc_memory(); call(i2, d2); MC_REQ(!F.dm || d2 != d0, sg + "memory", "%s: two allocations share memory", F.name);
    f.release_memory(i0); f.release_memory(i2); auto rg = f.setup_and_alloc_memory_range(3); MC_REQ(rg.second - rg.first == 3, sg + "range", "%s: range [%ld, %ld) of three threads", F.name, rg.first, rg.second); if (F.dm) { std::set<DM*> s; for (long k = rg.first; k < rg.second; ++k) { DM* d; call(k, d); s.insert(d); } MC_REQ(s.size() == 3, sg + "range", "%s: threads share memory", F.name); }
    f.release_memory_range(rg); f.release_all_memory(); long i3 = f.setup_and_alloc_memory(); call(i3, d0); f.release_memory(i3); f.clear_memory(); i3 = f.setup_and_alloc_memory(); call(i3, d0); f.release_all_memory(); f.clear_memory();
}
static void wraps() {
    auto F = forms(); for (size_t q = 0; q < F.size(); ++q) mc::run_case(mc::fmt("wrapper %d: %s", int(q), F[q].name), "wrapper", [&] { std::string sg = "wrapper:"; for (size_t r = 0; r < 4; ++r) for (size_t c = 0; c < 4; ++c) for (size_t w = 0; w < 3; ++w) for (size_t i = 0; i < 3; ++i) { mc::state(); W f = F[q].make(r, c, w, i); probe(f, F[q], r, c, w, i, sg);
        W g(f); probe(g, F[q], r, c, w, i, sg + "copy-"); W h; MC_REQ(!h.isValid() && !bool(h), sg + "empty", "an empty wrapper is valid"); h = f; probe(h, F[q], r, c, w, i, sg + "assigned-"); h = F[(q + 1) % F.size()].make(1, 2, 2, 1); h = f; probe(h, F[q], r, c, w, i, sg + "assigned-"); W k(std::move(g)); probe(k, F[q], r, c, w, i, sg + "moved-"); h = std::move(k); probe(h, F[q], r, c, w, i, sg + "moved-");
        typedef MatFuncWrapHolder<> H; H e; MC_REQ(!e.isValid() && !bool(e), sg + "empty", "an empty holder is valid"); H a(F[q].make(r, c, w, i)); probe(a, F[q], r, c, w, i, sg + "held-"); H b(a); probe(b, F[q], r, c, w, i, sg + "held-"); e = f; probe(e, F[q], r, c, w, i, sg + "held-"); e = F[q].make(r, c, w, i); probe(e, F[q], r, c, w, i, sg + "held-"); H d(std::make_shared<W>(f)); probe(d, F[q], r, c, w, i, sg + "held-"); e = a; probe(e, F[q], r, c, w, i, sg + "held-");
        std::shared_ptr<MatFuncWrap<>> sp = std::make_shared<W>(f); e = sp; probe(e, F[q], r, c, w, i, sg + "held-"); std::ostringstream os; e.print_signature(os); MC_REQ(os.str().find("MatFuncWrap: ") == 0, sg + "print", "signature is not printed"); } });
}
static void body() { patterns<long, double>("long, double"); patterns<int, float>("int, float"); patterns<short, long double>("short, long double"); wraps(); }
MC_MAIN(body)
