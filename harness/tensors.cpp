// X02: the fixed-size tensor types against plain index arrays.
// A tensor of rank r over dimension N is the array T[i1..ir]; a compressed type stores one entry per class of
// indices identified by its symmetries.  Enumerated: N = 1..4, every index and every storage position, every
// (pair of) basis tensor(s) and generic tensors through every linear and bilinear operation, every matrix with
// entries in a small set (several scales) through determinant / inverse / adjugate, every conversion.
#include "mc.h"
#include "anifem++/autodiff/physical_tensors.h"
using namespace mc; using namespace Ani;
typedef std::vector<double> Full;
typedef std::array<std::size_t, 1> A1; typedef std::array<std::size_t, 2> A2; typedef std::array<std::size_t, 4> A4;
static int ipow(int n, int r) { int p = 1; while (r--) p *= n; return p; }
static double S(int k) { return 0.5 + 0.37 * k - 0.11 * (k % 5) * (k % 7) + (k % 3) * 0.93; }        // generic values

// access to each type as a full array
template<class T> struct TT;
template<std::size_t N> struct TT<PhysArr<N>> { enum { n = N, r = 1, cs = N }; static const char* nm() { return "PhysArr"; } static double at(const PhysArr<N>& t, const int* q) { return t(A1{(size_t)q[0]}); } static void canon(int*) {} };
template<std::size_t N> struct TT<PhysMtx<N>> { enum { n = N, r = 2, cs = N * N }; static const char* nm() { return "PhysMtx"; } static double at(const PhysMtx<N>& t, const int* q) { return t(q[0], q[1]); } static void canon(int*) {} };
template<std::size_t N> struct TT<SymMtx<N>> { enum { n = N, r = 2, cs = N * (N + 1) / 2 }; static const char* nm() { return "SymMtx"; } static double at(const SymMtx<N>& t, const int* q) { return t(q[0], q[1]); } static void canon(int* q) { if (q[0] > q[1]) std::swap(q[0], q[1]); } };
template<std::size_t N> struct TT<Tensor4Rank<N>> { enum { n = N, r = 4, cs = N * N * N * N }; static const char* nm() { return "Tensor4Rank"; } static double at(const Tensor4Rank<N>& t, const int* q) { return t(q[0], q[1], q[2], q[3]); } static void canon(int*) {} };
template<std::size_t N> struct TT<SymTensor4Rank<N>> { enum { n = N, r = 4, cs = N * N * (N * N + 1) / 2 }; static const char* nm() { return "SymTensor4Rank"; } static double at(const SymTensor4Rank<N>& t, const int* q) { return t(q[0], q[1], q[2], q[3]); } static void canon(int* q) { if (q[0] * (int)N + q[1] > q[2] * (int)N + q[3]) std::swap(q[0], q[2]), std::swap(q[1], q[3]); } };
template<std::size_t N> struct TT<BiSymTensor4Rank<N>> { enum { n = N, r = 4, cs = N * (N + 1) / 2 * (N * (N + 1) / 2 + 1) / 2 }; static const char* nm() { return "BiSymTensor4Rank"; } static double at(const BiSymTensor4Rank<N>& t, const int* q) { return t(q[0], q[1], q[2], q[3]); }
    static void canon(int* q) { if (q[0] > q[1]) std::swap(q[0], q[1]); if (q[2] > q[3]) std::swap(q[2], q[3]); if (q[0] * (int)N + q[1] > q[2] * (int)N + q[3]) std::swap(q[0], q[2]), std::swap(q[1], q[3]); } };
template<class T> static std::string nm() { return fmt("%s<%d>", TT<T>::nm(), (int)TT<T>::n); }
template<class T> static void unflat(int f, int* q) { for (int k = TT<T>::r; k--;) { q[k] = f % TT<T>::n; f /= TT<T>::n; } }
template<class T> static int flat(const int* q) { int f = 0; for (int k = 0; k < TT<T>::r; ++k) f = f * TT<T>::n + q[k]; return f; }
template<class T> static Full full(const T& t) { Full x(ipow(TT<T>::n, TT<T>::r)); int q[4]; for (size_t f = 0; f < x.size(); ++f) { unflat<T>((int)f, q); x[f] = TT<T>::at(t, q); } return x; }
template<class T> static bool same(const T& t, const Full& e, const char* op, const std::string& what, double scale = 10) {
    Full x = full(t); checked(); trans();
    for (size_t f = 0; f < x.size(); ++f) if (!(std::fabs(x[f] - e[f]) <= 1e-13 * scale)) { int q[4] = {0, 0, 0, 0}; unflat<T>((int)f, q); fail(nm<T>() + ":" + op, fmt("%s %s: component %d%d%d%d is %.17g, exact %.17g", nm<T>().c_str(), what.c_str(), q[0], q[1], q[2], q[3], x[f], e[f])); return false; }
    return true;
}
// the generic tensors 0..2 and the basis tensors (storage position c): built through the storage
template<class T> static T make(int k) { T t; if (k < 3) for (int c = 0; c < TT<T>::cs; ++c) t[(size_t)c] = S(7 * k + c); else t[(size_t)(k - 3)] = 1; return t; }
template<class T> static int nmake() { return 3 + (TT<T>::cs <= 40 ? (int)TT<T>::cs : 0); }
// ---- storage: index <-> position, symmetric access, iterators
template<class T> struct Sto { static void run() {} };
template<class T> static int idx(const typename T::Index& q, int* r) { for (int k = 0; k < TT<T>::r; ++k) r[k] = (int)q[k]; return 0; }
template<class T, class = void> struct HasIndex { enum { v = 0 }; };
template<class T> struct HasIndex<T, typename std::enable_if<(sizeof(typename T::Index) > 0)>::type> { enum { v = 1 }; };
template<class T, bool H> struct Storage { static void run() {} };
template<class T> static typename T::Index mkidx(const int* q, std::integral_constant<int, 2>) { return typename T::Index((size_t)q[0], (size_t)q[1]); }
template<class T> static typename T::Index mkidx(const int* q, std::integral_constant<int, 4>) { return typename T::Index((size_t)q[0], (size_t)q[1], (size_t)q[2], (size_t)q[3]); }
template<class T> struct Storage<T, true> { static void run() {
    const int cs = TT<T>::cs; int q[4] = {0, 0, 0, 0}; std::string n = nm<T>();
    T t; for (int c = 0; c < cs; ++c) t[(size_t)c] = c + 1;
    for (int c = 0; c < cs; ++c) {
        auto id = T::index(c); idx<T>(id, q); state();
        bool in = true; for (int k = 0; k < TT<T>::r; ++k) in = in && q[k] < TT<T>::n;
        MC_REQ(in, n + ":index", "%s::index(%d) is out of range", n.c_str(), c); if (!in) continue;
        MC_REQ((int)T::continuous_index(id) == c, n + ":index", "%s: position %d has index %d%d%d%d, whose position is %d", n.c_str(), c, q[0], q[1], q[2], q[3], (int)T::continuous_index(id));
        MC_REQ(t[id] == c + 1 && TT<T>::at(t, q) == c + 1, n + ":index", "%s: element at index %d%d%d%d is not the one stored at position %d", n.c_str(), q[0], q[1], q[2], q[3], c);
        auto it = t.begin() + c; auto cit = t.cbegin() + c;
        int p[4]; idx<T>(it.index(), p);
        MC_REQ(std::equal(q, q + TT<T>::r, p) && (int)it.continuous_index() == c && *it == c + 1 && *cit == c + 1 && it.operator->() == &t[(size_t)c], n + ":iterator", "%s: iterator at position %d does not denote the element there", n.c_str(), c);
        for (int d = 0; d < cs; ++d) {
            auto jt = t.begin() + d;
            MC_REQ((it - jt) == c - d, n + ":iterator", "%s: distance between iterators at %d and %d is %ld", n.c_str(), c, d, (long)(it - jt));
            if (c - d >= 0 || true) { MC_REQ(jt[c - d] == c + 1, n + ":iterator", "%s: iterator at %d indexed by %d gives another element", n.c_str(), d, c - d); }
            MC_REQ((it < jt) == (c < d) && (it > jt) == (c > d) && (it <= jt) == (c <= d) && (it >= jt) == (c >= d) && (it == jt) == (c == d) && (it != jt) == (c != d), n + ":iterator", "%s: iterators at %d and %d compare wrongly", n.c_str(), c, d);
            auto k = it; k += d - c; MC_REQ(k == jt, n + ":iterator", "%s: advancing an iterator from %d to %d", n.c_str(), c, d); k = it; k -= c - d; MC_REQ(k == jt && (it - (c - d)) == jt && ((d - c) + it) == jt, n + ":iterator", "%s: moving an iterator from %d to %d", n.c_str(), c, d);
        }
        auto k = it; auto old = k++; MC_REQ(old == it && (k - it) == 1, n + ":iterator", "%s: postfix increment at %d", n.c_str(), c); auto b = k--; MC_REQ(k == it && (b - k) == 1 && &*++k == &t[(size_t)c] + 1 && --k == it, n + ":iterator", "%s: decrement at %d", n.c_str(), c);
    }
    MC_REQ((int)(t.end() - t.begin()) == cs && (int)t.continuous_size() == cs && (int)std::distance(t.cbegin(), t.cend()) == cs && (int)t.rank() == TT<T>::r, n + ":size", "%s: size of the storage", n.c_str());
    Full dup(cs, 0); Full e = full(t);
    for (size_t f = 0; f < e.size(); ++f) {
        unflat<T>((int)f, q); int m[4]; std::copy(q, q + 4, m); TT<T>::canon(m);
        int c = (int)T::continuous_index(mkidx<T>(q, std::integral_constant<int, TT<T>::r>())); state();
        MC_REQ(c >= 0 && c < cs && c == (int)T::continuous_index(mkidx<T>(m, std::integral_constant<int, TT<T>::r>())) && e[f] == c + 1, n + ":symmetry", "%s: index %d%d%d%d has position %d, differing from its symmetric image", n.c_str(), q[0], q[1], q[2], q[3], c);
        if (c >= 0 && c < cs) dup[c]++;
    }
    for (int c = 0; c < cs; ++c) MC_REQ((int)t.index_duplication(c) == (int)dup[c] && dup[c] > 0, n + ":duplication", "%s: position %d stands for %d index tuples, index_duplication says %d", n.c_str(), c, (int)dup[c], (int)t.index_duplication(c));
} };
template<class T> static void linear() {
    Full a, b, e; std::string n = nm<T>();
    if (HasIndex<T>::v) Storage<T, HasIndex<T>::v>::run();
    MC_REQ((int)T().continuous_size() == TT<T>::cs && (int)T().rank() == TT<T>::r, n + ":size", "%s: size or rank", n.c_str());
    same(T(), Full(ipow(TT<T>::n, TT<T>::r), 0.), "zero", "default constructed");
    for (int i = 0; i < nmake<T>(); ++i) {
        const T x = make<T>(i); a = full(x); state();
        { double s = 0; for (double v : a) s += v * v; MC_REQ(std::fabs(x.SquareFrobNorm() - s) <= 1e-11 * (1 + s), n + ":norm", "%s: squared norm is %.17g, exact %.17g", n.c_str(), x.SquareFrobNorm(), s); }
        auto un = [&](const T& r, const char* op, double c) { e = a; for (double& v : e) v *= c; same(r, e, op, op); };
        un(-x, "neg", -1); un(x * 1.7, "scale", 1.7); un(1.7 * x, "scale", 1.7); un(x / 1.6, "div", 1 / 1.6);
        { T y(x); y *= -2.3; un(y, "scale", -2.3); y = x; y /= 0.7; un(y, "div", 1 / 0.7); same(x, a, "const", "operand after the operations"); }
        for (int j = 0; j < nmake<T>(); ++j) {
            const T y = make<T>(j); b = full(y); trans();
            double s = 0; for (size_t k = 0; k < a.size(); ++k) s += a[k] * b[k];
            MC_REQ(std::fabs(x.Dot(y) - s) <= 1e-11 * (1 + std::fabs(s)), n + ":dot", "%s: contraction of tensors %d and %d is %.17g, exact %.17g", n.c_str(), i, j, x.Dot(y), s);
            e = a; for (size_t k = 0; k < a.size(); ++k) e[k] += b[k]; same(x + y, e, "plus", "sum"); { T z(x); z += y; same(z, e, "plus", "+="); }
            e = a; for (size_t k = 0; k < a.size(); ++k) e[k] -= b[k]; same(x - y, e, "minus", "difference"); { T z(x); z -= y; same(z, e, "minus", "-="); T w(x); w -= w; e.assign(e.size(), 0.); same(w, e, "minus", "x -= x"); }
        }
    }
}
// tensor squares / symmetrised products: R built from vectors or matrices
template<class R, class V> static void products() {
    std::string n = nm<R>();
    for (int i = 0; i < nmake<V>(); ++i) { V x = make<V>(i); Full a = full(x), e(a.size() * a.size());
        for (size_t p = 0; p < a.size(); ++p) for (size_t q = 0; q < a.size(); ++q) e[p * a.size() + q] = a[p] * a[q];
        state(); same(R::TensorSquare(x), e, "square", fmt("TensorSquare of %s number %d", nm<V>().c_str(), i));
        for (int j = 0; j < nmake<V>(); ++j) { V y = make<V>(j); Full b = full(y);
            for (size_t p = 0; p < a.size(); ++p) for (size_t q = 0; q < a.size(); ++q) e[p * a.size() + q] = a[p] * b[q] + b[p] * a[q];
            same(R::TensorSymMul2(x, y), e, "symmul", fmt("TensorSymMul2 of %s numbers %d, %d", nm<V>().c_str(), i, j)); } }
}
template<class T, class U> static void conv(bool sym_from_general = false) {        // T <-> U carrying the same tensor
    for (int i = 0; i < nmake<T>(); ++i) { T x = make<T>(i); Full a = full(x); state();
        U y = tensor_convert<U>(x); same(y, a, "convert", fmt("converted from %s number %d", nm<T>().c_str(), i)); }
    (void)sym_from_general;
}
template<class T, class A> static void flatten() {                                  // T <-> plain array: storage order, there and back
    for (int i = 0; i < nmake<T>(); ++i) { T x = make<T>(i); auto y = tensor_convert<A>(x); bool ok = true; for (int c = 0; c < TT<T>::cs; ++c) ok = ok && y[c] == x[(size_t)c]; checked(); trans();
        if (!ok) fail(nm<T>() + ":convert", fmt("%s number %d as a plain array is not its storage", nm<T>().c_str(), i));
        T z = tensor_convert<T>(y); same(z, full(x), "convert", "converted to a plain array and back"); }
}
template<int N> static Full mulm(const Full& a, const Full& b) { Full e(N * N, 0); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) for (int k = 0; k < N; ++k) e[i * N + j] += a[i * N + k] * b[k * N + j]; return e; }
template<std::size_t N> static void matrices() {
    typedef PhysMtx<N> P; typedef SymMtx<N> Q; typedef PhysArr<N> V;
    std::string np = nm<P>(), nq = nm<Q>();
    auto vec = [&](const std::string& n, const Full& a, const V& v, const V& r, const std::array<double, N>& r2) { for (size_t i = 0; i < N; ++i) { double s = 0; for (size_t j = 0; j < N; ++j) s += a[i * N + j] * v[j]; MC_REQ(std::fabs(r[i] - s) < 1e-12 && std::fabs(r2[i] - s) < 1e-12, n + ":mul", "%s: matrix by vector, component %d is %g / %g, exact %g", n.c_str(), (int)i, r[i], r2[i], s); } };
    { P p = P::Identity(1.5); Q q = Q::Identity(1.5); Full e(N * N, 0); for (size_t i = 0; i < N; ++i) e[i * N + i] = 1.5; same(p, e, "identity", "Identity(1.5)"); same(q, e, "identity", "Identity(1.5)"); }
    for (int i = 0; i < nmake<P>(); ++i) {
        P x = make<P>(i); Full a = full(x), e(N * N); state();
        for (size_t r = 0; r < N; ++r) for (size_t c = 0; c < N; ++c) e[c * N + r] = a[r * N + c]; same(x.Transpose(), e, "transpose", "transposed");
        same(P(a.data(), true), a, "construct", "built from row-major data"); { Full cm = e; same(P(cm.data(), false), a, "construct", "built from column-major data"); }
        { std::array<double, N * N> d; std::copy(a.begin(), a.end(), d.begin()); same(P(d), a, "construct", "built from an array"); }
        for (size_t r = 0; r < N; ++r) for (size_t c = 0; c < N; ++c) e[r * N + c] = (a[r * N + c] + a[c * N + r]) / 2; same(x.Sym(), e, "sym", "symmetric part");
        double tr = 0; for (size_t r = 0; r < N; ++r) tr += a[r * N + r]; MC_REQ(std::fabs(x.Trace() - tr) < 1e-12, np + ":trace", "%s: trace is %g, exact %g", np.c_str(), x.Trace(), tr);
        for (size_t r = 0; r < N; ++r) for (size_t c = 0; c < N; ++c) { P z(x); z(r, c) = 77; z(A1{r}, A1{c}) += 1; z(A2{{r, c}}) += 1; Full f = a; f[r * N + c] = 79; same(z, f, "access", "after writing one element"); }
        for (int k = 0; k < nmake<V>(); ++k) { V v = make<V>(k); std::array<double, N> w = v; vec(np, a, v, x.Mul(v), x.Mul(w));
            for (int l = 0; l < nmake<V>(); ++l) { V s = make<V>(l); double d = 0; for (size_t r = 0; r < N; ++r) for (size_t c = 0; c < N; ++c) d += a[r * N + c] * v[r] * s[c]; MC_REQ(std::fabs(x.Dot(v, s) - d) < 1e-11, np + ":form", "%s: v.A s is %g, exact %g", np.c_str(), x.Dot(v, s), d); } }
        for (int j = 0; j < nmake<P>(); ++j) { P y = make<P>(j); same(x * y, mulm<N>(a, full(y)), "product", fmt("product of numbers %d, %d", i, j), 100); }
        for (int j = 0; j < nmake<Q>(); ++j) { Q y = make<Q>(j); Full b = full(y);
            same(x * y, mulm<N>(a, b), "product-sym", fmt("product of matrix %d and symmetric %d", i, j), 100); same(y * x, mulm<N>(b, a), "product-sym", fmt("product of symmetric %d and matrix %d", j, i), 100);
            for (size_t k = 0; k < e.size(); ++k) e[k] = a[k] + b[k]; same(x + y, e, "sum-sym", "matrix plus symmetric"); same(y + x, e, "sum-sym", "symmetric plus matrix");
            for (size_t k = 0; k < e.size(); ++k) e[k] = a[k] - b[k]; same(x - y, e, "sum-sym", "matrix minus symmetric"); for (double& v : e) v = -v; same(y - x, e, "sum-sym", "symmetric minus matrix"); }
        std::stringstream s; s << x; for (size_t f = 0; f < N * N; ++f) { double v = 1e99; s >> v; MC_REQ(std::fabs(v - a[f]) < 1e-4, np + ":print", "%s: printed entry %d is %g, exact %g", np.c_str(), (int)f, v, a[f]); }
    }
    for (int i = 0; i < nmake<Q>(); ++i) {
        Q x = make<Q>(i); Full a = full(x); state();
        same(P(x), a, "construct", "built from the symmetric matrix"); same(x.Transpose(), a, "transpose", "transposed");
        double tr = 0; for (size_t r = 0; r < N; ++r) tr += a[r * N + r]; MC_REQ(std::fabs(x.Trace() - tr) < 1e-12, nq + ":trace", "%s: trace is %g, exact %g", nq.c_str(), x.Trace(), tr);
        for (size_t r = 0; r < N; ++r) for (size_t c = 0; c < N; ++c) { Q z(x); z(r, c) = 77; z(A1{r}, A1{c}) += 1; z(A2{{r, c}}) += 1; Full f = a; f[r * N + c] = f[c * N + r] = 79; same(z, f, "access", "after writing one element"); }
        for (int k = 0; k < nmake<V>(); ++k) { V v = make<V>(k); std::array<double, N> w = v; vec(nq, a, v, x.Mul(v), x.Mul(w));
            for (int l = 0; l < nmake<V>(); ++l) { V s = make<V>(l); double d = 0; for (size_t r = 0; r < N; ++r) for (size_t c = 0; c < N; ++c) d += a[r * N + c] * v[r] * s[c]; MC_REQ(std::fabs(x.Dot(v, s) - d) < 1e-11, nq + ":form", "%s: v.A s is %g, exact %g", nq.c_str(), x.Dot(v, s), d); } }
        // the product is representable when the factors commute: powers, multiples of the identity, diagonal matrices
        same(x * x, mulm<N>(a, a), "product", "square", 100);
        { Q y = x; y += Q::Identity(0.7); same(x * y, mulm<N>(a, full(y)), "product", "product with a shifted copy", 100); Q z(x * x); same(z * x, mulm<N>(full(z), a), "product", "cube", 1000); }
        { Q d1, d2; for (size_t k = 0; k < N; ++k) d1(k, k) = S((int)k), d2(k, k) = S((int)k + 9); same(d1 * d2, mulm<N>(full(d1), full(d2)), "product", "product of diagonal matrices", 100); }
        std::stringstream s; s << x; for (size_t f = 0; f < N * N; ++f) { double v = 1e99; s >> v; MC_REQ(std::fabs(v - a[f]) < 1e-4, nq + ":print", "%s: printed entry %d is %g, exact %g", nq.c_str(), (int)f, v, a[f]); }
    }
    for (int i = 0; i < nmake<V>(); ++i) for (int j = 0; j < nmake<V>(); ++j) { V x = make<V>(i), y = make<V>(j); double d = 0; for (size_t k = 0; k < N; ++k) d += x[k] * y[k]; MC_REQ(std::fabs(x.Dot(y) - d) < 1e-12, "PhysArr:dot", "vector product is %g, exact %g", x.Dot(y), d); }
    for (size_t cnt = 0; cnt <= 5; ++cnt) { double v[5] = {1, 2, 3, 4, 5}; V x = cnt == 0 ? V{} : cnt == 1 ? V({v[0]}) : cnt == 2 ? V({v[0], v[1]}) : cnt == 3 ? V({v[0], v[1], v[2]}) : cnt == 4 ? V({v[0], v[1], v[2], v[3]}) : V({v[0], v[1], v[2], v[3], v[4]});
        for (size_t k = 0; k < N; ++k) MC_REQ(x[k] == (k < cnt ? k + 1. : 0.), "PhysArr:construct", "vector of dimension %d built from %d numbers: component %d is %g", (int)N, (int)cnt, (int)k, x[k]); }
}
template<std::size_t N> static void packed(std::true_type) {         // the two documented packings of a symmetric matrix (general dimension)
    std::array<double, N * (N + 1) / 2> d; for (size_t k = 0; k < d.size(); ++k) d[k] = S((int)k); Full e(N * N);
    size_t k = 0; for (size_t i = 0; i < N; ++i) for (size_t j = i; j < N; ++j) e[i * N + j] = e[j * N + i] = d[k++]; same(SymMtx<N>(d, true), e, "construct", "built from packed upper rows"); same(SymMtx<N>(d), e, "construct", "built from packed upper rows");
    k = 0; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j <= i; ++j) e[i * N + j] = e[j * N + i] = d[k++]; same(SymMtx<N>(d, false), e, "construct", "built from packed lower rows");
}
template<std::size_t N> static void packed(std::false_type) {}
// ---- determinant, adjugate, inverse
static long idet(const std::vector<int>& m, int n) {        // exact, by expansion
    if (n == 1) return m[0]; long s = 0;
    for (int c = 0; c < n; ++c) if (m[c]) { std::vector<int> w; for (int i = 1; i < n; ++i) for (int j = 0; j < n; ++j) if (j != c) w.push_back(m[i * n + j]); s += (c % 2 ? -1 : 1) * (long)m[c] * idet(w, n - 1); }
    return s;
}
static std::string show(const std::vector<int>& m) { std::string s; for (int v : m) s += fmt("%d ", v); return s; }
template<class M, std::size_t N> static void adj(const M&, const std::vector<int>&, double, std::false_type) {}
template<class M, std::size_t N> static void adj(const M& x, const std::vector<int>& m, double sc, std::true_type) {
    auto a = x.Adj(); Full p = mulm<3>(full(x), full(a)); long d = idet(m, 3);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) MC_REQ(std::fabs(p[3 * i + j] / (sc * sc * sc) - (i == j ? d : 0)) < 1e-10, nm<M>() + ":adjugate", "%s: matrix times adjugate of %s at scale %g: entry %d%d is %g", nm<M>().c_str(), show(m).c_str(), sc, i, j, p[3 * i + j]);
}
template<class M, std::size_t N> static void detinv(const std::vector<int>& m, double sc) {
    M x; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) x(i, j) = sc * m[i * N + j];
    double s = std::pow(sc, (int)N); long d = idet(m, N); state(); trans(2);
    MC_REQ(std::fabs(x.Det() / s - d) <= 1e-11 * (1 + std::labs(d)), nm<M>() + ":determinant", "%s: determinant of %stimes %g is %.17g, exact %.17g", nm<M>().c_str(), show(m).c_str(), sc, x.Det(), d * s);
    adj<M, N>(x, m, sc, std::integral_constant<bool, N == 3>());
    if (d) { auto iv = x.Inv(); Full p = mulm<N>(full(x), full(iv)); bool ok = true; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) ok = ok && std::fabs(p[i * N + j] - (i == j)) < 1e-10; checked(); if (!ok) fail(nm<M>() + ":inverse", fmt("%s: inverse of %stimes %g is wrong", nm<M>().c_str(), show(m).c_str(), sc)); }
}
template<std::size_t N> static void dets(const char* name, const std::vector<int>& gen, const std::vector<int>& sym) {
    static const double SC[] = {1, 1e-9, 1e15, 0.3};
    auto go = [&](bool s, const std::vector<int>& dg) {
        int free = s ? N * (N + 1) / 2 : N * N; uint64_t tot = 1; for (int k = 0; k < free; ++k) tot *= dg.size();
        uint64_t blk = 2048;
        for (uint64_t b = 0; b < tot; b += blk) run_case(fmt("%s %s det %llu", name, s ? "symmetric" : "general", (unsigned long long)b), "det", [&] {
            std::vector<int> m(N * N), v(free);
            for (uint64_t c = b; c < std::min(tot, b + blk); ++c) { uint64_t r = c; for (int k = 0; k < free; ++k) { v[k] = dg[r % dg.size()]; r /= dg.size(); }
                if (s) { int k = 0; for (size_t i = 0; i < N; ++i) for (size_t j = i; j < N; ++j) m[i * N + j] = m[j * N + i] = v[k++]; } else m = v;
                for (double sc : SC) { if (N == 4 && sc != 1 && sc != 1e15 && !thorough()) continue; if (s) detinv<SymMtx<N>, N>(m, sc); detinv<PhysMtx<N>, N>(m, sc); } }
        });
    };
    go(true, sym); go(false, gen);
}
template<std::size_t N> static void dim() {
    auto C = [&](const char* w, void (*f)()) { run_case(fmt("N=%d %s", (int)N, w), w, [&] { f(); }); };
    C("PhysArr", linear<PhysArr<N>>); C("PhysMtx", linear<PhysMtx<N>>); C("SymMtx", linear<SymMtx<N>>); C("Tensor4", linear<Tensor4Rank<N>>); C("SymTensor4", linear<SymTensor4Rank<N>>); C("BiSymTensor4", linear<BiSymTensor4Rank<N>>);
    C("products SymMtx", products<SymMtx<N>, PhysArr<N>>); C("products PhysMtx", products<PhysMtx<N>, PhysArr<N>>);
    C("products Tensor4", products<Tensor4Rank<N>, PhysMtx<N>>); C("products Tensor4 sym", products<Tensor4Rank<N>, SymMtx<N>>);
    C("products SymTensor4", products<SymTensor4Rank<N>, PhysMtx<N>>); C("products SymTensor4 sym", products<SymTensor4Rank<N>, SymMtx<N>>); C("products BiSymTensor4", products<BiSymTensor4Rank<N>, SymMtx<N>>);
    C("matrices", matrices<N>);
    run_case(fmt("N=%d packed", (int)N), "packed", [&] { packed<N>(std::integral_constant<bool, N != 3>()); });
    C("convert identity", [] { conv<PhysArr<N>, PhysArr<N>>(); conv<PhysMtx<N>, PhysMtx<N>>(); conv<SymMtx<N>, SymMtx<N>>(); conv<BiSymTensor4Rank<N>, BiSymTensor4Rank<N>>(); conv<SymTensor4Rank<N>, SymTensor4Rank<N>>(); });
    C("convert matrices", [] { conv<SymMtx<N>, PhysMtx<N>>(); for (int i = 0; i < nmake<SymMtx<N>>(); ++i) { auto x = make<SymMtx<N>>(i); same(tensor_convert<SymMtx<N>>(PhysMtx<N>(x)), full(x), "convert", "converted to a matrix and back"); } });
    C("convert tensors", [] { conv<SymTensor4Rank<N>, Tensor4Rank<N>>(); conv<BiSymTensor4Rank<N>, Tensor4Rank<N>>(); conv<BiSymTensor4Rank<N>, SymTensor4Rank<N>>();
        for (int i = 0; i < nmake<BiSymTensor4Rank<N>>(); ++i) { auto x = make<BiSymTensor4Rank<N>>(i); same(tensor_convert<BiSymTensor4Rank<N>>(tensor_convert<Tensor4Rank<N>>(x)), full(x), "convert", "there and back"); same(tensor_convert<BiSymTensor4Rank<N>>(tensor_convert<SymTensor4Rank<N>>(x)), full(x), "convert", "there and back"); }
        for (int i = 0; i < nmake<SymTensor4Rank<N>>(); ++i) { auto x = make<SymTensor4Rank<N>>(i); same(tensor_convert<SymTensor4Rank<N>>(tensor_convert<Tensor4Rank<N>>(x)), full(x), "convert", "there and back"); } });
}
template<std::size_t N> static void dim2() {
    auto C = [&](const char* w, void (*f)()) { run_case(fmt("N=%d %s", (int)N, w), w, [&] { f(); }); };
    C("convert arrays", [] { flatten<PhysMtx<N>, PhysArr<N * N>>(); flatten<SymMtx<N>, PhysArr<N * (N + 1) / 2>>(); flatten<Tensor4Rank<N>, PhysArr<N * N * N * N>>(); flatten<SymTensor4Rank<N>, PhysArr<N * N * (N * N + 1) / 2>>(); flatten<BiSymTensor4Rank<N>, PhysArr<N * (N + 1) / 2 * (N * (N + 1) / 2 + 1) / 2>>();
        for (int i = 0; i < nmake<SymMtx<N>>(); ++i) { auto x = make<SymMtx<N>>(i); auto y = tensor_convert<PhysArr<N * N>>(x); Full a = full(x); bool ok = true; for (size_t k = 0; k < N * N; ++k) ok = ok && y[k] == a[k]; MC_REQ(ok, "SymMtx:convert", "symmetric matrix as a full array"); same(tensor_convert<SymMtx<N>>(y), a, "convert", "full array and back"); }
        for (int i = 0; i < nmake<BiSymTensor4Rank<N>>(); ++i) { auto x = make<BiSymTensor4Rank<N>>(i); auto y = tensor_convert<SymMtx<N * (N + 1) / 2>>(x);     // Voigt matrix: rows and columns are the packed index pairs
            for (size_t I = 0; I < N * (N + 1) / 2; ++I) for (size_t J = 0; J < N * (N + 1) / 2; ++J) { auto p = SymMtx<N>::index(I), q = SymMtx<N>::index(J); MC_REQ(y(I, J) == x(p.i, p.j, q.i, q.j), "BiSymTensor4Rank:convert", "as a matrix over index pairs: entry %d,%d", (int)I, (int)J); }
            same(tensor_convert<BiSymTensor4Rank<N>>(y), full(x), "convert", "matrix over index pairs and back"); } });
}
static void body() {
    dim<1>(); dim<2>(); dim<3>(); dim<4>(); dim2<2>(); dim2<3>(); dim2<4>();
    run_case("identity tensor", "identity", [] { auto t = BiSymTensor4Rank<3>::Identity(3.); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) MC_REQ(t(i, j, k, l) == 1.5 * ((i == k && j == l) + (i == l && j == k)), "BiSymTensor4Rank<3>:identity", "component %d%d%d%d of the identity is %g", i, j, k, l, t(i, j, k, l)); });
    std::vector<int> d5{-2, -1, 0, 1, 3}, d3{-1, 0, 1}, d2{0, 1}, dm{-1, 1};
    dets<1>("N=1", d5, d5); dets<2>("N=2", d5, d5); dets<3>("N=3", d3, d5); dets<4>("N=4", d2, d3);
}
MC_MAIN(body)
