// Q01: every rule, every order, every monomial in barycentric coordinates up to the order.
// Reference: the exact simplex moments  |a|! d! / (d+|a|)!  form (integer arithmetic in long double).
#include "mc.h"
#include "anifem++/fem/quadrature_formulas.h"
using namespace mc;
static long double fact(int n) { long double r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; }
template<int D, class Q> static void rule(const char* name, Q (*get)(int), int order) {
    Q q = get(order);
    const int N = D + 1;
    int n = q.GetNumPoints();
    MC_REQ(n > 0 && n == q.num_points && q.GetPointData() == q.p && q.GetWeightData() == q.w, "access", "%s order %d: inconsistent accessors", name, order);
    if (n <= 0) return;
    long double ws = 0;
    for (int i = 0; i < n; ++i) {
        state();
        long double s = 0; bool in = true;
        for (int k = 0; k < N; ++k) { s += q.p[N * i + k]; if (!(q.p[N * i + k] > 0 && q.p[N * i + k] < 1 + (D == 0))) in = false; }
        MC_REQ(std::fabs((double)(s - 1)) < 4e-15, "barycentric", "%s order %d point %d: coordinates sum to 1%+Lg", name, order, i, s - 1);
        MC_REQ(in, "interior", "%s order %d point %d lies outside the element", name, order, i);
        ws += q.w[i];
        auto pw = q.template GetPointWeight<>(i);
        MC_REQ(pw.w == q.w[i], "point-access", "%s order %d point %d: weight accessor", name, order, i);
        for (int k = 0; k < N; ++k) MC_REQ(std::fabs(pw.p[k] - q.p[N * i + k]) < 4e-15, "point-access", "%s order %d point %d: coordinate %d is %g by accessor, %g in table", name, order, i, k, (double)pw.p[k], (double)q.p[N * i + k]);
    }
    MC_REQ(std::fabs((double)(ws - 1)) < 1e-13, "weights", "%s order %d: weights sum to 1%+Lg", name, order, ws - 1);
    // monomials (all exponents of all D+1 barycentric coordinates, total degree <= order)
    int e[4] = {0, 0, 0, 0};
    std::function<void(int, int)> mono = [&](int k, int left) {
        if (k == N) {
            trans();
            long double sum = 0, exact = fact(D);
            int deg = 0;
            for (int i = 0; i < n; ++i) { long double t = q.w[i]; for (int c = 0; c < N; ++c) for (int j = 0; j < e[c]; ++j) t *= q.p[N * i + c]; sum += t; }
            for (int c = 0; c < N; ++c) { exact *= fact(e[c]); deg += e[c]; }
            exact /= fact(D + deg);
            MC_REQ(std::fabs((double)(sum - exact)) < 2e-14 * std::max((long double)1e-1, exact * 10), "exactness", "%s order %d: monomial exponents (%d,%d,%d,%d) integrates to %.17Lg, exact %.17Lg", name, order, e[0], e[1], e[2], e[3], sum, exact);
            return;
        }
        for (e[k] = 0; e[k] <= left; ++e[k]) mono(k + 1, left - e[k]);
        e[k] = 0;
    };
    mono(0, order);
    // declared symmetry: groups of complete orbits, in the order of the partition
    auto sy = q.GetSymmetryPartition();
    if (q.IsSymmetric()) {
        static const int orb1[] = {1, 2}, orb2[] = {1, 3, 6}, orb3[] = {1, 4, 6, 12, 24};
        const int* orb = D == 1 ? orb1 : D == 2 ? orb2 : orb3;
        int tot = 0; for (size_t k = 0; k < sy.size(); ++k) tot += sy[k] * orb[k];
        MC_REQ(tot == n, "symmetry", "%s order %d: partition gives %d points, rule has %d", name, order, tot, n);
        int at = 0;
        if (tot == n) for (size_t k = 0; k < sy.size(); ++k) for (int g = 0; g < sy[k]; ++g) {
            std::vector<std::vector<double>> pts;
            for (int i = at; i < at + orb[k]; ++i) { pts.push_back(std::vector<double>(q.p + N * i, q.p + N * i + N)); MC_REQ(std::fabs(q.w[i] - q.w[at]) < 1e-16, "symmetry", "%s order %d: weights differ inside an orbit (point %d)", name, order, i); }
            // every permutation of the first point is in the group, and every point of the group is a permutation of it
            std::vector<int> pm(N); std::iota(pm.begin(), pm.end(), 0);
            std::vector<int> hit(pts.size(), 0);
            do {
                bool found = false;
                for (size_t j = 0; j < pts.size(); ++j) { bool same = true; for (int c = 0; c < N; ++c) if (std::fabs(pts[j][c] - pts[0][pm[c]]) > 2e-15) same = false; if (same) { found = true; hit[j]++; } }
                MC_REQ(found, "symmetry", "%s order %d: a permutation of point %d is not in its declared orbit of %d", name, order, at, orb[k]);
            } while (std::next_permutation(pm.begin(), pm.end()));
            for (size_t j = 0; j < pts.size(); ++j) MC_REQ(hit[j] > 0, "symmetry", "%s order %d: point %zu is not in the orbit it is declared in", name, order, at + j);
            at += orb[k];
        }
    } else fail("symmetry", fmt("%s order %d: rule is documented as symmetric but declares no symmetry", name, order));
    outcome(mix(mix(n, D), order));
#ifdef WITH_EIGEN
    auto W = q.WeightView(); auto B = q.BaryView();
    MC_REQ(W.size() == n && B.cols() == n && B.rows() == N, "view", "%s order %d: matrix views have wrong sizes", name, order);
    for (int i = 0; i < n && W.size() == n && B.cols() == n; ++i) { bool ok = W[i] == q.w[i]; for (int c = 0; c < N; ++c) ok = ok && B(c, i) == q.p[N * i + c]; MC_REQ(ok, "view", "%s order %d: matrix view differs at point %d", name, order, i); }
#endif
    sample(fmt("%d points, all monomials of degree <= %d exact", n, order));
}
template<class Q> static bool throws(Q (*get)(int), int o) { try { get(o); } catch (const std::exception&) { return true; } return false; }
static void body() {
    for (int o = 0; o <= 21; ++o) run_case(fmt("segment order=%d", o), "segment", [&] { rule<1>("segment", segment_quadrature_formulas, o); });
    for (int o = 0; o <= 20; ++o) run_case(fmt("triangle order=%d", o), "triangle", [&] { rule<2>("triangle", triangle_quadrature_formulas, o); });
    for (int o = 0; o <= 20; ++o) run_case(fmt("tetrahedron order=%d", o), "tetrahedron", [&] { rule<3>("tetrahedron", tetrahedron_quadrature_formulas, o); });
    run_case("range", "range", [&] {
        for (int o : {-2, -1}) { MC_REQ(throws(segment_quadrature_formulas, o) && throws(triangle_quadrature_formulas, o) && throws(tetrahedron_quadrature_formulas, o), "range", "order %d is not rejected", o); state(); trans(3); }
        MC_REQ(throws(segment_quadrature_formulas, 1000) && throws(triangle_quadrature_formulas, 1000) && throws(tetrahedron_quadrature_formulas, 1000), "range", "order 1000 is not rejected");
    });
}
MC_MAIN(body)
