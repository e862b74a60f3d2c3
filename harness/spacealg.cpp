// F03: the algebra of spaces - counts, dimensions, orders and numbering of products, powers, unions, copies and parts; equality of spaces and operators.
#define DOFMAP_NO_MAIN
#include "dofmap.cpp"
#include "femtypes.h"
#include "femop_common.h"
using ref::RSp;
typedef std::vector<int> Path;
// numbering that a tree dictates
static N num_of(const RSp& s) {
    std::array<unsigned, 16> a{};
    switch (s.kind) {
        case ref::FIX: switch (s.fix) { case FEM_P0: case FEM_B4: a[11] = 1; break; case FEM_P1: a[0] = 1; break; case FEM_P2: a[0] = a[1] = 1; break; case FEM_P3: a[0] = a[2] = a[5] = 1; break;
            case FEM_RT0: a[8] = 1; break; case FEM_ND0: a[3] = 1; break; case FEM_CR1: a[5] = 1; break; case FEM_B2: a[1] = 1; break; default: throw std::runtime_error("?"); }
            return N::Sym(s.name().c_str(), a);
        case ref::VEC: return N::Vec(s.k, num_of(s.ch[0]));
        default: { std::vector<N> c; for (auto& x : s.ch) c.push_back(num_of(x)); return N::Com(c); }
    }
}
static bool same(const RSp& a, const RSp& b) { if (a.kind != b.kind || a.ch.size() != b.ch.size()) return false; if (a.kind == ref::FIX && a.fix != b.fix) return false; if (a.kind == ref::VEC && a.k != b.k) return false; for (size_t i = 0; i < a.ch.size(); ++i) if (!same(a.ch[i], b.ch[i])) return false; return true; }
// the space with exactly this tree, from fresh objects
static FemSpace build(const RSp& s) {
    std::vector<FemSpace> c; for (auto& x : s.ch) c.push_back(build(x));
    switch (s.kind) { case ref::FIX: return ref::run_space(s); case ref::VEC: return c[0] ^ s.k; case ref::COM: return make_complex_raw(c); default: return make_union_raw(c); }
}
static RSp Fi(int f) { return RSp::Fix(f); }
static const std::vector<int>& fixes() { static std::vector<int> f{FEM_P0, FEM_P1, FEM_P2, FEM_P3, FEM_RT0, FEM_ND0, FEM_CR1, FEM_B2, FEM_B4}; return f; }
static std::vector<RSp> unions() {
    auto V = [](int k, int f) { return RSp::Vec(k, Fi(f)); }; auto U = [](std::vector<RSp> c) { return RSp::Uni(c); };
    return {U({Fi(FEM_P1), Fi(FEM_B4)}), U({Fi(FEM_B4), Fi(FEM_P1)}), U({Fi(FEM_P2), Fi(FEM_B4)}), U({Fi(FEM_P1), Fi(FEM_B2)}), U({Fi(FEM_P1), Fi(FEM_B2), Fi(FEM_B4)}), U({Fi(FEM_CR1), Fi(FEM_B4)}), U({Fi(FEM_P0), Fi(FEM_B4)}), U({Fi(FEM_P3), Fi(FEM_B4)}),
        U({V(3, FEM_P1), V(3, FEM_B4)}), U({V(2, FEM_P1), V(2, FEM_B4)}), U({Fi(FEM_RT0), V(3, FEM_B4)}), U({Fi(FEM_ND0), V(3, FEM_B4)}), U({RSp::Com({Fi(FEM_P1), Fi(FEM_P0)}), V(2, FEM_B4)}), U({Fi(FEM_P1)}), U({U({Fi(FEM_P1), Fi(FEM_B2)}), Fi(FEM_B4)}), U({Fi(FEM_P1), U({Fi(FEM_B2), Fi(FEM_B4)})})};
}
static const std::vector<RSp>& all_spaces() {
    static std::vector<RSp> v; if (!v.empty()) return v;
    auto U = unions(); std::vector<RSp> L; for (int f : fixes()) L.push_back(Fi(f));
    v = L; for (auto& u : U) v.push_back(u);
    for (auto& l : L) for (int k = 1; k <= 4; ++k) v.push_back(RSp::Vec(k, l));
    for (auto& u : U) for (int k = 1; k <= 3; ++k) v.push_back(RSp::Vec(k, u));
    for (auto& l : L) v.push_back(RSp::Vec(2, RSp::Vec(3, l))), v.push_back(RSp::Vec(3, RSp::Vec(2, l))), v.push_back(RSp::Com({l})), v.push_back(RSp::Com({RSp::Com({l})})), v.push_back(RSp::Com({RSp::Vec(3, l), l, RSp::Vec(2, l)}));
    for (auto& a : L) for (auto& b : L) { v.push_back(RSp::Com({a, b})); v.push_back(RSp::Com({RSp::Vec(3, a), b})); v.push_back(RSp::Vec(2, RSp::Com({a, b}))); v.push_back(RSp::Com({a, RSp::Com({b, a})})); v.push_back(RSp::Com({RSp::Com({a, b}), RSp::Com({b, a})})); }
    for (auto& u : U) for (auto& b : {L[1], L[4], L[0]}) { v.push_back(RSp::Com({u, b})); v.push_back(RSp::Com({b, RSp::Vec(2, u), b})); v.push_back(RSp::Vec(2, RSp::Com({u, b}))); }
    int m = mc::thorough() ? 9 : 5; static const int sub[] = {1, 4, 0, 2, 8, 5, 3, 6, 7};
    for (int a = 0; a < m; ++a) for (int b = 0; b < m; ++b) for (int c = 0; c < m; ++c) { auto &A = L[sub[a]], &B = L[sub[b]], &C = L[sub[c]]; v.push_back(RSp::Com({A, B, C})); v.push_back(RSp::Com({RSp::Com({A, B}), C})); v.push_back(RSp::Com({A, RSp::Vec(2, RSp::Com({B, RSp::Vec(2, C)}))})); }
    return v;
}
static void paths(const RSp& s, Path p, std::vector<std::pair<Path, const RSp*>>& out) {
    out.push_back({p, &s}); int n = s.kind == ref::VEC ? s.k : s.ch.size();
    for (int i = 0; i < n; ++i) { auto q = p; q.push_back(i); paths(s.ch[s.kind == ref::VEC ? 0 : i], q, out); }
}
static std::string tname(const RSp& s) { std::string r; switch (s.kind) { case ref::FIX: return ref::run_space(s).typeName(); case ref::VEC: return "Vector(" + std::to_string(s.k) + ", " + tname(s.ch[0]) + ")"; default: r = s.kind == ref::COM ? "Complex(" : "Union("; for (size_t i = 0; i < s.ch.size(); ++i) r += (i ? ", " : "") + tname(s.ch[i]); return r + ")"; } }
static BaseFemSpace::BaseTypes kind_of(const RSp& s) { typedef BaseFemSpace::BaseTypes B; return s.kind == ref::FIX ? B::UniteType : s.kind == ref::VEC ? B::VectorType : s.kind == ref::COM ? B::ComplexType : B::UnionType; }
static const char* kn(const RSp& s) { return s.kind == ref::FIX ? "leaf" : s.kind == ref::VEC ? "power" : s.kind == ref::COM ? "product" : "union"; }
static std::string S(const char* w, const RSp& s) { return std::string(w) + ":" + kn(s); }
static const OperatorType OPS[] = {IDEN, GRAD, DIV, CURL, DUDX, DUDY, DUDZ};
static bool has_op(const RSp& s, int op) { return (op != DIV && op != CURL) || s.dim() == 3; }
// everything a space is made of
static void is_space(const RSp& s, const FemSpace& x, const std::string& w) {
    if (!mc::require(x.isValid(), S("valid", s), w + ": no space")) return;
    mc::state();
    MC_REQ(x.gatherType() == kind_of(s), S("kind", s), "%s: kind %d", w.c_str(), (int)x.gatherType());
    MC_REQ((int)x.dim() == s.dim(), S("dim", s), "%s: dimension %u, expected %d", w.c_str(), x.dim(), s.dim());
    MC_REQ((int)x.order() == s.deg(), S("order", s), "%s: order %u, expected %d", w.c_str(), x.order(), s.deg());
    MC_REQ((int)x.dofMap().NumDofOnTet() == s.nfa(), S("count", s), "%s: %u degrees of freedom, expected %d", w.c_str(), x.dofMap().NumDofOnTet(), s.nfa());
    MC_REQ(x.typeName() == tname(s), S("name", s), "%s: named %s, expected %s", w.c_str(), x.typeName().c_str(), tname(s).c_str());
    for (auto op : OPS) { if (!has_op(s, op)) continue; int d = ref::op_dim(op, s.dim()), o = ref::op_deg(op, s); auto a = x.getOP(op); auto b = x.getOP_own(op); ApplyOpFromSpaceView a2; ApplyOpFromSpace b2; a2.Init(op, x.base().get()); b2.Init(op, x);
        MC_REQ((int)x.dimOP(op) == d && (int)a.Dim() == d && (int)b.Dim() == d && (int)a2.Dim() == d && (int)b2.Dim() == d, S("op-dim", s), "%s: %s: dimension %u / %u / %u, expected %d", w.c_str(), ref::op_name(op), x.dimOP(op), a.Dim(), b.Dim(), d);
        MC_REQ((int)a.Nfa() == s.nfa() && (int)b.Nfa() == s.nfa() && (int)a2.Nfa() == s.nfa() && (int)b2.Nfa() == s.nfa(), S("op-count", s), "%s: %s: %u / %u functions, expected %d", w.c_str(), ref::op_name(op), a.Nfa(), b.Nfa(), s.nfa());
        bool zero_deriv = (op == DIV || op == CURL) && o == 0;   // the order is an upper bound for what vanishes
        MC_REQ(((int)x.orderOP(op) == o || (zero_deriv && x.orderOP(op) == 0)) && a.Order() == x.orderOP(op) && b.Order() == x.orderOP(op) && a2.Order() == x.orderOP(op) && b2.Order() == x.orderOP(op), S("op-order", s), "%s: %s: order %u / %u / %u, expected %d", w.c_str(), ref::op_name(op), x.orderOP(op), a.Order(), b.Order(), o);
        MC_REQ(a.isValid() && b.isValid(), S("op-valid", s), "%s: %s: operator is not valid", w.c_str(), ref::op_name(op));
        MC_REQ(a == a2 && b == b2 && b == *b.Copy() && a == *a.Copy() && !(static_cast<const ApplyOpBase&>(a) == b) && !(static_cast<const ApplyOpBase&>(b) == a), S("op-equal-own", s), "%s: %s: the same operator built twice compares unequal", w.c_str(), ref::op_name(op)); }
    N n = num_of(s); same_list(*x.dofMap().base(), n.dofs(), S("numbering", s), "numbering of " + w);
    auto c = n.num(); for (int t = 0; t < 6; ++t) MC_REQ(x.dofMap().NumDof(1 << t) == c[t], S("numbering", s), "%s: %u degrees of freedom on an element of type %d, expected %u", w.c_str(), x.dofMap().NumDof(1 << t), t, c[t]);
}
static void each_space() {
    for (auto& s : all_spaces()) mc::run_case("space " + s.name(), "space", [&] {
        FemSpace x = build(s); is_space(s, x, s.name());
        // parts
        std::vector<std::pair<Path, const RSp*>> P; paths(s, {}, P); int np = 0;
        for (auto& p : P) { if (p.first.size() > 2 && ++np > 40) break; const int* d = p.first.data(); int n = p.first.size(); auto y = x.subSpace(d, n); std::string w = "part of " + s.name() + " at"; for (int i : p.first) w += mc::fmt(" %d", i);
            is_space(*p.second, y, w); FemSpace q = build(*p.second); MC_REQ(y == q && q == y, S("part-equal", s), "%s differs from the same space made apart", w.c_str());
            if (n == 1) { auto z = x.subSpace(d[0]); MC_REQ(z.base() == y.base() && x.subSpace({d[0]}).base() == y.base(), S("part-access", s), "%s: the three ways to select a part disagree", w.c_str()); }
            if (n == 2) MC_REQ(x.subSpace({d[0], d[1]}).base() == y.base() && x.subSpace(d[0]).subSpace(d[1]).base() == y.base(), S("part-access", s), "%s: the ways to select a nested part disagree", w.c_str());
            if (n == 0) MC_REQ(x.subSpace().base() == x.base(), S("part-access", s), "%s: the empty path does not give the space", w.c_str());
            MC_REQ(!x.subSpace(d, -1).isValid(), S("part-outside", s), "%s: a part for a negative number of steps", w.c_str());
            int m = p.second->kind == ref::FIX ? 0 : p.second->kind == ref::VEC ? p.second->k : (int)p.second->ch.size();
            for (int bad : {-1, m, m + 1, 1000}) { auto b = p.first; b.push_back(bad); MC_REQ(!x.subSpace(b.data(), b.size()).isValid(), S("part-outside", s), "%s: step %d gives a space", w.c_str(), bad); if (p.second->kind == ref::FIX) { b.back() = 0; MC_REQ(!x.subSpace(b.data(), b.size()).isValid(), S("part-outside", s), "%s: a part of a simple space", w.c_str()); b.push_back(0); } } }
        // copies
        FemSpace c = x.copy(), e = x, f; f = x; is_space(s, c, "copy of " + s.name());
        MC_REQ(c == x && x == c && e == x && f == x && c.base() != x.base(), S("copy", s), "copy of %s compares unequal", s.name().c_str());
        MC_REQ(!(FemSpace() == x) && !(x == FemSpace()) && FemSpace() == FemSpace() && !FemSpace().isValid() && FemSpace().gatherType() == BaseFemSpace::BaseTypes::NoType && FemSpace().typeName() == "", S("empty", s), "the empty space compares equal to %s", s.name().c_str());
        // changing the copy leaves the original
        if (s.kind == ref::VEC) c.target<VectorFemSpace>()->Init(s.k + 1, FemSpace(P0Space{}).base());
        if (s.kind == ref::COM) c.target<ComplexFemSpace>()->Init({FemSpace(P0Space{}).base(), FemSpace(P2Space{}).base()});
        if (s.kind == ref::UNI) c.target<UnionFemSpace>()->Init({FemSpace(P0Space{}).base(), FemSpace(Bubble4Space{}).base()});
        if (s.kind != ref::FIX) { RSp t = s.kind == ref::VEC ? RSp::Vec(s.k + 1, Fi(FEM_P0)) : s.kind == ref::COM ? RSp::Com({Fi(FEM_P0), Fi(FEM_P2)}) : RSp::Uni({Fi(FEM_P0), Fi(FEM_B4)}); is_space(t, c, "second initialisation of " + s.name()); is_space(s, x, s.name() + " after its copy was changed"); MC_REQ((c == x) == same(s, t), S("copy-changed", s), "%s and its changed copy", s.name().c_str());
            // and back
            std::vector<std::shared_ptr<BaseFemSpace>> ch; for (auto& y : s.ch) ch.push_back(build(y).base());
            if (s.kind == ref::VEC) c.target<VectorFemSpace>()->Init(s.k, ch[0]); if (s.kind == ref::COM) c.target<ComplexFemSpace>()->Init(ch); if (s.kind == ref::UNI) c.target<UnionFemSpace>()->Init(ch);
            is_space(s, c, "third initialisation as " + s.name()); MC_REQ(c == x && x == c, S("init-again", s), "%s initialised again compares unequal", s.name().c_str());
            if (s.kind == ref::UNI) { auto A = c.target<UnionFemSpace>()->GetOrthBasisShiftMatrix(), B = x.target<UnionFemSpace>()->GetOrthBasisShiftMatrix(); int n = s.nfa(); MC_REQ((int)A.nRow == n && (int)A.nCol == n && (int)B.nRow == n && (int)B.nCol == n, S("init-again", s), "%s: mixing matrix is %zu x %zu", s.name().c_str(), A.nRow, A.nCol); for (int i = 0; i < n * n && (int)A.size >= n * n; ++i) { mc::checked(); MC_REQ(A.data[i] == B.data[i], S("init-again", s), "%s initialised again: mixing matrix differs", s.name().c_str()); } } }
    });
}
static void append(std::vector<RSp>& v, const RSp& s, int kind) { if (s.kind == kind) v.insert(v.end(), s.ch.begin(), s.ch.end()); else v.push_back(s); }
static bool throws(const std::function<void()>& f) { try { f(); } catch (const std::exception&) { return true; } return false; }
static void constructions() {
    auto& A = all_spaces(); std::vector<RSp> few; for (size_t i = 0; i < A.size(); i += (i < 25 ? 1 : mc::thorough() ? 7 : 19)) few.push_back(A[i]);
    auto U = unions();
    for (auto& a : few) for (auto& b : few) mc::run_case("product " + a.name() + " , " + b.name(), "product", [&] {
        FemSpace x = build(a), y = build(b); std::vector<RSp> c; append(c, a, ref::COM); append(c, b, ref::COM); RSp f = RSp::Com(c), r = RSp::Com({a, b}); std::string w = "product of " + a.name() + " and " + b.name();
        is_space(f, x * y, w); is_space(f, make_complex_with_simplification({x, y}), "simplified " + w); is_space(r, make_complex_raw({x, y}), "plain " + w);
        auto d = c; append(d, a, ref::COM); RSp f3 = RSp::Com(d); FemSpace l = (x * y) * x, q = x * (y * x); is_space(f3, l, "triple " + w); MC_REQ(l == q && l == make_complex_with_simplification({x, y, x}), "product-assoc", "%s: grouping changes the product", w.c_str());
        is_space(a, x, w + ": the first factor afterwards"); is_space(b, y, w + ": the second factor afterwards");
    });
    for (auto& a : few) mc::run_case("power " + a.name(), "power", [&] { FemSpace x = build(a); for (int k = 1; k <= 6; ++k) { is_space(RSp::Vec(k, a), x ^ k, mc::fmt("power %d of ", k) + a.name()); MC_REQ((x ^ k) == Ani::pow(x, k) && !((x ^ k) == (x ^ (k + 1))) && !((x ^ k) == x), "power", "powers of %s", a.name().c_str()); is_space(RSp::Vec(2, RSp::Vec(k, a)), (x ^ k) ^ 2, "power of a power of " + a.name()); }
        for (int k : {-1, -2, -1000}) { MC_REQ(throws([&] { x ^ k; }), "power-negative", "%s to the power %d does not throw", a.name().c_str(), k); } 
        FemSpace z = x ^ 0; mc::state(); MC_REQ(z.dim() == 0 && z.dofMap().NumDofOnTet() == 0 && z.getOP(IDEN).Nfa() == 0, "power-zero", "zero power of %s has dimension %u and %u functions", a.name().c_str(), z.dim(), z.dofMap().NumDofOnTet());
        is_space(a, x, a.name() + " after its powers"); });
    // unions of bases that are independent, in every grouping
    std::vector<std::vector<RSp>> ind; for (auto& u : U) { std::vector<RSp> c; for (auto& x : u.ch) append(c, x, ref::UNI); ind.push_back(c); }
    for (auto& c : ind) { if (c.size() < 2) continue; std::vector<int> p; for (size_t i = 0; i < c.size(); ++i) p.push_back(i);
        do { std::vector<RSp> o; for (int i : p) o.push_back(c[i]); RSp u = RSp::Uni(o);
            mc::run_case("union " + u.name(), "union", [&] { std::vector<FemSpace> x; for (auto& s : o) x.push_back(build(s)); FemSpace l = x[0], r = x.back(); for (size_t i = 1; i < x.size(); ++i) l = l + x[i]; for (size_t i = x.size() - 1; i-- > 0;) r = x[i] + r;
                is_space(u, l, "sum " + u.name()); is_space(u, r, "sum from the right " + u.name()); is_space(u, make_union_raw(x), "union " + u.name()); is_space(u, make_union_with_simplification({l}), "simplified union " + u.name()); is_space(RSp::Uni({u}), make_union_raw({l}), "nested union " + u.name());
                if (x.size() == 3) is_space(u, make_union_with_simplification({x[0], x[1] + x[2]}), "simplified union " + u.name());
                for (size_t i = 0; i < x.size(); ++i) is_space(o[i], x[i], "a part after the union " + u.name()); });
        } while (std::next_permutation(p.begin(), p.end())); }
    // dependent bases and unequal dimensions
    auto V = [](int k, int f) { return RSp::Vec(k, Fi(f)); };
    std::vector<std::pair<RSp, RSp>> dep{{Fi(FEM_P1), Fi(FEM_P0)}, {Fi(FEM_P2), Fi(FEM_P1)}, {Fi(FEM_P3), Fi(FEM_P2)}, {Fi(FEM_P1), Fi(FEM_CR1)}, {Fi(FEM_P2), Fi(FEM_B2)}, {Fi(FEM_P3), Fi(FEM_B2)}, {Fi(FEM_CR1), Fi(FEM_P0)}, {Fi(FEM_P2), Fi(FEM_CR1)}, {V(2, FEM_P1), V(2, FEM_P0)}, {V(3, FEM_P1), Fi(FEM_RT0)}, {Fi(FEM_RT0), V(3, FEM_P0)}, {Fi(FEM_RT0), Fi(FEM_ND0)}, {Fi(FEM_ND0), V(3, FEM_P0)}};
    for (auto& s : A) if (s.nfa() <= 20 && s.nfa() > 0) dep.push_back({s, s});
    for (auto& d : dep) for (int sw = 0; sw < 2; ++sw) { auto &a = sw ? d.second : d.first, &b = sw ? d.first : d.second; mc::run_case("dependent " + a.name() + " , " + b.name(), "dependent", [&] { FemSpace x = build(a), y = build(b); mc::state(); MC_REQ(throws([&] { x + y; }), "union-dependent", "union of dependent %s and %s is accepted", a.name().c_str(), b.name().c_str()); is_space(a, x, "a part after the refused union"); }); }
    for (auto& a : few) for (auto& b : few) if (a.dim() != b.dim()) mc::run_case("unequal " + a.name() + " , " + b.name(), "unequal", [&] { FemSpace x = build(a), y = build(b); mc::state(); MC_REQ(throws([&] { x + y; }) && throws([&] { make_union_raw({x, y}); }), "union-unequal", "union of %s and %s, dimensions %d and %d, is accepted", a.name().c_str(), b.name().c_str(), a.dim(), b.dim()); });
    // calls of the empty product and union
    mc::run_case("empty", "empty", [&] { FemSpace c = make_complex_raw({}), c2 = make_complex_with_simplification({}), u = make_union_raw({}), u2 = make_union_with_simplification({}); mc::state(); MC_REQ(c.dim() == 0 && c.dofMap().NumDofOnTet() == 0 && c == c2 && u.dim() == 0 && u.dofMap().NumDofOnTet() == 0 && u == u2 && !(c == u), "empty", "empty product or union is not empty"); });
}
static void equality() {
    auto& A = all_spaces(); std::vector<FemSpace> X, Y; for (auto& s : A) X.push_back(build(s)), Y.push_back(build(s));
    for (size_t i = 0; i < A.size(); ++i) mc::run_case("equal " + A[i].name(), "equal", [&] {
        for (size_t j = 0; j < A.size(); ++j) { bool e = same(A[i], A[j]); mc::state(); mc::trans(3); mc::checked();
            MC_REQ((X[i] == Y[j]) == e && (Y[j] == X[i]) == e && (*X[i].base() == *Y[j].base()) == e, S("equal", A[i]), "%s and %s compare %s", A[i].name().c_str(), A[j].name().c_str(), e ? "unequal" : "equal");
            MC_REQ((X[i].typeName() == Y[j].typeName()) == e, S("equal-name", A[i]), "%s and %s have %s names", A[i].name().c_str(), A[j].name().c_str(), e ? "different" : "equal");
            for (auto a : OPS) { if (!has_op(A[i], a)) continue; auto p = X[i].getOP_own(a); auto v = X[i].getOP(a); for (auto b : OPS) { if (!has_op(A[j], b)) continue; if (!e && a != b && (i + j) % 5) continue; auto q = Y[j].getOP_own(b); bool w = e && a == b;
                MC_REQ((p == q) == w && (static_cast<const ApplyOpBase&>(q) == p) == w, S("op-equal", A[i]), "operators %s of %s and %s of %s compare %s", ref::op_name(a), A[i].name().c_str(), ref::op_name(b), A[j].name().c_str(), w ? "unequal" : "equal");
                auto u = X[j].getOP(b); bool y = i == j && a == b; if (i == j || i % 7 == j % 7) MC_REQ((v == u) == y || ((v == u) && w), S("op-view", A[i]), "operator views %s of %s and %s of %s compare %s", ref::op_name(a), A[i].name().c_str(), ref::op_name(b), A[j].name().c_str(), y ? "unequal" : "equal");
                auto z = Y[j].getOP(b); MC_REQ(!(v == z) || w, S("op-view", A[i]), "operator views of different spaces compare equal"); } } }
    });
}
// compile-time counterparts: numbering, counts, orders
struct CtOps { template<int OP, class T> void operator()() { RSp s = ref::RefOf<T>::make(); mc::run_case(mc::fmt("static %s ", ref::op_name(OP)) + s.name(), "static", [&] { mc::state(); typedef Operator<OP, T> O; int n = O::Nfa::value, d = O::Dim::value, o = O::Order::value;
    MC_REQ(n == s.nfa() && d == ref::op_dim(OP, s.dim()), S("static-count", s), "%s of %s: %d functions of dimension %d, expected %d of %d", ref::op_name(OP), s.name().c_str(), n, d, s.nfa(), ref::op_dim(OP, s.dim())); MC_REQ(o == ref::op_deg(OP, s), S("static-order", s), "%s of %s: order %d, expected %d", ref::op_name(OP), s.name().c_str(), o, ref::op_deg(OP, s)); }); } };
struct CtMaps { template<class T> void operator()() { RSp s = ref::RefOf<T>::make(); mc::run_case("static numbering " + s.name(), "static", [&] { mc::state(); auto m = Ani::Dof<T>::Map(); same_list(m, num_of(s).dofs(), S("static-numbering", s), "static numbering of " + s.name()); auto x = build(s); MC_REQ(x.dofMap().NumDofOnTet() == m.NumDofOnTet(), S("static-numbering", s), "%s: static and run-time counts differ", s.name().c_str()); }); } };
static void statics() {
    CtOps f; CtMaps g; each_type_op(FixTypes(), f); each_type_op(VecTypes(), f); each_type_op(VecTTypes(), f); each_type_op(ComTypes(), f); each_type_op(UniTypes(), f);
    each_type(FixTypes(), g); each_type(VecTypes(), g); each_type(VecTTypes(), g); each_type(ComTypes(), g); each_type(UniTypes(), g);
}
// operators of the spaces that no simplification touches
static void evaluation() { int n = 0; for (auto& s : all_spaces()) { ++n; if (s.nfa() <= 60) rt_ops(s, "raw", [&] { return build(s); }, mc::thorough() ? 12 : 3, n); } }
static void body() { std::string v = mc::opt().variant; if (v == "eval") evaluation(); else if (v == "spaces") { each_space(); statics(); } else if (v == "construct") constructions(); else equality(); }
MC_MAIN(body)
