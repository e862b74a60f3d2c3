// F01 F02 F04: basis functions, operators and degrees of freedom of every space against the independent reference.
#include "femop_common.h"
#include "femtypes.h"

// ---- compile-time operators
struct CtOps {
    template<int OP, class T> void operator()() {
        typedef Operator<OP, T> Op;
        ref::RSp sp = ref::RefOf<T>::make();
        int nfa = sp.nfa(), dim = ref::op_dim(OP, sp.dim());
        auto ids = tet_subset(nfa);
        auto& P = points();
        for (size_t k = 0; k < ids.size(); ++k) {
            int f = pick_f(nfa, k);
            std::vector<int> bt; for (int r = 0; r < f; ++r) bt.push_back(ids[(k + r * 7) % ids.size()]);
            mc::run_case(key("op", sp.name(), OP, bt), "op", [&] {
                MC_REQ((int)Op::Nfa::value == nfa, "op:nfa:" + sp.name(), "number of functions %d, expected %d", (int)Op::Nfa::value, nfa);
                MC_REQ((int)Op::Dim::value == dim, "op:dim:" + sp.name(), "dimension %d, expected %d", (int)Op::Dim::value, dim);
                MC_REQ((int)Op::Order::value >= ref::op_deg(OP, sp), std::string("op:order:") + sp.name(), "advertised polynomial order %d is below the degree %d", (int)Op::Order::value, ref::op_deg(OP, sp));
                Batch b = make_batch(bt);
                std::vector<double> XYL; for (auto& l : P) for (double x : l) XYL.push_back(x);
                std::vector<R> got;
                all_columns(nfa, dim, f, P.size(), [&](DenseMatrix<>& D, DenseMatrix<>& U) {
                    auto XYZ = make_tetras((const double*)b.xy[0].data(), (const double*)b.xy[1].data(), (const double*)b.xy[2].data(), (const double*)b.xy[3].data(), f);
                    fem3DapplyL<Op>(XYZ, ArrayView<>(XYL.data(), XYL.size()), D, U, g_wmem);
                    mc::trans();
                }, got);
                compare("op", sp, OP, b, P, got);
            });
        }
    }
};
// a function outside every space: interpolation by both forms, all functionals, one and two fused functions
template<class T> static void same_interp(const ref::RSp& sp) {
    int nfa = sp.nfa(), dim = sp.dim();
    auto& L = ref::cube_tets(true);
    for (size_t id = 0; id < L.t.size(); ++id) {
        if (!(mc::thorough() || id % 7 == 3)) continue;
        mc::run_case(key("interp", sp.name(), IDEN, {(int)id}), "interp", [&] {
            Batch b = make_batch({(int)id});
            Tetra<const double> XYZ(b.xy[0].data(), b.xy[1].data(), b.xy[2].data(), b.xy[3].data());
            FemSpace s = ref::run_space(sp);
            for (int order = 1; order <= 5; order += 2) for (int fus = 1; fus <= 2; ++fus) {
                auto func = [&](const std::array<double, 3>& X, double* res, unsigned, void* u) -> int {
                    for (int q = 0; q < dim * fus; ++q) res[q] = std::sin(X[0] + 2 * X[1] * (q + 1) + *(double*)u) + std::exp(X[2]) * X[0] * (q + 2);
                    return 0;
                };
                double ud = 0.25;
                std::vector<double> u0(nfa, -7), u1(nfa, -7), w0(nfa, -8), w1(nfa, -8);
                ArrayView<> uu[2] = {ArrayView<>(w0.data(), nfa), ArrayView<>(w1.data(), nfa)};
                for (int i = 0; i < nfa; ++i) {
                    if (fus == 1) Dof<T>::interpolate(XYZ, func, ArrayView<>(u0.data(), nfa), i, &ud, order);
                    else Dof<T>::template interpolate<2>(XYZ, func, std::array<ArrayView<>, 2>{ArrayView<>(u0.data(), nfa), ArrayView<>(u1.data(), nfa)}, i, &ud, order);
                    if (fus == 1) s.interpolateOnDOF(XYZ, func, uu[0], i, g_wmem, &ud, order);
                    else s.interpolateOnDOF(XYZ, func, uu, i, fus, g_wmem, &ud, order);
                    mc::trans();
                    for (int r = 0; r < fus; ++r)
                        MC_REQ(close((r ? u1 : u0)[i], (r ? w1 : w0)[i], std::fabs((r ? u1 : u0)[i])), "interp:" + sp.name(), "functional %d of fused function %d (of %d), order %d: compile-time %.15g, run-time %.15g", i, r, fus, order, (r ? u1 : u0)[i], (r ? w1 : w0)[i]);
                }
                mc::state();
            }
        });
    }
}
struct RtOps { template<class T> void operator()() { ref::RSp sp = ref::RefOf<T>::make(); rt_ops(sp, "rt", [sp] { return ref::run_space(sp); }, 0); same_interp<T>(sp); } };

struct DofCt {
    template<class T> void operator()() {
        ref::RSp sp = ref::RefOf<T>::make();
        auto ids = tet_subset(sp.nfa());
        for (int id : ids) {
            mc::run_case(key("dof", sp.name(), IDEN, {id}), "dof", [&] { one<T>(sp, id); });
            mc::run_case(key("dofrt", sp.name(), IDEN, {id}), "dofrt", [&] { dof_rt(sp, [&] { return ref::run_space(sp); }, "dofrt", id); });
        }
    }
    template<class T> void one(const ref::RSp& sp, int id) {
        int nfa = sp.nfa(), dim = sp.dim(), order = std::max(sp.deg(), 1) + 1;
        ref::Cell c(ref::cube_tets(true).t[id]);
        Batch b = make_batch({id});
        Tetra<const double> XYZ(b.xy[0].data(), b.xy[1].data(), b.xy[2].data(), b.xy[3].data());
        std::map<std::string, std::string> mixed;
        for (int j = 0; j < nfa; ++j) for (int fus = 1; fus <= 2; ++fus) {
            // values of function j (and of j+1 as the second fused function)
            auto func = [&](const std::array<double, 3>& X, double* res, unsigned, void*) -> int {
                auto v = c.eval(sp, bary(c.G, X));
                for (int r = 0; r < fus; ++r) for (int q = 0; q < dim; ++q) res[r * dim + q] = v.v((j + r) % nfa, q);
                return 0;
            };
            std::vector<double> u0(nfa, -7), u1(nfa, -7);
            for (int i = 0; i < nfa; ++i) {
                if (fus == 1) Dof<T>::interpolate(XYZ, func, ArrayView<>(u0.data(), nfa), i, nullptr, order);
                else Dof<T>::template interpolate<2>(XYZ, func, std::array<ArrayView<>, 2>{ArrayView<>(u0.data(), nfa), ArrayView<>(u1.data(), nfa)}, i, nullptr, order);
                mc::trans();
                for (int k = i + 1; k < nfa; ++k) for (int r = 0; r < fus; ++r) MC_REQ((r ? u1 : u0)[k] == -7, "dof-other:" + sp.name(), "interpolating functional %d changed coefficient %d", i, k);
            }
            for (int r = 0; r < fus; ++r) for (int i = 0; i < nfa; ++i) dual_check("dof", sp, i, (j + r) % nfa, (r ? u1 : u0)[i], fus, mixed);
        }
        mc::state();
        for (auto& m : mixed) mc::fail("dof-mixed:" + m.first, m.second);
    }
};

static void body() {
    std::string v = variant();
    if (v == "f02") { CtOps c; each_type_op(FixTypes(), c); each_type_op(VecTypes(), c); each_type_op(UniTypes(), c); each_type_op(VecTTypes(), c); each_type_op(ComTypes(), c); }
    if (v == "f04") { RtOps c; each_type(FixTypes(), c); each_type(VecTypes(), c); each_type(UniTypes(), c); each_type(VecTTypes(), c); each_type(ComTypes(), c); }
    if (v == "f01") { DofCt c; each_type(FixTypes(), c); each_type(VecTypes(), c); each_type(UniTypes(), c); each_type(VecTTypes(), c); each_type(ComTypes(), c); }
}
MC_MAIN(body)
