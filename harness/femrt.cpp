// F02 F04 F01: run-time spaces given by every small composition tree: operators and degrees of freedom against the independent reference.
#include "femop_common.h"
using ref::RSp;

static std::vector<RSp> trees() {
    std::vector<RSp> out, fx, lvl1;
    for (int f : {FEM_P0, FEM_P1, FEM_P2, FEM_P3, FEM_RT0, FEM_ND0, FEM_CR1, FEM_B2, FEM_B4}) fx.push_back(RSp::Fix(f));
    auto F = [](int f) { return RSp::Fix(f); };
    std::vector<RSp> uni = {RSp::Uni({F(FEM_P1), F(FEM_B4)}), RSp::Uni({F(FEM_P1), F(FEM_B2)}), RSp::Uni({F(FEM_P1), F(FEM_B2), F(FEM_B4)}), RSp::Uni({F(FEM_P2), F(FEM_B4)}),
        RSp::Uni({F(FEM_CR1), F(FEM_B4)}), RSp::Uni({F(FEM_P0), F(FEM_B4)}), RSp::Uni({F(FEM_P0), F(FEM_B2)}), RSp::Uni({F(FEM_B4), F(FEM_P1)}), RSp::Uni({F(FEM_B2), F(FEM_B4), F(FEM_P1)})};
    lvl1 = fx; for (auto& u : uni) lvl1.push_back(u);
    out = lvl1;
    std::vector<RSp> lvl2;
    for (auto& a : lvl1) for (int k = 1; k <= 3; ++k) { RSp v = RSp::Vec(k, a); out.push_back(v); if (a.nfa() <= 6) lvl2.push_back(v); }
    // products of two, all ordered pairs; products of three over a small alphabet
    for (auto& a : lvl1) for (auto& b : lvl1) if (mc::thorough() || a.nfa() + b.nfa() <= 16) out.push_back(RSp::Com({a, b}));
    std::vector<RSp> sm = {F(FEM_P0), F(FEM_P1), F(FEM_RT0), F(FEM_ND0), RSp::Vec(2, F(FEM_P1)), uni[0]};
    if (mc::thorough()) { sm.push_back(F(FEM_CR1)); sm.push_back(RSp::Com({F(FEM_P0), F(FEM_P1)})); }
    for (auto& a : sm) for (auto& b : sm) for (auto& c : sm) out.push_back(RSp::Com({a, b, c}));
    // unions of vector-valued and composed parts of equal shape
    auto V3s = [&](int f) { return RSp::Vec(3, F(f)); };
    std::vector<RSp> cu = {RSp::Uni({V3s(FEM_P1), V3s(FEM_B4)}), RSp::Uni({V3s(FEM_P2), V3s(FEM_B4)}), RSp::Uni({V3s(FEM_CR1), V3s(FEM_B4)}), RSp::Uni({F(FEM_RT0), V3s(FEM_B4)}), RSp::Uni({F(FEM_ND0), V3s(FEM_B4)}),
        RSp::Uni({RSp::Com({F(FEM_P1), F(FEM_P0)}), RSp::Vec(2, F(FEM_B4))}), RSp::Uni({RSp::Com({F(FEM_P1), F(FEM_P1), F(FEM_P0)}), V3s(FEM_B4)}), RSp::Uni({RSp::Com({RSp::Vec(2, F(FEM_P1)), F(FEM_P0)}), V3s(FEM_B4)}),
        RSp::Uni({RSp::Vec(2, F(FEM_RT0)), RSp::Vec(6, F(FEM_B4))})};
    for (auto& a : cu) out.push_back(a);
    // powers of powers, of products and of unions; products of those
    std::vector<RSp> com = {RSp::Com({F(FEM_P1), F(FEM_P0)}), RSp::Com({F(FEM_RT0), F(FEM_P0)}), RSp::Com({RSp::Vec(2, F(FEM_P1)), F(FEM_P2)}), RSp::Com({F(FEM_P1), F(FEM_P0), F(FEM_CR1)})};
    std::vector<RSp> deep = lvl2; for (auto& a : com) deep.push_back(a); for (auto& a : cu) if (a.nfa() <= 24) deep.push_back(a);
    for (auto& a : deep) for (int k = 1; k <= 3; ++k) if (a.nfa() * k <= 48) out.push_back(RSp::Vec(k, a));
    for (auto& a : deep) for (auto& b : sm) if (a.nfa() + b.nfa() <= 30) { out.push_back(RSp::Com({a, b})); if (mc::thorough()) out.push_back(RSp::Com({b, a})); }
    // long powers and products
    for (auto& a : fx) for (int k : {4, 5, 7, 10}) if (a.nfa() * k <= 40) out.push_back(RSp::Vec(k, a));
    out.push_back(RSp::Com({F(FEM_P0), F(FEM_P1), F(FEM_RT0), F(FEM_P0), F(FEM_ND0), RSp::Vec(4, F(FEM_P1)), F(FEM_CR1)})); out.push_back(RSp::Com({RSp::Vec(5, F(FEM_P0)), RSp::Vec(4, F(FEM_RT0)), RSp::Vec(2, F(FEM_P0)), F(FEM_P2), F(FEM_P0)}));
    if (mc::thorough()) for (auto& a : deep) for (auto& b : deep) if (a.nfa() + b.nfa() <= 40) out.push_back(RSp::Vec(2, RSp::Com({a, b})));
    return out;
}
static void body() {
    std::string v = variant();
    auto T = trees();
    auto& L = ref::cube_tets(true);
    int n = 0;
    for (auto& t : T) {
        ++n;
        if (v == "ops") rt_ops(t, "rtx", [&] { return ref::run_space(t); }, mc::thorough() ? 8 : 2, n);
        if (v == "dof") {
            // two cells per tree, moving over all ordered tetrahedra
            int per = mc::thorough() ? 8 : 2;
            for (int k = 0; k < per; ++k) { int id = (n * 37 + k * 611) % L.t.size();
                mc::run_case(key("dofx", t.name(), IDEN, {id}) + mc::fmt(" #%d", n), "dofx", [&] { dof_rt(t, [&] { return ref::run_space(t); }, "dofx", id); }); }
        }
    }
}
MC_MAIN(body)
