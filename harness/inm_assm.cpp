// Z01: assembling over a distributed mesh adds the contributions of the cells at the rows and columns of their degrees of freedom.
#include "inm_common.h"
#include "anifem++/inmost_interface/assembler.h"
typedef IGlobEnumeration PGE;
#ifndef PARTYPE
#define PARTYPE NONE
#endif
#ifndef THR_POINT
#define THR_POINT
#endif
static constexpr ThreadPar::Type PT = ThreadPar::Type::PARTYPE;
typedef std::conditional<PT == ThreadPar::Type::NONE, Ani::AssemblerT<>, Ani::AssemblerT<Ani::DefaultParallelAssemblerTraits<PT>>>::type Asm; typedef Ani::MatFuncWrapDynamic<PT> Func; typedef Ani::MatSparsity<long> Sp; typedef Ani::ElementalAssembler EA;
/// contribution of a cell; pat: 0 full, 1 a pattern with structural zeros
static bool in_mat(int pat, int i, int j) { return pat == 0 || (i + 2 * j) % 3 != 1 || i == j; }
static bool in_rhs(int pat, int i) { return pat == 0 || i % 3 != 2; }
struct Bad { int cell = -1, i = -1, j = -2; double v = 0; };   // a value that is not a number
static double mat(int pat, int c, int i, int j) { if (!in_mat(pat, i, j)) return 0; int x = ((c * 37 + i) * 19 + j * 11) % 29 - 14; return x % 7 == 3 ? x * 0x1p-20 : x; }
static double rhs(int pat, int c, int i) { if (!in_rhs(pat, i)) return 0; return ((c * 13 + i * 5) % 23) - 11; }
static int user_cookie;
static std::string problem; static void bad(const std::string& s) { if (problem.empty()) problem = s; }
/// what: 1 matrix, 2 right-hand side, 3 both; spm / spr: sparse storage of the pattern
struct Spec { int pat, n; bool spm, spr, dyn; int nw, niw; Bad nan; };
static Sp sp_mat(const Spec& s) { if (!s.spm) return Sp::make_as_dense(s.n, s.n); std::vector<long> c{0}, r; for (int j = 0; j < s.n; ++j) { for (int i = 0; i < s.n; ++i) if (in_mat(s.pat, i, j)) r.push_back(i); c.push_back(long(r.size())); } return Sp::make_as_sparse(long(r.size()), s.n, s.n, c, r); }
static Sp sp_rhs(const Spec& s) { if (!s.spr) return Sp::make_as_dense(s.n, 1); std::vector<long> c{0}, r; for (int i = 0; i < s.n; ++i) if (in_rhs(s.pat, i)) r.push_back(i); c.push_back(long(r.size())); return Sp::make_as_sparse(long(r.size()), s.n, 1, c, r); }
static Func func(const Spec& s, int what) {
    std::vector<Sp> out; if (what & 1) out.push_back(sp_mat(s)); if (what & 2) out.push_back(sp_rhs(s));
    return Func([s, what](const double** args, double** res, double* w, long* iw, void* ud, Ani::DynMem<double, long>* mem) -> int {
        if (ud != &user_cookie) bad("user data does not reach the element function"); if (s.nw && !w || s.niw && !iw) { bad("no work memory"); return 0; }
        for (int i = 0; i < s.nw; ++i) w[i] = -7e7 - i; for (int i = 0; i < s.niw; ++i) iw[i] = -900 - i;
        if (s.dyn) { if (!mem) { bad("no dynamic memory"); return 0; } auto a = mem->alloc(5 + s.n, 3, 0); for (size_t i = 0; i < a.m_mem.dSize; ++i) a.m_mem.ddata[i] = 3e30; for (size_t i = 0; i < a.m_mem.iSize; ++i) a.m_mem.idata[i] = 11; }
        THR_POINT int c = int(args[0][0]), o = 0; if (args[0][1] != c + 0.5 || args[1][2] != 9) bad("arguments of the element function");
        if (what & 1) { double* A = res[o++]; if (!A) { bad("no memory for the matrix"); return 0; } long k = 0; for (int j = 0; j < s.n; ++j) for (int i = 0; i < s.n; ++i) if (!s.spm || in_mat(s.pat, i, j)) A[k++] = s.nan.cell == c && s.nan.i == i && s.nan.j == j ? s.nan.v : mat(s.pat, c, i, j); }
        if (what & 2) { double* F = res[o++]; if (!F) { bad("no memory for the right-hand side"); return 0; } long k = 0; for (int i = 0; i < s.n; ++i) if (!s.spr || in_rhs(s.pat, i)) F[k++] = s.nan.cell == c && s.nan.i == i && s.nan.j == -1 ? s.nan.v : rhs(s.pat, c, i); }
        THR_POINT for (int i = 0; i < s.nw; ++i) if (w[i] != -7e7 - i) bad("work memory overlaps the result"); return 0; }, std::vector<Sp>{Sp::make_as_dense(2, 1), Sp::make_as_dense(3, 1)}, out, size_t(s.nw), size_t(s.niw), true, s.dyn);
}
/// one way of assembling
struct Conf { int fun;  ///< bits: 1 matrix function, 2 rhs function, 4 joint function
    bool spm, spr, spm2, spr2, dyn, dyn2; int insert; ///< 0 plain, 1 plain with sorted matrix, 2 ordered, 3 ordered with template, 4 plain with template, 5 ordered after own entries, 6 plain after own entries
    bool reorder, prep; int init; ///< 0 default, 1 constant, 2 tag, 3 tag pointer, 4 tags of the variables, 5 pullInitValFrom
    int kind; double drop; bool petrov; /* spaces of test functions are described differently */ };
static const Conf& conf(int k) {
    static std::vector<Conf> r; if (r.empty()) { static const int FUN[5] = {3, 4, 7, 5, 6}; for (int f = 0; f < 5; ++f) for (int s = 0; s < 16; ++s) for (int d = 0; d < 4; ++d) for (int q = 0; q < 7; ++q) { int z = int(r.size()); r.push_back(Conf{FUN[f], bool(s & 1), bool(s & 2), bool(s & 4), bool(s & 8), bool(d & 1), bool(d & 2), q, z % 11 < 8, z % 5 < 3, z % 6, z % 8, z % 3 ? 1e-100 : 1e-3, z % 7 == 3 || z % 5 == 1}); } }
    return r[size_t(k) % r.size()]; }
static const int NCONF = 5 * 16 * 4 * 7;
static std::string conf_name(const Conf& c) { return mc::fmt("functions %d sparse %d%d%d%d dynamic %d%d insert %d reorder %d prepare %d init %d enumeration %d drop %g test spaces %d", c.fun, c.spm, c.spr, c.spm2, c.spr2, c.dyn, c.dyn2, c.insert, c.reorder, c.prep, c.init, c.kind, c.drop, c.petrov); }
typedef std::map<std::pair<long, long>, double> Mat; typedef std::map<long, double> Rhs;
struct Expect { Mat A; Rhs F; std::set<std::pair<long, long>> templ; std::set<int> cells; bool nan_mat = false, nan_rhs = false; };
static void vary(int k) { mc::outcome(k ? "different descriptions of test spaces" : "same test spaces"); }
static void set_enum(Asm& a, const Conf& c, Mesh* m, const FemVarContainer& v) {
    static const GlobEnumeration::ASSEMBLING_TYPE T[6] = {GlobEnumeration::ANITYPE, GlobEnumeration::MINIBLOCKS, GlobEnumeration::NATURAL, GlobEnumeration::DIMUNION, GlobEnumeration::BYELEMTYPE, GlobEnumeration::ETDIMBLOCKS};
    if (c.kind < 6) { GlobEnumeration e(T[c.kind]); e.setMesh(m).setVars(v).setup(); a.SetEnumerator(std::move(e)); }
    else if (c.kind == 6) { GlobEnumeration e; OrderedEnumerator o; o.setArrangment({{4, 3, 2, 1, 0}}).setReverse(true); e.setBaseEnumerator(std::move(o)); e.setMesh(m).setVars(v).setup(); a.SetEnumerator(e); } // 7: the default one of the assembler
}
static bool nan_used(const Bad& b) { return b.cell >= 0; }
struct Step { const Set* s; Conf c; bool clear; };
/// the steps are taken by the same assembler
static void check(const std::vector<Step>& steps, const mock::Topo& T, const mock::Dist& DI, const std::string& sg, Bad nan = Bad(), int threads = 1) {
    auto B = mock::build(T, DI); mock::Built& b = *B; int np = DI.nproc; problem.clear();
    std::vector<std::string> why(np);
    b.world.run(np, [&](int p) { Mesh* m = b.m[p].get(); Asm a(m); m->AssignGlobalID(NODE); int nstep = 0;
      for (auto& st : steps) { const Set& S = *st.s; const Conf& C = st.c; auto L = layout(S); size_t nv = S.v.size(); ElementType mask = NONE; unsigned mx = 0; for (int n = 0; n < 4; ++n) if (!L[n].empty()) mask |= ElementTypeFromDim(n), mx = std::max(mx, unsigned(L[n].size()));
        int pat = C.spm || C.spr || C.spm2 || C.spr2; FemVarContainer vars = vars_of(S); int n = int(vars.NumDofOnTet());
        auto say = [&](const std::string& s) { if (why[p].empty()) why[p] = (steps.size() > 1 ? mc::fmt("step %d: ", nstep) : std::string()) + s + " (" + conf_name(C) + ")"; };
        if (nstep) { if (st.clear) { a.Clear(); a.SetMesh(*m); } else { a.mat_func = a.rhs_func = a.mat_rhs_func = Ani::MatFuncWrapHolder<PT>(); a.m_init_value_setter = nullptr; } }
        { Ani::FemExprDescr d; for (auto& v : S.v) d.PushFemPair(v.map, v.name, C.petrov && v.ndim == 1 ? DT::DofMap(std::make_shared<DT::VectorDofMap>(1, v.map.m_invoker)) : v.map, v.name); if (C.petrov) vary(d.TrialFuncs() == d.TestFuncs() ? 0 : 1); a.SetProbDescr(d); }
        if (C.fun & 1) a.SetMatFunc(func(Spec{pat, n, C.spm, false, C.dyn, 3, 2, nan}, 1)); if (C.fun & 2) a.SetRHSFunc(func(Spec{pat, n, false, C.spr, C.dyn2, 2, 5, nan}, 2)); if (C.fun & 4) a.SetMatRHSFunc(func(Spec{pat, n, C.spm2, C.spr2, C.dyn, 4, 1, nan}, 3));
        set_enum(a, C, m, vars); a.m_assm_traits.reorder_nodes = C.reorder; a.m_assm_traits.prepare_edges = a.m_assm_traits.prepare_faces = C.prep; a.m_assm_traits.num_threads = threads;
        // values of the variables before assembling
        Tag u = m->CreateTag("u", DATA_REAL, mask, NONE, mx), num = m->CreateTag("num", DATA_REAL, mask, NONE, mx), own = m->CreateTag("own", DATA_REAL, mask, NONE, mx); std::vector<Tag> w;
        for (size_t v = 0; v < nv; ++v) { unsigned mv = 0; ElementType vm = NONE; for (int k = 0; k < 4; ++k) { unsigned c = 0; for (auto& d : L[k]) c += d.v == int(v); mv = std::max(mv, c); if (c) vm |= ElementTypeFromDim(k); } w.push_back(m->CreateTag(mc::fmt("w%d", int(v)), DATA_REAL, vm, NONE, mv)); }
        auto each = [&](std::function<void(HandleType, int, int, const D&)> f) { for (int k = 0; k < 4; ++k) for (size_t l = 0; l < m->el[k].size(); ++l) if (m->el[k][l].alive) for (auto& d : L[k]) f(ComposeHandleNum(k, int(l)), k, m->key[k][l], d); };
        each([&](HandleType h, int k, int e, const D& d) { m->RealArray(h, u)[d.edof] = m->RealArray(h, w[d.v])[d.vdof] = 1 + d.edof + 64. * (e + 64 * k); });
        Tag uptr; switch (C.init) { case 1: a.SetInitValueSetter(Asm::makeInitValueSetter(2.5)); break; case 2: a.SetInitValueSetter(Asm::makeInitValueSetter(u)); break; case 3: uptr = Tag(); a.SetInitValueSetter(Asm::makeInitValueSetter(&uptr)); uptr = u; break; case 4: a.SetInitValueSetter(Asm::makeInitValueSetter(w)); break; case 5: a.pullInitValFrom(u); break; default:; }
        std::set<int> seen; bool matrix_run = false, both = false;
        a.SetDataGatherer([&](EA& q) {
            int c = m->key[3][q.cell->LocalID()]; if (!seen.insert(c).second) say(mc::fmt("cell %d is processed twice", c));
            HandleType hn[4], he[6], hf[4]; Ani::collectConnectivityInfo(*q.cell, hn, he, hf, C.reorder, true); if (q.loc_m.m_dat) for (unsigned i = 0; i < unsigned(q.loc_m.m_sp.m_nnz); ++i) if (q.loc_m.m_dat[i] != 0) { say("the element matrix is not zero before it is computed"); break; } if (q.loc_rhs.m_dat) for (unsigned i = 0; i < unsigned(q.loc_rhs.m_sp.m_nnz); ++i) if (q.loc_rhs.m_dat[i] != 0) { say("the element vector is not zero before it is computed"); break; } for (int i = 0; i < 4; ++i) { if ((*q.nodes)[i].GetHandle() != hn[i]) say("order of the nodes"); auto x = Node(m, hn[i]).Coords(); for (int k = 0; k < 3; ++k) if (q.get_nodes()[3 * i + k] != x[k] || const_cast<const std::decay_t<decltype(q)>&>(q).get_nodes()[3 * i + k] != x[k]) say("coordinates of the nodes"); }
            bool need = C.prep || (mask & (EDGE | FACE)); if (need) { for (int i = 0; i < 6; ++i) if ((*q.edges)[i].GetHandle() != he[i]) say("edges of the cell"); for (int i = 0; i < 4; ++i) if ((*q.faces)[i].GetHandle() != hf[i]) say("faces of the cell"); }
            if (!q.pool) say("no memory pool"); else { auto mm = q.pool->alloc(7, 2, 0); for (size_t i = 0; i < mm.m_mem.dSize; ++i) mm.m_mem.ddata[i] = 1; }
            // initial values
            std::vector<double> iv(n, C.init == 0 ? 0. : C.init == 1 ? 2.5 : 0.); std::array<unsigned char, 4> can{{0, 1, 2, 3}}; if (m->HaveGlobalID(NODE)) { std::array<long, 4> g; for (int i = 0; i < 4; ++i) g[i] = Node(m, hn[i]).GlobalID(); can = Ani::createOrderPermutation(g.data()); }
            if (C.init >= 2) Ani::GatherDataOnElement(u, vars, m, q.cell->GetHandle(), hf, he, hn, can.data(), iv.data(), nullptr, 0);
            if (q.vars->initValues != iv) say(mc::fmt("initial values of cell %d", c)); for (size_t v = 0, o = 0; v < nv; ++v) { auto nd = vars[int(v)].dofmap.NumDofOnTet(); if (q.vars->begin(int(v)) - q.vars->initValues.data() != long(o) || q.vars->end(int(v)) - q.vars->begin(int(v)) != long(nd)) say("values of a variable"); o += nd; }
            if (C.init == 2) { std::vector<double> x(n), y(n), z(n); EA::GatherDataOnElement(u, q, x.data(), {}); EA::GatherDataOnElement(w, q, y.data(), nullptr, 0); a.GatherDataOnElement(u, *q.cell, z.data()); if (x != iv || y != iv || (C.reorder && z != iv)) say("gathering on the cell"); a.GatherDataOnElement(w, *q.cell, z.data()); if (C.reorder && z != iv) say("gathering on the cell from the tags of the variables"); }
            double a0[2] = {double(c), c + 0.5}, a1[3] = {7, 8, 9}; const double* args[2] = {a0, a1}; if (c % 2) q.compute(args); else q.compute(args, &user_cookie);
            // the result seen by the handler
            if (matrix_run) for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) if (nan.cell != c && q.loc_m.m_dat[j * n + i] != mat(pat, c, i, j)) say(mc::fmt("matrix of cell %d at (%d, %d) is %g instead of %g", c, i, j, q.loc_m.m_dat[j * n + i], mat(pat, c, i, j)));
            if (!matrix_run || both) for (int i = 0; i < n; ++i) if (nan.cell != c && q.loc_rhs.m_dat[i] != rhs(pat, c, i)) say(mc::fmt("right-hand side of cell %d at %d is %g instead of %g", c, i, q.loc_rhs.m_dat[i], rhs(pat, c, i)));
        });
        a.PrepareProblem(); PGE& e = a.GetEnumerator(); long bg = a.getBegInd(), en = a.getEndInd();
        // what has to come
        Expect X; each([&](HandleType h, int k, int, const D& d) { m->RealArray(h, num)[d.edof] = 1 + e.OrderC(PGE::NaturalIndex(Element(m, h), DT::NumToGeomType(d.et), d.v, d.d, d.q)).id; m->RealArray(h, own)[d.edof] = m->rec(h).st == Element::Ghost ? 2 : 1; });
        std::vector<int> cells; for (size_t l = 0; l < m->el[3].size(); ++l) if (m->el[3][l].alive) {
            HandleType hc = ComposeHandleNum(3, int(l)), hn[4], he[6], hf[4]; int c = m->key[3][l]; Ani::collectConnectivityInfo(Cell(m, hc), hn, he, hf, C.reorder, true); std::array<unsigned char, 4> can{{0, 1, 2, 3}}; if (m->HaveGlobalID(NODE)) { std::array<long, 4> g; for (int i = 0; i < 4; ++i) g[i] = Node(m, hn[i]).GlobalID(); can = Ani::createOrderPermutation(g.data()); }
            std::vector<double> id(n), o(n); Ani::GatherDataOnElement(num, vars, m, hc, hf, he, hn, can.data(), id.data(), nullptr, 0); Ani::GatherDataOnElement(own, vars, m, hc, hf, he, hn, can.data(), o.data(), nullptr, 0);
            for (int i = 0; i < n; ++i) { if (std::fabs(o[i]) != 1) continue; X.cells.insert(c); long r = std::labs(long(id[i])) - 1; double si = id[i] < 0 ? -1 : 1; X.F[r] += si * rhs(pat, c, i); if (nan.cell == c && nan.i == i && nan.j == -1) X.nan_rhs = true;
                for (int j = 0; j < n; ++j) { long q = std::labs(long(id[j])) - 1; double sj = id[j] < 0 ? -1 : 1, v = mat(pat, c, i, j); if (std::fabs(v) > C.drop) X.A[{r, q}] += si * sj * v; X.templ.insert({r, q}); if (nan.cell == c && nan.i == i && nan.j == j) X.nan_mat = true; } } }
        for (long r = bg; r < en; ++r) X.templ.insert({r, r});
        auto sorted = [&](Sparse::Matrix& A) { for (long r = bg; r < en; ++r) for (unsigned k = 1; k < A[r].Size(); ++k) if (A[r].GetIndex(k - 1) >= A[r].GetIndex(k)) return false; return true; };
        auto compare = [&](const char* what, Sparse::Matrix& A, double scale, const Mat& extra, bool all) { mc::checked(); if (long(A.GetFirstIndex()) != bg || long(A.GetLastIndex()) != en) return say(std::string(what) + ": interval of the matrix");
            std::set<std::pair<long, long>> seen; for (long r = bg; r < en; ++r) for (unsigned k = 0; k < A[r].Size(); ++k) { long q = A[r].GetIndex(k); double v = A[r].GetValue(k); if (!seen.insert({r, q}).second) return say(mc::fmt("%s: entry (%ld, %ld) is there twice", what, r, q)); auto it = X.A.find({r, q}); auto ie = extra.find({r, q}); double x = (it == X.A.end() ? 0 : scale * it->second) + (ie == extra.end() ? 0 : ie->second); if (!X.templ.count({r, q}) && ie == extra.end()) return say(mc::fmt("%s: entry (%ld, %ld) does not belong to the matrix", what, r, q)); if (v != x) return say(mc::fmt("%s: entry (%ld, %ld) is %g instead of %g", what, r, q, v, x)); }
            if (scale) for (auto& q : X.A) if (!seen.count(q.first)) return say(mc::fmt("%s: entry (%ld, %ld) is missing", what, q.first.first, q.first.second)); if (all) for (auto& q : X.templ) if (!seen.count(q)) return say(mc::fmt("%s: entry (%ld, %ld) of the template is missing", what, q.first, q.second)); for (auto& q : extra) if (!seen.count(q.first)) return say(mc::fmt("%s: entry (%ld, %ld) is lost", what, q.first.first, q.first.second)); };
        auto compare_rhs = [&](const char* what, Sparse::Vector& F, double scale) { mc::checked(); if (long(F.GetFirstIndex()) != bg || long(F.GetLastIndex()) != en) return say(std::string(what) + ": interval of the right-hand side"); for (long r = bg; r < en; ++r) { double x = X.F.count(r) ? scale * X.F[r] : 0; if (F[r] != x) return say(mc::fmt("%s: right-hand side %ld is %g instead of %g", what, r, F[r], x)); } };
        auto start = [&](bool mtx, bool rh) { matrix_run = mtx; both = mtx && rh; seen.clear(); mc::trans(); }; auto finish = [&](const char* what, int st, int exp) { if (st != exp) say(mc::fmt("%s returns %d instead of %d", what, st, exp)); if (exp == 0 && seen != X.cells) say(mc::fmt("%s processes %d of %d cells", what, int(seen.size()), int(X.cells.size()))); if (!problem.empty()) say(std::string(what) + ": " + problem); };
        Ani::AssmOpts op(&user_cookie, C.drop); op.SetIsMtxSorted(C.insert == 1 || C.insert == 3).SetIsMtxIncludeTemplate(C.insert == 3 || C.insert == 4).SetUseOrderedInsert(C.insert == 2 || C.insert == 3 || C.insert == 5);
        Mat extra; auto fresh = [&](Sparse::Matrix& A) { extra.clear(); A.SetInterval(bg, en); if (C.insert == 3 || C.insert == 4) { int st = a.AssembleTemplate(A); if (st) say("template"); if (!sorted(A)) say("template: rows are not sorted"); compare("template", A, 0, extra, C.fun != 0 && !pat); }
            if (C.insert >= 5) for (long r = bg; r < en; ++r) for (long k : {long(e.getMatrixSize()) - 1 - (r * 5) % e.getMatrixSize(), (r * 3 + 2) % e.getMatrixSize()}) if (!extra.count({r, k})) A[r].Push(INMOST_DATA_ENUM_TYPE(k), extra[{r, k}] = 1000. + r + 7 * k); };
        bool can_both = (C.fun & 4) || (C.fun & 3) == 3, can_mat = C.fun & 5, can_rhs = C.fun & 6; std::streambuf* err = std::cerr.rdbuf(nullptr);
        { Sparse::Matrix A; Sparse::Vector F; if (can_both) { fresh(A); for (int k = 1; k <= 2; ++k) { if (C.insert == 1) op.SetIsMtxSorted(k == 1); start(true, true); int st = a.Assemble(A, F, op); finish("Assemble", st, X.nan_mat || X.nan_rhs ? -1 : 0); if (X.nan_mat || X.nan_rhs) break; compare("Assemble", A, k, extra, false); compare_rhs("Assemble", F, k); if (op.use_ordered_insert && !sorted(A)) say("Assemble: rows are not sorted"); } } }
        { Sparse::Matrix A; if (can_mat) { fresh(A); for (int k = 1; k <= 2; ++k) { if (C.insert == 1) op.SetIsMtxSorted(k == 1); start(true, false); int st = a.AssembleMatrix(A, op); finish("AssembleMatrix", st, X.nan_mat ? -1 : 0); if (X.nan_mat) break; compare("AssembleMatrix", A, k, extra, false); if (op.use_ordered_insert && !sorted(A)) say("AssembleMatrix: rows are not sorted"); } if (!X.nan_mat) { a.AssembleTemplate(A); compare("AssembleTemplate", A, 2, extra, !pat); if (!sorted(A)) say("AssembleTemplate: rows are not sorted"); } } }
        { Sparse::Vector F; if (can_rhs) for (int k = 1; k <= 2; ++k) { start(false, true); int st = a.AssembleRHS(F, op); finish("AssembleRHS", st, X.nan_rhs ? -1 : 0); if (X.nan_rhs) break; compare_rhs("AssembleRHS", F, k); } }
        std::cerr.rdbuf(err);
        if (!nan_used(nan)) { // storing of the solution
            Sparse::Vector x, y; x.SetInterval(bg, en); for (long r = bg; r < en; ++r) x[r] = 0.5 + r; Tag t[5]; std::vector<Tag> tv[4]; for (int i = 0; i < 5; ++i) t[i] = m->CreateTag(mc::fmt("t%d", i), DATA_REAL, mask, NONE, mx); for (int i = 0; i < 4; ++i) for (size_t v = 0; v < nv; ++v) tv[i].push_back(m->CreateTag(mc::fmt("t%d_%d", i, int(v)), DATA_REAL, w[v].mem->mask, NONE, w[v].GetSize()));
            a.SaveSolution(x, t[0]); a.SaveSolution(x, tv[0]); a.SaveSolution(t[0], t[1]); a.SaveSolution(t[0], tv[1]); a.SaveSolution(tv[0], t[2]); mc::trans(5);
            a.SaveSolution(t[0], y); for (long r = bg; r < en; ++r) if (y[r] != x[r]) say("SaveSolution: from a tag to the vector"); Sparse::Vector z; a.SaveSolution(tv[0], z); for (long r = bg; r < en; ++r) if (z[r] != x[r]) say("SaveSolution: from tags of the variables to the vector");
            for (size_t v = 0; v < nv; ++v) { a.SaveVar(x, int(v), tv[2][v]); a.SaveVar(int(v), tv[2][v], t[3]); a.SaveVar(t[0], int(v), tv[3][v]); a.CopyVar(int(v), tv[3][v], w[v]); }
            each([&](HandleType h, int, int, const D& d) { double q = m->RealArray(h, num)[d.edof] - 0.5; auto R = [&](Tag t, unsigned i) { return m->RealArray(h, t)[i]; }; for (int i = 0; i < 4; ++i) if (R(t[i], d.edof) != q) say(mc::fmt("saving of the solution: tag %d", i)); for (int i = 0; i < 4; ++i) if (R(tv[i][d.v], d.vdof) != q) say(mc::fmt("saving of the solution: tags %d", i)); if (R(w[d.v], d.vdof) != q) say("saving of the solution: variable"); mc::checked(); });
            for (int i = 0; i < 5; ++i) m->DeleteTag(t[i]); for (int i = 0; i < 4; ++i) for (auto& q : tv[i]) m->DeleteTag(q);
        }
        m->DeleteTag(u); m->DeleteTag(num); m->DeleteTag(own); for (auto& q : w) m->DeleteTag(q); ++nstep; }
    });
    for (int p = 0; p < np; ++p) { mc::state(); MC_REQ(why[p].empty(), sg, "process %d: %s", p, why[p].c_str()); }
}
static void check(const Set& S, const mock::Topo& T, const mock::Dist& D, const Conf& C, const std::string& sg, Bad nan = Bad(), int threads = 1) { check(std::vector<Step>{Step{&S, C, true}}, T, D, sg, nan, threads); }
#ifndef INM_ASSM_PART
static void body() {
    auto S = sets(); auto T = topos(); auto v = mc::opt().variant; int c = 0;
    if (v.empty() || v == "meshes") { auto T = topos(); for (auto& l : large()) T.push_back(l); for (size_t is = 0; is < S.size(); ++is) for (size_t it = 0; it < T.size(); ++it) { auto D = dists(T[it].t.tets.size()); for (size_t id = 0; id < D.size(); ++id) { ++c; bool par = D[id].nproc > 1; if (!mc::thorough() && T[it].t.tets.size() >= 3 && par && (id + is) % 7) continue;
        std::string own; for (int o : D[id].owner) own += char('0' + o);
        mc::run_case(mc::fmt("%s on %s, cells of %d processes %s, %d layers, order %d", S[is].name.c_str(), T[it].name.c_str(), D[id].nproc, own.c_str(), D[id].layers, D[id].local), "assembling", [&] { int m = mc::thorough() ? 6 : 2; for (int k = 0; k < m; ++k) check(S[is], T[it].t, D[id], conf((c * m + k) * 37), "meshes:" + S[is].name); }); } } }
    if (v.empty() || v == "options") for (size_t is : {0, 1, 4, 5, 9}) for (int k = 0; k < NCONF; ++k) mc::run_case(mc::fmt("%s options %d", S[is].name.c_str(), k), "options", [&] { mock::Dist d; d.nproc = 2; d.owner = {0, 1}; d.layers = k % 2; d.local = k % 3; check(S[is], T[1].t, d, conf(k), "options:" + S[is].name); });
    if (v.empty() || v == "again") { // the same assembler is used for several problems
        static const int Q[6][4] = {{0, 1, 4, 9}, {9, 9, 9, 0}, {4, 3, 4, 4}, {10, 2, 2, 10}, {7, 7, 0, 7}, {1, 5, 6, 1}};
        for (int q = 0; q < 6; ++q) for (int k = 0; k < (mc::thorough() ? 600 : 60); ++k) mc::run_case(mc::fmt("problems %d options %d", q, k), "again", [&] { mock::Dist d; d.nproc = 1 + k % 2; d.owner = {0, k % 2}; d.layers = k % 2; d.local = k % 3; std::vector<Step> st; for (int i = 0; i < 4; ++i) { Conf C = conf(k * 37 + i * (k % 5 * 331 + 111)); st.push_back(Step{&S[Q[q][i]], C, i == 0 || Q[q][i] != Q[q][i - 1] || (k + i) % 3 == 0}); } check(st, T[1].t, d, mc::fmt("again:%d", q)); }); }
    if (v.empty() || v == "nan") for (size_t is : {0, 3, 9}) for (int cell = 0; cell < 2; ++cell) { int n = int(vars_of(S[is]).NumDofOnTet()); for (int i = 0; i < n; ++i) for (int j = -1; j < n; ++j) mc::run_case(mc::fmt("%s cell %d entry (%d, %d) is not a number", S[is].name.c_str(), cell, i, j), "nan", [&] { static const double V[3] = {NAN, INFINITY, -INFINITY}; mock::Dist d; d.nproc = 2; d.owner = {0, 1}; d.layers = 1; for (int k = 0; k < 3; ++k) { const Conf& C = conf((i * 16 + j + 1) * 3 + k * 701); if ((C.spm || C.spr || C.spm2 || C.spr2) && !(j < 0 ? in_rhs(1, i) : in_mat(1, i, j))) continue; check(S[is], T[1].t, d, C, "nan:" + S[is].name, Bad{cell, i, j, V[k]}); } }); }
}
MC_MAIN(body)
#endif
