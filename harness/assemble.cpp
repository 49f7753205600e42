// G03: the assembled matrix and vector are the sums of what the functions of a cell give. Contributions are whole numbers,
// so sums do not depend on the order of cells and are compared exactly.
#include "kept.h"
#include <atomic>
#include <iostream>
#include <cstring>
#include "anifem++/inmost_interface/assembler.h"
typedef ThreadPar::Type PT;
static const char* RULE = "at least two cells and five degrees of freedom on a cell";
static bool rich(const Grid& g, const Vars& V){ return g.parts[3].size() > 1 && V.tet() > 4; }
struct Quiet { std::streambuf* o; Quiet(): o(std::cerr.rdbuf(nullptr)) {} ~Quiet(){ std::cerr.rdbuf(o); std::cerr.clear(); } };
static uint64_t bits(double x){ uint64_t r; std::memcpy(&r, &x, 8); return r; }
struct UD { uint64_t x; };
// ---- a function of a cell ---------------------------------------------------------------------------------------
struct Fn { bool mat, rhs; int n; bool spA = false, spF = false; std::vector<char> a, f; uint64_t salt; int form; bool wide, user, dyn, accum, half; size_t nw, niw; double bad = 0; int badk = -1; bool badA = false; std::array<double, 3> badx{};
    uint64_t key(const double* const* x, const double* init, uint64_t ud) const { uint64_t h = salt; for (int k = 0; k < 4; ++k) for (int j = 0; j < 3; ++j) h = pbt::mix(h ^ bits(x[k][j])); if (wide) for (int i = 0; i < n; ++i) h = pbt::mix(h ^ bits(init[i])); if (user) h = pbt::mix(h ^ ud); return h; }
    double val(uint64_t h, int i, int j) const { h = pbt::mix(h ^ (uint64_t)(i + 1)*1000003u ^ (uint64_t)(j + 2)*7919u << 20); return h % 16 == 0 ? 0 : (double)(long)(h % 4001) - 2000; }
    bool hit(const double* const* x) const { if (badk < 0) return false; for (int k = 0; k < 4; ++k) if (x[k][0] == badx[0] && x[k][1] == badx[1] && x[k][2] == badx[2]) return true; return false; }
    double A(uint64_t h, bool b, int i, int j) const { return b && badA && i + n*j == badk ? bad : val(h, i, j); } double F(uint64_t h, bool b, int i) const { return b && !badA && i == badk ? bad : val(h, i, -1); }
    void run(const double** x, double* oA, double* oF, double* w, long* iw, void* ud, DynMem<double, long>* dm) const {
        uint64_t h = key(x, wide ? x[4] : nullptr, user ? static_cast<UD*>(ud)->x : 0); bool b = hit(x); for (size_t k = 0; k < nw; ++k) w[k] = (double)(h % 1000003) + k; for (size_t k = 0; k < niw; ++k) iw[k] = (long)(h % 999983) - (long)k; bool spoiled = false; 
        auto put = [&](double* o, long k, double v){ if (accum) o[k] += v; else o[k] = v; };
        auto work = [&]{ long k = 0; if (mat) for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) if (a[i + n*j]) put(oA, k++, A(h, b, i, j)); k = 0; if (rhs) for (int i = 0; i < n; ++i) if (f[i]) put(oF, k++, F(h, b, i)); };
        if (dyn){ auto p = dm->alloc(3 + h % 5, 2, 0), q = dm->alloc(40, 40, 0); double* d = p.getPlainMemory().ddata; double* e = q.getPlainMemory().ddata; for (int k = 0; k < 3; ++k) d[k] = (double)(h % 65537) + k; for (int k = 0; k < 40; ++k) e[k] = (double)(h % 127) - k; work(); for (int k = 0; k < 3; ++k) spoiled |= d[k] != (double)(h % 65537) + k; for (int k = 0; k < 40; ++k) spoiled |= e[k] != (double)(h % 127) - k; } else work();
        for (size_t k = 0; k < nw; ++k) spoiled |= w[k] != (double)(h % 1000003) + k; for (size_t k = 0; k < niw; ++k) spoiled |= iw[k] != (long)(h % 999983) - (long)k;
        if (spoiled){ if (mat) oA[0] = 1e30; if (rhs) oF[0] = 1e30; } }
    long nnz(const std::vector<char>& v) const { long r = 0; for (char x: v) r += x; return r; }
    static MatSparsity<long> sp(bool sparse, int n, int m, const std::vector<char>& v){ if (!sparse) return MatSparsity<long>::make_as_dense(n, m); std::vector<long> c{0}, r; for (int j = 0; j < m; ++j){ for (int i = 0; i < n; ++i) if (v[i + n*j]) r.push_back(i); c.push_back((long)r.size()); } return MatSparsity<long>::make_as_sparse((long)r.size(), n, m, c, r); }
    std::string txt() const { return fmt("%s%s form %d%s%s%s%s%s", mat ? rhs ? "matrix and vector" : "matrix" : "vector", "", form, spA ? ", sparse matrix" : "", spF ? ", sparse vector" : "", wide ? ", values" : "", user ? ", data of the user" : "", dyn ? ", memory" : ""); } };
typedef MatFuncWrapDynamic<PT::NONE> MW;
template<PT P> static MatFuncWrapDynamic<P> wrap(const Fn& q){
    typedef MatFuncWrapDynamic<P> W; typedef typename W::IOData IO; typedef DynMem<double, long> DM; int n = q.n;
    if (q.form == 0){ std::vector<MatSparsity<long>> in(4, MatSparsity<long>::make_as_dense(3, 1)), out; if (q.wide) in.push_back(MatSparsity<long>::make_as_dense(n, 1)); if (q.mat) out.push_back(Fn::sp(q.spA, n, n, q.a)); if (q.rhs) out.push_back(Fn::sp(q.spF, n, 1, q.f));
        return W([q](const double** x, double** r, double* w, long* iw, void* ud, DM* dm)->int{ q.run(x, q.mat ? r[0] : nullptr, q.rhs ? r[q.mat] : nullptr, w, iw, ud, dm); return 0; }, in, out, q.nw, q.niw, q.user, q.dyn); }
    if (q.form == 1){ std::function<void(IO)> f = [q](IO o){ q.run(o.args, q.mat ? o.res[0] : nullptr, q.rhs ? o.res[q.mat] : nullptr, o.w, o.iw, o.user_data, o.allocator); }; return q.mat ? q.rhs ? GenerateElemMatRhs<P>(f, n, n, q.nw, q.niw, q.user, q.dyn) : GenerateElemMat<P>(f, n, n, q.nw, q.niw, q.user, q.dyn) : GenerateElemRhs<P>(f, n, q.nw, q.niw, q.user, q.dyn); }
    if (q.mat && q.rhs){
        if (q.dyn) return GenerateElemMatRhs<P>(std::function<void(const double**, double*, double*, double*, long*, void*, DM*)>([q](const double** x, double* A, double* F, double* w, long* iw, void* u, DM* d){ q.run(x, A, F, w, iw, u, d); }), n, n, q.nw, q.niw);
        if (q.nw + q.niw && q.user) return GenerateElemMatRhs<P>(std::function<void(const double**, double*, double*, double*, long*, void*)>([q](const double** x, double* A, double* F, double* w, long* iw, void* u){ q.run(x, A, F, w, iw, u, nullptr); }), n, n, q.nw, q.niw);
        if (q.nw + q.niw) return GenerateElemMatRhs<P>(std::function<void(const double**, double*, double*, double*, long*)>([q](const double** x, double* A, double* F, double* w, long* iw){ q.run(x, A, F, w, iw, nullptr, nullptr); }), n, n, q.nw, q.niw);
        if (q.user) return GenerateElemMatRhs<P>(std::function<void(const double**, double*, double*, void*)>([q](const double** x, double* A, double* F, void* u){ q.run(x, A, F, nullptr, nullptr, u, nullptr); }), n, n);
        return GenerateElemMatRhs<P>(std::function<void(const double**, double*, double*)>([q](const double** x, double* A, double* F){ q.run(x, A, F, nullptr, nullptr, nullptr, nullptr); }), n, n); }
    auto g = [q](const double** x, double* o, double* w, long* iw, void* u, DM* d){ q.run(x, q.mat ? o : nullptr, q.rhs ? o : nullptr, w, iw, u, d); };
    if (q.dyn){ std::function<void(const double**, double*, double*, long*, void*, DM*)> f = g; return q.mat ? GenerateElemMat<P>(f, n, n, q.nw, q.niw) : GenerateElemRhs<P>(f, n, q.nw, q.niw); }
    if (q.nw + q.niw && q.user){ std::function<void(const double**, double*, double*, long*, void*)> f = [g](const double** x, double* o, double* w, long* iw, void* u){ g(x, o, w, iw, u, nullptr); }; return q.mat ? GenerateElemMat<P>(f, n, n, q.nw, q.niw) : GenerateElemRhs<P>(f, n, q.nw, q.niw); }
    if (q.nw + q.niw){ std::function<void(const double**, double*, double*, long*)> f = [g](const double** x, double* o, double* w, long* iw){ g(x, o, w, iw, nullptr, nullptr); }; return q.mat ? GenerateElemMat<P>(f, n, n, q.nw, q.niw) : GenerateElemRhs<P>(f, n, q.nw, q.niw); }
    if (q.user){ std::function<void(const double**, double*, void*)> f = [g](const double** x, double* o, void* u){ g(x, o, nullptr, nullptr, u, nullptr); }; return q.mat ? GenerateElemMat<P>(f, n, n) : GenerateElemRhs<P>(f, n); }
    std::function<void(const double**, double*)> f = [g](const double** x, double* o){ g(x, o, nullptr, nullptr, nullptr, nullptr); }; return q.mat ? GenerateElemMat<P>(f, n, n) : GenerateElemRhs<P>(f, n);
}
static Fn any_fn(Src& s, bool mat, bool rhs, int n, bool wide){
    Fn q; q.mat = mat; q.rhs = rhs; q.n = n; q.salt = pbt::mix(s.below(1000) + 17*mat + 31*rhs); q.wide = wide; q.form = wide ? 0 : s.pick({3, 1, 2}); q.user = s.chance(1, 3); q.dyn = s.chance(1, 4); q.accum = s.chance(1, 4); q.nw = s.chance(1, 3) ? s.range(1, 6) : 0; q.niw = s.chance(1, 3) ? s.range(1, 6) : 0; if (q.form == 2 && q.dyn) q.user = s.flip();
    q.a.assign(n*n, 1); q.f.assign(n, 1); if (q.form == 0){ if (mat && s.chance(2, 3)){ q.spA = true; int k = s.pick({4, 1, 1, 1}); int num = s.range(1, 3); for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) q.a[i + n*j] = k == 0 ? s.chance(num, 4) : k == 1 ? i == j : k == 2 ? i % 2 == j % 2 : 1; } if (rhs && s.chance(1, 2)){ q.spF = true; bool all = s.chance(1, 5); for (auto& x: q.f) x = all ? 1 : s.flip(); } }
    return q;
}
static size_t thr_cells(const Grid& g){ return g.parts[3].size(); }
// ---- the model --------------------------------------------------------------------------------------------------
struct Rec { int calls = 0; HandleType n[4], e[6], f[4]; double x[12]; std::vector<double> init; unsigned char perm[4]; int type = -1; };
struct Where { long id; int sign; };
template<class Asm, PT P> struct Run {
    Src& s; Ctx& c; Grid& g; Asm& as; Vars V; std::vector<Fn> fn; std::array<int, 3> at{-1, -1, -1}; /* matrix, vector, both */ int n; bool wide, reorder, own_ud; std::vector<char> skip; std::vector<Rec> rec; UD ud[2]; std::vector<std::map<unsigned, double>> M; std::vector<double> R; INMOST::Sparse::Matrix m; INMOST::Sparse::Vector v; std::function<double(const Rec&, int, int)> init; std::string txt; std::vector<std::vector<Where>> pos; bool named = false; bool broken = false; Tag itag; std::vector<Tag> itags;
    Run(Src& s, Ctx& c, Grid& g, Asm& as): s(s), c(c), g(g), as(as) {}
    Fn* used(int what){ return what >= 0 ? &fn[what] : nullptr; }
    Loc place(const Rec& r){ std::array<int, 4> v; for (int k = 0; k < 4; ++k) v[k] = g.vertex(r.n[k]); return loc(g, g.part(3, {v[0], v[1], v[2], v[3]}), v); }
    void setup(int round){
        V = variables(s, c, true, 36); n = (int)V.tet(); wide = s.flip(); reorder = s.chance(3, 4); own_ud = s.chance(1, 3); ud[0].x = s.below(99); ud[1].x = 1000 + s.below(99); fn.clear(); at = {-1, -1, -1}; int which = 1 + (int)s.pick({1, 1, 3, 4, 1, 1, 1}); // bits
        for (int k = 0; k < 3; ++k) if (which >> k & 1){ at[k] = (int)fn.size(); fn.push_back(any_fn(s, k != 1, k != 0, n, wide)); c.note(fn.back().txt()); } if (s.chance(1, 8)){ auto& q = fn[s.below(fn.size())]; q.badA = q.mat && (!q.rhs || s.flip()); q.badk = (int)s.below(q.badA ? n*n : n); q.bad = s.flip() ? std::nan("") : INFINITY; q.badx = g.x[g.parts[3][s.below(thr_cells(g))].v[0]]; c.label("not a number"); }
        skip.assign(g.parts[3].size(), 0); if (s.chance(1, 4)) for (auto& x: skip) x = s.chance(1, 3); for (auto& p: g.parts[3]) g.m->slot(p.h).hidden = s.chance(1, 12);
        // the assembler
        as.SetMesh(*g.m); FemExprDescr d; if (s.flip()) for (size_t i = 0; i < V.v.size(); ++i) d.PushFemPair(DofMap(V.v[i].p), fmt("u%d", (int)i), DofMap(V.v[i].p), fmt("t%d", (int)i)); else for (size_t i = 0; i < V.v.size(); ++i){ d.PushTrialFunc(DofMap(V.v[i].p), fmt("u%d", (int)i)); d.PushTestFunc(DofMap(V.v[i].p), fmt("t%d", (int)i)); } as.SetProbDescr(d);
        int en = s.pick({3, 3, 2, 1}); if (en == 1 || en == 2){ GlobEnumeration e((GlobEnumeration::ASSEMBLING_TYPE)s.below(6)); e.setMesh(g.m.get()).setVars(V.c); e.setup(); if (en == 1) as.SetEnumerator(std::move(e)); else as.SetEnumerator(e); c.label("set numbering"); }
        else if (en == 3){ GlobEnumeration e; std::vector<unsigned char> pm{0, 1, 2, 3, 4}; s.shuffle(pm); OrderedEnumerator o; o.setArrangment({pm[0], pm[1], pm[2], pm[3], pm[4]}).setReverse(s.flip()); e.setBaseEnumerator(std::move(o)); e.setMesh(g.m.get()).setVars(V.c); e.setup(); as.SetEnumerator(std::move(e)); c.label("any numbering"); }
        as.m_assm_traits.reorder_nodes = reorder; bool ef = s.chance(3, 4); as.m_assm_traits.prepare_edges = ef; as.m_assm_traits.prepare_faces = ef; bool have_ef = ef || V.on(1) || V.on(2);
        typedef MatFuncWrapHolder<P> H; for (int k = 0; k < 3; ++k) if (at[k] >= 0){ auto w = wrap<P>(fn[at[k]]); int how = (int)s.below(3); auto set = [&](auto&& x){ if (k == 0) as.SetMatFunc(std::forward<decltype(x)>(x)); else if (k == 1) as.SetRHSFunc(std::forward<decltype(x)>(x)); else as.SetMatRHSFunc(std::forward<decltype(x)>(x)); }; if (how == 0){ H h(std::move(w)); set(std::move(h)); } else if (how == 1){ H h(std::move(w)); const H& r = h; set(r); } else set(std::shared_ptr<MatFuncWrap<>>(std::make_shared<MatFuncWrapDynamic<P>>(w))); }
        // initial values
        int is = (int)s.pick({2, 2, 2, 2, 2, 1}); static const char* nm[] = {"no initial values", "a number", "a tag", "a pointer to a tag", "tags", "a function"}; c.label(nm[is]); txt = nm[is]; Map all = whole(V); auto num = [this](int v){ return (long)g.vgid(v); };
        if (is == 0){ init = [](const Rec&, int, int){ return 0.0; }; as.m_init_value_setter = nullptr; }
        else if (is == 1){ double x = s.range(-5, 5) + 0.5; as.SetInitValueSetter(Asm::makeInitValueSetter(x)); init = [x](const Rec&, int, int){ return x; }; }
        else if (is == 2 || is == 3){ itag = make_tag(s, g, fmt("init%d", round), dims(all.f), most(all.f)); fill(g, itag, all.f); if (is == 2){ if (s.flip()) as.SetInitValueSetter(Asm::makeInitValueSetter(itag)); else as.pullInitValFrom(itag); } else { Tag keep = itag; bool late = s.flip(); if (late) itag = Tag(); as.pullInitValFrom(&itag); itag = keep; } init = [this, all, num](const Rec& r, int i, int){ Loc l = place(r); Kept k = kept(g, all.f, all.f.d[i], l, num); return k.sign*::val(*k.p, k.at); }; }
        else if (is == 4){ itags.clear(); for (size_t q = 0; q < V.v.size(); ++q){ Tag t = make_tag(s, g, fmt("init%d.%d", round, (int)q), dims(V.v[q].f), most(V.v[q].f)); fill(g, t, V.v[q].f); itags.push_back(t); } if (s.flip()) as.SetInitValueSetter(Asm::makeInitValueSetter(itags)); else as.pullInitValFrom(itags); init = [this, num](const Rec& r, int i, int){ Loc l = place(r); int q = 0; while (i >= (int)V.v[q].f.d.size()) i -= (int)V.v[q++].f.d.size(); Kept k = kept(g, V.v[q].f, V.v[q].f.d[i], l, num); return k.sign*::val(*k.p, k.at); }; }
        else { auto fun = [](ElementalAssembler& p){ for (size_t i = 0; i < p.vars->initValues.size(); ++i) p.vars->initValues[i] = 3.0*p.cell->GetHandle() + i; }; if (s.flip()) as.SetInitValueSetter(fun); else as.SetInitValueSetter(std::function<void(ElementalAssembler&)>(fun)); init = [](const Rec&, int i, int h){ return 3.0*h + i; }; }
        bool other = own_ud; auto handler = [this, have_ef, other](ElementalAssembler& p){ int id = g.by_handle(p.cell->GetHandle()).id; Rec& r = rec[id]; ++r.calls; for (int k = 0; k < 4; ++k) r.n[k] = p.nodes->data()[k]; if (have_ef){ for (int k = 0; k < 6; ++k) r.e[k] = p.edges->data()[k]; for (int k = 0; k < 4; ++k) r.f[k] = p.faces->data()[k]; } else { for (auto& q: r.e) q = 0; for (auto& q: r.f) q = 0; } r.init = p.vars->initValues; for (int k = 0; k < 4; ++k) r.perm[k] = p.node_permutation[k]; r.type = p.f_type; std::copy(p.get_nodes(), p.get_nodes() + 12, r.x);
            if (skip[id]) return; { auto a = p.pool->alloc(5, 3, 0), b = p.pool->alloc(30, 2, 0); for (int k = 0; k < 5; ++k) a.getPlainMemory().ddata[k] = k; for (int k = 0; k < 30; ++k) b.getPlainMemory().ddata[k] = k; }
            const double* x[5]; for (int k = 0; k < 4; ++k) x[k] = p.get_nodes() + 3*k; x[4] = p.vars->initValues.data(); if (other) p.compute(x, &ud[1]); else p.compute(x); };
        if (s.flip()) as.SetDataGatherer(handler); else as.SetDataGatherer(std::function<void(ElementalAssembler&)>(handler));
        as.PrepareProblem(); long N = as.getEndInd(); c.ok(as.getBegInd() == 0 && N == as.GetEnumerator().getMatrixSize(), "interval of numbers"); M.assign(N, {}); R.assign(N, 0); m.Clear(); v.Clear(); locals = 0;
        have = have_ef;
        if (s.flip()){ bool so = s.flip(); m.SetInterval(0, (unsigned)N); for (long i = 0; i < N; ++i){ std::set<unsigned> cs; int k = (int)s.below(4); for (int q = 0; q < k; ++q) cs.insert((unsigned)s.below(N)); std::vector<unsigned> o(cs.begin(), cs.end()); if (!so) s.shuffle(o); for (unsigned q: o){ double x = s.range(-3, 3); m[(unsigned)i].Push(q, x); M[i][q] = x; } } c.label(so ? "filled matrix" : "filled matrix in any order"); }
        if (s.flip()){ v.SetInterval(0, (unsigned)N); for (long i = 0; i < N; ++i) v[(unsigned)i] = R[i] = s.range(-9, 9); }
    }
    int locals = 0; bool have = true;
    bool sorted(){ for (auto i = m.GetFirstIndex(); i < m.GetLastIndex(); ++i) for (unsigned k = 1; k < m[i].Size(); ++k) if (m[i].GetIndex(k-1) >= m[i].GetIndex(k)) return false; return true; }
    std::vector<Where> wheres(const Loc& l){ std::vector<Where> r; auto num = [this](int v){ return (long)g.vgid(v); }; for (int q = 0; q < (int)V.v.size(); ++q) for (auto& it: V.v[q].f.d){ Kept k = kept(g, V.v[q].f, it, l, num); unsigned lde = k.at - (V.second(it.t) ? V.v[q].f.nd[it.t-1] : 0), per = V.per(q, it.t); r.push_back({as.GetEnumerator()(IGlobEnumeration::NaturalIndex(g.el(*k.p), parts::type_code(it.t), q, (int)(lde/per), (int)(lde % per))).id, k.sign}); } return r; }
    bool visible(const Part& p){ return !g.m->slot(p.h).hidden; }
    Loc taken(const Part& p){ INMOST::ElementArray<INMOST::Node> nd(g.m.get(), 4); INMOST::ElementArray<INMOST::Edge> ed(g.m.get(), 6); INMOST::ElementArray<INMOST::Face> fc(g.m.get(), 4); collectConnectivityInfo(INMOST::Cell(g.m.get(), p.h), nd, ed, fc, reorder, false); std::array<int, 4> v; for (int k = 0; k < 4; ++k) v[k] = g.vertex(nd.data()[k]); return loc(g, p, v); } // for a template the handler does not tell the order of nodes
    // one operation; false: the state of matrices is not specified any more
    bool op(){
        static const char* nm[] = {"matrix and vector", "matrix", "vector", "template"}; int o = (int)s.pick({3, 3, 2, 2}); int nt = P == PT::NONE ? s.range(-1, 3) : s.chance(1, 20) ? -1 : s.range(1, 4); as.m_assm_traits.num_threads = nt; int fm = -1, fr = -1; // the functions used
        if (o == 0){ if (at[2] >= 0) fm = fr = at[2]; else if (at[0] >= 0 && at[1] >= 0){ fm = at[0]; fr = at[1]; } } else if (o == 2) fr = at[1] >= 0 ? at[1] : at[2]; else fm = at[0] >= 0 ? at[0] : at[2];
        bool can = o == 2 ? fr >= 0 : fm >= 0; AssmOpts op; double drop = 1e-100; std::string how = nm[o]; if (P != PT::NONE) how += fmt(", %d threads", nt);
        rec.assign(g.parts[3].size(), Rec()); bool dosort = false, incl = false, ordered = false;
        // places to be filled
        std::vector<std::set<unsigned>> need(M.size()); std::map<int, std::vector<Where>> wh; if (fm >= 0) for (auto& p: g.parts[3]) if (visible(p)){ auto w = wheres(loc(g, p, {p.v[0], p.v[1], p.v[2], p.v[3]})); (void)w; }
        if (s.flip()) op.SetUserData(&ud[0]); else op = AssmOpts(&ud[0]);
        if (s.chance(1, 3)){ static const double D[] = {0, 0.5, 300.5, 1500.5, 5000}; drop = D[s.below(5)]; op.SetDropVal(drop); how += fmt(", values to %g dropped", drop); }
        ordered = s.flip(); op.SetUseOrderedInsert(ordered); if (sorted() && s.flip()){ dosort = true; op.SetIsMtxSorted(true); }
        if (templ >= 0 && templ == fm && sorted() && s.chance(3, 4)){ incl = true; op.SetIsMtxIncludeTemplate(true); if (s.flip()){ dosort = true; op.SetIsMtxSorted(true); } }
        how += ordered ? ", ordered insert" : ""; how += dosort ? ", sorted" : ""; how += incl ? ", with the template" : ""; c.note(how); c.label(nm[o]); if (o == 0 || o == 1){ if (ordered) c.label("ordered insert"); if (incl) c.label("with the template"); if (dosort) c.label("sorted"); } if (o != 3 && drop > 1) c.label("values are dropped");
        if (o == 0 && at[2] < 0 && can) c.label("two functions for the system"); if (o == 1 && at[0] < 0 && can) c.label("matrix of the system"); if (o == 2 && at[1] < 0 && can) c.label("vector of the system");
        int st = 0; bool thr = false; try { st = o == 0 ? as.Assemble(m, v, op) : o == 1 ? as.AssembleMatrix(m, op) : o == 2 ? as.AssembleRHS(v, op) : as.AssembleTemplate(m); } catch (const std::runtime_error&){ thr = true; } c.ok(thr == !can, how + (thr ? ": an exception" : ": no function is given but there is no exception")); if (thr){ c.label("no function"); return true; }
        // what the handler was given, and the contributions
        bool bad = false; auto num = [this](int v){ return (long)g.vgid(v); };
        struct Add { unsigned i, j; double x; }; std::vector<Add> addM; std::vector<std::pair<unsigned, double>> addR; long N = (long)M.size();
        bool canb = false; for (auto& q: fn) canb |= q.badk >= 0; 
        for (auto& p: g.parts[3]){ Rec& r = rec[p.id]; if (o == 3 || !visible(p)){ c.ok(r.calls == 0, how + ": the handler is called for a cell it must not be"); if (o != 3) continue; if (!visible(p)) continue; }
            else { if (canb && st == -1 && r.calls == 0) continue; c.ok(r.calls == 1, [&]{ return how + fmt(": the handler is called %d times for the cell %d", r.calls, p.id); }); c.ok(r.type == (o == 0 ? ElementalAssembler::MAT_RHS : o == 1 ? ElementalAssembler::MAT : ElementalAssembler::RHS), how + ": kind of use"); }
            Loc l; if (o == 3){ l = taken(p); } else { std::set<HandleType> hs(r.n, r.n + 4), own; for (int q: p.v) own.insert(g.parts[0][q].h); c.ok(hs == own, how + ": nodes of another cell"); l = place(r); if (reorder) c.ok(det(g.x[l.n[0]], g.x[l.n[1]], g.x[l.n[2]], g.x[l.n[3]]) < 0, how + ": nodes are not in positive order"); else for (int k = 0; k < 4; ++k) c.ok(l.n[k] == g.order[p.id][k], how + ": nodes are not in the stored order");
                for (int k = 0; k < 12; ++k) c.ok(r.x[k] == g.x[l.n[k/3]][k%3], how + ": coordinates of nodes"); if (have){ for (int k = 0; k < 6; ++k) c.ok(r.e[k] == l.edges[k], how + ": edges"); for (int k = 0; k < 4; ++k) c.ok(r.f[k] == l.faces[k], how + ": faces"); }
                c.ok((int)r.init.size() == n, "number of initial values"); for (int i = 0; i < n; ++i){ double w = init(r, i, p.h); c.ok(r.init[i] == w, [&]{ return how + fmt(", cell %d: initial value %d is %.12g, expected %.12g (%s)", p.id, i, r.init[i], w, txt.c_str()); }); }
                std::array<long, 4> gn; for (int k = 0; k < 4; ++k) gn[k] = num(l.n[k]); auto pr = ranks(gn); bool triv = true; for (auto& q: V.v) for (auto& it: q.f.d) triv = triv && it.st == 0 && pattern(it.t, it.st, it.ls) == std::string(pattern(it.t, it.st, it.ls).size(), 'a') && it.t != 2 && it.t != 4; for (int k = 0; k < 4; ++k) c.ok(triv || r.perm[k] == pr[k], how + ": order of the numbers of nodes"); }
            auto w = wheres(l); for (auto& q: w) c.ok(q.id >= 0 && q.id < N, "number of a degree of freedom");
            if (o == 3){ for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (fn[fm].a[i + n*j]) addM.push_back({(unsigned)w[i].id, (unsigned)w[j].id, 0}); continue; }
            if (skip[p.id]) continue;
            const double* x[4]; for (int k = 0; k < 4; ++k) x[k] = r.x + 3*k; uint64_t u = own_ud ? ud[1].x : ud[0].x;
            if (o != 2){ Fn& q = fn[fm]; uint64_t h = q.key(x, r.init.data(), u); bool b = q.hit(x); for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) if (q.a[i + n*j]){ double y = q.A(h, b, i, j); if (!std::isfinite(y)) bad = true; else if (std::fabs(y) > drop) addM.push_back({(unsigned)w[i].id, (unsigned)w[j].id, w[i].sign*w[j].sign*y}); } }
            if (o == 0 || o == 2){ Fn& q = fn[fr]; uint64_t h = q.key(x, r.init.data(), u); bool b = q.hit(x); for (int i = 0; i < n; ++i) if (q.f[i]){ double y = q.F(h, b, i); if (!std::isfinite(y)) bad = true; else addR.push_back({(unsigned)w[i].id, w[i].sign*y}); } } }
        if (bad){ c.ok(st == -1, how + ": not a number is not reported"); c.label("not a number is reported"); return false; } c.ok(st == 0, how + fmt(": status %d", st));
        if (o != 2){ if (!incl) for (long i = 0; i < N; ++i) M[i][(unsigned)i]; for (auto& a: addM) M[a.i][a.j] += a.x; if (o == 3) templ = fm; } for (auto& a: addR) R[a.first] += a.second;
        if (o != 2){ c.ok(m.GetFirstIndex() == 0 && (long)m.GetLastIndex() == N, how + ": interval of the matrix"); for (long i = 0; i < N; ++i){ auto& row = m[(unsigned)i]; std::set<unsigned> seen; for (unsigned k = 0; k < row.Size(); ++k){ unsigned j = row.GetIndex(k); c.ok(seen.insert(j).second, how + fmt(": column %u of row %ld is repeated", j, i)); auto it = M[i].find(j); c.ok(it != M[i].end(), [&]{ return how + fmt(": the place %ld,%u must not be there (value %g)", i, j, row.GetValue(k)); }); double y = row.GetValue(k), w = it->second; c.ok(y == w, [&]{ return how + fmt(": the entry %ld,%u is %.12g, expected %.12g", i, j, y, w); }); } c.ok(seen.size() == M[i].size(), [&]{ return how + fmt(": there are %d places in row %ld instead of %d", (int)seen.size(), i, (int)M[i].size()); }); } if (o == 3 || ordered) c.ok(sorted(), how + ": rows are not sorted"); }
        if (o == 0 || o == 2){ c.ok(v.GetFirstIndex() == 0 && (long)v.GetLastIndex() == N, how + ": interval of the vector"); for (long i = 0; i < N; ++i) c.ok(v[(unsigned)i] == R[i], [&]{ return how + fmt(": the entry %ld of the vector is %.12g, expected %.12g", i, v[(unsigned)i], R[i]); }); }
        return true;
    }
    int templ = -1;
};
template<class Asm, PT P> static void drive(Src& s, Ctx& c){
    Quiet quiet; Grid g = make(s, c, 4); Asm as; bool big = false; int rounds = s.pick({4, 1}) + 1;
    for (int r = 0; r < rounds; ++r){ Run<Asm, P> run(s, c, g, as); if (r){ as.Clear(); c.label("used again after clearing"); } run.setup(r); if (rich(g, run.V)) big = true; int k = s.range(1, 4); for (int i = 0; i < k; ++i) if (!run.op()) break; }
    if (big) c.nontrivial();
}
PBT_PROP(G03_sums, 1500, 30000, RULE){ drive<AssemblerT<DefaultAssemblerTraits>, PT::NONE>(s, c); }
PBT_PROP(G03_threads, 1000, 20000, RULE){ drive<AssemblerT<DefaultParallelAssemblerTraits<PT::STD>>, PT::STD>(s, c); }

// ---- access to data through the assembler -----------------------------------------------------------------------
static std::vector<double> all_values(const Grid& g, const std::vector<Tag>& ts){ std::vector<double> r; for (auto& t: ts) for (int d = 0; d < 4; ++d) if (t.isDefined(1u << d)) for (auto& p: g.parts[d]){ auto a = g.el(p).RealArray(t); r.push_back(a.size()); for (unsigned k = 0; k < a.size(); ++k) r.push_back(a[k]); } return r; }
PBT_PROP(G03_access, 800, 15000, RULE){
    Quiet quiet; Grid g = make(s, c, 3); Vars V = variables(s, c, true, 50); Map all = whole(V); int n = (int)V.tet(), nv = (int)V.v.size(); typedef AssemblerT<DefaultAssemblerTraits> As; As as; if (s.flip()) as.SetMesh(*g.m); else as = As(*g.m); FemExprDescr d; for (int i = 0; i < nv; ++i) d.PushFemPair(DofMap(V.v[i].p), fmt("u%d", i), DofMap(V.v[i].p), fmt("t%d", i)); 
    // what has to be set before the preparation
    int miss = s.chance(1, 5) ? 1 + (int)s.below(3) : 0; static const char* ms[] = {"", "no mesh", "no description", "no function"}; if (miss == 1) as.m_mesh = nullptr; if (miss != 2) as.SetProbDescr(d); if (miss != 3) as.SetRHSFunc(GenerateElemRhs(std::function<void(const double**, double*)>([n](const double**, double* F){ for (int i = 0; i < n; ++i) F[i] = 1; }), n));
    if (miss){ bool thr = false; try { as.PrepareProblem(); } catch (const std::runtime_error&){ thr = true; } c.ok(thr, std::string("the problem is prepared: ") + ms[miss]); c.label(ms[miss]); return; }
    GlobEnumeration en((GlobEnumeration::ASSEMBLING_TYPE)s.below(6)); en.setMesh(g.m.get()).setVars(V.c); en.setup(); as.SetEnumerator(en); as.PrepareProblem(); c.ok(as.getBegInd() == 0 && as.getEndInd() == en.getMatrixSize(), "interval of numbers"); long N = as.getEndInd(); c.ok(as.GetVarHelper().IsSameTemplate() && as.GetVarHelper().NumVars() == nv && (int)as.GetVarHelper().initValues.size() == n, "description of variables");
    // gathering
    bool multi = s.flip(); std::vector<Tag> tags; if (multi) for (int q = 0; q < nv; ++q){ tags.push_back(make_tag(s, g, fmt("g%d", q), dims(V.v[q].f), most(V.v[q].f))); fill(g, tags.back(), V.v[q].f); } else { tags.push_back(make_tag(s, g, "g", dims(all.f), most(all.f))); fill(g, tags[0], all.f); }
    const bool reorder = true; for (auto& p: g.parts[3]){ INMOST::ElementArray<INMOST::Node> nd(g.m.get(), 4); INMOST::ElementArray<INMOST::Edge> ed(g.m.get(), 6); INMOST::ElementArray<INMOST::Face> fc(g.m.get(), 4); INMOST::Cell cell(g.m.get(), p.h); collectConnectivityInfo(cell, nd, ed, fc, reorder, false); std::array<int, 4> v; for (int k = 0; k < 4; ++k) v[k] = g.vertex(nd.data()[k]); Loc l = loc(g, p, v);
        int q0 = s.chance(1, 2) ? (int)s.below(nv) : -1; std::vector<double> want, got(n + 2, KEEP); for (int q = 0; q < nv; ++q) if (q0 < 0 || q == q0){ size_t first = 0; for (int k = 0; k < q; ++k) first += V.v[k].f.d.size(); for (size_t i = 0; i < V.v[q].f.d.size(); ++i){ const Flat& f = multi ? V.v[q].f : all.f; Kept k = kept(g, f, f.d[multi ? i : first + i], l, [&](int x){ return (long)g.vgid(x); }); want.push_back(k.sign*val(*k.p, k.at)); } } want.resize(n + 2, KEEP);
        double* o = got.data(); int how = (int)s.below(4); std::vector<int> comp; if (q0 >= 0) comp.push_back(q0);
        if (multi){ if (how == 0) as.GatherDataOnElement(tags.data(), tags.size(), cell, o, comp.data(), (unsigned)comp.size()); else if (how == 1){ if (q0 < 0) as.GatherDataOnElement(tags, cell, o); else as.GatherDataOnElement(tags, cell, o, {q0}); } else if (how == 2) as.GatherDataOnElement<true>(tags.data(), tags.size(), cell, o, comp.data(), (unsigned)comp.size()); else if (q0 < 0) as.GatherDataOnElement<true>(tags, cell, o); else as.GatherDataOnElement<true>(tags, cell, o, {q0}); }
        else { if (how == 0) as.GatherDataOnElement(tags[0], cell, o, comp.data(), (unsigned)comp.size()); else if (how == 1){ if (q0 < 0) as.GatherDataOnElement(tags[0], cell, o, {}); else as.GatherDataOnElement(tags[0], cell, o, {q0}); } else if (how == 2) as.GatherDataOnElement<true>(tags[0], cell, o, comp.data(), (unsigned)comp.size()); else if (q0 < 0) as.GatherDataOnElement<true>(tags[0], cell, o, {}); else as.GatherDataOnElement<true>(tags[0], cell, o, {q0}); }
        for (int i = 0; i < n + 2; ++i) c.ok(got[i] == want[i], [&]{ return fmt("gathering from %s, variable %d, cell %d: value %d is %.12g, expected %.12g", multi ? "tags" : "a tag", q0, p.id, i, got[i], want[i]); }); }
    // saving: as the copies of the enumerator, which are tested on their own
    int cnt = 0; auto tg = [&](const Flat& f, bool full){ Tag t = g.m->CreateTag(fmt("s%d", cnt++), INMOST::DATA_REAL, dims(f), 0, most(f)); for (int d = 0; d < 4; ++d) if (on(f, d)) for (auto& p: g.parts[d]){ auto a = g.el(p).RealArray(t); if (a.size() < on(f, d)) a.resize(on(f, d)); for (unsigned k = 0; k < a.size(); ++k) a[k] = full ? val(p, k) + 1e9*cnt : -1; } return t; };
    int op = (int)s.below(11), v = (int)s.below(nv); std::vector<Tag> src, dst[2]; auto vars = [&](bool full){ std::vector<Tag> r; for (int k = 0; k < nv; ++k) r.push_back(tg(V.v[k].f, full)); return r; }; INMOST::Sparse::Vector x; x.SetInterval(0, (unsigned)N); for (long i = 0; i < N; ++i) x[i] = i + 0.5;
    INMOST::Sparse::Vector y[2]; const GlobEnumeration& ge = as.GetEnumerator(); static const char* nm[] = {"vector to tag", "vector to tags", "tag to vector", "tag to tag", "tag to tags", "tags to tag", "tags to vector", "variable of a vector", "variable of a tag", "variable into a tag", "variable to variable"}; std::string how = nm[op]; c.label(how);
    if (op == 2 || op == 3 || op == 4 || op == 8) src.push_back(tg(all.f, true)); if (op == 5 || op == 6) src = vars(true); if (op == 9 || op == 10) src.push_back(tg(V.v[v].f, true));
    for (int k = 0; k < 2; ++k){ auto& D = dst[k]; if (op == 0 || op == 3 || op == 5 || op == 9) D.push_back(tg(all.f, false)); if (op == 1 || op == 4) D = vars(false); if (op == 7 || op == 8 || op == 10) D.push_back(tg(V.v[v].f, false)); bool A = k == 0;
        switch (op){ case 0: if (A) as.SaveSolution(x, D[0]); else ge.CopyByEnumeration(x, D[0]); break; case 1: if (A) as.SaveSolution(x, D); else ge.CopyByEnumeration(x, D); break; case 2: if (A) as.SaveSolution(src[0], y[k]); else ge.CopyByEnumeration(src[0], y[k]); break; case 3: if (A) as.SaveSolution(src[0], D[0]); else ge.CopyByEnumeration(src[0], D[0]); break; case 4: if (A) as.SaveSolution(src[0], D); else ge.CopyByEnumeration(src[0], D); break; case 5: if (A) as.SaveSolution(src, D[0]); else ge.CopyByEnumeration(src, D[0]); break; case 6: if (A) as.SaveSolution(src, y[k]); else ge.CopyByEnumeration(src, y[k]); break;
            case 7: if (A) as.SaveVar(x, v, D[0]); else ge.CopyVarByEnumeration(x, D[0], v); break; case 8: if (A) as.SaveVar(src[0], v, D[0]); else ge.CopyVarByEnumeration(src[0], D[0], v); break; case 9: if (A) as.SaveVar(v, src[0], D[0]); else ge.CopyVarByEnumeration(src[0], v, D[0]); break; default: if (A) as.CopyVar(v, src[0], D[0]); else ge.CopyVarByEnumeration(v, src[0], D[0]); } }
    auto a = all_values(g, dst[0]), b = all_values(g, dst[1]); c.ok(a == b, how + ": the assembler saves something else than the enumerator copies"); c.ok(y[0].GetFirstIndex() == y[1].GetFirstIndex() && y[0].GetLastIndex() == y[1].GetLastIndex(), how + ": interval of the vector"); for (auto i = y[0].GetFirstIndex(); i < y[0].GetLastIndex(); ++i) c.ok(y[0][i] == y[1][i], how + ": entry of the vector");
    if (rich(g, V)) c.nontrivial();
}
