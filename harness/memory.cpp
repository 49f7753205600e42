// A01: blocks handed out by the work memory, as a history against a model of the live blocks.
#include "pbt.h"
#include <cstdlib>
#include <memory>
#include <new>
#include <stdexcept>
#include <functional>
#include "anifem++/fem/fem_memory.h"
using pbt::Src; using pbt::Ctx; using pbt::fmt;
using namespace Ani;
// ---- allocations from the heap are counted --------------------------------------------------------------------------
static thread_local bool g_count = false; static thread_local size_t g_bytes = 0;
void* operator new(size_t n){ if (g_count) g_bytes += n; void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

struct Range { const char* b; const char* e; };
// one live block; the values are written when it is created and must stay
template<class R, class I> struct Live {
    typename DynMem<R, I>::MemPart part; size_t d = 0, i = 0, m = 0; uint64_t tag = 0; R* rd = nullptr; I* id = nullptr; DenseMatrix<R>* md = nullptr; int owner = 0;
    void fill(){ for (size_t k = 0; k < d; ++k) rd[k] = (R)((tag*7 + k) % 120); for (size_t k = 0; k < i; ++k) id[k] = (I)((tag*5 + k) % 120); for (size_t k = 0; k < m; ++k){ md[k].nRow = tag + k; md[k].nCol = tag*3 + k; } }
    bool kept() const { for (size_t k = 0; k < d; ++k) if (rd[k] != (R)((tag*7 + k) % 120)) return false; for (size_t k = 0; k < i; ++k) if (id[k] != (I)((tag*5 + k) % 120)) return false; for (size_t k = 0; k < m; ++k) if (md[k].nRow != tag + k || md[k].nCol != tag*3 + k) return false; return true; }
    void ranges(std::vector<Range>& r) const { if (d) r.push_back({(char*)rd, (char*)(rd + d)}); if (i) r.push_back({(char*)id, (char*)(id + i)}); if (m) r.push_back({(char*)md, (char*)(md + m)}); }
};
template<class L> static void disjoint(Ctx& c, const L& live, const char* when){
    std::vector<Range> r; for (auto& x: live) x->ranges(r); std::sort(r.begin(), r.end(), [](const Range& a, const Range& b){ return a.b < b.b; });
    for (size_t k = 1; k < r.size(); ++k) c.ok(r[k - 1].e <= r[k].b, [&]{ return fmt("%s: two of %zu live blocks overlap by %zd bytes", when, r.size(), r[k - 1].e - r[k].b); });
}
template<class R, class I> static void take(Ctx& c, DynMem<R, I>& mem, Live<R, I>& l, size_t d, size_t i, size_t m, uint64_t tag){
    l.d = d; l.i = i; l.m = m; l.tag = tag; auto p = mem.alloc(d, i, m); l.part = std::move(p); auto x = l.part.getPlainMemoryX(); auto y = l.part.getPlainMemory();
    c.ok(x.dSize == d && x.iSize == i && x.mSize == m && y.dSize == d && y.iSize == i, "sizes of the block are those asked for"); c.ok(x.ddata == y.ddata && x.idata == y.idata, "both views are the same memory");
    c.ok((!d || x.ddata) && (!i || x.idata) && (!m || x.mdata), "no memory"); c.ok((uintptr_t)x.ddata % alignof(R) == 0 && (uintptr_t)x.idata % alignof(I) == 0 && (uintptr_t)x.mdata % alignof(DenseMatrix<R>) == 0, "alignment");
    l.rd = x.ddata; l.id = x.idata; l.md = x.mdata;
}
static size_t some(Src& s, bool big){ return s.chance(1, 4) ? 0 : big && s.chance(1, 3) ? 10 + s.below(300) : 1 + s.below(12); }
// order of releases: 0 last-in first-out, 1 any, 2 mostly last
template<class R, class I> static void history(Src& s, Ctx& c){
    using L = Live<R, I>; DynMem<R, I> mem; std::vector<std::unique_ptr<L>> live; int n = 3 + (int)s.below(30), order = s.pick({2, 3, 2}); uint64_t tag = 0; c.label(order == 0 ? "last in first out" : order == 1 ? "any order" : "mostly last"); bool ooo = false, reuse = false; int frees = 0; std::string log;
    for (int step = 0; step < n; ++step){
        int op = live.empty() ? 0 : s.pick({5, 4, 1, 1, 1});
        if (op == 0){ auto l = std::make_unique<L>(); size_t d = some(s, true), i = some(s, true), m = some(s, false); log += fmt("+%zu,%zu,%zu ", d, i, m); c.note(fmt("+%zu,%zu,%zu", d, i, m)); take(c, mem, *l, d, i, m, ++tag); live.push_back(std::move(l)); disjoint(c, live, "after a request"); live.back()->fill(); if (frees) reuse = true; }
        else if (op == 1){ size_t k = live.size() - 1; if (order == 1 || (order == 2 && s.chance(1, 3))) k = s.below(live.size()); if (k + 1 != live.size()) ooo = true; c.note(fmt("-%zu", k)); int how = (int)s.below(3); ++frees;
            if (how == 0) live[k]->part.clear(); else if (how == 1) live[k]->part = typename DynMem<R, I>::MemPart(); live.erase(live.begin() + k); }
        else if (op == 2){ size_t k = s.below(live.size()); c.note(fmt("move %zu", k)); typename DynMem<R, I>::MemPart t(std::move(live[k]->part)); auto x = t.getPlainMemoryX(); c.ok(x.ddata == live[k]->rd && x.idata == live[k]->id && x.mdata == live[k]->md, "a moved block is the same memory"); c.ok(live[k]->part.getPlainMemoryX().ddata == nullptr, "a moved-from block is empty"); live[k]->part = std::move(t); }
        else if (op == 3 && order){ size_t a = s.below(live.size()), b = s.below(live.size()); if (a != b){ c.note(fmt("move %zu over %zu", a, b)); live[b]->part = std::move(live[a]->part); auto t = std::move(live[a]); live[b]->d = t->d; live[b]->i = t->i; live[b]->m = t->m; live[b]->tag = t->tag; live[b]->rd = t->rd; live[b]->id = t->id; live[b]->md = t->md; live.erase(live.begin() + a); ooo = true; ++frees; } }
        else if (op == 4 && s.chance(1, 2)){ c.note("defragment in use"); bool thrown = false; try { mem.defragment(); } catch (const std::runtime_error&){ thrown = true; } (void)thrown; }
        for (auto& l: live) c.ok(l->kept(), [&]{ return fmt("content of a live block of %zu+%zu+%zu changed after step %d", l->d, l->i, l->m, step); });
    }
    if (ooo) c.label("released out of order"); c.nontrivial(reuse && n > 5); disjoint(c, live, "at the end");
    // everything released: memory is usable again as one piece
    size_t td = 0, ti = 0; for (auto& l: live){ td += l->d; ti += l->i; } while (!live.empty()) live.pop_back(); mem.defragment(); { L l; take(c, mem, l, td, ti, 0, 77); l.fill(); c.ok(l.kept(), "block after defragmentation"); }
}
PBT_PROP(A01_history, 12000, 200000, "histories of more than five steps that request memory after releasing some"){ history<double, int>(s, c); }
PBT_PROP(A01_history_float, 6000, 80000, "histories of more than five steps that request memory after releasing some"){ history<float, short>(s, c); }
PBT_PROP(A01_history_wide, 4000, 60000, "histories of more than five steps that request memory after releasing some"){ history<long double, long>(s, c); }
// a history of nested requests, repeated after defragmentation, takes nothing more from the heap
PBT_PROP(A01_repeat, 8000, 120000, "nested requests with at least three live at once"){
    struct Op { int k; size_t d, i, m; }; std::vector<Op> ops; int depth = 0, mx = 0; int n = 2 + (int)s.below(24); for (int k = 0; k < n; ++k){ if (depth && s.chance(2, 5)){ ops.push_back({1, 0, 0, 0}); --depth; c.note("-"); } else { ops.push_back({0, some(s, true), some(s, true), some(s, false)}); c.note(fmt("+%zu,%zu,%zu", ops.back().d, ops.back().i, ops.back().m)); mx = std::max(mx, ++depth); } }
    c.nontrivial(mx >= 3); DynMem<> mem; using P = DynMem<>::MemPart; 
    auto pass = [&](bool measure){ std::vector<P> st; st.reserve(ops.size() + 1); g_bytes = 0; g_count = measure; for (auto& o: ops){ if (o.k == 1) st.pop_back(); else st.push_back(mem.alloc(o.d, o.i, o.m)); } while (!st.empty()) st.pop_back(); g_count = false; return g_bytes; };
    pass(false); mem.defragment(); int rep = 1 + (int)s.below(3); for (int k = 0; k < rep; ++k){ size_t b = pass(true); c.ok(b == 0, [&]{ return fmt("repetition %d took %zu bytes from the heap", k, b); }); if (s.flip()) mem.defragment(); }
}
// views with smaller elements on the same memory
template<class R, class I> static void adaptor(Src& s, Ctx& c){
    DynMem<double, long> mem; auto ad = makeAdaptor<R, I>(mem); using LA = Live<R, I>; using LB = Live<double, long>; std::vector<std::unique_ptr<LA>> a; std::vector<std::unique_ptr<LB>> b; int n = 3 + (int)s.below(20); uint64_t tag = 0; bool any = s.flip(); int both = 0;
    auto check = [&](const char* w){ std::vector<Range> r; for (auto& x: a) x->ranges(r); for (auto& x: b) x->ranges(r); std::sort(r.begin(), r.end(), [](const Range& p, const Range& q){ return p.b < q.b; }); for (size_t k = 1; k < r.size(); ++k) c.ok(r[k - 1].e <= r[k].b, [&]{ return fmt("%s: live blocks overlap", w); }); for (auto& x: a) c.ok(x->kept(), "content of an adapted block"); for (auto& x: b) c.ok(x->kept(), "content of a block"); };
    std::vector<int> st;
    for (int k = 0; k < n; ++k){ int op = s.pick({3, 3, 3}); 
        if (op == 0){ auto l = std::make_unique<LA>(); size_t d = some(s, true), i = some(s, true), m = some(s, false); c.note(fmt("a+%zu,%zu,%zu", d, i, m)); take<R, I>(c, ad, *l, d, i, m, ++tag); l->fill(); a.push_back(std::move(l)); st.push_back(0); if (b.size()) ++both; }
        else if (op == 1){ auto l = std::make_unique<LB>(); size_t d = some(s, true), i = some(s, true), m = some(s, false); c.note(fmt("b+%zu,%zu,%zu", d, i, m)); take<double, long>(c, mem, *l, d, i, m, ++tag); l->fill(); b.push_back(std::move(l)); st.push_back(1); if (a.size()) ++both; }
        else if (st.size()){ if (any){ if (a.size() && (b.empty() || s.flip())){ size_t q = s.below(a.size()); a.erase(a.begin() + q); c.note(fmt("a-%zu", q)); } else if (b.size()){ size_t q = s.below(b.size()); b.erase(b.begin() + q); c.note(fmt("b-%zu", q)); } } else { c.note("-"); if (st.back() == 0) a.pop_back(); else b.pop_back(); st.pop_back(); } }
        check("after a step"); }
    c.nontrivial(both > 0); a.clear(); b.clear(); if (s.flip()) ad.defragment(); else mem.defragment(); LA l; take<R, I>(c, ad, l, 5, 5, 1, 3); l.fill(); c.ok(l.kept(), "block after defragmentation");
}
PBT_PROP(A01_adaptor, 5000, 60000, "blocks of both kinds live at once"){ adaptor<float, short>(s, c); }
PBT_PROP(A01_adaptor_same, 3000, 40000, "blocks of both kinds live at once"){ adaptor<double, int>(s, c); }
// ---- planned memory -------------------------------------------------------------------------------------------------
struct Area { std::unique_ptr<char[]> own; char* p; size_t n; Area(size_t n, size_t shift): own(new char[n + shift]), p(own.get() + shift), n(n) {} }; // exactly n bytes up to the end of the heap block
template<class R, class I> static void inside(Ctx& c, const Area& A, std::vector<std::array<size_t, 3>> blocks, const char* what){ // address, bytes, alignment
    std::sort(blocks.begin(), blocks.end()); size_t at = (size_t)A.p; for (auto& b: blocks){ if (!b[1]) continue; c.ok(b[0] != 0, [&]{ return fmt("%s: no memory", what); }); c.ok(b[0] >= at, [&]{ return fmt("%s: blocks overlap or lie before the memory", what); }); c.ok(b[0] + b[1] <= (size_t)A.p + A.n, [&]{ return fmt("%s: block ends behind the memory by %zu bytes", what, b[0] + b[1] - (size_t)A.p - A.n); }); c.ok(b[0] % b[2] == 0, [&]{ return fmt("%s: block is not aligned", what); }); at = b[0] + b[1]; } }
template<class R, class I> static void plain(Src& s, Ctx& c){
    PlainMemory<R, I> m; m.dSize = some(s, true); m.iSize = some(s, true); size_t d = m.dSize, i = m.iSize; size_t need = m.enoughRawSize(), shift = s.below(33), n = need; bool enough = true; if (s.chance(1, 3)){ if (need){ n = s.below(need); enough = false; } } else if (s.chance(1, 3)) n += s.below(40); c.note(fmt("%zu and %zu elements in %zu of %zu bytes at offset %zu", d, i, n, need, shift)); c.nontrivial(d && i); c.label(enough ? "announced size" : "less");
    Area A(n, shift); bool given = s.flip(); void* e = given ? m.allocateFromRaw(A.p, n) : m.allocateFromRaw(A.p, n, d, i); if (enough) c.ok(e != nullptr || (!d && !i), "the announced size is enough"); if (!e) return; c.ok((char*)e >= A.p && (char*)e <= A.p + n, "end of the used memory"); c.ok(m.dSize == d && m.iSize == i, "sizes");
    inside<R, I>(c, A, {{(size_t)m.ddata, d*sizeof(R), alignof(R)}, {(size_t)m.idata, i*sizeof(I), alignof(I)}}, "raw"); if (d) c.ok((char*)(m.ddata + d) <= e, "end"); if (i) c.ok((char*)(m.idata + i) <= e, "end");
}
template<class R, class I> static void plainx(Src& s, Ctx& c){
    using DM = DenseMatrix<R>; PlainMemoryX<R, I> m; m.dSize = some(s, true); m.iSize = some(s, true); m.mSize = some(s, false); size_t d = m.dSize, i = m.iSize, q = m.mSize; int how = (int)s.below(3); size_t shift = s.below(33); c.nontrivial(d && i && q); c.note(fmt("%zu, %zu and %zu elements", d, i, q));
    if (how == 0){ size_t need = m.enoughRawSize(), n = need; bool enough = true; if (s.chance(1, 3)){ if (need){ n = s.below(need); enough = false; } } else if (s.chance(1, 3)) n += s.below(40); c.note(fmt("raw: %zu of %zu bytes at offset %zu", n, need, shift)); c.label(enough ? "raw" : "raw, less"); Area A(n, shift); void* e = s.flip() ? m.allocateFromRaw(A.p, n) : m.allocateFromRaw(A.p, n, d, i, q); if (enough) c.ok(e != nullptr || (!d && !i && !q), "the announced size is enough"); if (!e) return; c.ok((char*)e >= A.p && (char*)e <= A.p + n, "end of the used memory"); c.ok(m.dSize == d && m.iSize == i && m.mSize == q, "sizes");
        inside<R, I>(c, A, {{(size_t)m.ddata, d*sizeof(R), alignof(R)}, {(size_t)m.idata, i*sizeof(I), alignof(I)}, {(size_t)m.mdata, q*sizeof(DM), alignof(DM)}}, "raw"); if (d) c.ok((char*)(m.ddata + d) <= e, "end"); if (i) c.ok((char*)(m.idata + i) <= e, "end"); if (q) c.ok((char*)(m.mdata + q) <= e, "end"); return; }
    bool scal = how == 1; auto p = m.enoughPlainMemory(scal); size_t nd = p.dSize, ni = p.iSize; c.ok(nd >= d && ni >= i, "plain memory holds the elements"); bool enough = true; if (s.chance(1, 3)){ enough = false; if (nd && s.flip()) nd = s.below(nd); else if (ni) ni = s.below(ni); else enough = true; if (nd == p.dSize && ni == p.iSize) enough = true; } c.note(fmt("plain: %zu of %zu and %zu of %zu, matrices in the %s", nd, p.dSize, ni, p.iSize, scal ? "reals" : "integers")); c.label(enough ? "plain" : "plain, less");
    std::unique_ptr<R[]> D(new R[nd + 3]); std::unique_ptr<I[]> J(new I[ni + 3]); size_t od = s.below(4), oi = s.below(4); R* dp = D.get() + od; I* ip = J.get() + oi; size_t dcap = nd, icap = ni; (void)dcap; (void)icap; std::unique_ptr<R[]> D2(new R[nd + od]); std::unique_ptr<I[]> J2(new I[ni + oi]); dp = D2.get() + od; ip = J2.get() + oi;
    bool r; if (s.flip()) r = m.allocateFromPlainMemory(dp, nd, ip, ni, d, i, q, scal); else { PlainMemory<R, I> pm; pm.ddata = dp; pm.idata = ip; pm.dSize = nd; pm.iSize = ni; r = m.allocateFromPlainMemory(pm, scal); }
    if (enough) c.ok(r, "the announced plain memory is enough"); if (!r) return; c.ok(m.dSize == d && m.iSize == i && m.mSize == q, "sizes");
    auto in = [&](const void* b, size_t n, const void* B, size_t N){ return (char*)b >= (char*)B && (char*)b + n <= (char*)B + N; }; if (d) c.ok(in(m.ddata, d*sizeof(R), dp, nd*sizeof(R)), "reals lie in the given memory"); if (i) c.ok(in(m.idata, i*sizeof(I), ip, ni*sizeof(I)), "integers lie in the given memory");
    if (q){ c.ok((size_t)m.mdata % alignof(DM) == 0, "matrices are aligned"); c.ok(scal ? in(m.mdata, q*sizeof(DM), dp, nd*sizeof(R)) : in(m.mdata, q*sizeof(DM), ip, ni*sizeof(I)), "matrices lie in the given memory"); const char* a = (char*)m.mdata, *b = a + q*sizeof(DM); if (scal && d) c.ok((char*)(m.ddata + d) <= a || (char*)m.ddata >= b, "matrices do not overlap reals"); if (!scal && i) c.ok((char*)(m.idata + i) <= a || (char*)m.idata >= b, "matrices do not overlap integers"); }
}
#define PL(name, f, R, I, q, t) PBT_PROP(name, q, t, "all kinds of elements requested"){ f<R, I>(s, c); }
using ldbl = long double;
PL(A01_plain_double_int, plain, double, int, 10000, 100000)
PL(A01_plain_float_char, plain, float, char, 6000, 60000)
PL(A01_plain_char_double, plain, char, double, 6000, 60000)
PL(A01_plain_wide, plain, ldbl, short, 6000, 60000)
PL(A01_planx_double_int, plainx, double, int, 12000, 120000)
PL(A01_planx_double_long, plainx, double, long, 6000, 60000)
PL(A01_planx_float_char, plainx, float, char, 6000, 60000)
PL(A01_planx_char_double, plainx, char, double, 6000, 60000)
PL(A01_planx_wide, plainx, ldbl, short, 6000, 60000)
// requirements: the larger of two holds either of them, their sum holds both one after another
PBT_PROP(A01_requirements, 10000, 100000, "requirements that differ in every size"){
    PlainMemoryX<> a, b; a.dSize = some(s, true); a.iSize = some(s, true); a.mSize = some(s, false); b.dSize = some(s, true); b.iSize = some(s, true); b.mSize = some(s, false); c.note(fmt("%zu,%zu,%zu and %zu,%zu,%zu", a.dSize, a.iSize, a.mSize, b.dSize, b.iSize, b.mSize)); c.nontrivial(a.dSize != b.dSize && a.iSize != b.iSize && a.mSize != b.mSize);
    c.ok(a.ge(b) == (a.dSize >= b.dSize && a.iSize >= b.iSize && a.mSize >= b.mSize), "ge"); auto e = a; e.extend_size(b); c.ok(e.ge(a) && e.ge(b), "the extended requirement covers both"); c.ok(e.dSize == std::max(a.dSize, b.dSize) && e.iSize == std::max(a.iSize, b.iSize) && e.mSize == std::max(a.mSize, b.mSize), "extended by no more than needed");
    auto u = a; u.append_size(b); c.ok(u.dSize == a.dSize + b.dSize && u.iSize == a.iSize + b.iSize && u.mSize == a.mSize + b.mSize, "appended");
    PlainMemory<> p, q; p.dSize = a.dSize; p.iSize = a.iSize; q.dSize = b.dSize; q.iSize = b.iSize; c.ok(p.ge(q) == (p.dSize >= q.dSize && p.iSize >= q.iSize), "ge"); auto f = p; f.extend_size(q); c.ok(f.dSize == std::max(p.dSize, q.dSize) && f.iSize == std::max(p.iSize, q.iSize), "extended"); auto g = p; g.append_size(q); c.ok(g.dSize == p.dSize + q.dSize && g.iSize == p.iSize + q.iSize, "appended");
}
