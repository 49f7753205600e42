// A02: parallel loops and work memory shared by threads. Built with ThreadSanitizer (std::thread) and with OpenMP.
#include "pbt.h"
#include <atomic>
#include <deque>
#include <memory>
#include <stdexcept>
#include <thread>
#include <list>
#include "anifem++/fem/fem_memory_parallel.h"
using pbt::Src; using pbt::Ctx; using pbt::fmt;
using ThreadPar::Type;
#ifdef WITH_OPENMP
#define SHARED Type::OMP
#else
#define SHARED Type::STD
#endif
static void busy(unsigned k){ for (volatile unsigned i = 0; i < k; i = i + 1) if (i % 64 == 63) std::this_thread::yield(); }
// records what the bodies did; no locks, so that nothing but the loop orders them
struct Rec { std::vector<std::atomic<int>> runs, cell; std::vector<std::atomic<int>> inuse; std::atomic<int> bad{0}, finished{0}; std::vector<int> plain; Rec(int n, int t): runs(n), cell(n), inuse(t), plain(n, 0) {} };
template<Type tp, class It, class Idx> static void loop(Src& s, Ctx& c, int n, It b, It e, Idx index, const char* kind){
    int nt = s.pick({6, 1}) ? -1 : 1 + (int)s.below(s.chance(1, 4) ? 40 : 9); int lim = tp == Type::NONE ? 1 : nt > 0 ? nt : 4096; c.note(fmt("%s, %d calls, %d threads", kind, n, nt)); c.label(kind); c.nontrivial(n > 1 && nt != 1 && tp != Type::NONE);
    Rec R(n, lim + 1); unsigned spin = s.chance(1, 2) ? 0 : (unsigned)s.below(400); int args = (int)s.below(3); int given = 41; std::atomic<int> total{0};
    auto body = [&](auto it, int t, auto&... rest){ int k = index(it); if (t < 0 || t >= lim){ ++R.bad; return; } if (R.inuse[t].exchange(1, std::memory_order_relaxed)) ++R.bad; if (k < 0 || k >= n){ ++R.bad; R.inuse[t].store(0, std::memory_order_relaxed); return; } R.plain[k] += 1; if (spin) busy((spin*(k % 7))); R.runs[k].fetch_add(1, std::memory_order_relaxed); R.cell[k].store(t, std::memory_order_relaxed); int sum = 0; int dummy[] = {0, (sum += (int)rest, 0)...}; (void)dummy; total.fetch_add(sum, std::memory_order_relaxed); R.inuse[t].store(0, std::memory_order_relaxed); R.finished.fetch_add(1, std::memory_order_relaxed); };
    int want = 0; if (args == 0) ThreadPar::parallel_for<tp>(nt, body, b, e); else if (args == 1){ ThreadPar::parallel_for<tp>(nt, body, b, e, given); want = 41; } else { ThreadPar::parallel_for<tp>(nt, body, b, e, 7, (long)100); want = 107; }
    int fin = R.finished.load(); c.ok(fin == n, [&]{ return fmt("%d calls had finished when the loop returned, expected %d", fin, n); }); c.ok(R.bad.load() == 0, [&]{ return fmt("%d calls with a wrong number of the thread, of the index, or with the number of a thread in use", R.bad.load()); });
    for (int k = 0; k < n; ++k) c.ok(R.runs[k].load() == 1 && R.plain[k] == 1, [&]{ return fmt("index %d was called %d times", k, R.runs[k].load()); }); c.ok(total.load() == want*n, [&]{ return fmt("arguments passed on sum up to %d, expected %d", total.load(), want*n); });
}
template<Type tp> static void loops(Src& s, Ctx& c){
    int n = s.pick({3, 3, 1}) == 0 ? (int)s.below(6) : s.chance(3, 4) ? (int)s.below(60) : (int)s.below(600); 
    switch (s.below(5)){
    case 0: { std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i; loop<tp>(s, c, n, v.begin(), v.end(), [](auto it){ return *it; }, "vector"); break; }
    case 1: { std::vector<int> v(n + 1); for (int i = 0; i < n; ++i) v[i] = i; int* p = v.data(); loop<tp>(s, c, n, p, p + n, [p](int* it){ return (int)(it - p); }, "pointer"); break; }
    case 2: { int st = s.range(-500, 500); loop<tp>(s, c, n, st, st + n, [st](int k){ return k - st; }, "int"); break; }
    case 3: { std::deque<int> v(n); for (int i = 0; i < n; ++i) v[i] = i; const auto& cv = v; loop<tp>(s, c, n, cv.begin(), cv.end(), [](auto it){ return *it; }, "deque"); break; }
    default: { long st = s.range(-5, 5)*1000000000000l; loop<tp>(s, c, n, st, st + n, [st](long k){ return (int)(k - st); }, "long"); break; } }
}
PBT_PROP(A02_loop_serial, 2000, 20000, "(serial loops are trivial cases)"){ loops<Type::NONE>(s, c); c.nontrivial(); }
PBT_PROP(A02_loop_shared, 2500, 30000, "more than one call and more than one thread"){ loops<SHARED>(s, c); }
#ifdef WITH_OPENMP
PBT_PROP(A02_loop_std, 1500, 20000, "more than one call and more than one thread"){ loops<Type::STD>(s, c); }
#endif
template<class M> static void exclusion(Src& s, Ctx& c){ M m; int nt = 2 + (int)s.below(5), per = 1 + (int)s.below(60); long cnt = 0; std::vector<std::thread> t; bool tr = s.flip(); c.note(fmt("%d threads, %d each%s", nt, per, tr ? ", try_lock" : "")); c.nontrivial(); for (int i = 0; i < nt; ++i) t.emplace_back([&]{ for (int k = 0; k < per; ++k){ if (tr){ while (!m.try_lock()) std::this_thread::yield(); } else m.lock(); ++cnt; m.unlock(); } }); for (auto& x: t) x.join(); c.ok(cnt == (long)nt*per, [&]{ return fmt("counted %ld instead of %ld", cnt, (long)nt*per); }); }
PBT_PROP(A02_mutex_std, 400, 6000, "every case"){ exclusion<mutex_std>(s, c); }
#ifdef WITH_OPENMP
PBT_PROP(A02_mutex_omp, 400, 6000, "every case"){ exclusion<mutex_omp>(s, c); }
using Mtx = mutex_omp;
#else
using Mtx = mutex_std;
#endif
static_assert(ThreadPar::ParTypeFromMutex<mutex_std>::value == Type::STD && ThreadPar::ParTypeFromMutex<mutex_none>::value == Type::NONE && ThreadPar::ParTypeFromMutex<std::mutex>::value == Type::STD, "types of mutexes");
// threads that take, use and give back memory at the same time; some start late and force new storage
template<class Mem> static bool use(Mem& pool, uint64_t seed, int rounds, std::string& err){
    pbt::Src s(seed);
    for (int r = 0; r < rounds; ++r){ int id = pool.alloc(); auto* m = pool.get(id); if (!m){ err = "no memory"; return false; }
        { std::vector<typename std::remove_reference<decltype(*m)>::type::MemPart> parts; int n = 1 + (int)s.below(4); std::vector<int> tags; for (int k = 0; k < n; ++k){ parts.push_back(m->alloc(1 + s.below(50), s.below(20), s.below(3))); int tag = (int)s.below(1 << 20); tags.push_back(tag); auto p = parts.back().getPlainMemoryX(); for (size_t i = 0; i < p.dSize; ++i) p.ddata[i] = tag + i; for (size_t i = 0; i < p.iSize; ++i) p.idata[i] = tag - i; if (s.flip()) std::this_thread::yield(); }
          if (pool.get(id) != m){ err = "the memory of a live index changed"; return false; }
          for (int k = 0; k < n; ++k){ auto p = parts[k].getPlainMemoryX(); for (size_t i = 0; i < p.dSize; ++i) if (p.ddata[i] != tags[k] + (double)i){ err = "content of a block changed"; return false; } for (size_t i = 0; i < p.iSize; ++i) if (p.idata[i] != tags[k] - (int)i){ err = "content of a block changed"; return false; } }
          while (!parts.empty()) parts.pop_back(); }
        if (s.chance(1, 3)) m->defragment(); pool.release(id); }
    return true; }
PBT_PROP(A02_shared_memory, 600, 8000, "at least two threads"){
    Ani::DynMemParallel<double, int, Mtx> pool; int nt = 1 + (int)s.below(8), rounds = 1 + (int)s.below(12); c.note(fmt("%d threads, %d rounds", nt, rounds)); c.nontrivial(nt > 1); int phases = 1 + (int)s.below(2);
    for (int ph = 0; ph < phases; ++ph){ std::vector<std::string> err(nt); std::vector<uint64_t> seeds; for (int i = 0; i < nt; ++i) seeds.push_back(s.below(1ull << 40)); std::vector<std::thread> t; for (int i = 0; i < nt; ++i) t.emplace_back([&, i]{ use(pool, seeds[i], rounds, err[i]); }); for (auto& x: t) x.join(); for (auto& e: err) c.ok(e.empty(), e); if (s.chance(1, 3)) pool.release_all(); if (s.chance(1, 4)) pool.clear(); }
}
// ranges for loops: bodies of a parallel loop each use the memory of their thread
PBT_PROP(A02_loop_memory, 500, 6000, "more than one call and more than one thread"){
    Ani::DynMemParallel<double, int, Mtx> pool; int loops = 1 + (int)s.below(3); std::vector<int> held; for (int q = 0; q < loops; ++q){
        if (s.flip()) held.push_back(pool.alloc()); int nt = 1 + (int)s.below(8), n = (int)s.below(80); c.note(fmt("%d calls, %d threads, %zu held", n, nt, held.size())); c.nontrivial(nt > 1 && n > 1); auto r = pool.alloc_range(nt); c.ok(r.second - r.first == nt, "size of the range"); std::vector<double> out(n, -1); std::atomic<int> bad{0};
        for (int h: held) c.ok(h < r.first || h >= r.second, "a range contains an index in use");
        ThreadPar::parallel_for<SHARED>(nt, [&](int k, int t){ auto* m = pool.get(r.first + t); auto a = m->alloc(5 + k % 30, 3, 0); auto b = m->alloc(7, 0, 1); auto p = a.getPlainMemoryX(), p2 = b.getPlainMemoryX(); for (size_t i = 0; i < p.dSize; ++i) p.ddata[i] = k; for (size_t i = 0; i < 7; ++i) p2.ddata[i] = -k; if (k % 3 == 0) std::this_thread::yield(); double sm = 0; for (size_t i = 0; i < p.dSize; ++i) sm += p.ddata[i]; for (size_t i = 0; i < 7; ++i) if (p2.ddata[i] != -k) ++bad; out[k] = sm/(5 + k % 30); }, 0, n);
        c.ok(bad.load() == 0, "content of a block changed"); for (int k = 0; k < n; ++k) c.ok(out[k] == k, [&]{ return fmt("call %d computed %g", k, out[k]); }); pool.release_range(r); if (held.size() && s.flip()){ pool.release(held.back()); held.pop_back(); } }
}
// history of one owner of many indices
PBT_PROP(A02_indices, 5000, 80000, "histories with ranges taken while other indices are in use"){
    Ani::DynMemParallel<double, int, Mtx> pool; struct Own { int f, l; std::vector<Ani::DynMem<double, int>*> m; std::vector<Ani::DynMem<double, int>::MemPart> parts; }; std::vector<std::unique_ptr<Own>> own; int n = 2 + (int)s.below(25); bool mixed = false;
    for (int step = 0; step < n; ++step){ int op = own.empty() ? (int)s.below(2) : s.pick({3, 2, 3, 1});
        if (op <= 1){ auto o = std::make_unique<Own>(); if (op == 0){ o->f = pool.alloc(); o->l = o->f + 1; c.note(fmt("alloc %d", o->f)); } else { int k = 1 + (int)s.below(6); auto r = pool.alloc_range(k); o->f = r.first; o->l = r.second; c.note(fmt("range %d-%d", o->f, o->l)); c.ok(o->l - o->f == k, "size of the range"); if (own.size()) mixed = true; }
            c.ok(o->f >= 0, "index"); for (auto& q: own) c.ok(o->l <= q->f || o->f >= q->l, [&]{ return fmt("indices %d-%d are in use as %d-%d", o->f, o->l, q->f, q->l); });
            for (int i = o->f; i < o->l; ++i){ auto* m = pool.get(i); c.ok(m != nullptr, "no memory"); o->m.push_back(m); o->parts.push_back(m->alloc(4, 2, 0)); auto p = o->parts.back().getPlainMemoryX(); p.ddata[0] = i; p.ddata[3] = step; } own.push_back(std::move(o)); }
        else if (op == 2){ size_t k = s.below(own.size()); auto& o = *own[k]; c.note(fmt("release %d-%d", o.f, o.l)); while (!o.parts.empty()) o.parts.pop_back(); if (o.l - o.f == 1 && s.flip()) pool.release(o.f); else pool.release_range({o.f, o.l}); own.erase(own.begin() + k); }
        else { c.note("all"); own.clear(); if (s.flip()) pool.release_all(); else pool.clear(); }
        std::vector<void*> seen; for (auto& q: own) for (int i = q->f; i < q->l; ++i){ auto* m = pool.get(i); c.ok(m == q->m[i - q->f], "the memory of an index in use changed"); seen.push_back(m); auto p = q->parts[i - q->f].getPlainMemoryX(); c.ok(p.ddata[0] == i, "content"); } std::sort(seen.begin(), seen.end()); c.ok(std::unique(seen.begin(), seen.end()) == seen.end(), "two indices share memory"); }
    c.nontrivial(mixed);
}
