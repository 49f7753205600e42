// A small property-based testing engine.
//  * every random decision is a bounded choice taken from a Src; the recorded list of choices (the "tape")
//    identifies the case completely, so that replaying a tape reruns the case and shrinking works on the
//    tape (delete blocks, zero blocks, lower values) for every generator at once;
//  * cases run in forked workers, so that an assertion, a sanitizer report or a crash of the library is a
//    failing case like any other; shrinking reruns candidates in forked children;
//  * case i of property p under seed s draws from a generator seeded by hash(s, p, i): runs are
//    deterministic in the seed and independent of the number of workers.
#pragma once
#include <algorithm>
#include <array>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
#include <malloc.h>
#if defined(__SANITIZE_ADDRESS__) && !defined(PBT_NO_MAIN)
#include <sanitizer/asan_interface.h>
extern "C" const char* __asan_default_options(){ return "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:handle_segv=1:max_malloc_fill_size=1073741824:malloc_fill_byte=254"; }
#endif

namespace pbt {

inline uint64_t mix(uint64_t x){ x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30))*0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27))*0x94D049BB133111EBull; return x ^ (x >> 31); }
inline uint64_t hash_str(const std::string& s){ uint64_t h = 1469598103934665603ull; for (unsigned char c: s) h = (h ^ c)*1099511628211ull; return mix(h); }

struct Fail { std::string msg; };
struct Discard {};

struct Src {
    uint64_t st = 0; bool replay = false; size_t pos = 0;
    std::vector<uint64_t> tape;
    int64_t first = -1;                              // forced first choice (index of an exhaustive case)
    explicit Src(uint64_t seed): st(seed) {}
    explicit Src(std::vector<uint64_t> t): replay(true), tape(std::move(t)) {}
    uint64_t next(){ st += 0x9E3779B97F4A7C15ull; uint64_t x = st; x = (x ^ (x >> 30))*0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27))*0x94D049BB133111EBull; return x ^ (x >> 31); }
    // a choice from [0, n); 0 is the simplest
    uint64_t below(uint64_t n){
        if (n <= 1) n = 1;
        uint64_t v;
        if (replay){ v = pos < tape.size() ? tape[pos] : 0; if (v >= n) v = n - 1; ++pos; return v; }
        v = n == 1 ? 0 : next() % n;
        if (first >= 0 && pos == 0) v = std::min<uint64_t>((uint64_t)first, n - 1);
        tape.push_back(v); ++pos; return v;
    }
    int range(int lo, int hi){ return lo + (int)below((uint64_t)(hi - lo) + 1); }       // inclusive
    bool flip(){ return below(2) == 1; }
    bool chance(int num, int den){ return (int)below(den) >= den - num; }                 // 0 -> false (when num < den)
    // weighted choice
    int pick(std::initializer_list<int> w){ int s = 0; for (int x: w) s += x; int v = (int)below(s); int i = 0; for (int x: w){ if (v < x) return i; v -= x; ++i; } return 0; }
    template<class T> const T& of(const std::vector<T>& v){ return v[below(v.size())]; }
    // real number in [-1, 1] with simple values first: 0, then short decimals, then full precision
    double unit(){
        switch (pick({2, 3, 5})){
            case 0: { static const double t[] = {0, 1, -1, 0.5, -0.5}; return t[below(5)]; }
            case 1: return ((double)below(201) - 100.0)/100.0;
            default: { double u = (double)below(1ull << 53)/9007199254740992.0; return 2*u - 1; }
        }
    }
    // generic real in (lo, hi), never simple
    double real(double lo, double hi){ double u = (double)below(1ull << 40)/1099511627776.0; return lo + (hi - lo)*u; }
    std::vector<int> subset(int n){ std::vector<int> r; for (int i = 0; i < n; ++i) if (flip()) r.push_back(i); return r; }
    template<class T> void shuffle(std::vector<T>& v){ for (size_t i = v.size(); i > 1; --i){ size_t j = i - 1 - below(i); std::swap(v[i-1], v[j]); } }
    void assume(bool c){ if (!c) throw Discard(); }
};

inline std::string fmt(const char* f, ...){ char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
template<class It> std::string join(It b, It e, const char* sep = " "){ std::ostringstream o; o.precision(17); for (It i = b; i != e; ++i){ if (i != b) o << sep; o << *i; } return o.str(); }
template<class V> std::string show(const V& v){ return "[" + join(v.begin(), v.end(), ",") + "]"; }

inline char*& live_desc(){ static char* p = nullptr; return p; }
struct Ctx {
    bool nt = false;
    std::vector<std::string> labels;
    std::string desc;                                // human readable description of the case
    uint64_t checks = 0;
    bool want_desc = true;
    void nontrivial(bool b = true){ nt = nt || b; }
    void label(const std::string& s){ labels.push_back(s); }
    void note(const std::string& s){ if (desc.size() < 6000){ if (!desc.empty()) desc += "; "; desc += s; if (char* p = live_desc()){ size_t k = std::min<size_t>(8191, desc.size()); memcpy(p, desc.data(), k); p[k] = 0; } } }
    [[noreturn]] void fail(const std::string& m){ throw Fail{m}; }
    bool ok(bool c, const std::string& m){ ++checks; if (!c) throw Fail{m}; return true; }
    template<class M, class = decltype(std::declval<M>()())> bool ok(bool c, M m){ ++checks; if (!c) throw Fail{m()}; return true; }
    // |a-b| <= tol*scale ; scale must be given by the caller
    void near(double a, double b, double tol, const std::string& what){
        ++checks;
        if (!(std::fabs(a - b) <= tol)) throw Fail{fmt("%s: got %.17g expected %.17g (diff %.3g, tol %.3g)", what.c_str(), a, b, a - b, tol)};
    }
    template<class M, class = decltype(std::declval<M>()())> void near(double a, double b, double tol, M what){
        ++checks;
        if (!(std::fabs(a - b) <= tol)) throw Fail{fmt("%s: got %.17g expected %.17g (diff %.3g, tol %.3g)", std::string(what()).c_str(), a, b, a - b, tol)};
    }
};

using PropFn = void(*)(Src&, Ctx&);
struct Prop { const char* name; PropFn fn; long quick, thorough; const char* rule; bool exhaustive; };
inline std::vector<Prop>& registry(){ static std::vector<Prop> r; return r; }
struct Reg { Reg(const char* n, PropFn f, long q, long t, const char* rule, bool ex = false){ registry().push_back({n, f, q, t, rule, ex}); } };
// quick/thorough: number of cases; for an exhaustive property the case index is available as the first choice
#define PBT_PROP(name, quick, thorough, rule) \
    static void name(pbt::Src& s, pbt::Ctx& c); static pbt::Reg reg_##name(#name, name, quick, thorough, rule); static void name(pbt::Src& s, pbt::Ctx& c)
// exhaustive: cases 0..count-1, the first choice of the tape is the index of the case
#define PBT_ENUM(name, count, rule) \
    static void name(pbt::Src& s, pbt::Ctx& c); static pbt::Reg reg_##name(#name, name, count, count, rule, true); static void name(pbt::Src& s, pbt::Ctx& c)

enum Outcome { OK = 0, FAILED = 1, DISCARDED = 2, CRASHED = 3, HUNG = 4 };

struct Shared; inline Src* cur_src = nullptr; inline Shared *cur_shared = nullptr, *cur_stop = nullptr;   // for reports that end the process
struct Shared { volatile int64_t cur; volatile int32_t outcome; volatile uint32_t ntape; char msg[8192]; char desc[8192]; uint64_t tape[1 << 16]; };
inline Shared* new_shared(){ void* p = mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED){ perror("mmap"); exit(3);} return (Shared*)p; }
inline void put(char* dst, size_t n, const std::string& s){ size_t k = std::min(n - 1, s.size()); memcpy(dst, s.data(), k); dst[k] = 0; }

inline Src make_src(const Prop& p, uint64_t seed, int64_t idx){
    Src s(mix(mix(seed ^ hash_str(p.name)) + (uint64_t)idx*0x2545F4914F6CDD1Dull));
    if (p.exhaustive) s.first = idx;
    return s;
}
inline int case_timeout(){ const char* e = getenv("PBT_CASE_TIMEOUT"); return e ? atoi(e) : 25; }


inline Outcome run_one(const Prop& p, Src& s, Ctx& c, std::string& msg){
    try { p.fn(s, c); return OK; }
    catch (const Fail& f){ msg = f.msg; return FAILED; }
    catch (const Discard&){ return DISCARDED; }
    catch (const std::exception& e){ msg = std::string("unexpected exception: ") + e.what(); return FAILED; }
}
// rerun a tape in a child process
inline Outcome run_tape(const Prop& p, const std::vector<uint64_t>& tape, Shared* sh, std::string& msg, std::string* desc = nullptr, std::vector<uint64_t>* used = nullptr, bool quiet = true){
    sh->outcome = -1; sh->msg[0] = 0; sh->desc[0] = 0; sh->ntape = 0;
    fflush(stdout); fflush(stderr);
    int efd = quiet ? memfd_create("err", 0) : -1;
    pid_t pid = fork();
    if (pid == 0){
        signal(SIGALRM, SIG_DFL); alarm(case_timeout());
        live_desc() = sh->desc;
        if (quiet){ dup2(efd, 2); dup2(efd, 1); }
        Src s(tape); Ctx c; std::string m; cur_src = &s; cur_shared = sh;
        Outcome o = run_one(p, s, c, m);
        put(sh->msg, sizeof sh->msg, m); put(sh->desc, sizeof sh->desc, c.desc);
        sh->ntape = (uint32_t)std::min<size_t>(s.pos, 0xffffffffu);
        sh->outcome = o;
        _exit(0);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
    std::string err;
    if (efd >= 0){ char b[3000]; ssize_t k = pread(efd, b, sizeof b - 1, 0); if (k > 0) err.assign(b, k); close(efd); size_t q = err.find("ERROR: AddressSanitizer"); if (q != std::string::npos) err = err.substr(q, 700); else err = err.substr(0, 500); for (char& ch: err) if (ch == '\n') ch = ' '; }
    if (desc) *desc = sh->desc;
    if (WIFSIGNALED(st)){
        msg = fmt("process ended by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))) + (err.empty() ? "" : ": " + err);
        return WTERMSIG(st) == SIGALRM ? HUNG : CRASHED;
    }
    if (sh->outcome < 0){ msg = fmt("process exited with status %d without finishing the case", WEXITSTATUS(st)); return CRASHED; }
    msg = sh->msg; if (desc) *desc = sh->desc;
    if (used){ used->assign(tape.begin(), tape.begin() + std::min<size_t>(tape.size(), sh->ntape)); }
    return (Outcome)sh->outcome;
}
inline bool bad(Outcome o){ return o == FAILED || o == CRASHED || o == HUNG; }

inline std::vector<uint64_t> shrink(const Prop& p, std::vector<uint64_t> t, Shared* sh, double budget_s, Outcome want){
    auto t0 = std::chrono::steady_clock::now();
    auto left = [&]{ return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < budget_s; };
    auto test = [&](const std::vector<uint64_t>& c, std::vector<uint64_t>& out){
        std::string m; std::vector<uint64_t> used; Outcome o = run_tape(p, c, sh, m, nullptr, &used);
        if (o != want) return false;
        if (o == FAILED) out = used; else out = c;
        return true;
    };
    size_t fixed = p.exhaustive ? 1 : 0;
    bool progress = true;
    while (progress && left()){
        progress = false;
        for (size_t len = std::max<size_t>(1, t.size()/2); len >= 1 && left(); len /= 2){        // delete blocks
            for (size_t i = fixed; i + len <= t.size() && left();){
                std::vector<uint64_t> c(t.begin(), t.begin() + i); c.insert(c.end(), t.begin() + i + len, t.end());
                std::vector<uint64_t> o; if (test(c, o)){ t = o; progress = true; } else i += len;
            }
            if (len == 1) break;
        }
        for (size_t len = std::max<size_t>(1, t.size()/2); len >= 1 && left(); len /= 2){        // zero blocks
            for (size_t i = fixed; i + len <= t.size() && left(); i += len){
                bool allz = true; for (size_t j = i; j < i + len; ++j) if (t[j]) allz = false; if (allz) continue;
                std::vector<uint64_t> c = t, o; std::fill(c.begin() + i, c.begin() + i + len, 0);
                if (test(c, o)){ t = o; progress = true; if (i + len > t.size()) break; }
            }
            if (len == 1) break;
        }
        for (size_t i = fixed; i < t.size() && left(); ++i){                                      // lower values
            uint64_t lo = 0;
            while (i < t.size() && t[i] > lo && left()){
                uint64_t mid = lo + (t[i] - lo)/2; std::vector<uint64_t> c = t, o; c[i] = mid;
                if (test(c, o)){ t = o; progress = true; } else { lo = mid + 1; }
            }
        }
    }
    return t;
}

inline std::string jesc(const std::string& s){ std::string r; for (unsigned char ch: s){ if (ch == '"' || ch == '\\'){ r += '\\'; r += ch; } else if (ch == '\n') r += "\\n"; else if (ch < 0x20 || ch >= 0x7f) r += fmt("\\u%04x", ch); else r += ch; } return r; }

struct PropResult {
    long evals = 0, discards = 0, checks = 0; std::set<uint64_t> nth; std::map<std::string, long> labels; std::vector<std::string> samples;
    bool failed = false; Outcome kind = OK; std::string msg, desc; std::vector<uint64_t> tape; bool flaky = false; bool timed_out = false; double wall = 0;
};

inline void worker(const Prop& p, uint64_t seed, long n, int w, int W, double deadline, Shared* sh, Shared* stop, const std::string& outfile){
    FILE* f = fopen(outfile.c_str(), "w"); if (!f) _exit(3);
    { int fd = open((outfile + ".err").c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644); if (fd >= 0){ dup2(fd, 2); dup2(fd, 1);} }
    signal(SIGALRM, SIG_DFL);
    std::map<std::string, long> labels; long ev = 0, di = 0; uint64_t checks = 0; std::vector<uint64_t> hs; std::vector<std::string> samples; bool tmo = false;
    auto t0 = std::chrono::steady_clock::now();
    for (long i = w; i < n; i += W){
        if (stop->cur) break;
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > deadline){ tmo = true; break; }
        sh->cur = i; alarm(case_timeout());
        Src s = make_src(p, seed, i); Ctx c; std::string m; cur_src = &s; cur_shared = sh; cur_stop = stop;
        Outcome o = run_one(p, s, c, m);
        cur_shared = nullptr; alarm(0);
        if (o == FAILED){
            put(sh->msg, sizeof sh->msg, m); put(sh->desc, sizeof sh->desc, c.desc); sh->outcome = FAILED;
            sh->ntape = (uint32_t)std::min<size_t>(s.tape.size(), sizeof(sh->tape)/8); memcpy(sh->tape, s.tape.data(), sh->ntape*8);
            stop->cur = 1; ++ev; checks += c.checks; break;
        }
        if (o == DISCARDED){ ++di; continue; }
        ++ev; checks += c.checks;
        for (auto& l: c.labels) ++labels[l];
        if (c.nt){
            uint64_t h = 0x1234; for (size_t k = 0; k < std::min(s.pos, s.tape.size()); ++k) h = mix(h ^ s.tape[k]) + k; 
            hs.push_back(h);
            if (samples.size() < 3) samples.push_back(c.desc);
        }
    }
    std::sort(hs.begin(), hs.end()); hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
    fprintf(f, "E %ld %ld %" PRIu64 " %d\n", ev, di, checks, (int)tmo);
    for (auto& l: labels) fprintf(f, "L %ld %s\n", l.second, l.first.c_str());
    for (auto& x: samples) fprintf(f, "S %s\n", jesc(x).c_str());
    for (auto h: hs) fprintf(f, "H %016" PRIx64 "\n", h);
    fclose(f);
    _exit(0);
}

inline PropResult run_prop(const Prop& p, uint64_t seed, long n, int W, double deadline, const std::string& tmp, double shrink_s){
    PropResult R; auto t0 = std::chrono::steady_clock::now();
    if (n < W) W = (int)std::max<long>(1, n);
    Shared* stop = new_shared(); stop->cur = 0;
    std::vector<Shared*> sh(W); std::vector<pid_t> pid(W); std::vector<std::string> of(W);
    fflush(stdout); fflush(stderr);
    for (int w = 0; w < W; ++w){
        sh[w] = new_shared(); sh[w]->cur = -1; sh[w]->outcome = -1; of[w] = tmp + "/" + p.name + "." + std::to_string(w);
        pid[w] = fork(); if (pid[w] < 0){ perror("fork"); exit(3); }
        if (pid[w] == 0) worker(p, seed, n, w, W, deadline, sh[w], stop, of[w]);
    }
    int64_t fidx = -1; int fw = -1; Outcome fk = OK;
    for (int w = 0; w < W; ++w){
        int st = 0; while (waitpid(pid[w], &st, 0) < 0 && errno == EINTR);
        Outcome k = OK;
        if (WIFSIGNALED(st)) k = WTERMSIG(st) == SIGALRM ? HUNG : CRASHED;
        else if (WEXITSTATUS(st) != 0) k = CRASHED;
        else if (sh[w]->outcome == FAILED) k = FAILED;
        if (k != OK){ stop->cur = 1; if (fw < 0 || (fk != FAILED && k == FAILED)){ fw = w; fk = k; fidx = sh[w]->cur; } }
        FILE* f = fopen(of[w].c_str(), "r");
        if (f){
            static char line[65536];
            while (fgets(line, sizeof line, f)){
                size_t L = strlen(line); while (L && (line[L-1] == '\n')) line[--L] = 0;
                if (line[0] == 'E'){ long a, b; unsigned long long ck; int t; if (sscanf(line + 2, "%ld %ld %llu %d", &a, &b, &ck, &t) == 4){ R.evals += a; R.discards += b; R.checks += ck; R.timed_out |= t; } }
                else if (line[0] == 'L'){ char* e; long a = strtol(line + 2, &e, 10); R.labels[std::string(e + 1)] += a; }
                else if (line[0] == 'S'){ if (R.samples.size() < 4) R.samples.push_back(line + 2); }
                else if (line[0] == 'H') R.nth.insert(strtoull(line + 2, nullptr, 16));
            }
            fclose(f);
        }
    }
    if (fk != OK){
        R.failed = true; R.kind = fk; std::vector<uint64_t> t; std::string m;
        if (fk == FAILED) t.assign(sh[fw]->tape, sh[fw]->tape + sh[fw]->ntape), R.msg = sh[fw]->msg, R.desc = sh[fw]->desc;
        else { // regenerate the tape of the crashing case: run it in a child that dumps its tape as it goes
            // draws are independent of the library's results except through generated values, so record via shared memory
            Shared* rec = new_shared(); rec->ntape = 0;
            pid_t q = fork();
            if (q == 0){
                alarm(case_timeout()); int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1);
                Src s = make_src(p, seed, fidx); Ctx c; std::string mm;
                // keep the tape inside shared memory: reserve and copy from a signal handler
                static Src* gs; static Shared* gr; gs = &s; gr = rec;
                auto dump = [](int sg){ uint32_t k = (uint32_t)std::min<size_t>(gs->tape.size(), sizeof(gr->tape)/8); memcpy(gr->tape, gs->tape.data(), k*8); gr->ntape = k; signal(sg, SIG_DFL); raise(sg); };
                s.tape.reserve(1 << 16);
                signal(SIGABRT, dump); signal(SIGSEGV, dump); signal(SIGBUS, dump); signal(SIGFPE, dump); signal(SIGALRM, dump); signal(SIGILL, dump);
                run_one(p, s, c, mm); dump(SIGUSR1); _exit(0);
            }
            int st; while (waitpid(q, &st, 0) < 0 && errno == EINTR);
            t.assign(rec->tape, rec->tape + rec->ntape);
        }
        Shared* one = new_shared(); std::string d;
        Outcome o = OK; for (int k = 0; k < 10 && !bad(o); ++k) o = run_tape(p, t, one, m, &d);
        if (!bad(o)){ R.flaky = true; R.tape = t; if (R.msg.empty()) R.msg = "the process crashed or stopped; " + std::string(sh[fw]->msg); }
        else {
            R.kind = o; R.msg = m; if (!d.empty()) R.desc = d;
            if (o != HUNG) t = shrink(p, t, one, shrink_s, o);
            R.tape = t; std::string m2, d2; Outcome o2 = run_tape(p, t, one, m2, &d2); if (bad(o2)){ R.msg = m2; R.desc = d2; R.kind = o2; }
            int again = 0; for (int k = 0; k < 3; ++k){ std::string mm; if (bad(run_tape(p, t, one, mm))) ++again; }
            if (again == 0) R.flaky = true;
        }
    }
    R.wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    return R;
}

inline int main_(int argc, char** argv){
    mallopt(M_PERTURB, 1);                           // fresh heap memory holds 0xfe bytes: reading it before writing shows
    uint64_t seed = 1; bool thorough = false; int W = 8; double deadline = 1e9; std::string out, tmp = "/tmp", only, replay; double scale = 1; double shrink_s = 40; bool list = false, skipfail = false; int repeat = 1;
    for (int i = 1; i < argc; ++i){
        std::string a = argv[i]; auto val = [&]{ return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--tier") thorough = val() == "thorough";
        else if (a == "--workers") W = atoi(val().c_str());
        else if (a == "--deadline") deadline = atof(val().c_str());
        else if (a == "--out") out = val();
        else if (a == "--tmp") tmp = val();
        else if (a == "--only") only = val();            // comma separated names
        else if (a == "--scale") scale = atof(val().c_str());
        else if (a == "--shrink") shrink_s = atof(val().c_str());
        else if (a == "--replay") replay = val();         // "prop:v,v,v"
        else if (a == "--repeat") repeat = atoi(val().c_str());   // of a replay: until it fails (failures that depend on the schedule)
        else if (a == "--list") list = true;
        else if (a == "--keep-going") skipfail = true;
    }
    if (list){ for (auto& p: registry()) printf("%s quick=%ld thorough=%ld\n", p.name, p.quick, p.thorough); return 0; }
    if (!replay.empty()){
        size_t k = replay.find(':'); std::string nm = replay.substr(0, k); std::vector<uint64_t> t;
        if (k != std::string::npos){ std::stringstream ss(replay.substr(k + 1)); std::string x; while (std::getline(ss, x, ',')) if (!x.empty()) t.push_back(strtoull(x.c_str(), nullptr, 10)); }
        for (auto& p: registry()) if (nm == p.name){
            Shared* sh = new_shared(); std::string m, d; Outcome o = OK; for (int k = 0; k < repeat && !bad(o); ++k) o = run_tape(p, t, sh, m, &d, nullptr, getenv("PBT_LOUD") == nullptr);
            printf("%s %s\n  case: %s\n  %s\n", nm.c_str(), o == OK ? "HOLDS" : o == DISCARDED ? "DISCARDED" : "FAILS", d.c_str(), m.c_str());
            return bad(o) ? 1 : 0;
        }
        fprintf(stderr, "no property %s\n", nm.c_str()); return 2;
    }
    std::set<std::string> sel; { std::stringstream ss(only); std::string x; while (std::getline(ss, x, ',')) if (!x.empty()) sel.insert(x); }
    std::string js = "[\n"; bool first = true, anyfail = false; auto t0 = std::chrono::steady_clock::now();
    // share of the deadline per property
    int total = 0; for (auto& p: registry()) if (sel.empty() || sel.count(p.name)) ++total; int done = 0;
    for (auto& p: registry()){
        if (!sel.empty() && !sel.count(p.name)) continue;
        long n = thorough ? p.thorough : p.quick; if (!p.exhaustive) n = std::max<long>(1, (long)(n*scale));
        double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        double dl = std::max(3.0, 2.0*(deadline - el)/(total - done)); dl = std::min(dl, std::max(3.0, deadline - el)); ++done;
        PropResult r = run_prop(p, seed, n, W, dl, tmp, shrink_s);
        if (!first) js += ",\n"; first = false;
        js += fmt("{\"name\":\"%s\",\"rule\":\"%s\",\"exhaustive\":%s,\"planned\":%ld,\"evaluations\":%ld,\"discarded\":%ld,\"checks\":%ld,\"distinct_nontrivial\":%zu,\"cut_by_time\":%s,\"wall_s\":%.3f,\"labels\":{", p.name, jesc(p.rule).c_str(), p.exhaustive ? "true" : "false", n, r.evals, r.discards, r.checks, r.nth.size(), r.timed_out ? "true" : "false", r.wall);
        bool f1 = true; for (auto& l: r.labels){ js += std::string(f1 ? "" : ",") + "\"" + jesc(l.first) + "\":" + std::to_string(l.second); f1 = false; }
        js += "},\"samples\":["; f1 = true; for (auto& x: r.samples){ js += std::string(f1 ? "" : ",") + "\"" + x + "\""; f1 = false; }
        js += "]";
        if (r.failed){
            anyfail = true;
            js += fmt(",\"failed\":true,\"flaky\":%s,\"kind\":%d,\"msg\":\"", r.flaky ? "true" : "false", (int)r.kind) + jesc(r.msg) + "\",\"case\":\"" + jesc(r.desc) + "\",\"tape\":[" + join(r.tape.begin(), r.tape.end(), ",") + "]";
            fprintf(stderr, "FAIL %s%s: %s\n  case: %s\n  tape(%zu): %s:%s\n", p.name, r.flaky ? " (not reproducible)" : "", r.msg.c_str(), r.desc.c_str(), r.tape.size(), p.name, r.tape.size() < 400 ? join(r.tape.begin(), r.tape.end(), ",").c_str() : "...");
        }
        js += "}";
        fprintf(stderr, "%-34s evals=%ld nontriv=%zu discard=%ld checks=%ld %.2fs%s\n", p.name, r.evals, r.nth.size(), r.discards, r.checks, r.wall, r.timed_out ? " (cut by time)" : "");
        if (r.failed && !skipfail) { /* keep going over other properties anyway: a failure is reported once per property */ }
    }
    js += "\n]\n";
    if (!out.empty()){ FILE* f = fopen(out.c_str(), "w"); if (!f){ perror("out"); return 3; } fputs(js.c_str(), f); fclose(f); }
    return anyfail ? 1 : 0;
}
} // namespace pbt
#if defined(__SANITIZE_THREAD__) && !defined(PBT_NO_MAIN)
extern "C" const char* __tsan_default_options(){ return "symbolize=0"; }   // TSAN_OPTIONS=symbolize=1 PBT_LOUD=1 shows the report of a replay
// a data race ends the case (and the process: what the program does after a race is anybody's guess)
extern "C" void __tsan_on_report(void*){
    using namespace pbt; Shared* sh = cur_shared; if (!sh || getenv("PBT_LOUD")) return;
    put(sh->msg, sizeof sh->msg, "ThreadSanitizer reported a data race");
    if (!cur_src->replay){ sh->ntape = (uint32_t)std::min<size_t>(cur_src->tape.size(), sizeof(sh->tape)/8); memcpy(sh->tape, cur_src->tape.data(), sh->ntape*8); } else sh->ntape = (uint32_t)cur_src->pos;
    sh->outcome = FAILED; if (cur_stop) cur_stop->cur = 1; _exit(0);
}
#endif
#ifndef PBT_NO_MAIN
int main(int argc, char** argv){ return pbt::main_(argc, argv); }
#endif
