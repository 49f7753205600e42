// Elemental computations (volume, face, edge, node, point sets) behind one run-time interface, with every way of
// describing the coefficient and every way of supplying work memory.
#pragma once
#include "femgen.h"
namespace el {
using gen::Cell; using gen::Node; using ref::ld;
enum Fam { TET, FACE, FACEN, EDGE, NODE, PNTL, PNTX, NFAM, APPL = NFAM, APPX };
static const char* const FAM_NAME[] = {"tet", "face", "faceN", "edge", "node", "pntL", "pntX", "applyL", "applyX"};
enum Trait { PP, PT, PS, GEN, SYM, SCAL, NUL, CPP, CPS, CGEN, CSYM, CSCAL, CNUL, FUS, NTRAIT, NOD = NTRAIT };
static const char* const TRAIT_NAME[] = {"PerPoint", "PerTetra", "PerSelection", "GENERAL", "SYMMETRIC", "SCALAR", "NULL", "const PerPoint", "const PerSelection", "const GENERAL", "const SYMMETRIC", "const SCALAR", "const NULL", "fusive", "no coefficient"};
enum Mem { EXACT, RAW, DYN, STACK, EIGEN, NMEM };
static const char* const MEM_NAME[] = {"exact", "raw", "dynamic", "stack", "eigen"};
inline bool is_const(int t){ return t >= CPP && t <= CNUL; }

using OneFn = std::function<Ani::TensorType(const std::array<double, 3>&, double*, Ani::TensorDims, void*, int)>;
using FusFn = std::function<Ani::TensorType(Ani::ArrayView<>, Ani::ArrayView<>, Ani::TensorDims, void*, const Ani::AniMemory<double, int>&)>;
struct One { OneFn f; Ani::TensorType operator()(const std::array<double, 3>& X, double* D, Ani::TensorDims d, void* u, int r) const { return f(X, D, d, u, r); } };
struct Fus { FusFn f; Ani::TensorType operator()(Ani::ArrayView<> X, Ani::ArrayView<> D, Ani::TensorDims d, void* u, const Ani::AniMemory<double, int>& m) const { return f(X, D, d, u, m); } };

struct Call {
    int fam = TET, num = 0, order = 5, trait = PP, mem = DYN, f = 1;
    std::array<const double*, 4> xy;            // 3 x f arrays of vertices
    std::vector<double> L, X, W;                // points: barycentric (4q) or Cartesian (3q), weights
    const Ani::ApplyOpBase *U = nullptr, *V = nullptr;
    One one; Fus fus; void* user = nullptr;
    std::vector<double> dofs; unsigned dd1 = 0;  // evaluation of a function: nfa x f, rows of the coefficient
    double* A = nullptr; size_t asz = 0;        // room for nfB x nfA*f, column major
    Ani::DynMem<>* wm = nullptr;                // for DYN
    uint64_t fill = 0;                          // what the work memory contains before the call
    bool tetra = false;                         // pass a single Tetra object instead of arrays
    // results
    size_t nRow = 0, nCol = 0; std::string mem_error;
};

// work memory of exactly the wanted size, with arbitrary contents, guarded on both sides
struct Block {
    static constexpr size_t G = 16; size_t n; char* p; char* base;
    Block(size_t bytes, uint64_t fill, int what): n(bytes){
#ifdef __SANITIZE_ADDRESS__
        base = (char*)malloc(n ? n : 1); p = base;
#else
        base = (char*)malloc(n + 16*G); p = base + 8*G; memset(base, 0x5a, 8*G); memset(p + n, 0x5a, 8*G);
#endif
        uint64_t st = fill;
        if (what == 0) for (size_t i = 0; i + 8 <= n; i += 8){ double v; switch (fill % 4){ case 0: v = NAN; break; case 1: v = 0; break; case 2: v = 1e300; break; default: st = pbt::mix(st); v = (double)(int64_t)st*1e-15; } memcpy(p + i, &v, 8); }
        else for (size_t i = 0; i < n; ++i){ st = (i % 8) ? st : pbt::mix(st); p[i] = fill % 4 == 1 ? 0 : fill % 4 == 2 ? (char)0xfe : (char)(st >> 8*(i % 8)); }
    }
    bool intact() const {
#ifndef __SANITIZE_ADDRESS__
        for (size_t i = 0; i < 8*G; ++i) if (base[i] != 0x5a || p[n + i] != 0x5a) return false;
#endif
        return true;
    }
    ~Block(){ free(base); }
    Block(const Block&) = delete;
};
struct Pair { const char* name; Node a, b; int opa, opb; bool all_traits; std::function<void(Call&)> run; };
void run_rt(Call& k);                           // run-time operators U, V
std::vector<Pair>& pairs1(); std::vector<Pair>& pairs2(); std::vector<Pair>& pairs3(); std::vector<Pair>& pairs4();
inline std::vector<Pair>& pairs(){ static std::vector<Pair> v = []{ std::vector<Pair> r; for (auto* p: {&pairs1(), &pairs2(), &pairs3(), &pairs4()}) r.insert(r.end(), p->begin(), p->end()); return r; }(); return v; }

#ifdef EL_IMPL
using namespace Ani;
#endif
#if defined(EL_IMPL) || defined(ST_IMPL)
using Ani::PlainMemory; using Ani::PlainMemoryX; using Ani::DenseMatrix; using Ani::ArrayView;
template<class R, class F> void with_mem_x(Call& k, R req, F f){
    Block d(req.dSize*sizeof(double), k.fill, 0), i(req.iSize*sizeof(int), k.fill + 4, 1), m(req.mSize*sizeof(DenseMatrix<>), k.fill + 8, 2);
    if (k.mem == RAW){
        size_t n = req.enoughRawSize(); Block raw(n + 1, k.fill, 0); PlainMemoryX<> p = req; bool odd = k.fill & 16;
        if (!p.allocateFromRaw(raw.p + odd, n, req.dSize, req.iSize, req.mSize)) { k.mem_error = "the announced raw size is not enough"; return; }
        f(p); if (!raw.intact()) k.mem_error = "the call wrote outside the raw memory it was given"; return;
    }
    PlainMemoryX<> p; p.ddata = (double*)d.p; p.dSize = req.dSize; p.idata = (int*)i.p; p.iSize = req.iSize; p.mdata = (DenseMatrix<>*)m.p; p.mSize = req.mSize;
    f(p);
    if (!d.intact() || !i.intact() || !m.intact()) k.mem_error = "the call wrote outside the memory it asked for";
}
template<class R, class F> void with_mem(Call& k, R req, F f){
    Block d(req.dSize*sizeof(double), k.fill, 0), i(req.iSize*sizeof(int), k.fill + 4, 1);
    if (k.mem == RAW){
        size_t n = req.enoughRawSize(); Block raw(n + 1, k.fill, 0); auto p = req; bool odd = k.fill & 16;
        if (!p.allocateFromRaw(raw.p + odd, n)) { k.mem_error = "the announced raw size is not enough"; return; }
        f(p); if (!raw.intact()) k.mem_error = "the call wrote outside the raw memory it was given"; return;
    }
    auto p = req; p.ddata = (double*)d.p; p.idata = (int*)i.p; f(p);
    if (!d.intact() || !i.intact()) k.mem_error = "the call wrote outside the memory it asked for";
}
#endif
#ifdef EL_IMPL
template<class Tr, class T, class Fn> void rt(Call& k, const T& XYZ, const Tetra<const double>& T1, const Fn& D){
    DenseMatrix<> A(k.A, 0, 0, k.asz); auto& U = *k.U; auto& V = k.V ? *k.V : *k.U; ArrayView<> L(k.L.data(), k.L.size()), W(k.W.data(), k.W.size()); ArrayView<const double> X(k.X.data(), k.X.size());
    int q = (int)k.W.size();
    if (k.mem == DYN) switch (k.fam){
        case TET: fem3Dtet<Tr>(XYZ, U, V, D, A, *k.wm, k.order, k.user); break;
        case FACE: fem3Dface<Tr>(XYZ, k.num, U, V, D, A, *k.wm, k.order, k.user); break;
        case FACEN: fem3DfaceN<Tr>(XYZ, k.num, U, V, D, A, *k.wm, k.order, k.user); break;
        case EDGE: fem3Dedge<Tr>(XYZ, k.num, U, V, D, A, *k.wm, k.order, k.user); break;
        case NODE: fem3Dnode<Tr>(XYZ, k.num, U, V, D, A, *k.wm, k.user); break;
        case PNTL: fem3DpntL<Tr>(XYZ, L, W, U, V, D, A, *k.wm, k.user); break;
        case APPL: { DenseMatrix<> F(k.dofs.data(), U.Nfa(), k.f); fem3DapplyL<Tr>(XYZ, L, F, U, k.dd1, D, A, *k.wm, k.user); break; }
        case APPX: { DenseMatrix<> F(k.dofs.data(), U.Nfa(), 1); fem3DapplyX<Tr>(T1, X, F, U, k.dd1, D, A, *k.wm, k.user); break; }
        default: fem3DpntX<Tr>(T1, X, W, U, V, D, A, *k.wm, k.user);
    } else switch (k.fam){
        case TET: with_mem_x(k, fem3Dtet_memory_requirements<Tr>(U, V, k.order, k.f), [&](PlainMemoryX<> m){ fem3Dtet<Tr>(XYZ, U, V, D, A, m, k.order, k.user); }); break;
        case FACE: with_mem_x(k, fem3Dface_memory_requirements<Tr>(U, V, k.order, k.f), [&](PlainMemoryX<> m){ fem3Dface<Tr>(XYZ, k.num, U, V, D, A, m, k.order, k.user); }); break;
        case FACEN: with_mem_x(k, fem3DfaceN_memory_requirements<Tr>(U, V, k.order, k.f), [&](PlainMemoryX<> m){ fem3DfaceN<Tr>(XYZ, k.num, U, V, D, A, m, k.order, k.user); }); break;
        case EDGE: with_mem_x(k, fem3Dedge_memory_requirements<Tr>(U, V, k.order, k.f), [&](PlainMemoryX<> m){ fem3Dedge<Tr>(XYZ, k.num, U, V, D, A, m, k.order, k.user); }); break;
        case NODE: with_mem_x(k, fem3Dnode_memory_requirements<Tr>(U, V, k.f), [&](PlainMemoryX<> m){ fem3Dnode<Tr>(XYZ, k.num, U, V, D, A, m, k.user); }); break;
        case PNTL: with_mem_x(k, fem3DpntL_memory_requirements<Tr>(U, V, q, k.f), [&](PlainMemoryX<> m){ fem3DpntL<Tr>(XYZ, L, W, U, V, D, A, m, k.user); }); break;
        case APPL: { DenseMatrix<> F(k.dofs.data(), U.Nfa(), k.f); with_mem_x(k, fem3DapplyL_memory_requirements<Tr>(k.dd1, U, L.size/4, k.f), [&](PlainMemoryX<> m){ fem3DapplyL<Tr>(XYZ, L, F, U, k.dd1, D, A, m, k.user); }); break; }
        case APPX: { DenseMatrix<> F(k.dofs.data(), U.Nfa(), 1); with_mem_x(k, fem3DapplyX_memory_requirements<Tr>(k.dd1, U, X.size/3, 1), [&](PlainMemoryX<> m){ fem3DapplyX<Tr>(T1, X, F, U, k.dd1, D, A, m, k.user); }); break; }
        default: with_mem_x(k, fem3DpntX_memory_requirements<Tr>(U, V, q, 1), [&](PlainMemoryX<> m){ fem3DpntX<Tr>(T1, X, W, U, V, D, A, m, k.user); });
    }
    k.nRow = A.nRow; k.nCol = A.nCol;
}
inline Tetra<const double> one_tet(const Call& k){ return Tetra<const double>(k.xy[0], k.xy[1], k.xy[2], k.xy[3]); }
template<class Tr, class Fn> void rt_arr(Call& k, const Fn& D){ rt<Tr>(k, make_tetras(k.xy[0], k.xy[1], k.xy[2], k.xy[3], k.f), one_tet(k), D); }
template<class Tr, class Fn> void rt_one(Call& k, const Fn& D){ rt<Tr>(k, one_tet(k), one_tet(k), D); }

// ---- compile-time operators
template<class A_, class B_, class Tr, class T, class Fn> void ct_fam(Call& k, const T& XYZ, const Tetra<const double>& T1, const Fn& D, std::true_type){
    DenseMatrix<> A(k.A, 0, 0, k.asz); ArrayView<> L(k.L.data(), k.L.size()), W(k.W.data(), k.W.size()); ArrayView<const double> X(k.X.data(), k.X.size());
    int q = (int)k.W.size(); constexpr int FU = 3;
    switch (k.mem){
        case DYN: switch (k.fam){
            case TET: fem3Dtet<A_, B_, Tr>(XYZ, D, A, *k.wm, k.order, k.user); break;
            case FACE: fem3Dface<A_, B_, Tr>(XYZ, k.num, D, A, *k.wm, k.order, k.user); break;
            case FACEN: fem3DfaceN<A_, B_, Tr>(XYZ, k.num, D, A, *k.wm, k.order, k.user); break;
            case EDGE: fem3Dedge<A_, B_, Tr>(XYZ, k.num, D, A, *k.wm, k.order, k.user); break;
            case NODE: fem3Dnode<A_, B_, Tr>(XYZ, k.num, D, A, *k.wm, k.user); break;
            case PNTL: fem3DpntL<A_, B_, Tr>(XYZ, L, W, D, A, *k.wm, k.user); break;
            default: fem3DpntX<A_, B_, Tr>(T1, X, W, D, A, *k.wm, k.user);
        } break;
        case STACK: switch (k.fam){
            case TET: if (k.f == 1) fem3Dtet<A_, B_, Tr>(XYZ, D, A, k.order, k.user); else fem3Dtet<A_, B_, Tr, FU>(XYZ, D, A, k.order, k.user); break;
            case FACE: if (k.f == 1) fem3Dface<A_, B_, Tr>(XYZ, k.num, D, A, k.order, k.user); else fem3Dface<A_, B_, Tr, FU>(XYZ, k.num, D, A, k.order, k.user); break;
            case FACEN: if (k.f == 1) fem3DfaceN<A_, B_, Tr>(XYZ, k.num, D, A, k.order, k.user); else fem3DfaceN<A_, B_, Tr, FU>(XYZ, k.num, D, A, k.order, k.user); break;
            case EDGE: if (k.f == 1) fem3Dedge<A_, B_, Tr>(XYZ, k.num, D, A, k.order, k.user); else fem3Dedge<A_, B_, Tr, FU>(XYZ, k.num, D, A, k.order, k.user); break;
            case NODE: if (k.f == 1) fem3Dnode<A_, B_, Tr>(XYZ, k.num, D, A, k.user); else fem3Dnode<A_, B_, Tr, FU>(XYZ, k.num, D, A, k.user); break;
            case PNTL: if (k.f == 1) fem3DpntL<A_, B_, Tr>(XYZ, L, W, D, A, k.user); else fem3DpntL<A_, B_, Tr, FU>(XYZ, L, W, D, A, k.user); break;
            default: fem3DpntX<A_, B_, Tr>(T1, X, W, D, A, k.user);
        } break;
        default: { using P = PlainMemory<>; switch (k.fam){
            case TET: with_mem(k, fem3Dtet_memory_requirements<A_, B_>(k.order, k.f), [&](P m){ fem3Dtet<A_, B_, Tr>(XYZ, D, A, m, k.order, k.user); }); break;
            case FACE: with_mem(k, fem3Dface_memory_requirements<A_, B_>(k.order, k.f), [&](P m){ fem3Dface<A_, B_, Tr>(XYZ, k.num, D, A, m, k.order, k.user); }); break;
            case FACEN: with_mem(k, fem3DfaceN_memory_requirements<A_, B_>(k.order, k.f), [&](P m){ fem3DfaceN<A_, B_, Tr>(XYZ, k.num, D, A, m, k.order, k.user); }); break;
            case EDGE: with_mem(k, fem3Dedge_memory_requirements<A_, B_>(k.order, k.f), [&](P m){ fem3Dedge<A_, B_, Tr>(XYZ, k.num, D, A, m, k.order, k.user); }); break;
            case NODE: with_mem(k, fem3Dnode_memory_requirements<A_, B_>(k.f), [&](P m){ fem3Dnode<A_, B_, Tr>(XYZ, k.num, D, A, m, k.user); }); break;
            case PNTL: with_mem(k, fem3DpntL_memory_requirements<A_, B_>(q, k.f), [&](P m){ fem3DpntL<A_, B_, Tr>(XYZ, L, W, D, A, m, k.user); }); break;
            default: with_mem(k, fem3DpntX_memory_requirements<A_, B_>(q, 1), [&](P m){ fem3DpntX<A_, B_, Tr>(T1, X, W, D, A, m, k.user); });
        } }
    }
    k.nRow = A.nRow; k.nCol = A.nCol;
}
// only the volume form
template<class A_, class B_, class Tr, class T, class Fn> void ct_fam(Call& k, const T& XYZ, const Tetra<const double>&, const Fn& D, std::false_type){
    DenseMatrix<> A(k.A, 0, 0, k.asz); constexpr int FU = 3;
    if (k.mem == DYN) fem3Dtet<A_, B_, Tr>(XYZ, D, A, *k.wm, k.order, k.user);
    else if (k.mem == STACK){ if (k.f == 1) fem3Dtet<A_, B_, Tr>(XYZ, D, A, k.order, k.user); else fem3Dtet<A_, B_, Tr, FU>(XYZ, D, A, k.order, k.user); }
    else with_mem(k, fem3Dtet_memory_requirements<A_, B_>(k.order, k.f), [&](PlainMemory<> m){ fem3Dtet<A_, B_, Tr>(XYZ, D, A, m, k.order, k.user); });
    k.nRow = A.nRow; k.nCol = A.nCol;
}
template<class A_, class B_, class Tr, class All, class Fn> void ct(Call& k, const Fn& D, All a){ ct_fam<A_, B_, Tr>(k, make_tetras(k.xy[0], k.xy[1], k.xy[2], k.xy[3], k.f), one_tet(k), D, a); }
template<class A_, class B_> void ct_eigen(Call& k){
#ifdef WITH_EIGEN
    Eigen::Vector3d v[4]; for (int i = 0; i < 4; ++i) v[i] = Eigen::Vector3d(k.xy[i][0], k.xy[i][1], k.xy[i][2]);
    Eigen::MatrixXd A(B_::Nfa::value, A_::Nfa::value); A.setConstant(-1e200);
    fem3Dtet<A_, B_>(v[0], v[1], v[2], v[3], std::function<TensorType(const std::array<double, 3>&, double*, std::pair<unsigned, unsigned>, void*, int)>([&](const std::array<double, 3>& X, double* D, std::pair<unsigned, unsigned> d, void* u, int r){ return k.one.f(X, D, {d.first, d.second}, u, r); }), A, k.order, k.user);
    std::copy(A.data(), A.data() + A.size(), k.A); k.nRow = A.rows(); k.nCol = A.cols();
#endif
}
template<class A_, class B_> void ct_run(Call& k){ if (k.mem == EIGEN) ct_eigen<A_, B_>(k); else ct<A_, B_, DfuncTraits<PerPoint, false>>(k, k.one, std::true_type()); }
template<class A_, class B_> void ct_all(Call& k){
    if (k.mem == EIGEN || k.trait == PP) return ct_run<A_, B_>(k);
    using F_ = std::false_type;
    switch (k.trait){
        case PT: return ct<A_, B_, DfuncTraits<PerTetra, false>>(k, k.one, F_()); case PS: return ct<A_, B_, DfuncTraits<PerSelection, false>>(k, k.one, F_());
        case GEN: return ct<A_, B_, DfuncTraits<TENSOR_GENERAL, false>>(k, k.one, F_()); case SYM: return ct<A_, B_, DfuncTraits<TENSOR_SYMMETRIC, false>>(k, k.one, F_());
        case SCAL: return ct<A_, B_, DfuncTraits<TENSOR_SCALAR, false>>(k, k.one, F_()); case NUL: return ct<A_, B_, DfuncTraits<TENSOR_NULL, false>>(k, k.one, F_());
        case CPP: return ct<A_, B_, DfuncTraits<PerPoint, true>>(k, k.one, F_()); case CPS: return ct<A_, B_, DfuncTraits<PerSelection, true>>(k, k.one, F_());
        case CGEN: return ct<A_, B_, DfuncTraits<TENSOR_GENERAL, true>>(k, k.one, F_()); case CSYM: return ct<A_, B_, DfuncTraits<TENSOR_SYMMETRIC, true>>(k, k.one, F_());
        case CSCAL: return ct<A_, B_, DfuncTraits<TENSOR_SCALAR, true>>(k, k.one, F_()); case CNUL: return ct<A_, B_, DfuncTraits<TENSOR_NULL, true>>(k, k.one, F_());
        default: return ct<A_, B_, DfuncTraitsFusive<>>(k, k.fus, F_());
    }
}
#define PAIR(name, A_, B_, na, nb) Pair{name, na, nb, op_of<A_>(), op_of<B_>(), false, [](Call& k){ ct_run<A_, B_>(k); }}
#define PAIR_ALL(name, A_, B_, na, nb) Pair{name, na, nb, op_of<A_>(), op_of<B_>(), true, [](Call& k){ ct_all<A_, B_>(k); }}
template<class O> struct op_code; template<int OP, class F> struct op_code<Operator<OP, F>> { static constexpr int v = OP; };
template<class O> int op_of(){ return op_code<O>::v; }
#endif
} // namespace el
