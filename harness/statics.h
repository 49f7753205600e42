// Compile-time spaces behind one run-time interface.
#pragma once
#include "femgen.h"
#include "elem.h"
namespace st {
using Fn = std::function<int(const std::array<double, 3>& X, double* res, unsigned dim, void* user)>;
struct StOp {
    int dim = 0, nfa = 0, order = 0;
    // f cells: XY[i] is a 3 x f array of the i-th vertices
    std::function<void(const std::array<const double*, 4>&, int f, std::vector<double>& l, std::vector<double>& dofs, std::vector<double>& out)> apply;
    std::function<void(el::Call&)> app;          // APPL or APPX with every way of supplying memory
    std::function<std::shared_ptr<Ani::ApplyOpBase>()> runtime;
};
struct Space {
    const char* name; gen::Node node; std::map<int, StOp> ops;
    std::function<Ani::DofT::DofMap()> map;
    std::function<void(const gen::Cell&, const Fn&, double* udofs, int n, int idof, void*, int ord)> interp;
    std::function<void(const gen::Cell&, const Fn&, double* u0, double* u1, int n, int idof, void*, int ord)> interp2;
    std::function<void(const gen::Cell&, const Fn&, double* udofs, int n, const Ani::DofT::TetGeomSparsity&, void*, int ord)> by_dofs;
    std::function<void(double, double* udofs, int n, const Ani::DofT::TetGeomSparsity&)> constant;
    std::function<Ani::PlainMemory<>(int etype, int ord)> region_req;
    // memory == nullptr: the version that needs no memory
    std::function<void(const gen::Cell&, const Fn&, double* udofs, int n, int etype, int ielem, Ani::PlainMemory<>* mem, void*, int ord)> region;
};
std::vector<Space>& part1(); std::vector<Space>& part2(); std::vector<Space>& part3(); std::vector<Space>& part4();
inline std::vector<Space>& all(){ static std::vector<Space> v = []{ std::vector<Space> r; for (auto* p: {&part1(), &part2(), &part3(), &part4()}) r.insert(r.end(), p->begin(), p->end()); return r; }(); return v; }
// what the harnesses need of it: ST_APPLY values at points, ST_INTERP interpolation, ST_APP values with every way of supplying memory
#ifdef ST_IMPL
template<int OP, class FEM> StOp make_op(){
    using O = Ani::Operator<OP, FEM>; StOp r; r.dim = O::Dim::value; r.nfa = O::Nfa::value; r.order = O::Order::value;
#ifdef ST_APPLY
    r.apply = [](const std::array<const double*, 4>& X, int f, std::vector<double>& l, std::vector<double>& dofs, std::vector<double>& out){
        Ani::DynMem<> wm; out.assign((size_t)O::Dim::value*(l.size()/4)*f, -7.5e300);
        Ani::DenseMatrix<> D(dofs.data(), O::Nfa::value, f), U(out.data(), (size_t)O::Dim::value*(l.size()/4), f);
        Ani::fem3DapplyL<O>(Ani::make_tetras(X[0], X[1], X[2], X[3], f), Ani::ArrayView<>(l.data(), l.size()), D, U, wm);
    };
    r.runtime = []{ return std::shared_ptr<Ani::ApplyOpBase>(new Ani::ApplyOpFromTemplate<OP, FEM>()); };
#endif
#ifdef ST_APP
    r.app = [](el::Call& k){
        using namespace Ani; DenseMatrix<> A(k.A, 0, 0, k.asz), D(k.dofs.data(), O::Nfa::value, k.f); ArrayView<> L(k.L.data(), k.L.size()), d1(k.dofs.data(), k.dofs.size()), u1(k.A, k.asz); ArrayView<const double> X(k.X.data(), k.X.size());
        auto XYZ = make_tetras(k.xy[0], k.xy[1], k.xy[2], k.xy[3], k.f); Tetra<const double> T1(k.xy[0], k.xy[1], k.xy[2], k.xy[3]); int q = (int)(k.fam == el::APPL ? k.L.size()/4 : k.X.size()/3);
        if (k.fam == el::APPL) switch (k.mem){
            case el::DYN: if (k.tetra) fem3DapplyL<O>(T1, L, D, A, *k.wm); else fem3DapplyL<O>(XYZ, L, D, A, *k.wm); break;
            case el::STACK: if (k.f == 1) fem3DapplyL<O>(XYZ, L, D, A); else fem3DapplyL<O, 3>(XYZ, L, D, A); break;
            default: el::with_mem(k, fem3DapplyL_memory_requirements<O>(q, k.f), [&](PlainMemory<> m){ fem3DapplyL<O>(XYZ, L, D, A, m); });
        } else { switch (k.mem){
            case el::DYN: fem3DapplyX<O>(T1, X, d1, u1, *k.wm); break;
            case el::STACK: if (k.tetra) fem3DapplyX<O, 12>(T1, X, d1, u1); else fem3DapplyX<O>(T1, X, d1, u1); break;
            default: el::with_mem(k, fem3DapplyX_memory_requirements<O>(q, 1), [&](PlainMemory<> m){ fem3DapplyX<O>(T1, X, d1, u1, m); });
        } A.nRow = O::Dim::value*q; A.nCol = 1; }
        k.nRow = A.nRow; k.nCol = A.nCol;
    };
#endif
    return r;
}
template<class FEM, int... OPS> Space make(const char* name, gen::Node n){
    Space s; s.name = name; s.node = n;
    (void)std::initializer_list<int>{ (s.ops[OPS] = make_op<OPS, FEM>(), 0)... };
    s.map = []{ return Ani::DofT::DofMap(Ani::Dof<FEM>::Map()); };
#ifdef ST_INTERP
    s.interp = [](const gen::Cell& C, const Fn& f, double* u, int n, int i, void* ud, int ord){ Ani::Dof<FEM>::interpolate(C.XYZ(), f, Ani::ArrayView<>(u, n), i, ud, ord); };
    s.interp2 = [](const gen::Cell& C, const Fn& f, double* u0, double* u1, int n, int i, void* ud, int ord){ Ani::Dof<FEM>::template interpolate<2>(C.XYZ(), f, std::array<Ani::ArrayView<>, 2>{Ani::ArrayView<>(u0, n), Ani::ArrayView<>(u1, n)}, i, ud, ord); };
    s.by_dofs = [](const gen::Cell& C, const Fn& f, double* u, int n, const Ani::DofT::TetGeomSparsity& sp, void* ud, int ord){ Ani::interpolateByDOFs<FEM>(C.XYZ(), f, Ani::ArrayView<>(u, n), sp, ud, ord); };
    s.constant = [](double v, double* u, int n, const Ani::DofT::TetGeomSparsity& sp){ Ani::interpolateConstant<FEM>(v, Ani::ArrayView<>(u, n), sp); };
    s.region_req = [](int et, int ord){ return Ani::interpolateByRegion_memory_requirements<FEM>((unsigned char)et, (unsigned)ord); };
    s.region = [](const gen::Cell& C, const Fn& f, double* u, int n, int et, int ie, Ani::PlainMemory<>* m, void* ud, int ord){ Ani::ArrayView<> U(u, n); if (m) Ani::interpolateByRegion<FEM>(C.XYZ(), f, U, (unsigned char)et, (unsigned)ie, *m, ud, (unsigned)ord); else Ani::interpolateByRegion<FEM>(C.XYZ(), f, U, (unsigned char)et, (unsigned)ie, ud, (unsigned)ord); };
#endif
    return s;
}
#define OPS5 Ani::IDEN, Ani::GRAD, Ani::DUDX, Ani::DUDY, Ani::DUDZ
#define OPS7 OPS5, Ani::DIV, Ani::CURL
#endif
} // namespace st
