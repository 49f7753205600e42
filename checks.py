import os
# Which harnesses decide which property, and how they are built. A harness contributes the generated properties whose
# name starts with the property's identifier.
def H(name, src=None, lib='fem', variants=('eig',), **k):
    return dict(name=name, src=(src if isinstance(src, list) else [src or name + '.cpp']), lib=lib, variants=list(variants), **k)
STATICS = ['statics%d.cpp' % i for i in (1, 2, 3, 4)]
F = dict(run=[H('fem_f', src=['fem_f.cpp'] + STATICS, variants=('eig', 'noe'), flags=['-DST_APPLY', '-DST_INTERP'])])
ELEM = ['elem_%s%d.cpp' % (k, i) for k in ('rt', 'st') for i in (1, 2, 3, 4)]
E = dict(run=[H('fem_e', src=['fem_e.cpp'] + ELEM, variants=('eig', 'noe'), flags=['-DNO_APPLY'])])
EA = dict(run=[H('fem_e', src=['fem_e.cpp'] + ELEM + STATICS, variants=('eig', 'noe'), flags=['-DST_APP'])])
E06 = dict(run=[H('fem_e', src=['fem_e.cpp'] + ELEM + STATICS, variants=('eiga', 'noe'), flags=['-DST_APP'])])
D = dict(run=[H('fem_d', src=['fem_d.cpp'] + STATICS, variants=('eig', 'noe'), flags=['-DST_INTERP'])])
M = dict(run=[H('dofmap', lib='dof', variants=('noe', 'glob'))])
M01 = dict(run=M['run'] + [H('fem_d', src=['fem_d.cpp'] + STATICS, variants=('eig',), flags=['-DST_INTERP'])])
B = dict(run=[H('dirich', lib='dof', variants=('noe', 'glob'))])
IV = lambda name, *parts: dict(run=[H(name, src=['interval%d.cpp' % i for i in parts], lib='interval', variants=('noe', 'glob'))])
STUB = ['-isystem', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness', 'inmost_stub'), '-DNO_ASSEMBLER_TIMERS']
UT = dict(run=[H('utils', lib='util', variants=('eig', 'noe'), flags=STUB)])
CHECKS = {
    'U01': dict(scale=5, **UT), 'U02': dict(scale=3, **UT), 'U03': dict(scale=4, **UT),
    'U04': dict(scale=4, run=[H('metrics', lib='util', variants=('eig',), flags=STUB), H('metrics', lib='util', variants=('noe',), flags=STUB, must_compile='the metrics can not be built without Eigen')]),
    'G01': dict(scale=6, run=[H('glob_enum', lib='glob', variants=('noe', 'glob'), flags=STUB)]),
    'G03': dict(scale=16, run=[H('assemble', lib='globfem', variants=('glob','noet'), flags=STUB)]),
    'G02': dict(scale=12, run=[H('glob_data', lib='globfem', variants=('noe', 'glob'), flags=STUB)]),
    'Q01': dict(run=[H('quad', lib='quad', variants=('eig', 'noe'))]),
    'F01': F, 'F02': F, 'F03': F, 'F04': F,
    'F05': dict(scale=5, run=[H('expr', lib='none', variants=('noe', 'noen'))]),
    'D01': D, 'D02': D,
    'B01': B, 'B02': B,
    'A01': dict(run=[H('memory', lib='none', variants=('noe', 'glob'))]),
    'A02': dict(run=[H('parallel', lib='none', variants=('noet',), repeat=300), H('parallel_omp', src='parallel.cpp', lib='none', variants=('noe',), flags=['-fopenmp', '-DWITH_OPENMP'], repeat=300)]),
    'L01': dict(run=[H('linalg', src=['linalg1.cpp', 'linalg2.cpp'], lib='none', variants=('eiga', 'noe'))]),
    'L02': dict(run=[H('geom', src='linalg3.cpp', lib='fem', variants=('eiga', 'noe'))]),
    'L03': dict(scale=10, run=[H('views', lib='none', variants=('noe', 'noen'), flags=['-ftrivial-auto-var-init=uninitialized'])]),
    'X02': dict(scale=4, run=[H('tens', src=['tens%d.cpp' % i for i in (1, 2, 3, 4)], variants=('noe',), flags=['-ftrivial-auto-var-init=uninitialized'])]),
    'X03': dict(scale=2, run=[H('mech', lib='autodiff', variants=('noe',), flags=['-ftrivial-auto-var-init=uninitialized'])]),
    'X01': dict(scale=8, run=[H('ad', src=['ad_arr.cpp', 'ad_sym.cpp', 'ad_ten.cpp'], lib='autodiff', variants=('noen',)), H('ad_ld', lib='autodiff', variants=('noen',), flags=['-ftrivial-auto-var-init=uninitialized'])]),
    'W01': dict(scale=4, run=[H('wrap', lib='none', variants=('noe', 'glob')), H('wrap_forms', lib='none', variants=('noe',), must_compile='a form of function the wrappers are offered for can not be compiled')]),
    'V01': IV('ivmap', 1), 'V02': IV('ivtext', 2), 'V03': IV('ivenum', 3, 4, 5),
    'M01': M01, 'M02': M, 'M03': M, 'M04': M, 'M05': M,
    'E01': E, 'E02': E, 'E03': E, 'E04': E, 'E05': EA, 'E06': E06, 'E07': EA,
}
