PROPS = {}
MERGE = ['bc:' + x for x in ['-O2', '-mllvm', '-two-entry-phi-node-folding-threshold=1000', '-mllvm', '-bonus-inst-threshold=100', '-mllvm', '-max-speculation-depth=1000', '-mllvm', '-speculate-one-expensive-inst=1']]
MPI = ['wrappers/mpi/communication.cpp', 'esinfo/mpiinfo.cpp', 'esinfo/envinfo.cpp']
SFC = ['basis/sfc/*.cpp'] + MPI
PROPS['P03'] = dict(
    jobs=[dict(name='hilbert', src='P03/hilbert.cpp', repo=SFC, mpilib=True, mpiinit=True, traces=1, flags=MERGE,
               quick=[dict(args=[2, d, m]) for d in range(0, 6) for m in range(4)] + [dict(args=[3, d, m]) for d in range(0, 4) for m in range(4)]),
          dict(name='points', src='P03/points.cpp', repo=SFC, mpi=True, ranks=3, sel=1, quick=[[2, 2, 1, 1, 3], [3, 1, 1, 2, 3], [2, 1, 2, 2, 3], [3, 1, 3, 1, 3], [3, 2, 1, 1, 3]]),
          dict(name='neighbors', src='P03/neighbors.cpp', repo=SFC, mpilib=True, mpiinit=True, traces=1, quick=[[2, 2, 0], [2, 3, 0], [3, 2, 0], [2, 3, 1], [3, 2, 1], [2, 2, 2, 3], [2, 3, 2, 2], [3, 2, 2, 2]]),
    ])

MATOPS = ['math/operations/*.cpp', 'math/operations/auxiliary/*.cpp', 'math/primitives_new/*.cpp', 'wrappers/mkl/w.mkl.blas.cpp', 'wrappers/mkl/w.mkl.spblas.cpp', 'math/wrappers/math.blas.cpp', 'math/wrappers/math.spblas.cpp', 'math/primitives/matrix_info.cpp', 'esinfo/mpiinfo.cpp']
MKL = ['-lmkl_intel_lp64', '-lmkl_core', '-lmkl_sequential']
PROPS['P01'] = dict(jobs=[dict(name='ops', src='P01/ops.cpp', repo=MATOPS, exclude=['math/operations/schur*', 'math/operations/solver*'], models=['sym:sym_mkl.cpp'], libs=MKL, mpilib=True,
    quick=[[op, 4 if op == 13 else 3 if op in (0, 1, 2, 3, 4, 14) else 2, 4 if op == 13 else 3 if op in (0, 1, 2, 3, 4, 10, 11, 12) else 2, 0, 1 if op in (2, 4, 9, 14) else 0] for op in range(15)] + [[op, 2, 2, 1, 1] for op in (0, 2, 3, 4, 9, 14)])])
PROPS['P02'] = dict(jobs=[dict(name='ops', src='P02/ops.cpp', repo=MATOPS, exclude=['math/operations/schur*', 'math/operations/solver*'], models=['sym:sym_mkl.cpp'], libs=MKL, mpilib=True,
    quick=[[0, 2, 2, 2, 0], [1, 2, 2, 2, 0], [2, 2, 1, 2, 0], [3, 2, 3, 0, 0], [4, 2, 1, 2, 0], [6, 2, 2, 0, 0], [7, 2, 2, 0, 0], [8, 3, 2, 0, 0], [9, 3, 2, 0, 0],
           [5, 3, 1, 2, 0, 0, 1], [5, 3, 1, 3, 0, 0, 2], [10, 3, 1, 0, 0, 5, 1], [10, 2, 2, 0, 0, 5, 2], [11, 3, 1, 0, 0, 5, 1], [11, 2, 2, 0, 0, 5, 2]] + [[op, 2, 2, 2, 1] for op in (0, 1, 3, 4, 7, 8, 9)])])

PROPS['P04'] = dict(jobs=[dict(name='comm', src='P04/comm.cpp', repo=MPI, mpi=True, ranks=3,
    quick=[[op, 3, 1, 2, 0, 0] for op in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9)] + [[op, 3, 1, 1, 1, 1] for op in (0, 3, 6, 8)] + [[2, 3, 2, 1, 1, 1]]
    + [dict(args=[op, n, m, 2, ty, sy], ranks=n) for op in (10, 11, 12, 13, 18) for (n, m, ty, sy) in ((2, 2, 1, 1), (3, 2 if op != 13 else 1, 0, 0), (4, 1, 0, 1), (5, 1, 0, 0)) if (op, n) != (13, 5)]
    + [dict(args=[19, n, 2, 2, ty, ty], ranks=n) for n, ty in ((1, 0), (3, 1), (5, 0))] + [dict(args=[24, n, 2, 2, n % 2, n % 2], ranks=n) for n in (2, 3, 4)]
    + [dict(args=[14, 3, 2, 2, 1, 0]), dict(args=[15, 3, 4, 1, 1, 0]), dict(args=[15, 2, 5, 2, 0, 1], ranks=2), dict(args=[16, 2, 2, 2, 1, 0], ranks=2), dict(args=[16, 3, 1, 1, 0, 0]), dict(args=[17, 3, 1, 2, 0, 0, 1]), dict(args=[17, 3, 0, 1, 0, 0]), dict(args=[17, 2, 2, 1, 1, 1], ranks=2)]
    + [dict(args=[20, n, 2, 2, 0, 0], ranks=n) for n in (1, 2, 3)] + [dict(args=[21, n, 1, 2, 0, n % 2], ranks=n) for n in (2, 3)] + [dict(args=[21, 5, 1, 1, 0, 1, 0, 1], ranks=5)] + [dict(args=[22, n, 1 if n < 4 else 0, 1, 0, n % 2, n == 4], ranks=n) for n in (2, 3, 4)] + [dict(args=[23, n, 2, 1, 0, n % 2, 2], ranks=n) for n in (2, 3)] + [dict(args=[25, n, 1, 1, 0, 0], ranks=n) for n in (1, 2, 4, 5)] + [dict(args=[26, n, 1, 1, 0, 0], ranks=n) for n in (2, 3)])])
PROPS['P05'] = dict(jobs=[
    dict(name='utils', src='P05/utils.cpp', repo=[], quick=[[0, 0, 5, 200], [1, 3, 3], [2, 3, 2], [3, 4, 3], [4, 4, 1], [5, 3, 3], [6, 4, 3], [7, 5, 3], [8, 0, 1, 16]]),
    dict(name='edata', src='P05/edata.cpp', repo=[], quick=[[0, 4, 3, 1], [1, 3, 3, 2], [2, 3, 3, 2], [3, 3, 2, 2], [4, 3, 2, 2], [5, 3, 2, 2], [5, 2, 3, 2], [6, 3, 3, 1]])])
PROPS['P06'] = dict(jobs=[dict(name='pack', src='P06/pack.cpp', repo=['mesh/store/*.cpp', 'mesh/element.cpp', 'esinfo/envinfo.cpp', 'esinfo/mpiinfo.cpp'], mpilib=True,
    quick=[[0, 2, 1, 0], [1, 2, 2, 2], [2, 2, 3, 0], [3, 2, 2, 6], [4, 2, 2, 11], [5, 2, 2, 2], [6, 2, 2, 5], [7, 2, 2, 6], [8, 1, 2, 15], [9, 2, 1, 0]])])
PROPS['P07'] = dict(jobs=[dict(name='fileio', src='P07/fileio.cpp', repo=MPI + ['basis/io/*.cpp', 'esinfo/ecfinfo.cpp'], mpi=True, ranks=3,
    quick=[dict(args=[0, n, 1, 0, 7, 2, 1, 2], ranks=n) for n in (1, 2, 3, 4, 5)] + [dict(args=[0, 3, 2, 0, 5, 2, 2, 1]), dict(args=[2, 2, 1, 0, 3], ranks=2)] + [dict(args=[0, n, 1, 0, 30, mc, ov, st], ranks=n) for n, mc, ov, st in ((2, 3, 2, 4), (3, 1, 1, 1), (4, 2, 2, 3), (5, 2, 1, 1))] + [dict(args=[0, 4, 2, 0, 7, 1, 1, 1], ranks=4)]
    + [dict(args=[1, n, 1, 1, 9 if n < 3 else 2, 0, 0, 3], ranks=n) for n in (1, 2, 3, 4)] + [dict(args=[1, 2, 1, 2, 3, 0, 0, 2], ranks=2), dict(args=[1, 2, 2, 1, 3, 0, 0, 2], ranks=2), dict(args=[1, 3, 1, 1, 6, 0, 0, 1]), dict(args=[1, 2, 1, 1, 20, 0, 0, 4], ranks=2), dict(args=[1, 3, 3, 1, 1, 0, 0, 1]), dict(args=[1, 5, 1, 1, 1, 0, 0, 1], ranks=5), dict(args=[1, 3, 2, 1, 2, 0, 0, 1])])])
CONF = MPI + ['config/reader/*.cpp', 'config/*.cpp', 'basis/utilities/parser.cpp', 'config/holders/*.cpp']
PROPS['P08'] = dict(jobs=[dict(name='token', src='P08/token.cpp', repo=MPI + ['config/reader/tokenizer.cpp'], mpilib=True, mpiinit=True, traces=1, quick=[[3, 0]] + [[2, t] for t in range(1, 10)]),
    dict(name='reader', src='P08/reader.cpp', repo=CONF + ['esinfo/ecfinfo.cpp', 'basis/evaluator/*.cpp'], mpilib=True, mpiinit=True, traces=1, reach=[], quick=[[1, 3 if k in (0, 2, 4, 5, 6) else 0, k] for k in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 20, 21, 22, 23, 24, 25, 30, 31, 32, 33)] + [[1, 0, 0, 7], [1, 0, 8, 8], [1, 0, 9, 9], [1, 0, 3, 5, 3], [1, 0, 6, 6], [1, 0, 7, 22, 0], [1, 0, 4, 24, 5]])])
FETI = MPI + ['feti/feti.cpp', 'feti/common/*.cpp', 'feti/projector/*.cpp', 'feti/dualoperator/dualoperator.cpp', 'feti/dualoperator/totalfeti.implicit.cpp', 'feti/dualoperator/totalfeti.explicit.cpp', 'feti/dualoperator/hybridfeti.implicit.cpp', 'wrappers/mkl/w.mkl.solver.cpp', 'esinfo/meshinfo.cpp', 'feti/preconditioner/dirichlet.implicit.cpp', 'feti/preconditioner/lumped.cpp', 'feti/preconditioner/dirichlet.cpp', 'feti/preconditioner/preconditioner.cpp', 'feti/iterativesolver/*.cpp',
    'analysis/linearsystem/constrains/equalityconstrains.cpp', 'esinfo/ecfinfo.cpp', 'math/math.cpp', 'math/wrappers/*.cpp', 'math/primitives/*.cpp', 'wrappers/mkl/w.mkl.blas.cpp', 'wrappers/mkl/w.mkl.spblas.cpp', 'wrappers/mkl/w.mkl.pardiso.cpp', 'gpu/gpu_management.cpp']
FETIGEN = FETI + MATOPS + ['feti/dualoperator/*generals*.cpu.cpp', 'feti/dualoperator/dualop_explicit_applicator.cpp', 'feti/preconditioner/dirichlet.generalschur.cpp', 'wrappers/mkl/operations/*.cpp', 'basis/utilities/cbmb_allocator.cpp']
def _feti(topo, d, n, w, th, f, fix, k, st, sel=0): return dict(args=[topo, d, n, w, th, f, fix, k, st, sel], ranks=n)
FETIQ = [_feti(0, d, n, w, 1 + n % 2, 0, 1, k, 2) for d, n, w, k in ((2, 1, 56, 0), (3, 2, 49, 4), (3, 2, 2, 0), (4, 3, 6, 0), (4, 4, 5, 0), (4, 3, 2, 255), (4, 2, 128, 0), (5, 2, 130, 1023), (5, 2, 128, 0))] \
    + [_feti(1, 4, n, w, 1, 0, 7, k, 1) for n, w, k in ((1, 56, 2), (2, 48, 8), (3, 20, 0), (4, 18, 0), (2, 130, 255))] \
    + [_feti(2, d, n, w, 1, f, -2, k, 1) for d, n, w, f, k in ((2, 2, 8, 2, 0), (3, 2, 304, 2, 0), (3, 3, 4, 2, 0), (3, 3, 2, 2, 63), (4, 3, 0, 1, 0))] \
    + [_feti(3, d, n, w, 1, f, 1, k, 2) for d, n, w, f, k in ((3, 2, 0, 2, 0), (4, 3, 6, 2, 4), (5, 3, 16, 2, 1))]
FETIT = [_feti(2, 4, 2, 128, 1, 2, -2, 0, 1), _feti(1, 4, 2, 128, 1, 0, 7, 0, 1), _feti(2, 3, 2, 1, 1, 2, -2, -1, 1), _feti(2, 4, 3, 4, 1, 2, -2, 0, 1), _feti(2, 4, 3, 2, 1, 2, -2, 255, 2)]
FETIG = [_feti(0, 3, 2, 576 + 1, 1, 0, 1, 0, 2), _feti(0, 3, 2, 64, 1, 0, 1, 0, 2), _feti(1, 4, 2, 577, 1, 0, 7, 8, 1, 1), _feti(0, 4, 2, 64 + 128, 1, 0, 1, 0, 1), _feti(0, 4, 2, 65 + 128, 1, 0, 1, 0, 2), _feti(0, 4, 2, 65 + 130, 1, 0, 1, 255, 1), _feti(0, 4, 2, 64 + 130, 1, 0, 1, 255, 1), _feti(0, 4, 3, 65 + 2, 1, 0, 1, 255, 1), _feti(0, 4, 3, 64 + 2, 1, 0, 1, 255, 1)]
PROPS['P09'] = dict(jobs=[dict(name='feti', src='P09/feti.cpp', repo=FETI, mpi=True, ranks=3, models=['sym:sym_mkl.cpp', 'sym:sym_pardiso.cpp'], libs=MKL, quick=FETIQ, thorough=FETIQ + FETIT),
    dict(name='gen', src='P09/gen.cpp', repo=FETIGEN, mpi=True, ranks=3, models=['sym:sym_mkl.cpp', 'sym:sym_pardiso.cpp'], libs=MKL, quick=FETIG)])

PAT = CONF + ['analysis/pattern/*.cpp', 'analysis/linearsystem/directsolver.cpp', 'wrappers/mklpdss/w.mkl.pdss.cpp', 'mesh/store/*.cpp', 'mesh/element.cpp', 'esinfo/ecfinfo.cpp', 'esinfo/meshinfo.cpp', 'basis/evaluator/*.cpp', 'math/math.cpp', 'math/wrappers/math.blas.cpp', 'math/wrappers/math.spblas.cpp', 'math/primitives/*.cpp', 'wrappers/mkl/w.mkl.blas.cpp', 'wrappers/mkl/w.mkl.spblas.cpp']
def _asm(topo, ne, nd, n, df, w, t=1, per=0, mu=1, free=4, dm=1, ds=0): return dict(args=[topo, ne, nd, n, df, w, t, per, mu, free, dm, ds], ranks=n)
PROPS['P10'] = dict(jobs=[dict(name='assemble', src='P10/assemble.cpp', repo=PAT, mpi=True, ranks=3, models=['sym:sym_mkl.cpp', 'sym_pdss.cpp'], flags=['-DHAVE_MKLPDSS', '-DHAVE_MKLPDSS_PARALLEL'], libs=MKL, quick=[_asm(0, 3, 2, 2, 1, 1 + 32)])])
ASMD = [_asm(5, 6 if n == 3 else 5, n, n, 1, 16, 1, p, 1, 5 if n == 3 else 4) for n in (1, 2, 3) for p in (0, 1)] + [_asm(5, 6, 4, 4, 1, 16, 1, 0, 1, 6), _asm(1, 4, 3, 3, 2, 16, 1, 2), _asm(2, 6, 3, 3, 2, 16 + 8), _asm(3, 4, 3, 3, 1, 16, 1, 1), _asm(2, 6, 4, 2, 2, 16, 2, 1)] \
    + [_asm(5, 6 if n == 3 else 5, n, n, 1, 32, 2, p, 1, 5 if n == 3 else 4) for n in (1, 2, 3) for p in (0, 1)] + [_asm(5, 6, 4, 4, 1, 32, 1, 1, 1, 6), _asm(1, 5, 3, 3, 2, 32 + 8), _asm(4, 6, 5, 5, 1, 32, 1, 1), _asm(0, 5, 5, 5, 1, 32), _asm(3, 4, 3, 3, 2, 32)] \
    + [_asm(5, 4 + (n == 3), n, n, 1, 4 + 64 + 128 + f, 2, 0, 1, 4 + (n == 3), -1 if n < 3 else 18) for n in (1, 2, 3) for f in (0, 8)] + [_asm(1, 4, 3, 3, 2, 4 + 64, 1, 2, 1, 4, 9, 1), _asm(0, 3, 2, 2, 2, 4 + 64 + 128, 1, 0, 1, 4, 5, 1), _asm(4, 4, 3, 3, 1, 4 + 64, 1, 1, 1, 4, -1), _asm(3, 4, 3, 3, 1, 4 + 64 + 8, 1, 1, 1, 4, 26), _asm(0, 3, 2, 2, 2, 4 + 64, 1, 0, 2, 4, 5, 1), _asm(5, 6, 4, 4, 1, 4 + 64, 1, 1, 1, 6, 21)]
ASMF = [_asm(5, 5, nd, n, 1, 2 + 16 + 64, 2, p, 1, 4) for nd, n in ((1, 1), (2, 1), (3, 2), (3, 3)) for p in (0, 1)] + [_asm(5, 6, 4, 3, 1, 2 + 16 + 64, 2, 0, 1, 6), _asm(1, 4, 3, 2, 2, 2 + 16 + 64, 1, 2), _asm(2, 6, 3, 2, 2, 2 + 4 + 64), _asm(2, 6, 3, 3, 1, 2 + 4 + 8 + 16 + 64, 1, 1, 1, 4, 5), _asm(3, 4, 4, 3, 1, 2 + 32 + 64, 1, 1), _asm(4, 5, 5, 4, 1, 2 + 32), _asm(5, 5, 4, 2, 1, 2 + 32, 2, 0, 1, 4), _asm(1, 4, 3, 3, 2, 2 + 4 + 64, 1, 0, 1, 4, 9, 1), _asm(0, 3, 2, 2, 2, 2 + 4 + 64, 1, 0, 2, 4, 5, 1)]
PROPS['P10']['jobs'][0]['quick'] = ASMD + ASMF
FEM = PAT + ['config/ecf/physics/*.cpp', 'config/ecf/physics/physicssolver/*.cpp', 'config/ecf/material/*.cpp', 'config/ecf/linearsolver/*.cpp', 'config/ecf/linearsolver/*/*.cpp', 'analysis/assembler/assembler.cpp', 'analysis/assembler/general/*.cpp']
def _heat(code, flags=0, model=0, cs=0, depk=0, depl=0, dept=0, ne=4): return dict(args=[code, flags, model, cs, depk, depl, dept, ne])
PROPS['P11'] = dict(jobs=[dict(name='quad', src='P11/quad.cpp', repo=FEM, models=['sym:sym_mkl.cpp', 'sym_pdss.cpp', 'sym_exprtk.cpp'], flags=['-DHAVE_MKLPDSS', '-DHAVE_MKLPDSS_PARALLEL'], libs=MKL, quick=[dict(args=[c, d, s]) for s in (0, 1) for c, d in enumerate([0, 3, [3, 2][s], 3, 1, 3, 2, 3, 5, 4, 5, 5, 5, 2, 5]) if c]), dict(name='heat', src='P11/heat.cpp', repo=FEM + ['analysis/assembler/heattransfer.cpp', 'analysis/assembler/heattransfer/*.cpp'], mpi=True, models=['sym:sym_mkl.cpp', 'sym_pdss.cpp', 'sym_exprtk.cpp'], flags=['-DHAVE_MKLPDSS', '-DHAVE_MKLPDSS_PARALLEL'], libs=MKL, quick=[_heat(3, 2 + 8 + 16 + 32), _heat(3, 2 + 8 + 16 + 64 + 256)])])
HC = (2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14) # all element types
TR, SR, AD, FL, OU, SK, SL, NFX, ST, AG = [1 << i for i in range(10)]
def _hq(cs):
    r = []
    for c in cs:
        d2 = c in (2, 3, 9, 10)
        r += [_heat(c, TR + SR + FL + OU + SK, 0, 0), _heat(c, SR + FL + OU + SL + ST, 2), _heat(c, SK + OU, 1, 1), _heat(c, SK, 2, 1), _heat(c, SK + OU, 3, 1), _heat(c, SK, 1, 2), _heat(c, SK, 2, 2), _heat(c, SK, 3, 2), _heat(c, NFX + ST, 3), _heat(c, AD + SR, 0), _heat(c, TR + SR + FL + AG, 0, 0, 16, 16, 2 if d2 else 0), _heat(c, TR + SR + FL + OU, 2, 0, 3, 3, 1 if d2 else 0), _heat(c, TR + SR + AG + OU, 3, 0, 8, 8)] + ([_heat(c, TR + 1024)] if c == 3 else [])
    return r
PROPS['P11']['jobs'][1]['quick'] = _hq([2, 3, 4, 7]) + [_hq([c])[i] for c in (5, 6, 9, 10, 11, 12, 13, 14) for i in ((0, 9, 12) if c in (5, 6, 9) else (1, 10))]
PROPS['P11']['jobs'][1]['thorough'] = _hq(HC)

def _solid(c, fl, b=0, dk=0, dl=0, dt=0, ne=4): return dict(args=[c, fl, b, dk, dl, dt, ne])
PROPS['P11']['jobs'].append(dict(name='solid', src='P11/solid.cpp', repo=FEM + ['analysis/assembler/structuralmechanics.cpp', 'analysis/assembler/structuralmechanics/*.cpp', 'wrappers/mkl/w.mkl.lapack.cpp'], mpi=True, models=['sym:sym_mkl.cpp', 'sym_pdss.cpp', 'sym_exprtk.cpp', 'sym:sym_eig.cpp'], flags=['-DHAVE_MKLPDSS', '-DHAVE_MKLPDSS_PARALLEL'], libs=MKL, quick=[]))

def _sq(cs):
    r = []; ALL = 2 + 4 + 8 + 16 + 32
    for c in cs:
        d2 = c in (2, 3, 9, 10); small = c in (2, 3, 5); se = 64 if c < 10 else 0; su = 2048 if small else 0
        co = 3 if d2 else 7
        for b in ((0, 2, 3) if d2 else (0,)): r += [_solid(c, 1 + ALL + se, b), _solid(c, 256 + su + 8 * d2, b), _solid(c, 512, b)]
        b = 3 if d2 else 0
        r += [_solid(c, 1 + ALL + 128, b, 0, co), _solid(c, 1 + ALL + 128 + 1024, b, 16, 16), _solid(c, 1 + ALL + se, b, co, 0), _solid(c, 256 + 1024 + 512 + 128, b, co | 16)]
        if c in (2, 4, 6): r.append(_solid(c, 512 + 4096))
        if small: r += [_solid(c, 512 + 2048, b), _solid(c, 512 + 2048 + 256, b)]
        if small: r += [_solid(c, 2, b, 0, co), _solid(c, 4, b, co, co), _solid(c, 2, b, co), _solid(c, 8, b, 0, co), _solid(c, 16, b, 0, co), _solid(c, 32, b, 0, co), _solid(c, 1, b, co)]
        if d2: r += [_solid(c, 1 + ALL + 64, 1), _solid(c, 1 + ALL + 128, 1, co, co), _solid(c, 1 + ALL + 1024 + 128, 1, 16, 16), _solid(c, 1 + ALL, 3, 0, 0, 3), _solid(c, 256 + 512 + 8, 2, 0, 0, 3), _solid(c, 512 + 64, 2, co, 0, 3)]
        else: r += [_solid(c, 512 + 256 + se, 1, 7 if small else 0), _solid(c, 256 + 1024 + se, 1, 16)]
    return r
def _lt(c): a = c['args']; return not (a[0] >= 4 and (a[1] & 2048 or a[3] & 7 and a[1] & 256 or a[1] & 1024 and a[1] & 256 and a[1] & 64))
PROPS['P11']['jobs'][2]['quick'] = _sq([2, 3]) + [c for c in _sq([5, 7]) if _lt(c)] + [_sq([c])[i] for c in (4, 6, 9, 10, 11, 12, 13, 14) for i in (0, 2)] + [_solid(c, 512 + 4096) for c in (4, 6)]
PROPS['P11']['jobs'][2]['thorough'] = _sq(HC)
