"""Compiled solutions: builds the real stencil compiler from /repo, runs it on
solutions written for these checks and on the project's own test solutions, and
makes units that run the generated code in the real kernel library."""
import os, re
from concurrent.futures import ThreadPoolExecutor
from check import REPO, HERE, run, Undecided, Unit
import kern

CLIB = 'src/compiler/lib'
ED = os.path.join(HERE, 'harness', 'e2e')
KEEP = {}


def cpps(d):
    d = os.path.join(REPO, d)
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.cpp')]


def compiler(cx, opt='-O0'):
    """The stencil compiler with the solutions of this check linked in."""
    if id(cx) in KEEP:
        return KEEP[id(cx)]
    d = os.path.join(cx.tmp, 'yc')
    os.makedirs(d, exist_ok=True)
    inc = ['-I' + os.path.join(REPO, x) for x in ('include', 'include/aux', 'src/common', CLIB, 'src/contrib/coefficients')]
    srcs = cpps(CLIB) + cpps('src/common') + [os.path.join(REPO, 'src/contrib/coefficients/fd_coeff.cpp'), os.path.join(REPO, 'src/compiler/compiler_main.cpp'), os.path.join(ED, 'sols.cpp'), os.path.join(REPO, 'src/stencils/TestStencils.cpp')]
    base = ['g++', '-std=c++17', opt, '-w', '-fwrapv', '-DFORCE_INLINE_RECURSIVE=', '-DFORCE_INLINE=', '-DUSE_INTERNAL_DSL'] + inc
    objs = [os.path.join(d, '%d.o' % i) for i in range(len(srcs))]
    with ThreadPoolExecutor(os.cpu_count() or 4) as p:
        for s, r in zip(srcs, p.map(lambda a: run(base + ['-c', a[0], '-o', a[1]], 300), zip(srcs, objs))):
            if r[0]:
                raise Undecided('compiler source %s: %s' % (os.path.basename(s), r[2][-800:]))
    exe = os.path.join(d, 'yask_compiler')
    r = run(['g++'] + objs + ['-o', exe], 100)
    if r[0]:
        raise Undecided('compiler link: ' + r[2][-800:])
    KEEP[id(cx)] = exe
    return exe


STD = '-target avx2 -elem-bytes 8 -min-buffer-len 1 -use-ptrs -no-use-safe-ptrs -no-outer-domain-layout -inner-misc-layout -first-inner -no-early-loads'


def generate(cx, name, stencil, fold, opts='', rename=None):
    """Header emitted by the compiler, with the layouts and loops made from it."""
    exe = compiler(cx)
    out = os.path.join(cx.tmp, 'code_%s.hpp' % name)
    cmd = [exe, '-stencil', stencil] + STD.split() + (['-fold', fold] if fold else []) + opts.split() + ['-p', out]
    rc, so, se = run(cmd, 100)
    if rc or not os.path.exists(out):
        raise Undecided('the compiler rejects %s: %s' % (stencil, (so + se)[-500:]))
    code = open(out).read()
    nd = int(re.search(r'define NUM_STENCIL_AND_VAR_DIMS \(?(\d+)', code).group(1)) if 'NUM_STENCIL_AND_VAR_DIMS' in code else 5
    return kern.gen(cx, code=code, name='gen_' + name, ndims=max(5, nd), var_ndims=max(4, nd)), code


def unit(cx, name, stencil, fold, ents, opts='', big=24, small=7, steps=5, wf=1, tol='1e-9', ref=None, harness='e2e/e2e.cpp', defs=(), native_defs=(), mpi=0, **kw):
    from props import common_srcs, IGN
    g, code = generate(cx, name, stencil, fold, opts)
    open(os.path.join(g, 'e2e_cfg.hpp'), 'w').write('#define REF_NAME "%s"\n#define BIG %d\n#define SMALL %d\n#define STEPS %d\n#define WF %d\n#define TOL %s\n#define ENTRY %s\n' % (ref or stencil, big, small, steps, wf, tol, ents[0].name) + ('#define MINSIZE %d\n' % mpi if mpi else ''))
    pre = ['-I' + os.path.join(ED, 'ref')]
    if mpi:
        defs = list(defs) + ['-DUSE_MPI']
        pre = ['-I' + os.path.join(HERE, 'harness', 'fmpi')] + pre
    u = Unit(name, [harness] + (['fmpi/fmpi.cpp'] if mpi else []) + ['e2e/ref.cpp', 'e2e/sols.cpp', os.path.join(REPO, 'src/stencils/TestStencils.cpp'), 'omp_team.cpp'] + common_srcs(), defs=kern.flags(g) + list(defs),
             native_defs=['-fno-sanitize=all', '-fwrapv'] + list(native_defs), libs=IGN, omp=True, entries=ents, symbolic=False, pre=pre, **kw)
    return u
