"""Kernel-library build environment for harnesses: a stencil-code header for a
small 3-D solution (macros as the YASK compiler emits them) plus the layout and
loop headers made from it by the project's own Perl generators."""
import os
from concurrent.futures import ThreadPoolExecutor
from check import REPO, HERE, run, Undecided

KDEFS = ['-DYK_CODE_FILE=yask_stencil_code.hpp', '-DYK_SOLUTION_FILE=yask_solution_code.hpp', '-DALLOW_NEW_VARS=1', '-DNO_SVML']
KFLAGS = ['-mavx2', '-DUSE_INTRIN256', '-DUSE_AVX2']


def stencil_header(fold, real_bytes=8):
    D = 'xyz'
    n = fold[0] * fold[1] * fold[2]
    fd = [i for i in range(3) if fold[i] > 1]
    lay = ''.join(str(k + 1) for k in range(len(fd)))[::-1] or '1'
    args = ', '.join(['idxs[%d]' % k for k in range(len(fd))] + [str(fold[i]) for i in fd]) or 'idxs[0], 1'
    s = '''#if defined(DEFINE_MACROS) && !defined(MACROS_DONE)
#define MACROS_DONE
#define YASK_STENCIL_NAME "h"
#define YASK_STENCIL_SOLUTION h_context_t
#define YASK_TARGET "avx2"
#define REAL_BYTES %d
#define STEP_DIM t
#define INNER_LOOP_DIM z
#define NUM_DOMAIN_DIMS 3
#define DOMAIN_DIM_IDX_x 0
#define DOMAIN_DIM_IDX_y 1
#define DOMAIN_DIM_IDX_z 2
#define NUM_STENCIL_DIMS 4
#define STENCIL_DIM_IDX_t 0
#define STENCIL_DIM_IDX_x 1
#define STENCIL_DIM_IDX_y 2
#define STENCIL_DIM_IDX_z 3
#define STENCIL_DIM_IDX_INNER_LOOP 3
#define DOMAIN_LOOP_DIMS 1,2,3
#define PICO_BLOCK_OUTER_LOOP_DIMS 1,2
#define PICO_BLOCK_INNER_LOOP_DIM 3
#define NUM_VAR_DIMS 4
#define NUM_STENCIL_AND_VAR_DIMS 4
#define NUM_STENCIL_EQS 1
#define VLEN_X %d
#define VLEN_Y %d
#define VLEN_Z %d
namespace yask {
constexpr idx_t fold_pts[] { %d, %d, %d };
constexpr idx_t stencil_fold_pts[] { 1, %d, %d, %d };
}
#define VLEN (%d)
#define FIRST_FOLD_INDEX_IS_UNIT_STRIDE (1)
#define NUM_VEC_FOLD_DIMS (%d)
#define VEC_FOLD_LAYOUT_CLASS Layout_%s
#define VEC_FOLD_LAYOUT(idxs) LAYOUT_%s(%s)
#define USING_UNALIGNED_LOADS (0)
#define PFD_L1 (0)
#define PFD_L2 (0)
#endif
''' % ((real_bytes,) + fold + fold + fold + (n, max(1, len(fd)), lay, lay, args))
    return s


LOOPS = [('rank', '', 'nested loop(DOMAIN_LOOP_DIMS) { }'),
         ('mega_block', "-omp|omp parallel for schedule(dynamic,1)", ' omp loop(DOMAIN_LOOP_DIMS) { } '),
         ('block', '', 'nested loop(DOMAIN_LOOP_DIMS) { }'),
         ('micro_block', '', ' omp loop(DOMAIN_LOOP_DIMS) { }'),
         ('nano_block', '-no-align', 'serpentine loop(DOMAIN_LOOP_DIMS) { }'),
         ('pico_block', '-no-align', 'nested loop(PICO_BLOCK_OUTER_LOOP_DIMS) { loop(PICO_BLOCK_INNER_LOOP_DIM) { } }'),
         ('misc', '-omp|omp parallel for', ' omp loop(DOMAIN_LOOP_DIMS) { }')]


def gen(cx, fold=(2, 2, 1), solution='', loops=LOOPS, code=None, name='gen', ndims=5, var_ndims=4):
    d = os.path.join(cx.tmp, name)
    os.makedirs(d, exist_ok=True)
    sc = os.path.join(d, 'yask_stencil_code.hpp')
    open(sc, 'w').write(code or (stencil_header(fold) + solution))
    open(os.path.join(d, 'yask_solution_code.hpp'), 'w').write('')
    gl = os.path.join(REPO, 'utils/bin/gen_layouts.pl')
    gp = os.path.join(REPO, 'utils/bin/gen_loops.pl')
    cmds = []
    for flag, out, n in (('-m', 'yask_layout_macros.hpp', ndims), ('-d', 'yask_layouts.hpp', ndims), ('-v', 'yask_var_code.hpp', var_ndims)):
        cmds.append((['perl', gl, flag, str(n)], os.path.join(d, out)))
    for n, fl, c in loops:
        cmds.append((['perl', gp, '-macro_file', sc, '-output', os.path.join(d, 'yask_%s_loops.hpp' % n), '-prefix', n + '_'] + [x for x in fl.split('|') if x] + [c], None))

    def go(j):
        rc, so, se = run(j[0], 100)
        if rc:
            raise Undecided('generator failed: %s: %s' % (' '.join(j[0][:6]), se[-500:]))
        if j[1]:
            open(j[1], 'w').write(so)
    with ThreadPoolExecutor(8) as p:
        list(p.map(go, cmds))
    return d


def flags(gendir):
    return KDEFS + KFLAGS + ['-I' + gendir]
