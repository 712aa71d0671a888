"""Per-property check definitions: which real sources, which contract harnesses."""
from check import Unit, Entry, Undecided, run
PROPS = {}


def es(names, **kw):
    return [Entry(n, **kw) for n in names.split()]


def c01(cx):
    return [Unit('idiv', ['idiv.cpp'], entries=es('h_idiv_flr h_imod_flr h_ceil_idiv_flr h_round_flr h_idiv_flr_int h_imod_flr_int h_ceil_idiv_flr_int h_round_macros', nat_secs=2))]


def c02(cx):
    return [Unit('part', ['part.cpp'], entries=es('h_div_equally h_div_equally_vec', nat_secs=2)),
            Unit('parfor', ['parfor.cpp', 'omp_team.cpp'], omp=True,
                 entries=es('h_yask_for h_par_for_flat h_par_for_flat_anystride h_par_for_nested_22 h_par_for_nested_32 h_par_for_nested_13', exact=False, nat_secs=3))]


PROPS['C01'] = dict(units=c01)
PROPS['C02'] = dict(units=c02)

import kern, os, re
IGN = ['-Wl,--unresolved-symbols=ignore-all', '-Wl,-z,lazy', '-Wl,--gc-sections']


def lay_list(cx, g):
    """Entries for every layout class the generator emits (class names only)."""
    t = open(os.path.join(g, 'yask_layouts.hpp')).read()
    m = open(os.path.join(g, 'yask_layout_macros.hpp')).read()
    names = re.findall(r'^ class Layout_([1-9]+) ', t, re.M)
    if len(names) < 33:
        raise Undecided('layout generator emitted only %d classes' % len(names))
    by = {}
    for n in names:
        by.setdefault(len(n), []).append(n)
    out = []
    ents = []
    groups = [(k, '%d' % k if k < 4 else '%d%s' % (k, v[i][0]), v[i:i + 6]) for k, v in sorted(by.items()) if k <= 4 for i in range(0, len(v), 6)]
    for k, tag, v in groups:
        for fn in ('one', 'inv', 'mac'):
            ents.append('h_%s_%s' % ({'one': 'layout', 'inv': 'inverse', 'mac': 'macro'}[fn], tag))
            out.append('extern "C" void %s() { switch (yv_pick("layout", %d)) {' % (ents[-1], len(v)))
            for i, n in enumerate(v):
                if fn == 'mac':
                    a = ', '.join(['j[%d]' % q for q in range(k)] + ['s[%d]' % q for q in range(k)])
                    out.append('case %d: macro<%d>(Layout_%s(), [](const idx_t* j, const idx_t* s) -> idx_t { return LAYOUT_%s(%s); }); break;' % (i, k, n, n, a))
                else:
                    out.append('case %d: %s<Layout_%s,%s>(); break;' % (i, fn, n, ','.join(n)))
            out.append('} }')
    d = os.path.join(cx.tmp, 'laylist')
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'lay_list.inc'), 'w').write('\n'.join(out))
    return d, ents


def c03(cx):
    g = kern.gen(cx)
    d, le = lay_list(cx, g)
    fl = kern.flags(g)
    return [Unit('lay', ['lay.cpp', 'src/common/tuple.cpp'], defs=fl + ['-I' + d], libs=IGN,
                 entries=es(' '.join(le), nat_secs=1) +
                 es('h_lemma_div h_indices1 h_indices2 h_indices3 h_indices4 h_tuple1 h_tuple2 h_tuple3 h_tuple_nonstrict2 h_tuple_nonstrict3 h_next1 h_next2 h_next3 h_elementwise h_div_elements h_product h_compare', nat_secs=1) +
                 es('h_visit1 h_visit2 h_visit3', nat_secs=1)),
            Unit('visit', ['visit_par.cpp', 'src/common/tuple.cpp', 'omp_team.cpp'], defs=fl, omp=True, libs=IGN, entries=es('h_visit_par', nat_secs=1))]


def c04(cx):
    us = []
    for i, (fold, ents) in enumerate([((2, 2, 1), 'h_elem1 h_elem2 h_elem3 h_elem_step1 h_elem_step2 h_elem_step4 h_elem_ends h_lemma_ring h_lemma_ring2 h_vec_xy h_vec_yx h_vec_txyz h_vec_zyx'),
                                      ((1, 1, 4), 'h_vec_z h_vec_tzx h_vec_xyz1'), ((4, 2, 1), 'h_vec_xy42 h_vec_tyx42'), ((2, 2, 2), 'h_vec_xyz222 h_vec_tzxy222')]):
        g = kern.gen(cx, fold=fold, name='gen%d' % i)
        us.append(Unit('core%d' % i, ['core.cpp', 'src/kernel/lib/yk_var.cpp'], defs=kern.flags(g) + ['-DCFG=%d' % i], libs=IGN, entries=es(ents, nat_secs=1)))
    return us


PROPS['C03'] = dict(units=c03)
PROPS['C04'] = dict(units=c04)

# ---------------------------------------------------------------- whole-library units
import mini
KLIB = ['src/kernel/lib/%s.cpp' % f for f in 'yk_var yk_var_apis generic_var settings utils setup context alloc halo soln_apis stencil_calc auto_tuner new_var'.split()] + \
    ['src/common/%s.cpp' % f for f in 'combo common_utils fd_coeff fd_coeff2 output tuple'.split()]
KRULE = 'inputs drawn by the harness from the stated ranges; non-trivial = pre-condition satisfied; distinct input vectors counted'


def common_srcs():
    d = os.path.join(os.environ.get('YV_REPO', '/repo'), 'src')
    ks = [f for f in KLIB if os.path.exists(os.path.join(d, f[4:]))]
    have = set(ks)
    for f in sorted(os.listdir(os.path.join(d, 'common'))):
        if f.endswith('.cpp') and 'src/common/' + f not in have:
            ks.append('src/common/' + f)
    return ks


def kunit(cx, name, harness, ents, fold=(2, 2, 1), sol=None, defs=(), files=None, **kw):
    sol = sol or dict(vars={'A': ('txyz', dict(x=(1, 1), y=(1, 2), z=(2, 1)), 2, True), 'B': ('xyz', dict(x=(1, 1)), None, False)},
                      parts=[dict(name='part_1', stage='stage_1', reads=['A', 'B'], writes=['A'])])
    g = kern.gen(cx, fold=fold, solution=mini.solution(fold=fold, **sol), name='gen_' + name)
    for fn, t in (files or {}).items():
        open(os.path.join(g, fn), 'w').write(t)
    # Indices arithmetic runs over unused (uninitialised) lanes: no overflow trap there.
    return Unit(name, [harness, 'omp_team.cpp'] + common_srcs(), defs=kern.flags(g) + list(defs), native_defs=['-fno-sanitize=signed-integer-overflow', '-fwrapv'], libs=IGN, omp=True, entries=ents, **kw)


def c05(cx):
    return [kunit(cx, 'vsize', 'vsize.cpp', es('h_size_x h_size_y h_size_z h_size_b h_size_both h_size_neg h_size_frozen h_size_user h_size_soln h_size_vec h_strides_x h_strides_y h_strides_z', nat_secs=2))]


PROPS['C05'] = dict(units=c05)


def c06(cx):
    return [kunit(cx, 'slice', 'slice.cpp',
                  es('h_check_user h_check_vec h_check_norm h_elem_user h_elem_vec h_elem_vect', nat_secs=1) +
                  es('h_walk_user_x h_walk_user_m h_walk_user2_x h_walk_user2_m h_walk_3_0 h_walk_3_1 h_walk_3_2 h_walk_vec_0 h_walk_vec_2', native=False, exact=False, secs=120) +
                  [Entry('h_full', symbolic=False, nat_secs=6)])]


PROPS['C06'] = dict(units=c06)


CMPS = dict(vars={'A': ('txyz', dict(x=(1, 1), y=(1, 2), z=(2, 1)), 2, True), 'B': ('xyz', dict(x=(1, 1)), None, False), 'C': ('txyz', dict(y=(1, 1)), 2, True)},
            parts=[dict(name='part_1', stage='stage_1', reads=['A', 'B'], writes=['A']), dict(name='part_2', stage='stage_2', reads=['A'], writes=['C'], deps=['part_1'])])


def c25(cx):
    return [kunit(cx, 'cmp', 'cmp.cpp', es('h_tol h_cmp_shape', nat_secs=1) + es('h_cmp_a h_cmp_b h_cmp_u h_cmp_soln', native=False, exact=False, secs=120) +
                  [Entry('h_tol_special', symbolic=False, nat_secs=1), Entry('h_full', symbolic=False, nat_secs=5)], sol=CMPS)]


PROPS['C25'] = dict(units=c25)


def c07(cx):
    return [kunit(cx, 'steps', 'steps.cpp', es('h_update h_update_soln h_update_1d h_write h_write_1d h_flags h_flags_soln h_slice h_stage h_nostep', nat_secs=1, secs=120))]


PROPS['C07'] = dict(units=c07)


LOOPV = kern.LOOPS + [('sq', '', 'square_wave loop(1,2,3) { }'), ('sqs', '', 'square_wave serpentine loop(1,2,3) { }'), ('til', '', 'omp tiled loop(1,2,3) { }'),
                      ('tiln', '-no-align', 'tiled loop(3,1,2) { }'), ('man', '-omp|omp parallel', 'omp manual loop(1,2,3) { }'), ('mann', '-no-align|-omp|omp parallel', 'omp manual loop(2,3,1) { }'),
                      ('perm', '', 'loop(3,1,2) { }'), ('ser2', '', 'loop(1) { serpentine loop(2,3) { } }'), ('ompn', '', 'omp nested loop(1,2,3) { }'), ('nest3', '', 'loop(2) { loop(1) { loop(3) { } } }')]


def c12(cx):
    # mode (see loops.cpp), align, dimension order.
    P = dict(rank='2,1', mega_block='0,1', block='2,1', micro_block='0,1', nano_block='1,0', pico_block='2,0', misc='0,1', sq='3,1', sqs='3,1', til='3,1', tiln='3,0,3,1,2',
             man='4,1', mann='4,0,2,3,1', perm='0,1,3,1,2', ser2='3,1', ompn='2,1', nest3='2,1,2,1,3')
    g = kern.gen(cx, loops=[(n, f if '-prefix' in f else f, c) for n, f, c in LOOPV], name='gen_loops')
    lst, ents, es_ = [], [], []
    for n, fl, code in LOOPV:
        p = n.upper()
        parts = code.count('loop(') + 1
        o = 'extern "C" __attribute__((noinline)) void run_%s(ScanIndices& si) {\n#define %s_LOOP_INDICES si\n#define %s_BODY_INDICES body_range\n' % (n, p, p)
        o += '#define %s_OMP_PRAGMA\n#define %s_OMP_NUM_THREADS g_nthr\n#define %s_OMP_THREAD_NUM g_thr\n' % (p, p, p)
        for k in range(parts):
            o += '#define %s_USE_LOOP_PART_%d\n#include "yask_%s_loops.hpp"\n' % (p, k, n)
            if k == parts - 2:
                o += 'h_body(body_range);\n'
        lst.append(o + '}\n')
        sym = P[n][0] not in '34'
        m, al, rest = (P[n] + ',').split(',', 2)
        for c in range(4) if sym else [-1]:
            e = 'h_%s%s' % (n, c if sym else '')
            ents.append('extern "C" void %s() { loop(run_%s, "run_%s", %s); }' % (e, n, n, ','.join([m, al, str(c)] + [x for x in rest.split(',') if x])))
            es_.append(Entry(e, nat_secs=.5 if sym else 2, symbolic=sym, exact=False, secs=120))
    open(os.path.join(g, 'loops_list.inc'), 'w').write('\n'.join(lst))
    open(os.path.join(g, 'loops_ents.inc'), 'w').write('\n'.join(ents))
    return [Unit('loops', ['loops.cpp', 'src/common/tuple.cpp'], defs=kern.flags(g), libs=IGN, entries=es_)]


PROPS['C12'] = dict(units=c12)


def c10(cx):
    us = []
    for i, (fold, lanes) in enumerate([((2, 2, 1), 4), ((4, 1, 1), 4), ((1, 1, 4), 4), ((2, 2, 2), 8), ((1, 4, 2), 8)]):
        us.append(kunit(cx, 'cover%d' % i, 'cover.cpp', es(' '.join('h_cover_%d' % k for k in (range(lanes) if lanes < 8 or cx.tier != 'quick' else (0, 6) if i == 3 else (1, 7))), nat_secs=.5, secs=150) +
                        es('h_scalar_scan', native=False) + [Entry('h_cover_run', symbolic=False, nat_secs=2)], fold=fold))
    return us


PROPS['C10'] = dict(units=c10)


def tiling_cfg(nparts, deps, scond='true', dcond='true', hass='false', hasd='false', step_dir=1, sreads=(), svars=()):
    """deps: (part, from, {dim: (lo, hi)}, steps back)."""
    d = ', '.join('{%d, %d, {%s}, {%s}, %d}' % (p, f, ', '.join(str(h.get(k, (0, 0))[0]) for k in 'xyz'), ', '.join(str(h.get(k, (0, 0))[1]) for k in 'xyz'), b) for p, f, h, b in deps)
    sr = ', '.join('{%d, %d, {%s}, {%s}}' % (p, f, ', '.join(str(h.get(k, (0, 0))[0]) for k in 'xyz'), ', '.join(str(h.get(k, (0, 0))[1]) for k in 'xyz')) for p, f, h in sreads)
    sv = ' '.join('if (part == %d) return &CX->var_%s_list;' % x for x in svars)
    return '#define SREADLIST { %s }\n#define SCRVARS %s\n' % (sr, sv) + '#define NPARTS %d\n#define DEPLIST { %s }\n#define SCOND (%s)\n#define DCOND (%s)\n#define HASS (%s)\n#define HASD (%s)\n#define STEPDIR (%d)\n' % (nparts, d, scond, dcond, hass, hasd, step_dir)


TILHA, TILHC = dict(x=(1, 3), y=(1, 2), z=(2, 1)), dict(x=(1, 0), y=(0, 1))
TIL1 = dict(vars={'A': ('txyz', TILHA, 2, True)}, parts=[dict(name='part_1', stage='stage_1', reads=['A'], writes=['A'])])
TIL2 = dict(vars={'A': ('txyz', TILHA, 2, True), 'C': ('txyz', TILHC, 2, True)},
            parts=[dict(name='part_1', stage='stage_1', reads=['A', 'C'], writes=['A']), dict(name='part_2', stage='stage_2', reads=['A'], writes=['C'], deps=['part_1'])])
TILD1 = [(0, 0, TILHA, 1)]
TILD2 = [(0, 0, TILHA, 1), (0, 1, TILHC, 1), (1, 0, TILHA, 0)]
# Scratch variables in one memory slot, with different halos, used by consecutive stages.
TILS1, TILS2 = dict(x=(0, 1), y=(0, 0), z=(1, 0)), dict(x=(2, 3), y=(1, 0), z=(0, 2))
TILS = dict(vars={'A': ('txyz', TILHA, 2, True), 'C': ('txyz', dict(x=(3, 4), y=(1, 1), z=(1, 2)), 2, True)},
            scratch={'S1': ('xyz', TILS1, 0), 'S2': ('xyz', TILS2, 0)},
            parts=[dict(name='sp_1', reads=['A'], swrites=['S1']),
                   dict(name='part_1', stage='stage_1', reads=['A'], sreads=['S1'], writes=['C'], scratch_children=['sp_1']),
                   dict(name='sp_2', reads=['C'], swrites=['S2']),
                   dict(name='part_2', stage='stage_2', reads=['C'], sreads=['S2'], writes=['A'], deps=['part_1'], scratch_children=['sp_2'])])
TILDS = [(0, 3, dict(x=(1, 2), y=(1, 2), z=(1, 1)), 1), (2, 1, dict(x=(1, 1), y=(0, 1), z=(1, 0)), 0)]
TILSR = [(1, 0, TILS1), (3, 2, TILS2)]
# Three stages, one with a step condition, one with a domain condition.
TILH1, TILH2 = dict(x=(0, 1), y=(1, 0), z=(0, 2)), dict(x=(2, 0), y=(1, 1))
TIL3 = dict(vars={'A': ('txyz', TILHA, 2, True), 'C': ('txyz', TILH1, 2, True), 'D': ('txyz', TILH2, 2, True)},
            parts=[dict(name='part_1', stage='stage_1', reads=['A'], writes=['C']), dict(name='part_2', stage='stage_2', reads=['A', 'C'], writes=['D'], deps=['part_1']),
                   dict(name='part_3', stage='stage_3', reads=['A', 'C', 'D'], writes=['A'], deps=['part_1', 'part_2'])])
TILD3 = [(0, 2, TILHA, 1), (1, 2, TILHC, 1), (1, 0, TILH1, 0), (2, 2, TILHC, 1), (2, 0, TILH1, 0), (2, 1, TILH2, 0)]


def c13(cx):
    us = [kunit(cx, 'shift', 'shift.cpp', es('h_sections_xy h_sections_yz h_sections_xz h_secdeps_xy h_secdeps_yz h_deps_bridge_x h_deps_bridge_y h_deps_bridge_z h_tbinfo h_mega_x h_mega_y h_mega_z h_deps_base_x h_deps_base_y h_deps_base_z h_micro_x h_micro_y h_micro_z h_blocks_x h_blocks_y h_blocks_z h_blocks_notb'))]
    ent = lambda: [Entry('h_run', symbolic=False, nat_secs=12 if cx.tier == 'quick' else 120)]
    for n, sol, cfg, fold in [('one', TIL1, tiling_cfg(1, TILD1), (2, 2, 1)), ('two', TIL2, tiling_cfg(2, TILD2), (1, 1, 4)),
                              ('rev', dict(TIL2, step_dir=-1), tiling_cfg(2, TILD2, step_dir=-1), (4, 1, 1)),
                              ('three', TIL3, tiling_cfg(3, TILD3, scond='part != 0 || (t & 1) == 0', hass='k == 0', dcond='part != 1 || (p[0] < 5 && p[1] > 0) || p[2] > 3', hasd='k == 1'), (2, 1, 2)),
                              ('scr', TILS, tiling_cfg(4, TILDS, sreads=TILSR, svars=[(0, 'S1'), (2, 'S2')]), (2, 2, 1))]:
        us.append(kunit(cx, 'til_' + n, 'tiling.cpp', ent(), fold=fold, sol=sol, files={'tiling_cfg.hpp': cfg}))
    return us


PROPS['C13'] = dict(units=c13)


def c17(cx):
    ent = lambda: [Entry('h_tune', symbolic=False, nat_secs=20 if cx.tier == 'quick' else 200)]
    return [kunit(cx, 'tunestep', 'tunestep.cpp', es('h_adjust h_eval_0_0 h_eval_1_0 h_eval_2_0 h_eval_0_1 h_eval_2_1', native=False, exact=False, secs=120))] + [kunit(cx, 'tun_' + n, 'tune.cpp', ent(), fold=fold, sol=sol, files={'tiling_cfg.hpp': cfg})
            for n, sol, cfg, fold in [('two', TIL2, tiling_cfg(2, TILD2), (2, 2, 1)), ('scr', dict(TILS, step_dir=-1), tiling_cfg(4, TILDS, sreads=TILSR, svars=[(0, 'S1'), (2, 'S2')], step_dir=-1), (1, 1, 4))]]


PROPS['C17'] = dict(units=c17)


def c11(cx):
    sol = dict(vars={'A': ('txyz', dict(x=(1, 1), y=(1, 2), z=(2, 1)), 2, True)},
               parts=[dict(name='part_1', stage='stage_1', reads=['A'], writes=['A']), dict(name='part_2', stage='stage_1', reads=['A'], writes=['A'])])
    return [kunit(cx, 'bbox%d' % i, 'bbox.cpp', es('h_update_bb h_boxes h_intersect', nat_secs=1) + [Entry('h_find', symbolic=False, nat_secs=10)], fold=f, sol=sol) for i, f in enumerate([(2, 2, 1), (1, 1, 4)])]


PROPS['C11'] = dict(units=c11)

import e2e
# name, solution, fold, compiler options, harness settings
E2E = [('mix', 'e_mix', 'x=2,y=2', '', {}), ('cond', 'e_cond', 'x=2,y=2', '', {}), ('index', 'e_index', 'x=2,y=2', '', dict(big=12, steps=2)), ('rev', 'e_rev', 'z=4', '', {}), ('chain', 'e_chain', 'y=2,z=2', '', {}), ('func', 'e_func', 'x=4', '', {}),
       ('sb1', 'test_scratch_boundary_1d', 'x=4', '', dict(big=60)), ('st3', 'test_stages_3d', 'x=2,z=2', '', {}), ('m2', 'test_misc_2d', 'y=4', '', {}), ('p3', 'test_partial_3d', 'x=1,y=2,z=2', '', {}),
       ('t4', 'test_4d', 'w=2,x=2', '', dict(small=4, big=11))]


def c20(cx):
    with ThreadPoolExecutor(5) as p:
        e2e.compiler(cx)
        return list(p.map(lambda c: e2e.unit(cx, 'e2e_' + c[0], c[1], c[2], [Entry('h_' + c[0], symbolic=False, nat_secs=8, nat_n=100000)], c[3], **c[4]), E2E))


MPI = [('mix', 'e_mix', 'x=2,y=2', '', dict(mpi=4)),
       ('cond', 'e_cond', 'x=4', '', dict(mpi=4)),
       ('rev', 'e_rev', 'z=2,y=2', '', dict(mpi=4)),
       ('chain', 'e_chain', 'y=4', '', dict(mpi=7)),
       ('stages', 'test_stages_3d', 'x=2,z=2', '', dict(mpi=6))]


def c09(cx):
    sol = dict(vars={'A': ('txyz', dict(x=(1, 1), y=(1, 2), z=(2, 1)), 2, True), 'B': ('xyz', dict(x=(1, 1)), None, False), 'C': ('tyz', dict(y=(0, 1), z=(2, 0)), 2, False)},
               parts=[dict(name='part_1', stage='stage_1', reads=['A', 'B', 'C'], writes=['A'])])
    ks = [kunit(cx, 'xchg%d' % i, 'xchg.cpp', es(n, nat_secs=2, secs=240), fold=f, sol=sol, defs=['-DUSE_MPI', '-I' + kern.HERE + '/harness/fmpi']) for i, (f, n) in enumerate([((2, 2, 1), 'h_pair_x0 h_pair_x1 h_pair_x2 h_pair_x3 h_pair_x2_wf'), ((1, 1, 4), 'h_pair_z0 h_pair_z3 h_pair_z1_wf')])]
    with ThreadPoolExecutor(5) as p:
        e2e.compiler(cx)
        return ks + list(p.map(lambda c: e2e.unit(cx, 'mpi_' + c[0], c[1], c[2], [Entry('m_' + c[0], symbolic=False, nat_secs=12, nat_n=100000)], c[3], harness='e2e/mpi.cpp', **c[4]), MPI))


PROPS['C09'] = dict(units=c09)


def c15(cx):
    sol = dict(vars={'A': ('txyz', dict(x=(1, 1), y=(1, 2), z=(2, 1)), 2, True), 'B': ('xyz', dict(x=(1, 1)), None, False), 'C': ('tyz', dict(y=(0, 1), z=(2, 0)), 2, False)},
               scratch={'S0': ('xyz', dict(x=(1, 2)), 0), 'S1': ('xyz', dict(y=(2, 0), z=(1, 1)), 1), 'S2': ('xyz', dict(x=(0, 3), z=(1, 0)), 0)},
               parts=[dict(name='part_1', stage='stage_1', reads=['A', 'B', 'C'], writes=['A'])])
    return [kunit(cx, 'store', 'store.cpp', es('h_store_vars h_store_again h_store_free h_store_scratch h_store_fuse h_store_alloc', nat_secs=2, secs=120), sol=sol),
            kunit(cx, 'xbuf', 'xchg.cpp', es('h_bufs_x h_bufs_z', nat_secs=1, secs=150), fold=(2, 2, 1), sol=dict((k, v) for k, v in sol.items() if k != 'scratch'), defs=['-DUSE_MPI', '-I' + kern.HERE + '/harness/fmpi'])]


PROPS['C15'] = dict(units=c15)


def c14(cx):
    ents = es(' '.join('h_level_' + x for x in '0_1 1_1 1_2 2_2 1_3 0_4 1_5'.split()) + ' ' + ' '.join('h_nest_' + x for x in 'neg steps tile_0_3 tile_0_12 tile_0_16 tile_1_24 tile_1_5 tile_2_18 tile_2_8'.split()), nat_secs=1, secs=120) + \
        es(' '.join('h_nest_' + x for x in '0_62 1_62 2_62 0_54 1_26 2_44 0_0 thr_0_00 thr_1_00 thr_0_10 thr_1_10 thr_2_10 thr_0_11 thr_1_11'.split()), nat_secs=1, secs=120, exact=False)
    return [kunit(cx, 'nest', 'nest.cpp', ents, fold=(2, 4, 1), defs=['-DUSE_TILING'])]


PROPS['C14'] = dict(units=c14)


def c23(cx):
    return [kunit(cx, 'opts', 'opts.cpp', es('h_num_fwd_a h_num_rev_a h_num_fwd_b h_num_rev_b h_flags h_flag_alone h_rest h_refuse', nat_secs=1, secs=120) + es(' '.join('h_opt_%d' % k for k in range(16)), nat_secs=.3, secs=120) +
                  es('h_text h_words', symbolic=False, nat_secs=3) + es('h_api_0_1 h_api_0_3 h_api_1_2 h_api_1_3 h_api_2_1 h_api_2_2 h_api_3_1 h_api_3_2 h_api_3_3 h_api_4_0 h_api_4_1 h_api_4_3 h_api_5_1 h_api_5_2 h_api_5_3', nat_secs=.5, secs=120), defs=['-DUSE_TILING', '-DUSE_MPI', '-I' + kern.HERE + '/harness/fmpi'])]


PROPS['C23'] = dict(units=c23)


from concurrent.futures import ThreadPoolExecutor
PROPS['C20'] = dict(units=c20)


def c16(cx):
    return [Unit('fd', ['fd.cpp', 'src/contrib/coefficients/fd_coeff.cpp', 'src/common/fd_coeff2.cpp', 'src/common/common_utils.cpp'], incs=[os.path.join(kern.REPO, 'src/contrib/coefficients')],
                 libs=IGN, entries=es('h_fd_21 h_fd_20 h_fd_31 h_fd_32 h_fd_43', nat_secs=1) + es('h_fd_41 h_fd_42', symbolic=False, nat_secs=1) + es('h_forms h_refuse', nat_secs=1) + [Entry('h_points', symbolic=False, nat_secs=3)])]


def c24(cx):
    return [Unit('util', ['util.cpp', 'src/common/combo.cpp', 'src/common/tuple.cpp', 'src/common/common_utils.cpp', 'omp_team.cpp'], omp=True, libs=IGN,
                 entries=es('h_choose h_sets h_bits h_vset h_factors_sym', nat_secs=2) + [Entry('h_factors', symbolic=False, nat_secs=4)])]


PROPS['C16'] = dict(units=c16)
PROPS['C24'] = dict(units=c24)


def c08(cx):
    return [kunit(cx, 'rank%d' % i, 'rank.cpp', es('h_rank_auto h_rank_request h_rank_vars h_rank_bad h_rank_unaligned h_rank_agree h_rank_again' if i == 0 else 'h_rank_auto h_rank_request h_rank_vars', nat_secs=2, secs=200), fold=f, defs=['-DUSE_MPI', '-I' + kern.HERE + '/harness/fmpi']) for i, f in enumerate([(2, 2, 1), (1, 1, 4)])]


PROPS['C08'] = dict(units=c08)
