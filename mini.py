"""A small solution in the form the YASK compiler emits, with the point
calculations replaced by calls into the harness (h_scalar, h_vector)."""


def part(name, num, scratch=False, step_dir=1):
    return '''
struct %(n)s_t {
    const char* _name = "%(n)s"; const int _scalar_fp_ops = 1, _scalar_points_read = 1, _scalar_points_written = 1; const bool _is_scratch = %(s)s;
    ALWAYS_INLINE static bool is_in_valid_domain(const h_core_t* core_data, const Indices& idxs) { return h_valid_domain(%(k)d, idxs); }
    ALWAYS_INLINE static bool is_sub_domain_expr() { return h_has_domain(%(k)d); }
    inline std::string get_domain_description() const { return "d%(k)d"; }
    ALWAYS_INLINE static bool is_in_valid_step(const h_core_t* core_data, idx_t t) { return h_valid_step(%(k)d, t); }
    ALWAYS_INLINE static bool is_step_cond_expr() { return h_has_step(%(k)d); }
    inline std::string get_step_cond_description() const { return "s"; }
    ALWAYS_INLINE static bool get_output_step_index(idx_t t, idx_t& o) { %(o)s }
    static void calc_scalar(h_core_t* core_data, int core_idx, const Indices& idxs) { h_scalar(%(k)d, core_data, core_idx, idxs); }
    static void calc_vectors(h_core_t* core_data, int core_idx, int block_thread_idx, int thread_limit, ScanIndices& norm_nb_idxs, bit_mask_t write_mask) {
        if (write_mask == 0) return;
        const Indices& idxs = norm_nb_idxs.start;
        idx_t t = idxs[0];
        #define NANO_BLOCK_LOOP_INDICES norm_nb_idxs
        #define NANO_BLOCK_USE_LOOP_PART_0
        #include "yask_nano_block_loops.hpp"
        #define PICO_BLOCK_BEGIN(dn) NANO_BLOCK_BODY_START(dn)
        #define PICO_BLOCK_END(dn) NANO_BLOCK_BODY_STOP(dn)
        #define PICO_BLOCK_STRIDE(dn) idx_t(1)
        #define PICO_BLOCK_USE_LOOP_PART_0
        #include "yask_pico_block_loops.hpp"
        idx_t x = pico_block_start_1;
        idx_t y = pico_block_start_2;
        idx_t z = pico_block_begin_3;
        #define PICO_BLOCK_USE_LOOP_PART_1
        #include "yask_pico_block_loops.hpp"
        h_vector(%(k)d, core_data, core_idx, t, x, y, z, write_mask);
        z += 1;
        #define PICO_BLOCK_USE_LOOP_PART_2
        #include "yask_pico_block_loops.hpp"
        #define NANO_BLOCK_USE_LOOP_PART_1
        #include "yask_nano_block_loops.hpp"
    }
};
''' % dict(n=name, k=num, s='true' if scratch else 'false', o='return false;' if scratch else 'o = t + %d; return true;' % step_dir)


def var_setup(v, dims, halo, step_alloc=None, p=None):
    p = p or 'var_%s' % v
    s = '''
  %(t)s %(p)s_base_p = std::allocate_shared<var_%(v)s_base_t>(yask_allocator<var_%(v)s_base_t>(), *this, "%(v)s", var_%(v)s_dim_names);
  %(p)s_p = std::make_shared<YkVarImpl>(%(p)s_base_p);
''' % dict(p=p, v=v, t='var_%s_base_ptr_t' % v)
    if step_alloc:
        s += '  %s_base_p->_set_dynamic_step_alloc(false); %s_p->_set_alloc_size("t", %d);\n' % (p, p, step_alloc)
    for d in dims:
        if d in halo:
            s += '  %s_p->set_left_halo_size("%s", %d); %s_p->set_right_halo_size("%s", %d);\n' % (p, d, halo[d][0], p, d, halo[d][1])
    s += '  %s_p->set_halo_exchange_l1_norm(3); %s_base_p->_set_dynamic_misc_alloc(false); %s_base_p->set_misc_mult(1);\n' % (p, p, p)
    return s


def solution(fold=(2, 2, 1), vars=None, parts=None, scratch=None, step_dir=1):
    """vars: name -> (dims, halo {dim: (l, r)}, step_alloc, is_output); scratch: same, plus slot.
    parts: list of dict(name, stage, reads, writes, deps, scratch_children, sreads, swrites)."""
    lay = {1: '1', 2: '12', 3: '123', 4: '1234'}
    f = dict(zip('xyz', fold))
    scratch = scratch or {}
    o = '\n#if defined(DEFINE_SOLUTION) && !defined(SOLUTION_DONE)\n#define SOLUTION_DONE\nnamespace yask {\n'
    for v, d in list(vars.items()) + list(scratch.items()):
        dims = d[0]
        vec = all(k in dims for k in 'xyz' if f[k] > 1)
        st = 'true' if 't' in dims else 'false'
        L = 'Layout_' + lay[len(dims)]
        if vec:
            o += '#define T_%s_ARGS %s, %s, %s\ntypedef YkVecVar<T_%s_ARGS> var_%s_base_t; typedef YkVecVarCore<T_%s_ARGS> var_%s_core_t;\n' % (v, L, st, ', '.join(str(f.get(k, 1)) for k in dims), v, v, v, v)
        else:
            o += 'typedef YkElemVar<%s, %s> var_%s_base_t; typedef YkElemVarCore<%s, %s> var_%s_core_t;\n' % (L, st, v, L, st, v)
        o += 'typedef std::shared_ptr<var_%s_base_t> var_%s_base_ptr_t;\n' % (v, v)
    o += 'struct h_thread_core_t {\n' + ''.join('  synced_ptr<var_%s_core_t> var_%s_core_p;\n' % (v, v) for v in scratch) + '};\n'
    o += 'struct h_core_t : public StencilCoreBase {\n' + ''.join('  synced_ptr<var_%s_core_t> var_%s_core_p;\n' % (v, v) for v in vars) + '  synced_ptr<h_thread_core_t> _thread_core_list;\n};\n'
    o += '''bool h_valid_domain(int part, const Indices& idxs); bool h_has_domain(int part); bool h_valid_step(int part, idx_t t); bool h_has_step(int part);
void h_scalar(int part, h_core_t*, int core_idx, const Indices& idxs);
void h_vector(int part, h_core_t*, int core_idx, idx_t t, idx_t x, idx_t y, idx_t z, bit_mask_t mask);
'''
    for i, p in enumerate(parts):
        o += part(p['name'], i, bool(p.get('swrites')), step_dir)
    o += 'class h_context_t : public StencilContext {\npublic:\n'
    for v, d in vars.items():
        o += '  VarDimNames var_%s_dim_names; YkVarPtr var_%s_p;\n' % (v, v)
    for v in scratch:
        o += '  VarDimNames var_%s_dim_names; VarPtrs var_%s_list;\n' % (v, v)
    o += '  h_core_t _core_data; std::vector<h_thread_core_t, yask_allocator<h_thread_core_t>> _thread_cores;\n'
    for p in parts:
        o += '  StencilPartTmpl<%s_t, h_core_t> %s;\n' % (p['name'], p['name'])
    o += '  h_context_t(KernelEnvPtr kenv, KernelSettingsPtr ks, KernelSettingsPtr us) : StencilContext(kenv, ks, us)' + ''.join(', %s(this)' % p['name'] for p in parts) + ' {\n  STATE_VARS(this);\n  name = "h"; long_name = "h";\n'
    for v, d in vars.items():
        o += '  var_%s_dim_names = { %s };' % (v, ', '.join('"%s"' % k for k in d[0])) + var_setup(v, d[0], d[1], d[2])
        o += '  add_var(var_%s_p, true, %s);\n' % (v, 'true' if d[3] else 'false')
    for v, d in scratch.items():
        o += '  var_%s_dim_names = { %s };\n  add_scratch(var_%s_list);\n' % (v, ', '.join('"%s"' % k for k in d[0]), v)
    o += '  update_var_info(false);\n'
    for p in parts:
        n = p['name']
        for q in p.get('deps', []):
            o += '  %s.add_dep(&%s);\n' % (n, q)
        for q in p.get('sreads', []):
            o += '  %s.input_scratch_vecs.push_back(&var_%s_list);\n' % (n, q)
        for q in p.get('reads', []):
            o += '  %s.input_var_ptrs.push_back(var_%s_p);\n' % (n, q)
        for q in p.get('writes', []):
            o += '  %s.output_var_ptrs.push_back(var_%s_p);\n' % (n, q)
        for q in p.get('swrites', []):
            o += '  %s.output_scratch_vecs.push_back(&var_%s_list);\n' % (n, q)
    for p in parts:
        for q in p.get('scratch_children', []):
            o += '  %s.add_scratch_child(&%s);\n' % (p['name'], q)
    seen = []
    for p in parts:
        s = p.get('stage')
        if not s:
            continue
        if s not in seen:
            seen.append(s)
            o += '  auto %s = std::make_shared<Stage>(this, "%s"); st_stages.push_back(%s);\n' % (s, s, s)
        o += '  %s->push_back(&%s); st_parts.push_back(&%s);\n' % (s, p['name'], p['name'])
    o += '  }\n  virtual ~h_context_t() { }\n  VarBasePtr new_stencil_var(const std::string& name, const VarDimNames& dims) override {\n    VarBasePtr gp;\n'
    for v in vars:
        o += '    if (dims == var_%s_dim_names) gp = std::allocate_shared<var_%s_base_t>(yask_allocator<var_%s_base_t>(), *this, name, dims);\n' % (v, v, v)
    o += '    return gp; }\n  void set_core() override { auto* cxt_cd = &_core_data; cxt_cd->_common_core.set_core(this);\n'
    for v in vars:
        o += '    cxt_cd->var_%s_core_p.set_and_sync(static_cast<var_%s_core_t*>(var_%s_p->corep()));\n' % (v, v, v)
    o += '  }\n  StencilCoreBase* corep() override { return &_core_data; }\n  void make_scratch_vars(int num_threads) override {\n    STATE_VARS(this);\n    _thread_cores.resize(num_threads);\n    auto* tcl = num_threads ? _thread_cores.data() : 0;\n    _core_data._thread_core_list.set_and_sync(tcl);\n'
    for k, (v, d) in enumerate(scratch.items()):
        o += '    var_%s_list.resize(num_threads);\n    for (int i = 0; i < num_threads; i++) {\n    YkVarPtr var_%s_p;' % (v, v) + var_setup(v, d[0], d[1])
        o += '    var_%s_base_p->set_scratch(true); var_%s_base_p->set_scratch_mem_slot(%d); var_%s_list[i] = var_%s_p;\n' % (v, v, d[2], v, v)
        o += '    _core_data._thread_core_list[i].var_%s_core_p.set_and_sync(static_cast<var_%s_core_t*>(var_%s_p->corep()));\n    }\n' % (v, v, v)
    o += '  }\n  virtual std::string get_target() const override { return "avx2"; }\n  virtual int get_element_bytes() const override { return REAL_BYTES; }\n'
    o += '  static DimsPtr new_dims() {\n    auto p = std::make_shared<Dims>();\n'
    fd = [k for k in 'xyz' if f[k] > 1]
    for i, k in enumerate(fd):
        o += '    p->_vec_fold_layout.set_size(%d, %d);\n' % (i, f[k])
    o += '    p->_step_dim = "t"; p->_inner_layout_dim = "z"; p->_inner_loop_dim = "z";\n    p->_stencil_dims.add_dim_back("t", 0);\n'
    for k in 'xyz':
        o += '    p->_domain_dims.add_dim_back("%s", 0); p->_stencil_dims.add_dim_back("%s", 0); p->_fold_pts.add_dim_back("%s", %d);\n' % (k, k, k, f[k])
    o += '    p->_fold_sizes.set_from_tuple(p->_fold_pts);\n' + ''.join('    p->_vec_fold_pts.add_dim_back("%s", %d);\n' % (k, f[k]) for k in fd)
    o += '    p->_fold_pts.set_first_inner(true); p->_vec_fold_pts.set_first_inner(true); p->_step_dir = %d;\n    return p;\n  }\n};\n}\n#endif\n' % step_dir
    return o
