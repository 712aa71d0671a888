T = 'contract-based deductive verification of the LLVM IR of the real code (yv: VC generation + Z3/cvc5)'
TB = 'contracts on the real functions, unbounded inputs in the stated ranges; trusts clang, yv, Z3/cvc5 and the libc/libstdc++ models'


def fill(prop):
    prop('C01', 'Rounding integer division is exact for every sign',
         'Floored division, floored remainder, rounded-up division and rounding to a multiple return the mathematically floored or rounded result for every numerator, negative ones included, and every positive divisor. Remainders always lie between zero and the divisor, so index patterns repeat seamlessly across zero.',
         ['inputs'], 'every 64-bit numerator with magnitude up to 2^46 and divisor up to 2^46, and every int up to 2^29 (no intermediate product overflows)',
         'Existing tests call these on a handful of small values through var indexing; all numerators around multiples, of both signs, cannot be enumerated.',
         ['src/common/idiv.hpp', 'src/common/common_utils.hpp'],
         [('idiv_flr, imod_flr, ceil_idiv_flr, round_up_flr, round_down_flr', 'src/common/idiv.hpp'), ('CEIL_DIV, ROUND_UP, ROUND_DOWN', 'src/common/common_utils.hpp')],
         technique=T, level='proof', note=TB)
    prop('C02', 'Work is divided among threads exactly once',
         'Dividing work into parts gives parts whose sizes differ by at most one, largest first, and that add up to the whole. A strided parallel loop hands every index of its range to exactly one call of the visitor, in ranges no longer than the stride, with a thread number below the reported number of threads, whatever the thread and nesting configuration.',
         ['inputs', 'configurations', 'schedules'], 'every begin, end and stride (2^31 and 2^16), team sizes 0..3 with nested teams up to 3; division of any amount up to 2^40 into any number of parts up to 2^20',
         'Tests run with one or two fixed thread settings and ranges; the partition arithmetic depends on all of begin, end, stride and two thread counts.',
         ['src/common/common_utils.hpp'],
         [('div_equally_size_n, div_equally_cumu_size_n, div_equally_all_sizes', 'src/common/common_utils.hpp'), ('yask_parallel_for, yask_for', 'src/common/common_utils.hpp')],
         technique=T, level='proof', note=TB + '; OpenMP static schedule modelled by a reference run time, team sizes enumerated')
    prop('C03', 'Linear layouts and multi-index tuples are exact bijections',
         'Every multi-dimensional layout maps the valid index combinations one to one onto the linear range 0..size-1, and its inverse recovers the indices. Index and tuple helpers (linearise, de-linearise, next index, element-wise arithmetic, comparison) agree with each other, and visiting all points of a tuple calls the visitor exactly once per point, sequentially or in parallel.',
         ['inputs', 'configurations'], 'all generated layout classes of 1 to 4 dimensions and every permutation, all sizes up to 2^10 per dimension; point visits are explored for all sizes 1..4 with 1..4 threads (bounded part)',
         'Tests use a few fixed sizes and one or two permutations; a bijection over all sizes is a statement about every pair of indices.',
         ['src/common/tuple.hpp', 'src/common/tuple.cpp', 'src/kernel/lib/indices.hpp', 'utils/bin/gen_layouts.pl'],
         [('Layout_*::layout/unlayout (generated)', 'utils/bin/gen_layouts.pl'), ('Indices', 'src/kernel/lib/indices.hpp'), ('Tuple::layout/unlayout/visit_all_points', 'src/common/tuple.hpp')],
         technique=T, level='proof', note=TB + '; visit_all_points by bounded exhaustive execution, labelled bounded')
    prop('C04', 'Distinct variable elements never share storage',
         'The address computed for an element of a variable always lies inside its storage, and two elements share storage exactly when all their indices agree, with the step index taken modulo the allocated steps. Element access, local access and whole-vector access of the same element all find the same storage lane, for folded and unfolded variables.',
         ['inputs', 'configurations'], 'all element indices up to 2^40, domain, pad, offset and allocation sizes in 2^30, folds 2x2, 4, 4x2 and 2x2x2 in several dimension orders, 1 to 4 dimensions, with and without a step dimension',
         'Tests sample small grids with one offset; aliasing shows only for particular combinations of pads, offsets, negative indices and step wrap-around.',
         ['src/kernel/lib/yk_var.hpp', 'src/kernel/lib/yk_var.cpp'],
         [('YkVarBaseCore::_wrap_step', 'src/kernel/lib/yk_var.hpp'), ('YkElemVarCore::get_elem_ptr', 'src/kernel/lib/yk_var.hpp'), ('YkVecVarCore::get_elem_ptr, get_vec_ptr_norm', 'src/kernel/lib/yk_var.hpp')],
         technique=T, level='proof', note=TB + '; class invariant of the core fields is the one C05 proves resize() to establish; folds enumerated')
    prop('C05', 'Variable sizes, offsets and padding are consistent after every change',
         'After any accepted change of a domain size, halo, pad, extra pad, rank offset or block setting, each variable allocation covers its domain, halo and requested padding on both sides, pads are whole vectors, vector counts agree with element counts, and the strides match the layout. A refused change leaves sizes as they were, and variables whose storage is allocated never silently change shape.',
         ['inputs', 'histories'], 'all sizes, halos, pads and extra pads up to 2^20, either sign of requested values, folds 2x2x1, one dimension free at a time; call sequences up to three setters',
         'Tests use one or two sizes per variable; which pad wins depends on comparisons between halo, requested pad, extra pad, wave-front extension and vector rounding.',
         ['src/kernel/lib/yk_var.cpp', 'src/kernel/lib/yk_var_apis.cpp', 'src/kernel/lib/setup.cpp'],
         [('YkVarBase::resize', 'src/kernel/lib/yk_var.cpp'), ('set_*/update_* variable setters', 'src/kernel/lib/yk_var_apis.cpp')],
         technique=T, level='proof', note=TB + '; one dimension symbolic at a time')
    prop('C06', 'Element and slice access hit exactly the elements asked for',
         'Reading, writing or adding to one element affects that element only, and what was written is read back. A slice call visits every element inside the slice once, in row-major buffer order, returns the number of elements, never touches the buffer beyond the slice, and changes nothing outside it. Out-of-range indices are refused when strict, and otherwise clipped to the allocation. Reductions over a slice report the sum, sum of squares, product, maximum and minimum of just those elements.',
         ['inputs', 'configurations'], 'index checks: all indices, sizes, pads and offsets up to 2^30; walk: all slices with one unbounded width and widths 1 and 3 in the other dimensions, up to 2 steps; element access: all indices and values; every slice operation compared with a reference map on small sampled variables (bounded part)',
         'Tests touch a few slices fully inside the domain; partial overlap, negative offsets, step ranges and thread splits multiply.',
         ['src/kernel/lib/yk_var.hpp', 'src/kernel/lib/yk_var.cpp', 'src/kernel/lib/yk_var_apis.cpp'],
         [('YkVarBase::check_indices', 'src/kernel/lib/yk_var.cpp'), ('YkVarBase::_visit_elements_in_slice', 'src/kernel/lib/yk_var.hpp'), ('YkVarImpl::set_element, get_element, add_to_element, *_in_slice', 'src/kernel/lib/yk_var_apis.cpp')],
         technique=T, level='proof', note=TB + '; whole slice operations additionally by bounded sampling against a reference map (labelled bounded); points of the walk by the contract of visit_all_points_in_parallel (C03)')
    prop('C07', 'Valid step indices and update flags follow every write',
         'A variable with steps holds a window of consecutive valid steps, as many as are allocated. Writing an element of a step outside the window, or running the stencil to it, slides the window by the least amount that includes the step; steps that stay valid keep their values, and reading any other step is refused. Exactly the steps that were written are flagged as needing a halo exchange.',
         ['inputs', 'histories'], 'every window position and every step index up to 2^40, 1 to 4 allocated steps, up to 3 output steps per stage, forward and backward',
         'Tests write a handful of consecutive non-negative steps; wrap-around depends on sign and distance of the step from the window.',
         ['src/kernel/lib/yk_var.cpp', 'src/kernel/lib/yk_var_apis.cpp', 'src/kernel/lib/stencil_calc.cpp', 'src/kernel/lib/context.cpp'],
         [('YkVarBase::update_valid_step, set_dirty, is_dirty, set_dirty_in_slice', 'src/kernel/lib/yk_var.cpp'), ('StencilPartBase::update_var_info', 'src/kernel/lib/stencil_calc.cpp'), ('StencilContext::update_var_info', 'src/kernel/lib/context.cpp')],
         technique=T, level='proof', note=TB + '; allocated steps enumerated 1..4')
    prop('C12', 'Generated loop nests visit every point exactly once',
         'The scanning loops produced by the loop generator (nested, flattened, serpentine, square-wave, tiled, parallel and manual forms, aligned or not) hand their body ranges that together cover the requested multi-dimensional range exactly: no point is missed, visited twice or lies outside, no range is empty or longer than its stride, and aligned loops start every range but the first on an alignment boundary.',
         ['inputs', 'configurations'], 'every non-empty range with begin up to 2^37 of either sign, four stride/alignment configurations, any alignment offset; one dimension unbounded and the others up to three strides in flattened loops, all up to 2^18 in nested loops; square-wave, tiled, thread-manual loops only by bounded sampling',
         'Tests compare final results, which hide a range visited twice; corner cases depend on remainders in every dimension at once.',
         ['utils/bin/gen_loops.pl', 'utils/lib/YaskUtils.pm', 'src/kernel/Makefile'],
         [('generated *_loops.hpp', 'utils/bin/gen_loops.pl'), ('ScanIndices', 'src/kernel/lib/context.hpp')],
         technique=T, level='proof', note=TB + '; nested, flattened, serpentine loops discharged for all ranges with enumerated strides; square-wave, tiled and manual loops bounded (labelled bounded)')
    prop('C13', 'Tiled and overlapped runs equal step-by-step evaluation',
         'Whatever the mega-, block, micro-, nano- and pico-block sizes, temporal wave-fronts, temporal blocking, thread counts, data binding, tiling and overlapped communication, a run computes every equation at every point of its domain once per step; each value is computed after all the values it reads (including scratch values, which come from storage of its own, large enough) and before any of them is overwritten. The exterior sections and the interior split the work without gap or overlap.',
         ['inputs', 'configurations', 'histories'], 'shift_mega_block, shift_micro_block, update_tb_info: all block sizes up to 2^20, positions up to 2^30 and up to 1000 shifts, angles 0, 1, 3, 8; whole runs: random domains, tilings, thread counts, orders of concurrent blocks for four solutions (bounded)',
         'Tests run a few tilings and compare final values; a missed dependency shows only for particular block sizes, remainders, numbers of shifts and orders of concurrent blocks.',
         ['src/kernel/lib/context.cpp', 'src/kernel/lib/setup.cpp', 'src/kernel/lib/stencil_calc.cpp', 'src/kernel/lib/alloc.cpp', 'src/kernel/lib/context.hpp'],
         [('StencilContext::shift_mega_block, shift_micro_block, calc_block, calc_mega_block, calc_micro_block, run_solution', 'src/kernel/lib/context.cpp'), ('StencilContext::update_tb_info', 'src/kernel/lib/setup.cpp'), ('StencilPartBase::calc_micro_block, adjust_scratch_span', 'src/kernel/lib/stencil_calc.cpp'), ('StencilContext::alloc_scratch_data', 'src/kernel/lib/alloc.cpp')],
         technique=T, level='proof', note=TB + '; shape partition and dependency lemmas discharged over the contracts of the shift functions; their composition over whole runs by bounded sampling of the real run_solution()/run_ref() (labelled bounded)')
    prop('C10', 'Vector blocks cover every point of a block exactly once',
         'A block of any position and size, relative to any rank offset, is computed as full vectors plus masked partial vectors that together compute every point of the block exactly once and no point outside it, including blocks smaller than one vector and blocks whose leading and trailing partial vectors overlap. The scalar debug path covers exactly the same points.',
         ['inputs', 'configurations'], 'every block begin, size and rank offset up to 2^36 in three dimensions, for folds 2x2x1, 4x1x1, 1x1x4, 2x2x2 and 1x4x2 (quick: all lanes of the 4-lane folds, two lanes of each 8-lane fold); the nano- and pico-block loops underneath by C12 and by bounded runs',
         'Tests compare results, which do not change when a point is computed twice, and sample few combinations of peel and remainder in three dimensions.',
         ['src/kernel/lib/stencil_calc.hpp', 'src/common/combo.cpp'],
         [('StencilPartTmpl::calc_nano_block_opt, calc_nano_block_dbg', 'src/kernel/lib/stencil_calc.hpp'), ('StencilPartBase::normalize_indices', 'src/kernel/lib/stencil_calc.hpp'), ('n_choose_k_set', 'src/common/combo.cpp')],
         technique=T, level='proof', note=TB + '; folds enumerated; the emitted point code replaced by a counting part (the generated nano/pico loops are run natively, bounded)')
    prop('C11', 'Bounding boxes hold exactly the valid points',
         'The boxes found for a stencil part cover every point where its domain condition holds, contain no point where it does not, and do not overlap. Sizes, alignment and fullness flags of a box, membership tests and box intersections agree with its corners.',
         ['inputs', 'configurations'], 'corners, offsets and counts up to 2^36 for the derived values, membership and intersection; the search for boxes on sampled conditions over domains up to 12 per dimension with 1..4 threads (bounded part)',
         'Tests use a few conditions with long straight edges; merging of slices depends on the exact shape of the valid points and on the thread count.',
         ['src/kernel/lib/setup.cpp', 'src/kernel/lib/context.hpp'],
         [('BoundingBox::update_bb, is_in_bb, intersection_with', 'src/kernel/lib/setup.cpp'), ('StencilPartBase::find_bounding_box', 'src/kernel/lib/setup.cpp')],
         technique=T, level='proof', note=TB + '; find_bounding_box by bounded sampling against the definition (labelled bounded)')
    prop('C14', 'Blocks nest and are whole vectors',
         'For any sizes requested, the sizes used nest: pico-blocks in nano-blocks in micro-blocks in blocks in mega-blocks in the part of the rank. Each is positive and a whole number of vectors, unless it is all of the enclosing block. A size asked for is rounded up to whole vectors and limited to the enclosing block; one not asked for is that of the enclosing block (for blocks, the default size). Tiles lie in their blocks and are whole inner blocks. Steps are never negative, and default to those of a block. With several inner threads the blocks still nest, and threads are bound along a domain dimension. Adjusting the sizes again changes nothing.',
         ['inputs', 'configurations'], 'every rank size and every requested size of all five levels up to 2^40 in one dimension, others concrete; steps of either sign; 2 to 64 threads; tile sizes two levels at a time; fold 2x4x1',
         'Tests use a few sizes that fit; sizes beyond the enclosing block, remainders and defaults that depend on the number of threads are hardly used.',
         ['src/kernel/lib/settings.cpp'],
         [('KernelSettings::adjust_settings, find_num_subsets', 'src/kernel/lib/settings.cpp')],
         technique=T, level='proof', note=TB + '; the number of blocks returned by find_num_subsets is only printed and taken as any number up to 2048')
    prop('C15', 'Variables, scratch areas and messages have storage of their own',
         'Every variable gets storage of its full size in memory of the kind asked for, beginning at a cache line, apart from that of every other variable. Storage that exists is kept. Releasing one variable leaves the others alone, and memory is given back exactly once, with its last owner. Scratch variables coincide only for one slot of one thread and hold a micro-block with its shifts and write halos. Message buffers and their locks do not overlap, and a shared message is read where the sender writes it. Fusing into a variable of the solution is refused unless dimensions and folding agree; fused variables are one variable.',
         ['inputs', 'configurations', 'histories'], 'five variables of any size up to 2^30 in one dimension each; up to 3 threads and 3 scratch variables in 2 slots, micro-blocks up to 2^30; pairs of ranks with sizes up to 2^30, with and without shared memory; folds 2x2x1',
         'Tests compare values of small runs; an overlap of storage appears only for particular sizes, pads, bundling and histories of releases.',
         ['src/kernel/lib/alloc.cpp', 'src/kernel/lib/generic_var.cpp', 'src/kernel/lib/yk_var_apis.cpp'],
         [('StencilContext::alloc_var_data', 'src/kernel/lib/alloc.cpp'), ('StencilContext::alloc_scratch_data', 'src/kernel/lib/alloc.cpp'), ('StencilContext::alloc_mpi_data', 'src/kernel/lib/alloc.cpp'), ('YkVarImpl::fuse_vars', 'src/kernel/lib/yk_var_apis.cpp')],
         technique=T, level='proof', note=TB + '; memory itself is given by a contract of the allocators; the other rank of a shared-memory pair runs the same real code')
    prop('C20', 'A compiled solution computes what its equations say',
         'Running a solution for some steps leaves in every output variable, at every point of the domain, the value its equations define, whatever the sizes, tiling, threads, temporal blocking, folding and data, and however the steps are split into calls. Conditions select points and steps as written, scratch variables behave as named sub-expressions, and nothing outside the domain is changed.',
         ['inputs', 'configurations', 'schedules', 'histories'], 'ten solutions that between them use the features of the language; random sizes, tilings, temporal blocking, thread counts, block orders, step ranges and data',
         'Tests compare a run with the reference run of the same generated scalar code, with a few settings; an error common to both, or one that needs particular sizes and shifts, is not seen.',
         ['src/compiler', 'src/kernel/lib'],
         [('code generation', 'src/compiler/lib/Cpp.cpp, CppIntrin.cpp, Vec.cpp, YaskKernel.cpp'), ('StencilContext::run_solution', 'src/kernel/lib/context.cpp'), ('dependency and halo analysis', 'src/compiler/lib/Eqs.cpp, Solution.cpp')],
         technique='bounded comparison of the compiled solution with a lazy evaluation of its equations', level='exploration', note='bounded: sampled runs; nothing is proved')
    prop('C16', 'Finite-difference coefficients are exact for polynomials',
         'The coefficients returned for a derivative order and a set of distinct sample points are the weights that give that derivative exactly, at the evaluation point, for every polynomial of lower degree than the number of points. There is one coefficient per point, all zero when there are too few points. The centre, forward and backward forms use the evenly spaced points they name, and impossible requests are refused.',
         ['inputs'], 'any two or three distinct points and any evaluation point as reals (and four points, third derivative); centre, forward and backward forms for derivatives 1..4 and radius 1..8; other point sets by sampling (bounded part)',
         'Tests print or use a few fixed radii; nothing checks the recurrence for other orders, uneven points or few points.',
         ['src/contrib/coefficients/fd_coeff.cpp', 'src/common/fd_coeff2.cpp'],
         [('fd_coeff', 'src/contrib/coefficients/fd_coeff.cpp'), ('get_*_fd_coefficients', 'src/common/fd_coeff2.cpp')],
         technique=T, level='proof', note=TB + '; doubles treated as reals; five or more points bounded')
    prop('C23', 'Options and setters set what they name, and only that',
         'Every command-line option sets exactly the setting it names, to exactly the number given, in the settings requested and in those used, wherever it stands among other options. A shortcut without dimension sets all domain dimensions. Flags and negated flags set and clear what they name. Words that are no options are returned in order; missing or malformed numbers are refused and change nothing. Text is split at white space outside of quotes. Setters of the API do the same; what is set is what is got, one at a time or as a list, variables follow, and the solution must be prepared again. Unknown dimensions and lists of another length are refused without effect.',
         ['inputs', 'histories'], 'every option of a solution with three domain dimensions, alone, with all others in either order, and with every 64-bit (or 32-bit) number; API sizes up to 2^30 (2^17 where variables are resized); number texts and texts of up to 10 characters sampled',
         'Tests set a handful of options to sizes that are equal in all dimensions, so that an option that sets another field is not seen.',
         ['src/kernel/lib/settings.cpp', 'src/kernel/lib/soln_apis.cpp', 'src/common/common_utils.cpp'],
         [('KernelSettings::add_options, _add_domain_option', 'src/kernel/lib/settings.cpp'), ('command_line_parser', 'src/common/common_utils.cpp'), ('StencilContext::set_*, get_*, apply_command_line_options', 'src/kernel/lib/soln_apis.cpp')],
         technique=T, level='proof', note=TB + '; strtoll() by contract (any number for a text that is one); the reading of number texts and the splitting of text sampled (labelled bounded)')
    prop('C25', 'Comparing results finds every difference, and only those',
         'Comparing a variable with a reference counts exactly the elements of the rank domain, over all stored steps, whose values are not close: each once, wherever the rank part begins, and whatever pads, steps, threads and message limits are. Elements outside of the domain do not count. Values are close when equal or apart by less than the tolerance, scaled by a reference above one in magnitude; a NaN is always a difference. Variables of another shape, or missing, never count as equal. Comparing solutions adds up the differences of all output variables, each against its namesake.',
         ['inputs', 'configurations', 'schedules'], 'all sizes, pads, offsets, step windows and values; three kinds of variable; whole comparisons with known differences sampled on small variables and 1 to 3 threads (bounded part)',
         'Tests rely on this comparison to judge everything else; one that overlooks elements makes them pass.',
         ['src/kernel/lib/yk_var.cpp', 'src/kernel/lib/realv.hpp', 'src/kernel/lib/context.cpp'],
         [('YkVarBase::compare', 'src/kernel/lib/yk_var.cpp'), ('within_tolerance', 'src/kernel/lib/realv.hpp'), ('StencilContext::compare_data', 'src/kernel/lib/context.cpp')],
         technique=T, level='proof', note=TB + '; doubles treated as reals, NaN and infinities sampled; points of the walk by the contract of visit_all_points_in_parallel (C03), reads by that of read_elem (C04, C06)')
    prop('C24', 'Subsets, ordered sets and compact factors are exact',
         'The number of subsets is the binomial coefficient, and the subsets listed by rank are all the subsets of that size, each once. An ordered set keeps the elements inserted and not erased, without duplicates, in order of insertion, after any history of insertions, erasures and swaps. Splitting a number over dimensions gives positive factors whose product is that number, keeps the given factors whenever that is possible, and makes the largest factor as small as possible.',
         ['inputs', 'histories'], 'binomials up to 29; subsets of up to 8 elements (14 sampled); set histories of 3 operations after up to 3 insertions over 3 values; factors of 1..8 over 1..3 dimensions with any presets below 4 (95 and 4 dimensions sampled)',
         'Tests print a few combinations; histories with erasures and conflicting presets are not exercised.',
         ['src/common/combo.cpp', 'src/common/common_utils.hpp', 'src/common/tuple.cpp'],
         [('n_choose_k, n_choose_k_set', 'src/common/combo.cpp'), ('vector_set', 'src/common/common_utils.hpp'), ('Tuple::get_compact_factors', 'src/common/tuple.cpp')],
         technique='exhaustive symbolic execution of the real functions against their contracts within stated sizes', level='model_checking', note='complete within the stated sizes, sampled beyond; nothing is claimed as unbounded')
    prop('C08', 'The parts of all ranks tile the global domain',
         'For every accepted layout and every accepted combination of global, local and per-rank sizes, each rank begins exactly where the ranks before it end, the parts add up to the global size, and every rank knows exactly its adjacent ranks, their distance and how to reach them. Variables cover their rank\'s part, with temporal extensions only towards neighbors. Layouts that do not align, sizes that do not add up or that are too small for the halo, and positions outside of the layout or taken twice are refused. Preparing again with another layout leaves nothing of the earlier one.',
         ['inputs', 'configurations', 'histories'], 'eight rank grids of 1 to 9 ranks and every rank in them; in one dimension at a time every global size, every size of each rank, every mega-block size and offset up to 2^40, the other dimensions concrete; folds 2x2x1 and 1x1x4',
         'Tests run with one rank here; remainders, vector rounding and neighbor tables depend on the layout, on sizes and on the place of a rank.',
         ['src/kernel/lib/setup.cpp', 'src/kernel/lib/settings.hpp', 'src/kernel/lib/utils.cpp'],
         [('StencilContext::setup_rank', 'src/kernel/lib/setup.cpp'), ('StencilContext::update_var_info', 'src/kernel/lib/setup.cpp'), ('MPIInfo::get_neighbor_index', 'src/kernel/lib/settings.hpp')],
         technique=T, level='proof', note=TB + '; rank grids enumerated; the messages of the other ranks are assumed to carry what this rank is proved to send in their place (assume-guarantee); MPI calls by contract')
    prop('C09', 'A domain split over MPI ranks gives the values of one rank',
         'When a domain is split over MPI ranks, in any layout, any accepted sizes per rank, and any placement, every rank ends with exactly the values a single rank would compute, whatever the order and delay of messages, the use of shared memory, overlap of communication with computation, vector or scalar packing and temporal tiling. The parts tile the whole domain, exchanges complete without deadlock, and no send buffer is changed while its send is pending.',
         ['inputs', 'configurations', 'schedules', 'histories'], 'five solutions; 1 to 8 ranks on 1 to 8 nodes in every grid; random sizes, tilings, delays, and one or two calls with elements written between them',
         'Tests run with one rank here; halo widths, dirty flags and message pairing depend on the layout of ranks, on sizes that are no vector multiples and on the order of arrival.',
         ['src/kernel/lib/halo.cpp', 'src/kernel/lib/setup.cpp', 'src/kernel/lib/alloc.cpp', 'src/kernel/lib/context.cpp'],
         [('StencilContext::exchange_halos', 'src/kernel/lib/halo.cpp'), ('StencilContext::setup_rank', 'src/kernel/lib/setup.cpp'), ('StencilContext::alloc_mpi_data', 'src/kernel/lib/alloc.cpp')],
         technique=T + ' for the regions each message carries; bounded comparison of ranks over a message layer that delays and checks, with a lazy evaluation of the equations, for the values', level='exploration', note='regions packed, unpacked, needed and computed meanwhile: proved for all sizes up to 2^30, halos up to 2^16 and every place of a pair of ranks; values, order of messages and dirty flags: bounded, sampled runs, MPI replaced by a small implementation with forked ranks')
    prop('C17', 'The auto-tuner keeps sizes legal and changes no values',
         'Whatever times are measured, every size the auto-tuner tries is positive, lies within the enclosing level and is whole vectors unless it is all of that level; the other levels are adjusted anew from what was asked for, and wave-front angles, temporal tiling, mega-block strides and scratch areas follow before the next step. A trial ends when its time or steps are up or it is clearly slower; the fastest size measured is kept, applied and noted when the search of a target ends, targets follow one another, and after the last the tuner is off. Values computed while tuning, after it and after a reset are those of an untuned run, and without tuning sizes stay as they are.',
         ['inputs', 'configurations', 'histories'], 'one evaluation from any state of the search (any sizes up to 2^40 in one dimension, any time and best rate, 4 distances, 7 neighbors); whole tuned runs of two solutions under an arbitrary clock sampled (bounded part)',
         'Which sizes are tried depends on measured time, so tests take another path in every run, and with small domains almost none.',
         ['src/kernel/lib/auto_tuner.cpp', 'src/kernel/lib/setup.cpp', 'src/kernel/lib/context.cpp'],
         [('AutoTuner::eval', 'src/kernel/lib/auto_tuner.cpp'), ('AutoTuner::adjust_settings', 'src/kernel/lib/auto_tuner.cpp'), ('StencilContext::update_wf_angles', 'src/kernel/lib/setup.cpp')],
         technique=T + ' for one evaluation and for the adjustments; bounded runs under an arbitrary clock, with the monitor of C13, for the values', level='exploration', note='eval() and adjust_settings() proved from any state; whole runs bounded, sampled; thread and NUMA placement not claimed; doubles treated as reals')
    def na(id, title, statement, over, text, why, files, mech, reason):
        prop(id, title, statement, over, text, why, files, mech, na=reason)
    na('C18', 'Threads that share data are ordered by synchronisation',
       'Any two accesses of different threads to the same location, one of them a write, are ordered by an OpenMP construct, a lock or an MPI call, under the memory model of the hardware.',
       ['schedules'], 'every interleaving of the threads of a team and of MPI helper threads',
       'A race shows only for rare interleavings and on weakly ordered machines.',
       ['src/kernel/lib/utils.hpp', 'src/kernel/lib/context.cpp'], [('omp_par_for, SimpleLock', 'src/kernel/lib/utils.hpp')],
       'The verifier executes one thread at a time and has no permission or ownership logic for concurrent C++. Disjointness of what the threads of a team are given is proved in C02, C10 and C12 and the order of blocks in C13; ordering by the memory model itself is not decided.')
    na('C19', 'Offloaded kernels compute what the host kernels compute',
       'With OpenMP offload, device copies are current when a kernel reads them and host copies when the host does, and values equal those of a host run.',
       ['configurations', 'histories'], 'every order of host and device accesses',
       'Needs a device; the tests here are built without offload.',
       ['src/kernel/lib/yk_var.hpp', 'src/kernel/lib/stencil_calc.hpp'], [('copy_data_to_device, copy_data_from_device', 'src/kernel/lib/yk_var.hpp')],
       'Code under USE_OFFLOAD needs an offloading compiler and a device run time, which are not here; without them it cannot be compiled, so no obligations can be generated from the real code.')
    na('C21', 'The Python interface behaves as the C++ interface',
       'Each call made through the Python modules has the effect, the result and the errors of the same C++ call.',
       ['inputs', 'histories'], 'every call of the API',
       'Python tests call a few functions.',
       ['src/kernel/swig', 'src/compiler/swig'], [('SWIG interface files', 'src/kernel/swig/yask_kernel_api.i')],
       'The wrapper code is generated by SWIG, which is not installed, and runs in the Python interpreter; neither is within reach of the verifier.')
    na('C22', 'Illegal dependencies are rejected by the compiler, legal ones accepted',
       'A solution is refused exactly when its equations depend on each other in a cycle within a step, write what is out of reach, or read steps not stored in the direction of stepping; every other solution is accepted and its parts are put in an order that respects all dependencies.',
       ['inputs'], 'every set of equations',
       'Tests compile fixed solutions, nearly all legal.',
       ['src/compiler/lib/Eqs.cpp', 'src/compiler/lib/Solution.cpp'], [('Eqs::analyze_eqs', 'src/compiler/lib/Eqs.cpp'), ('find_stages', 'src/compiler/lib/Eqs.cpp')],
       'The inputs are expression graphs of any size built from shared pointers and visitors; contracts for it need separation logic with recursive predicates, which neither yv nor the installed C/C++ verifiers offer. The order chosen is exercised by C20 (bounded) for eleven solutions.')
