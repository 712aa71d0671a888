// C23: options and setters set what they name, and nothing else.
// The real add_options(), command_line_parser and set_*/get_*(), for every number that can be given; the text of a number is read by contract.
#include "kctx.hpp"
#define DEFINE_SOLUTION
#include "yask_stencil_code.hpp"
#include <vector>
#include <stdlib.h>
namespace yask {
bool h_valid_domain(int, const Indices&) { return true; }
bool h_has_domain(int) { return false; }
bool h_valid_step(int, idx_t) { return true; }
bool h_has_step(int) { return false; }
void h_scalar(int, h_core_t*, int, const Indices&) {}
void h_vector(int, h_core_t*, int, idx_t, idx_t, idx_t, idx_t, bit_mask_t) {}
}
typedef std::vector<std::string> SV;
static const int MAXN = 96;
static idx_t num[MAXN]; static int nnum;
// contract of strtoll(): "#<k>" stands for the text of any number; other text is no number.
static long long c_strtoll(const char* s, char** e, int) {
    if (s[0] != '#') { *e = (char*)s; return 0; }
    int k = 0; s++; while (*s >= '0' && *s <= '9') k = k * 10 + (*s++ - '0');
    *e = (char*)s; return num[k];
}
static const char* NM[MAXN] = {
"n0","n1","n2","n3","n4","n5","n6","n7","n8","n9","n10","n11","n12","n13","n14","n15","n16","n17","n18","n19","n20","n21","n22","n23","n24","n25","n26","n27","n28","n29","n30","n31",
"n32","n33","n34","n35","n36","n37","n38","n39","n40","n41","n42","n43","n44","n45","n46","n47","n48","n49","n50","n51","n52","n53","n54","n55","n56","n57","n58","n59","n60","n61","n62","n63",
"n64","n65","n66","n67","n68","n69","n70","n71","n72","n73","n74","n75","n76","n77","n78","n79","n80","n81","n82","n83","n84","n85","n86","n87","n88","n89","n90","n91","n92","n93","n94","n95"};
static const idx_t BIG = INT64_MAX - 1;
static std::string a_num(idx_t lo, idx_t hi, idx_t& v) {
    num[nnum] = v = yv_i64(NM[nnum], lo, hi); nnum++;
    return yv_symbolic() ? "#" + std::to_string(nnum - 1) : std::to_string(v);
}
// All settings that options can change, as numbers.
static const char* FAM[] = {"g", "l", "Mb", "b", "mb", "nb", "pb", "l_tile", "Mb_tile", "b_tile", "mb_tile", "nb_tile", "mp", "ep", "nr", "ri"};
static const char* SHORT[] = {"g", "l", "Mb", "b", "mb", "nb", "pb", "l_tile", "Mb_tile", "b_tile", "mb_tile", "nb_tile", "mp", "ep", "nr", "ri"};
static const int NF = 16; static const char* DN[4] = {"t", "x", "y", "z"};
static IdxTuple& fam(KernelSettings& s, int f) {
    IdxTuple* p[NF] = {&s._global_sizes, &s._rank_sizes, &s._mega_block_sizes, &s._block_sizes, &s._micro_block_sizes, &s._nano_block_sizes, &s._pico_block_sizes,
        &s._rank_tile_sizes, &s._mega_block_tile_sizes, &s._block_tile_sizes, &s._micro_block_tile_sizes, &s._nano_block_tile_sizes, &s._min_pad_sizes, &s._extra_pad_sizes, &s._num_ranks, &s._rank_indices};
    return *p[f];
}
static bool step_too(int f) { return f == 2 || f == 3; }
static const char* BN[] = {"overlap_comms", "exchange_halos", "use_shm", "force_scalar_exchange", "force_scalar", "bind_inner_threads", "bundle_allocs", "init_scratch_vars", "auto_tune", "allow_addl_padding", "round_up_temporal_angles"};
static const int NBU = 11;
static bool* bfield(KernelSettings& s, int i) {
    bool* p[NBU] = {&s.overlap_comms, &s.do_halo_exchange, &s.use_shm, &s.force_scalar_exchange, &s.force_scalar, &s.bind_inner_threads, &s._bundle_allocs, &s._init_scratch_vars, &s._do_auto_tune, &s._allow_addl_pad, &s._round_up_tb_angles};
    return p[i];
}
static const int NI = 5; static const char* IN[NI] = {"max_threads", "outer_threads", "inner_threads", "numa_pref", "auto_tune_radius"};
static int* ifield(KernelSettings& s, int i) { int* p[NI] = {&s.max_threads, &s.num_outer_threads, &s.num_inner_threads, &s._numa_pref, &s._tuner_radius}; return p[i]; }
static const int NS = NF * 4 + NBU + NI + 4;
struct Snap { idx_t v[NS]; };
static Snap snap(KernelSettings& s) {
    Snap r; int n = 0;
    for (int f = 0; f < NF; f++) for (int d = 0; d < 4; d++) { idx_t* p = fam(s, f).lookup(DN[d]); r.v[n++] = p ? *p : 0; }
    for (int i = 0; i < NBU; i++) r.v[n++] = *bfield(s, i);
    for (int i = 0; i < NI; i++) r.v[n++] = *ifield(s, i);
    r.v[n++] = s._min_exterior; r.v[n++] = s._step_wrap; r.v[n++] = s.thread_limit; r.v[n++] = s._bind_posn;
    return r;
}
static void same(const Snap& a, const Snap& b, const char* l) { int ok = 1; for (int i = 0; i < NS; i++) ok &= (int)(a.v[i] == b.v[i]); yv_assert(ok, l); }
struct World { Ctx c; std::shared_ptr<h_context_t> sp; World() : c(h_context_t::new_dims()) { nnum = 0; yv_contract((void*)(long long (*)(const char*, char**, int))strtoll, (void*)c_strtoll); sp = std::make_shared<h_context_t>(c.env, c.actl, c.req); } };

// Every numeric option once, in one call, forward or backward: each sets its own field, in the settings requested and in those used.
static void numbers(bool rev, int f0, int f1) {
    World w; std::vector<SV> as; Snap want = snap(*w.c.actl);
    for (int f = f0; f < f1; f++) for (int d = step_too(f) ? 0 : 1; d < 4; d++) { idx_t v; as.push_back({std::string("-") + FAM[f] + DN[d], a_num(-BIG, BIG, v)}); want.v[f * 4 + d] = v; }
    if (f1 == NF) {
        for (int i = 0; i < NI; i++) { idx_t v; as.push_back({std::string("-") + IN[i], a_num(INT32_MIN, INT32_MAX, v)}); want.v[NF * 4 + NBU + i] = v; }
        idx_t v; as.push_back({"-min_exterior", a_num(-BIG, BIG, v)}); want.v[NF * 4 + NBU + NI] = v;
    }
    SV args; for (size_t i = 0; i < as.size(); i++) for (auto& s : as[rev ? as.size() - 1 - i : i]) args.push_back(s);
    std::string rest = w.sp->apply_command_line_options(args);
    yv_assert(rest == "", "options that are known are consumed");
    same(snap(*w.c.actl), want, "each option sets the number it names in the settings used, and no other");
    same(snap(*w.c.req), want, "each option sets the number it names in the settings requested, and no other");
    yv_cover("numbers");
}
extern "C" void h_num_fwd_a() { numbers(false, 0, 7); }
extern "C" void h_num_rev_a() { numbers(true, 0, 7); }
extern "C" void h_num_fwd_b() { numbers(false, 7, NF); }
extern "C" void h_num_rev_b() { numbers(true, 7, NF); }
// One option alone changes one number; a shortcut changes those of all domain dimensions.
static void alone(int f) {
    World w;
    for (int d = 0; d < 5; d++) {
        if (d == 0 && !step_too(f)) continue;
        Snap want = snap(*w.c.actl); idx_t v; std::string o = d < 4 ? std::string("-") + FAM[f] + DN[d] : std::string("-") + SHORT[f];
        std::string rest = w.sp->apply_command_line_options(SV{o, a_num(-BIG, BIG, v)});
        for (int e = 1; e < 4; e++) if (d == 4 || e == d) want.v[f * 4 + e] = v;
        if (d == 0) want.v[f * 4] = v;
        yv_assert(rest == "", "an option that is known is consumed");
        same(snap(*w.c.actl), want, "an option, or a shortcut for all dimensions, sets what it names and nothing else");
        same(snap(*w.c.req), want, "an option, or a shortcut, sets what it names in the settings requested");
    }
}
#define E1(k) extern "C" void h_opt_##k() { alone(k); }
E1(0) E1(1) E1(2) E1(3) E1(4) E1(5) E1(6) E1(7) E1(8) E1(9) E1(10) E1(11) E1(12) E1(13) E1(14) E1(15)
// Flags, deprecated names, and words that are no options.
extern "C" void h_flags() {
    World w; SV on, off; Snap a = snap(*w.c.actl), b = a;
    for (int i = 0; i < NBU; i++) { on.push_back(std::string("-") + BN[i]); off.insert(off.begin(), std::string("-no-") + BN[i]); a.v[NF * 4 + i] = 1; b.v[NF * 4 + i] = 0; }
    yv_assert(w.sp->apply_command_line_options(on) == "", "flags are consumed");
    same(snap(*w.c.actl), a, "a flag sets what it names"); same(snap(*w.c.req), a, "a flag sets what it names in the settings requested");
    yv_assert(w.sp->apply_command_line_options(off) == "", "negated flags are consumed");
    same(snap(*w.c.actl), b, "a negated flag clears what it names"); same(snap(*w.c.req), b, "a negated flag clears what it names in the settings requested");
}
extern "C" void h_flag_alone() {
    World w; int k = yv_pick("flag", NBU), v = yv_pick("value", 2); for (int i = 0; i < NBU; i++) *bfield(*w.c.actl, i) = *bfield(*w.c.req, i) = i == k ? !v : (k + i) % 2;
    Snap a = snap(*w.c.actl); a.v[NF * 4 + k] = v;
    yv_assert(w.sp->apply_command_line_options(SV{std::string(v ? "-" : "-no-") + BN[k]}) == "", "a flag is consumed");
    same(snap(*w.c.actl), a, "a flag changes only what it names");
}
extern "C" void h_rest() {
    World w; Snap a = snap(*w.c.actl); idx_t v, u, t;
    SV args{"word", "-by", a_num(-BIG, BIG, v), "-no-such", "12", "-d", a_num(-BIG, BIG, u), "-byy", "-block_threads", a_num(INT32_MIN, INT32_MAX, t), "by", "two words", "-", "--force_scalar"};
    std::string rest = w.sp->apply_command_line_options(args);
    a.v[3 * 4 + 2] = v; for (int e = 1; e < 4; e++) a.v[4 + e] = u; a.v[NF * 4 + NBU + 2] = t;
    same(snap(*w.c.actl), a, "words that are no options change nothing, and deprecated names act as those they stand for");
    yv_assert(rest == "word -no-such 12 -byy by \"two words\" - --force_scalar" || rest == "word -no-such 12 -byy by 'two words' - --force_scalar", "words that are no options are returned in order");
}
extern "C" void h_refuse() {
    World w; Snap a = snap(*w.c.actl); auto& c = *w.sp;
    for (auto& l : std::vector<SV>{{"-by"}, {"-by", ""}, {"-by", "x"}, {"-g"}, {"-l", "y8"}, {"-inner_threads"}, {"-inner_threads", "z"}, {"-nrx", "-"}})
        yv_assert(throws([&] { c.apply_command_line_options(l); }), "a missing or malformed number is refused");
    same(snap(*w.c.actl), a, "a refused option changes nothing");
}
// Numbers as text, and text split into words. (Not under the contract above.)
extern "C" void h_text() {
    World w; static const char* bad[] = {"3q", "1.5", "0x", "9223372036854775808", "-9223372036854775809", "1e3", "7 ", "++2", "4-"}; auto& c = *w.sp;
    int k = yv_pick("case", 14); Snap a = snap(*w.c.actl);
    if (k < 9) { yv_assert(throws([&] { c.apply_command_line_options(SV{"-by", bad[k]}); }), "text that is no number is refused"); same(snap(*w.c.actl), a, "a refused number changes nothing"); return; }
    idx_t v = yv_i64("v", -BIG, BIG); char b[64];
    if (k == 9) snprintf(b, 64, "0x%llx", (unsigned long long)(v < 0 ? v = -v : v)); else if (k == 10) snprintf(b, 64, "+%lld", (long long)(v < 0 ? v = -v : v)); else if (k == 11) snprintf(b, 64, "0%llo", (unsigned long long)(v < 0 ? v = -v : v)); else snprintf(b, 64, "%lld", (long long)v);
    if (k == 13) { std::string s = std::string("  -by   '") + b + "'\t"; c.apply_command_line_options(s); }
    else c.apply_command_line_options(SV{"-by", b});
    a.v[3 * 4 + 2] = v; same(snap(*w.c.actl), a, "a number in decimal, hexadecimal or octal text is read exactly");
}
extern "C" void h_words() {
    int n = (int)yv_i64("length", 0, 10); std::string s; for (int i = 0; i < n; i++) s += "ab \t\"'-1"[yv_i64("char", 0, 7)];
    SV got, want; bool bad = throws([&] { got = command_line_parser::set_args(s); });
    std::string cur; bool have = false; size_t i = 0; bool open = false;
    while (i < s.size()) {
        char ch = s[i];
        if (ch == '"' || ch == '\'') { size_t j = s.find(ch, i + 1); if (j == std::string::npos) { open = true; break; } cur += s.substr(i + 1, j - i - 1); have = true; i = j + 1; }
        else if (ch == ' ' || ch == '\t') { if (have) want.push_back(cur); cur = ""; have = false; i++; }
        else { cur += ch; have = true; i++; }
    }
    if (have) want.push_back(cur);
    yv_assert(bad == open, "text with an open quote, and no other, is refused");
    if (!open) yv_assert(got == want, "text is split into words at white space outside of quotes");
}
// The setters of the API.
static const int AF[6] = {14, 15, 0, 1, 3, 12};
static void api_set(h_context_t& c, int k, const std::string& d, idx_t n) {
    if (k == 0) c.set_num_ranks(d, n); else if (k == 1) c.set_rank_index(d, n); else if (k == 2) c.set_overall_domain_size(d, n);
    else if (k == 3) c.set_rank_domain_size(d, n); else if (k == 4) c.set_block_size(d, n); else c.set_min_pad_size(d, n);
}
static idx_t api_get(h_context_t& c, int k, const std::string& d) {
    return k == 0 ? c.get_num_ranks(d) : k == 1 ? c.get_rank_index(d) : k == 2 ? c.get_overall_domain_size(d) : k == 3 ? c.get_rank_domain_size(d) : k == 4 ? c.get_block_size(d) : c.get_min_pad_size(d);
}
static void api_setv(h_context_t& c, int k, const idx_t_vec& v) {
    if (k == 0) c.set_num_ranks_vec(v); else if (k == 1) c.set_rank_index_vec(v); else if (k == 2) c.set_overall_domain_size_vec(v);
    else if (k == 3) c.set_rank_domain_size_vec(v); else if (k == 4) c.set_block_size_vec(v); else c.set_min_pad_size_vec(v);
}
static idx_t_vec api_getv(h_context_t& c, int k) {
    return k == 0 ? c.get_num_ranks_vec() : k == 1 ? c.get_rank_index_vec() : k == 2 ? c.get_overall_domain_size_vec() : k == 3 ? c.get_rank_domain_size_vec() : k == 4 ? c.get_block_size_vec() : c.get_min_pad_size_vec();
}
static void gets(h_context_t& c, int k, const Snap& a) {
    idx_t_vec v = api_getv(c, k); yv_assert(v.size() == 3, "a list has one value for each domain dimension");
    int ok = 1; for (int e = 1; e < 4; e++) ok &= (int)(v[e - 1] == a.v[AF[k] * 4 + e]) & (int)(api_get(c, k, DN[e]) == a.v[AF[k] * 4 + e]);
    if (k == 4) ok &= (int)(api_get(c, k, "t") == a.v[AF[k] * 4]);
    yv_assert(ok, "values set are those got, one at a time or as a list");
}
static void api(int k, int d) {
    World w; auto& c = *w.sp; for (auto* s : {w.c.actl.get(), w.c.req.get()}) for (int e = 1; e < 4; e++) s->_rank_sizes[e] = 8 * e;
    const idx_t M = 1ll << (k == 3 || k == 5 ? 17 : 30); // sizes of variables must be representable.
    c.set_prepared(true); Snap a = snap(*w.c.actl);
    idx_t n = yv_i64("n", 0, d ? M : 1 << 14); api_set(c, k, DN[d], n); a.v[AF[k] * 4 + d] = n;
    same(snap(*w.c.actl), a, "a setter sets what it names in the settings used, and nothing else");
    same(snap(*w.c.req), a, "a setter sets what it names in the settings requested, and nothing else");
    gets(c, k, a);
    yv_assert(c.is_prepared() == (k == 5), "after a size changes, the solution must be prepared again");
    if (k == 3 || k == 5) {
        auto g = c.all_var_map["A"]; if (k == 3) yv_assert(g->get_rank_domain_size(DN[d]) == n, "variables follow the size of the domain of the rank");
        else yv_assert((int)(g->get_left_pad_size(DN[d]) >= n) & (int)(g->get_right_pad_size(DN[d]) >= n), "variables follow the minimum pad");
    }
    idx_t p = yv_i64("p", 0, M), q = yv_i64("q", 0, M), r = yv_i64("r", 0, M); c.set_prepared(true);
    api_setv(c, k, {p, q, r}); a.v[AF[k] * 4 + 1] = p; a.v[AF[k] * 4 + 2] = q; a.v[AF[k] * 4 + 3] = r;
    same(snap(*w.c.actl), a, "a list sets what it names in the settings used, and nothing else");
    same(snap(*w.c.req), a, "a list sets what it names in the settings requested, and nothing else");
    gets(c, k, a);
    yv_assert(c.is_prepared() == (k == 5), "after sizes change, the solution must be prepared again");
    for (auto& v : std::vector<idx_t_vec>{{}, {1}, {1, 2}, {1, 2, 3, 4}}) yv_assert(throws([&] { api_setv(c, k, v); }), "a list of another length is refused");
    for (auto s : {"w", "", "xx", "a"}) yv_assert(throws([&] { api_set(c, k, s, 4); }) && throws([&] { api_get(c, k, s); }), "an unknown dimension is refused");
    if (k != 4) yv_assert(throws([&] { api_set(c, k, "t", 4); }) && throws([&] { api_get(c, k, "t"); }), "the step dimension is refused where it has no meaning");
    same(snap(*w.c.actl), a, "a refused call changes nothing"); same(snap(*w.c.req), a, "a refused call changes nothing requested");
    yv_cover("set");
}
#define E2(k, d) extern "C" void h_api_##k##_##d() { api(k, d); }
E2(0, 1) E2(0, 3) E2(1, 2) E2(1, 3) E2(2, 1) E2(2, 2) E2(3, 1) E2(3, 2) E2(3, 3) E2(4, 0) E2(4, 1) E2(4, 3) E2(5, 1) E2(5, 2) E2(5, 3)
