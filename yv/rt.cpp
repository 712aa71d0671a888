// Run-time models linked into the verified module (symbolic build only):
// plain C/C++ definitions of the library functions the real code calls.
// Part of the trusted base.
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdexcept>
#include <new>
#include <functional>
#include <map>
#include <unordered_map>
#include <string>
#include <list>
namespace std {
// Base-class bodies live in libstdc++.so.
void __throw_length_error(const char*) { throw std::bad_alloc(); }
void __throw_logic_error(const char*) { throw std::bad_alloc(); }
void __throw_out_of_range(const char*) { throw std::bad_alloc(); }
void __throw_out_of_range_fmt(const char*, ...) { throw std::bad_alloc(); }
void __throw_invalid_argument(const char*) { throw std::bad_alloc(); }
void __throw_bad_alloc() { throw std::bad_alloc(); }
void __throw_bad_array_new_length() { throw std::bad_alloc(); }
void __throw_bad_function_call() { throw std::bad_alloc(); }
void __throw_bad_cast() { throw std::bad_alloc(); }
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
// Ordered-map support: same algorithms, unbalanced (balance is not observable).
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else { auto* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) { auto* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
    else { auto* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
    h._M_color = _S_red;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x;
    } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    _Rb_tree_node_base*& root = h._M_parent; _Rb_tree_node_base*& lm = h._M_left; _Rb_tree_node_base*& rm = h._M_right;
    _Rb_tree_node_base* y = z; _Rb_tree_node_base* x = nullptr; _Rb_tree_node_base* xp = nullptr;
    if (!y->_M_left) x = y->_M_right;
    else if (!y->_M_right) x = y->_M_left;
    else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
        else xp = y;
        if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent; y = z;
    } else {
        xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
        if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { auto* m = x; while (m->_M_left) m = m->_M_left; lm = m; } }
        if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { auto* m = x; while (m->_M_right) m = m->_M_right; rm = m; } }
    }
    (void)xp;
    return y;
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 31 % 1000003; return h; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t k = 13; while (k < n) k = k * 2 + 1; _M_next_resize = k; return k; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni > _M_next_resize) { size_t k = _M_next_bkt(std::max(ne + ni + 1, nb * 2)); return {true, k}; }
    return {false, 0};
}
}
void __detail::_List_node_base::_M_hook(__detail::_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void __detail::_List_node_base::_M_unhook() noexcept { auto* n = _M_next; auto* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
}
template class std::basic_string<char>;
// std::to_string(double): only ever used for messages; the digits are not modelled.

extern "C" std::string yv_to_xstring(int (*)(char*, size_t, const char*, __builtin_va_list), size_t, const char*, ...) { return std::string("<number>"); }
