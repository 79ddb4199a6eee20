// The out-of-line parts of libstdc++'s node containers for the symbolic executor only (native replays use the
// library): same observable behaviour, the trees are left unbalanced.
#include <bits/stl_tree.h>
#include <list>
#include <unordered_map>
#include <cstring>
#include <pthread.h>
namespace std
{
using B = _Rb_tree_node_base;
__attribute__((weak)) B* _Rb_tree_increment(B* x) throw()
{
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    B* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
__attribute__((weak)) const B* _Rb_tree_increment(const B* x) throw() { return _Rb_tree_increment(const_cast<B*>(x)); }
__attribute__((weak)) B* _Rb_tree_decrement(B* x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; // the header
    if (x->_M_left) { B* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    B* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
__attribute__((weak)) const B* _Rb_tree_decrement(const B* x) throw() { return _Rb_tree_decrement(const_cast<B*>(x)); }
__attribute__((weak)) void _Rb_tree_insert_and_rebalance(const bool left, B* x, B* p, B& h) throw()
{
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black; // only the header is red
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
__attribute__((weak)) B* _Rb_tree_rebalance_for_erase(B* const z, B& h) throw()
{
    auto put = [&](B* old, B* now) { if (h._M_parent == old) h._M_parent = now; else if (old->_M_parent->_M_left == old) old->_M_parent->_M_left = now; else old->_M_parent->_M_right = now; if (now) now->_M_parent = old->_M_parent; };
    if (z->_M_left && z->_M_right)
    {
        B* y = z->_M_right; while (y->_M_left) y = y->_M_left;
        if (y != z->_M_right) { put(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        put(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
        return z;
    }
    B* c = z->_M_left ? z->_M_left : z->_M_right;
    if (h._M_left == z) { B* n = z->_M_parent; if (z->_M_right) { n = z->_M_right; while (n->_M_left) n = n->_M_left; } h._M_left = n; }
    if (h._M_right == z) { B* n = z->_M_parent; if (z->_M_left) { n = z->_M_left; while (n->_M_right) n = n->_M_right; } h._M_right = n; }
    put(z, c);
    return z;
}
namespace __detail
{
__attribute__((weak)) void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
__attribute__((weak)) void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
__attribute__((weak)) void _List_node_base::_M_transfer(_List_node_base* first, _List_node_base* last) noexcept
{
    if (this == last) return;
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first;
    auto* t = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
}
__attribute__((weak)) void _List_node_base::_M_reverse() noexcept { auto* t = this; do { auto* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
__attribute__((weak)) void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
    const bool ex = x._M_next == &x, ey = y._M_next == &y;
    auto xn = x._M_next, xp = x._M_prev;
    if (ey) x._M_next = x._M_prev = &x; else { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; }
    if (ex) y._M_next = y._M_prev = &y; else { y._M_next = xn; y._M_prev = xp; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
}
__attribute__((weak)) size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t p[] = { 13, 53, 211, 853, 3413, 13649, 54601 }; for (auto q : p) if (q >= n) { const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = q; return q; } const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = n; return n | 1; }
__attribute__((weak)) pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
{
    if (elt + ins > _M_next_resize || bkt < elt + ins) return { true, _M_next_bkt(elt + ins > 2 * bkt ? elt + ins : 2 * bkt) };
    return { false, 0 };
}
}
__attribute__((weak)) size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed ^ (n * 31); for (size_t i = 0; i < n; ++i) h = h * 33 + static_cast<const unsigned char*>(p)[i]; return h; }
}
extern "C"
{
__attribute__((weak)) int pthread_mutex_lock(pthread_mutex_t*) throw() { return 0; }
__attribute__((weak)) int pthread_mutex_unlock(pthread_mutex_t*) throw() { return 0; }
__attribute__((weak)) int pthread_mutex_trylock(pthread_mutex_t*) throw() { return 0; }
__attribute__((weak)) int __cxa_thread_atexit(void (*)(void*), void*, void*) throw() { return 0; }
}
