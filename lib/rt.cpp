// Engine-side definitions of library functions whose bodies live in libstdc++.so (trusted models; listed in DESIGN.md).
#include "vf.h"
#include <chrono>
#include <cstdarg>
#include <list>
#include <map>
#include <random>
#include <unordered_map>

extern "C" int64_t vf_now_ns;
extern "C" int64_t vf_sysnow_ns;
int64_t vf_now_ns = 1000000000000ll;
int64_t vf_sysnow_ns = 1700000000000000000ll;

namespace srtc
{
void log(int, const char*, const char*...) {}
void setLogLevel(int) {}
}
extern "C" char __libc_single_threaded;
char __libc_single_threaded = 1;

namespace std
{
namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vf_now_ns)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(vf_sysnow_ns)); }
} }
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept
{
    this->_M_next = p;
    this->_M_prev = p->_M_prev;
    p->_M_prev->_M_next = this;
    p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
    _List_node_base* const n = this->_M_next;
    _List_node_base* const p = this->_M_prev;
    p->_M_next = n;
    n->_M_prev = p;
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
{
    if (this != last) {
        last->_M_prev->_M_next = this;
        first->_M_prev->_M_next = last;
        this->_M_prev->_M_next = first;
        _List_node_base* const tmp = this->_M_prev;
        this->_M_prev = last->_M_prev;
        last->_M_prev = first->_M_prev;
        first->_M_prev = tmp;
    }
}
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept
{
    if (x->_M_right != 0) {
        x = x->_M_right;
        while (x->_M_left != 0) x = x->_M_left;
    } else {
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        if (x->_M_right != y) x = y;
    }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left != 0) {
        _Rb_tree_node_base* y = x->_M_left;
        while (y->_M_right != 0) y = y->_M_right;
        x = y;
    } else {
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_left) { x = y; y = y->_M_parent; }
        x = y;
    }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
// search trees without the balancing step (balance is not observable); the root is coloured black, the header red
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) noexcept
{
    x->_M_parent = p;
    x->_M_left = 0;
    x->_M_right = 0;
    x->_M_color = _S_black;
    header._M_color = _S_red;
    if (left) {
        p->_M_left = x;
        if (p == &header) { header._M_parent = x; header._M_right = x; }
        else if (p == header._M_left) header._M_left = x;
    } else {
        p->_M_right = x;
        if (p == header._M_right) header._M_right = x;
    }
}
static void replaceChild(_Rb_tree_node_base* z, _Rb_tree_node_base* x, _Rb_tree_node_base& header)
{
    if (header._M_parent == z) header._M_parent = x;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
    else z->_M_parent->_M_right = x;
    if (x) x->_M_parent = z->_M_parent;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) noexcept
{
    if (header._M_left == z) {
        if (z->_M_right == 0) header._M_left = z->_M_parent;
        else { _Rb_tree_node_base* m = z->_M_right; while (m->_M_left) m = m->_M_left; header._M_left = m; }
    }
    if (header._M_right == z) {
        if (z->_M_left == 0) header._M_right = z->_M_parent;
        else { _Rb_tree_node_base* m = z->_M_left; while (m->_M_right) m = m->_M_right; header._M_right = m; }
    }
    if (z->_M_left == 0) replaceChild(z, z->_M_right, header);
    else if (z->_M_right == 0) replaceChild(z, z->_M_left, header);
    else {
        _Rb_tree_node_base* y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) {
            replaceChild(y, y->_M_right, header);
            y->_M_right = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        replaceChild(z, y, header);
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    return z;
}
namespace __detail {
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { _M_next_resize = n < 13 ? 13 : n * 2; return n < 13 ? 13 : n * 2 + 1; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t nb, std::size_t ne, std::size_t ni) const
{
    if (nb < 13 || ne + ni > nb) { std::size_t n = ne + ni < 13 ? 13 : (ne + ni) * 2 + 1; return { true, n }; }
    return { false, 0 };
}
}
void random_device::_M_init(const std::string&) {}
void random_device::_M_fini() {}
unsigned random_device::_M_getval() { return vf_any_u32(); }
}
