// Bodies for the few libstdc++ routines that live in the shared library.  Linked into the
// module that is verified; trusted like the models (see models.py).
#include <list>
#include <map>
#include <string>
#include <unordered_map>

namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const __position) noexcept {
    this->_M_next = __position;
    this->_M_prev = __position->_M_prev;
    __position->_M_prev->_M_next = this;
    __position->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
    _List_node_base* const n = this->_M_next;
    _List_node_base* const p = this->_M_prev;
    p->_M_next = n;
    n->_M_prev = p;
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
    if (this != last) {
        last->_M_prev->_M_next = this;
        first->_M_prev->_M_next = last;
        this->_M_prev->_M_next = first;
        _List_node_base* const tmp = this->_M_prev;
        this->_M_prev = last->_M_prev;
        last->_M_prev = first->_M_prev;
        first->_M_prev = tmp;
    }
}
// bucket counts only affect performance: everything in one bucket
size_t _Prime_rehash_policy::_M_next_bkt(size_t) const { return 1; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return {false, 0}; }
}  // namespace __detail

// search tree without rebalancing: balance only affects performance
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p,
                                   _Rb_tree_node_base& header) noexcept {
    x->_M_parent = p;
    x->_M_left = nullptr;
    x->_M_right = nullptr;
    x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &header) {
            header._M_parent = x;
            header._M_right = x;
        } else if (p == header._M_left) {
            header._M_left = x;
        }
    } else {
        p->_M_right = x;
        if (p == header._M_right) header._M_right = x;
    }
}
static _Rb_tree_node_base* dv_inc(_Rb_tree_node_base* x) noexcept {
    if (x->_M_right != nullptr) {
        x = x->_M_right;
        while (x->_M_left != nullptr) x = x->_M_left;
    } else {
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_right) {
            x = y;
            y = y->_M_parent;
        }
        if (x->_M_right != y) x = y;
    }
    return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return dv_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept {
    return dv_inc(const_cast<_Rb_tree_node_base*>(x));
}
static _Rb_tree_node_base* dv_dec(_Rb_tree_node_base* x) noexcept {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) {
        x = x->_M_right;
    } else if (x->_M_left != nullptr) {
        _Rb_tree_node_base* y = x->_M_left;
        while (y->_M_right != nullptr) y = y->_M_right;
        x = y;
    } else {
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_left) {
            x = y;
            y = y->_M_parent;
        }
        x = y;
    }
    return x;
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return dv_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept {
    return dv_dec(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z,
                                                 _Rb_tree_node_base& header) noexcept {
    // leftmost / rightmost first, while the tree is still intact
    if (header._M_left == z) header._M_left = dv_inc(z);
    if (header._M_right == z) {
        if (z->_M_left == nullptr) {
            header._M_right = z->_M_parent;
        } else {
            _Rb_tree_node_base* m = z->_M_left;
            while (m->_M_right != nullptr) m = m->_M_right;
            header._M_right = m;
        }
    }
    _Rb_tree_node_base* r;
    if (z->_M_left == nullptr) {
        r = z->_M_right;
    } else if (z->_M_right == nullptr) {
        r = z->_M_left;
    } else {
        r = z->_M_right;
        while (r->_M_left != nullptr) r = r->_M_left;
        if (r->_M_parent != z) {
            r->_M_parent->_M_left = r->_M_right;
            if (r->_M_right != nullptr) r->_M_right->_M_parent = r->_M_parent;
            r->_M_right = z->_M_right;
            z->_M_right->_M_parent = r;
        }
        r->_M_left = z->_M_left;
        z->_M_left->_M_parent = r;
    }
    if (r != nullptr) r->_M_parent = z->_M_parent;
    if (header._M_parent == z) {
        header._M_parent = r;
    } else if (z->_M_parent->_M_left == z) {
        z->_M_parent->_M_left = r;
    } else {
        z->_M_parent->_M_right = r;
    }
    return z;
}
// any function of the bytes is a valid hash; this one depends on the length only
size_t _Hash_bytes(const void*, size_t len, size_t) { return len; }
}  // namespace std

// <cctype> in the "C" locale
extern "C" {
int toupper(int c) { return c - ((static_cast<unsigned>(c) - 'a' < 26u) << 5); }
int tolower(int c) { return c + ((static_cast<unsigned>(c) - 'A' < 26u) << 5); }
}
