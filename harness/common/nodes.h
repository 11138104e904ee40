#pragma once
// Parts of std::list and std::map that are in the shared library
#include <list>
#include <map>
#include <set>

namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept {
    _M_next = p, _M_prev = p->_M_prev;
    p->_M_prev->_M_next = this, p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
    _M_prev->_M_next = _M_next, _M_next->_M_prev = _M_prev;
}
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
    if (this == last) return;
    last->_M_prev->_M_next = this, first->_M_prev->_M_next = last, _M_prev->_M_next = first;
    const auto before = _M_prev;
    _M_prev = last->_M_prev, last->_M_prev = first->_M_prev, first->_M_prev = before;
}
} // namespace __detail

// a search tree, without rebalancing
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &header) throw() {
    x->_M_parent = p, x->_M_left = x->_M_right = nullptr, x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &header) header._M_parent = header._M_right = x;
        else if (p == header._M_left) header._M_left = x;
    } else {
        p->_M_right = x;
        if (p == header._M_right) header._M_right = x;
    }
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() {
    if (x->_M_right) {
        for (x = x->_M_right; x->_M_left; x = x->_M_left) {}
        return x;
    }
    auto y = x->_M_parent;
    for (; x == y->_M_right; y = y->_M_parent) x = y;
    return x->_M_right != y ? y : x;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
    return const_cast<_Rb_tree_node_base *>(_Rb_tree_increment(const_cast<const _Rb_tree_node_base *>(x)));
}
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; // the header
    if (x->_M_left) {
        for (x = x->_M_left; x->_M_right; x = x->_M_right) {}
        return x;
    }
    auto y = x->_M_parent;
    for (; x == y->_M_left; y = y->_M_parent) x = y;
    return y;
}
} // namespace std
