// Definitions that normally live in libstdc++.so
#include <string>
#include <map>
#include <system_error>
template class std::basic_string<char>;
namespace std {
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
// Unbalanced insertion: same observable behaviour as a red-black tree. All nodes
// are black except the header, as the iterator code relies on the header's color.
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
}
struct SymCat : std::error_category {
    const char *name() const noexcept override { return "generic"; }
    std::string message(int) const override { return "error"; }
    std::error_condition default_error_condition(int i) const noexcept override { return std::error_condition(i, *this); }
    bool equivalent(int i, const std::error_condition &c) const noexcept override { return c.value() == i && &c.category() == this; }
    bool equivalent(const std::error_code &c, int i) const noexcept override { return c.value() == i && &c.category() == this; }
};
namespace std { error_category::~error_category() = default; 
inline namespace _V2 {
const error_category &generic_category() noexcept { static SymCat *c = new SymCat(); return *c; }
const error_category &system_category() noexcept { return generic_category(); }
} }
