// Definitions the C++ runtime library supplies in binary form only, in plain C++ so that the verifier can execute them.
#include <map>
#include <string>
#include <list>

template class std::basic_string<char>;
namespace std
{
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
// unbalanced insertion: the order of the elements is the same as in the balanced tree
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left)
    {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    }
    else
    {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
    h._M_color = _S_red;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
{
    _Rb_tree_node_base* r;
    if (!z->_M_left) r = z->_M_right;
    else if (!z->_M_right) r = z->_M_left;
    else
    {
        // the successor takes the place of z
        _Rb_tree_node_base* y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z)
        {
            y->_M_parent->_M_left = y->_M_right;
            if (y->_M_right) y->_M_right->_M_parent = y->_M_parent;
            y->_M_right = z->_M_right; z->_M_right->_M_parent = y;
        }
        y->_M_left = z->_M_left; z->_M_left->_M_parent = y;
        r = y;
    }
    if (h._M_parent == z) h._M_parent = r;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = r;
    else z->_M_parent->_M_right = r;
    if (r) r->_M_parent = z->_M_parent;
    _Rb_tree_node_base* root = h._M_parent;
    if (!root) { h._M_left = &h; h._M_right = &h; }
    else
    {
        _Rb_tree_node_base* m = root;
        while (m->_M_left) m = m->_M_left;
        h._M_left = m;
        m = root;
        while (m->_M_right) m = m->_M_right;
        h._M_right = m;
    }
    return z;
}
}
