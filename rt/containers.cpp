// What libstdc++ keeps in its library: string functions, list primitives, and red-black tree primitives as a plain search
// tree. Part of the model; replays of data races link it as well, so that the accesses are seen there.
#include <list>
#include <map>
#include <string>

namespace std
{
static _Rb_tree_node_base* rb_min(_Rb_tree_node_base* x)
{
    while(x->_M_left) x = x->_M_left;
    return x;
}
static _Rb_tree_node_base* rb_max(_Rb_tree_node_base* x)
{
    while(x->_M_right) x = x->_M_right;
    return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
    if(x->_M_right) return rb_min(x->_M_right);
    _Rb_tree_node_base* y = x->_M_parent;
    while(x == y->_M_right)
    {
        x = y;
        y = y->_M_parent;
    }
    if(x->_M_right != y) x = y;
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw()
{
    return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
    if(x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if(x->_M_left) return rb_max(x->_M_left);
    _Rb_tree_node_base* y = x->_M_parent;
    while(x == y->_M_left)
    {
        x = y;
        y = y->_M_parent;
    }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw()
{
    return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));
}
// plain (unbalanced) search tree: same observable order, no rotations
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
    x->_M_parent = p;
    x->_M_left = nullptr;
    x->_M_right = nullptr;
    x->_M_color = _S_black;
    if(left)
    {
        p->_M_left = x;
        if(p == &h)
        {
            h._M_parent = x;
            h._M_right = x;
        }
        else if(p == h._M_left)
            h._M_left = x;
    }
    else
    {
        p->_M_right = x;
        if(p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
{
    _Rb_tree_node_base *y = z, *x = nullptr;
    if(!y->_M_left)
        x = y->_M_right;
    else if(!y->_M_right)
        x = y->_M_left;
    else
    {
        y = rb_min(z->_M_right);
        // y replaces z
        _Rb_tree_node_base* yr = y->_M_right;
        if(y != z->_M_right)
        {
            y->_M_parent->_M_left = yr;
            if(yr) yr->_M_parent = y->_M_parent;
            y->_M_right = z->_M_right;
            z->_M_right->_M_parent = y;
        }
        y->_M_left = z->_M_left;
        z->_M_left->_M_parent = y;
        if(h._M_parent == z)
            h._M_parent = y;
        else if(z->_M_parent->_M_left == z)
            z->_M_parent->_M_left = y;
        else
            z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        return z;
    }
    if(x) x->_M_parent = z->_M_parent;
    if(h._M_parent == z)
        h._M_parent = x;
    else if(z->_M_parent->_M_left == z)
        z->_M_parent->_M_left = x;
    else
        z->_M_parent->_M_right = x;
    if(h._M_left == z) h._M_left = x ? rb_min(x) : z->_M_parent;
    if(h._M_right == z) h._M_right = x ? rb_max(x) : z->_M_parent;
    return z;
}

namespace __detail
{
void _List_node_base::_M_hook(_List_node_base* const pos) noexcept
{
    _M_next = pos;
    _M_prev = pos->_M_prev;
    pos->_M_prev->_M_next = this;
    pos->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
    _M_next->_M_prev = _M_prev;
    _M_prev->_M_next = _M_next;
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
{
    if(this == last) return;
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    _M_prev->_M_next = first;
    _List_node_base* prev = _M_prev;
    _M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = prev;
}
void _List_node_base::_M_reverse() noexcept
{
    _List_node_base* x = this;
    do
    {
        _List_node_base* next = x->_M_next;
        x->_M_next = x->_M_prev;
        x->_M_prev = next;
        x = next;
    } while(x != this);
}
void _List_node_base::swap(_List_node_base& a, _List_node_base& b) noexcept
{
    _List_node_base* an = a._M_next == &a ? &b : a._M_next;
    _List_node_base* ap = a._M_prev == &a ? &b : a._M_prev;
    _List_node_base* bn = b._M_next == &b ? &a : b._M_next;
    _List_node_base* bp = b._M_prev == &b ? &a : b._M_prev;
    a._M_next = bn;
    a._M_prev = bp;
    b._M_next = an;
    b._M_prev = ap;
    a._M_next->_M_prev = a._M_prev->_M_next = &a;
    b._M_next->_M_prev = b._M_prev->_M_next = &b;
}
} // namespace __detail

template class basic_string<char>;
} // namespace std
