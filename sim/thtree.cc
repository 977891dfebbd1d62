// The red-black tree operations of the C++ runtime, as instrumented code, so that
// what they read and write inside shared containers is seen by the simulator.
#include <map>
#include <utility>
namespace std {
  typedef _Rb_tree_node_base N;
  static N* inc(N* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { N* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
  static N* dec(N* x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { N* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    N* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
  }
  N* _Rb_tree_increment(N* x) throw () { return inc(x); }
  N const* _Rb_tree_increment(N const* x) throw () { return inc(const_cast<N*>(x)); }
  N* _Rb_tree_decrement(N* x) throw () { return dec(x); }
  N const* _Rb_tree_decrement(N const* x) throw () { return dec(const_cast<N*>(x)); }
  static void rotl(N* const x, N*& root) {
    N* const y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
    y->_M_left = x; x->_M_parent = y;
  }
  static void rotr(N* const x, N*& root) {
    N* const y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
    y->_M_right = x; x->_M_parent = y;
  }
  void _Rb_tree_insert_and_rebalance(const bool left, N* x, N* p, N& header) throw () {
    N*& root = header._M_parent;
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; }
    else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red) {
      N* const g = x->_M_parent->_M_parent;
      if (x->_M_parent == g->_M_left) {
        N* const y = g->_M_right;
        if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
        else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root); }
      } else {
        N* const y = g->_M_left;
        if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
        else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root); }
      }
    }
    root->_M_color = _S_black;
  }
  N* _Rb_tree_rebalance_for_erase(N* const z, N& header) throw () {
    N*& root = header._M_parent; N*& leftmost = header._M_left; N*& rightmost = header._M_right; N* y = z; N* x = 0; N* xp = 0;
    if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
      z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
      if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
      if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
      y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z;
    } else {
      xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
      if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
      if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { N* m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
      if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { N* m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
    }
    if (y->_M_color != _S_red) {
      while (x != root && (x == 0 || x->_M_color == _S_black))
        if (x == xp->_M_left) {
          N* w = xp->_M_right;
          if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
          if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
          else {
            if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
            w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break;
          }
        } else {
          N* w = xp->_M_left;
          if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
          if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
          else {
            if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
            w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break;
          }
        }
      if (x) x->_M_color = _S_black;
    }
    return y;
  }
}
