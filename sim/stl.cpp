// Parts of libstdc++ that are compiled into it, here with instrumentation: threads and signals then interleave with them as
// they do with the code under test. First strings and streams, instantiated from their headers; then the balanced tree behind std::map and std::set, compiled with instrumentation: threads and signals interleave with its
// insertions, removals and steps as they do with the code under test. Same behaviour as libstdc++'s src/c++98/tree.cc.
#include <map>
#include <string>
#include <sstream>
#include <fstream>
#include <iostream>
template class std::basic_string<char>;
template class std::basic_streambuf<char>;
template class std::basic_ios<char>;
template class std::basic_ostream<char>;
template class std::basic_istream<char>;
template class std::basic_iostream<char>;
template class std::basic_filebuf<char>;
template class std::basic_ofstream<char>;
template class std::basic_ifstream<char>;
template class std::basic_fstream<char>;
template class std::basic_stringbuf<char>;
template class std::basic_ostringstream<char>;
template class std::basic_istringstream<char>;
template class std::basic_stringstream<char>;
namespace std {
typedef _Rb_tree_node_base N;
static N *incr(N *x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  N *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static N *decr(N *x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; // the header
  if (x->_M_left) { N *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  N *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return incr(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return incr(const_cast<N *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return decr(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return decr(const_cast<N *>(x)); }
static void rotate(N *x, N *&root, bool left) {
  N *y = left ? x->_M_right : x->_M_left;
  if (left) { x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; }
  else { x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; }
  y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
  if (left) y->_M_left = x; else y->_M_right = x;
  x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool insert_left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &header) throw() {
  N *&root = header._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (insert_left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; }
  else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    N *const g = x->_M_parent->_M_parent; bool l = x->_M_parent == g->_M_left; N *const u = l ? g->_M_right : g->_M_left;
    if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; }
    else {
      if (x == (l ? x->_M_parent->_M_right : x->_M_parent->_M_left)) { x = x->_M_parent; rotate(x, root, l); }
      x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotate(g, root, !l);
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &header) throw() {
  N *&root = header._M_parent; N *&leftmost = header._M_left; N *&rightmost = header._M_right;
  N *y = z, *x = 0, *xp = 0;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) { // y takes z's place
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; _Rb_tree_color c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { N *m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
    if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { N *m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (!x || x->_M_color == _S_black)) {
      bool l = x == xp->_M_left; N *w = l ? xp->_M_right : xp->_M_left;
      if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotate(xp, root, l); w = l ? xp->_M_right : xp->_M_left; }
      N *wn = l ? w->_M_left : w->_M_right, *wf = l ? w->_M_right : w->_M_left; // near and far child
      if ((!wn || wn->_M_color == _S_black) && (!wf || wf->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
      else {
        if (!wf || wf->_M_color == _S_black) { wn->_M_color = _S_black; w->_M_color = _S_red; rotate(w, root, !l); w = l ? xp->_M_right : xp->_M_left; wf = l ? w->_M_right : w->_M_left; }
        w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (wf) wf->_M_color = _S_black; rotate(xp, root, l); break;
      }
    }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
}
