// Out-of-line parts of libstdc++/libc the code needs, as source for the executor.
#include <string>
#include <map>
#include <new>
#include <stdlib.h>
#include <string.h>
#include "sx.h"
template class std::__cxx11::basic_string<char>;

namespace std {
// Unbalanced versions: same observable container behaviour.
static _Rb_tree_node_base *rb_inc(_Rb_tree_node_base *x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static _Rb_tree_node_base *rb_dec(_Rb_tree_node_base *x) {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return rb_inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return rb_inc(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return rb_dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return rb_dec(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  h._M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  if (h._M_left == z) h._M_left = z->_M_left || z->_M_right ? rb_inc(z) : (z->_M_parent == &h ? &h : z->_M_parent);
  if (h._M_right == z) h._M_right = z->_M_left || z->_M_right ? rb_dec(z) : (z->_M_parent == &h ? &h : z->_M_parent);
  _Rb_tree_node_base *r;
  _Rb_tree_node_base *zp = z->_M_parent;
  _Rb_tree_node_base **link = zp == &h ? &h._M_parent : (zp->_M_left == z ? &zp->_M_left : &zp->_M_right);
  if (!z->_M_left) { r = z->_M_right; if (r) r->_M_parent = zp; *link = r; }
  else if (!z->_M_right) { r = z->_M_left; r->_M_parent = zp; *link = r; }
  else {
    _Rb_tree_node_base *s = z->_M_right;
    while (s->_M_left) s = s->_M_left;
    if (s->_M_parent != z) {
      s->_M_parent->_M_left = s->_M_right;
      if (s->_M_right) s->_M_right->_M_parent = s->_M_parent;
      s->_M_right = z->_M_right; s->_M_right->_M_parent = s;
    }
    s->_M_left = z->_M_left; s->_M_left->_M_parent = s;
    s->_M_parent = zp; *link = s;
  }
  return z;
}
// Hashing is a performance hint only; a constant keeps every lookup exhaustive.
size_t _Hash_bytes(const void *, size_t, size_t) { return 1; }
size_t _Fnv_hash_bytes(const void *, size_t, size_t) { return 1; }
namespace __detail {
struct _List_node_base { _List_node_base *_M_next, *_M_prev;
  void _M_hook(_List_node_base *p) noexcept; void _M_unhook() noexcept; void _M_transfer(_List_node_base *f, _List_node_base *l) noexcept; };
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base *f, _List_node_base *l) noexcept {
  if (this != l) {
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f;
    _List_node_base *t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
  }
}
}  // namespace __detail
}  // namespace std

