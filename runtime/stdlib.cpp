// The compiled part of libstdc++ that containers need, as source for the symbolic engine
// (search-tree operations without the colour balancing: order and links are the same).
#include <string>
#include <map>
#include <list>
#include <unordered_map>
namespace std {
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw() {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &header) { header._M_parent = x; header._M_right = x; }
    else if (p == header._M_left) header._M_left = x;
  } else {
    p->_M_right = x;
    if (p == header._M_right) header._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) throw() {
  _Rb_tree_node_base *n;
  if (header._M_left == z) { if (z->_M_right) { n = z->_M_right; while (n->_M_left) n = n->_M_left; header._M_left = n; } else header._M_left = z->_M_parent; }
  if (header._M_right == z) { if (z->_M_left) { n = z->_M_left; while (n->_M_right) n = n->_M_right; header._M_right = n; } else header._M_right = z->_M_parent; }
  auto replace = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) {
    if (header._M_parent == a) header._M_parent = b;
    else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b;
    else a->_M_parent->_M_right = b;
    if (b) b->_M_parent = a->_M_parent;
  };
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    replace(z, y);
    y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this == last) return;
  last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
  _List_node_base* const t = this->_M_prev;
  this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
}
}
}
#include <chrono>
namespace std::chrono { inline namespace _V2 {
static long long vp_clock = 0;
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vp_clock += 1000)); }
} }

template class std::basic_string<char>;
#include <unordered_map>
#include <memory_resource>
namespace std {
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  size_t h = seed;
  for (size_t i = 0; i < n; ++i) h = h * 31 + c[i];
  return h;
}
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t k = 3; while (k < n) k = 2 * k + 1; _M_next_resize = k; return k; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const { return e + i > b || b == 1 ? pair<bool, size_t>(true, _M_next_bkt(e + i > 2 * b ? e + i : 2 * b)) : pair<bool, size_t>(false, 0); }
} // namespace __detail
namespace pmr { memory_resource::~memory_resource() {} }
} // namespace std
