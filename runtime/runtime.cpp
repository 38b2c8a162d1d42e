// Bodies for the non-template parts of libstdc++ that the library reaches
// (they live in libstdc++.so and have no bitcode). Part of the trusted base.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#include <sstream>

#include <cstdint>
#include <cstring>
#include <chrono>
#include <exception>
#include <list>
#include <locale>
#include <map>
#include <unordered_map>

namespace std {
// ---- red-black tree (the algorithm of libstdc++'s tree.cc) ----
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
    return x;
  }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() {
  return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x));
}
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; // header
  if (x->_M_left) {
    _Rb_tree_node_base *y = x->_M_left;
    while (y->_M_right) y = y->_M_right;
    return y;
  }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() {
  return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x));
}
typedef _Rb_tree_node_base *RB;
static void rb_left(RB const x, RB &root) {
  RB const y = x->_M_right;
  x->_M_right = y->_M_left;
  if (y->_M_left) y->_M_left->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
  else x->_M_parent->_M_right = y;
  y->_M_left = x;
  x->_M_parent = y;
}
static void rb_right(RB const x, RB &root) {
  RB const y = x->_M_left;
  x->_M_left = y->_M_right;
  if (y->_M_right) y->_M_right->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
  else x->_M_parent->_M_left = y;
  y->_M_right = x;
  x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p,
                                   _Rb_tree_node_base &h) throw() {
  RB &root = h._M_parent;
  x->_M_parent = p;
  x->_M_left = 0;
  x->_M_right = 0;
  x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    RB const g = x->_M_parent->_M_parent;
    if (x->_M_parent == g->_M_left) {
      RB const y = g->_M_right;
      if (y && y->_M_color == _S_red) {
        x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g;
      } else {
        if (x == x->_M_parent->_M_right) { x = x->_M_parent; rb_left(x, root); }
        x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rb_right(g, root);
      }
    } else {
      RB const y = g->_M_left;
      if (y && y->_M_color == _S_red) {
        x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g;
      } else {
        if (x == x->_M_parent->_M_left) { x = x->_M_parent; rb_right(x, root); }
        x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rb_left(g, root);
      }
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  RB &root = h._M_parent, &leftmost = h._M_left, &rightmost = h._M_right;
  RB y = z, x = 0, xp = 0;
  if (!y->_M_left) x = y->_M_right;
  else if (!y->_M_right) x = y->_M_left;
  else {
    y = y->_M_right;
    while (y->_M_left) y = y->_M_left;
    x = y->_M_right;
  }
  if (y != z) {
    z->_M_left->_M_parent = y;
    y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      xp = y->_M_parent;
      if (x) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x;
      y->_M_right = z->_M_right;
      z->_M_right->_M_parent = y;
    } else xp = y;
    if (root == z) root = y;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
    else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    _Rb_tree_color c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c;
    y = z;
  } else {
    xp = y->_M_parent;
    if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
    else z->_M_parent->_M_right = x;
    if (leftmost == z) {
      if (!z->_M_right) leftmost = z->_M_parent;
      else { RB m = x; while (m->_M_left) m = m->_M_left; leftmost = m; }
    }
    if (rightmost == z) {
      if (!z->_M_left) rightmost = z->_M_parent;
      else { RB m = x; while (m->_M_right) m = m->_M_right; rightmost = m; }
    }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (!x || x->_M_color == _S_black)) {
      if (x == xp->_M_left) {
        RB w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rb_left(xp, root); w = xp->_M_right; }
        if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) {
          w->_M_color = _S_red; x = xp; xp = xp->_M_parent;
        } else {
          if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rb_right(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black;
          if (w->_M_right) w->_M_right->_M_color = _S_black;
          rb_left(xp, root);
          break;
        }
      } else {
        RB w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rb_right(xp, root); w = xp->_M_left; }
        if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) {
          w->_M_color = _S_red; x = xp; xp = xp->_M_parent;
        } else {
          if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rb_left(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black;
          if (w->_M_left) w->_M_left->_M_color = _S_black;
          rb_right(xp, root);
          break;
        }
      }
    }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
void __detail::_List_node_base::_M_hook(_List_node_base *const p) noexcept {
  this->_M_next = p;
  this->_M_prev = p->_M_prev;
  p->_M_prev->_M_next = this;
  p->_M_prev = this;
}
void __detail::_List_node_base::_M_unhook() noexcept {
  _List_node_base *const n = this->_M_next, *const p = this->_M_prev;
  p->_M_next = n;
  n->_M_prev = p;
}
void __detail::_List_node_base::_M_reverse() noexcept {
  _List_node_base *t = this;
  do {
    _List_node_base *n = t->_M_next;
    t->_M_next = t->_M_prev;
    t->_M_prev = n;
    t = n;
  } while (t != this);
}
void __detail::_List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  bool ex = x._M_next == &x, ey = y._M_next == &y;
  _List_node_base a = x, b = y;
  auto put = [](_List_node_base &n, _List_node_base &v, bool empty) {
    if (empty) n._M_next = n._M_prev = &n;
    else { n = v; n._M_next->_M_prev = n._M_prev->_M_next = &n; }
  };
  put(x, b, ey);
  put(y, a, ex);
}
void __detail::_List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
  if (this != l) {
    l->_M_prev->_M_next = this;
    f->_M_prev->_M_next = l;
    this->_M_prev->_M_next = f;
    _List_node_base *const t = this->_M_prev;
    this->_M_prev = l->_M_prev;
    l->_M_prev = f->_M_prev;
    f->_M_prev = t;
  }
}
// ---- hash table growth policy: any sufficiently large bucket count is allowed ----
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const size_t primes[] = {2, 3, 5, 7, 11, 13, 17, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043};
  size_t r = 1;
  if (n > 1)
    for (size_t p : primes) { r = p; if (p >= n) break; }
  const_cast<_Prime_rehash_policy *>(this)->_M_next_resize = r;
  return r;
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const {
  // Few elements live in two buckets: the bucket of a symbolic key is then one bit of it.
  if (n_elt + n_ins <= 16) {
    if (n_bkt >= 2) return {false, 0};
    const_cast<_Prime_rehash_policy *>(this)->_M_next_resize = 16;
    return {true, 2};
  }
  if (n_elt + n_ins > _M_next_resize) {
    size_t min = n_elt + n_ins;
    if (_M_next_resize == 0 && min < 11) min = 11;
    if (min >= n_bkt) {
      size_t want = min + 1 > 2 * n_bkt ? min + 1 : 2 * n_bkt;
      return {true, _M_next_bkt(want)};
    }
    const_cast<_Prime_rehash_policy *>(this)->_M_next_resize = n_bkt;
  }
  return {false, 0};
}
} // namespace __detail

// ---- streams: only unformatted/char/string insertion and extraction, "C" locale ----
locale::locale() throw() : _M_impl(0) {}
locale::locale(const locale &) throw() : _M_impl(0) {}
locale::~locale() throw() {}
const locale &locale::operator=(const locale &) throw() { return *this; }
bool locale::operator==(const locale &) const throw() { return true; }

ios_base::ios_base() throw()
    : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit),
      _M_callbacks(0), _M_word_size(_S_local_word_size), _M_word(_M_local_word) {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() {
  _M_precision = 6;
  _M_width = 0;
  _M_flags = skipws | dec;
  _M_ios_locale = locale();
}
void ios_base::_M_move(ios_base &) noexcept {}
void ios_base::_M_swap(ios_base &) noexcept {}
template <> void basic_ios<char>::_M_cache_locale(const locale &) {
  _M_ctype = 0;
  _M_num_put = 0;
  _M_num_get = 0;
}
} // namespace std
namespace std {
namespace chrono { inline namespace _V2 {
static long vp_clock;
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(++vp_clock)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(++vp_clock)); }
} }
bool uncaught_exception() noexcept { return false; }
int uncaught_exceptions() noexcept { return 0; }
}
