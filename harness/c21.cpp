// C21: index boxes, layouts, sub-views, spans.
#include "vp.hpp"
#include "fub/PatchDataView.hpp"
#include "fub/ForEach.hpp"
#include "fub/StateRow.hpp"
#include <string>
#include <vector>
using namespace fub;
namespace {
using A = std::ptrdiff_t;
std::string nm(const char* n, int i) { return std::string(n) + char('0' + i); }
A sym(const char* n, int i, A lo, A hi) { return vp_int(nm(n, i).c_str(), lo, hi); }
A pick(const char* n, int i, A lo, A hi) { return lo + vp_choice(nm(n, i).c_str(), int(hi - lo + 1)); } // one path per value
template <int R> IndexBox<R> symBox(const char* n, A w = 50) { IndexBox<R> b; for (int r = 0; r < R; ++r) { b.lower[r] = vp_int(nm(n, r).c_str(), -w, w); b.upper[r] = vp_int(nm(n, r + 4).c_str(), -w, w); vp_assume(b.lower[r] <= b.upper[r]); } return b; }
template <int R> Index<R> symIdx(const char* n, A w = 60) { Index<R> x; for (int r = 0; r < R; ++r) x[r] = vp_int(nm(n, r).c_str(), -w, w); return x; }
template <int R> bool in(const IndexBox<R>& b, const Index<R>& x) { bool r = true; for (int i = 0; i < R; ++i) r &= (b.lower[i] <= x[i]) & (x[i] < b.upper[i]); return r; }
template <int R> bool empty(const IndexBox<R>& b) { bool r = false; for (int i = 0; i < R; ++i) r |= b.lower[i] >= b.upper[i]; return r; }

template <std::size_t N> bool eqi(const std::array<A, N>& a, const std::array<A, N>& b) { bool r = true; for (std::size_t i = 0; i < N; ++i) r &= a[i] == b[i]; return r; }
template <int R> bool eqb(const IndexBox<R>& a, const IndexBox<R>& b) { return eqi(a.lower, b.lower) & eqi(a.upper, b.upper); }
// ------------------------------------------------ boxes
template <int R> void boxes() {
  const auto a = symBox<R>("a"), b = symBox<R>("b"); const auto x = symIdx<R>("x");
  vp_assert(Contains(a, x) == in(a, x), "a box contains exactly the indices between its bounds");
  if (Contains(a, b)) vp_assert(!in(b, x) || in(a, x), "a contained box has no index outside");
  else if (!empty(b)) { Index<R> lo = b.lower, hi = b.upper; for (auto& h : hi) --h; vp_assert(!(in(a, lo) && in(a, hi)), "a box with all indices inside is contained"); }
  const auto c = Intersect(a, b);
  vp_assert(in(c, x) == (in(a, x) && in(b, x)), "the intersection has exactly the common indices");
  bool ok = true; for (int r = 0; r < R; ++r) ok &= c.lower[r] <= c.upper[r]; vp_assert(ok, "intersections are proper boxes");
  vp_cover("end");
}
template <int R> void same() {
  IndexBox<R> a; for (int r = 0; r < R; ++r) { a.lower[r] = pick("a", r, 0, 1) * 300 - 7; a.upper[r] = a.lower[r] + 5 + r; } auto b = a; const int k = vp_choice("k", 2 * R); const A ds[] = {0, 1, -1, 256, -65536, 1L << 32}, d = ds[vp_choice("d", 6)]; (k < R ? b.lower[k] : b.upper[k - R]) += d;
  vp_assert((a == b) == (d == 0) && (a != b) == (d != 0), "boxes are equal if their bounds are"); vp_cover("end");
}
template <int R> void moves() {
  const auto a = symBox<R>("a"); const auto x = symIdx<R>("x");
  const int d = vp_choice("dir", R); const Direction dir = Direction(d); const A l = vp_int("l", 0, 9), u = vp_int("u", 0, 9), s = vp_int("s", -9, 9);
  const auto g = Grow(a, dir, {l, u}), h = Shrink(g, dir, {l, u}); IndexBox<R> want = a; want.lower[d] -= l; want.upper[d] += u;
  vp_assert(eqb(g, want), "a grown box"); vp_assert(eqb(h, a), "shrinking undoes growing"); want = a; want.lower[d] += l; want.upper[d] -= u; vp_assert(eqb(Shrink(a, dir, {l, u}), want), "a shrunk box");
  Index<R> y = x; y[d] += s; vp_assert(eqi(Shift(x, dir, s), y), "shifted index");
  y = x; y[d] -= s; vp_assert(eqi(LeftTo(x, dir, s), y), "index to the left"); y = x; y[d] -= 1; vp_assert(eqi(LeftTo(x, dir), y), "the cell left of a face");
  y = x; y[d] += s - 1; vp_assert(eqi(RightTo(x, dir, s), y), "index to the right"); vp_assert(eqi(RightTo(x, dir), x), "the cell right of a face");
  const auto e = Embed<R + 1>(a, {l, u}); bool em = (e.lower[R] == l) & (e.upper[R] == u); for (int r = 0; r < R; ++r) em &= (e.lower[r] == a.lower[r]) & (e.upper[r] == a.upper[r]);
  vp_assert(em, "an embedded box"); vp_assert(eqb(Project<R>(e), a), "projection undoes embedding");
  const auto ei = EmbedIndex(x, dir); bool ee = ei[R] == d; for (int r = 0; r < R; ++r) ee &= ei[r] == x[r]; vp_assert(ee, "an embedded index");
  const int w = vp_choice("w", 3); const auto n = Neighborhood<R>(x, w); const auto z = symIdx<R>("z");
  bool near = true; for (int r = 0; r < R; ++r) near &= (z[r] - x[r] <= w) & (x[r] - z[r] <= w); vp_assert(in(n, z) == near, "the neighbourhood of an index");
  vp_cover("end");
}
// ------------------------------------------------ layouts, any extents
template <typename L, int R, bool Right> void layout() {
  std::array<A, R> e, i; for (int r = 0; r < R; ++r) { e[r] = sym("e", r, 0, 1000); i[r] = sym("i", r, -1000, 1000); }
  const typename L::template mapping<dynamic_extents<R>> m{dynamic_extents<R>(e)};
  A off = 0, s = 1;
  for (int k = 0; k < R; ++k) { const int r = Right ? R - 1 - k : k; vp_assert(m.stride(r) == s, "the stride is the product of the faster extents"); off += i[r] * s; s *= e[r]; }
  vp_assert(std::apply(m, i) == off, "the offset is the sum of index times stride"); vp_assert(m.required_span_size() == s, "the view spans all its elements");
  const typename L::template mapping<dynamic_extents<R>> m2(m); vp_assert(m2 == m && !(m2 != m) && m2.extents() == m.extents(), "copies are equal");
  std::array<A, R> f; for (int r = 0; r < R; ++r) f[r] = sym("f", r, 0, 1000); bool eq = true; for (int r = 0; r < R; ++r) eq &= e[r] == f[r];
  vp_assert((m == typename L::template mapping<dynamic_extents<R>>{dynamic_extents<R>(f)}) == eq, "mappings are equal if their extents are");
  double x = 0; const basic_mdspan<double, dynamic_extents<R>, L> v(&x, m);
  bool ex = true; A n = 1; for (int r = 0; r < R; ++r) { ex &= v.extent(r) == e[r] && v.stride(r) == m.stride(r); n *= e[r]; } vp_assert(ex && v.size() == n && v.data() == &x, "a view has the extents, strides and data it was given");
  // strided layouts: any strides
  std::array<A, R> t; for (int r = 0; r < R; ++r) t[r] = sym("t", r, 0, 1000);
  const layout_stride::mapping<dynamic_extents<R>> ms(dynamic_extents<R>(e), t); off = 0; for (int r = 0; r < R; ++r) off += i[r] * t[r];
  vp_assert(std::apply(ms, i) == off, "the offset is the sum of index times stride (strided)");
  std::array<A, R> q; for (int r = 0; r < R; ++r) q[r] = sym("q", r, 0, 1000); eq = true; for (int r = 0; r < R; ++r) eq &= t[r] == q[r];
  vp_assert((ms == layout_stride::mapping<dynamic_extents<R>>(dynamic_extents<R>(e), q)) == eq, "strided mappings are equal if extents and strides are");
  if constexpr (!Right) { const layout_stride::mapping<dynamic_extents<R>> c(m); vp_assert(std::apply(c, i) == std::apply(m, i), "conversion to a strided layout keeps offsets"); }
  vp_cover("end");
}
void statics() { // mixed static and dynamic extents
  const A a = vp_int("a", 0, 1000), b = vp_int("b", 0, 1000), i = vp_int("i", 0, 999), j = vp_int("j", 0, 999), k = vp_int("k", 0, 999);
  using E = extents<dynamic_extent, 3, dynamic_extent>; const E e(a, b);
  vp_assert(e.extent(0) == a && e.extent(1) == 3 && e.extent(2) == b && E::rank() == 3 && E::rank_dynamic() == 2 && E::static_extent(1) == 3 && E::static_extent(2) == dynamic_extent, "static and dynamic extents");
  vp_assert(layout_left::mapping<E>(e)(i, j, k) == i + a * j + 3 * a * k, "column major"); vp_assert(layout_right::mapping<E>(e)(i, j, k) == 3 * b * i + b * j + k, "row major");
  using F = extents<2, dynamic_extent>; const F f(b); vp_assert(f.extent(0) == 2 && f.extent(1) == b, "static and dynamic extents"); vp_assert(layout_right::mapping<F>(f)(i, j) == b * i + j, "row major");
  using S = extents<4, 5>; vp_assert(layout_left::mapping<S>(S())(i, j) == i + 4 * j && layout_right::mapping<S>(S())(i, j) == 5 * i + j, "static extents");
  vp_assert((e == E(a, b)) && (F(a) == F(b)) == (a == b) && (F(a) == dynamic_extents<2>(2, a)), "extents are compared by value");
  vp_cover("end");
}
// ------------------------------------------------ no two elements share an address, none lies outside
template <typename L, int R> void unique() {
  std::array<A, R> e, i, j; for (int r = 0; r < R; ++r) { e[r] = pick("e", r, 1, vp_param("n", 3)); i[r] = sym("i", r, 0, e[r] - 1); j[r] = sym("j", r, 0, e[r] - 1); }
  const typename L::template mapping<dynamic_extents<R>> m{dynamic_extents<R>(e)};
  const A a = std::apply(m, i), b = std::apply(m, j);
  vp_assert(0 <= a && a < m.required_span_size(), "elements lie inside"); bool same = true; for (int r = 0; r < R; ++r) same &= i[r] == j[r];
  vp_assert((a == b) == same, "different elements have different addresses"); vp_cover("end");
}
// ------------------------------------------------ patch data views
template <int R> void views() {
  std::array<A, R> e, o; A n = 1; for (int r = 0; r < R; ++r) { e[r] = pick("e", r, 1, vp_param("n", 3)); o[r] = vp_param("origin", 1) >> r & 1 ? sym("o", r, -50, 50) : 3 - 4 * r; n *= e[r]; }
  std::vector<double> buf(n);
  const PatchDataView<double, R> v(mdspan<double, R>(buf.data(), dynamic_extents<R>(e)), o);
  IndexBox<R> box{o, o}; for (int r = 0; r < R; ++r) box.upper[r] += e[r];
  vp_assert(v.Box() == box, "the box of a view starts at its origin and has its extents"); vp_assert(v.Span().data() == buf.data() && v.Span().size() == n, "the span of a view covers its elements");
  std::array<A, R> st; A s = 1; for (int r = 0; r < R; ++r) { st[r] = s; s *= e[r]; }
  auto off = [&](const Index<R>& x) { A k = 0; for (int r = 0; r < R; ++r) k += (x[r] - o[r]) * st[r]; return k; };
  IndexBox<R> sb; Index<R> x; for (int r = 0; r < R; ++r) { const A l = pick("l", r, 0, e[r]), u = pick("u", r, 0, e[r]); if (u < l) vp_stop(); sb.lower[r] = o[r] + l; sb.upper[r] = o[r] + u; }
  const auto w = v.Subview(sb); const PatchDataView<const double, R> cv = v; const PatchDataView<const double, R, layout_stride> cw = w;
  vp_assert(w.Box() == sb && cw.Box() == sb && cv.Box() == box, "a sub-view has the box it was asked for");
  long count = 0; Index<R> prev{};
  ForEachIndex(w.Box(), [&](auto... is) {
    const Index<R> y{A(is)...};
    vp_assert(in(sb, y), "only indices of the box are visited");
    if (count) { int r = R - 1; while (r > 0 && y[r] == prev[r]) --r; vp_assert(y[r] > prev[r], "indices are visited once, in order"); }
    prev = y; ++count;
    vp_assert(&w(y) == &v(y) && &w(A(is)...) == &v(y) && &cv(y) == &v(y) && &cw(y) == &v(y), "a sub-view refers to the elements of the view");
    vp_assert(&v(y) - buf.data() == off(y), "elements are where the layout puts them");
  });
  A want = 1; for (int r = 0; r < R; ++r) want *= sb.upper[r] - sb.lower[r];
  vp_assert(count == want, "all indices of a box are visited");
  count = 0; ForEachIndex(w.Mapping(), [&](auto... is) { const std::array<A, R> y{A(is)...}; Index<R> z = y; for (int r = 0; r < R; ++r) z[r] += sb.lower[r]; vp_assert(in(sb, z), "only local indices are visited"); vp_assert(&w.MdSpan()(y) == &v(z), "local indices start at zero"); ++count; });
  vp_assert(count == want, "all local indices are visited");
  count = 0; ForEachIndex(v.Mapping(), [&](auto... is) { const std::array<A, R> y{A(is)...}; vp_assert(&v.MdSpan()(y) == buf.data() + count, "memory order"); ++count; }); vp_assert(count == n, "all local indices are visited");
  if constexpr (R > 1) { // components
    if (want > 0) for (A c = sb.lower[R - 1]; c < sb.upper[R - 1]; ++c) {
      const auto sl = SliceLast(w, int(c - sb.lower[R - 1])); const auto sv = SliceLast(v, int(c - o[R - 1]));
      ForEachIndex(sl.Box(), [&](auto... is) { vp_assert(&sl(A(is)...) == &v(A(is)..., c) && &sv(A(is)...) == &v(A(is)..., c), "a slice refers to one component"); vp_assert(&v(Index<R - 1>{A(is)...}, int(c)) == &v(A(is)..., c), "component access"); });
      vp_assert(sl.Box() == Project<R - 1>(sb) && sv.Box() == Project<R - 1>(box), "a slice keeps the other directions");
    }
  }
  vp_cover("end");
}
// rows of views: every row of the box exactly once
template <int R> void rows() {
  std::array<A, R> e, o; A n = 1; for (int r = 0; r < R; ++r) { e[r] = pick("e", r, 1, vp_param("n", 3)); o[r] = 3 - r; n *= e[r]; }
  std::vector<double> buf(n), buf2(n);
  const PatchDataView<double, R> v(mdspan<double, R>(buf.data(), dynamic_extents<R>(e)), o); const PatchDataView<double, R> v2(mdspan<double, R>(buf2.data(), dynamic_extents<R>(e)), o);
  IndexBox<R> sb; for (int r = 0; r < R; ++r) { const A l = pick("l", r, 0, e[r]), u = pick("u", r, 0, e[r]); if (u < l) vp_stop(); sb.lower[r] = o[r] + l; sb.upper[r] = o[r] + u; }
  std::vector<std::pair<double*, double*>> got; std::vector<A> len;
  ForEachRow(std::tuple{v.Subview(sb), v2.Subview(sb)}, [&](span<double> s, span<double> t) { vp_assert(s.size() == t.size(), "rows of one length"); got.emplace_back(s.data(), t.data()); len.push_back(s.size()); });
  std::size_t k = 0; const A nx = sb.upper[0] - sb.lower[0];
  IndexBox<R> heads = sb; heads.upper[0] = heads.lower[0] + 1;
  bool ok = true; A cells = 0; for (A l : len) cells += l;
  if (empty(sb)) { vp_assert(cells == 0, "an empty box has no rows"); vp_cover("empty"); return; }
  ForEachIndex(heads, [&](auto... is) { ok &= k < got.size() && got[k].first == &v(A(is)...) && got[k].second == &v2(A(is)...) && len[k] == nx; ++k; });
  vp_assert(ok && k == got.size(), "each row of the box is visited once"); vp_cover("end");
}
// ------------------------------------------------ sub-spans
void subspans() {
  std::array<A, 3> e; for (int r = 0; r < 3; ++r) e[r] = pick("e", r, 1, 2);
  std::vector<double> buf(8); const mdspan<double, 3> v(buf.data(), dynamic_extents<3>(e));
  std::array<A, 3> l, u; for (int r = 0; r < 3; ++r) { l[r] = pick("l", r, 0, e[r]); u[r] = pick("u", r, l[r], e[r]); }
  const A k = pick("k", 0, 0, e[1] - 1);
  auto pr = [&](int r) { return std::pair<A, A>{l[r], u[r]}; };
  const auto a = subspan(v, pr(0), k, pr(2));
  vp_assert(a.extent(0) == u[0] - l[0] && a.extent(1) == u[2] - l[2], "extents of a slice");
  for (A i = 0; i < u[0] - l[0]; ++i) for (A j = 0; j < u[2] - l[2]; ++j) vp_assert(&a(i, j) == &v(l[0] + i, k, l[2] + j), "a slice refers to the elements of the view");
  const auto b = subspan(v, all, pr(1), A(0)); vp_assert(b.extent(0) == e[0] && b.extent(1) == u[1] - l[1], "extents of a slice");
  for (A i = 0; i < e[0]; ++i) for (A j = 0; j < u[1] - l[1]; ++j) vp_assert(&b(i, j) == &v(i, l[1] + j, 0), "a slice refers to the elements of the view");
  const auto c = subspan(a, A(0), all); vp_assert(c.extent(0) == a.extent(1) && c.stride(0) == v.stride(2), "a slice of a slice");
  if (u[0] > l[0]) for (A j = 0; j < u[2] - l[2]; ++j) vp_assert(&c(j) == &v(l[0], k, l[2] + j), "a slice of a slice refers to the elements of the view");
  vp_cover("end");
}
void spans() {
  const A n = pick("n", 0, 0, 6); double buf[6] = {}; const span<double> s(buf, n); span<double, 6> f(buf);
  const A c = pick("c", 0, 0, n), o = pick("o", 0, 0, n - c);
  auto is = [&](auto t, A at, A len) { A k = 0; bool r = t.size() == len && t.empty() == (len == 0) && t.size_bytes() == 8 * len && t.data() == buf + at; for (auto& x : t) { r &= &x == buf + at + k && &t[k] == &x; ++k; } return r && k == len; };
  vp_assert(is(s, 0, n), "a span covers its elements"); vp_assert(is(span<double>(buf + o, buf + o + c), o, c), "a span between two pointers");
  vp_assert(is(s.first(c), 0, c), "the first elements"); vp_assert(is(s.last(c), n - c, c), "the last elements"); vp_assert(is(s.subspan(o, c), o, c), "inner elements"); vp_assert(is(s.subspan(o), o, n - o), "the elements from an offset on");
  const A g = pick("g", 0, 0, 6); vp_assert(is(f.first(g), 0, g) && is(f.last(g), 6 - g, g) && is(f.subspan(g), g, 6 - g), "parts of a static span"); vp_assert(is(f.first<2>(), 0, 2) && is(f.last<2>(), 4, 2) && is(f.subspan<1, 3>(), 1, 3) && is(f.subspan<2>(), 2, 4), "static parts of a static span");
  if (n >= 2) vp_assert(is(s.first<2>(), 0, 2) && is(s.last<2>(), n - 2, 2), "static parts of a span");
  std::vector<double> w(n); const std::vector<double>& cw = w; span<double> sw(w); span<const double> scw(cw), conv(s); vp_assert(sw.data() == w.data() && sw.size() == n && scw.data() == w.data() && scw.size() == n && conv.data() == buf && conv.size() == n, "spans of containers");
  A k = n; for (auto it = s.rbegin(); it != s.rend(); ++it) { --k; vp_assert(&*it == buf + k, "backwards"); } vp_assert(k == 0, "all elements backwards"); vp_cover("end");
}
} // namespace
VP_ENTRY boxes1() { boxes<1>(); } VP_ENTRY boxes2() { boxes<2>(); } VP_ENTRY boxes3() { boxes<3>(); }
VP_ENTRY same2() { same<2>(); } VP_ENTRY same3() { same<3>(); } VP_ENTRY moves1() { moves<1>(); } VP_ENTRY moves2() { moves<2>(); } VP_ENTRY moves3() { moves<3>(); }
VP_ENTRY left1() { layout<layout_left, 1, false>(); } VP_ENTRY left2() { layout<layout_left, 2, false>(); } VP_ENTRY left3() { layout<layout_left, 3, false>(); } VP_ENTRY left4() { layout<layout_left, 4, false>(); }
VP_ENTRY right1() { layout<layout_right, 1, true>(); } VP_ENTRY right2() { layout<layout_right, 2, true>(); } VP_ENTRY right3() { layout<layout_right, 3, true>(); }
VP_ENTRY uleft2() { unique<layout_left, 2>(); } VP_ENTRY uleft3() { unique<layout_left, 3>(); } VP_ENTRY uright2() { unique<layout_right, 2>(); } VP_ENTRY uright3() { unique<layout_right, 3>(); }
VP_ENTRY mixed() { statics(); }
VP_ENTRY views1() { views<1>(); } VP_ENTRY views2() { views<2>(); } VP_ENTRY views3() { views<3>(); }
VP_ENTRY rows1() { rows<1>(); } VP_ENTRY rows2() { rows<2>(); } VP_ENTRY rows3() { rows<3>(); }
VP_ENTRY slices() { subspans(); } VP_ENTRY spans1() { spans(); }
