// C22: gather/scatter of states and traversal of index boxes.
#include "patch.hpp"
using namespace h;
namespace {
template <typename EQ> EQ eqOf() {
  if constexpr (std::is_same_v<EQ, PerfectGasMix<1>> || std::is_same_v<EQ, PerfectGasMix<2>>) return makeEq(Type<EQ>{}, vp_param("species", 2), vp_param("scalars", 1));
  else return makeEq(Type<EQ>{});
}
template <int R> IndexBox<R> theBox() { return boxOf<R>(vp_param("nx", 3), vp_param("ny", 2), vp_param("nz", 2)); }
template <int R> Index<R> somewhere(const IndexBox<R>& b) { Index<R> i; for (int k = 0; k < R; ++k) i[k] = b.lower[k] + vp_choice("pos", b.upper[k] - b.lower[k]); return i; }
template <typename S> std::vector<double> symbolic(S& s) { eachReal(s, [](double& x) { x = vp_real("s"); }); return comps(s); }
// cell
template <typename EQ, template <typename> class ST> void cell() {
  constexpr int R = EQ::Rank();
  EQ eq = eqOf<EQ>();
  IndexBox<R> b = theBox<R>();
  Patch<ST<EQ>, R> p(eq, grown(b, 1), "p");
  auto snap = p.snapshot();
  auto v = p.view(b);
  const bool sub = vp_choice("sub", 2);
  Index<R> i = somewhere(b), j = somewhere(b);
  ST<EQ> s(eq), t(eq);
  Load(s, AsConst(sub ? v : p.full), i);
  same(comps(s), p.cell(i), "load gathers the stored values of the cell");
  Load(t, sub ? v : p.full, i);
  same(comps(t), p.cell(i), "load gathers the stored values of the cell (mutable view)");
  p.unchanged(snap, "load does not write");
  auto w = symbolic(s);
  Store(sub ? v : p.full, s, j);
  same(p.cell(j), w, "store scatters every component to the cell");
  IndexBox<R> one; for (int k = 0; k < R; ++k) { one.lower[k] = j[k]; one.upper[k] = j[k] + 1; }
  p.unchangedOutside(snap, one, "store writes nothing but the cell");
  Load(t, AsConst(p.full), j);
  same(comps(t), w, "load after store returns what was stored");
  vp_cover("cell");
}
// chunk and partial chunk through view pointers
template <typename EQ, template <typename> class ST, typename SA> void chunk() {
  constexpr int R = EQ::Rank();
  EQ eq = eqOf<EQ>();
  IndexBox<R> b = boxOf<R>(W + 1, vp_param("ny", 2), vp_param("nz", 1));
  Patch<ST<EQ>, R> p(eq, grown(b, 1), "p");
  auto snap = p.snapshot();
  auto v = p.view(b);
  const int shift = vp_choice("shift", 2);
  const int n = vp_param("len", W); // W: whole chunk
  SA a(eq), c(eq);
  std::vector<std::vector<double>> fresh;
  for (int l = 0; l < W; ++l) { fresh.push_back({}); for (int k = 0; k < p.ncomp(); ++k) fresh[l].push_back(vp_real("lane")); setLane(a, l, fresh[l]); }
  c = a;
  ViewPointer<const ST<EQ>> in = Begin(AsConst(v));
  Advance(in, shift);
  Index<R> i0 = b.lower; i0[0] += shift;
  if (n == W) Load(a, in); else LoadN(a, in, n);
  for (int l = 0; l < W; ++l) { Index<R> i = i0; i[0] += l; if (l < n) same(lane(a, l), p.cell(i), "lane holds the values of its cell"); else same(lane(a, l), fresh[l], "lanes beyond the partial chunk keep their values"); }
  p.unchanged(snap, "load does not write");
  ViewPointer<ST<EQ>> out = Begin(v);
  Advance(out, shift);
  if (n == W) Store(out, c); else StoreN(out, c, n);
  for (int l = 0; l < n; ++l) { Index<R> i = i0; i[0] += l; same(p.cell(i), fresh[l], "store scatters every lane to its cell"); }
  IndexBox<R> range; range.lower = i0; range.upper = i0; range.upper[0] += n; for (int k = 1; k < R; ++k) range.upper[k] += 1;
  p.unchangedOutside(snap, range, "store writes nothing but the cells of the chunk");
  if constexpr (!std::is_same_v<SA, PrimitiveArray<EQ>>) {
    const int l = vp_choice("lane", W);
    ST<EQ> s(eq);
    Load(s, c, l);
    same(comps(s), fresh[l], "a single lane is extracted unchanged");
  }
  vp_cover("chunk");
}
// chunks addressed by an index
template <typename EQ, template <typename> class ST, typename SA> void indexChunk() {
  constexpr int R = EQ::Rank();
  EQ eq = eqOf<EQ>();
  IndexBox<R> b = boxOf<R>(W + 1, vp_param("ny", 2), vp_param("nz", 1));
  Patch<ST<EQ>, R> p(eq, grown(b, 1), "p");
  auto snap = p.snapshot();
  auto v = p.view(b);
  Index<R> i0 = b.lower; i0[0] += vp_choice("shift", 2); if (R > 1) i0[1] += vp_choice("row", vp_param("ny", 2));
  const int n = vp_param("len", W);
  SA a(eq), c(eq);
  std::vector<std::vector<double>> fresh;
  for (int l = 0; l < W; ++l) { fresh.push_back({}); for (int k = 0; k < p.ncomp(); ++k) fresh[l].push_back(vp_real("lane")); setLane(c, l, fresh[l]); }
  if (n == W) Load(a, AsConst(v), i0); else LoadN(a, AsConst(v), n, i0);
  for (int l = 0; l < n; ++l) { Index<R> i = i0; i[0] += l; same(lane(a, l), p.cell(i), "lane holds the values of its cell"); }
  p.unchanged(snap, "load does not write");
  Store(v, c, i0);
  for (int l = 0; l < W; ++l) { Index<R> i = i0; i[0] += l; same(p.cell(i), fresh[l], "store scatters every lane to its cell"); }
  IndexBox<R> range; range.lower = i0; range.upper = i0; range.upper[0] += W; for (int k = 1; k < R; ++k) range.upper[k] += 1;
  p.unchangedOutside(snap, range, "store writes nothing but the cells of the chunk");
  vp_cover("chunk");
}
template <typename EQ> void pointerCell() {
  constexpr int R = EQ::Rank();
  EQ eq = eqOf<EQ>();
  IndexBox<R> b = theBox<R>();
  Patch<Complete<EQ>, R> p(eq, grown(b, 1), "p");
  auto v = p.view(b);
  Complete<EQ> s(eq);
  ViewPointer<const Complete<EQ>> in = Begin(AsConst(v));
  const int sh = vp_choice("shift", 2);
  Advance(in, sh);
  Load(s, in);
  Index<R> i = b.lower; i[0] += sh;
  same(comps(s), p.cell(i), "pointer load gathers the cell");
  vp_cover("pointer");
}
// rows
template <typename EQ> void rows() {
  constexpr int R = EQ::Rank();
  EQ eq = eqOf<EQ>();
  IndexBox<R> b = theBox<R>();
  Patch<Complete<EQ>, R> p(eq, grown(b, 1), "p");
  Patch<Conservative<EQ>, R> c(eq, grown(b, 2), "c");
  std::map<double*, int> seen;
  int calls = 0;
  bool bad = false;
  ForEachRow(std::tuple{p.view(b), c.view(b)}, [&](const Row<Complete<EQ>>& r, const Row<Conservative<EQ>>& s) {
    ++calls;
    auto it = Begin(r); auto e = End(r); auto jt = Begin(s); auto f = End(s);
    long n = get<0>(e) - get<0>(it);
    if (n != b.upper[0] - b.lower[0]) bad = true;
    if (get<0>(f) - get<0>(jt) != n) bad = true;
    // same row in both patches
    long found = 0;
    forBox(b, [&](const Index<R>& i) {
      if (i[0] != b.lower[0]) return;
      if (&p.at(0, i) == get<0>(it)) { ++found; if (&c.at(0, i) != get<0>(jt)) bad = true; seen[get<0>(it)]++; }
    });
    if (found != 1) bad = true;
  });
  long want = 1; for (int k = 1; k < R; ++k) want *= b.upper[k] - b.lower[k];
  vp_assert(!bad, "every row is the same row of cells in all views");
  vp_assert(calls == want && (long)seen.size() == want, "every row is visited exactly once");
  vp_cover("rows");
}
template <int R> void boxes() {
  IndexBox<R> b; long ext[3];
  for (int k = 0; k < R; ++k) { ext[k] = vp_choice("ext", 4); b.lower[k] = vp_choice("low", 3) - 1; b.upper[k] = b.lower[k] + ext[k]; }
  std::map<Index<R>, int> seen; long calls = 0; bool outside = false;
  ForEachIndex(b, [&](auto... is) { Index<R> i{is...}; ++calls; seen[i]++; if (!in(b, i)) outside = true; });
  long want = 1; for (int k = 0; k < R; ++k) want *= ext[k];
  vp_assert(calls == want && (long)seen.size() == want && !outside, "every index of the box is visited exactly once");
  // mappings
  std::array<std::ptrdiff_t, R> e; for (int k = 0; k < R; ++k) e[k] = ext[k];
  layout_left::mapping<dynamic_extents<R>> m{dynamic_extents<R>(e)};
  std::map<long, int> offs; calls = 0;
  ForEachIndex(m, [&](auto... is) { ++calls; offs[m(is...)]++; });
  vp_assert(calls == want && (long)offs.size() == want, "every index of the mapping is visited exactly once");
  for (auto& o : offs) if (o.first < 0 || o.first >= want) outside = true;
  vp_assert(!outside, "offsets stay inside");
  vp_cover("boxes");
}
template <int R> void stridedBoxes() {
  std::array<std::ptrdiff_t, R> e, s; long acc = 1;
  for (int k = 0; k < R; ++k) { e[k] = vp_choice("ext", 3) + 1; s[k] = acc; acc *= e[k] + vp_choice("pad", 2); }
  if (R > 1) for (int k = 0; k + 1 < R; ++k) if (s[k] >= s[k + 1]) vp_stop();
  layout_stride::mapping<dynamic_extents<R>> m{dynamic_extents<R>(e), s};
  long want = 1; for (int k = 0; k < R; ++k) want *= e[k];
  std::map<long, int> offs; long calls = 0; bool outside = false;
  ForEachIndex(m, [&](auto... is) { ++calls; long o = m(is...); offs[o]++; if (o < 0 || o >= acc) outside = true; });
  vp_assert(calls == want && (long)offs.size() == want && !outside, "every index of the strided mapping is visited exactly once");
  vp_cover("boxes");
}
template <typename EQ> void buffers() {
  EQ eq = eqOf<EQ>();
  Complete<EQ> q(eq); Conservative<EQ> c(eq), d(eq);
  auto w = symbolic(c);
  std::vector<double> buf(w.size());
  CopyToBuffer(span<double>(buf), c);
  same(buf, w, "buffer holds the components in order");
  CopyFromBuffer(d, span<const double>(buf));
  same(comps(d), w, "state is restored from the buffer");
  std::vector<double> big(comps(q).size()); for (double& x : big) x = vp_real("b");
  CopyFromBuffer(q, span<const double>(big));
  same(comps(q), big, "complete state is read from the buffer in order");
  IndexMapping<EQ> m(eq);
  std::vector<int> ids;
  boost::mp11::tuple_for_each(StateTraits<IndexMapping<EQ>>::pointers_to_member, [&](auto pm) {
    auto& x = m.*pm;
    if constexpr (std::is_same_v<std::decay_t<decltype(x)>, int>) ids.push_back(x); else for (int y : x) ids.push_back(y);
  });
  bool ok = ids.size() == big.size();
  for (std::size_t k = 0; ok && k < ids.size(); ++k) ok = ids[k] == (int)k;
  vp_assert(ok, "index mapping enumerates the components in order");
  vp_cover("buffers");
}
template <typename EQ> void arithmetic() {
  EQ eq = eqOf<EQ>();
  Conservative<EQ> a(eq), b(eq);
  auto x = symbolic(a), y = symbolic(b);
  a += b;
  auto z = comps(a);
  for (std::size_t k = 0; k < z.size(); ++k) vp_eq(z[k], x[k] + y[k], "sum of states adds every component");
  Complete<EQ> p(eq), q(eq);
  x = symbolic(p); y = symbolic(q);
  p += q; z = comps(p);
  for (std::size_t k = 0; k < z.size(); ++k) vp_eq(z[k], x[k] + y[k], "sum of complete states adds every component");
  vp_cover("arithmetic");
}
} // namespace
#define ALL(name, EQ) \
  VP_ENTRY cellComplete_##name() { cell<EQ, Complete>(); } \
  VP_ENTRY cellCons_##name() { cell<EQ, Conservative>(); } \
  VP_ENTRY chunkComplete_##name() { chunk<EQ, Complete, CompleteArray<EQ>>(); } \
  VP_ENTRY chunkCons_##name() { chunk<EQ, Conservative, ConservativeArray<EQ>>(); } \
  VP_ENTRY indexComplete_##name() { indexChunk<EQ, Complete, CompleteArray<EQ>>(); } \
  VP_ENTRY pointer_##name() { pointerCell<EQ>(); } \
  VP_ENTRY rows_##name() { rows<EQ>(); } \
  VP_ENTRY buffers_##name() { buffers<EQ>(); } \
  VP_ENTRY arith_##name() { arithmetic<EQ>(); }
ALL(burgers, Burgers1d)
ALL(adv, Advection2d)
ALL(shallow, ShallowWater)
ALL(gas1, PerfectGas<1>)
ALL(gas2, PerfectGas<2>)
ALL(gas3, PerfectGas<3>)
ALL(mix1, PerfectGasMix<1>)
ALL(mix2, PerfectGasMix<2>)
VP_ENTRY boxes1() { boxes<1>(); }
VP_ENTRY boxes2() { boxes<2>(); }
VP_ENTRY boxes3() { boxes<3>(); }
VP_ENTRY sboxes1() { stridedBoxes<1>(); }
VP_ENTRY sboxes2() { stridedBoxes<2>(); }
VP_ENTRY sboxes3() { stridedBoxes<3>(); }
