// C29: the pooling memory resource over an upstream resource that records what it hands out.
#include "vp.hpp"
#include "fub/PoolAllocator.hpp"
#include <cstring>
#include <new>
#include <vector>
using namespace fub;
namespace {
struct Block { char* p; std::size_t bytes, alignment; };
bool overlap(const Block& a, const Block& b) { return a.p < b.p + b.bytes && b.p < a.p + a.bytes; }
alignas(256) char arena[1 << 14];
struct Upstream : memory_resource {
  std::vector<Block> live; std::size_t used = 8; int total = 0; // 8: blocks are aligned as asked for and no more
  void* do_allocate(std::size_t n, std::size_t a) override {
    if (vp_choice("exhausted", vp_param("faults", 0) ? 2 : 1)) throw std::bad_alloc();
    used = (used + a - 1) / a * a; if (used % (2 * a) == 0) used += a;
    Block b{arena + used, n, a}; used += n; if (used > sizeof(arena)) vp_stop();
    live.push_back(b); ++total; return b.p;
  }
  void do_deallocate(void* p, std::size_t n, std::size_t a) override {
    for (std::size_t i = 0; i < live.size(); ++i) if (live[i].p == p) { vp_assert(live[i].bytes == n && live[i].alignment == a, "blocks are returned upstream as they were obtained"); live.erase(live.begin() + i); return; }
    vp_fail("only blocks obtained from upstream are returned, once");
  }
  bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
constexpr std::size_t sizes[] = {24, 1, 8, 40}, alignments[] = {8, 32, 1, 16};
struct Live { Block b; std::vector<char> content; };
} // namespace
VP_ENTRY history() {
  Upstream up; const int steps = vp_param("steps", 4), ns = vp_param("sizes", 2), na = vp_param("alignments", 2);
  {
    monotonic_bucket_resource pool(up);
    std::vector<Live> live;
    for (int k = 0; k < steps; ++k) {
      const int what = vp_choice("operation", 1 + int(live.size()));
      if (what == 0) {
        const int kind = vp_choice("kind", ns * na); Block b{nullptr, sizes[kind % ns], alignments[kind / ns]};
        try { b.p = static_cast<char*>(pool.allocate(b.bytes, b.alignment)); } catch (const std::bad_alloc&) { vp_cover("exhausted"); continue; }
        bool inside = false; for (const Block& u : up.live) inside |= b.p >= u.p && b.p + b.bytes <= u.p + u.bytes;
        vp_assert(inside, "a block is as large as requested"); if (!inside) vp_stop();
        vp_assert((b.p - arena) % b.alignment == 0, "a block is aligned as requested");
        for (const Live& l : live) vp_assert(!overlap(b, l.b), "a block does not overlap live blocks");
        Live l{b, {}}; for (std::size_t i = 0; i < b.bytes; ++i) { char c = char(i % 8 ? i : vp_int("content", 0, 100)); b.p[i] = c; l.content.push_back(c); }
        live.push_back(l);
      } else {
        Block b = live[what - 1].b; live.erase(live.begin() + (what - 1)); pool.deallocate(b.p, b.bytes, b.alignment);
      }
      for (const Live& l : live) for (std::size_t i = 0; i < l.b.bytes; ++i) vp_assert(l.b.p[i] == l.content[i], "live blocks keep their contents");
    }
    vp_assert(pool.is_equal(pool) && !pool.is_equal(up), "a pool is interchangeable with itself only");
  }
  vp_assert(up.live.empty(), "all memory is returned in the end");
  vp_cover("end");
}
VP_ENTRY reuse() { // returned blocks are used again before more is obtained
  Upstream up; monotonic_bucket_resource pool(up);
  const std::size_t n = sizes[vp_choice("size", 4)], a = alignments[vp_choice("alignment", 4)];
  void* p = pool.allocate(n, a); void* q = pool.allocate(n, a); vp_assert(p != q, "live blocks are distinct");
  pool.deallocate(p, n, a); const int t = up.total; void* r = pool.allocate(n, a); vp_assert(up.total == t && r == p, "returned blocks are used again");
  pool.deallocate(q, n, a); pool.deallocate(r, n, a); void* s = pool.allocate(n, a); void* u = pool.allocate(n, a); vp_assert(up.total == t && s != u && (s == p || s == q) && (u == p || u == q), "returned blocks are used again");
  vp_cover("end");
}
