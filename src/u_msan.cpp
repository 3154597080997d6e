// Unit (C19): histories under MemorySanitizer. Only header code and the C
// library are used, since the C++ runtime here is not instrumented.
#include <boost/segmented_tree/seq.hpp>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
using u64 = std::uint64_t;
using u32 = std::uint32_t;
static u64 state, ops, reads;
static unsigned long seed = 1, shard = 0, shards = 1, scale = 1, now_case;
static u64 rnd() { u64 z = (state += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static std::size_t below(std::size_t n) { return n ? (std::size_t)(rnd() % n) : 0; }
static void fail(const char* f, ...) {
  char m[300]; va_list a; va_start(a, f); vsnprintf(m, sizeof m, f, a); va_end(a);
  printf("VIOL content\tunit=%s seed=%lu shard=%lu/%lu case=%lu: %s\n", VT_UNIT, seed, shard, shards, now_case, m);
  fflush(stdout); _Exit(1);
}
struct Nontrivial {
  u32* p;
  Nontrivial() : p(new u32(0)) {}
  explicit Nontrivial(u32 v) : p(new u32(v)) {}
  Nontrivial(Nontrivial const& o) : p(new u32(*o.p)) {}
  Nontrivial(Nontrivial&& o) noexcept : p(o.p) { o.p = nullptr; }
  Nontrivial& operator=(Nontrivial const& o) { if (this != &o) { u32* q = new u32(*o.p); delete p; p = q; } return *this; }
  Nontrivial& operator=(Nontrivial&& o) noexcept { u32* q = o.p; o.p = nullptr; delete p; p = q; return *this; }
  ~Nontrivial() { delete p; }
};
struct Wide { u32 v; unsigned char pad[3]; u64 w; };
template <class T> struct Mk { static T make(u32 v) { return (T)v; } static u32 get(T const& x) { return (u32)x; } static u32 norm(u32 v) { return (u32)(T)v; } };
template <> struct Mk<Nontrivial> { static Nontrivial make(u32 v) { return Nontrivial(v); } static u32 get(Nontrivial const& x) { if (!x.p) fail("a moved-from element is visible"); return *x.p; } static u32 norm(u32 v) { return v; } };
template <> struct Mk<Wide> { static Wide make(u32 v) { Wide w{}; w.v = v; w.w = v * 3ull; return w; } static u32 get(Wide const& x) { if (x.w != x.v * 3ull) fail("an element is torn"); return x.v; } static u32 norm(u32 v) { return v; } };
using T = VT_T;
using S = boost::segmented_tree::seq<T, std::allocator<T>, VT_SEG, VT_BASE>;
using E = Mk<T>;
static const std::size_t MAX = 4000;
struct Box { S s; u32 m[MAX]; std::size_t n = 0;
  void in(std::size_t i, u32 v) { memmove(m + i + 1, m + i, (n - i) * sizeof *m); m[i] = v; ++n; }
  void out(std::size_t i, std::size_t k) { memmove(m + i, m + i + k, (n - i - k) * sizeof *m); n -= k; } };
static Box box[2];
static void look(Box& b, std::size_t i) {
  std::size_t n = b.n;
  auto it = b.s.nth(i);
  if (b.s.index_of(it) != i) fail("index_of(nth(%zu)) is %zu", i, (std::size_t)b.s.index_of(it));
  std::size_t j = below(n + 1);
  auto jt = it + ((std::ptrdiff_t)j - (std::ptrdiff_t)i);
  if (jt - it != (std::ptrdiff_t)j - (std::ptrdiff_t)i || !(jt == b.s.nth(j)) || (it < jt) != (i < j) || jt.begin() != b.s.nth(j).begin() || jt.end() != b.s.nth(j).end()) fail("a jump from %zu to %zu of %zu goes astray", i, j, n);
  if (i < n && E::get(*it) != b.m[i]) fail("element %zu of %zu is %u, expected %u", i, n, E::get(*it), b.m[i]);
  if (j < n && E::get(*jt) != b.m[j]) fail("element %zu of %zu is %u, expected %u", j, n, E::get(*jt), b.m[j]);
  if (i < n) { ++it; if (i + 1 < n && E::get(*it) != b.m[i + 1]) fail("++ from %zu", i); --it; auto a = it.after_segment(); std::size_t k = b.s.index_of(a); if (k < n && E::get(*a) != b.m[k]) fail("after_segment of %zu", i); if (it.begin() != &b.s.front()) { auto c = it.before_segment(); k = b.s.index_of(c); if (E::get(*c) != b.m[k]) fail("before_segment of %zu", i); } }
  ++reads;
}
static void all(Box& b) {
  std::size_t i = 0;
  if (b.s.size() != b.n || (b.s.height() == 0) != (b.n == 0)) fail("size() is %zu, expected %zu", (std::size_t)b.s.size(), b.n);
  for (auto& x : b.s) { if (E::get(x) != b.m[i]) fail("element %zu of %zu is %u, expected %u", i, b.n, E::get(x), b.m[i]); ++i; }
  for (auto r = b.s.rbegin(); r != b.s.rend(); ++r) { --i; if (E::get(*r) != b.m[i]) fail("reversed, element %zu of %zu", i, b.n); }
  ++reads;
}
static void history(std::size_t count) {
  bool grow = true;
  for (std::size_t k = 0; k < count; ++k) {
    Box &b = box[below(2)], &c = &b == box ? box[1] : box[0];
    ++ops;
    if (b.n > VT_MAXN) grow = false; else if (b.n == 0) grow = true; else if (below(200) == 0) grow = !grow;
    std::size_t i = below(b.n + 1);
    u32 v = E::norm((u32)rnd());
    unsigned op = (unsigned)below(40);
    if (op < 24) {
      if (grow || !b.n) { if (below(4) == 0) i = below(2) ? 0 : b.n; auto r = b.s.insert(b.s.nth(i), E::make(v)); b.in(i, v); if (E::get(*r) != v || b.s.index_of(r) != i) fail("insert at %zu of %zu", i, b.n); }
      else { i = below(b.n); if (below(4) == 0) i = below(2) ? 0 : b.n - 1; auto r = b.s.erase(b.s.nth(i)); b.out(i, 1); if (b.s.index_of(r) != i || (i < b.n && E::get(*r) != b.m[i])) fail("erase at %zu of %zu", i, b.n); }
    } else switch (op) {
      case 24: if (b.n < VT_MAXN) { std::size_t q = below(30); T x = E::make(v); b.s.insert(b.s.nth(i), q, x); for (std::size_t t = 0; t < q; ++t) b.in(i, v); } break;
      case 25: { std::size_t q = below(b.n - i + 1); if (grow) q %= 8; b.s.erase(b.s.nth(i), b.s.nth(i + q)); b.out(i, q); break; }
      case 26: if (b.n + c.n < VT_MAXN) { b.s.insert(b.s.nth(i), c.s.begin(), c.s.end()); for (std::size_t t = 0; t < c.n; ++t) b.in(i + t, c.m[t]); } break;
      case 27: { S t(c.s); b.s = t; memcpy(b.m, c.m, c.n * sizeof *c.m); b.n = c.n; break; }
      case 28: { b.s.swap(c.s); static Box t; memcpy(t.m, b.m, b.n * sizeof *b.m); memcpy(b.m, c.m, c.n * sizeof *c.m); memcpy(c.m, t.m, b.n * sizeof *b.m); std::size_t q = b.n; b.n = c.n; c.n = q; break; }
      case 29: if (below(6) == 0) { if (below(2)) b.s.clear(); else { S t(std::move(b.s)); } b.n = 0; } break;
      case 30: if (b.n + c.n < VT_MAXN) { b.s.splice(b.s.nth(i), c.s); for (std::size_t t = 0; t < c.n; ++t) b.in(i + t, c.m[t]); c.n = 0; } break;
      case 31: { b.s.reverse(); for (std::size_t x = 0, y = b.n; x + 1 < y; ++x) { --y; u32 t = b.m[x]; b.m[x] = b.m[y]; b.m[y] = t; } break; }
      case 32: { b.s.remove_if([](T const& x) { return E::get(x) % 5 == 0; }); std::size_t w = 0; for (std::size_t x = 0; x < b.n; ++x) if (b.m[x] % 5) b.m[w++] = b.m[x]; b.n = w; break; }
      case 33: if (b.n) { b.s.sort([](T const& x, T const& y) { return E::get(x) < E::get(y); }); qsort(b.m, b.n, sizeof *b.m, [](void const* x, void const* y) { u32 p = *(u32 const*)x, q = *(u32 const*)y; return p < q ? -1 : p > q; }); } break;
      case 34: if (b.n + 40 < VT_MAXN) { std::size_t q = below(40); b.s.resize(b.n + q, E::make(v)); for (std::size_t t = 0; t < q; ++t) b.in(b.n, v); } break;
      case 35: if (b.n) { b.s.pop_back(); --b.n; } break;
      case 36: if (b.n) { b.s.pop_front(); b.out(0, 1); } break;
      case 37: b.s.push_front(E::make(v)); b.in(0, v); break;
      case 38: if (b.n && i < b.n && c.n < VT_MAXN) { std::size_t j = below(c.n + 1); u32 x = b.m[i]; c.s.splice(c.s.nth(j), b.s, b.s.nth(i)); c.in(j, x); b.out(i, 1); } break;
      default: if (b.n) { T x = E::make(v); std::size_t q = below(b.n + 10); b.s.assign(q, x); for (std::size_t t = 0; t < q; ++t) b.m[t] = v; b.n = q; }
    }
    look(b, below(b.n + 1)); look(c, below(c.n + 1));
    if (k % 64 == 0) { all(b); all(c); }
  }
  for (auto& b : box) { b.s.clear(); b.n = 0; }
}
int main(int argc, char** argv) {
  for (int i = 1; i + 1 < argc; ++i) {
    if (!strcmp(argv[i], "--seed")) seed = strtoul(argv[i + 1], nullptr, 10);
    if (!strcmp(argv[i], "--shard")) shard = strtoul(argv[i + 1], nullptr, 10);
    if (!strcmp(argv[i], "--shards")) shards = strtoul(argv[i + 1], nullptr, 10);
    if (!strcmp(argv[i], "--scale")) scale = strtoul(argv[i + 1], nullptr, 10);
  }
  unsigned long cases = 0;
  for (unsigned long id = 0; id < VT_CASES * scale; ++id) {
    if (id % shards != shard) continue;
    now_case = id; state = seed * 1000003 + id * 7919; rnd();
    history(2500);
    ++cases;
  }
  printf("STAT cases %lu\nSTAT operations %lu\nSTAT uninitialised_checks %lu\n", cases, (unsigned long)ops, (unsigned long)reads);
  return 0;
}
