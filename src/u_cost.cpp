// Unit: the work operations do, counted in executed control-flow edges (every
// edge of the instrumented code), element relocations, bytes moved in bulk and
// allocations, and how it grows with the size of the sequence.
#include "shape.hpp"
#include <algorithm>
#include <cmath>
#include <functional>
#include <memory>
#include <numeric>

static unsigned long vt_edges, vt_bytes;
extern "C" {
__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard(uint32_t*) { ++vt_edges; }
__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
void* __real_memmove(void*, const void*, size_t);
void* __real_memcpy(void*, const void*, size_t);
__attribute__((no_sanitize("coverage"))) void* __wrap_memmove(void* a, const void* b, size_t n) { vt_bytes += n; return __real_memmove(a, b, n); }
__attribute__((no_sanitize("coverage"))) void* __wrap_memcpy(void* a, const void* b, size_t n) { vt_bytes += n; return __real_memcpy(a, b, n); }
}
using namespace vt;
using T = VT_T;
using Al = VT_ALLOC;
using S = boost::segmented_tree::seq<T, Al, VT_SEG, VT_BASE>;
using E = El<T>;
using It = S::iterator;
using CIt = S::const_iterator;
using Z = S::size_type;
using D = S::difference_type;

struct Cost { double sum = 0; unsigned long max = 0, n = 0; double mean() const { return n ? sum / (double)n : 0; } };
using Table = std::map<std::string, Cost>;
struct Meter {
  Table& t; const char* name; unsigned long e0; long m0, a0, na0;
  Meter(Table& tt, const char* nm) : t(tt), name(nm), m0(ev().relocs()), a0(arenas().get(0)->elem_allocs), na0(arenas().get(0)->node_allocs) { vt_bytes = 0; e0 = vt_edges; }
  // work done since construction, divided by `per`
  void stop(double per = 1) {
    unsigned long w = vt_edges - e0;
    Cost& c = t[name]; ++c.n; c.sum += (double)w / per; c.max = std::max(c.max, w);
    VT_COUNT("measured_calls");
    saw(mix(mix((u64)name[0] << 8 | (u64)name[1], w), (u64)per));
  }
  void single(std::size_t cap, std::size_t ht, bool may_allocate) {   // limits of one single insert or erase
    long moved = ev().relocs() - m0, segs = arenas().get(0)->elem_allocs - a0, nodes = arenas().get(0)->node_allocs - na0;
    unsigned long bytes = vt_bytes;
    VT_CHECK(moved <= (long)(3 * cap + 8), "cost", "%s relocated %ld elements (segments hold %zu)", name, moved, cap);
    VT_CHECK(bytes <= 4 * cap * sizeof(T) + 4096, "cost", "%s moved %lu bytes in bulk (segments hold %zu)", name, bytes, cap * sizeof(T));
    VT_CHECK(segs <= (may_allocate ? 1 : 0), "cost", "%s allocated %ld segments", name, segs);
    VT_CHECK(nodes <= (may_allocate ? (long)ht : 0), "cost", "%s allocated %ld index nodes at height %zu", name, nodes, ht);
  }
  void none() { VT_CHECK(arenas().get(0)->elem_allocs == a0 && arenas().get(0)->node_allocs == na0, "cost", "%s allocated memory", name); }
};
#define OP(name, per, ...) do { Meter mm_(t, name); __VA_ARGS__; mm_.stop((double)(per)); mm_.none(); } while (0)
#define OPA(name, per, ...) do { Meter mm_(t, name); __VA_ARGS__; mm_.stop((double)(per)); } while (0)

static volatile u64 sunk;
static void sink(u64 v) { sunk = v; }

static void build(S& s, std::size_t n, int how, Rng& rng) {
  s.clear();
  std::size_t half = n / 2;
  switch (how) {
    case 0: for (std::size_t i = 0; i < n; ++i) s.push_back(E::make(i)); break;
    case 1: for (std::size_t i = 0; i < n; ++i) s.insert(s.nth((Z)rng.below(i + 1)), E::make(i)); break;
    case 2: for (std::size_t i = 0; i < n; ++i) s.push_front(E::make(i)); break;
    default:
      for (std::size_t i = 0; i < n + half; ++i) s.push_back(E::make(i));
      while (s.size() > n) s.erase(s.nth((Z)rng.below(s.size())));
  }
}

static std::size_t cap_seen, node_seen;
static Table measure(std::size_t n, int how, Rng& rng) {
  Table t;
  S s, other;
  build(s, n, how, rng);
  S const& c = s;
  Arena* ar = arenas().get(0);
  std::size_t cap = ar->seg_cap;
  cap_seen = cap; node_seen = node_capacity(ar, sizeof(void*), sizeof(Z));
  const int R = 400;
  for (int k = 0; k < R; ++k) {
    std::size_t i = rng.below(n), j = rng.below(n);
    if (k < 4) i = k < 2 ? 0 : n - 1;
    OP("lookup []", 1, sink(E::get(s[(Z)i])));
    OP("lookup at", 1, sink(E::get(c.at((Z)i))));
    OP("lookup nth", 1, sink((u64)s.index_of(s.nth((Z)i))));
    OP("begin", 1, sink((u64)s.index_of(s.begin())));
    OP("end", 1, sink((u64)s.index_of(s.end())));
    OP("penultimate", 1, sink((u64)s.index_of(s.penultimate())));
    OP("front/back", 1, sink(E::get(s.front()) + E::get(s.back())));
    OP("lookup const []", 1, sink(E::get(c[(Z)i])));
    OP("lookup const nth", 1, sink((u64)c.index_of(c.nth((Z)i))));
    OP("const begin", 1, sink((u64)c.index_of(c.begin()) + (u64)c.index_of(s.cbegin())));
    OP("const end", 1, sink((u64)c.index_of(c.end()) + (u64)c.index_of(s.cend()) + (u64)c.index_of(c.cpenultimate())));
    OP("rbegin", 1, sink(E::get(*s.rbegin()) + E::get(*c.crbegin())));
    OP("rend", 1, sink((u64)(s.rend() == s.rend()) + (u64)(c.crend() == c.rend())));
    OP("const front/back", 1, sink(E::get(c.front()) + E::get(c.back())));
    It a = s.nth((Z)i), b = s.nth((Z)j);
    { CIt ca = a, cb = b; OP("#const compare", 1, sink((ca == b) + (ca != cb) * 2 + (a < cb) * 4 + (ca > cb) * 8 + (u64)(ca - b) + c.index_of(ca))); OP("const jump", 1, ca += (D)((long long)j - (long long)i)); }
    OP("#size", 1, sink(s.size() + s.height() + s.empty() + s.max_size()));
    OP("#compare", 1, sink((a == b) + (a != b) * 2 + (a < b) * 4 + (a > b) * 8 + (a <= b) * 16 + (a >= b) * 32));
    OP("#difference", 1, sink((u64)(a - b) + s.index_of(a)));
    OP("#dereference", 1, sink(E::get(*a) + (a.begin() != a.end())));
    OP("jump to any", 1, a += (D)((long long)j - (long long)i));
    a = s.nth((Z)i);
    OP("jump to end", 1, a += (D)(n - i));
    OP("jump to begin", 1, a -= (D)n);
    for (std::size_t d : {(std::size_t)1, (std::size_t)5, (std::size_t)60}) {
      a = s.nth((Z)i);
      if (i + d <= n) OP("near jump", 1, a += (D)d; a -= (D)d);
      if (i + d < n) OP("near []", 1, sink(E::get(a[(D)d])));
    }
    OP("after_segment", 1, b = a.after_segment());
    { std::size_t x = rng.below(n - s.index_of(b) + 1); OP("after_segment(n)", 1, b = a.after_segment((Z)x)); }
    b = s.penultimate();
    if (raw(b.begin()) != std::addressof(s.front())) {
      It q = b; OP("before_segment", 1, q = b.before_segment());
      std::size_t x = rng.below(s.index_of(q) + 1); OP("before_segment(n)", 1, q = b.before_segment((Z)x));
    }
    { It q = s.nth((Z)i); if (raw(q.begin()) != std::addressof(s.front())) { It w = q; OP("before_segment mid", 1, w = q.before_segment(0)); sink((u64)s.index_of(w)); } }
  }
  // traversals: amortised per element
  { It a = s.begin(), e = s.end(); std::size_t k = 0; OP("traverse ++", n, for (; a != e; ++a) ++k); VT_CHECK(k == n, "content", "traversal of %zu visits %zu", n, k); }
  { It a = s.end(), e = s.begin(); std::size_t k = 0; OP("traverse --", n, for (; a != e; --a) ++k); VT_CHECK(k == n, "content", "backward traversal of %zu visits %zu", n, k); }
  { It a = s.begin(); std::size_t k = 0; OP("traverse +=1", n, for (; k < n; ++k) a += 1); }
  { It a = s.end(); std::size_t k = 0; OP("traverse -=1", n, for (; k < n; ++k) a -= 1); }
  { It a = s.begin(); OP("segment walk", n, while (s.index_of(a) != n) a.move_after_segment()); }
  { It a = s.penultimate(); auto* f = std::addressof(s.front()); OP("segment walk back", n, while (raw(a.begin()) != f) a.move_before_segment()); }
  { u64 x = 0; OP("range for", n, for (auto const& e : c) x += E::get(e)); sink(x); }
  { It a = s.nth((Z)(n / 2)); OP("#swap", 1, s.swap(other)); OP("#swap back", 1, swap(s, other)); sink(E::get(*a)); }
  { Meter mm(t, "#move construct"); S moved(std::move(s)); mm.stop(); mm.none(); Meter m2(t, "#move assign"); s = std::move(moved); m2.stop(); m2.none(); }
  { Al al = s.get_allocator(); Meter mm(t, "#move construct, same allocator"); S moved(std::move(s), al); mm.stop(); mm.none(); Meter m2(t, "#move construct back"); S again(std::move(moved), al); m2.stop(); m2.none(); s.swap(again); }
  { OP("#get_allocator", 1, sink((u64)(s.get_allocator() == other.get_allocator()))); }
  // single insertions and erasures
  for (int k = 0; k < R; ++k) {
    std::size_t i = rng.below(s.size() + 1), ht = s.height();
    T x = E::make((u64)k);
    CIt p = s.nth((Z)i);
    { Meter mm(t, "insert"); s.insert(p, std::move(x)); mm.stop(); mm.single(cap, ht, true); }
    { Meter mm(t, "emplace"); s.emplace(s.nth((Z)rng.below(s.size())), E::make(1)); mm.stop(); mm.single(cap, ht + 1, true); }
    ht = s.height();
    { Meter mm(t, "push_back"); s.push_back(E::make(1)); mm.stop(); mm.single(cap, ht, true); }
    ht = s.height();
    { Meter mm(t, "push_front"); s.push_front(E::make(1)); mm.stop(); mm.single(cap, ht, true); }
    for (int q = 0; q < 2; ++q) {
      p = s.nth((Z)rng.below(s.size()));
      Meter mm(t, "erase"); s.erase(p); mm.stop(); mm.single(cap, ht, false);
    }
    { Meter mm(t, "pop_back"); s.pop_back(); mm.stop(); mm.single(cap, ht, false); }
    { Meter mm(t, "pop_front"); s.pop_front(); mm.stop(); mm.single(cap, ht, false); }
  }
  // the same place over and over: no run of calls may make single calls expensive
  for (int where = 0; where < 3; ++where)
    for (int k = 0; k < 3 * (int)cap + 30; ++k) {
      std::size_t ht = s.height(), i = where == 0 ? 0 : where == 1 ? s.size() - 1 : s.size() / 2;
      Meter mm(t, "erase in place"); s.erase(s.nth((Z)i)); mm.stop(); mm.single(cap, ht, false);
    }
  for (int where = 0; where < 3; ++where)
    for (int k = 0; k < 3 * (int)cap + 30; ++k) {
      std::size_t ht = s.height(), i = where == 0 ? 0 : where == 1 ? s.size() : s.size() / 2;
      Meter mm(t, "insert in place"); s.emplace(s.nth((Z)i), E::make(1)); mm.stop(); mm.single(cap, ht, true);
    }
  // a few elements at a time: no more than that many single operations
  for (int k = 0; k < 120; ++k) {
    std::size_t few = 1 + rng.below(12), at = rng.below(s.size() - 14);
    other.clear();
    for (std::size_t q = 0; q < 12; ++q) other.push_back(E::make(q));
    { CIt p = s.nth((Z)at), q = s.nth((Z)(at + few)); OP("erase few", 1, s.erase(p, q)); }
    at = rng.below(s.size());
    { CIt p = s.nth((Z)at), f = other.begin(), l = other.nth((Z)few); OPA("insert few", 1, s.insert(p, f, l)); }
    { CIt p = s.nth((Z)rng.below(s.size())); T x = E::make(5); OPA("insert few copies", 1, s.insert(p, (Z)few, x)); }
    OP("resize few down", 1, s.resize(s.size() - (Z)few));
    { T x = E::make(5); OPA("resize few up", 1, s.resize(s.size() + (Z)few, x)); }
    OP("resize back", 1, s.resize(s.size() - (Z)few));
    { CIt p = s.nth((Z)rng.below(s.size())), q = other.nth((Z)rng.below(other.size())); OPA("splice one in", 1, s.splice(p, other, q)); }
    { CIt p = other.nth((Z)rng.below(other.size())), q = s.nth((Z)rng.below(s.size())); OPA("splice one out", 1, other.splice(p, s, q)); }
    { std::size_t b = rng.below(s.size() - 14); CIt p = other.nth((Z)rng.below(other.size())), q = s.nth((Z)b), r = s.nth((Z)(b + few)); OPA("splice few out", 1, other.splice(p, s, q, r)); }
    { CIt p = s.nth((Z)rng.below(s.size())), q = s.nth((Z)rng.below(s.size())); OPA("splice one within", 1, s.splice(p, s, q)); }
    OPA("splice all in", 1, s.splice(s.nth((Z)rng.below(s.size())), other));
    if constexpr (std::is_arithmetic<T>::value) OP("#unequal ==", 1, sink(s == other));
    while (s.size() < n) s.push_back(E::make(1));
    while (s.size() > n) s.pop_back();
  }
  n = s.size();
  // algorithms: per element; and how often they call back
  {
    std::size_t calls = 0;
    auto less = [&](T const& a, T const& b) { ++calls; return E::get(a) < E::get(b); };
    auto same = [&](T const& a, T const& b) { ++calls; return E::get(a) == E::get(b); };
    double lg = std::log2((double)n);
    S x;
    auto fill = [&](S& w, std::size_t k, auto key) { w.clear(); for (std::size_t q = 0; q < k; ++q) w.push_back(E::make((u64)key(q))); };
    // inputs that algorithms for special cases tend to get wrong
    struct Shape { const char* name; std::function<u64(std::size_t)> key; };
    const std::size_t q4 = n / 4, rt = (std::size_t)std::sqrt((double)n), off = rng.in(1, n - 1), lone = rng.below(n);
    const u64 salt = rng.next();
    const std::vector<Shape> shapes = {
      {"random", [&](std::size_t q) { return mix(salt, q) % n; }},
      {"sorted", [&](std::size_t q) { return q; }},
      {"reversed", [&](std::size_t q) { return n - q; }},
      {"rotated", [&](std::size_t q) { return (q + n / 2) % n; }},
      {"rotated anywhere", [&](std::size_t q) { return (q + off) % n; }},
      {"four runs", [&](std::size_t q) { return (q % q4) * 4 + (q / q4) * 7 % 4; }},
      {"four runs exchanged", [&](std::size_t q) { return q % q4 + (3 - q / q4 % 4) * q4; }},
      {"runs of sqrt(n)", [&](std::size_t q) { return q % rt * rt + q / rt; }},
      {"runs of sqrt(n) backwards", [&](std::size_t q) { return n - q / rt * rt + q % rt; }},
      {"organ pipe", [&](std::size_t q) { return q < n / 2 ? q : n - q; }},
      {"valley", [&](std::size_t q) { return q < n / 2 ? n - q : q; }},
      {"interleaved", [&](std::size_t q) { return q % 2 ? n / 2 + q / 2 : q / 2; }},
      {"zigzag", [&](std::size_t q) { return q % 2 ? n - q : q; }},
      {"pairs swapped", [&](std::size_t q) { return q ^ 1; }},
      {"constant", [&](std::size_t) { return 7; }},
      {"two values", [&](std::size_t q) { return mix(salt, q) % 2; }},
      {"two values in blocks", [&](std::size_t q) { return q < n / 2; }},
      {"sorted, the end random", [&](std::size_t q) { return q + rt < n ? q : mix(salt, q) % n; }},
      {"sorted, the start random", [&](std::size_t q) { return q > rt ? q : mix(salt, q) % n; }},
      {"sorted, one far too late", [&](std::size_t q) { return q == n - 1 ? 0 : q + 1; }},
      {"sorted, one far too early", [&](std::size_t q) { return q == 0 ? n : q - 1; }},
      {"sorted, some misplaced", [&](std::size_t q) { return q % (rt * 2) == 3 ? mix(salt, q) % n : q; }},
      {"sorted, one misplaced", [&](std::size_t q) { return q == lone ? n / 3 : q; }},
    };
    const bool all = n < 200000;
    const std::size_t pick[] = {0, 1, 3 + rng.below(8), 11 + rng.below(12), 3};
    for (std::size_t k = 0; k < shapes.size(); ++k) {
      if (!all && std::find(std::begin(pick), std::end(pick), k) == std::end(pick)) continue;
      fill(x, n, shapes[k].key);
      calls = 0;
      const std::string nm = shapes[k].name, ns = "sort, " + nm, nr = "remove_if, " + nm, nu = "unique, " + nm;
      { Meter m(t, ns.c_str()); x.sort(less); m.stop((double)n * lg); }
      VT_CHECK((double)calls <= (double)n * lg * 1.5 + (double)n, "cost", "sort of %zu elements (%s) makes %zu comparisons", n, shapes[k].name, calls);
      VT_COUNT("sorted_inputs");
      fill(x, n, shapes[k].key);
      calls = 0;
      { Meter m(t, nr.c_str()); x.remove_if([&](T const& e) { ++calls; return E::get(e) < n / 2; }); m.stop((double)n); m.none(); }
      VT_CHECK(calls <= n, "cost", "remove_if of %zu elements (%s) calls its predicate %zu times", n, shapes[k].name, calls);
      fill(x, n, shapes[k].key);
      calls = 0;
      { Meter m(t, nu.c_str()); x.unique([&](T const& a, T const& b) { ++calls; return E::get(a) / 2 == E::get(b) / 2; }); m.stop((double)n); m.none(); }
      VT_CHECK(calls <= n, "cost", "unique of %zu elements (%s) makes %zu comparisons", n, shapes[k].name, calls);
    }
    // two sorted sequences of all proportions, apart, interleaved and equal
    struct Pair { const char* name; std::size_t p, q; std::function<u64(std::size_t)> l, r; };
    const std::size_t h = n / 2;
    const std::vector<Pair> pairs = {
      {"before", h, h, [&](std::size_t k) { return h + k; }, [&](std::size_t k) { return k; }},
      {"after", h, h, [&](std::size_t k) { return k; }, [&](std::size_t k) { return h + k; }},
      {"interleaved", h, h, [&](std::size_t k) { return 2 * k; }, [&](std::size_t k) { return 2 * k + 1; }},
      {"interleaved blocks", h, h, [&](std::size_t k) { return k / rt * 2 * rt + k % rt; }, [&](std::size_t k) { return k / rt * 2 * rt + rt + k % rt; }},
      {"inside", h, h, [&](std::size_t k) { return k < h / 2 ? k : k + n; }, [&](std::size_t k) { return h + k; }},
      {"equal", h, h, [&](std::size_t) { return 3; }, [&](std::size_t) { return 3; }},
      {"few into many", n - rt, rt, [&](std::size_t k) { return k; }, [&](std::size_t k) { return k * rt; }},
      {"many into few", rt, n - rt, [&](std::size_t k) { return k * rt; }, [&](std::size_t k) { return k; }},
    };
    for (auto& pr : pairs) {
      if (!all && !rng.one_in(4)) continue;
      S y;
      fill(x, pr.p, pr.l); fill(y, pr.q, pr.r);
      calls = 0;
      std::size_t z = pr.p + pr.q;
      { const std::string nm = std::string("merge, ") + pr.name; Meter m(t, nm.c_str()); x.merge(y, less); m.stop((double)z); }
      VT_CHECK(calls <= z, "cost", "merge of %zu and %zu elements (%s) makes %zu comparisons", pr.p, pr.q, pr.name, calls);
      VT_COUNT("merged_inputs");
    }
    fill(x, n, [&](std::size_t q) { return mix(salt, q) % n; });
    { Meter m(t, "reverse"); x.reverse(); m.stop((double)n); m.none(); }
    { Meter m(t, "sort"); x.sort(less); m.stop((double)n * lg); }
    { Meter m(t, "sort sorted"); x.sort(less); m.stop((double)n * lg); }
    S y(x.begin(), x.nth((Z)(n / 2)));
    calls = 0;
    { std::size_t z = n + y.size(); Meter m(t, "merge"); x.merge(y, less); m.stop((double)z);
      VT_CHECK(calls <= z, "cost", "merge of %zu elements makes %zu comparisons", z, calls); VT_CHECK(x.size() == z && y.empty(), "content", "merge of %zu elements leaves %zu and %zu", z, (std::size_t)x.size(), (std::size_t)y.size()); }
    calls = 0;
    { std::size_t z = x.size(); Meter m(t, "unique"); x.unique(same); m.stop((double)z); m.none(); VT_CHECK(calls <= z, "cost", "unique of %zu elements makes %zu comparisons", z, calls); }
    calls = 0;
    { std::size_t z = x.size(); Meter m(t, "remove_if"); x.remove_if([&](T const& e) { ++calls; return E::get(e) % 3 == 0; }); m.stop((double)z); m.none(); VT_CHECK(calls <= z, "cost", "remove_if of %zu elements calls its predicate %zu times", z, calls); }
  }
  // whole-sequence operations: per element
  { T x = E::make(3); std::unique_ptr<S> q; { Meter m(t, "fill construct"); q.reset(new S((Z)n, x)); m.stop((double)n); } { Meter m(t, "destroy"); q.reset(); m.stop((double)n); m.none(); }
    { Meter m(t, "range construct"); q.reset(new S(s.begin(), s.end())); m.stop((double)n); }
    { Meter m(t, "range assign"); q->assign(s.begin(), s.end()); m.stop((double)n); m.none(); }
    { Meter m(t, "range assign half"); q->assign(s.begin(), s.nth((Z)(n / 2))); m.stop((double)n); m.none(); } }
  { Meter mm(t, "copy"); S copy(s); mm.stop((double)n); Meter m2(t, "==" ); sink(std::equal(copy.begin(), copy.end(), s.begin(), [](T const& a, T const& b) { return E::get(a) == E::get(b); })); m2.stop((double)n); m2.none();
    { Meter m3(t, "copy assign"); copy = s; m3.stop((double)n); m3.none(); }
    { std::size_t at = n / 3, k = n / 4; Meter m4(t, "erase range"); copy.erase(copy.nth((Z)at), copy.nth((Z)(at + k))); m4.stop((double)k); m4.none();
      Meter m5(t, "insert range"); copy.insert(copy.nth((Z)at), s.nth((Z)at), s.nth((Z)(at + k))); m5.stop((double)k); }
    { std::size_t k = n / 4; T x = E::make(7); Meter m6(t, "insert count"); copy.insert(copy.nth((Z)(n / 2)), (Z)k, x); m6.stop((double)k); }
    { Meter m7(t, "resize down"); copy.resize((Z)(n / 2)); m7.stop((double)n / 2); m7.none(); }
    { Meter m7(t, "resize up"); copy.resize((Z)n); m7.stop((double)n / 2); }
    { T x = E::make(7); Meter m8(t, "assign"); copy.assign((Z)n, x); m8.stop((double)n); }
    { Meter m9(t, "splice"); S src(s); Meter mA(t, "splice whole"); copy.splice(copy.nth((Z)(n / 2)), src); mA.stop((double)n); }
    { Meter mB(t, "clear"); copy.clear(); mB.stop((double)n); mB.none(); }
  }
  long& mh = ctr("max_height"); mh = std::max<long>(mh, (long)s.height());
  return t;
}

int main(int argc, char** argv) {
  init(argc, argv, VT_UNIT);
  for (u64 id = 0; id < 4 * st().scale; ++id) {
    if (!my_case(id)) continue;
    begin_case(id);
    watchdog(300);
    arenas().reset();
    Rng rng(case_seed(id));
    const std::size_t small = VT_SMALL, large = VT_LARGE;
    step("measure", (long)small); Table a = measure(small, (int)(id % 4), rng);
    step("measure", (long)large); Table b = measure(large, (int)(id % 4), rng);
    const std::size_t B = node_seen;
    for (auto& k : b) {
      Cost &x = a[k.first], &y = k.second;
      bool constant = k.first[0] == '#';
      // constant: same work; traversal and short moves: the same amortised work; otherwise a few times the work of a sequence
      // large/small (64 times or more) smaller. Linear work would be 64 times it.
      bool walk = k.first.compare(0, 8, "traverse") == 0 || k.first.compare(0, 12, "segment walk") == 0 || k.first == "range for";
      bool near = k.first.compare(0, 4, "near") == 0 || k.first == "after_segment" || (k.first.compare(0, 14, "before_segment") == 0 && k.first.find('(') == std::string::npos);
      bool per = x.n == 1 && !constant;
      double lm = constant ? x.mean() * 1.5 + 4 : walk ? x.mean() * 1.25 + 1 : near ? x.mean() * 1.4 + 4 : per ? x.mean() * 3 + 20 : x.mean() * 3 + 100 + 2 * (double)B;
      double lx = constant ? (double)x.max * 1.5 + 4 : (double)x.max * 3 + 300 + 4 * (double)(cap_seen + B);
      if (getenv("VT_SHOW")) printf("%-20s small %.1f max %lu   large %.1f max %lu  (n=%lu)\n", k.first.c_str(), x.mean(), x.max, y.mean(), y.max, y.n);
      VT_CHECK(x.n > 0, "cost", "%s not measured", k.first.c_str());
      VT_CHECK(y.mean() <= lm, "cost", "%s: mean work grows from %.1f edges at %zu elements to %.1f at %zu", k.first.c_str(), x.mean(), small, y.mean(), large);
      if (!per) VT_CHECK((double)y.max <= lx, "cost", "%s: largest work of one call grows from %lu edges at %zu elements to %lu at %zu", k.first.c_str(), x.max, small, y.max, large);
      VT_COUNT("growth_comparisons");
    }
    if (id < 3) { char s[160]; snprintf(s, sizeof s, "built by method %d: insert costs %.0f edges at %zu elements, %.0f at %zu; lookup %.0f and %.0f", (int)(id % 4), a["insert"].mean(), small, b["insert"].mean(), large, a["lookup nth"].mean(), b["lookup nth"].mean()); sample(s); }
    arenas().expect_empty("after the measurements");
  }
  return finish();
}
