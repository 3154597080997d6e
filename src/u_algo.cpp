// Unit (C15): list-like algorithms over elements that carry an identity, so
// that equal elements stay distinguishable. The library's temporary buffers are
// made to fail in half of the runs (the algorithms then work in place).
#include "shape.hpp"
#include <list>
using namespace vt;
static bool no_buffer = false;
static long buffers = 0;
void* operator new(std::size_t n, std::nothrow_t const&) noexcept {
  ++buffers;
  if (no_buffer) return nullptr;
  try { return ::operator new(n); } catch (...) { return nullptr; }
}
void operator delete(void* p, std::nothrow_t const&) noexcept { ::operator delete(p); }

// Compares by key only; the identity is invisible to the library.
struct Keyed {
  Tracked t;
  explicit Keyed(u64 v) : t(v) {}
  VT_FROM_ALLOCATOR(Keyed)
  Keyed(Keyed&&) noexcept = default;
  Keyed& operator=(Keyed&&) noexcept = default;
  Keyed(Keyed const&) = default;
  Keyed& operator=(Keyed const&) = default;
  u32 key() const { return (u32)(El<Tracked>::get(t) >> 32); }
  bool operator<(Keyed const& o) const { return key() < o.key(); }
  bool operator==(Keyed const& o) const { return key() == o.key(); }
};
struct KeyedPod {
  u32 k, id;
  bool operator<(KeyedPod const& o) const { return k < o.k; }
  bool operator==(KeyedPod const& o) const { return k == o.k; }
};
struct KeyedMove {
  MoveOnly m;
  explicit KeyedMove(u64 v) : m(v) {}
  bool operator<(KeyedMove const& o) const { return (El<MoveOnly>::get(m) >> 32) < (El<MoveOnly>::get(o.m) >> 32); }
  bool operator==(KeyedMove const& o) const { return (El<MoveOnly>::get(m) >> 32) == (El<MoveOnly>::get(o.m) >> 32); }
};
namespace vt {
template <> struct El<Keyed> {
  static u64 norm(u64 v) { return v; }
  static Keyed make(u64 v) { return Keyed(v); }
  static u64 get(Keyed const& x) { return El<Tracked>::get(x.t); }
};
template <> struct El<KeyedPod> {
  static u64 norm(u64 v) { return v; }
  static KeyedPod make(u64 v) { return KeyedPod{(u32)(v >> 32), (u32)v}; }
  static u64 get(KeyedPod const& x) { return (u64)x.k << 32 | x.id; }
};
template <> struct El<KeyedMove> {
  static u64 norm(u64 v) { return v; }
  static KeyedMove make(u64 v) { return KeyedMove(v); }
  static u64 get(KeyedMove const& x) { return El<MoveOnly>::get(x.m); }
};
}
using T = VT_T;
using Al = VT_ALLOC;
using S = boost::segmented_tree::seq<T, Al, VT_SEG, VT_BASE>;
using V = View<S>;
using E = El<T>;
using It = S::iterator;
using CIt = S::const_iterator;
using Z = S::size_type;
using D = S::difference_type;

static u32 next_id;
static u64 tag(u32 key) { return (u64)key << 32 | ++next_id; }
static void fill(S& s, Model& m, Rng& rng, std::size_t n, u32 keys, int order) {
  build_shape(s, m, rng, n);
  for (std::size_t i = 0; i < m.size(); ++i) {
    u32 k = order == 0 ? (u32)rng.below(keys) : order == 1 ? (u32)(i * keys / (m.size() + 1)) : order == 2 ? (u32)((m.size() - i) * keys / (m.size() + 1)) : order == 3 ? (u32)(i / 3 % keys) : (u32)(rng.one_in(6) ? rng.below(keys) : i * keys / (m.size() + 1));
    u64 v = tag(k);
    s[(Z)i] = E::make(v); m[i] = v;
  }
}
// Strict weak orders on keys, some with many equivalents; equivalences likewise.
struct Order {
  int k; long* calls;
  u32 r(u32 x) const { return k == 0 ? x : k == 1 ? ~x : k == 2 ? x % 3 : k == 3 ? x / 4 : k == 4 ? 0 : (x * 2654435761u) >> 7; }
  bool operator()(T const& a, T const& b) const { ++*calls; return r((u32)(E::get(a) >> 32)) < r((u32)(E::get(b) >> 32)); }
  bool operator()(u64 a, u64 b) const { return r((u32)(a >> 32)) < r((u32)(b >> 32)); }
};
struct Same {
  Order o;
  bool operator()(T const& a, T const& b) const { ++*o.calls; return o.r((u32)(E::get(a) >> 32)) == o.r((u32)(E::get(b) >> 32)); }
  bool operator()(u64 a, u64 b) const { return o.r((u32)(a >> 32)) == o.r((u32)(b >> 32)); }
};
static u32 key(u64 v) { return (u32)(v >> 32); }
static bool lt(u64 a, u64 b) { return key(a) < key(b); }
static bool eq(u64 a, u64 b) { return key(a) == key(b); }

static void judge(S& s, Model const& m, Rng& rng, const char* who) {
  V::content(s, m, who);
  V::segments(s, m, who);
  V::positions(s, m, rng, 3);
  for (int k = 0; k < 2; ++k) { std::size_t i = rng.below(m.size() + 1); V::exercise(s, m, i == m.size() ? s.end() : s.nth((Z)i), i, rng, who); }
}
static void use(S& s, Model& m, Rng& rng, const char* who) {       // still fully usable
  for (int k = 0; k < 4; ++k) {
    std::size_t i = rng.below(m.size() + 1); u64 v = tag(1);
    s.insert(CIt(s.nth((Z)i)), E::make(v)); m.insert(m.begin() + (long)i, v);
    if (rng.one_in(2)) { std::size_t j = rng.below(m.size()); s.erase(CIt(s.nth((Z)j))); m.erase(m.begin() + (long)j); }
  }
  judge(s, m, rng, who);
}
static void one_case(Rng& rng) {
  arenas().reset();
  next_id = 0;
  long calls = 0;
  S s, t; Model m, o;
  u32 keys = (u32)(1 + rng.below(rng.one_in(2) ? 5 : 60));
#ifdef VT_BIG
  std::size_t big = (std::size_t)VT_BIG; const int rounds = 12;
  if (rng.one_in(2)) keys = 5000;
#else
  std::size_t big = rng.one_in(3) ? 160 : 50; const int rounds = 30;
#endif
  for (int round = 0; round < rounds; ++round) {
    int order = (int)rng.below(5);
    std::size_t n = rng.one_in(5) ? rng.below(4) : rng.below(big), k = rng.one_in(5) ? rng.below(3) : rng.below(big);
    fill(s, m, rng, n, keys, order);
    fill(t, o, rng, k, keys, (int)rng.below(5));
    no_buffer = rng.one_in(2);
    Order ord{(int)rng.below(6), &calls};
    int op = (int)rng.below(19);
#ifdef VT_BIG
    if (op == 13 || op == 16) op = 2;
    n = m.size();
    if (n > 9 && op >= 12 && rng.one_in(2)) { s.sort(ord); std::stable_sort(m.begin(), m.end(), ord); }
#endif
    step("algorithm", op, (long)m.size(), (long)o.size());
    VT_COUNT("operations");
    if (m.size()) saw(mix(mix(shape_of(s, m), (u64)op), (u64)(no_buffer + 2 * ord.k)));
    long z = ev().live;
    // iterators held over a sort or a reversal stay where they are
    std::vector<std::pair<std::size_t, It>> held;
    if (op <= 2 || op == 11)
      for (int q = 0; q < 4; ++q) { std::size_t i = q == 0 ? m.size() : rng.below(m.size() + 1); held.push_back({i, i == m.size() ? s.end() : s.nth((Z)i)}); }
    switch (op) {
      case 0: s.sort(); std::stable_sort(m.begin(), m.end(), lt); break;
      case 1: case 2: s.sort(ord); std::stable_sort(m.begin(), m.end(), ord); break;
      case 3: case 4: case 5: case 6: {
        bool dflt = op == 3, rv = op == 5 || (op == 3 && rng.one_in(2));
        if (dflt) { s.sort(); t.sort(); std::stable_sort(m.begin(), m.end(), lt); std::stable_sort(o.begin(), o.end(), lt); }
        else { s.sort(ord); t.sort(ord); std::stable_sort(m.begin(), m.end(), ord); std::stable_sort(o.begin(), o.end(), ord); }
        if (rng.one_in(8)) { t.clear(); o.clear(); } else if (rng.one_in(8)) { s.clear(); m.clear(); }
        Model r;
        if (dflt) { if (rv) s.merge(std::move(t)); else s.merge(t); std::merge(m.begin(), m.end(), o.begin(), o.end(), std::back_inserter(r), lt); }
        else { if (rv) s.merge(std::move(t), ord); else s.merge(t, ord); std::merge(m.begin(), m.end(), o.begin(), o.end(), std::back_inserter(r), ord); }
        m = r; o.clear();
        break;
      }
      case 7: s.unique(); m.erase(std::unique(m.begin(), m.end(), eq), m.end()); break;
      case 8: {
        Same q{ord};
        long before = calls;
        s.unique(q);
        VT_CHECK(calls - before == (m.size() ? (long)m.size() - 1 : 0), "predicate", "unique asks its predicate %ld times for %zu elements", calls - before, m.size());
        m.erase(std::unique(m.begin(), m.end(), q), m.end());
        break;
      }
      case 9: {
        u32 k2 = (u32)rng.below(keys + 1);
        s.remove(E::make((u64)k2 << 32 | 0xffffffff));
        m.erase(std::remove_if(m.begin(), m.end(), [k2](u64 v) { return key(v) == k2; }), m.end());
        break;
      }
      case 10: {
        u32 d = (u32)(1 + rng.below(4)), r = (u32)rng.below(d); bool all = rng.one_in(8), none = rng.one_in(8);
        std::vector<u64> asked;                                   // every element once, in no particular order
        s.remove_if([&](T const& x) { asked.push_back(E::get(x)); return all || (!none && key(E::get(x)) % d == r); });
        { Model mine = m; std::sort(mine.begin(), mine.end()); std::sort(asked.begin(), asked.end()); VT_CHECK(asked == mine, "predicate", "remove_if asks its predicate %zu times for %zu elements, or not once for each", asked.size(), m.size()); }
        m.erase(std::remove_if(m.begin(), m.end(), [&](u64 v) { return all || (!none && key(v) % d == r); }), m.end());
        break;
      }
      case 11: s.reverse(); std::reverse(m.begin(), m.end()); break;
      case 12: {
        std::size_t i = rng.below(m.size() + 1); CIt p = s.nth((Z)i);
        if (rng.one_in(2)) s.splice(p, t); else s.splice(p, std::move(t));
        m.insert(m.begin() + (long)i, o.begin(), o.end()); o.clear();
        break;
      }
      case 13: {
        if (o.empty()) break;
        std::size_t i = rng.below(m.size() + 1), j = rng.below(o.size()); CIt p = s.nth((Z)i), q = t.nth((Z)j);
        if (rng.one_in(2)) s.splice(p, t, q); else s.splice(p, std::move(t), q);
        m.insert(m.begin() + (long)i, o[j]); o.erase(o.begin() + (long)j);
        break;
      }
      case 16: {                                                  // within one sequence
        if (m.empty()) break;
        std::size_t i = rng.below(m.size() + 1), j = rng.one_in(4) ? std::min(i + rng.below(3), m.size() - 1) : rng.below(m.size());
        CIt p = s.nth((Z)i), q = s.nth((Z)j);
        VT_COUNT("self_splices");
        if (rng.one_in(2)) s.splice(p, s, q); else s.splice(p, std::move(s), q);
        u64 v = m[j]; m.insert(m.begin() + (long)i, v); m.erase(m.begin() + (long)(j + (i <= j ? 1 : 0)));
        break;
      }
      case 17: {
        std::size_t j = rng.below(m.size() + 1), l = j + rng.below(m.size() - j + 1), i = rng.below(m.size() + 1);
        if (rng.one_in(6)) j = 0; if (rng.one_in(6)) l = m.size();
        if (i >= j && i < l) i = rng.one_in(2) ? l : rng.below(j + 1);
        if (i >= j && i < l) i = l;
        CIt p = s.nth((Z)i), f = s.nth((Z)j), g = s.nth((Z)l);
        VT_COUNT("self_splices");
        if (rng.one_in(2)) s.splice(p, s, f, g); else s.splice(p, std::move(s), f, g);
        if (i <= j) std::rotate(m.begin() + (long)i, m.begin() + (long)j, m.begin() + (long)l);
        else std::rotate(m.begin() + (long)j, m.begin() + (long)l, m.begin() + (long)i);
        break;
      }
      case 18: {
        s.sort(ord); std::stable_sort(m.begin(), m.end(), ord);
        if (rng.one_in(2)) s.merge(s, ord); else s.merge(std::move(s), ord);
        if (rng.one_in(2)) { s.sort(); std::stable_sort(m.begin(), m.end(), lt); s.merge(s); }
        break;
      }
      default: {
        std::size_t i = rng.below(m.size() + 1), j = rng.below(o.size() + 1), l = j + rng.below(o.size() - j + 1);
        if (rng.one_in(4)) { j = 0; } if (rng.one_in(4)) l = o.size();
        CIt p = s.nth((Z)i), f = t.nth((Z)j), g = t.nth((Z)l);
        if (rng.one_in(2)) s.splice(p, t, f, g); else s.splice(p, std::move(t), f, g);
        m.insert(m.begin() + (long)i, o.begin() + (long)j, o.begin() + (long)l);
        o.erase(o.begin() + (long)j, o.begin() + (long)l);
      }
    }
    no_buffer = false;
    for (auto& h : held) {
      VT_CHECK(s.index_of(h.second) == h.first && h.second == s.nth((Z)h.first) && h.second - s.begin() == (S::difference_type)h.first, "iterator", "an iterator held at %zu is no longer there", h.first);
      V::same_place(s, m, h.second, h.first, "an iterator held over a sort or reversal");
      if (h.first < m.size()) VT_CHECK(E::get(*h.second) == m[h.first], "iterator", "an iterator held at %zu does not see the new order", h.first);
      VT_COUNT("held_iterators");
    }
    judge(s, m, rng, "after an algorithm");
    judge(t, o, rng, "the other sequence");
    if (z) VT_CHECK(ev().live == (long)(m.size() + o.size()), "lifetime", "%ld elements live after an algorithm, %zu expected", ev().live, m.size() + o.size());
    if (rng.one_in(3)) use(s, m, rng, "used after an algorithm");
    if (rng.one_in(3)) use(t, o, rng, "other sequence used after an algorithm");
  }
  VT_ADD("comparisons", calls);
}
int main(int argc, char** argv) {
  init(argc, argv, VT_UNIT);
  for (u64 id = 0; id < (u64)VT_CASES * st().scale; ++id) {
    if (!my_case(id)) continue;
    begin_case(id);
    Rng rng(case_seed(id));
    one_case(rng);
    arenas().expect_empty("after the sequences were destroyed");
    if (id < 2) sample(trace(8));
  }
  VT_ADD("temporary_buffers_asked", buffers);
  return finish();
}
