// Unit (C17): arguments that refer to elements of the sequence itself, at every
// pair of source and insertion position.
#include "shape.hpp"
using namespace vt;
#ifndef VT_MAXN
#define VT_MAXN 70
#endif
#ifndef VT_PICKS
#define VT_PICKS 20
#endif
using T = VT_T;
using S = boost::segmented_tree::seq<T, VT_ALLOC, VT_SEG, VT_BASE>;
using V = View<S>;
using E = El<T>;
using CIt = S::const_iterator;
using Z = S::size_type;

static bool operator_eq(T const& a, T const& b) { return peek(a) == peek(b); }
namespace vt { inline bool operator==(Tracked const& a, Tracked const& b) { return peek(a) == peek(b); }
inline bool operator==(Pod24 const& a, Pod24 const& b) { return a.a == b.a && a.b == b.b; }
inline bool operator==(CopyOnly const& a, CopyOnly const& b) { return peek(a) == peek(b); }
inline bool operator==(SelfTriv const& a, SelfTriv const& b) { return a.get() == b.get(); } }

template <class X> struct Part {         // how to reach inside an element, if one can
  template <class S> static bool emplace(S&, CIt, std::size_t) { return false; }
};
template <> struct Part<Tracked> {
  template <class S> static bool emplace(S& s, CIt p, std::size_t j) { s.emplace(p, s[(Z)j].val); return true; }
};
template <> struct Part<std::string> {
  template <class S> static bool emplace(S& s, CIt p, std::size_t j) { s.emplace(p, s[(Z)j].c_str()); return true; }
};

static void expect(S& s, Model const& m, std::size_t moved, const char* who, std::size_t i, std::size_t j) {
  std::size_t n = m.size(), k = 0;
  VT_CHECK(s.size() == n, "content", "%s: size %zu, expected %zu", who, (std::size_t)s.size(), n);
  for (auto it = s.begin(); it != s.end(); ++it, ++k) {
    if (k == moved) continue;            // its value was moved from by the caller's request
    u64 v = E::get(*it);
    VT_CHECK(v == m[k], "aliasing", "%s at %zu with element %zu: element %zu is %llu, expected %llu", who, i, j, k, (unsigned long long)v, (unsigned long long)m[k]);
  }
  VT_COUNT("operations");
}
static constexpr std::size_t none = ~(std::size_t)0;
static void one_case(Rng& rng) {
  std::size_t target = rng.one_in(3) ? rng.in(1, 6) : 1 + len_or_long(rng, VT_MAXN);
  S base; Model bm;
  build_shape(base, bm, rng, target, rng.one_in(3));
  std::size_t n = bm.size();
  if (!n) return;
  saw(shape_of(base, bm));
  for (int k = 0; k < (VT_LONG ? 1 : VT_PICKS); ++k) {
    std::size_t i = rng.below(n + 1), j = rng.below(n);
    if (rng.one_in(3)) { i = std::min(n, j + rng.below(3)); if (i && rng.one_in(3)) --i; }
    if (rng.one_in(4)) {                  // near the segment's edges
      auto it = base.nth((Z)j);
      std::size_t off = (std::size_t)(raw(it.current()) - raw(it.begin())), len = (std::size_t)(raw(it.end()) - raw(it.begin()));
      i = rng.one_in(2) ? j - off : j - off + len;
    }
    for (int op = 0; op < 15; ++op) {
      S& s = base; Model m = bm;
      u64 v = m[j];
      std::size_t cnt = rng.one_in(3) ? rng.below(3) : len_or_long(rng, 40), moved = none, len = n;
      step("alias", op, (long)i, (long)j);
      const char* who = "?";
      // The sequence is restored afterwards by erasing what was inserted.
      switch (op) {
        case 0: { who = "insert(const&)"; T const& r = s[(Z)j]; auto it = s.insert(CIt(s.nth((Z)i)), r); V::same_place(s, (m.insert(m.begin() + (long)i, v), m), it, i, who); break; }
        case 1: who = "emplace(const&)"; s.emplace(CIt(s.nth((Z)i)), const_cast<T const&>(s[(Z)j])); m.insert(m.begin() + (long)i, v); break;
        case 2: who = "emplace(&)"; s.emplace(CIt(s.nth((Z)i)), s[(Z)j]); m.insert(m.begin() + (long)i, v); break;
        case 3: who = "push_back"; i = n; { T const& r = s[(Z)j]; s.push_back(r); } m.push_back(v); break;
        case 4: who = "push_front"; i = 0; { T const& r = *s.nth((Z)j); s.push_front(r); } m.insert(m.begin(), v); break;
        case 5: who = "emplace_back"; i = n; s.emplace_back(s[(Z)j]); m.push_back(v); break;
        case 6: who = "emplace_front"; i = 0; s.emplace_front(s[(Z)j]); m.insert(m.begin(), v); break;
        case 7: { who = "insert(count)"; len = cnt; auto it = s.insert(CIt(s.nth((Z)i)), (Z)cnt, s[(Z)j]); m.insert(m.begin() + (long)i, cnt, v); V::same_place(s, m, it, i, who); break; }
        case 8: who = "resize(value)"; i = n; len = cnt; s.resize((Z)(n + cnt), s[(Z)j]); m.resize(n + cnt, v); break;
        case 9: who = "emplace(part)"; if (!Part<T>::emplace(s, s.nth((Z)i), j)) continue; m.insert(m.begin() + (long)i, v); break;
        case 10: { who = "insert(move)"; s.insert(CIt(s.nth((Z)i)), std::move(s[(Z)j])); m.insert(m.begin() + (long)i, v); moved = j + (j >= i); break; }
        case 11: { who = "push_back(move)"; i = n; s.push_back(std::move(s[(Z)j])); m.push_back(v); moved = j; break; }
        case 12: { who = "push_front(move)"; i = 0; s.push_front(std::move(s[(Z)j])); m.insert(m.begin(), v); moved = j + 1; break; }
        case 13: {
          who = "remove";
          S c(s); c.remove(c[(Z)j]);
          m.erase(std::remove(m.begin(), m.end(), v), m.end());
          expect(c, m, none, who, i, j); V::segments(c, m, who);
          continue;
        }
        default: {
          who = "resize(value) to less";
          S c(s); std::size_t z = rng.below(n + 1);
          c.resize((Z)z, c[(Z)j]); m.resize(z, v);
          expect(c, m, none, who, i, j); V::segments(c, m, who);
          continue;
        }
      }
      expect(s, m, moved, who, i, j);
      if (moved == none) V::segments(s, m, who); else s[(Z)moved] = E::make(v);
      if (op != 7 && op != 8) len = 1;
      if (VT_LONG || rng.one_in(2)) s.erase(CIt(s.nth((Z)i)), CIt(s.nth((Z)(i + len))));
      else while (len--) s.erase(CIt(s.nth((Z)i)));
      V::content(s, bm, "after undoing");
      saw(mix(mix((u64)op, i), j));
    }
  }
}
int main(int argc, char** argv) {
  init(argc, argv, VT_UNIT);
  (void)&operator_eq;
  for (u64 id = 0; id < (u64)VT_CASES * st().scale; ++id) {
    if (!my_case(id)) continue;
    begin_case(id);
    arenas().reset();
    Rng rng(case_seed(id));
    one_case(rng);
    arenas().expect_empty("after the sequence was destroyed");
    if (id < 2) sample(trace(8));
  }
  return finish();
}
