// Unit (C21): what every operation may copy, move or default-construct.
#include "shape.hpp"
#include <list>
using namespace vt;
#ifndef VT_MAXN
#define VT_MAXN 90
#endif
using T = VT_T;                          // Tracked, NoDefault or MoveOnly: all count their events
using S = boost::segmented_tree::seq<T, VT_ALLOC, VT_SEG, VT_BASE>;
using V = View<S>;
using E = El<T>;
using CIt = S::const_iterator;
using Z = S::size_type;
static constexpr bool copyable = std::is_copy_constructible<T>::value;
static constexpr bool dflt = std::is_default_constructible<T>::value;

struct Meter {
  long copies, defaults;
  Meter() : copies(ev().copies()), defaults(ev().dflt) {}
  // lo..hi copies and exactly this many default constructions, or none at all
  void expect(const char* who, long lo, long hi, long defs = 0) const {
    long c = ev().copies() - copies, d = ev().dflt - defaults;
    VT_CHECK(c >= lo && c <= hi, "copies", "%s made %ld copies, %ld to %ld are needed", who, c, lo, hi);
    VT_CHECK(defs ? d >= defs : d == 0, "copies", "%s made %ld default constructions", who, d);
    VT_COUNT("operations");
  }
};
static bool less(T const& a, T const& b) { return E::get(a) < E::get(b); }
static bool same(T const& a, T const& b) { return E::get(a) % 3 == E::get(b) % 3; }

namespace vt {   // for the overloads that take no function
static bool operator<(T const& a, T const& b) { return E::get(a) < E::get(b); }
static bool operator==(T const& a, T const& b) { return E::get(a) == E::get(b); }
}

static void one_case(Rng& rng) {
  S s, t; Model m, o;
  for (int round = 0; round < (VT_LONG ? 1 : 12); ++round) {
    std::size_t target = rng.one_in(4) ? rng.below(4) : len_or_long(rng, VT_MAXN);
    build_shape(s, m, rng, target);
    build_shape(t, o, rng, rng.one_in(4) ? 0 : len_or_long(rng, 50));
    if (m.size()) saw(mix(shape_of(s, m), (u64)round));
    // single operations and the transfers keep the sequence in use
    for (int k = 0; k < 40; ++k) {
      std::size_t n = m.size(), i = rng.below(n + 1), q = rng.one_in(4) ? rng.below(3) : len_or_long(rng, 30);
      u64 v = E::norm(rng.next());
      int op = (int)rng.below(44);
      step("op", op, (long)n, (long)i);
      CIt p = s.nth((Z)i);
      T x = E::make(v);
      std::vector<u64> vs; for (std::size_t z = 0; z < q; ++z) vs.push_back(E::norm(rng.next()));
      saw(mix(mix((u64)op, s.height()), mix(i, n)));
      switch (op) {
        case 0: if constexpr (copyable) { T const& c = x; Meter z; s.insert(p, c); z.expect("insert(const&)", 1, 2); m.insert(m.begin() + (long)i, v); } break;
        case 1: if constexpr (copyable) { T const& c = x; Meter z; s.push_back(c); z.expect("push_back(const&)", 1, 2); m.push_back(v); } break;
        case 2: if constexpr (copyable) { T const& c = x; Meter z; s.push_front(c); z.expect("push_front(const&)", 1, 2); m.insert(m.begin(), v); } break;
        case 3: { Meter z; s.insert(p, std::move(x)); z.expect("insert(&&)", 0, 0); m.insert(m.begin() + (long)i, v); break; }
        case 4: { Meter z; s.push_back(std::move(x)); z.expect("push_back(&&)", 0, 0); m.push_back(v); break; }
        case 5: { Meter z; s.push_front(std::move(x)); z.expect("push_front(&&)", 0, 0); m.insert(m.begin(), v); break; }
        case 6: { Meter z; s.emplace(p, v); z.expect("emplace", 0, 0); m.insert(m.begin() + (long)i, v); break; }
        case 7: { Meter z; s.emplace_back(v); z.expect("emplace_back", 0, 0); m.push_back(v); break; }
        case 8: { Meter z; s.emplace_front(v); z.expect("emplace_front", 0, 0); m.insert(m.begin(), v); break; }
        case 9: { Meter z; s.emplace(p, std::move(x)); z.expect("emplace(&&)", 0, 0); m.insert(m.begin() + (long)i, v); break; }
        case 10: case 11: if (i < n) { Meter z; s.erase(p); z.expect("erase", 0, 0); m.erase(m.begin() + (long)i); } break;
        case 12: if (n) { Meter z; s.pop_back(); z.expect("pop_back", 0, 0); m.pop_back(); } break;
        case 13: if (n) { Meter z; s.pop_front(); z.expect("pop_front", 0, 0); m.erase(m.begin()); } break;
        case 14: { std::size_t l = i + rng.below(n - i + 1); Meter z; s.erase(p, CIt(s.nth((Z)l))); z.expect("erase(range)", 0, 0); m.erase(m.begin() + (long)i, m.begin() + (long)l); break; }
        case 15: if constexpr (copyable) { Meter z; s.insert(p, (Z)q, x); z.expect("insert(count)", (long)q, (long)q + 1); m.insert(m.begin() + (long)i, q, v); } break;
        case 16: if constexpr (copyable) {
          std::list<T> l; for (u64 e : vs) l.push_back(E::make(e));
          Meter z; s.insert(p, l.begin(), l.end()); z.expect("insert(range)", (long)q, (long)q + 1); m.insert(m.begin() + (long)i, vs.begin(), vs.end());
        } break;
        case 17: {
          std::list<T> l; for (u64 e : vs) l.push_back(E::make(e));
          Meter z; s.insert(p, std::make_move_iterator(l.begin()), std::make_move_iterator(l.end())); z.expect("insert(moved range)", 0, 0); m.insert(m.begin() + (long)i, vs.begin(), vs.end());
          break;
        }
        case 18: if constexpr (dflt) { std::size_t w = n + q; Meter z; s.resize((Z)w); z.expect("resize", 0, 0, (long)q); m.resize(w, 0); } break;
        case 19: if constexpr (copyable) { std::size_t w = rng.one_in(3) ? n / 2 : n + q; Meter z; s.resize((Z)w, x); z.expect("resize(value)", w > n ? (long)(w - n) : 0, w > n ? (long)(w - n) + 1 : 1); m.resize(w, v); } break;
        case 20: { std::size_t c = o.size(); Meter z; if (rng.one_in(2)) s.splice(p, t); else s.splice(p, std::move(t)); z.expect("splice(all)", 0, 0); (void)c; m.insert(m.begin() + (long)i, o.begin(), o.end()); o.clear(); break; }
        case 21: if (!o.empty()) { std::size_t j = rng.below(o.size()); CIt f = t.nth((Z)j); Meter z; if (rng.one_in(2)) s.splice(p, t, f); else s.splice(p, std::move(t), f); z.expect("splice(one)", 0, 0); m.insert(m.begin() + (long)i, o[j]); o.erase(o.begin() + (long)j); } break;
        case 22: { std::size_t j = rng.below(o.size() + 1), l = j + rng.below(o.size() - j + 1); CIt f = t.nth((Z)j), g = t.nth((Z)l); Meter z; if (rng.one_in(2)) s.splice(p, t, f, g); else s.splice(p, std::move(t), f, g); z.expect("splice(range)", 0, 0); m.insert(m.begin() + (long)i, o.begin() + (long)j, o.begin() + (long)l); o.erase(o.begin() + (long)j, o.begin() + (long)l); break; }
        case 23: { Meter z; s.sort(less); z.expect("sort", 0, 0); std::stable_sort(m.begin(), m.end()); break; }
        case 24: { Meter z; s.reverse(); z.expect("reverse", 0, 0); std::reverse(m.begin(), m.end()); break; }
        case 25: { Meter z; s.unique(same); z.expect("unique", 0, 0); m.erase(std::unique(m.begin(), m.end(), [](u64 a, u64 b) { return a % 3 == b % 3; }), m.end()); break; }
        case 26: { Meter z; s.remove_if([](T const& e) { return E::get(e) % 5 == 2; }); z.expect("remove_if", 0, 0); m.erase(std::remove_if(m.begin(), m.end(), [](u64 e) { return e % 5 == 2; }), m.end()); break; }
        case 27: {
          s.sort(less); t.sort(less); std::stable_sort(m.begin(), m.end()); std::stable_sort(o.begin(), o.end());
          Meter z; if (rng.one_in(2)) s.merge(t, less); else s.merge(std::move(t), less); z.expect("merge", 0, 0);
          Model r; std::merge(m.begin(), m.end(), o.begin(), o.end(), std::back_inserter(r)); m = r; o.clear();
          break;
        }
        case 28: { Meter z; s.swap(t); z.expect("swap", 0, 0); m.swap(o); break; }
        case 29: { Meter z; S d(std::move(s)); s = std::move(d); z.expect("moves", 0, 0); break; }
        case 30: if constexpr (copyable) { Meter z; S d(s); z.expect("copy construction", (long)n, (long)n); V::content(d, m, "a copy"); } break;
        case 31: if constexpr (copyable) { Meter z; t = s; z.expect("copy assignment", (long)n, (long)n + 1); o = m; } break;
        case 32: if constexpr (copyable) {
          std::list<T> l; for (u64 e : vs) l.push_back(E::make(e));
          if (rng.one_in(2)) { Meter z; t.assign(l.begin(), l.end()); z.expect("assign(range)", (long)q, (long)q + 1); }
          else { Meter z; S d(l.begin(), l.end()); z.expect("construction(range)", (long)q, (long)q + 1); t = std::move(d); }
          o = vs;
        } break;
        case 33: if constexpr (copyable) {
          if (rng.one_in(2)) { Meter z; t.assign((Z)q, x); z.expect("assign(count)", (long)q, (long)q + 1); }
          else { Meter z; S d((Z)q, x); z.expect("construction(count)", (long)q, (long)q + 1); t = std::move(d); }
          o.assign(q, v);
        } break;
        case 34: {
          std::list<T> l; for (u64 e : vs) l.push_back(E::make(e));
          if (rng.one_in(2)) { Meter z; t.assign(std::make_move_iterator(l.begin()), std::make_move_iterator(l.end())); z.expect("assign(moved range)", 0, 0); }
          else { Meter z; S d(std::make_move_iterator(l.begin()), std::make_move_iterator(l.end())); z.expect("construction(moved range)", 0, 0); t = std::move(d); }
          o = vs;
          break;
        }
        // between allocators that are not equal, elements are moved one by one
        case 36: case 37: {
          Arena* far = arenas().get(1);
          auto al = VT_ALLOC(far);
          { Meter z; S u(std::move(s), al); z.expect("move construction with another allocator", 0, 0); V::content(u, m, "moved to another allocator");
            Meter y; if (rng.one_in(2)) { s = std::move(u); y.expect("move assignment from another allocator", 0, 0); } else { S w(std::move(u), s.get_allocator()); s.swap(w); y.expect("moved back", 0, 0); } }
          break;
        }
        case 38: {
          S u(VT_ALLOC(arenas().get(1))); Model um;
          build_shape(u, um, rng, q);
          std::size_t j = rng.below(um.size() + 1), l = j + rng.below(um.size() - j + 1);
          switch (rng.below(3)) {
            case 0: { Meter z; s.splice(p, u); z.expect("splice(all) from another allocator", 0, 0); j = 0; l = um.size(); break; }
            case 1: { if (j == um.size()) { l = j; break; } CIt f = u.nth((Z)j); Meter z; s.splice(p, std::move(u), f); z.expect("splice(one) from another allocator", 0, 0); l = j + 1; break; }
            default: { CIt f = u.nth((Z)j), g = u.nth((Z)l); Meter z; s.splice(p, u, f, g); z.expect("splice(range) from another allocator", 0, 0); }
          }
          m.insert(m.begin() + (long)i, um.begin() + (long)j, um.begin() + (long)l);
          um.erase(um.begin() + (long)j, um.begin() + (long)l);
          V::content(u, um, "the source of a splice");
          break;
        }
        case 39: {
          S u(VT_ALLOC(arenas().get(1))); Model um;
          build_shape(u, um, rng, q);
          s.sort(less); u.sort(less); std::stable_sort(m.begin(), m.end()); std::stable_sort(um.begin(), um.end());
          Meter z; if (rng.one_in(2)) s.merge(u, less); else s.merge(std::move(u), less); z.expect("merge from another allocator", 0, 0);
          Model r; std::merge(m.begin(), m.end(), um.begin(), um.end(), std::back_inserter(r)); m = r;
          VT_CHECK(u.empty(), "content", "the source of a merge is not empty");
          break;
        }
        case 40: { s.sort(); std::stable_sort(m.begin(), m.end()); Meter z; s.sort(); z.expect("sort()", 0, 0); break; }
        case 41: { for (std::size_t w = 1; w < n; w += 2) if (rng.one_in(2)) { m[w] = m[w - 1]; s[(Z)w] = E::make(m[w]); } Meter z; s.unique(); z.expect("unique()", 0, 0); m.erase(std::unique(m.begin(), m.end()), m.end()); break; }
        case 42: if (n) {
          std::size_t f = rng.below(n);
          for (std::size_t w = 0; w < n; w += 1 + rng.below(9)) { m[w] = m[f]; s[(Z)w] = E::make(m[w]); }
          u64 gone = m[f];
          T y = E::make(gone);
          T const& c = y;
          Meter z; s.remove(c); z.expect("remove", 0, 0); m.erase(std::remove(m.begin(), m.end(), gone), m.end());
        } break;
        case 43: {
          s.sort(); t.sort(); std::stable_sort(m.begin(), m.end()); std::stable_sort(o.begin(), o.end());
          Meter z; if (rng.one_in(2)) s.merge(t); else s.merge(std::move(t)); z.expect("merge()", 0, 0);
          Model r; std::merge(m.begin(), m.end(), o.begin(), o.end(), std::back_inserter(r)); m = r; o.clear();
          break;
        }
        default: {
          if constexpr (dflt) { Meter z; S d((Z)q); z.expect("construction(size)", 0, 0, (long)q); VT_CHECK(d.size() == q, "content", "size"); }
          Meter z;
          S const& c = s;
          for (std::size_t w = 0; w < n; w += 7) { (void)s.at((Z)w); (void)c[(Z)w]; auto it = c.nth((Z)w); (void)c.index_of(it); ++it; }
          if (rng.one_in(6)) { s.clear(); m.clear(); }
          z.expect("reading or clear", 0, 0);
        }
      }
      if (m.size() > 200 + 3 * VT_LONG) { s.erase(CIt(s.nth(60)), CIt(s.end())); m.resize(60); }
      if (k % 8 == 0) { V::content(s, m, "after an operation"); V::content(t, o, "the other sequence"); }
    }
  }
}
int main(int argc, char** argv) {
  init(argc, argv, VT_UNIT);
  for (u64 id = 0; id < (u64)VT_CASES * st().scale; ++id) {
    if (!my_case(id)) continue;
    begin_case(id);
    arenas().reset();
    Rng rng(case_seed(id));
    one_case(rng);
    arenas().expect_empty("after the sequences were destroyed");
    VT_CHECK(ev().live == 0, "lifetime", "%ld elements alive at the end of a case", ev().live);
    if (id < 2) sample(trace(8));
  }
  return finish();
}
