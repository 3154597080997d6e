// Oracles over one sequence and its model: contents, positions, iterators,
// segment view, occupancy. Uses the public interface and allocator
// observations only.
#pragma once
#include "alloc.hpp"
#include <type_traits>

namespace vt {
using Model = std::vector<u64>;

template <class T> T* raw(T* p) { return p; }
template <class T> T* raw(Ptr<T> const& p) { return p.p; }
template <class P> auto raw(P const& p) -> decltype(p.get()) { return p.get(); }

template <class A> struct ArenaOf { static Arena* get(A const&) { return nullptr; } };
template <class T, class E, class P> struct ArenaOf<Alloc<T, E, P>> { static Arena* get(Alloc<T, E, P> const& a) { return a.arena; } };
#ifdef VT_HAVE_OFFSET_PTR
template <class T, class E> struct ArenaOf<OffAlloc<T, E>> { static Arena* get(OffAlloc<T, E> const&) { return arenas().get(0); } };
#endif
template <class T, class E> struct ArenaOf<PtrAlloc<T, E>> { static Arena* get(PtrAlloc<T, E> const&) { return arenas().get(0); } };

template <class S> struct View {
  using T = typename S::value_type;
  using E = El<T>;
  using It = typename S::iterator;
  using CIt = typename S::const_iterator;
  using D = typename S::difference_type;
  using Z = typename S::size_type;

  // it must designate position i of s, exactly as nth(i) does.
  template <class I> static void same_place(S& s, Model const& m, I it, std::size_t i, const char* who) {
    std::size_t n = m.size();
    VT_CHECK(s.index_of(it) == i, "iterator", "%s: iterator is at index %zu, not %zu (size %zu)", who, (std::size_t)s.index_of(it), i, n);
    It ref = i == n ? s.end() : s.nth((Z)i);
    VT_CHECK(it == ref && !(it != ref), "iterator", "%s: iterator at %zu does not equal nth/end", who, i);
    VT_CHECK(raw(it.begin()) == raw(ref.begin()) && raw(it.end()) == raw(ref.end()) && raw(it.current()) == raw(ref.current()), "iterator",
             "%s: iterator at %zu of %zu has segment [%p,%p) at %p, nth() has [%p,%p) at %p", who, i, n, (void*)raw(it.begin()), (void*)raw(it.end()), (void*)raw(it.current()),
             (void*)raw(ref.begin()), (void*)raw(ref.end()), (void*)raw(ref.current()));
    if (i < n) {
      VT_CHECK(std::addressof(*it) == std::addressof(*ref), "iterator", "%s: iterator at %zu refers to another element than nth()", who, i);
      u64 v = E::get(*it);
      VT_CHECK(v == m[i], "content", "%s: element %zu is %llu, expected %llu", who, i, (unsigned long long)v, (unsigned long long)m[i]);
    }
  }
  // Move it about from position i and come back.
  template <class I> static void exercise(S& s, Model const& m, I it, std::size_t i, Rng& rng, const char* who) {
    std::size_t n = m.size();
    same_place(s, m, it, i, who);
    VT_COUNT("iterator_probes");
    if (i < n) {
      I a = it; ++a; same_place(s, m, a, i + 1, "++");
      I b = it; I c = b++; same_place(s, m, b, i + 1, "post++"); same_place(s, m, c, i, "post++ value");
      --a; same_place(s, m, a, i, "++ then --");
      I seg = it.after_segment();
      std::size_t j = i + (std::size_t)(raw(it.end()) - raw(it.current()));
      same_place(s, m, seg, j, "after_segment");
      std::size_t extra = rng.below(n - j + 1);
      same_place(s, m, it.after_segment((Z)extra), j + extra, "after_segment(n)");
      I q = it; q.move_after_segment((Z)extra); same_place(s, m, q, j + extra, "move_after_segment(n)");
    }
    if (i > 0) {
      I a = it; --a; same_place(s, m, a, i - 1, "--");
      I b = it; I c = b--; same_place(s, m, b, i - 1, "post--"); same_place(s, m, c, i, "post-- value");
      ++a; same_place(s, m, a, i, "-- then ++");
      std::size_t off = (std::size_t)(raw(it.current()) - raw(it.begin()));
      if (off < i) {
        std::size_t j = i - off - 1;
        same_place(s, m, it.before_segment(), j, "before_segment");
        std::size_t extra = rng.below(j + 1);
        same_place(s, m, it.before_segment((Z)extra), j - extra, "before_segment(n)");
        I q = it; q.move_before_segment((Z)extra); same_place(s, m, q, j - extra, "move_before_segment(n)");
      }
    }
    for (int k = 0; k < 2; ++k) {
      std::size_t j = k ? rng.below(n + 1) : (rng.one_in(2) ? n : std::min(n, i + rng.below(20)));
      D d = (D)((long long)j - (long long)i);
      I a = it + d; same_place(s, m, a, j, "it + d");
      VT_CHECK(a - it == d && it - a == -d, "iterator", "difference of positions %zu and %zu is %lld", j, i, (long long)(a - it));
      VT_CHECK((a < it) == (j < i) && (a > it) == (j > i) && (a <= it) == (j <= i) && (a >= it) == (j >= i) && (a == it) == (j == i) && (a != it) == (j != i), "iterator",
               "comparison of positions %zu and %zu is wrong", j, i);
      I b = it; b += d; same_place(s, m, b, j, "it += d");
      b -= d; same_place(s, m, b, i, "it += d; it -= d");
      I c = it - (-d); same_place(s, m, c, j, "it - d");
      I e = d + it; same_place(s, m, e, j, "d + it");
      if (j < n) VT_CHECK(std::addressof(it[d]) == std::addressof(s[(Z)j]), "iterator", "it[%lld] from %zu is not element %zu", (long long)d, i, j);
    }
  }
  static void content(S& s, Model const& m, const char* when) {
    std::size_t n = m.size();
    S const& c = s;
    VT_CHECK(s.size() == n, "content", "%s: size() is %zu, expected %zu", when, (std::size_t)s.size(), n);
    VT_CHECK(s.empty() == (n == 0), "content", "%s: empty() wrong at size %zu", when, n);
    std::size_t i = 0;
    for (auto it = s.begin(), e = s.end(); it != e; ++it, ++i) {
      VT_CHECK(i < n, "content", "%s: traversal visits more than %zu elements", when, n);
      u64 v = E::get(*it);
      VT_CHECK(v == m[i], "content", "%s: element %zu of %zu is %llu, expected %llu", when, i, n, (unsigned long long)v, (unsigned long long)m[i]);
    }
    VT_CHECK(i == n, "content", "%s: traversal visits %zu of %zu elements", when, i, n);
    for (auto it = c.end(), b = c.begin(); it != b;) {
      --it; --i;
      VT_CHECK(E::get(*it) == m[i], "content", "%s: backward traversal reads %llu at %zu, expected %llu", when, (unsigned long long)E::get(*it), i, (unsigned long long)m[i]);
    }
    VT_CHECK(i == 0, "content", "%s: backward traversal stops at %zu", when, i);
    VT_COUNT("content_checks");
  }
  // Segment lengths in order, checked to partition the sequence.
  static std::vector<u32> segments(S& s, Model const& m, const char* when) {
    std::vector<u32> runs;
    std::size_t n = m.size(), at = 0;
    if (n == 0) {
      VT_CHECK(s.begin() == s.end(), "segment", "%s: begin() != end() when empty", when);
      return runs;
    }
    auto it = s.begin();
    while (true) {
      VT_CHECK(s.index_of(it) == at, "segment", "%s: segment walk is at index %zu, expected %zu", when, (std::size_t)s.index_of(it), at);
      if (at == n) break;
      auto *b = raw(it.begin()), *e = raw(it.end()), *p = raw(it.current());
      VT_CHECK(b == p && b < e, "segment", "%s: the run entered at %zu has begin %p current %p end %p", when, at, (void*)b, (void*)p, (void*)e);
      std::size_t len = (std::size_t)(e - b);
      VT_CHECK(len <= n - at, "segment", "%s: the run at %zu has %zu elements of %zu", when, at, len, n);
      for (std::size_t k = 0; k < len; ++k)
        VT_CHECK(E::get(b[k]) == m[at + k], "segment", "%s: run element %zu is %llu, expected %llu", when, at + k, (unsigned long long)E::get(b[k]), (unsigned long long)m[at + k]);
      runs.push_back((u32)len);
      at += len;
      it.move_after_segment();
    }
    VT_CHECK(it == s.end(), "segment", "%s: segment walk does not end at end()", when);
    auto last = s.end();
    VT_CHECK((std::size_t)(raw(last.end()) - raw(last.begin())) == runs.back() && raw(last.current()) == raw(last.end()), "segment", "%s: end() does not end the last run", when);
    auto p = s.penultimate();
    at = n;
    for (std::size_t k = runs.size(); k-- > 0;) {
      VT_CHECK((std::size_t)(raw(p.end()) - raw(p.begin())) == runs[k] && raw(p.current()) + 1 == raw(p.end()) && s.index_of(p) == at - 1, "segment",
               "%s: backward segment walk differs at run %zu", when, k);
      at -= runs[k];
      if (k) p.move_before_segment();
    }
    VT_COUNT("segment_walks");
    return runs;
  }
  static void positions(S& s, Model const& m, Rng& rng, int k) {
    std::size_t n = m.size();
    S const& c = s;
    if (n == 0) {
      VT_CHECK(s.begin() == s.end() && s.nth(0) == s.end() && s.nth(7) == s.end(), "position", "iterators of an empty sequence differ");
      return;
    }
    for (int t = 0; t < k; ++t) {
      std::size_t i = t == 0 ? n - 1 : rng.below(n);
      T* p = std::addressof(s[(Z)i]);
      VT_CHECK(E::get(*p) == m[i], "content", "[%zu] is %llu, expected %llu (size %zu)", i, (unsigned long long)E::get(*p), (unsigned long long)m[i], n);
      VT_CHECK(p == std::addressof(s.at((Z)i)) && p == std::addressof(c[(Z)i]) && p == std::addressof(c.at((Z)i)) && p == std::addressof(*s.nth((Z)i)) && p == std::addressof(*c.nth((Z)i)), "position",
               "[] at() nth() disagree at %zu", i);
      VT_CHECK(s.index_of(s.nth((Z)i)) == i && c.index_of(c.nth((Z)i)) == i, "position", "index_of(nth(%zu)) differs", i);
    }
  }
};

// What the shape of a tree may be, given its capacities.
struct Shape { std::size_t cap = 0, B = 0; };
inline std::size_t node_capacity(Arena* a, std::size_t psz, std::size_t zsz) {
  for (auto& b : a->blocks) if (!b.second.elem) return (b.second.esz - (psz + 4)) / (psz + zsz);
  return 0;
}
struct NodeBounds { std::size_t lo = 0, hi = 0; };
// No block is larger than its target in bytes, unless the least that makes a
// tree (one element, three children) is.
inline void check_targets(Arena* a, std::size_t seg, std::size_t base, std::size_t psz, std::size_t zsz, const char* when) {
  for (auto& x : a->blocks) {
    auto& b = x.second;
    if (b.elem) VT_CHECK(b.bytes + b.esz > seg, "balance", "%s: a segment block of only %zu bytes, the target is %zu", when, b.bytes, seg);
    else VT_CHECK(b.bytes + 2 * psz + 2 * (psz + zsz) > base || b.bytes > 65535, "balance", "%s: an index block of only %zu bytes, the target is %zu", when, b.bytes, base);
    if (b.elem) VT_CHECK(b.n == 1 || b.bytes <= seg, "balance", "%s: a segment block of %zu bytes, the target is %zu", when, b.bytes, seg);
    else VT_CHECK(b.bytes <= base || b.bytes <= 2 * psz + 3 * (psz + zsz), "balance", "%s: an index block of %zu bytes, the target is %zu", when, b.bytes, base);
    VT_COUNT("block_sizes");
  }
}
// Height and node-count limits for S segments under nodes of capacity B.
inline NodeBounds check_shape(std::vector<u32> const& runs, std::size_t n, std::size_t ht, std::size_t cap, std::size_t B, const char* when) {
  std::size_t S = runs.size();
  NodeBounds nb;
  if (n == 0) { VT_CHECK(ht == 0, "balance", "%s: height() of an empty sequence is %zu", when, ht); return nb; }
  if (S == 1) { VT_CHECK(ht == 1, "balance", "%s: height() is %zu with a single segment", when, ht); }
  else VT_CHECK(ht >= 2, "balance", "%s: height() is %zu with %zu segments", when, ht, S);
  if (cap) {
    for (u32 r : runs) {
      VT_CHECK(r <= cap, "balance", "%s: a segment of %u exceeds its capacity %zu", when, r, cap);
      VT_CHECK(S == 1 || 2 * (std::size_t)r >= cap, "balance", "%s: a segment holds %u of %zu, less than half", when, r, cap);
    }
    VT_COUNT("occupancy_checks");
  }
  if (S >= 2 && B) {
    std::size_t Bmin = (B + 1) / 2;
    double lo = 2, hi = 1;
    for (std::size_t k = 2; k < ht; ++k) lo *= (double)Bmin;
    for (std::size_t k = 1; k < ht; ++k) hi *= (double)B;
    VT_CHECK((double)S >= lo && (double)S <= hi, "balance", "%s: %zu segments at height %zu, possible are %.0f to %.0f", when, S, ht, lo, hi);
    std::size_t clo = S, chi = S;
    for (std::size_t k = 2; k <= ht; ++k) {
      clo = (clo + B - 1) / B;
      chi = k == ht ? 1 : std::max<std::size_t>(1, chi / Bmin);
      if (k == ht) clo = 1;
      nb.lo += clo; nb.hi += chi;
    }
    VT_COUNT("height_checks");
  }
  return nb;
}
inline u64 shape_hash(std::vector<u32> const& runs, std::size_t ht) {
  u64 h = mix(17, ht);
  for (u32 r : runs) h = mix(h, r);
  return h;
}
}  // namespace vt
