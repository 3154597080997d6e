// Sequences of many tree shapes, made by short random histories.
#pragma once
#include "view.hpp"
#include <algorithm>
#ifndef VT_LONG                          // sequences of this many elements, a few operations on each
#define VT_LONG 0
#endif
namespace vt {
inline std::size_t len_or_long(Rng& rng, std::size_t n) { return VT_LONG ? (rng.one_in(2) ? rng.below((std::size_t)VT_LONG + 1) : (std::size_t)VT_LONG / 2 + rng.below((std::size_t)VT_LONG / 2 + 1)) : rng.below(n); }
// A long one: grown at both ends, with gaps torn afterwards.
template <class S> void build_long(S& s, Model& m, Rng& rng, std::size_t target, bool dup) {
  using E = El<typename S::value_type>;
  using Z = typename S::size_type;
  s.clear(); m.clear();
  Model front;
  u64 counter = rng.next() >> 8;
  std::size_t mod = 2 + rng.below(5), extra = rng.below(target / 4 + 1);
  for (std::size_t i = 0; i < target + extra; ++i) {
    u64 v = E::norm(dup ? rng.below(7) : ++counter * 2654435761ull);
    if (i % mod) { s.push_back(E::make(v)); m.push_back(v); } else { s.push_front(E::make(v)); front.push_back(v); }
  }
  m.insert(m.begin(), front.rbegin(), front.rend());
  while (extra) {
    std::size_t k = std::min(extra, 1 + rng.below(extra)), at = rng.below(m.size() - k + 1);
    s.erase(s.nth((Z)at), s.nth((Z)(at + k))); m.erase(m.begin() + (long)at, m.begin() + (long)(at + k));
    extra -= k;
  }
}
template <class S> void build_shape(S& s, Model& m, Rng& rng, std::size_t target, bool dup = false) {
  using E = El<typename S::value_type>;
  using Z = typename S::size_type;
  if (target >= 2000) return build_long(s, m, rng, target, dup);
  s.clear(); m.clear();
  u64 counter = rng.next() >> 8;
  std::size_t peak = target + (rng.one_in(2) ? rng.below(target + 2) : rng.below(3));
  while (true) {
    bool grow = m.size() < peak && peak;
    unsigned pat = (unsigned)rng.below(6);
    std::size_t len = 1 + rng.below(1 + target), stride = 1 + rng.below(9), sweep = 0;
    for (std::size_t k = 0; k < len; ++k) {
      if (grow ? m.size() >= peak : m.size() <= target) break;
      std::size_t lim = grow ? m.size() : m.size() - 1, i;
      switch (pat) {
        case 0: i = 0; break;
        case 1: i = lim; break;
        case 2: i = sweep += stride; if (i > lim) i = sweep = 0; break;
        case 3: i = lim / 2; break;
        default: i = rng.below(lim + 1);
      }
      i = std::min(i, lim);
      if (grow) {
        u64 v = E::norm(dup ? rng.below(7) : ++counter * 2654435761ull);
        s.insert(s.nth((Z)i), E::make(v));
        m.insert(m.begin() + (long)i, v);
      } else {
        s.erase(s.nth((Z)i));
        m.erase(m.begin() + (long)i);
      }
    }
    if (grow && m.size() >= peak) peak = 0;      // from now on only shrink
    if (!peak && m.size() <= target) return;
  }
}
template <class S> u64 shape_of(S& s, Model const& m) {
  return shape_hash(View<S>::segments(s, m, "shape"), s.height());
}
}  // namespace vt
