// Unit: every position and every distance of sequences of many shapes.
// VT_MODE 2 iterator laws, 3 positional access, 4 segment view, 5 returned iterators
#include "shape.hpp"
#include <stdexcept>
using namespace vt;
using T = VT_T;
using Al = VT_ALLOC;
using S = boost::segmented_tree::seq<T, Al, VT_SEG, VT_BASE>;
using V = View<S>;
using E = El<T>;
using It = S::iterator;
using CIt = S::const_iterator;
using Z = S::size_type;
using D = S::difference_type;
#ifndef VT_MAXN
#define VT_MAXN 90
#endif

// All positions of a sequence; of a long one, about k spread over it.
static std::size_t stride(Rng& rng, std::size_t n, std::size_t k) { return VT_LONG ? 1 + rng.below(2 * n / k + 1) : 1; }

template <class I> static void same(S& s, I it, std::size_t i, std::vector<It> const& ref, Model const& m, const char* who, std::size_t from) {
  VT_COUNT("landings");
  It const& r = ref[i];
  if (s.index_of(it) != i || !(it == r) || raw(it.current()) != raw(r.current()) || raw(it.begin()) != raw(r.begin()) || raw(it.end()) != raw(r.end()))
    fail("iterator", "%s from %zu to %zu of %zu lands on index %zu (segment offset %td of %td, nth has %td of %td)", who, from, i, m.size(), (std::size_t)s.index_of(it),
         raw(it.current()) - raw(it.begin()), raw(it.end()) - raw(it.begin()), raw(r.current()) - raw(r.begin()), raw(r.end()) - raw(r.begin()));
  if (i < m.size() && E::get(*it) != m[i]) fail("content", "%s from %zu reads %llu at %zu, expected %llu", who, from, (unsigned long long)E::get(*it), i, (unsigned long long)m[i]);
}

static void mode2(S& s, Model& m, Rng& rng) {
  std::size_t n = m.size();
  S const& c = s;
  std::vector<It> ref;
  for (std::size_t i = 0; i < n; ++i) {
    ref.push_back(s.nth((Z)i));
    VT_CHECK(E::get(*ref[i]) == m[i] && ref[i].operator->() == ref[i].current(), "iterator", "nth(%zu) reads the wrong element", i);
  }
  ref.push_back(s.end());
  // single steps, all four operators, iterator and const_iterator, reverse
  It f = s.begin(); CIt cf = c.begin();
  auto r = s.rend(); auto cr = c.crend();
  for (std::size_t i = 0; i <= n; ++i) {
    same(s, f, i, ref, m, "++", i ? i - 1 : 0); same(s, cf, i, ref, m, "const ++", i ? i - 1 : 0);
    VT_CHECK(r.base() == f && cr.base() == cf, "iterator", "reverse iterator off at %zu", i);
    if (i > 0) VT_CHECK(E::get(*r) == m[i - 1] && E::get(*cr) == m[i - 1], "iterator", "reverse iterator reads the wrong element before %zu", i);
    if (i < n) { if (i & 1) ++f; else { It o = f++; same(s, o, i, ref, m, "x++", i); } if (i & 2) cf++; else ++cf; --r; --cr; }
  }
  VT_CHECK(r == s.rbegin() && cr == c.crbegin() && c.rbegin() == cr && c.rend() == c.crend(), "iterator", "reverse traversal does not end at rbegin()");
  for (std::size_t i = n + 1; i-- > 0;) {
    same(s, f, i, ref, m, "--", i + 1); same(s, cf, i, ref, m, "const --", i + 1);
    if (i) { if (i & 1) --f; else { It o = f--; same(s, o, i, ref, m, "x--", i); } if (i & 2) cf--; else --cf; }
  }
  VT_CHECK(f == s.begin() && cf == c.cbegin() && f == c.begin() && s.end() == c.cend() && c.end() == c.cend(), "iterator", "traversal does not meet begin()/end()");
  // every ordered pair of positions
  std::vector<It> by;                       // iterators reached by another path
  for (std::size_t j = 0; j <= n; ++j) { std::size_t k = rng.below(n + 1); by.push_back(ref[k] + (D)((long long)j - (long long)k)); }
  for (std::size_t i = 0; i <= n; i += stride(rng, n, 120)) {
    CIt ci = ref[i];
    for (std::size_t j = 0; j <= n; j += stride(rng, n, 120)) {
      D d = (D)((long long)j - (long long)i);
      It a = ref[i] + d; same(s, a, j, ref, m, "+", i);
      switch ((i + j) % 5) {
        case 0: { It b = ref[i]; VT_CHECK(&(b += d) == &b, "iterator", "+= returns another object"); same(s, b, j, ref, m, "+=", i); break; }
        case 1: { It b = ref[i]; b -= -d; same(s, b, j, ref, m, "-=", i); break; }
        case 2: same(s, by[i] - (-d), j, ref, m, "-", i); break;
        case 3: same(s, ci + d, j, ref, m, "const +", i); break;
        default: same(s, d + by[i], j, ref, m, "n +", i);
      }
      if (j < n) VT_CHECK(std::addressof(ref[i][d]) == std::addressof(*ref[j]) && std::addressof(ci[d]) == std::addressof(*ref[j]), "iterator", "[%lld] from %zu", (long long)d, i);
      VT_CHECK(a - ref[i] == d && ref[i] - a == -d && by[j] - ci == d && ci - by[j] == -d, "iterator", "difference of %zu and %zu", j, i);
      It const& b = by[j];
      bool ok = (b < ref[i]) == (j < i) && (b > ref[i]) == (j > i) && (b <= ref[i]) == (j <= i) && (b >= ref[i]) == (j >= i) && (b == ref[i]) == (j == i) && (b != ref[i]) == (j != i) &&
                (b < ci) == (j < i) && (b > ci) == (j > i) && (b <= ci) == (j <= i) && (b >= ci) == (j >= i) && (b == ci) == (j == i) && (b != ci) == (j != i) &&
                (ci < b) == (i < j) && (ci > b) == (i > j) && (ci <= b) == (i <= j) && (ci >= b) == (i >= j) && (ci == b) == (i == j) && (ci != b) == (i != j);
      VT_CHECK(ok, "iterator", "comparing positions %zu and %zu", j, i);
      VT_COUNT("pairs");
    }
    auto ri = std::reverse_iterator<It>(ref[i]);
    std::size_t j = rng.below(n + 1);
    auto rj = ri + (D)((long long)i - (long long)j);
    VT_CHECK(rj.base() == ref[j] && rj - ri == (D)((long long)i - (long long)j), "iterator", "reverse jump from %zu to %zu", i, j);
  }
  // long random walks that never go back to the container
  It w = s.begin();
  std::size_t at = 0;
  for (int k = 0; k < 300; ++k) {
    std::size_t j = at;
    switch (rng.below(5)) {
      case 0: if (at < n) { ++w; ++j; } break;
      case 1: if (at) { --w; --j; } break;
      case 2: j = rng.below(n + 1); w += (D)((long long)j - (long long)at); break;
      case 3: j = rng.below(n + 1); w -= (D)((long long)at - (long long)j); break;
      default: j = rng.one_in(2) ? n : 0; w = w + (D)((long long)j - (long long)at);
    }
    same(s, w, j, ref, m, "walk", at);
    at = j;
  }
  // value initialisation, copy, assignment, conversion
  It z{}, z2{}, y = w; CIt zc{};
  VT_CHECK(z == z2 && !(z != z2) && zc == z && z == zc && !(z < z2) && z <= z2, "iterator", "value-initialised iterators do not compare equal");
  z = y; CIt q = z, q2; q2 = z;
  VT_CHECK(z == w && q == w && q2 == q && w == q, "iterator", "copies or conversions of an iterator differ");
}

static void mode3(S& s, Model& m, Rng& rng) {
  std::size_t n = m.size();
  S const& c = s;
  auto rebuild = [&](const char* who, std::size_t i, T* p, u64 v) {
    *p = E::make(v); m[i] = v;
    VT_CHECK(E::get(s[(Z)i]) == v && E::get(c[(Z)i]) == v && E::get(s.at((Z)i)) == v && E::get(*c.nth((Z)i)) == v, "position", "a value written through %s at %zu is not read back", who, i);
  };
  for (std::size_t i = 0; i < n; ++i) {
    T* p = std::addressof(s[(Z)i]);
    VT_CHECK(E::get(*p) == m[i], "position", "[%zu] of %zu reads %llu, expected %llu", i, n, (unsigned long long)E::get(*p), (unsigned long long)m[i]);
    VT_CHECK(p == std::addressof(c[(Z)i]) && p == std::addressof(s.at((Z)i)) && p == std::addressof(c.at((Z)i)) && p == std::addressof(*s.nth((Z)i)) && p == std::addressof(*c.nth((Z)i)), "position",
             "access paths disagree at %zu of %zu", i, n);
    It it = s.nth((Z)i); CIt ct = c.nth((Z)i);
    VT_CHECK(s.index_of(it) == i && s.index_of(ct) == i && c.index_of(ct) == i && c.index_of(it) == i && it == ct, "position", "index_of(nth(%zu)) differs", i);
    VT_CHECK(raw(it.current()) == p && it - s.begin() == (D)i && s.end() - it == (D)(n - i), "position", "nth(%zu) is not %zu from begin()", i, i);
    u64 v = E::norm(rng.next());
    switch (rng.below(6)) {
      case 0: rebuild("[]", i, p, v); break;
      case 1: rebuild("at", i, std::addressof(s.at((Z)i)), v); break;
      case 2: rebuild("nth", i, std::addressof(*s.nth((Z)i)), v); break;
      case 3: rebuild("rbegin", i, std::addressof(*(s.rbegin() + (D)(n - 1 - i))), v); break;
      case 4: rebuild("iterator[]", i, std::addressof(s.begin()[(D)i]), v); break;
      default: rebuild("current", i, raw(s.nth((Z)i).current()), v);
    }
    VT_COUNT("positions");
  }
  if (n) {
    VT_CHECK(std::addressof(s.front()) == std::addressof(s[0]) && std::addressof(c.front()) == std::addressof(s[0]) && std::addressof(s.back()) == std::addressof(s[(Z)(n - 1)]) &&
             std::addressof(c.back()) == std::addressof(s[(Z)(n - 1)]), "position", "front() or back() is not the end element");
    It p = s.penultimate();
    VT_CHECK(s.index_of(p) == n - 1 && c.penultimate() == p && c.cpenultimate() == p && p + 1 == s.end() && std::addressof(*p) == std::addressof(s.back()) && p == s.nth((Z)(n - 1)), "position", "penultimate() is not the last element");
    V::exercise(s, m, p, n - 1, rng, "penultimate()");
    VT_CHECK(std::addressof(*s.begin()) == std::addressof(s.front()) && std::addressof(*c.begin()) == std::addressof(s.front()) && std::addressof(*c.cbegin()) == std::addressof(s.front()), "position", "begin() is not the first element");
    u64 v = E::norm(rng.next());
    rebuild("front", 0, std::addressof(s.front()), v);
    rebuild("back", n - 1, std::addressof(s.back()), v);
  }
  VT_CHECK(s.index_of(s.begin()) == 0 && s.index_of(s.end()) == n && c.index_of(c.cbegin()) == 0 && c.index_of(c.cend()) == n && s.end() - s.begin() == (D)n, "position", "begin()/end() are at the wrong index");
  V::exercise(s, m, s.begin(), 0, rng, "begin()"); V::exercise(s, m, s.end(), n, rng, "end()");
  u64 top = (u64)(Z)~(Z)0;
  u64 outs[] = {n, n + 1, n + 2, n * 2 + 3, n + VT_SEG, (u64)1 << 16, ((u64)1 << 31) - 1, (u64)1 << 31, top / 2, top / 2 + 1, top - 1, top, n + rng.below(100), top - rng.below(1000)};
  auto before = shape_of(s, m);
  for (u64 o : outs) {
    if (o < n || o > top) continue;
    for (int k = 0; k < 2; ++k) {
      bool threw = false;
      try { if (k) (void)E::get(c.at((Z)o)); else (void)E::get(s.at((Z)o)); } catch (std::out_of_range const&) { threw = true; }
      VT_CHECK(threw, "position", "at(%llu) of %zu elements does not throw std::out_of_range", (unsigned long long)o, n);
      VT_COUNT("out_of_range");
    }
    It e = s.nth((Z)o); CIt ce = c.nth((Z)o);
    VT_CHECK(e == s.end() && ce == c.end() && s.index_of(e) == n && s.index_of(ce) == n, "position", "nth(%llu) of %zu elements is not end()", (unsigned long long)o, n);
    V::same_place(s, m, e, n, "nth beyond the end");
  }
  VT_CHECK(shape_of(s, m) == before, "position", "failed accesses changed the sequence");
  V::content(s, m, "after positional access");
}

static void mode4(S& s, Model& m, Rng& rng) {
  std::size_t n = m.size();
  auto runs = V::segments(s, m, "segment view");
  std::vector<std::size_t> start;           // start of each run, then n
  std::size_t a = 0;
  for (u32 r : runs) { start.push_back(a); a += r; }
  start.push_back(n);
  std::vector<It> ref;
  for (std::size_t i = 0; i < n; ++i) ref.push_back(s.nth((Z)i));
  ref.push_back(s.end());
  for (std::size_t k = 0; k < runs.size(); ++k)
    for (std::size_t i = start[k]; i < start[k + 1] + (k + 1 == runs.size()); i += stride(rng, runs[k], 2)) {
      CIt c = ref[i];
      for (int path = 0; path < 3; ++path) {   // the view must not depend on how i was reached
        It it = ref[i];
        if (path == 1) { std::size_t j = rng.below(n + 1); it = ref[j] + (D)((long long)i - (long long)j); }
        if (path == 2) { if (i) { it = ref[i - 1]; ++it; } else { it = ref[1]; --it; } }
        auto *b = raw(it.begin()), *e = raw(it.end()), *p = raw(it.current());
        VT_CHECK((std::size_t)(e - b) == runs[k] && (std::size_t)(p - b) == i - start[k] && raw(c.begin()) == b && raw(c.end()) == e && raw(c.current()) == p, "segment",
                 "iterator at %zu: run of %td at offset %td, expected %u at %zu", i, e - b, p - b, runs[k], i - start[k]);
        if (i < n) VT_CHECK(p == std::addressof(*it), "segment", "current() at %zu is not the element", i);
        for (std::size_t x = 0; x < runs[k]; ++x) VT_CHECK(E::get(b[x]) == m[start[k] + x], "segment", "element %zu of the run at %zu", x, i);
        // forward
        if (i < n || n == start[k + 1]) {
          std::size_t nx = start[k + 1];
          It f = it;
          if (i < n) {
            same(s, it.after_segment(), nx, ref, m, "after_segment", i);
            VT_CHECK(&f.move_after_segment() == &f, "segment", "move_after_segment returns another object");
            same(s, f, nx, ref, m, "move_after_segment", i);
            same(s, c.after_segment(), nx, ref, m, "const after_segment", i);
            for (std::size_t x = 0; nx + x <= n; x += stride(rng, n, 20)) {
              same(s, it.after_segment((Z)x), nx + x, ref, m, "after_segment(n)", i);
              if (path == 0) { It g = it; g.move_after_segment((Z)x); same(s, g, nx + x, ref, m, "move_after_segment(n)", i); same(s, c.after_segment((Z)x), nx + x, ref, m, "const after_segment(n)", i); }
              VT_COUNT("segment_jumps");
            }
          }
        }
        // backward
        if (start[k] > 0) {
          std::size_t pv = start[k] - 1;
          It f = it;
          same(s, it.before_segment(), pv, ref, m, "before_segment", i);
          f.move_before_segment(); same(s, f, pv, ref, m, "move_before_segment", i);
          same(s, c.before_segment(), pv, ref, m, "const before_segment", i);
          for (std::size_t x = 0; x <= pv; x += stride(rng, n, 20)) {
            same(s, it.before_segment((Z)x), pv - x, ref, m, "before_segment(n)", i);
            if (path == 0) { It g = it; g.move_before_segment((Z)x); same(s, g, pv - x, ref, m, "move_before_segment(n)", i); same(s, c.before_segment((Z)x), pv - x, ref, m, "const before_segment(n)", i); }
            VT_COUNT("segment_jumps");
          }
        }
      }
    }
}

static void refill(S& s, std::size_t at, u64 v) { s.insert(s.nth((Z)at), E::make(v)); }
static void mode5(S& s, Model& m, Rng& rng) {
  std::size_t n = m.size();
  // every single insertion and erasure position of this shape; the sequence is
  // put back (in content; its shape drifts on) after each
  for (std::size_t i = 0; i <= n; i += stride(rng, n, 100)) {
    u64 v = E::norm(rng.next());
    CIt p = rng.one_in(2) ? CIt(s.nth((Z)i)) : CIt(s.begin() + (D)i);
    step("insert", (long)i, (long)n);
    It r{};
    switch (rng.below(3)) {
      case 0: r = s.insert(p, E::make(v)); break;
      case 1: if constexpr (std::is_copy_constructible<T>::value) { T x = E::make(v); r = s.insert(p, x); break; }  // fallthrough
      default: r = s.emplace(p, E::make(v));
    }
    m.insert(m.begin() + (long)i, v);
    V::exercise(s, m, r, i, rng, "insert");
    { It w = r; for (std::size_t k = i; k < std::min(m.size(), i + 12); ++k) { ++w; V::same_place(s, m, w, k + 1, "walking on from insert"); } }
    { It w = r; for (std::size_t k = i; k > (i > 12 ? i - 12 : 0); --k) { --w; V::same_place(s, m, w, k - 1, "walking back from insert"); } }
    // the iterator is the position of a chain of further calls
    std::size_t at = i;
    int chain = 1 + (int)rng.below(10), extra = 0;
    for (int k = 0; k < chain; ++k) {
      if (rng.one_in(2) || at >= m.size() || m.size() < 2) {
        u64 w = E::norm(rng.next());
        step("chain insert", (long)at, (long)m.size());
        r = s.insert(CIt(r), E::make(w)); m.insert(m.begin() + (long)at, w); ++extra;
      } else {
        step("chain erase", (long)at, (long)m.size());
        r = s.erase(CIt(r)); m.erase(m.begin() + (long)at); --extra;
      }
      V::same_place(s, m, r, at, "chained call");
      if (rng.one_in(3)) V::exercise(s, m, r, at, rng, "chained call");
      if (rng.one_in(3)) { std::size_t j = rng.below(m.size() + 1); r += (D)((long long)j - (long long)at); at = j; }
      VT_COUNT("chained_calls");
    }
    VT_COUNT("insertions");
    while (m.size() < n) { refill(s, at, 1); m.insert(m.begin() + (long)at, E::norm(1)); }
    while (m.size() > n) {
      std::size_t j = std::min(i, m.size() - 1);
      step("erase", (long)j, (long)m.size());
      It q = s.erase(CIt(s.nth((Z)j)));
      m.erase(m.begin() + (long)j);
      V::exercise(s, m, q, j, rng, "erase");
      { It w = q; for (std::size_t k = j; k < std::min(m.size(), j + 12); ++k) { ++w; V::same_place(s, m, w, k + 1, "walking on from erase"); } }
      { It w = q; for (std::size_t k = j; k > (j > 12 ? j - 12 : 0); --k) { --w; V::same_place(s, m, w, k - 1, "walking back from erase"); } }
      VT_COUNT("erasures");
    }
  }
  // ranges, empty ones included
  for (int t = 0; t < 12; ++t) {
    std::size_t i = rng.below(m.size() + 1), k = rng.one_in(4) ? 0 : len_or_long(rng, 30);
    std::vector<u64> vs;
    for (std::size_t x = 0; x < k; ++x) vs.push_back(E::norm(rng.next()));
    step("insert range", (long)i, (long)k);
    It r{};
    if constexpr (std::is_copy_constructible<T>::value) {
      if (rng.one_in(2) && k) { u64 v = vs[0]; std::fill(vs.begin(), vs.end(), v); T x = E::make(v); r = s.insert(CIt(s.nth((Z)i)), (Z)k, x); }
      else { std::vector<T> ts; for (u64 v : vs) ts.push_back(E::make(v)); r = s.insert(CIt(s.nth((Z)i)), ts.begin(), ts.end()); }
    } else {
      std::vector<T> ts; for (u64 v : vs) ts.push_back(E::make(v));
      r = s.insert(CIt(s.nth((Z)i)), std::make_move_iterator(ts.begin()), std::make_move_iterator(ts.end()));
    }
    m.insert(m.begin() + (long)i, vs.begin(), vs.end());
    V::exercise(s, m, r, i, rng, "insert range");
    std::size_t a = rng.below(m.size() + 1), b = rng.one_in(4) ? a : a + rng.below(m.size() - a + 1);
    if (b - a > 30 && m.size() < 60) b = a + 30;
    step("erase range", (long)a, (long)b, (long)m.size());
    It q = s.erase(CIt(s.nth((Z)a)), CIt(s.nth((Z)b)));
    m.erase(m.begin() + (long)a, m.begin() + (long)b);
    V::exercise(s, m, q, a, rng, "erase range");
    u64 v = E::norm(rng.next());
    q = s.insert(CIt(q), E::make(v)); m.insert(m.begin() + (long)a, v);
    V::exercise(s, m, q, a, rng, "insert at the iterator erase returned");
    VT_COUNT("range_calls");
  }
  V::content(s, m, "after chained calls");
}

int main(int argc, char** argv) {
  init(argc, argv, VT_UNIT);
  for (u64 id = 0; id < (u64)VT_CASES * st().scale; ++id) {
    if (!my_case(id)) continue;
    begin_case(id);
    arenas().reset();
    Rng rng(case_seed(id));
    {
      S s; Model m;
      std::size_t n = VT_LONG ? len_or_long(rng, 0) : id < 12 ? id : rng.one_in(3) ? rng.below(VT_MAXN / 4) : rng.below(VT_MAXN);
      build_shape(s, m, rng, n);
      if (m.size()) { u64 h = shape_of(s, m); if (s.height() > 1) saw(h); }
      long& mh = ctr("max_height"); mh = std::max<long>(mh, (long)s.height());
      long& mn = ctr("max_size"); mn = std::max<long>(mn, (long)m.size());
      if (id % 997 == st().shard) { char t[100]; snprintf(t, sizeof t, "case %llu: %zu elements, height %zu, %zu segments", (unsigned long long)id, m.size(), (std::size_t)s.height(), V::segments(s, m, "sample").size()); sample(t); }
      if (n > 0 || VT_MODE == 5 || VT_MODE == 3) {
#if VT_MODE == 2
        mode2(s, m, rng);
#elif VT_MODE == 3
        mode3(s, m, rng);
#elif VT_MODE == 4
        mode4(s, m, rng);
#else
        mode5(s, m, rng);
#endif
      }
      VT_COUNT("shapes");
    }
    arenas().expect_empty("after the sequence was destroyed");
  }
  return finish();
}
