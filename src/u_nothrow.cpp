// Unit: what is documented not to throw, while everything that can fail does.
// Sequences of many shapes are built; then every allocation, element
// construction, copy and default construction is made to throw, and the
// operations that promise not to throw must work all the same. The same
// promises are read off as noexcept, on which std::vector<seq> relies.
#include "shape.hpp"
#include <climits>
using namespace vt;
using T = VT_T;
using P = VT_POL;
using Al = VT_ALLOC;
using S = boost::segmented_tree::seq<T, Al, VT_SEG, VT_BASE>;
using V = View<S>;
using E = El<T>;
using It = S::iterator;
using CIt = S::const_iterator;
using Z = S::size_type;
using D = S::difference_type;
static constexpr bool copyable = std::is_copy_constructible<T>::value && std::is_copy_assignable<T>::value;
static constexpr bool calm = std::is_nothrow_move_constructible<T>::value && std::is_nothrow_move_assignable<T>::value;

// The heap, which the sequences here do not use themselves, but code within them might.
static bool& heap_gone() { static bool b; return b; }
void* operator new(std::size_t n) {
  if (heap_gone()) throw std::bad_alloc();
  if (void* p = std::malloc(n ? n : 1)) return p;
  throw std::bad_alloc();
}
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { return heap_gone() ? nullptr : std::malloc(n ? n : 1); }   // (has to be expected)
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { std::free(p); }

template <class U> static u64 peep(U const& x) { bool g = heap_gone(); heap_gone() = false; u64 v = peek(x); heap_gone() = g; return v; }

// While one is alive, whatever may fail fails.
struct Storm {
  long allocs = 0;
  Storm(bool heap = true) {
    for (auto& a : arenas().all) allocs -= a->alloc_calls;
    ev().sticky = true; ev().fault_in = 0; ev().thrown = 0; heap_gone() = !heap;
  }
  ~Storm() { heap_gone() = false; ev().fault_in = -1; ev().sticky = false; }
  void over(const char* what) {
    heap_gone() = false; ev().fault_in = -1; ev().sticky = false;
    for (auto& a : arenas().all) allocs += a->alloc_calls;
    VT_CHECK(ev().thrown == 0, "throws", "%s met %ld failures of allocations or elements, and swallowed them", what, ev().thrown);
    VT_CHECK(allocs == 0, "throws", "%s allocated %ld blocks", what, allocs);
    VT_COUNT("nothrow_calls");
  }
};
template <class F> static void calmly(const char* what, F f, bool heap = false) {
  step(what);
  Storm storm(heap);
  try { f(); } catch (std::bad_alloc&) { storm.~Storm(); fail("throws", "%s lets std::bad_alloc out when there is no memory", what); } catch (Boom&) { storm.~Storm(); fail("throws", "%s lets an exception out when allocations and element copies fail", what); }
  storm.over(what);
}

// An allocator whose default construction may throw.
static bool& moody() { static bool b; return b; }
template <class U> struct Moody {
  using value_type = U;
  Moody() noexcept(false) { if (moody()) throw Boom{}; }
  template <class W> Moody(Moody<W> const&) noexcept {}
  U* allocate(std::size_t n) { return std::allocator<U>().allocate(n); }
  void deallocate(U* p, std::size_t n) { std::allocator<U>().deallocate(p, n); }
  friend bool operator==(Moody const&, Moody const&) { return true; }
  friend bool operator!=(Moody const&, Moody const&) { return false; }
};

#define PROMISED(what, ...) VT_CHECK(noexcept(__VA_ARGS__), "noexcept", what " is not noexcept"); VT_COUNT("noexcept_checks")
template <class Q> static void promises() {
  Q* q = nullptr; Q const* c = nullptr;
  typename Q::iterator i{}; typename Q::const_iterator k{};
  (void)q; (void)c; (void)i; (void)k;
  PROMISED("begin()", q->begin()); PROMISED("begin() const", c->begin()); PROMISED("cbegin()", c->cbegin());
  PROMISED("end()", q->end()); PROMISED("end() const", c->end()); PROMISED("cend()", c->cend());
  PROMISED("penultimate()", q->penultimate()); PROMISED("penultimate() const", c->penultimate()); PROMISED("cpenultimate()", c->cpenultimate());
  PROMISED("rbegin()", q->rbegin()); PROMISED("rbegin() const", c->rbegin()); PROMISED("crbegin()", c->crbegin());
  PROMISED("rend()", q->rend()); PROMISED("rend() const", c->rend()); PROMISED("crend()", c->crend());
  PROMISED("nth()", q->nth(0)); PROMISED("nth() const", c->nth(0));
  PROMISED("index_of(iterator)", q->index_of(i)); PROMISED("index_of(const_iterator)", c->index_of(k));
  PROMISED("empty()", c->empty()); PROMISED("size()", c->size()); PROMISED("height()", c->height()); PROMISED("max_size()", c->max_size());
  PROMISED("get_allocator()", c->get_allocator()); PROMISED("get_stored_allocator()", c->get_stored_allocator());
  PROMISED("clear()", q->clear()); PROMISED("the destructor", q->~Q());
  PROMISED("swap()", q->swap(*q)); PROMISED("swap(a, b)", swap(*q, *q));
  PROMISED("move construction", Q(std::move(*q)));
}
template <class Q> static void more_promises() {
  Q* q = nullptr; (void)q;
  PROMISED("default construction", Q());
  PROMISED("move assignment", *q = std::move(*q));
  VT_CHECK(std::is_nothrow_default_constructible<Q>::value && std::is_nothrow_move_constructible<Q>::value && std::is_nothrow_move_assignable<Q>::value && std::is_nothrow_destructible<Q>::value, "noexcept", "a type trait denies a no-throw operation");
}

struct One {
  S s; Model m; int a;
  One(int arena, Rng& rng, std::size_t top) : s(Al(arenas().get((std::size_t)arena))), a(arena) { build_shape(s, m, rng, rng.one_in(6) ? rng.below(4) : len_or_long(rng, top)); }
  void check(const char* when, Rng& rng) { V::content(s, m, when); V::segments(s, m, when); V::positions(s, m, rng, 3); std::size_t i = rng.below(m.size() + 1); V::exercise(s, m, s.nth((Z)i), i, rng, when); }
};

static void reads(One& o, One& p, Rng& rng) {
  std::size_t n = o.m.size();
  S const& c = o.s;
  calmly("accessors", [&] {
    VT_CHECK(c.size() == n && c.empty() == (n == 0) && c.max_size() >= n && (c.height() == 0) == (n == 0), "content", "size(), empty() or height() is wrong");
    VT_CHECK((std::size_t)(o.s.end() - o.s.begin()) == n && (std::size_t)(c.cend() - c.cbegin()) == n && (std::size_t)(o.s.rend() - o.s.rbegin()) == n && (std::size_t)(c.crend() - c.crbegin()) == n, "content", "a range has the wrong length");
    for (std::size_t i = 0; i < n; ++i) {
      VT_CHECK(peep(*o.s.nth((Z)i)) == o.m[i] && peep(c[(Z)i]) == o.m[i] && peep(o.s.at((Z)i)) == o.m[i], "content", "element %zu is wrong", i);
      VT_CHECK(c.index_of(c.nth((Z)i)) == i, "position", "index_of(nth(%zu)) differs", i);
    }
    if (n) VT_CHECK(peep(c.front()) == o.m[0] && peep(c.back()) == o.m[n - 1] && peep(*c.penultimate()) == o.m[n - 1], "content", "front(), back() or penultimate() is wrong");
    std::size_t i = 0;
    for (auto it = c.begin(); it != c.end(); ++it) VT_CHECK(peep(*it) == o.m[i++], "content", "a traversal reads a wrong element");
    for (auto it = c.begin(); it != c.end(); it.move_after_segment()) i -= (std::size_t)(it.end() - it.begin());
    VT_CHECK(i == 0, "segment", "the runs do not cover the sequence");
    Al al = c.get_allocator();
    VT_CHECK(al.arena->id == o.a, "allocator", "get_allocator() is another allocator");
  });
  calmly("equality", [&] { bool e = std::equal(o.s.begin(), o.s.end(), p.s.begin(), p.s.end(), [](T const& x, T const& y) { return peep(x) == peep(y); }); VT_CHECK(e == (o.m == p.m), "content", "comparison is wrong"); });
  std::size_t far = n + rng.below(5);
  calmly("out of range", [&] {
    bool threw = false;
    try { (void)c.at((Z)far); } catch (std::out_of_range const&) { threw = true; }
    VT_CHECK(threw && c.nth((Z)far) == c.end(), "position", "a position past the end is not refused");
  }, true);
}
static void takeovers(Rng& rng) {
  int other = (int)rng.below(2);
  One x(0, rng, 150), y(other, rng, 120);
  bool eq = x.a == y.a;
  reads(x, y, rng);
  if (eq || P::cs) {
    if (rng.one_in(2)) calmly("swap", [&] { x.s.swap(y.s); }); else calmly("swap(a, b)", [&] { swap(x.s, y.s); });
    std::swap(x.m, y.m); if (P::cs) std::swap(x.a, y.a);
    x.check("after swap", rng); y.check("after swap", rng);
  }
  if (eq || P::cma) {
    calmly("move assignment", [&] { x.s = std::move(y.s); });
    x.m = std::move(y.m); y.m.clear(); if (P::cma) x.a = y.a;
    x.check("after move assignment", rng); y.check("the source of a move", rng);
  } else {
    // Elements must move one by one, into memory of x: this may fail, but with an exception.
    Model before = y.m;
    bool threw = false;
    { Storm storm; try { x.s = std::move(y.s); } catch (Boom&) { threw = true; } }
    VT_COUNT("throwing_calls");
    if (!threw) { x.m = before; x.check("after move assignment between unequal allocators", rng); }
    x.s.clear(); x.m.clear(); y.s.clear(); y.m.clear();
    build_shape(x.s, x.m, rng, rng.below(60));
  }
  alignas(S) unsigned char room[sizeof(S)];
  S* z = nullptr;
  calmly("move construction", [&] { z = ::new (static_cast<void*>(room)) S(std::move(x.s)); });
  V::content(*z, x.m, "after move construction"); V::segments(*z, x.m, "after move construction");
  VT_CHECK(x.s.empty() && x.s.height() == 0, "content", "a move leaves its source with elements");
  Al al = z->get_allocator();
  calmly("move construction with an equal allocator", [&] { S w(std::move(*z), al); w.swap(x.s); });
  if (!P::cs || al.arena->id == x.a) { x.check("after a move and a swap", rng); }
  calmly("destroying an empty sequence", [&] { z->~S(); });
  calmly("clear", [&] { y.s.clear(); }); y.m.clear();
  V::content(y.s, y.m, "after clear");
  z = ::new (static_cast<void*>(room)) S(std::move(x.s));
  calmly("the destructor", [&] { z->~S(); });
  x.m.clear();
}
template <class Q> static bool fewer(Q& s, std::size_t k) {
  if constexpr (std::is_default_constructible<typename Q::value_type>::value) { calmly("resize to fewer", [&] { s.resize((Z)k); }); return true; }
  else return false;
}
static void removals(Rng& rng) {
  if constexpr (calm) {
    One x(0, rng, 260);
    int kind = (int)rng.below(4);
    for (long left = VT_LONG ? 40 : LONG_MAX; x.m.size(); --left) {
      if (!left) { calmly("clear", [&] { x.s.clear(); }); x.m.clear(); break; }
      std::size_t n = x.m.size(), i = kind == 0 ? 0 : kind == 1 ? n - 1 : kind == 2 ? rng.below(n) : n / 2;
      switch (rng.below(kind == 3 || VT_LONG ? 12 : 5)) {
        case 0: calmly("pop_back", [&] { x.s.pop_back(); }); x.m.pop_back(); break;
        case 1: calmly("pop_front", [&] { x.s.pop_front(); }); x.m.erase(x.m.begin()); break;
        case 5: { std::size_t j = i + rng.below(n - i + 1); calmly("erase of a range", [&] { x.s.erase(CIt(x.s.nth((Z)i)), CIt(x.s.nth((Z)j))); }); x.m.erase(x.m.begin() + (long)i, x.m.begin() + (long)j); break; }
        case 6: { std::size_t k = n - rng.below(std::min<std::size_t>(n, VT_LONG ? n : 20)); if (fewer(x.s, k)) x.m.resize(k); break; }
        case 7: { u64 r = rng.in(2, 9); calmly("remove_if", [&] { x.s.remove_if([&](T const& e) { return peep(e) % r == 0; }); }); x.m.erase(std::remove_if(x.m.begin(), x.m.end(), [&](u64 v) { return v % r == 0; }), x.m.end()); break; }
        case 8: { u64 r = rng.in(2, 5); calmly("unique", [&] { x.s.unique([&](T const& a, T const& b) { return peep(a) % r == peep(b) % r; }); }); x.m.erase(std::unique(x.m.begin(), x.m.end(), [&](u64 a, u64 b) { return a % r == b % r; }), x.m.end()); break; }
        case 9: calmly("reverse", [&] { x.s.reverse(); }); std::reverse(x.m.begin(), x.m.end()); break;
        default: { std::size_t at = 0; calmly("erase", [&] { It r = x.s.erase(CIt(x.s.nth((Z)i))); at = x.s.index_of(r); }); x.m.erase(x.m.begin() + (long)i); VT_CHECK(at == i, "iterator", "erase returns position %zu, not %zu", at, i); break; }
      }
      saw(mix(x.s.height(), x.m.size()));
      if (rng.one_in(8)) x.check("after removals without memory", rng);
      if (rng.one_in(300)) { calmly("clear", [&] { x.s.clear(); }); x.m.clear(); }
    }
    x.check("removed to nothing", rng);
    VT_COUNT("emptied");
  }
}
// std::vector moves its elements when it grows if their moves cannot throw.
static void containers(Rng& rng) {
  std::vector<S> v;
  std::vector<Model> m;
  std::size_t n = rng.in(2, 9);
  for (std::size_t i = 0; i < n; ++i) { One x((int)rng.below(2), rng, 60); m.push_back(x.m); v.push_back(std::move(x.s)); }
  if constexpr (copyable) {
    std::vector<std::vector<const void*>> at(n);
    for (std::size_t i = 0; i < n; ++i) for (auto& x : v[i]) at[i].push_back(&x);
    calmly("growth of a vector of sequences", [&] { v.reserve(v.capacity() + 1 + rng.below(20)); }, true);
    for (std::size_t i = 0; i < n; ++i) { std::size_t k = 0; for (auto& x : v[i]) VT_CHECK(at[i][k++] == &x, "takeover", "growth of a vector of sequences moved element %zu", k - 1); }
  }
  for (std::size_t i = 0; i < n; ++i) V::content(v[i], m[i], "in a vector");
  if (P::cma) {
    std::size_t i = rng.below(n);
    calmly("erasing a sequence from a vector", [&] { v.erase(v.begin() + (long)i); }); m.erase(m.begin() + (long)i);
    std::size_t k = P::cs ? rng.below(n - 1) : 0;   // (swaps)
    if (P::cs) calmly("rotating a vector of sequences", [&] { std::rotate(v.begin(), v.begin() + (long)k, v.end()); }); std::rotate(m.begin(), m.begin() + (long)k, m.end());
    for (std::size_t j = 0; j + 1 < n; ++j) V::content(v[j], m[j], "rotated in a vector");
  }
  calmly("destroying a vector of sequences", [&] { v.clear(); });
  VT_COUNT("vectors");
}

int main(int argc, char** argv) {
  init(argc, argv, VT_UNIT);
  std::set_terminate([] { heap_gone() = false; ev().fault_in = -1; std::abort(); });
  for (u64 id = 0; id < (u64)VT_CASES * st().scale; ++id) {
    if (!my_case(id)) continue;
    begin_case(id);
    Rng rng(case_seed(id));
    if (id < st().shards) {
      promises<S>();
      if (P::cma) { PROMISED("move assignment with a propagating allocator", std::declval<S&>() = std::declval<S&&>()); }
      using D0 = boost::segmented_tree::seq<T>;
      promises<D0>(); more_promises<D0>();
      using M = boost::segmented_tree::seq<T, Moody<T>, VT_SEG, VT_BASE>;
      VT_CHECK(!std::is_nothrow_default_constructible<M>::value, "noexcept", "default construction is noexcept although the allocator's may throw");
      moody() = true;
      bool threw = false;
      try { M m; } catch (Boom&) { threw = true; }
      moody() = false;
      VT_CHECK(threw, "noexcept", "an exception of the allocator's default constructor is lost");
      promises<M>();
    }
    arenas().reset(); arenas().get(1);
    VT_COUNT("operations");
    takeovers(rng); removals(rng); containers(rng);
    arenas().expect_empty("after every sequence was destroyed");
    if (id < 2) sample(trace(8));
  }
  return finish();
}
