// Unit: every failure point of every operation. Each operation is repeated on
// an identical sequence with the 1st, 2nd, ... event that can throw throwing
// (allocation, element copy/construction, comparison, predicate, source
// iterator; moves and allocator construct where VT_MODE is 13), until it
// succeeds. VT_MODE 11 strong, 12 bulk, 13 throwing relocation.
#include "shape.hpp"
#include <algorithm>
using namespace vt;
using T = VT_T;
using Al = VT_ALLOC;
using S = boost::segmented_tree::seq<T, Al, VT_SEG, VT_BASE>;
using V = View<S>;
using E = El<T>;
using It = S::iterator;
using CIt = S::const_iterator;
using Z = S::size_type;
#ifndef VT_MAXN
#define VT_MAXN 45
#endif
static constexpr bool copyable = std::is_copy_constructible<T>::value && std::is_copy_assignable<T>::value;
static bool counts;        // element type counts its instances
template <class Q> static void put(Q& s, typename Q::const_iterator p, u64 v) {
  if constexpr (std::is_constructible<typename Q::value_type, u64>::value) s.emplace(p, v); else s.emplace(p, E::make(v));
}
template <class Q> static void put_back(Q& s, u64 v) {
  if constexpr (std::is_constructible<typename Q::value_type, u64>::value) s.emplace_back(v); else s.emplace_back(E::make(v));
}
template <class Q> static void put_front(Q& s, u64 v) {
  if constexpr (std::is_constructible<typename Q::value_type, u64>::value) s.emplace_front(v); else s.emplace_front(E::make(v));
}
template <class U> static u64 dflt_value() { if constexpr (std::is_same<U, std::string>::value) return El<U>::get(U()); else return 0; }
static constexpr bool dflt = std::is_default_constructible<T>::value;

// A sequence of live elements, whatever their values: every walk agrees.
static std::vector<u64> audit(S& s, const char* when) {
  std::vector<u64> got;
  std::size_t n = s.size(), k = 0;
  VT_CHECK(s.empty() == (n == 0), "consistency", "%s: empty() wrong at size %zu", when, n);
  for (auto& x : s) { VT_CHECK(got.size() < n, "consistency", "%s: traversal visits more than size() = %zu elements", when, n); got.push_back(peek(x)); }
  VT_CHECK(got.size() == n, "consistency", "%s: traversal visits %zu elements, size() is %zu", when, got.size(), n);
  for (auto it = s.rbegin(); it != s.rend(); ++it, ++k) VT_CHECK(k < n && peek(*it) == got[n - 1 - k], "consistency", "%s: backward traversal differs", when);
  for (k = 0; k < n; ++k) VT_CHECK(peek(s[(Z)k]) == got[k] && s.index_of(s.nth((Z)k)) == k, "consistency", "%s: element %zu differs when accessed by index", when, k);
  std::vector<u32> runs;
  if (n) {
    auto it = s.begin();
    for (k = 0; k < n; k += runs.back(), it.move_after_segment()) {
      std::ptrdiff_t len = raw(it.end()) - raw(it.begin());
      VT_CHECK(len > 0 && (std::size_t)len <= n - k && s.index_of(it) == k, "consistency", "%s: segment of %td at %zu of %zu", when, len, k, n);
      runs.push_back((u32)len);
    }
    VT_CHECK(it == s.end(), "consistency", "%s: segment walk does not end at end()", when);
  }
  Al al = s.get_allocator();
  Arena* a = ArenaOf<Al>::get(al);
  std::size_t B = node_capacity(a, sizeof(void*), sizeof(Z));
  check_shape(runs, n, s.height(), a->seg_cap, B, when);
  VT_COUNT("audits");
  return got;
}
static std::size_t runs_of(S& s) {
  std::size_t r = 0;
  if (s.size()) for (auto it = s.begin(); it != s.end(); it.move_after_segment()) ++r;
  return r;
}
struct Env {
  S s, o;                 // the sequence, and another one
  Model m, mo;
  long extra_live = 0;    // elements held by the harness
  Env(Al const& a, Al const& b) : s(a), o(b) {}
};
static void ledger(Env& e, const char* when) {
  std::size_t segs = runs_of(e.s) + runs_of(e.o);
  long live = 0;
  std::size_t nodes = 0;
  for (auto& a : arenas().all) { live += a->elem_live; nodes += (std::size_t)a->node_live; }
  VT_CHECK((std::size_t)live == segs, "leak", "%s: %ld segments are allocated, %zu are in use", when, live, segs);
  std::size_t lo = 0, hi = 0;
  for (S* q : {&e.s, &e.o}) {
    std::vector<u32> r;
    if (q->size()) for (auto it = q->begin(); it != q->end(); it.move_after_segment()) r.push_back((u32)(raw(it.end()) - raw(it.begin())));
    Al al = q->get_allocator();
    Arena* a = ArenaOf<Al>::get(al);
    NodeBounds b = check_shape(r, q->size(), q->height(), a->seg_cap, node_capacity(a, sizeof(void*), sizeof(Z)), when);
    lo += b.lo; hi += b.hi;
  }
  VT_CHECK(nodes == 0 || (nodes >= lo && nodes <= hi), "leak", "%s: %zu index nodes are allocated, %zu to %zu fit", when, nodes, lo, hi);
  long want = (long)(e.s.size() + e.o.size()) + e.extra_live;
  VT_CHECK(!counts || ev().live == want, "lifetime", "%s: %ld elements are alive, %ld expected", when, ev().live, want);
  std::size_t built = 0;
  bool log = false;
  for (auto& a : arenas().all) { built += a->built.size(); log |= a->log_objects; }
  if (log) VT_CHECK(built == e.s.size() + e.o.size(), "allocator", "%s: %zu elements are constructed through the allocator, %zu expected", when, built, (std::size_t)(e.s.size() + e.o.size()));
}
static void usable(Env& e, Rng& rng) {      // both sequences go on working
  for (S* q : {&e.s, &e.o}) {
    Model m = audit(*q, "after the failure");
    for (int k = 0; k < 6; ++k) {
      std::size_t i = rng.below(q->size() + 1);
      q->insert(CIt(q->nth((Z)i)), E::make(7));
      m.insert(m.begin() + (long)i, 7);
    }
    for (int k = 0; k < 9 && q->size(); ++k) {
      std::size_t i = rng.below(q->size());
      q->erase(CIt(q->nth((Z)i)));
      m.erase(m.begin() + (long)i);
    }
    Model got = audit(*q, "in use after the failure");
    VT_CHECK(got == m, "consistency", "modifications after the failure give wrong contents");
  }
  ledger(e, "in use after the failure");
}

struct ThrowIt {   // input iterator whose reads and steps may throw
  std::vector<u64> const* v; std::size_t at;
  using iterator_category = std::input_iterator_tag;
  using value_type = T; using difference_type = std::ptrdiff_t; using pointer = void*; using reference = T;
  T operator*() const { ev().maybe_throw(); return E::make((*v)[at]); }
  ThrowIt& operator++() { ev().maybe_throw(); ++at; return *this; }
  ThrowIt operator++(int) { auto c = *this; ++*this; return c; }
  friend bool operator==(ThrowIt const& a, ThrowIt const& b) { return a.at == b.at; }
  friend bool operator!=(ThrowIt const& a, ThrowIt const& b) { return a.at != b.at; }
};
static bool cmp(T const& a, T const& b) { ev().maybe_throw(); return peek(a) < peek(b); }
static bool eqv(T const& a, T const& b) { ev().maybe_throw(); return peek(a) == peek(b); }


template <class F> static bool attempt(F f, long k) {   // true: it threw
  ev().fault_in = k; ev().thrown = 0;
  bool threw = false;
  try { f(); } catch (Boom const&) { threw = true; }
  bool any = ev().thrown > 0;
  ev().fault_in = -1;
  VT_CHECK(threw || !any, "swallowed", "an exception thrown inside the operation did not reach the caller");
  if (threw) VT_COUNT("faults_injected");
  return threw;
}

// Sets up the same state over and over.
struct Scene {
  u64 seed; std::size_t n, no; bool dup, sorted, two_arenas;
  std::unique_ptr<Env> env;
  void reset() {
    env.reset();
    for (auto& a : arenas().all) VT_CHECK(a->blocks.empty(), "leak", "%zu blocks are allocated after both sequences were destroyed", a->blocks.size());
    VT_CHECK(ev().live == 0, "lifetime", "%ld elements are alive after both sequences were destroyed", ev().live);
    arenas().reset(); reg().at.clear();
    Arena *a = arenas().get(0), *b = arenas().get(two_arenas ? 1 : 0);
#ifdef VT_LOG
    a->log_objects = b->log_objects = true;
#endif
    env.reset(new Env(Al(a), Al(b)));
    Rng r(seed);
    bool fc = ev().fault_construct; ev().fault_construct = false;
    build_shape(env->s, env->m, r, n, dup);
    build_shape(env->o, env->mo, r, no, dup);
    if (sorted) {
      auto less = [](T const& x, T const& y) { return peek(x) < peek(y); };
      env->s.sort(less); env->o.sort(less);
      std::stable_sort(env->m.begin(), env->m.end()); std::stable_sort(env->mo.begin(), env->mo.end());
    }
    ev().fault_construct = fc;
  }
};

#define STEP(name, k) step(name, (long)(k), (long)i, (long)sc.n)
// ------------------------------------------------------------------ single
static void single_case(Scene& sc, int op, std::size_t i, Rng& rng) {
  static const char* names[] = {"insert(const&)", "insert(&&)", "emplace", "push_back(const&)", "push_back(&&)", "emplace_back", "push_front(const&)", "push_front(&&)", "emplace_front", "resize(n)",
                                "erase", "pop_back", "pop_front", "insert(own const&)", "push_back(own)", "emplace(own)", "insert(own&&)"};
  u64 v = 424242;
  std::size_t grow = 1 + rng.below(4), j = sc.n ? rng.below(sc.n) : 0;
  for (long k = 0;; ++k) {
    sc.reset();
    Env& e = *sc.env;
    std::size_t n = e.m.size();
    STEP(names[op], k);
    long allocs = 0; for (auto& a : arenas().all) allocs += (long)a->blocks.size();
    bool threw;
    Model want = e.m;
    {
      T x = E::make(v);
      e.extra_live = ev().live - (long)(e.s.size() + e.o.size());
      CIt p = e.s.nth((Z)i);
      auto f = [&] {
        switch (op) {
          case 0: if constexpr (copyable) { T const& c = x; e.s.insert(p, c); } break;
          case 1: e.s.insert(p, std::move(x)); break;
          case 2: put(e.s, p, v); break;
          case 3: if constexpr (copyable) { T const& c = x; e.s.push_back(c); } break;
          case 4: e.s.push_back(std::move(x)); break;
          case 5: put_back(e.s, v); break;
          case 6: if constexpr (copyable) { T const& c = x; e.s.push_front(c); } break;
          case 7: e.s.push_front(std::move(x)); break;
          case 8: put_front(e.s, v); break;
          case 9: if constexpr (dflt) e.s.resize((Z)(n + grow)); break;
          case 10: e.s.erase(p); break;
          case 11: e.s.pop_back(); break;
          case 12: e.s.pop_front(); break;
          case 13: if constexpr (copyable) { T const& c = e.s[(Z)j]; e.s.insert(p, c); } break;
          case 14: if constexpr (copyable) e.s.push_back(e.s[(Z)j]); break;
          case 15: if constexpr (copyable) e.s.emplace(p, e.s[(Z)j]); break;
          default: e.s.insert(p, std::move(e.s[(Z)j])); break;
        }
      };
      std::size_t at = op == 3 || op == 4 || op == 5 ? n : op >= 6 && op <= 8 ? 0 : i;
      if (op >= 13) { u64 w = e.m[j]; want.insert(want.begin() + (long)(op == 14 ? n : i), w); }
      else if (op < 9) want.insert(want.begin() + (long)at, v);
      else if (op == 9) want.resize(n + grow, dflt_value<T>());
      else want.erase(want.begin() + (long)(op == 10 ? i : op == 11 ? n - 1 : 0));
      threw = attempt(f, k);
      if (threw) {
        saw(mix(mix(sc.seed, (u64)op * 1000 + i), (u64)k));
#if VT_MODE == 11
        VT_CHECK(op != 0 && op != 3 && op != 6 ? true : E::get(x) == v, "argument", "%s changed its const argument", names[op]);
        if (op == 1 || op == 4 || op == 7) VT_CHECK(E::get(x) == v, "argument", "%s threw (failure point %ld) and did not keep its argument's value", names[op], k);
        V::content(e.s, e.m, "after a failed call");
        V::segments(e.s, e.m, "after a failed call");
        long now = 0; for (auto& a : arenas().all) now += (long)a->blocks.size();
        // a rolled-back resize may leave another (valid) shape; the ledger below judges leaks exactly
        VT_CHECK(op == 9 || now == allocs, "leak", "%s threw (failure point %ld) and left %ld more blocks allocated", names[op], k, now - allocs);
#else
        VT_CHECK(peek(x) == v || op >= 3 || true, "argument", "argument died");
        Model known = e.m; std::sort(known.begin(), known.end());
        for (u64 g : audit(e.s, "after a failed call")) VT_CHECK(g == v || std::binary_search(known.begin(), known.end(), g), "content", "an element has a value nobody gave it");
        (void)allocs;
#endif
        VT_CHECK(e.s.size() == n || VT_MODE != 11, "content", "size() is %zu after a failed call, was %zu", (std::size_t)e.s.size(), n);
        ledger(e, "after a failed call");
      }
    }
    e.extra_live = 0;
    if (threw) {
#if VT_MODE == 11
      // trying again succeeds
      It r = e.s.emplace(CIt(e.s.nth((Z)i)), E::make(v));
      e.m.insert(e.m.begin() + (long)i, v);
      V::exercise(e.s, e.m, r, i, rng, "retry");
      V::content(e.s, e.m, "after the retry");
#endif
      usable(e, rng);
      VT_CHECK(k < 5000, "does-not-terminate", "%s still throws at failure point %ld", names[op], k);
      continue;
    }
    if (op == 16) e.s[(Z)(j + (j >= i))] = E::make(want[j + (j >= i)]);    // moved from
    V::content(e.s, want, "after the call succeeded");
    ledger(e, "after the call succeeded");
    VT_ADD("failure_points", k);
    VT_COUNT("operations");
    break;
  }
}
// ------------------------------------------------------------------ bulk
static void bulk_case(Scene& sc, int op, std::size_t i, Rng& rng) {
  static const char* names[] = {"ctor(n,v)", "ctor(n)", "ctor(range)", "ctor(ilist)", "copy ctor", "copy ctor(alloc)", "move ctor(other alloc)", "assign(n,v)", "assign(range)", "operator=(ilist)", "copy assign",
                                "move assign(other alloc)", "insert(n,v)", "insert(range)", "resize(n,v)", "splice", "splice(one)", "splice(range)", "merge", "sort", "unique", "remove_if", "remove", "reverse", "erase(range)", "insert(ilist)", "ctor(forward range)", "insert(copies)", "splice(own element)", "splice(own range)", "copy assign(itself)", "insert(n,own)", "assign(forward range)", "assign(n,own)", "resize(n,own)"};
  std::size_t cnt = len_or_long(rng, 25), j = rng.below(sc.no + 1), l = j + rng.below(sc.no - j + 1);
  std::size_t i2 = i + rng.below(sc.n - i + 1);
  std::size_t own = sc.n ? rng.below(sc.n) : 0;
  std::size_t to = rng.below(sc.n + 1 - (i2 - i));       // a place outside [i, i2)
  if (to > i) to += i2 - i;
  std::vector<u64> vs;
  for (std::size_t q = 0; q < cnt; ++q) vs.push_back(1000 + rng.below(50));
  for (long k = 0;; ++k) {
    sc.reset();
    Env& e = *sc.env;
    std::size_t n = e.m.size(), no = e.mo.size();
    STEP(names[op], k);
    bool threw, skipped = false;
    Model want = e.m, wanto = e.mo;
    bool ctor = false, keep_s = false, keep_o = true;   // which sequences a failure may not touch
    int ins = 0;                                        // 1: vs inserted at i; a failure leaves a prefix of it
    {
      T x = E::make(777);
      std::vector<T> ts;
      for (u64 v : vs) { if constexpr (true) ts.push_back(E::make(v)); }
      e.extra_live = ev().live - (long)(e.s.size() + e.o.size());
      CIt p = e.s.nth((Z)i);
      Al al = e.s.get_allocator(), alo = e.o.get_allocator();
      S* made = nullptr;
      std::unique_ptr<S> hold;
      auto f = [&]() {
        switch (op) {
          case 0: ctor = true; if constexpr (copyable) { made = new S((Z)cnt, x, al); } break;
          case 1: ctor = true; if constexpr (dflt) { made = new S((Z)cnt, al); } break;
          case 2: ctor = true; made = new S(ThrowIt{&vs, 0}, ThrowIt{&vs, vs.size()}, al); break;
          case 3: ctor = true; if constexpr (copyable) { made = new S({x, x, x, x, x}, al); } break;
          case 4: ctor = true; if constexpr (copyable) { made = new S(e.s); } break;
          case 5: ctor = true; if constexpr (copyable) { made = new S(e.s, alo); } break;
          case 6: keep_o = false; ctor = false; if (sc.two_arenas) { made = new S(std::move(e.o), al); } break;
          case 7: if constexpr (copyable) e.s.assign((Z)cnt, x); break;
          case 8: e.s.assign(ThrowIt{&vs, 0}, ThrowIt{&vs, vs.size()}); break;
          case 9: if constexpr (copyable) e.s = {x, x, x}; break;
          case 10: if constexpr (copyable) e.s = e.o; break;
          case 11: keep_o = false; if (sc.two_arenas) e.s = std::move(e.o); break;
          case 12: ins = 2; if constexpr (copyable) e.s.insert(p, (Z)cnt, x); break;
          case 13: ins = 1; e.s.insert(p, ThrowIt{&vs, 0}, ThrowIt{&vs, vs.size()}); break;
          case 14: if constexpr (copyable) e.s.resize((Z)(n + cnt), x); break;
          case 15: keep_o = false; e.s.splice(p, e.o); break;
          case 16: keep_o = false; if (j < no) e.s.splice(p, e.o, e.o.nth((Z)j)); break;
          case 17: keep_o = false; e.s.splice(p, e.o, e.o.nth((Z)j), e.o.nth((Z)l)); break;
          case 18: keep_o = false; e.s.merge(e.o, cmp); break;
          case 19: e.s.sort(cmp); break;
          case 20: e.s.unique(eqv); break;
          case 21: e.s.remove_if([](T const& y) { ev().maybe_throw(); return peek(y) % 3 == 0; }); break;
          case 22: e.s.remove_if([](T const& y) { ev().maybe_throw(); return peek(y) % 2 == 0; }); break;
          case 23: e.s.reverse(); break;
          case 24: e.s.erase(p, CIt(e.s.nth((Z)i2))); break;
          case 25: ins = 3; if constexpr (copyable) e.s.insert(p, {x, x, x, x, x, x}); break;
          case 26: ctor = true; if constexpr (copyable) made = new S(e.s.begin(), e.s.end(), al); break;
          case 27: ins = 4; if constexpr (copyable) e.s.insert(p, e.o.begin(), e.o.end()); break;
          case 28: e.s.splice(p, e.s, CIt(e.s.nth((Z)own))); break;
          case 29: e.s.splice(CIt(e.s.nth((Z)to)), e.s, CIt(e.s.nth((Z)i)), CIt(e.s.nth((Z)i2))); break;
          case 30: if constexpr (copyable) { S& same = e.s; e.s = same; } break;
          case 31: ins = 5; if constexpr (copyable) e.s.insert(p, (Z)cnt, e.s[(Z)own]); break;
          case 32: if constexpr (copyable) e.s.assign(e.o.begin(), e.o.end()); break;
          case 33: if constexpr (copyable) e.s.assign((Z)cnt, T(e.s[(Z)own])); break;
          default: if constexpr (copyable) e.s.resize((Z)(n + cnt), e.s[(Z)own]); break;
        }
      };
      bool needs_copy = op == 0 || op == 3 || op == 4 || op == 5 || op == 7 || op == 9 || op == 10 || op == 12 || op == 14 || (op >= 25 && op != 28 && op != 29);
      if ((needs_copy && !copyable) || (op == 1 && !dflt) || ((op == 6 || op == 11) && !sc.two_arenas) || (n == 0 && (op == 28 || op == 31 || op >= 33))) skipped = true;
      if (skipped) return;
      threw = attempt(f, k);
      hold.reset(made);
      if (threw) {
        saw(mix(mix(sc.seed, (u64)op * 1000 + i), (u64)k));
        (void)keep_s;
        if (ctor) { V::content(e.s, e.m, "after a failed constructor"); }
        if (keep_o) V::content(e.o, e.mo, "the source after a failed call");
        if (ins && VT_MODE == 12 && std::is_nothrow_move_constructible<T>::value) {
          // the other elements keep their values and order around what was inserted
          Model got = audit(e.s, "after a failed insertion");
          std::size_t extra = got.size() - n;
          Model part = ins == 1 ? vs : ins == 2 ? Model(cnt, 777) : ins == 3 ? Model(6, 777) : ins == 5 ? Model(cnt, e.m[own]) : e.mo;
          VT_CHECK(got.size() >= n && extra <= part.size(), "content", "%s threw and left %zu elements where there were %zu", names[op], got.size(), n);
          bool ok = std::equal(e.m.begin(), e.m.begin() + (long)i, got.begin()) && std::equal(e.m.begin() + (long)i, e.m.end(), got.begin() + (long)(i + extra));
          std::sort(part.begin(), part.end());
          for (std::size_t q = i; ok && q < i + extra; ++q) ok = std::binary_search(part.begin(), part.end(), got[q]);
          VT_CHECK(ok, "content", "%s threw (failure point %ld) and disturbed the other elements", names[op], k);
        }
        if (op == 16 || op == 17) {   // the elements outside the range stay
          Model got = audit(e.o, "the source of a failed splice");
          std::size_t hi = op == 16 ? j + 1 : l;
          bool ok = std::is_nothrow_move_constructible<T>::value ? got.size() == no : true;
          for (std::size_t q = 0; ok && q < no; ++q) if ((q < j || q >= hi) && got.size() == no && got[q] != e.mo[q]) ok = false;
          if (std::is_nothrow_move_constructible<T>::value) VT_CHECK(ok, "content", "a failed splice changed elements outside its range");
        }
        VT_CHECK(peek(x) == 777, "argument", "a failed call changed its argument");
        audit(e.s, "after a failed call"); audit(e.o, "after a failed call");
        if (made) fail("content", "constructor threw and returned");
        ledger(e, "after a failed call");
      } else {
        switch (op) {
          case 0: want = Model(cnt, 777); break;
          case 1: want = Model(cnt, 0); break;
          case 2: case 8: want = vs; break;
          case 3: want = Model(5, 777); break;
          case 6: want = e.mo; break;
          case 7: want = Model(cnt, 777); break;
          case 9: want = Model(3, 777); break;
          case 10: case 11: want = e.mo; break;
          case 12: want.insert(want.begin() + (long)i, cnt, 777); break;
          case 13: want.insert(want.begin() + (long)i, vs.begin(), vs.end()); break;
          case 14: want.resize(n + cnt, 777); break;
          case 15: want.insert(want.begin() + (long)i, e.mo.begin(), e.mo.end()); wanto.clear(); break;
          case 16: if (j < no) { want.insert(want.begin() + (long)i, e.mo[j]); wanto.erase(wanto.begin() + (long)j); } break;
          case 17: want.insert(want.begin() + (long)i, e.mo.begin() + (long)j, e.mo.begin() + (long)l); wanto.erase(wanto.begin() + (long)j, wanto.begin() + (long)l); break;
          case 18: { Model r; std::merge(want.begin(), want.end(), wanto.begin(), wanto.end(), std::back_inserter(r)); want = r; wanto.clear(); break; }
          case 19: std::stable_sort(want.begin(), want.end()); break;
          case 20: want.erase(std::unique(want.begin(), want.end()), want.end()); break;
          case 21: want.erase(std::remove_if(want.begin(), want.end(), [](u64 y) { return y % 3 == 0; }), want.end()); break;
          case 22: want.erase(std::remove_if(want.begin(), want.end(), [](u64 y) { return y % 2 == 0; }), want.end()); break;
          case 23: std::reverse(want.begin(), want.end()); break;
          case 24: want.erase(want.begin() + (long)i, want.begin() + (long)i2); break;
          case 25: want.insert(want.begin() + (long)i, 6, 777); break;
          case 27: want.insert(want.begin() + (long)i, e.mo.begin(), e.mo.end()); break;
          case 28: { u64 w = want[own]; want.insert(want.begin() + (long)i, w); want.erase(want.begin() + (long)(own + (own >= i))); break; }
          case 29: {
            Model part(want.begin() + (long)i, want.begin() + (long)i2);
            want.erase(want.begin() + (long)i, want.begin() + (long)i2);
            std::size_t q = to <= i ? to : to - part.size();
            want.insert(want.begin() + (long)q, part.begin(), part.end());
            break;
          }
          case 31: { u64 w = want[own]; want.insert(want.begin() + (long)i, cnt, w); break; }
          case 32: want = e.mo; break;
          case 33: want = Model(cnt, e.m[own]); break;
          case 34: want.resize(n + cnt, e.m[own]); break;
          default: break;
        }
        S& res = hold ? *hold : e.s;
        V::content(res, want, "after the call succeeded");
        if (op != 6 && op != 11) V::content(e.o, wanto, "the other sequence after the call succeeded");
        hold.reset();
        audit(e.o, "after the call succeeded");
        ledger(e, "after the call succeeded");
      }
    }
    e.extra_live = 0;
    if (threw) {
      usable(e, rng);
      if (rng.one_in(2)) { e.s.clear(); e.o.clear(); ledger(e, "cleared after the failure"); }
      VT_CHECK(k < 20000 + 200 * VT_LONG, "does-not-terminate", "%s still throws at failure point %ld", names[op], k);
      if (k > 60) k += (long)rng.below(VT_LONG ? (u64)k : 12);      // long operations: not every late point
      continue;
    }
    VT_ADD("failure_points", k);
    VT_COUNT("operations");
    break;
  }
}

int main(int argc, char** argv) {
  init(argc, argv, VT_UNIT);
  reg().on = true;
  { long b = ev().live; T x = E::make(1); counts = ev().live > b; }
#ifdef VT_CONSTRUCT
  ev().fault_construct = true;
#endif
  for (u64 id = 0; id < (u64)VT_CASES * st().scale; ++id) {
    if (!my_case(id)) continue;
    begin_case(id);
    Rng rng(case_seed(id));
    Scene sc;
    sc.seed = rng.next() >> 1;
    sc.n = id % 8 < 3 ? rng.below(6) : len_or_long(rng, VT_MAXN);
    sc.no = len_or_long(rng, VT_MAXN / 3);
    sc.dup = rng.one_in(4);
    sc.sorted = false;
    sc.two_arenas = rng.one_in(2);
    ev().sticky = VT_MODE == 13 ? rng.one_in(3) : rng.one_in(4);
#if VT_MODE == 12
    int op = (int)rng.below(35);
    sc.sorted = op == 18;
    std::size_t i = rng.below(sc.n + 1);
    bulk_case(sc, op, i, rng);
#else
    // all positions of one shape, one operation
    int op = (int)rng.below(VT_MODE == 13 ? 13 : 10);
    if (rng.one_in(4) && sc.n) op = copyable ? 13 + (int)rng.below(4) : 16;
    if (op == 9 && (!dflt || VT_MODE == 13)) op = VT_MODE == 13 ? 10 : 1;
    if (!copyable && (op == 0 || op == 3 || op == 6)) op = 1;
    if (op >= 10 && sc.n == 0) sc.n = 5;
    bool pos = op < 3 || op == 10 || op == 13 || op >= 15;
    for (std::size_t i = 0, by = VT_LONG ? sc.n / 3 + 1 : 1; i < (pos ? sc.n + (op != 10) : 1); i += by) single_case(sc, op, VT_LONG && pos ? i + rng.below(std::min(by, sc.n + (op != 10) - i)) : i, rng);
#endif
    if (id < 3) sample("size " + std::to_string(sc.n) + ": " + trace(3));
    sc.env.reset();
    arenas().expect_empty("after both sequences were destroyed");
    VT_CHECK(ev().live == 0 && reg().at.empty(), "lifetime", "%ld elements are alive at the end", ev().live);
  }
  return finish();
}
