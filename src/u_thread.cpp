// Unit (C20): threads reading one sequence, writing distinct elements of it, and
// using sequences of their own that were swapped, moved or copied before.
// Built with ThreadSanitizer; every value read is also checked.
#include "shape.hpp"
#include <atomic>
#include <sched.h>
#include <thread>
using namespace vt;
namespace vt { inline bool operator==(Pod24 const& a, Pod24 const& b) { return a.a == b.a && a.b == b.b && a.c == b.c && a.d == b.d; } }
using T = VT_T;                          // plain types: the monitors keep shared counts
using S = boost::segmented_tree::seq<T, std::allocator<T>, VT_SEG, VT_BASE>;
using E = El<T>;
using CIt = S::const_iterator;
using Z = S::size_type;
using D = S::difference_type;

static std::atomic<int> gate;
static std::atomic<long> reads, writes, edits;
static void meet(int n) {                // start together
  gate.fetch_add(1);
  while (gate.load() < n) sched_yield();
}
static const int kThreads = 4;

[[noreturn]] static void wrong(const char* what, std::size_t i, u64 got, u64 want) {
  static std::atomic<bool> once;
  if (!once.exchange(true)) fail("content", "a thread read %s at %zu: %llu, expected %llu", what, i, (unsigned long long)got, (unsigned long long)want);
  for (;;) sched_yield();
}
#define EXPECT(i, x, what) do { long q_ = (long)(i); u64 g_ = E::get(x); if (g_ != m[(std::size_t)q_]) wrong(what, (std::size_t)q_, g_, m[(std::size_t)q_]); ++local; } while (0)

// Thread k reads elements i with i % (kThreads + 1) == 0 and k's own, and writes its own.
static void share(S& s, Model& m, int k, u64 seed, std::size_t rounds) {
  Rng rng(seed);
  S const& c = s;
  std::size_t n = m.size();
  long local = 0, wrote = 0;
  auto mine = [&](std::size_t i) { return i % (kThreads + 1) == 0 || i % (kThreads + 1) == (std::size_t)k + 1; };
  meet(kThreads);
  for (std::size_t r = 0; r < rounds; ++r) {
    std::size_t i = rng.below(n);
    switch (rng.below(12)) {
      case 0: if (mine(i)) EXPECT(i, s.at((Z)i), "at"); break;
      case 1: if (mine(i)) EXPECT(i, c.at((Z)i), "at const"); break;
      case 2: if (mine(i)) EXPECT(i, s[(Z)i], "[]"); break;
      case 3: if (mine(i)) EXPECT(i, c[(Z)i], "[] const"); break;
      case 4: {
        auto it = s.nth((Z)i);
        for (std::size_t q = i; q < n && q < i + 20; ++q, ++it) if (mine(q)) EXPECT(q, *it, "forward iteration");
        break;
      }
      case 5: {
        auto it = c.cend(); it -= (D)(n - i);
        for (std::size_t q = i; q > 0 && q + 20 > i; --q) { --it; if (mine(q - 1)) EXPECT(q - 1, *it, "backward iteration"); }
        break;
      }
      case 6: {
        std::size_t j = rng.below(n);
        auto a = s.begin() + (D)i; auto b = c.begin() + (D)j;
        if (b - CIt(a) != (D)j - (D)i || (a < b) != (i < j)) wrong("a difference", i, 0, 1);
        if (mine(j)) EXPECT(j, *b, "a jump");
        break;
      }
      case 7: if (c.index_of(c.nth((Z)i)) != i || s.index_of(s.nth((Z)i)) != i) wrong("index_of", i, 0, i); ++local; break;
      case 8: if (s.size() != n || c.empty() || c.height() < 1) wrong("size", n, s.size(), n); ++local; break;
      case 9: {
        auto it = s.nth((Z)i);
        auto b = it.begin(); auto e = it.end();
        if (e <= b) wrong("a segment", i, 0, 1);
        it.move_after_segment();
        if (it != s.end()) it.move_before_segment();
        ++local;
        break;
      }
      case 10:
        if (mine(0)) { EXPECT(0, s.front(), "front"); EXPECT(0, *c.begin(), "begin"); EXPECT(0, c.front(), "front const"); }
        if (mine(n - 1)) { EXPECT(n - 1, c.back(), "back"); EXPECT(n - 1, s.back(), "back"); EXPECT(n - 1, *c.penultimate(), "penultimate"); EXPECT(n - 1, *c.rbegin(), "rbegin"); }
        try { (void)c.at((Z)(n + i)); wrong("at beyond the end", n + i, 0, 0); } catch (std::out_of_range&) {}
        if (c.nth((Z)n) != c.end()) wrong("end", n, 0, 0);
        break;
      default: {
        std::size_t j = i - i % (kThreads + 1) + (std::size_t)k + 1;
        if (j >= n) break;
        u64 v = E::norm(rng.next());
        if (rng.one_in(3)) s[(Z)j] = E::make(v); else if (rng.one_in(2)) *s.nth((Z)j) = E::make(v); else s.at((Z)j) = E::make(v);
        m[j] = v;                         // distinct elements of the model too
        ++wrote;
      }
    }
  }
  reads += local; writes += wrote;
}
// A sequence of the thread's own: anything goes; another shared one is copied and compared.
static void own(S& s, Model& m, S const& common, Model const& cm, u64 seed, std::size_t rounds) {
  Rng rng(seed);
  long local = 0, n_edits = 0;
  u64 c = seed << 20;
  meet(kThreads);
  for (std::size_t r = 0; r < rounds; ++r) {
    std::size_t n = m.size(), i = rng.below(n + 1);
    ++n_edits;
    switch (rng.below(22)) {
      case 10: { std::vector<T> x; Model y; for (std::size_t k = rng.below(12); k; --k) { y.push_back(E::norm(++c)); x.push_back(E::make(y.back())); }
        if (rng.one_in(3)) { s.assign(x.begin(), x.end()); m = y; } else { s.insert(CIt(s.nth((Z)i)), x.begin(), x.end()); m.insert(m.begin() + (long)i, y.begin(), y.end()); } break; }
      case 11: { u64 v = E::norm(++c); std::size_t k = rng.below(3 * n / 2 + 8); if (rng.one_in(2)) s.resize((Z)k, E::make(v)); else { s.resize((Z)k); v = E::get(T()); } m.resize(k, v); break; }
      case 12: { u64 v = E::norm(++c); if (rng.one_in(2)) { s.push_front(E::make(v)); m.insert(m.begin(), v); } else { T const x = E::make(v); s.emplace_back(x); s.insert(CIt(s.begin()), x); m.push_back(v); m.insert(m.begin(), v); } break; }
      case 13: if (n > 1) { s.pop_back(); s.pop_front(); m.pop_back(); m.erase(m.begin()); } break;
      case 14: { S t(common.begin(), common.nth((Z)(cm.size() / 3))); Model y(cm.begin(), cm.begin() + (long)(cm.size() / 3));
        if (rng.one_in(2)) { s.splice(CIt(s.nth((Z)i)), t); m.insert(m.begin() + (long)i, y.begin(), y.end()); }
        else if (!y.empty()) { s.splice(CIt(s.nth((Z)i)), t, CIt(t.begin())); m.insert(m.begin() + (long)i, y[0]); s.splice(CIt(s.end()), t, CIt(t.begin()), CIt(t.end())); m.insert(m.end(), y.begin() + 1, y.end()); }
        if (!t.empty()) wrong("a spliced sequence", 0, 0, 0);
        break; }
      case 15: { auto lt = [](T const& a, T const& b) { return E::get(a) < E::get(b); }; S t; Model y; for (int k = 0; k < 9; ++k) { y.push_back(E::norm(++c)); t.push_back(E::make(y.back())); }
        s.sort(lt); t.sort(lt); std::stable_sort(m.begin(), m.end()); std::stable_sort(y.begin(), y.end()); s.merge(t, lt); Model z; std::merge(m.begin(), m.end(), y.begin(), y.end(), std::back_inserter(z)); m = z; break; }
      case 16: s.remove_if([](T const& a) { return E::get(a) % 13 == 5; }); m.erase(std::remove_if(m.begin(), m.end(), [](u64 a) { return a % 13 == 5; }), m.end()); break;
      case 17: s.unique([](T const& a, T const& b) { return E::get(a) == E::get(b); }); m.erase(std::unique(m.begin(), m.end()), m.end()); break;
      case 18: if (n) { u64 v = m[i % n]; if (rng.one_in(2)) s.remove(s[(Z)(i % n)]); else { T const x = s[(Z)(i % n)]; s.remove(x); } m.erase(std::remove(m.begin(), m.end(), v), m.end()); } break;
      case 19: if (rng.one_in(8)) { if (rng.one_in(2)) s.clear(); else s = S(); m.clear(); } break;
      case 20: { u64 v = E::norm(++c), w = E::norm(++c); S t{E::make(v), E::make(w)}; S u(t); if (u != t || !(u == t)) wrong("a copy", 0, 0, 0); s.insert(CIt(s.nth((Z)i)), {E::make(w), E::make(v)}); m.insert(m.begin() + (long)i, {w, v}); t.assign((Z)3, E::make(v)); if (t.size() != 3) wrong("assign", 0, 0, 3); break; }
      case 21: { std::size_t q = n; for (auto it = s.crbegin(); it != s.crend() && q + 30 > n; ++it) { --q; EXPECT(q, *it, "own reverse traversal"); } if (n) { auto it = s.begin(); it += (D)(i % n); it.move_after_segment(); it -= (D)1; EXPECT(s.index_of(it), *it, "own jump"); } break; }
      case 0: case 1: case 2: { u64 v = E::norm(++c); s.insert(CIt(s.nth((Z)i)), E::make(v)); m.insert(m.begin() + (long)i, v); break; }
      case 3: case 4: if (i < n) { s.erase(CIt(s.nth((Z)i))); m.erase(m.begin() + (long)i); } break;
      case 5: { std::size_t l = i + rng.below(std::min<std::size_t>(n - i, 30) + 1); s.erase(CIt(s.nth((Z)i)), CIt(s.nth((Z)l))); m.erase(m.begin() + (long)i, m.begin() + (long)l); break; }
      case 6: { std::size_t k = rng.below(20); u64 v = E::norm(++c); s.insert(CIt(s.nth((Z)i)), (Z)k, E::make(v)); m.insert(m.begin() + (long)i, k, v); break; }
      case 7: if (rng.one_in(6)) { s = common; m = cm; if (!(s == common)) wrong("a copy", 0, 0, 0); } break;
      case 8: if (rng.one_in(4)) { S t(common); t.swap(s); Model k = cm; k.swap(m); s.erase(CIt(s.nth((Z)(m.size() / 2))), CIt(s.end())); m.resize(m.size() / 2); } break;
      default:
        switch (rng.below(4)) {
          case 0: s.sort([](T const& a, T const& b) { return E::get(a) < E::get(b); }); std::stable_sort(m.begin(), m.end()); break;
          case 1: s.reverse(); std::reverse(m.begin(), m.end()); break;
          case 2: { S t(std::move(s)); s = std::move(t); break; }
          default: s.push_back(E::make(E::norm(++c))); m.push_back(E::norm(c));
        }
    }
    n = m.size();
    if (n > 400) { s.erase(CIt(s.nth(100)), CIt(s.end())); m.resize(100); n = 100; }
    if (s.size() != n) wrong("size", n, s.size(), n);
    if (n) { i = rng.below(n); EXPECT(i, s[(Z)i], "own []"); }
    if (r % 40 == 0) { std::size_t q = 0; for (auto& x : s) { EXPECT(q, x, "own traversal"); ++q; } }
  }
  reads += local; edits += n_edits;
}
static void one_case(Rng& rng) {
  S shared; Model m;
  std::size_t target = rng.one_in(4) ? rng.in(6, 40) : rng.in(100, 500);
  build_shape(shared, m, rng, target);
  if (m.empty()) return;
  saw(shape_of(shared, m));
  auto together = [&](auto f) {
    gate = 0;
    std::vector<std::thread> t;
    for (int k = 0; k < kThreads; ++k) { u64 seed = rng.next() >> 30; t.emplace_back([=] { f(k, seed); }); }
    for (auto& x : t) x.join();
  };
  step("shared use", (long)m.size(), (long)shared.height());
  together([&](int k, u64 seed) { share(shared, m, k, seed, VT_ROUNDS); });
  View<S>::content(shared, m, "after shared use");
  // Sequences related by earlier transfers, then used independently.
  S s[kThreads]; Model q[kThreads];
  for (int k = 0; k < kThreads; ++k) build_shape(s[k], q[k], rng, rng.below(200));
  for (int k = 0; k < 8; ++k) {
    int i = (int)rng.below(kThreads), j = (int)rng.below(kThreads);
    switch (rng.below(4)) {
      case 0: s[i].swap(s[j]); if (i != j) q[i].swap(q[j]); break;
      case 1: if (i != j) { s[i] = std::move(s[j]); q[i] = q[j]; q[j].clear(); s[j].clear(); } break;
      case 2: s[i] = s[j]; q[i] = q[j]; break;
      default: if (i != j) { s[i].splice(CIt(s[i].end()), s[j]); q[i].insert(q[i].end(), q[j].begin(), q[j].end()); q[j].clear(); }
    }
  }
  step("independent use", (long)q[0].size(), (long)q[1].size());
  together([&](int k, u64 seed) { own(s[k], q[k], shared, m, seed, VT_ROUNDS / 2); });
  for (int k = 0; k < kThreads; ++k) { View<S>::content(s[k], q[k], "after independent use"); View<S>::segments(s[k], q[k], "after independent use"); }
  View<S>::content(shared, m, "after independent use");
}
int main(int argc, char** argv) {
  init(argc, argv, VT_UNIT);
#ifdef VT_SELFTEST
  { long x = 0; std::thread a([&] { ++x; }), b([&] { ++x; }); a.join(); b.join(); printf("SELFTEST %ld\n", x); }
#endif
  for (u64 id = 0; id < (u64)VT_CASES * st().scale; ++id) {
    if (!my_case(id)) continue;
    begin_case(id);
    Rng rng(case_seed(id));
    one_case(rng);
    VT_ADD("thread_runs", 2 * kThreads);
    if (id < 2) sample(trace(8));
  }
  VT_ADD("concurrent_reads", reads.load());
  VT_ADD("concurrent_writes", writes.load());
  VT_ADD("concurrent_edits", edits.load());
  VT_ADD("operations", reads.load() + writes.load() + edits.load());
  return finish();
}
