// Unit: trees of the smallest nodes, about twenty levels high. Growth at one
// end leaves two children to a node, so that 2^k segments stand k levels high;
// every step of growth may fail at an allocation far down the chain of nodes
// it needs, and every way of destruction goes through all levels.
#include "view.hpp"
#include <algorithm>
using namespace vt;
using T = VT_T;
using Al = VT_ALLOC;
using S = boost::segmented_tree::seq<T, Al, VT_SEG, VT_BASE>;
using V = View<S>;
using E = El<T>;
using It = S::iterator;
using CIt = S::const_iterator;
using Z = S::size_type;
using D = S::difference_type;
static constexpr bool copyable = std::is_copy_constructible<T>::value && std::is_copy_assignable<T>::value;
// A move that throws may cost the value moved, unless only the new one moves.
static constexpr bool fragile = !std::is_nothrow_move_constructible<T>::value;
template <class A> static A make_alloc() { if constexpr (std::is_constructible<A, Arena*>::value) return A(arenas().get(0)); else return A(); }
struct Blocks { long elem, node; };
static Blocks blocks() { auto* a = arenas().get(0); return {a->elem_live, a->node_live}; }
static bool ledger() { return !std::is_same<Al, std::allocator<T>>::value; }

// Contents, walks, shape and the blocks it takes.
static void survey(S& s, Model const& m, Rng& rng, const char* when) {
  V::content(s, m, when);
  auto runs = V::segments(s, m, when);
  V::positions(s, m, rng, 40);
  Arena* a = arenas().get(0);
  bool led = ledger();
  std::size_t B = led && s.height() > 1 ? node_capacity(a, sizeof(S::pointer), sizeof(Z)) : 0;
  NodeBounds nb = check_shape(runs, m.size(), s.height(), led ? a->seg_cap : 0, B, when);
  if (led) {
    VT_CHECK((std::size_t)a->elem_live == runs.size(), "leak", "%s: %ld segments are allocated, %zu are in use", when, a->elem_live, runs.size());
    VT_CHECK(B == 0 || ((std::size_t)a->node_live >= nb.lo && (std::size_t)a->node_live <= nb.hi), "leak", "%s: %ld index nodes are allocated, %zu to %zu fit", when, a->node_live, nb.lo, nb.hi);
  }
  saw(shape_hash(runs, s.height()));
  long& top = ctr("levels");
  top = std::max(top, (long)s.height());
}
static void poke(S& s, Model const& m, Rng& rng, int k) {
  std::size_t n = m.size();
  for (int q = 0; q < k; ++q) {
    std::size_t i = q == 0 ? 0 : q == 1 ? n : q == 2 ? n / 2 : rng.below(n + 1);
    It it = i == n ? s.end() : s.nth((Z)i);
    if (rng.one_in(2)) V::exercise(s, m, it, i, rng, "tall"); else V::exercise(s, m, CIt(it), i, rng, "tall");
    VT_COUNT("operations");
  }
}
// f, with the k-th event that may throw throwing; false: it threw, and all is as before.
template <class F> static bool attempt(S& s, long k, F f) {
  Blocks before = blocks();
  long live = ev().live;
  std::size_t n = s.size(), h = s.height();
  ev().fault_in = k; ev().thrown = 0;
  bool threw = false;
  try { f(); } catch (Boom const&) { threw = true; }
  bool any = ev().thrown > 0;
  ev().fault_in = -1;
  VT_CHECK(threw || !any, "swallowed", "an exception thrown inside the operation did not reach the caller");
  VT_COUNT("operations");
  if (!threw) return true;
  VT_COUNT("faults_injected");
  VT_CHECK(s.size() == n && s.height() == h, "exception-safety", "a failed insertion left size %zu height %zu, before %zu and %zu", (std::size_t)s.size(), (std::size_t)s.height(), n, h);
  if (ledger()) VT_CHECK(blocks().elem == before.elem && blocks().node == before.node, "leak", "a failed insertion left %ld segments and %ld nodes, before %ld and %ld", blocks().elem, blocks().node, before.elem, before.node);
  VT_CHECK(ev().live == live, "lifetime", "a failed insertion left %ld elements alive, before %ld", ev().live, live);
  return false;
}
static void put(S& s, std::size_t i, u64 v, int how) {
  std::size_t n = s.size();
  T x = E::make(v);
  if (i == n && how % 3 == 0) s.push_back(std::move(x));
  else if (i == 0 && how % 3 == 0) s.push_front(std::move(x));
  else if (how % 3 == 1) { if constexpr (copyable) s.insert(CIt(s.nth((Z)i)), x); else s.insert(CIt(s.nth((Z)i)), std::move(x)); }
  else s.emplace(CIt(s.nth((Z)i)), std::move(x));
}
int main(int argc, char** argv) {
  init(argc, argv, VT_UNIT);
  reg().on = VT_REG;
  for (u64 id = 0; id < (u64)VT_CASES * st().scale; ++id) {
    if (!my_case(id)) continue;
    begin_case(id);
    watchdog(300);
    arenas().reset(); reg().at.clear();
    Rng rng(case_seed(id));
    {
      Al al = make_alloc<Al>();
      S s(al);
      Model front, back;                       // front is kept backwards
      const int kind = fragile ? 0 : (int)(id % 4);
      const std::size_t top = VT_TOP + rng.below(VT_TOP / 2);
      step("grow", kind, (long)top);
      for (std::size_t i = 0; i < top; ++i) {
        u64 v = E::norm(i * 2654435761ull + id);
        bool fr = kind == 1 || (kind == 2 && i % 2);
        // 3: always in the same gap, between a first part that grows and a last that does not
        std::size_t at = fr ? 0 : kind == 3 ? back.size() - std::min<std::size_t>(back.size(), 7) : s.size();
        long k = rng.one_in(4) ? (long)rng.below(8) : 9 + (long)rng.below(14);
        for (int tries = 0; !attempt(s, k, [&] { put(s, at, v, (int)(i % 7)); }); ++tries) k = tries > 8 ? 1000 : (long)rng.below(24);
        if (fr) front.push_back(v); else if (kind == 3) back.insert(back.begin() + (long)at, v); else back.push_back(v);
      }
      Model m(front.rbegin(), front.rend());
      m.insert(m.end(), back.begin(), back.end());
      survey(s, m, rng, "grown");
      poke(s, m, rng, 60);
      step("height", (long)s.height(), (long)m.size());
      if (id < 2) sample(std::to_string(m.size()) + " elements, height " + std::to_string(s.height()));
      // whole-tree operations
      Blocks whole = blocks();
      long live = ev().live;
      std::size_t held = rng.below(m.size());
      It it = s.nth((Z)held);
      {
        step("move");
        S t(std::move(s));
        V::exercise(t, m, it, held, rng, "held over a move");
        VT_CHECK(s.empty(), "transfer", "the source of a move has %zu elements", (std::size_t)s.size());
        s.swap(t);
        V::exercise(s, m, it, held, rng, "held over a swap");
        t = std::move(s);
        V::exercise(t, m, it, held, rng, "held over a move assignment");
        s = std::move(t);
      }
      if constexpr (copyable) {
        step("copy");
        { S c(s); VT_CHECK(c.size() == s.size(), "content", "a copy has %zu of %zu elements", (std::size_t)c.size(), (std::size_t)s.size()); V::content(c, m, "a copy"); }
        if (ledger()) VT_CHECK(blocks().elem == whole.elem && blocks().node == whole.node, "leak", "a copy destroyed left %ld segments and %ld nodes, before %ld and %ld", blocks().elem, blocks().node, whole.elem, whole.node);
        if (ledger()) {
          ev().fault_in = (long)rng.below(m.size()); ev().thrown = 0;
          bool threw = false;
          try { S c(s); } catch (Boom const&) { threw = true; }
          ev().fault_in = -1;
          VT_CHECK(threw || ev().thrown == 0, "swallowed", "a copy constructor did not pass an exception on");
          VT_COUNT("faults_injected");
          VT_CHECK(blocks().elem == whole.elem && blocks().node == whole.node, "leak", "a failed copy left %ld segments and %ld nodes, before %ld and %ld", blocks().elem, blocks().node, whole.elem, whole.node);
        }
        VT_CHECK(ev().live == live, "lifetime", "copies left %ld elements alive, before %ld", ev().live, live);
      }
      {
        step("splice");
        S o(al); Model mo;
        std::size_t a = rng.below(m.size() / 3), b = m.size() - rng.below(m.size() / 3);
        o.splice(o.end(), s, s.nth((Z)a), s.nth((Z)b));
        mo.assign(m.begin() + (long)a, m.begin() + (long)b); m.erase(m.begin() + (long)a, m.begin() + (long)b);
        V::content(s, m, "spliced from"); V::content(o, mo, "spliced to");
        V::segments(o, mo, "spliced to");
        std::size_t p = rng.below(m.size() + 1);
        s.splice(s.nth((Z)p), o);
        m.insert(m.begin() + (long)p, mo.begin(), mo.end());
        VT_CHECK(o.empty(), "content", "a sequence spliced away has %zu elements", (std::size_t)o.size());
        survey(s, m, rng, "spliced back");
      }
      step("reverse and remove_if");
      s.reverse(); std::reverse(m.begin(), m.end());
      V::content(s, m, "reversed");
      u64 salt = rng.next() | 1;
      auto gone = [&](u64 v) { return (mix(salt, v) & 3) == 0; };
      s.remove_if([&](T const& x) { return gone(E::get(x)); });
      m.erase(std::remove_if(m.begin(), m.end(), gone), m.end());
      survey(s, m, rng, "thinned out");
      poke(s, m, rng, 30);
      // down again, one by one and in blocks
      int end = (int)rng.below(5);
      step("shrink", end, (long)m.size());
      if (end == 4) { s.clear(); m.clear(); }
      std::size_t from = 0, to = m.size(), mid = to / 2, cut = mid, next = to / 4;
      for (std::size_t left = to; left > 40; --left) {
        std::size_t i = 0;
        switch (end) {
          case 0: ++from; break;
          case 1: --to; i = left - 1; break;
          case 2: if (left % 2) { ++from; } else { --to; i = left - 1; } break;
          default: if (cut > from && (left % 3 || mid == to)) { i = cut - 1 - from; --cut; } else { i = cut - from; ++mid; } break;
        }
        if (end == 0 && left % 5 == 0) s.pop_front();
        else if (end == 1 && left % 5 == 0) s.pop_back();
        else {
          auto r = s.erase(CIt(s.nth((Z)i)));
          VT_CHECK(s.index_of(r) == i, "iterator", "erase at %zu of %zu returned the index %zu", i, left, (std::size_t)s.index_of(r));
          if (i + 1 < left && left % 64 == 0) {
            std::size_t mi = end == 3 ? mid : from;
            VT_CHECK(E::get(*r) == m[mi], "content", "erase at %zu of %zu returned another element than the next", i, left);
          }
        }
        VT_COUNT("operations");
        if (left == next || left == 41) {
          Model rest;
          if (end == 3) { rest.assign(m.begin(), m.begin() + (long)cut); rest.insert(rest.end(), m.begin() + (long)mid, m.end()); }
          else rest.assign(m.begin() + (long)from, m.begin() + (long)to);
          survey(s, rest, rng, "shrinking");
          poke(s, rest, rng, 10);
          next = next / 3;
        }
      }
      if (rng.one_in(2)) s.clear();
    }
    arenas().expect_empty("after the sequence was destroyed");
    VT_CHECK(ev().live == 0, "lifetime", "%ld elements are alive after the sequence was destroyed", ev().live);
  }
  return finish();
}
