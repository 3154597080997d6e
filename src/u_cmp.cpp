// Unit (C16): the six comparison operators against std::vector's, for pairs of
// sequences built by different histories.
#include "shape.hpp"
#include <limits>
using namespace vt;
#ifndef VT_MAXN
#define VT_MAXN 80
#endif
// Equality and order look at the key only.
struct Part {
  u32 key, noise;
  friend bool operator==(Part const& a, Part const& b) { return a.key == b.key; }
  friend bool operator<(Part const& a, Part const& b) { return a.key < b.key; }
};
struct Backwards {                       // a total order unrelated to the bytes
  u32 v;
  friend bool operator==(Backwards a, Backwards b) { return a.v == b.v; }
  friend bool operator<(Backwards a, Backwards b) { return a.v > b.v; }
};
// == looks at everything, < only at the key: neither says what the other would.
struct Finer {
  u32 key, noise;
  friend bool operator==(Finer const& a, Finer const& b) { return a.key == b.key && a.noise == b.noise; }
  friend bool operator<(Finer const& a, Finer const& b) { return a.key < b.key; }
};
struct Partial {                         // odd values are ordered with nothing, not equal to themselves
  u32 v;
  friend bool operator==(Partial a, Partial b) { return !(a.v & 1) && a.v == b.v; }
  friend bool operator<(Partial a, Partial b) { return !(a.v & 1) && !(b.v & 1) && a.v < b.v; }
};
// Types that have one of the two: the other operators need no more than that.
struct OnlyEq { u32 v; friend bool operator==(OnlyEq const& a, OnlyEq const& b) { return a.v == b.v; } };
struct OnlyLess { u32 v; friend bool operator<(OnlyLess const& a, OnlyLess const& b) { return a.v < b.v; } };
template <class Q> using SeqOf = boost::segmented_tree::seq<Q, std::allocator<Q>, VT_SEG, VT_BASE>;
namespace vt {
template <> struct El<Finer> {
  static u64 norm(u64 v) { return v & 7; }
  static Finer make(u64 v) { return Finer{(u32)norm(v) >> 1, (u32)norm(v) & 1}; }
  static u64 get(Finer const& x) { return x.key * 2 + x.noise; }
};
template <> struct El<Partial> {
  static u64 norm(u64 v) { v &= 15; return (v & 1) && (v & 6) ? v ^ 1 : v; }
  static Partial make(u64 v) { return Partial{(u32)norm(v)}; }
  static u64 get(Partial const& x) { return x.v; }
};
template <> struct El<Part> {
  static u64 norm(u64 v) { return v & 0xffffff; }
  static Part make(u64 v) { static u32 n; return Part{(u32)norm(v), ++n}; }
  static u64 get(Part const& x) { return x.key; }
};
template <> struct El<Backwards> {
  static u64 norm(u64 v) { return (u32)v; }
  static Backwards make(u64 v) { return Backwards{(u32)v}; }
  static u64 get(Backwards const& x) { return x.v; }
};
template <> struct El<double> {          // 0 and 1 are the two zeros, which are equal; 9 is not a number
  static u64 norm(u64 v) { return v % 41 == 9 ? 9 : v % 8; }
  static double make(u64 v) { if (v == 9) return std::numeric_limits<double>::quiet_NaN(); static const double t[] = {0.0, -0.0, 1, -1, 1e300, -1e300, 1e-300, 0.5}; return t[v % 8]; }
  static u64 get(double const& x) { for (u64 i = 0; i < 8; ++i) { double d = make(i); if (memcmp(&d, &x, 8) == 0) return i; } return 9; }
};
}
using T = VT_T;
using S = boost::segmented_tree::seq<T, VT_ALLOC, VT_SEG, VT_BASE>;
using Vec = std::vector<T>;
using E = El<T>;
using Z = S::size_type;

static void narrow(Vec const& x, Vec const& y) {
  SeqOf<OnlyEq> p, q; SeqOf<OnlyLess> r, u;
  std::vector<OnlyEq> vp, vq; std::vector<OnlyLess> vr, vu;
  for (auto const& e : x) { u32 k = (u32)E::get(e); p.push_back(OnlyEq{k}); vp.push_back(OnlyEq{k}); r.push_back(OnlyLess{k}); vr.push_back(OnlyLess{k}); }
  for (auto const& e : y) { u32 k = (u32)E::get(e); q.push_back(OnlyEq{k}); vq.push_back(OnlyEq{k}); u.push_back(OnlyLess{k}); vu.push_back(OnlyLess{k}); }
  VT_CHECK((p == q) == (vp == vq) && (p != q) == (vp != vq), "comparison", "elements with == only: == or != is wrong for %zu and %zu elements", x.size(), y.size());
  VT_CHECK((r < u) == (vr < vu) && (r <= u) == (vr <= vu) && (r > u) == (vr > vu) && (r >= u) == (vr >= vu), "comparison", "elements with < only: an order is wrong for %zu and %zu elements", x.size(), y.size());
  VT_ADD("operations", 6);
}
static void compare(S const& a, S const& b, Vec const& x, Vec const& y, const char* how) {
  bool g[6] = {a == b, a != b, a < b, a <= b, a > b, a >= b}, w[6] = {x == y, x != y, x < y, x <= y, x > y, x >= y};
  static const char* nm[6] = {"==", "!=", "<", "<=", ">", ">="};
  for (int k = 0; k < 6; ++k) VT_CHECK(g[k] == w[k], "comparison", "%s: a %s b is %d for %zu and %zu elements, std::vector says %d", how, nm[k], (int)g[k], x.size(), y.size(), (int)w[k]);
  VT_ADD("operations", 6);
  if (w[0]) VT_COUNT("equal_pairs");
  if (w[2]) VT_COUNT("less_pairs");
  if (w[4]) VT_COUNT("greater_pairs");
}
static void both(S const& a, S const& b, Vec const& x, Vec const& y, const char* how) { compare(a, b, x, y, how); compare(b, a, y, x, how); }
// Give s these contents through a history of its own.
static void load(S& s, std::vector<u64> const& v, Vec& x, Rng& rng) {
  Model m;
  build_shape(s, m, rng, v.size());
  x.clear();
  for (u64 e : v) x.push_back(E::make(e));
  for (std::size_t i = 0; i < v.size(); ++i) s[(Z)i] = x[i];
}
static void one_case(Rng& rng) {
  S s, t; Vec x, y;
  bool small = rng.one_in(2);
  std::size_t n = rng.one_in(4) ? rng.below(4) : len_or_long(rng, VT_MAXN);
  Model v, w; 
  for (std::size_t i = 0; i < n; ++i) v.push_back(E::norm(small ? rng.below(2) : rng.next()));
  load(s, v, x, rng);
  if (n) saw(shape_of(s, v));
  compare(s, s, x, x, "itself");
  { S c(s); Vec cx(c.begin(), c.end()); both(s, c, x, cx, "a copy"); }
  load(t, v, y, rng); both(s, t, x, y, "equal contents of another shape");
  std::size_t d[] = {0, n / 2, n - 1, rng.below(n + 1), rng.below(n + 1), rng.below(n + 1)};
  for (std::size_t i : d) {
    if (i >= n) continue;
    T old = t[(Z)i];
    for (int k = 0; k < 2; ++k) {
      T nv = E::make(E::norm(small ? rng.below(3) : k ? v[i] + 1 : v[i] - 1));
      t[(Z)i] = nv; y[i] = nv; both(s, t, x, y, "one element differs");
    }
    if (rng.one_in(4)) narrow(x, y);
    if (i + 1 < n) { T o2 = t[(Z)(n - 1)]; T nv = E::make(E::norm(rng.next())); t[(Z)(n - 1)] = nv; y[n - 1] = nv; both(s, t, x, y, "two elements differ"); t[(Z)(n - 1)] = o2; y[n - 1] = o2; }
    t[(Z)i] = old; y[i] = old;
  }
  std::size_t cut = rng.below(n + 1);
  w.assign(v.begin(), v.begin() + (long)cut); load(t, w, y, rng); both(s, t, x, y, "a prefix");
  if (cut < n) { t.push_back(E::make(E::norm(v[cut] + rng.below(3) - 1))); y.push_back(t.back()); both(s, t, x, y, "a prefix and another element"); }
  if (cut) { t.erase(t.begin()); y.erase(y.begin()); both(s, t, x, y, "shifted"); }
  w.clear(); for (std::size_t i = len_or_long(rng, VT_MAXN); i-- > 0;) w.push_back(E::norm(rng.next()));
  load(t, w, y, rng); both(s, t, x, y, "unrelated contents");
  t.clear(); y.clear(); both(s, t, x, y, "an empty sequence");
  s.clear(); x.clear(); both(s, t, x, y, "two empty sequences");
}
int main(int argc, char** argv) {
  init(argc, argv, VT_UNIT);
  for (u64 id = 0; id < (u64)VT_CASES * st().scale; ++id) {
    if (!my_case(id)) continue;
    begin_case(id);
    arenas().reset();
    Rng rng(case_seed(id));
    one_case(rng);
    arenas().expect_empty("after the sequences were destroyed");
    if (id < 2) sample("pairs derived from one random sequence: equal, first difference early/middle/last, prefix, shifted, unrelated, empty");
  }
  return finish();
}
