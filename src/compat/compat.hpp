// One program for every compiler, standard and optimisation level (C++11
// only, apart from the parts marked). Each configuration runs random
// histories against std::vector and std::list and prints a digest of all it
// observed; run.py compares the digests of all builds.
#include <boost/segmented_tree/seq.hpp>

#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iterator>
#include <limits>
#include <list>
#include <memory>
#include <numeric>
#include <scoped_allocator>
#include <set>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#if __cplusplus >= 201703L && __has_include(<memory_resource>)
#include <memory_resource>
#define HAVE_PMR 1
#endif
#if __cplusplus >= 202002L
#include <ranges>
#include <span>
#endif

typedef unsigned long long u64;
extern int scale;
extern const char* part;
extern long operations, configurations;
#define REQUIRE(c) do { if (!(c)) { std::printf("FAILED %s:%d %s: %s\n", "compat", __LINE__, part, #c); std::fflush(stdout); std::_Exit(1); } } while (0)

struct Lcg {
  u64 s;
  explicit Lcg(u64 x) : s(x * 6364136223846793005ull + 1442695040888963407ull) {}
  u64 next() { s = s * 6364136223846793005ull + 1442695040888963407ull; return (s >> 33) ^ (s >> 17); }
  std::size_t below(std::size_t n) { return n ? static_cast<std::size_t>(next() % n) : 0; }
};
inline u64 fold(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 33); }

// How to make and number the elements of each type.
template <class T> struct How;
template <> struct How<int> { static int make(u64 v) { return static_cast<int>(v % 1000003); } static u64 num(int const& x) { return static_cast<u64>(x); } };
template <> struct How<unsigned char> { static unsigned char make(u64 v) { return static_cast<unsigned char>(v % 251); } static u64 num(unsigned char const& x) { return x; } };
template <> struct How<double> { static double make(u64 v) { return static_cast<double>(v % 100003) / 4; } static u64 num(double const& x) { return static_cast<u64>(x * 4); } };
template <> struct How<std::string> { static std::string make(u64 v) { return std::string(v % 3 ? 1 : 30, 'x') + std::to_string(v % 100003); } static u64 num(std::string const& x) { return std::strtoull(x.c_str() + x.find_first_not_of('x'), nullptr, 10) + 1000000 * (x.size() % 7); } };
template <> struct How<std::unique_ptr<int>> { static std::unique_ptr<int> make(u64 v) { return std::unique_ptr<int>(new int(static_cast<int>(v % 100003))); } static u64 num(std::unique_ptr<int> const& x) { return static_cast<u64>(*x); } };
template <> struct How<std::vector<short>> { static std::vector<short> make(u64 v) { return std::vector<short>(v % 5, static_cast<short>(v % 30011)); } static u64 num(std::vector<short> const& x) { return x.size() * 100000 + (x.empty() ? 0 : static_cast<u64>(x[0])); } };
typedef boost::segmented_tree::seq<int, std::allocator<int>, 16, 64> Inner;
template <> struct How<Inner> { static Inner make(u64 v) { Inner s; for (u64 i = 0; i < v % 23; ++i) s.insert(s.nth(static_cast<std::size_t>(i / 2)), static_cast<int>(v % 1009 + i)); return s; } static u64 num(Inner const& x) { u64 h = x.size(); for (Inner::const_iterator i = x.begin(); i != x.end(); ++i) h = fold(h, static_cast<u64>(*i)); return h; } };
enum class Color : unsigned short { none };
template <> struct How<Color> { static Color make(u64 v) { return static_cast<Color>(v % 60013); } static u64 num(Color const& x) { return static_cast<u64>(x); } };

template <class T> u64 num(T const& x) { return How<T>::num(x); }

// Everything visible from outside, folded.
template <class S> u64 look(S const& s, std::vector<u64> const& m) {
  typedef typename S::const_iterator C;
  typedef typename S::size_type Z;
  typedef typename S::difference_type D;
  REQUIRE(s.size() == m.size() && s.empty() == m.empty() && (s.height() == 0) == m.empty());
  u64 h = fold(s.size(), s.height());
  std::size_t i = 0;
  for (C it = s.begin(); it != s.end(); ++it, ++i) { REQUIRE(i < m.size() && num(*it) == m[i]); h = fold(h, m[i]); }
  REQUIRE(i == m.size());
  for (typename S::const_reverse_iterator it = s.rbegin(); it != s.rend(); ++it) REQUIRE(num(*it) == m[--i]);
  if (m.empty()) { REQUIRE(s.begin() == s.end()); return h; }
  for (C it = s.begin(); it != s.end(); it.move_after_segment()) {
    REQUIRE(it.current() == it.begin() && it.begin() != it.end());
    h = fold(h, static_cast<u64>(it.end() - it.begin()));
    i += static_cast<std::size_t>(it.end() - it.begin());
  }
  REQUIRE(i == m.size());
  C p = s.penultimate();
  REQUIRE(num(*p) == m.back() && num(s.back()) == m.back() && num(s.front()) == m.front() && s.index_of(p) == static_cast<Z>(m.size() - 1));
  std::size_t back = m.size();
  while (true) {
    std::size_t len = static_cast<std::size_t>(p.end() - p.begin());
    REQUIRE(p.current() + 1 == p.end() && s.index_of(p) == static_cast<Z>(back - 1) && num(*p) == m[back - 1] && num(*p.begin()) == m[back - len]);
    back -= len;
    if (back == 0) break;
    C q = p.before_segment();
    REQUIRE(q == s.nth(static_cast<Z>(back - 1)) && q.after_segment() == s.nth(static_cast<Z>(back)));
    for (std::size_t n = 0; n < 3 && n < back; ++n) {
      C a = p, b = p; a.move_before_segment(static_cast<Z>(n));
      REQUIRE(a == s.nth(static_cast<Z>(back - 1 - n)) && p.before_segment(static_cast<Z>(n)) == a && num(*a) == m[back - 1 - n]);
      if (back + n > m.size()) continue;
      a = q.after_segment(static_cast<Z>(n)); b = q; b.move_after_segment(static_cast<Z>(n));
      REQUIRE(a == b && s.index_of(a) == static_cast<Z>(back + n) && (back + n == m.size() || num(*a) == m[back + n]));
    }
    p.move_before_segment();
  }
  { C a = s.begin(), b = s.end(); std::size_t n = 0; while (a != b && n < m.size()) { C c = a++; REQUIRE(c != a && a - c == 1 && num(*c) == m[n]); C d = b--; REQUIRE(d - b == 1 && num(*b) == m[m.size() - ++n]); if (b < a) break; } }
  for (std::size_t k = 0; k < m.size(); k += 1 + m.size() / 7) {
    C q = s.nth(static_cast<Z>(k));
    REQUIRE(num(*q) == m[k] && num(s[static_cast<Z>(k)]) == m[k] && num(s.at(static_cast<Z>(k))) == m[k] && q - s.begin() == static_cast<D>(k));
    std::size_t j = m.size() - 1 - k;
    C r = q + static_cast<D>(static_cast<long>(j) - static_cast<long>(k)), t = r;
    t += q - r; REQUIRE(t == q); t -= q - r; REQUIRE(t == r && r - (r - q) == q && (r - q) + q == r);
    REQUIRE(num(*r) == m[j] && (r < q) == (j < k) && (r >= q) == (j >= k) && num(q[r - q]) == m[j]);
  }
  return h;
}

template <class S> struct Pair { S s; std::vector<u64> m; };

template <class S> void copies(Pair<S>& x, Pair<S>& y, Lcg& g, std::true_type) {
  typedef typename S::value_type T;
  typedef typename S::size_type Z;
  typedef typename S::difference_type D;
  std::size_t n = x.m.size(), i = g.below(n + 1), c = g.below(9);
  T v = How<T>::make(g.next());
  u64 k = num(v);
  typename S::iterator r = x.s.begin();
  switch (g.below(18)) {
    case 0: r = x.s.insert(x.s.nth(static_cast<Z>(i)), v); x.m.insert(x.m.begin() + static_cast<long>(i), k); REQUIRE(x.s.index_of(r) == i); break;
    case 1: r = x.s.insert(x.s.cbegin() + static_cast<D>(i), static_cast<Z>(c), v); x.m.insert(x.m.begin() + static_cast<long>(i), c, k); REQUIRE(x.s.index_of(r) == i); break;
    case 2: { std::list<T> l; for (std::size_t q = 0; q < c; ++q) l.push_back(How<T>::make(g.next())); std::vector<u64> w; for (T const& e : l) w.push_back(num(e)); r = x.s.insert(x.s.nth(static_cast<Z>(i)), l.begin(), l.end()); x.m.insert(x.m.begin() + static_cast<long>(i), w.begin(), w.end()); REQUIRE(x.s.index_of(r) == i); break; }
    case 3: x.s.insert(x.s.nth(static_cast<Z>(i)), {v, v, v}); x.m.insert(x.m.begin() + static_cast<long>(i), 3, k); break;
    case 4: x.s.push_back(v); x.s.push_front(v); x.m.push_back(k); x.m.insert(x.m.begin(), k); break;
    case 5: x.s.assign(static_cast<Z>(c * 5), v); x.m.assign(c * 5, k); break;
    case 6: x.s.assign(y.s.begin(), y.s.end()); x.m = y.m; break;
    case 7: x.s = y.s; x.m = y.m; break;
    case 8: { S t(y.s); REQUIRE(t == y.s && !(t != y.s)); x.s.splice(x.s.nth(static_cast<Z>(i)), t); x.m.insert(x.m.begin() + static_cast<long>(i), y.m.begin(), y.m.end()); REQUIRE(t.empty()); break; }
    case 9: { S const t(static_cast<Z>(c), v); REQUIRE(t.size() == c && (c == 0 || t.front() == v)); x.s.resize(static_cast<Z>(n + c), v); x.m.resize(n + c, k); break; }
    case 10: x.s = {v, v}; x.m.assign(2, k); break;
    case 11: if (n) { T e = x.s[static_cast<Z>(i % n)]; u64 q = num(e); x.s.remove(e); x.m.erase(std::remove(x.m.begin(), x.m.end(), q), x.m.end()); } break;
    case 12: if (n) { u64 q = x.m[i % n]; x.s.remove(x.s[static_cast<Z>(i % n)]); x.m.erase(std::remove(x.m.begin(), x.m.end(), q), x.m.end()); } break;
    case 13: x.s.unique(); x.m.erase(std::unique(x.m.begin(), x.m.end()), x.m.end()); break;
    case 14: if (n < 300) { x.s.sort(); REQUIRE(std::is_sorted(x.s.begin(), x.s.end())); std::vector<u64> w; for (T const& e : x.s) w.push_back(num(e)); std::vector<u64> a = w; std::sort(a.begin(), a.end()); std::sort(x.m.begin(), x.m.end()); REQUIRE(a == x.m); x.m = w;
      S t; for (std::size_t q = 0; q < c; ++q) t.push_back(How<T>::make(g.next())); t.sort(); for (T const& e : t) x.m.push_back(num(e)); std::sort(x.m.begin(), x.m.end());
      x.s.merge(t); REQUIRE(t.empty() && std::is_sorted(x.s.begin(), x.s.end())); w.clear(); for (T const& e : x.s) w.push_back(num(e)); a = w; std::sort(a.begin(), a.end()); REQUIRE(a == x.m); x.m = w; } break;
    case 15: if (n) { x.s.resize(static_cast<Z>(n - n / 8)); x.m.resize(n - n / 8); x.s.assign(x.m.size() < 3 ? std::initializer_list<T>{v, v} : std::initializer_list<T>{v}); x.m.assign(x.m.size() < 3 ? 2 : 1, k); S t(y.s); x.s.splice(x.s.begin(), std::move(t)); x.m.insert(x.m.begin(), y.m.begin(), y.m.end()); } break;
    case 16: if (n) { std::size_t a = i % n, b = g.below(n); x.s.insert(x.s.nth(static_cast<Z>(b)), x.s[static_cast<Z>(a)]); u64 q = x.m[a]; x.m.insert(x.m.begin() + static_cast<long>(b), q); x.s.push_back(x.s.front()); x.m.push_back(x.m.front()); x.s.push_front(x.s.back()); x.m.insert(x.m.begin(), x.m.back()); } break;
    default: { S t(y.s.cbegin(), y.s.cend()); x.s.swap(t); x.m = y.m; break; }
  }
}
template <class S> void copies(Pair<S>&, Pair<S>&, Lcg&, std::false_type) {}

template <class S, bool Copy> u64 history(u64 seed, std::size_t steps, std::size_t top) {
  typedef typename S::value_type T;
  typedef typename S::size_type Z;
  ++configurations;
  Lcg g(seed);
  u64 h = seed;
  Pair<S> p[2];
  bool grow = true;
  struct By { bool operator()(T const& a, T const& b) const { return num(a) < num(b); } };
  for (std::size_t step = 0; step < steps * static_cast<std::size_t>(scale); ++step) {
    Pair<S>&x = p[g.below(2)], &y = p[&x == p];
    std::size_t n = x.m.size(), i = g.below(n + 1);
    T v = How<T>::make(g.next());
    u64 k = num(v);
    if (n > top) grow = false;
    if (n < 3) grow = true;
    ++operations;
    switch (g.below(24)) {
      case 0: { typename S::iterator r = x.s.insert(x.s.nth(static_cast<Z>(i)), std::move(v)); x.m.insert(x.m.begin() + static_cast<long>(i), k); REQUIRE(x.s.index_of(r) == i); break; }
      case 1: { typename S::iterator r = x.s.emplace(x.s.nth(static_cast<Z>(i)), std::move(v)); x.m.insert(x.m.begin() + static_cast<long>(i), k); REQUIRE(x.s.index_of(r) == i); break; }
      case 2: x.s.push_back(std::move(v)); x.m.push_back(k); break;
      case 3: x.s.emplace_front(std::move(v)); x.m.insert(x.m.begin(), k); break;
      case 4: if (!grow || g.below(4) == 0) while (n > top / 3 && n) { i = g.below(n--); typename S::iterator r = x.s.erase(x.s.nth(static_cast<Z>(i))); x.m.erase(x.m.begin() + static_cast<long>(i)); REQUIRE(x.s.index_of(r) == i); } break;
      case 5: if (n) { x.s.pop_back(); x.m.pop_back(); } break;
      case 6: if (n) { x.s.pop_front(); x.m.erase(x.m.begin()); } break;
      case 7: { std::size_t j = i + g.below(std::min<std::size_t>(n - i, grow ? 4 : 60) + 1); typename S::iterator r = x.s.erase(x.s.nth(static_cast<Z>(i)), x.s.nth(static_cast<Z>(j))); x.m.erase(x.m.begin() + static_cast<long>(i), x.m.begin() + static_cast<long>(j)); REQUIRE(x.s.index_of(r) == i); break; }
      case 8: if (g.below(3) == 0) { x.s.swap(y.s); x.m.swap(y.m); } break;
      case 9: if (g.below(3) == 0) { using std::swap; swap(x.s, y.s); x.m.swap(y.m); } break;
      case 10: if (g.below(4) == 0) { S t(std::move(x.s)); REQUIRE(x.s.empty()); x.s = std::move(t); } break;
      case 11: if (n < top) { x.s.sort(By()); std::stable_sort(x.m.begin(), x.m.end()); y.s.sort(By()); std::stable_sort(y.m.begin(), y.m.end()); } break;
      case 12: if (g.below(2) && std::is_sorted(x.m.begin(), x.m.end()) && std::is_sorted(y.m.begin(), y.m.end())) { x.s.merge(y.s, By()); std::vector<u64> w; std::merge(x.m.begin(), x.m.end(), y.m.begin(), y.m.end(), std::back_inserter(w)); x.m = w; y.m.clear(); } break;
      case 13: if (g.below(3) == 0) { x.s.reverse(); std::reverse(x.m.begin(), x.m.end()); } break;
      case 14: if (n > top / 2) { x.s.unique([](T const& a, T const& b) { return num(a) == num(b); }); x.m.erase(std::unique(x.m.begin(), x.m.end()), x.m.end()); } break;
      case 15: if (n > top / 2) { u64 d = 2 + g.below(5); x.s.remove_if([d](T const& a) { return num(a) % d == 0; }); x.m.erase(std::remove_if(x.m.begin(), x.m.end(), [d](u64 a) { return a % d == 0; }), x.m.end()); } break;
      case 16: if (g.below(6) == 0) { x.s.clear(); x.m.clear(); } break;
      case 17: if (n && y.m.size() < top) { std::size_t a = g.below(n), b = a + g.below(n - a + 1), q = g.below(y.m.size() + 1); y.s.splice(y.s.nth(static_cast<Z>(q)), x.s, x.s.nth(static_cast<Z>(a)), x.s.nth(static_cast<Z>(b))); y.m.insert(y.m.begin() + static_cast<long>(q), x.m.begin() + static_cast<long>(a), x.m.begin() + static_cast<long>(b)); x.m.erase(x.m.begin() + static_cast<long>(a), x.m.begin() + static_cast<long>(b)); } break;
      case 18: if (n) { std::size_t q = g.below(y.m.size() + 1); i = g.below(n); y.s.splice(y.s.nth(static_cast<Z>(q)), x.s, x.s.nth(static_cast<Z>(i))); y.m.insert(y.m.begin() + static_cast<long>(q), x.m[i]); x.m.erase(x.m.begin() + static_cast<long>(i)); } break;
      case 19: if (n) { i = g.below(n); *x.s.nth(static_cast<Z>(i)) = std::move(v); x.m[i] = k; } break;
      default: if (n <= top) copies(x, y, g, std::integral_constant<bool, Copy>()); break;
    }
    if (step % 5 == 0) { h = fold(h, look(x.s, x.m)); h = fold(h, look(y.s, y.m)); }
  }
  return h;
}
template <class S, bool Copy> void digest(const char* name, u64 seed, std::size_t steps, std::size_t top) {
  part = name;
  std::printf("DIGEST %s %016llx\n", name, history<S, Copy>(seed, steps, top));
}

// The least a C++11 allocator may define.
template <class T> struct Least {
  typedef T value_type;
  Least() {}
  template <class U> Least(Least<U> const&) {}
  T* allocate(std::size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, std::size_t) { ::operator delete(p); }
};
template <class T, class U> bool operator==(Least<T> const&, Least<U> const&) { return true; }
template <class T, class U> bool operator!=(Least<T> const&, Least<U> const&) { return false; }

// Passes its arena's number on to the strings it constructs (scoped allocation).
template <class T> struct Numbered {
  typedef T value_type;
  int id;
  explicit Numbered(int i = 0) : id(i) {}
  template <class U> Numbered(Numbered<U> const& o) : id(o.id) {}
  T* allocate(std::size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, std::size_t) { ::operator delete(p); }
};
template <class T, class U> bool operator==(Numbered<T> const& a, Numbered<U> const& b) { return a.id == b.id; }
template <class T, class U> bool operator!=(Numbered<T> const& a, Numbered<U> const& b) { return a.id != b.id; }

using boost::segmented_tree::seq;
void other_unit(u64 seed);
seq<int, std::allocator<int>, 16, 64> made_elsewhere(std::size_t n);
u64 summed_elsewhere(seq<int, std::allocator<int>, 16, 64> const& s);
void grown_elsewhere(seq<int, std::allocator<int>, 16, 64>& s);
