// Unit: more than 2^32 elements. The element is empty and does nothing, and
// its memory is reserved but never touched, so only positions, sizes, jumps
// and structure are at stake.
#include "core.hpp"
#include <sys/mman.h>
using namespace vt;
struct Nil { Nil() noexcept {} Nil(Nil const&) noexcept {} Nil& operator=(Nil const&) noexcept { return *this; } ~Nil() {} };
static long blocks;
template <class T> struct Lazy {
  using value_type = T;
  Lazy() {}
  template <class U> Lazy(Lazy<U> const&) {}
  T* allocate(std::size_t n) {
    void* p = mmap(nullptr, n * sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { fprintf(stderr, "no address space\n"); _Exit(4); }
    ++blocks; VT_COUNT("blocks");
    return static_cast<T*>(p);
  }
  void deallocate(T* p, std::size_t n) { --blocks; munmap(p, n * sizeof(T)); }
  friend bool operator==(Lazy const&, Lazy const&) { return true; }
  friend bool operator!=(Lazy const&, Lazy const&) { return false; }
};
using S = boost::segmented_tree::seq<Nil, Lazy<Nil>, VT_SEG, VT_BASE>;
using Z = S::size_type;
using D = S::difference_type;
static u64 total;
static void place(S& s, S::iterator it, u64 i, const char* who) {
  VT_CHECK(s.index_of(it) == i, "position", "%s: at index %lu, expected %lu (size %lu)", who, (u64)s.index_of(it), i, (u64)s.size());
  auto r = i == s.size() ? s.end() : s.nth((Z)i);
  VT_CHECK(it == r && it.current() == r.current() && it.begin() == r.begin() && it.end() == r.end(), "position", "%s: iterator at %lu differs from nth()", who, i);
  VT_COUNT("positions");
}
static void survey(S& s, Rng& rng) {
  u64 n = total;
  S const& c = s;
  VT_CHECK(s.size() == n && c.end() - c.begin() == (D)n && s.begin() - s.end() == -(D)n && !s.empty(), "position", "size() is %lu, expected %lu, distance %lld", (u64)s.size(), n, (long long)(c.end() - c.begin()));
  place(s, s.begin(), 0, "begin"); place(s, s.end(), n, "end"); place(s, s.penultimate(), n - 1, "penultimate");
  VT_CHECK(&s.front() == s.begin().current() && &s.back() == s.penultimate().current() && &c.back() == &s.back(), "position", "front() or back()");
  std::vector<u64> marks;
  for (u64 m : {u64(0), u64(1), u64(1) << 16, u64(1) << 31, u64(1) << 32, n / 2, n / 3, n - 1, n})
    for (long d = -2; d <= 2; ++d) if ((d >= 0 || m >= (u64)-d) && m + (u64)d <= n) marks.push_back(m + (u64)d);
  for (int k = 0; k < 12; ++k) marks.push_back(rng.next() % (n + 1));
  u64 at = 0, runs = 0;
  for (auto it = s.begin(); it != s.end(); it.move_after_segment()) { VT_CHECK(s.index_of(it) == at, "segment", "the run expected at %lu is at %lu", at, (u64)s.index_of(it)); at += (u64)(it.end() - it.begin()); ++runs; }
  VT_CHECK(at == n, "segment", "the runs cover %lu of %lu", at, n);
  VT_ADD("runs", runs);
  for (u64 i : marks) {
    auto a = s.nth((Z)i);
    VT_CHECK(s.index_of(a) == i, "position", "nth(%lu) is at %lu", i, (u64)s.index_of(a));
    if (i < n) {
      VT_CHECK(&s[(Z)i] == a.current() && &s.at((Z)i) == a.current() && &c[(Z)i] == a.current(), "position", "[%lu], at() and nth() disagree", i);
      auto f = a; ++f; place(s, f, i + 1, "++"); --f; place(s, f, i, "++ --");
      u64 e = i + (u64)(a.end() - a.current());
      place(s, a.after_segment(), e, "after_segment");
      for (u64 j : marks) if (j >= e) { place(s, a.after_segment((Z)(j - e)), j, "after_segment(n)"); }
      u64 b = i - (u64)(a.current() - a.begin());
      if (b) for (u64 j : marks) if (j < b) place(s, a.before_segment((Z)(b - 1 - j)), j, "before_segment(n)");
    } else {
      bool threw = false;
      try { (void)s.at((Z)i); } catch (std::out_of_range const&) { threw = true; }
      VT_CHECK(threw, "position", "at(size()) does not throw");
      for (Z far : {(Z)n, (Z)(n + 1), (Z)(n + (u64(1) << 32)), (Z)~(Z)0, (Z)(u64(1) << 63)}) VT_CHECK(s.nth(far) == s.end() && c.nth(far) == c.end(), "position", "nth(%lu) is not end()", (u64)far);
    }
    for (u64 j : marks) {
      auto b = s.nth((Z)j);
      D d = (D)(j - i);
      VT_CHECK(b - a == d && (a < b) == (i < j) && (a == b) == (i == j) && (a >= b) == (i >= j), "position", "difference or order of %lu and %lu", i, j);
      place(s, a + d, j, "it + d"); place(s, b - d, i, "it - d");
      auto q = a; q += d; place(s, q, j, "+="); q -= d; place(s, q, i, "-=");
      if (j < n) VT_CHECK(&a[d] == b.current(), "position", "it[%lld] from %lu", (long long)d, i);
      auto rv = s.rbegin() + (D)(n - i); VT_CHECK(rv.base() == a, "position", "reverse iterator %lu", i);
    }
  }
  VT_COUNT("surveys");
}
int main(int argc, char** argv) {
  init(argc, argv, VT_UNIT);
  {
    const std::size_t room = std::size_t(6) << 30;
    void* p = mmap(nullptr, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { VT_COUNT("skipped_for_lack_of_address_space"); return finish(); }
    munmap(p, room);
  }
  if (my_case(0)) {
    begin_case(0);
    watchdog(580);
    Rng rng(case_seed(0));
    S s;
    const u64 goal = (1ull << 32) + 5 + rng.below(1000);
    // In chunks, so that insertion is by count, by push_back and in the middle.
    while (total < goal) {
      u64 k = std::min<u64>(goal - total, 400000000 + rng.below(1000));
      s.resize((Z)(total + k));
      total += k;
      VT_ADD("elements", k);
      VT_CHECK(s.size() == total, "position", "size() is %lu after resize to %lu", (u64)s.size(), total);
    }
    survey(s, rng);
    for (int t = 0; t < 4000; ++t) {
      u64 i = rng.one_in(3) ? rng.below(total) : rng.one_in(2) ? (1ull << 32) - 3 + rng.below(6) : (1ull << 31) - 3 + rng.below(6);
      if (i > total) i = total;
      step("edit", (long)i);
      S::iterator r;
      switch (rng.below(5)) {
        case 0: if (i < total) { r = s.erase(s.nth((Z)i)); --total; place(s, r, i, "erase"); } break;
        case 1: r = s.insert(s.nth((Z)i), Nil()); ++total; place(s, r, i, "insert"); break;
        case 2: r = s.insert(s.nth((Z)i), 7, Nil()); total += 7; place(s, r, i, "insert(n)"); break;
        case 3: s.push_front(Nil()); ++total; place(s, s.nth((Z)i), i, "push_front"); break;
        default: s.pop_back(); --total; break;
      }
      VT_COUNT("operations");
    }
    survey(s, rng);
    S u(std::move(s));
    VT_CHECK(u.size() == total && s.empty(), "position", "a move changes the size");
    S v; v.swap(u); survey(v, rng);
    u64 cut = 1000; v.erase(v.nth((Z)(total - cut)), v.end()); total -= cut; step("erase_range", (long)total); VT_CHECK(v.size() == total, "position", "size() after erase of a range");
    v.clear();
    VT_CHECK(v.empty() && blocks == 0, "leak", "%ld blocks remain", blocks);
  }
  return finish();
}
