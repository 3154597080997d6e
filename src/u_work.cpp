// Unit (C24): the workload generators replayed over std::vector, std::deque and
// seq with every step observed, for many counts, sizes and seeds.
#include "view.hpp"
#include <deque>
#include <iostream>
#include <sstream>
#include "single.hpp"
#include "range.hpp"
#include "iterator.hpp"
using namespace vt;
using T = VT_T;
using S = boost::segmented_tree::seq<T, std::allocator<T>, VT_SEG, VT_BASE>;

// CRC-64/ECMA over the bytes, bit by bit: what the checksum is documented to be.
static u64 crc64(void const* p, std::size_t n) {
  u64 c = 0;
  auto b = static_cast<unsigned char const*>(p);
  for (std::size_t i = 0; i < n; ++i) {
    c ^= (u64)b[i] << 56;
    for (int k = 0; k < 8; ++k) c = c >> 63 ? (c << 1) ^ 0x42F0E1EBA9EA3693ull : c << 1;
  }
  return c;
}
// A container that only watches the calls the replay makes.
struct Watch {
  using iterator = std::size_t; using size_type = std::size_t;
  std::size_t n = 0, calls = 0;
  iterator nth(size_type i) { VT_CHECK(i <= n, "workload", "replay addresses position %zu of %zu", i, n); return i; }
  iterator begin() { return 0; }
  iterator end() { return n; }
  std::size_t size() const { return n; }
  iterator insert(iterator i, T const&) { VT_CHECK(i <= n, "workload", "replay inserts at %zu of %zu", i, n); ++n; ++calls; return i; }
  template <class I> iterator insert(iterator i, I f, I l) { VT_CHECK(i <= n, "workload", "replay inserts at %zu of %zu", i, n); n += (std::size_t)(l - f); ++calls; return i; }
  void erase(iterator i) { VT_CHECK(i < n, "workload", "replay erases %zu of %zu", i, n); --n; ++calls; }
  void erase(iterator f, iterator l) { VT_CHECK(f <= l && l <= n, "workload", "replay erases [%zu,%zu) of %zu", f, l, n); n -= l - f; ++calls; }
};
template <class C> static std::vector<T> bytes(C const& c) { return std::vector<T>(c.begin(), c.end()); }
template <class A, class B> static void sums(A const& a, B const& b) {
  VT_CHECK(accumulate_forward(a) == accumulate_forward(b) && accumulate_backward(a) == accumulate_backward(b) && accumulate_forward(a) == accumulate_backward(a), "workload", "sums over equal containers differ");
  for (std::size_t d : {std::size_t(1), std::size_t(3), std::size_t(10), std::size_t(100), std::size_t(1000)})
    VT_CHECK(accumulate_forward_by(a, d) == accumulate_forward_by(b, d) && accumulate_backward_by(a, d) == accumulate_backward_by(b, d), "workload", "sums by %zu over equal containers differ", d);
  // and they are the sums of those elements
  u64 all = 0;
  for (std::size_t i = 0; i < b.size(); ++i) all += b[i];
  VT_CHECK(accumulate_forward(b) == all && accumulate_backward(b) == all, "workload", "the sum of %zu elements is wrong", b.size());
  for (std::size_t d : {std::size_t(1), std::size_t(2), std::size_t(10), std::size_t(b.size() / 2 + 1), b.size(), b.size() + 1}) {
    u64 f = 0, r = 0;
    for (std::size_t i = 0; i < b.size() / d; ++i) { f += b[i * d]; r += b[b.size() - (i + 1) * d]; }
    VT_CHECK(accumulate_forward_by(b, d) == f && accumulate_backward_by(b, d) == r, "workload", "the sum of %zu elements by %zu is wrong", b.size(), d);
  }
}
template <class Ins, class Ers> static void replay(insertion_data<T> const& data, std::size_t size, Ins ins, Ers ers, Rng& rng) {
  std::size_t count = data.indexes.size();
  Watch w; ins(w);
  VT_CHECK(w.n == count * size && w.calls == count, "workload", "replay makes %zu insertions of %zu elements in all, expected %zu and %zu", w.calls, w.n, count, count * size);
  ers(w);
  VT_CHECK(w.n == 1, "workload", "erasing leaves %zu elements", w.n);
  // an independent replay of the same data
  std::vector<T> ref;
  for (std::size_t i = 0; i < count; ++i) ref.insert(ref.begin() + (long)data.indexes[i], data.ordered.begin() + (long)(i * size), data.ordered.begin() + (long)((i + 1) * size));
  std::vector<T> v; std::deque<T> d; S s;
  ins(v); ins(d); ins(s);
  VT_CHECK(v == ref && bytes(d) == ref && bytes(s) == ref, "workload", "the replays of %zu by %zu elements differ", count, size);
  VT_CHECK(make_checksum_unsigned(v) == crc64(ref.data(), ref.size() * sizeof(T)), "workload", "checksum of %zu elements is not the CRC of their bytes", ref.size());
  std::vector<T> o = ref;
  T& x = o[rng.below(o.size())];
  x = (T)(x ^ (T)(T(1) << rng.below(8 * sizeof(T))));
  VT_CHECK(make_checksum_unsigned(o) != make_checksum_unsigned(ref), "workload", "one flipped bit leaves the checksum unchanged");
  sums(s, ref); sums(d, ref);
  ers(v); ers(d); ers(s);
  VT_CHECK(v.size() == 1 && d.size() == 1 && s.size() == 1 && v[0] == data.ordered[0] && d[0] == data.ordered[0] && s[0] == data.ordered[0], "workload", "erasing does not leave the first element inserted");
  VT_COUNT("replays");
  VT_ADD("operations", 8 * count);
}
// An 8-bit source that yields every value once per cycle.
struct Cycle {
  using result_type = std::uint8_t;
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return 255; }
  unsigned at = 0, asked = 0;
  result_type operator()() { ++asked; return (result_type)(at++ * 167 + 13); }
};
struct Shifted {                          // a source that does not begin at zero
  using result_type = std::uint32_t;
  static constexpr result_type min() { return 1; }
  static constexpr result_type max() { return 2147483646; }
  Rng* r;
  result_type operator()() { return (result_type)(1 + r->below(2147483646)); }
};
int main(int argc, char** argv) {
  init(argc, argv, VT_UNIT);
  for (u64 id = 0; id < (u64)VT_CASES * st().scale; ++id) {
    if (!my_case(id)) continue;
    begin_case(id);
    Rng rng(case_seed(id));
    std::size_t count = rng.one_in(4) ? rng.in(1, 4) : rng.one_in(6) ? rng.in(1, 3000) : rng.in(1, 200), size = rng.one_in(3) ? rng.in(1, 3) : rng.in(1, 60);
    u32 seed = (u32)rng.next();
    if (rng.one_in(10)) seed = rng.one_in(2) ? 0 : ~0u;
    step("single", (long)count, (long)seed);
    auto a = make_insertion_data_single<T>(count, seed), b = make_insertion_data_single<T>(count, seed);
    VT_CHECK(a.indexes.size() == count && a.ordered.size() == count, "workload", "%zu indexes and %zu values for %zu", a.indexes.size(), a.ordered.size(), count);
    VT_CHECK(a.indexes == b.indexes && a.ordered == b.ordered, "workload", "the same seed gives different data");
    for (std::size_t i = 0; i < count; ++i) VT_CHECK(a.indexes[i] <= i, "workload", "index %zu addresses position %zu", i, a.indexes[i]);
    replay(a, 1, [&](auto& c) { insert_single(c, a); }, [&](auto& c) { erase_single(c, a); }, rng);
    if (count * size > 6000) count = 6000 / size + 1;
    step("range", (long)count, (long)size, (long)seed);
    auto r = make_insertion_data_range<T>(count, size, seed), q = make_insertion_data_range<T>(count, size, seed);
    VT_CHECK(r.indexes.size() == count && r.ordered.size() == count * size, "workload", "%zu indexes and %zu values for %zu by %zu", r.indexes.size(), r.ordered.size(), count, size);
    VT_CHECK(r.indexes == q.indexes && r.ordered == q.ordered, "workload", "the same seed gives different data");
    for (std::size_t i = 0; i < count; ++i) VT_CHECK(r.indexes[i] <= i * size, "workload", "index %zu addresses position %zu", i, r.indexes[i]);
    replay(r, size, [&](auto& c) { insert_range(c, r); }, [&](auto& c) { erase_range(c, r); }, rng);
    auto a2 = make_insertion_data_single<T>(64, seed + 1);
    auto a1 = make_insertion_data_single<T>(64, seed);
    VT_CHECK(a1.indexes != a2.indexes || a1.ordered != a2.ordered, "workload", "different seeds give the same data");
    // the bounded source
    for (unsigned ub = 1; ub <= 255; ub += 1 + (unsigned)rng.below(9)) {
      Cycle c; std::vector<long> got(ub);
      unsigned rounds = 0;
      while (c.asked < 256) {
        auto x = bounded_rand(c, (std::uint8_t)ub);
        VT_CHECK(x < ub, "workload", "a number below %u is %u", ub, (unsigned)x);
        if (c.asked <= 256) { ++got[x]; ++rounds; }
      }
      for (unsigned k = 1; k < ub; ++k) VT_CHECK(got[k] == got[0], "workload", "below %u, %u comes %ld times and 0 comes %ld times", ub, k, got[k], got[0]);
      VT_COUNT("bounded_sources");
      Shifted h{&rng};
      u32 hub = rng.one_in(2) ? ub : 1 + (u32)rng.below(2147483646);
      VT_CHECK(bounded_rand(h, hub) < hub, "workload", "a number below %u is out of range", hub);
    }
    saw(mix(count, mix(size, seed)));
    if (id < 2) sample(trace(4));
  }
  return finish();
}
