#include "compat.hpp"
int scale = 1;
const char* part = "start";
long operations, configurations;

template <class A, class B> void same() { REQUIRE((std::is_same<A, B>::value)); }
template <class S, class A> void interface_of() {
  typedef typename S::value_type T;
  typedef std::allocator_traits<A> AT;
  typedef typename S::iterator I;
  typedef typename S::const_iterator C;
  same<typename S::allocator_type, A>();
  same<typename S::size_type, typename AT::size_type>();
  same<typename S::difference_type, typename AT::difference_type>();
  same<typename S::reference, T&>(); same<typename S::const_reference, T const&>();
  same<typename S::pointer, typename AT::pointer>(); same<typename S::const_pointer, typename AT::const_pointer>();
  same<typename S::reverse_iterator, std::reverse_iterator<I>>(); same<typename S::const_reverse_iterator, std::reverse_iterator<C>>();
  typedef std::iterator_traits<I> IT; typedef std::iterator_traits<C> CT;
  same<typename IT::value_type, T>(); same<typename CT::value_type, T>();
  same<typename IT::reference, T&>(); same<typename CT::reference, T const&>();
  same<typename IT::difference_type, typename S::difference_type>(); same<typename CT::difference_type, typename S::difference_type>();
  same<typename IT::iterator_category, std::random_access_iterator_tag>(); same<typename CT::iterator_category, std::random_access_iterator_tag>();
  REQUIRE((std::is_convertible<I, C>::value && !std::is_convertible<C, I>::value && !std::is_constructible<I, C>::value));
  REQUIRE(std::is_default_constructible<I>::value && std::is_copy_constructible<I>::value && std::is_copy_assignable<I>::value);
  REQUIRE(!(std::is_trivially_copyable<S>::value) && !(std::is_trivially_destructible<S>::value) && (std::is_assignable<S&, std::initializer_list<T>>::value) && (std::is_constructible<S, std::initializer_list<T>>::value));
  REQUIRE(!(std::is_convertible<typename S::size_type, S>::value) && !(std::is_convertible<T*, I>::value) && !(std::is_convertible<I, T*>::value) && !(std::is_convertible<I, bool>::value) && !(std::is_convertible<I, typename S::size_type>::value));
  REQUIRE((std::is_same<typename std::remove_cv<T>::type, typename I::value_type>::value) && !(std::is_assignable<I&, C>::value) && (std::is_assignable<C&, I>::value) && !(std::is_assignable<decltype(*std::declval<C>()), T>::value));
  REQUIRE(!(std::is_convertible<A, S>::value) && (std::is_constructible<S, A>::value));
  REQUIRE(std::is_signed<typename S::difference_type>::value && std::is_unsigned<typename S::size_type>::value);
  S s(3); S const& c = s;
  same<decltype(s.begin()), I>(); same<decltype(c.begin()), C>(); same<decltype(s.cbegin()), C>();
  same<decltype(s.penultimate()), I>(); same<decltype(c.penultimate()), C>(); same<decltype(s.nth(0)), I>(); same<decltype(c.nth(0)), C>();
  same<decltype(s[0]), T&>(); same<decltype(c[0]), T const&>(); same<decltype(s.at(0)), T&>(); same<decltype(c.at(0)), T const&>();
  same<decltype(s.front()), T&>(); same<decltype(c.back()), T const&>();
  same<decltype(s.rbegin()), typename S::reverse_iterator>(); same<decltype(c.rend()), typename S::const_reverse_iterator>(); same<decltype(s.crbegin()), typename S::const_reverse_iterator>();
  same<decltype(s.erase(s.cbegin())), I>(); same<decltype(s.insert(s.cbegin(), T())), I>(); same<decltype(s.emplace(s.cbegin())), I>();
  same<decltype(*s.begin()), T&>(); same<decltype(*c.begin()), T const&>(); same<decltype(s.begin()[0]), T&>(); same<decltype(s.begin() - c.begin()), typename S::difference_type>();
  I i = s.begin(); C k = i;
  REQUIRE(i == k && k == i && !(i != k) && i <= k && k >= i && !(i < k) && !(k > i) && i - k == 0 && k - i == 0);
  ++i;
  REQUIRE(i != k && k != i && k < i && i > k && i - k == 1 && k - i == -1);
  REQUIRE(std::distance(s.begin(), s.end()) == 3 && std::next(s.begin(), 2) == std::prev(s.end()));
  I e; C d; e = i; d = i; REQUIRE(e == i && d == i);
#if __cplusplus >= 202002L
  static_assert(std::random_access_iterator<I> && std::random_access_iterator<C>);
  static_assert(std::sentinel_for<C, I> && std::sized_sentinel_for<I, C>);
  static_assert(std::ranges::random_access_range<S> && std::ranges::sized_range<S> && std::ranges::common_range<S>);
  static_assert(std::ranges::random_access_range<S const> && std::ranges::sized_range<S const> && std::ranges::common_range<S const>);
  // What it is not: elements are in many segments, and the sequence owns them.
  static_assert(!std::contiguous_iterator<I> && !std::contiguous_iterator<C> && !std::ranges::contiguous_range<S> && !std::ranges::contiguous_range<S const>);
  static_assert(!std::is_constructible_v<std::span<T const>, C, C> && !std::is_constructible_v<std::span<T>, S&> && !std::is_constructible_v<std::span<T const>, S const&>);
  static_assert(!std::ranges::view<S> && !std::ranges::borrowed_range<S> && std::ranges::viewable_range<S&>);
  static_assert(std::ranges::output_range<S, T> && !std::ranges::output_range<S const, T> && std::indirectly_writable<I, T> && !std::indirectly_writable<C, T>);
  static_assert(std::is_same_v<std::iter_value_t<C>, T> && std::is_same_v<std::iter_reference_t<C>, T const&> && std::is_same_v<std::iter_rvalue_reference_t<I>, T&&>);
  static_assert(std::three_way_comparable<I> == std::three_way_comparable<C> && std::totally_ordered<I> && std::totally_ordered_with<I, C> && std::regular<C>);
#endif
}
// Standard algorithms over its iterators.
static void algorithms(u64 seed) {
  part = "standard algorithms";
  Lcg g(seed);
  for (int round = 0; round < 40 * scale; ++round) {
    typedef seq<int, std::allocator<int>, 20, 80> S;
    S s; std::vector<int> v; std::size_t n = g.below(200);
    for (std::size_t i = 0; i < n; ++i) { int x = static_cast<int>(g.below(50)); std::size_t at = g.below(i + 1); s.insert(s.nth(at), x); v.insert(v.begin() + static_cast<long>(at), x); }
    operations += 12;
    REQUIRE(std::equal(v.begin(), v.end(), s.begin()) && std::accumulate(s.begin(), s.end(), 0) == std::accumulate(v.begin(), v.end(), 0));
    REQUIRE(std::find(s.begin(), s.end(), 7) - s.begin() == std::find(v.begin(), v.end(), 7) - v.begin());
    std::size_t k = g.below(n + 1);
    std::rotate(s.begin(), s.nth(k), s.end()); std::rotate(v.begin(), v.begin() + static_cast<long>(k), v.end());
    REQUIRE(std::equal(v.begin(), v.end(), s.begin()));
    std::nth_element(s.begin(), s.nth(k), s.end()); std::nth_element(v.begin(), v.begin() + static_cast<long>(k), v.end());
    if (k < n) REQUIRE(s[k] == v[k]);
    std::partial_sort(s.begin(), s.nth(k), s.end(), std::greater<int>()); std::partial_sort(v.begin(), v.begin() + static_cast<long>(k), v.end(), std::greater<int>());
    REQUIRE(std::equal(v.begin(), v.begin() + static_cast<long>(k), s.begin()));
    std::make_heap(s.begin(), s.end()); REQUIRE(std::is_heap(s.begin(), s.end())); std::sort_heap(s.begin(), s.end());
    std::sort(v.begin(), v.end());
    REQUIRE(std::equal(v.begin(), v.end(), s.begin()) && std::is_sorted(s.begin(), s.end()));
    REQUIRE(std::lower_bound(s.begin(), s.end(), 25) - s.begin() == std::lower_bound(v.begin(), v.end(), 25) - v.begin());
    REQUIRE(std::upper_bound(s.cbegin(), s.cend(), 25) - s.cbegin() == std::upper_bound(v.begin(), v.end(), 25) - v.begin());
    std::stable_partition(s.begin(), s.end(), [](int x) { return x % 3 == 0; }); std::stable_partition(v.begin(), v.end(), [](int x) { return x % 3 == 0; });
    REQUIRE(std::equal(v.begin(), v.end(), s.begin()));
    std::sort(s.rbegin(), s.rend()); std::sort(v.rbegin(), v.rend());
    REQUIRE(std::equal(v.begin(), v.end(), s.begin()));
    std::copy_backward(s.begin(), s.nth(k), s.end()); std::copy_backward(v.begin(), v.begin() + static_cast<long>(k), v.end());
    std::copy(v.begin(), v.begin() + static_cast<long>(k / 2), std::back_inserter(s)); v.reserve(v.size() + k); std::copy(v.begin(), v.begin() + static_cast<long>(k / 2), std::back_inserter(v));
    std::copy(v.begin(), v.begin() + 0, std::front_inserter(s));
    std::fill_n(std::inserter(s, s.nth(k)), 5, -4); v.insert(v.begin() + static_cast<long>(k), 5, -4);
    REQUIRE(s.size() == v.size() && std::equal(v.begin(), v.end(), s.begin()));
    std::size_t q = 0; for (int& x : s) { REQUIRE(x == v[q]); x = -x; v[q] = -v[q]; ++q; }
    for (int const& x : static_cast<S const&>(s)) { REQUIRE(x == v[s.size() - q]); --q; }
    std::swap_ranges(s.begin(), s.nth(s.size() / 2), s.nth(s.size() - s.size() / 2)); std::swap_ranges(v.begin(), v.begin() + static_cast<long>(v.size() / 2), v.end() - static_cast<long>(v.size() / 2));
    REQUIRE(std::equal(v.begin(), v.end(), s.begin()));
    REQUIRE(std::vector<int>(s.begin(), s.end()) == v);
#if __cplusplus >= 202002L
    std::ranges::sort(s, std::greater{}); std::ranges::sort(v, std::greater{});
    REQUIRE(std::ranges::equal(s, v) && std::ranges::distance(s) == static_cast<long>(v.size()));
    REQUIRE(std::ranges::equal(s | std::views::reverse | std::views::filter([](int x) { return x & 1; }), v | std::views::reverse | std::views::filter([](int x) { return x & 1; })));
    REQUIRE(std::ranges::equal(std::ranges::subrange(s.cbegin(), s.end()), v) && std::ranges::size(s) == v.size());
#endif
  }
}
// Contents that are only partly ordered, and positions past the end.
struct Less { int k, id; bool operator<(Less const& o) const { return k < o.k; } };
struct Equal { int k, id; bool operator==(Equal const& o) const { return k == o.k; } };
template <class S> bool refused(S& s, typename S::size_type at) { try { (void)s.at(at); return false; } catch (std::out_of_range const&) { return true; } }
static void meaning(u64 seed) {
  part = "comparisons and refusals";
  Lcg g(seed);
  double const nan = std::numeric_limits<double>::quiet_NaN(), pick[] = {0.0, -0.0, 1, -1, nan, std::numeric_limits<double>::infinity(), 2};
  for (int round = 0; round < 400 * scale; ++round) {
    typedef seq<double, std::allocator<double>, 32, 64> S;
    typedef seq<Less, std::allocator<Less>, 32, 64> L;
    typedef seq<Equal, std::allocator<Equal>, 32, 64> Q;
    operations += 8;
    S s[2]; std::vector<double> v[2]; L l[2]; Q q[2]; std::vector<Less> vl[2]; std::vector<Equal> vq[2];
    std::size_t n = g.below(60), kinds = 1 + g.below(7);
    for (int w = 0; w < 2; ++w)
      for (std::size_t i = 0, e = n + (w ? g.below(3) : 0); i < e; ++i) {
        double x = w && i < v[0].size() && g.below(40) ? v[0][i] : pick[(g.below(8) ? 0 : 4) + g.below(kinds) % 3];
        int k = w && i < vl[0].size() && g.below(40) ? vl[0][i].k : static_cast<int>(g.below(kinds));
        s[w].push_back(x); v[w].push_back(x);
        l[w].push_back(Less{k, w}); vl[w].push_back(Less{k, w}); q[w].push_back(Equal{k, w}); vq[w].push_back(Equal{k, w});
      }
    S const &a = s[0], &b = s[1];
    // What std::lexicographical_compare and std::equal say, whatever the standard.
    bool lt = std::lexicographical_compare(v[0].begin(), v[0].end(), v[1].begin(), v[1].end()), gt = std::lexicographical_compare(v[1].begin(), v[1].end(), v[0].begin(), v[0].end());
    bool eq = v[0].size() == v[1].size() && std::equal(v[0].begin(), v[0].end(), v[1].begin());
    REQUIRE((a < b) == lt && (a > b) == gt && (a <= b) == !gt && (a >= b) == !lt && (a == b) == eq && (a != b) == !eq);
    lt = std::lexicographical_compare(vl[0].begin(), vl[0].end(), vl[1].begin(), vl[1].end()); gt = std::lexicographical_compare(vl[1].begin(), vl[1].end(), vl[0].begin(), vl[0].end());
    REQUIRE((l[0] < l[1]) == lt && (l[0] > l[1]) == gt && (l[0] <= l[1]) == !gt && (l[0] >= l[1]) == !lt);
    eq = vq[0].size() == vq[1].size() && std::equal(vq[0].begin(), vq[0].end(), vq[1].begin());
    REQUIRE((q[0] == q[1]) == eq && (q[0] != q[1]) == !eq);
    std::size_t const past[] = {a.size(), a.size() + 1, a.size() + g.below(1000), static_cast<std::size_t>(-1), static_cast<std::size_t>(-1) / 2};
    for (std::size_t at : past) REQUIRE(refused(a, at) && refused(s[0], at) && a.nth(at) == a.end() && s[0].nth(at) == s[0].end());
    if (n) REQUIRE(!refused(a, a.size() - 1) && !refused(s[0], 0));
    S none; REQUIRE(refused(none, 0) && none.nth(0) == none.end() && none.begin() == none.end());
  }
}
// Element construction passes a scoped allocator on, in every operation.
template <class S, class A, class Make> void scoped(const char* name, A const& first, A const& second, Make make, u64 seed) {
  part = name; ++configurations;
  Lcg g(seed);
  S s(first), t(second); std::vector<std::string> v, w;
  for (int step = 0; step < 1500 * scale; ++step) {
    ++operations;
    std::size_t n = v.size(), i = g.below(n + 1);
    std::string text(g.below(2) ? 3 : 40, static_cast<char>('a' + g.below(26)));
    switch (g.below(12)) {
      case 0: s.insert(s.nth(i), make(text)); v.insert(v.begin() + static_cast<long>(i), text); break;
      case 1: s.emplace(s.nth(i), text.c_str()); v.insert(v.begin() + static_cast<long>(i), text); break;
      case 2: s.emplace_back(text.c_str(), text.size()); v.push_back(text); break;
      case 3: { auto x = make(text); s.insert(s.nth(i), 3, x); v.insert(v.begin() + static_cast<long>(i), 3, text); break; }
      case 4: if (n) { i = g.below(n); s.erase(s.nth(i)); v.erase(v.begin() + static_cast<long>(i)); } break;
      case 5: s.resize(n + 2); v.resize(n + 2); break;
      case 6: { std::vector<std::string> l(g.below(5), text); std::vector<typename S::value_type> z; for (auto& x : l) z.push_back(make(x)); s.insert(s.nth(i), z.begin(), z.end()); v.insert(v.begin() + static_cast<long>(i), l.begin(), l.end()); break; }
      case 7: if (n > 100) { s.erase(s.nth(i / 2), s.end()); v.erase(v.begin() + static_cast<long>(i / 2), v.end()); } break;
      case 8: if (n < 200) { t = s; w = v; } break;
      case 9: if (w.size() < 200) { s.splice(s.nth(i), t); v.insert(v.begin() + static_cast<long>(i), w.begin(), w.end()); w.clear(); } break;
      case 10: s.sort(); std::sort(v.begin(), v.end()); break;
      default: if (n) { s.push_front(s[g.below(n) / 2 * 0 + n - 1]); v.insert(v.begin(), v.back()); } break;
    }
    if (step % 7 == 0) {
      REQUIRE(s.size() == v.size() && t.size() == w.size());
      std::size_t q = 0;
      for (auto& x : s) { REQUIRE(std::string(x.data(), x.size()) == v[q++]); REQUIRE(x.get_allocator() == typename S::value_type::allocator_type(first)); }
      for (auto& x : t) REQUIRE(x.get_allocator() == typename S::value_type::allocator_type(second));
    }
  }
  std::printf("DIGEST %s %016llx\n", name, fold(s.size(), s.height()));
}

int main(int argc, char** argv) {
  u64 seed = argc > 1 ? std::strtoull(argv[1], nullptr, 10) : 1;
  if (argc > 2) scale = std::atoi(argv[2]);
  part = "interface";
  interface_of<seq<int>, std::allocator<int>>();
  interface_of<seq<std::string, Least<std::string>, 100, 64>, Least<std::string>>();
  interface_of<seq<bool, std::allocator<bool>, 0, 0>, std::allocator<bool>>();
  digest<seq<int, std::allocator<int>, 16, 64>, true>("int", seed, 3000, 250);
  digest<seq<unsigned char>, true>("unsigned char/default", seed + 6, 600, 4000);
  digest<seq<std::string, std::allocator<std::string>, 160, 64>, true>("string", seed + 7, 1500, 150);
  digest<seq<int, Least<int>, 1, 0>, true>("int/one", seed + 8, 1500, 100);
  other_unit(seed);
  algorithms(seed);
  meaning(seed + 20);
  part = "two translation units";
  for (std::size_t n = 0; n < 300; n = n * 2 + 1) {
    seq<int, std::allocator<int>, 16, 64> s = made_elsewhere(n);
    REQUIRE(s.size() == n && summed_elsewhere(s) == std::accumulate(s.begin(), s.end(), u64(0), [](u64 a, int b) { return fold(a, static_cast<u64>(b)); }));
    s.push_back(1000); grown_elsewhere(s);
    REQUIRE(s.size() == n + 7 && s.back() == 7 && s[n] == 7 && (n == 0 || s[0] == static_cast<int>(n) - 1));
  }
  typedef std::basic_string<char, std::char_traits<char>, Numbered<char>> NString;
  typedef std::scoped_allocator_adaptor<Numbered<NString>> SA;
  scoped<seq<NString, SA, 160, 64>>("scoped allocator", SA(Numbered<NString>(5)), SA(Numbered<NString>(6)), [](std::string const& x) { return NString(x.data(), x.size(), Numbered<char>(9)); }, seed + 9);
#ifdef HAVE_PMR
  {
    std::pmr::monotonic_buffer_resource one, two;
    typedef std::pmr::polymorphic_allocator<std::pmr::string> PA;
    scoped<seq<std::pmr::string, PA, 200, 80>>("pmr", PA(&one), PA(&two), [](std::string const& x) { return std::pmr::string(x.data(), x.size()); }, seed + 10);
  }
#endif
  std::printf("DONE %ld %ld\n", operations, configurations);
}
