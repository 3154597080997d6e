// Unit (C23): sources that log every access, for construction, assign and
// insert, over all iterator categories.
#include "shape.hpp"
#include <deque>
#include <iterator>
#include <list>
#include <sstream>
using namespace vt;
using T = VT_T;
using Al = VT_ALLOC;
using S = boost::segmented_tree::seq<T, Al, VT_SEG, VT_BASE>;
using V = View<S>;
using E = El<T>;
using CIt = S::const_iterator;
using Z = S::size_type;

// The source: what was read, where, in which order.
struct Src {
  std::vector<T> v;
  std::vector<std::size_t> reads;
  std::size_t steps = 0;
  std::size_t front = 0;                 // single pass: the only valid position
  void read(std::size_t i) {
    VT_CHECK(i < v.size(), "range", "source dereferenced at position %zu of %zu", i, v.size());
    reads.push_back(i);
  }
};
// Categories of one's own, as iterator libraries have them.
struct SinglePassTag : std::input_iterator_tag {};
struct LegacyInputTag { operator std::input_iterator_tag() const { return {}; } };
struct RandomTag : std::random_access_iterator_tag {};
enum Value { ByRef, ByValue, ByProxy };
template <class X> struct Proxy { X* p; operator X() const { return *p; } };
template <class Cat, int How> struct SrcIt {
  Src* s; std::size_t i;
  using iterator_category = Cat; using value_type = T; using difference_type = std::ptrdiff_t;
  using reference = std::conditional_t<How == ByRef, T&, std::conditional_t<How == ByValue, T, Proxy<T>>>;
  using pointer = std::conditional_t<How == ByValue, void, T*>;
  static constexpr bool single = !std::is_convertible<Cat, std::forward_iterator_tag>::value;
  void valid() const { if (single) VT_CHECK(i == s->front, "range", "an outdated single-pass iterator (position %zu, the source is at %zu) is used", i, s->front); }
  reference operator*() const {
    valid(); s->read(i);
    if constexpr (How == ByProxy) return Proxy<T>{&s->v[i]}; else return s->v[i];
  }
  T* operator->() const { valid(); s->read(i); return &s->v[i]; }
  SrcIt& operator++() {
    valid();
    VT_CHECK(i < s->v.size(), "range", "source advanced past its end");
    ++s->steps; ++i; if (single) s->front = i;
    return *this;
  }
  SrcIt operator++(int) { SrcIt o = *this; ++*this; return o; }
  SrcIt& operator--() { VT_CHECK(i > 0, "range", "source moved before its beginning"); --i; return *this; }
  SrcIt operator--(int) { SrcIt o = *this; --*this; return o; }
  SrcIt& operator+=(std::ptrdiff_t d) { i += (std::size_t)d; VT_CHECK(i <= s->v.size(), "range", "source advanced past its end"); return *this; }
  SrcIt& operator-=(std::ptrdiff_t d) { return *this += -d; }
  friend SrcIt operator+(SrcIt a, std::ptrdiff_t d) { return a += d; }
  friend SrcIt operator-(SrcIt a, std::ptrdiff_t d) { return a -= d; }
  friend std::ptrdiff_t operator-(SrcIt const& a, SrcIt const& b) { return (std::ptrdiff_t)a.i - (std::ptrdiff_t)b.i; }
  reference operator[](std::ptrdiff_t d) const { return *(*this + d); }
  friend bool operator==(SrcIt const& a, SrcIt const& b) { return a.i == b.i; }
  friend bool operator!=(SrcIt const& a, SrcIt const& b) { return a.i != b.i; }
  friend bool operator<(SrcIt const& a, SrcIt const& b) { return a.i < b.i; }
  friend bool operator>(SrcIt const& a, SrcIt const& b) { return a.i > b.i; }
  friend bool operator<=(SrcIt const& a, SrcIt const& b) { return a.i <= b.i; }
  friend bool operator>=(SrcIt const& a, SrcIt const& b) { return a.i >= b.i; }
};
template <class C, int H, class X> void operator,(SrcIt<C, H> const&, X const&) = delete;
template <class C, int H, class X> void operator,(X const&, SrcIt<C, H> const&) = delete;
static u64 serial;
static std::vector<u64> values(Rng& rng, std::size_t n) {
  std::vector<u64> r;
  for (std::size_t i = 0; i < n; ++i) r.push_back(E::norm(rng.one_in(4) ? rng.below(3) : ++serial * 2654435761ull));
  return r;
}
// Give the range [f, l) to one of the range operations. m: contents afterwards.
template <class I> static void deliver(std::unique_ptr<S>& s, Model& m, std::vector<u64> const& vs, I f, I l, int op, Rng& rng, const char* kind) {
  std::size_t n = m.size(), k = vs.size();
  switch (op) {
    case 0: s.reset(new S(f, l)); m = vs; break;
    case 1: s.reset(new S(f, l, Al())); m = vs; break;
    case 2: s->assign(f, l); m = vs; break;
    default: {
      std::size_t i = op == 3 ? 0 : op == 4 ? n : rng.below(n + 1);
      auto it = s->insert(CIt(s->nth((Z)i)), f, l);
      m.insert(m.begin() + (long)i, vs.begin(), vs.end());
      V::same_place(*s, m, it, i, kind);
    }
  }
  V::content(*s, m, kind);
  V::segments(*s, m, kind);
  VT_COUNT("operations");
  VT_ADD("elements_transferred", k);
}
template <class Cat, int How> static void logged(std::unique_ptr<S>& s, Model& m, std::vector<u64> const& vs, int op, Rng& rng, const char* kind) {
  Src src;
  for (u64 v : vs) src.v.push_back(E::make(v));
  std::size_t k = vs.size();
  using I = SrcIt<Cat, How>;
  deliver(s, m, vs, I{&src, 0}, I{&src, k}, op, rng, kind);
  VT_CHECK(src.reads.size() == k, "range", "%s: %zu elements were dereferenced %zu times", kind, k, src.reads.size());
  for (std::size_t i = 0; i < k; ++i) VT_CHECK(src.reads[i] == i, "range", "%s: access %zu read element %zu", kind, i, src.reads[i]);
  if (I::single) VT_CHECK(src.steps == k && src.front == k, "range", "%s: the single-pass source of %zu was advanced %zu times", kind, k, src.steps);
  for (std::size_t i = 0; i < k; ++i) VT_CHECK(E::get(src.v[i]) == vs[i], "range", "%s: source element %zu changed", kind, i);
  VT_COUNT("logged_sources");
}
template <class X> static void integers(std::unique_ptr<S>& s, Model& m, Rng& rng) {
  if constexpr (std::is_integral<X>::value) {
    std::size_t c = rng.below(40); u64 v = E::norm(rng.below(100));
    std::size_t i = rng.below(m.size() + 1);
    using Q = std::conditional_t<std::is_same<X, T>::value, S, void>;
    switch (rng.below(6)) {
      case 0: s.reset(new Q((int)c, (int)v)); m.assign(c, v); break;
      case 1: s.reset(new Q((short)c, (short)v)); m.assign(c, v); break;
      case 2: static_cast<Q&>(*s).assign((int)c, (int)v); m.assign(c, v); break;
      case 3: static_cast<Q&>(*s).assign((unsigned char)c, (unsigned char)v); m.assign(c, v); break;
      case 4: static_cast<Q&>(*s).insert(CIt(s->nth((Z)i)), (int)c, (int)v); m.insert(m.begin() + (long)i, c, v); break;
      default: static_cast<Q&>(*s).insert(CIt(s->nth((Z)i)), (long long)c, (long long)v); m.insert(m.begin() + (long)i, c, v); break;
    }
    V::content(*s, m, "integers"); VT_COUNT("operations");
  }
}
template <class X> static void stream(std::unique_ptr<S>& s, Model& m, std::vector<u64> const& vs, int op, Rng& rng) {
  if constexpr (std::is_integral<X>::value && sizeof(X) > 1) {
    std::stringstream st; for (u64 v : vs) st << v << ' ';
    deliver(s, m, vs, std::istream_iterator<X>(st), std::istream_iterator<X>(), op, rng, "stream");
  }
}
// A part of a sequence, of the same type or with other node sizes.
template <class Q> static void part_of(std::unique_ptr<S>& s, Model& m, std::size_t k, int op, Rng& rng) {
  Q q; Model qm;
  build_shape(q, qm, rng, k);
  std::size_t n = qm.size(), a = rng.below(n + 1), b = a + rng.below(n - a + 1);
  if (rng.one_in(4)) a = 0;
  if (rng.one_in(4)) b = n;
  Model vs(qm.begin() + (long)a, qm.begin() + (long)b), back(vs.rbegin(), vs.rend());
  using QZ = typename Q::size_type;
  auto f = q.nth((QZ)a), l = q.nth((QZ)b);
  typename Q::const_iterator cf = f, cl = l;
  saw(mix(mix(shape_of(q, qm), a), b));
  switch (rng.below(6)) {
    case 0: deliver(s, m, vs, f, l, op, rng, "part of a sequence"); break;
    case 1: deliver(s, m, vs, cf, cl, op, rng, "const part of a sequence"); break;
    case 2: deliver(s, m, back, std::reverse_iterator<decltype(l)>(l), std::reverse_iterator<decltype(l)>(f), op, rng, "reversed part of a sequence"); break;
    case 3: deliver(s, m, back, std::reverse_iterator<decltype(cl)>(cl), std::reverse_iterator<decltype(cl)>(cf), op, rng, "reversed const part of a sequence"); break;
    case 4: deliver(s, m, vs, std::make_move_iterator(f), std::make_move_iterator(l), op, rng, "moved part of a sequence"); return;
    default: deliver(s, m, vs, q.cbegin() + (long)a, q.cbegin() + (long)b, op, rng, "part of a sequence by offset");
  }
  V::segments(*s, m, "after a part of a sequence");
  View<Q>::content(q, qm, "the source of a part");
  VT_COUNT("partial_sources");
}
// Sources of other value types: each element is converted.
enum Small { kZero, kOne, kTwo = 2, kSeven = 7 };
template <class U> struct Holder { U u; operator U const&() const { return u; } };
template <class U> static U small_value(Rng& rng) {
  if constexpr (std::is_same<U, const char*>::value) { static const char* t[] = {"0", "3", "6", "12", "99", "123456"}; return t[rng.below(6)]; }
  else if constexpr (std::is_enum<U>::value) return (U)rng.below(8);
  else if constexpr (std::is_same<U, bool>::value) return rng.one_in(2);
  else if constexpr (std::is_floating_point<U>::value) return (U)rng.below(120) + (U)0.25 * (U)rng.below(4);
  else if constexpr (std::is_same<T, std::uint8_t>::value || std::is_same<T, u32>::value) return rng.one_in(2) ? (U)rng.below(120) : (U)rng.next();
  else return (U)rng.below(120);
}
template <class U> static void converted(std::unique_ptr<S>& s, Model& m, std::size_t k, int op, Rng& rng) {
  if constexpr (std::is_constructible<T, U>::value && std::is_assignable<T&, U>::value && (!std::is_floating_point<U>::value || !std::is_class<T>::value)) {
    std::vector<Holder<U>> us;
    Model vs;
    for (std::size_t i = 0; i < k; ++i) { us.push_back({small_value<U>(rng)}); vs.push_back(E::get(T(us.back().u))); }
    std::unique_ptr<U[]> raw(new U[k + 1]);
    for (std::size_t i = 0; i < k; ++i) raw[i] = us[i].u;
    switch (rng.below(6)) {
      case 0: deliver(s, m, vs, raw.get(), raw.get() + k, op, rng, "pointers to another type"); break;
      case 1: { U const* p = raw.get(); deliver(s, m, vs, p, p + k, op, rng, "pointers to constants of another type"); break; }
      case 2: { std::vector<U> v(raw.get(), raw.get() + k); deliver(s, m, vs, v.cbegin(), v.cend(), op, rng, "vector of another type"); break; }
      case 3: { std::list<U> v(raw.get(), raw.get() + k); deliver(s, m, vs, v.begin(), v.end(), op, rng, "list of another type"); break; }
      case 4: { boost::segmented_tree::seq<U> q(raw.get(), raw.get() + k); deliver(s, m, vs, q.begin(), q.end(), op, rng, "sequence of another type"); break; }
      default: { std::deque<U> d(raw.get(), raw.get() + k); deliver(s, m, vs, std::make_move_iterator(d.begin()), std::make_move_iterator(d.end()), op, rng, "moved deque of another type"); }
    }
    for (std::size_t i = 0; i < k; ++i) VT_CHECK(raw[i] == us[i].u, "range", "element %zu of the source of another type changed", i);
    VT_COUNT("converted_sources");
  }
}
static void other_types(std::unique_ptr<S>& s, Model& m, std::size_t k, int op, Rng& rng) {
  if (std::is_same<T, std::string>::value) return rng.one_in(2) ? converted<const char*>(s, m, k, op, rng) : converted<char*>(s, m, 0, op, rng);
  switch (rng.below(16)) {
    case 0: converted<float>(s, m, k, op, rng); break;
    case 1: converted<double>(s, m, k, op, rng); break;
    case 2: converted<signed char>(s, m, k, op, rng); break;
    case 3: converted<unsigned char>(s, m, k, op, rng); break;
    case 4: converted<short>(s, m, k, op, rng); break;
    case 5: converted<unsigned short>(s, m, k, op, rng); break;
    case 6: converted<int>(s, m, k, op, rng); break;
    case 7: converted<unsigned>(s, m, k, op, rng); break;
    case 8: converted<long>(s, m, k, op, rng); break;
    case 9: converted<unsigned long long>(s, m, k, op, rng); break;
    case 10: converted<bool>(s, m, k, op, rng); break;
    case 11: converted<Small>(s, m, k, op, rng); break;
    case 12: converted<char16_t>(s, m, k, op, rng); break;
    case 13: converted<wchar_t>(s, m, k, op, rng); break;
    case 14: converted<long double>(s, m, k, op, rng); break;
    default: converted<char>(s, m, k, op, rng);
  }
}
static void one_case(Rng& rng) {
  std::unique_ptr<S> s(new S); Model m;
  for (int round = 0; round < (VT_LONG ? 8 : 40); ++round) {
    if (rng.one_in(3) || m.size() > 150 + 2 * VT_LONG) build_shape(*s, m, rng, len_or_long(rng, 90));
    std::size_t k = rng.one_in(5) ? 0 : rng.one_in(4) ? rng.below(3) : len_or_long(rng, 70);
    auto vs = values(rng, k);
    int op = (int)rng.below(7), kind = (int)rng.below(26);
    step("range", op, kind, (long)k);
    saw(mix(mix((u64)op, (u64)kind), mix(s->height(), k)));
    std::vector<T> ts; for (u64 v : vs) ts.push_back(E::make(v));
    switch (kind) {
      case 0: logged<std::input_iterator_tag, ByRef>(s, m, vs, op, rng, "single-pass"); break;
      case 1: logged<std::input_iterator_tag, ByValue>(s, m, vs, op, rng, "single-pass by value"); break;
      case 2: logged<std::input_iterator_tag, ByProxy>(s, m, vs, op, rng, "single-pass proxies"); break;
      case 17: logged<SinglePassTag, ByRef>(s, m, vs, op, rng, "derived single-pass"); break;
      case 18: logged<LegacyInputTag, ByValue>(s, m, vs, op, rng, "convertible single-pass"); break;
      case 19: logged<RandomTag, ByRef>(s, m, vs, op, rng, "derived random access"); break;
      case 3: logged<std::forward_iterator_tag, ByRef>(s, m, vs, op, rng, "forward"); break;
      case 4: logged<std::bidirectional_iterator_tag, ByRef>(s, m, vs, op, rng, "bidirectional"); break;
      case 5: logged<std::random_access_iterator_tag, ByRef>(s, m, vs, op, rng, "random access"); break;
      case 6: logged<std::random_access_iterator_tag, ByProxy>(s, m, vs, op, rng, "random access proxies"); break;
      case 7: deliver(s, m, vs, ts.data(), ts.data() + k, op, rng, "pointers"); break;
      case 8: { T const* p = ts.data(); deliver(s, m, vs, p, p + k, op, rng, "const pointers"); break; }
      case 9: { std::list<T> l(ts.begin(), ts.end()); deliver(s, m, vs, l.cbegin(), l.cend(), op, rng, "list"); break; }
      case 10: { std::deque<T> d(ts.rbegin(), ts.rend()); deliver(s, m, vs, d.rbegin(), d.rend(), op, rng, "reversed deque"); break; }
      case 11: {
        deliver(s, m, vs, std::make_move_iterator(ts.begin()), std::make_move_iterator(ts.end()), op, rng, "moved");
        break;
      }
      case 12: { S q; for (auto& t : ts) q.push_back(t); Model qm = vs; deliver(s, m, vs, q.begin(), q.end(), op, rng, "another sequence"); V::content(q, qm, "the source sequence"); break; }
      case 13: { S q; for (auto& t : ts) q.push_front(t); deliver(s, m, vs, q.crbegin(), q.crend(), op, rng, "another sequence reversed"); break; }
      case 14: integers<T>(s, m, rng); break;   // integers are counts and values
      case 15: {                          // initializer lists, and streams
        T a = E::make(5), b = E::make(6), c = E::make(7);
        std::size_t i = rng.below(m.size() + 1);
        switch (rng.below(6)) {
          case 0: s.reset(new S{a, b, c}); m = {5, 6, 7}; break;
          case 1: *s = {a, b}; m = {5, 6}; break;
          case 2: s->assign({a, b, c, a}); m = {5, 6, 7, 5}; break;
          case 3: s->insert(CIt(s->nth((Z)i)), {c, b}); m.insert(m.begin() + (long)i, {7, 6}); break;
          case 4: { std::initializer_list<T> none{}; auto it = s->insert(CIt(s->nth((Z)i)), none); V::same_place(*s, m, it, i, "empty list"); break; }
          default: s.reset(new S({b, a}, Al())); m = {6, 5}; break;
        }
        V::content(*s, m, "initializer list"); VT_COUNT("operations");
        break;
      }
      case 20: case 21: part_of<S>(s, m, k, op, rng); break;
      case 22: part_of<boost::segmented_tree::seq<T, std::allocator<T>, 200, 96>>(s, m, k, op, rng); break;
      case 23: case 24: other_types(s, m, k, op, rng); break;
      default: stream<T>(s, m, vs, op, rng);
    }
  }
}
int main(int argc, char** argv) {
  init(argc, argv, VT_UNIT);
  for (u64 id = 0; id < (u64)VT_CASES * st().scale; ++id) {
    if (!my_case(id)) continue;
    begin_case(id);
    arenas().reset();
    Rng rng(case_seed(id));
    one_case(rng);
    arenas().expect_empty("after the sequence was destroyed");
    if (id < 2) sample(trace(8));
  }
  return finish();
}
