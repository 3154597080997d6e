// Unit (C08, C09): histories on element classes with unusual traits, and
// through allocators that provide their hooks in unusual ways. A ledger says
// which addresses hold a live element and what it is worth.
#include "core.hpp"
#include <algorithm>
#include <list>
#include <string>
#include <type_traits>
#include <unordered_map>
using namespace vt;
using Model = std::vector<u64>;

// ---------------------------------------------------------------- the ledger
struct Ledger {
  std::unordered_map<const void*, u64> at;   // elements (C08) or constructed objects (C09)
  std::unordered_map<const void*, std::size_t> blocks;
  long hooks = 0;
  void born(const void* p, u64 v) { VT_CHECK(at.emplace(p, v).second, "lifetime", "constructed over a live element at %p", p); }
  void died(const void* p) { VT_CHECK(at.erase(p), "lifetime", "destroyed where no element lives (%p)", p); }
  u64& of(const void* p) { auto i = at.find(p); VT_CHECK(i != at.end(), "lifetime", "used where no element lives (%p)", p); return i->second; }
};
static Ledger L;

// ---------------------------------------------------------------- elements
// Empty: only the ledger knows its value.
#define VT_LEDGER_CLASS(NAME, FINAL, BASE, DTOR, ASSIGN)                                              \
  struct NAME FINAL BASE {                                                                            \
    explicit NAME(u64 v) { L.born(this, v); }                                                         \
    NAME(NAME const& o) { L.born(this, L.of(&o)); }                                                   \
    NAME(NAME&& o) noexcept { L.born(this, L.of(&o)); }                                               \
    DTOR { L.died(this); }                                                                            \
    ASSIGN                                                                                            \
    u64 get() const { return L.of(this); }                                                            \
  };
#define VT_ASSIGNS(NAME)                                                                              \
  NAME& operator=(NAME const& o) { L.of(this) = L.of(&o); return *this; }                             \
  NAME& operator=(NAME&& o) noexcept { L.of(this) = L.of(&o); return *this; }
struct Nothing {};
struct Virtual { virtual int kind() const { return 1; } virtual ~Virtual() {} };
VT_LEDGER_CLASS(Empty, , , ~Empty(), VT_ASSIGNS(Empty))
VT_LEDGER_CLASS(EmptyFinal, final, , ~EmptyFinal() noexcept, VT_ASSIGNS(EmptyFinal))
VT_LEDGER_CLASS(EmptyDerived, , : Nothing, ~EmptyDerived() noexcept(false), VT_ASSIGNS(EmptyDerived))
VT_LEDGER_CLASS(Poly, final, : Virtual, ~Poly() override, VT_ASSIGNS(Poly) int kind() const override { return 7; })
// Assignment is trivial, nothing else is.
struct TrivAssign {
  u64 v;
  explicit TrivAssign(u64 x) : v(x) { L.born(this, 0); }
  TrivAssign(TrivAssign const& o) : v(o.get()) { L.born(this, 0); }
  TrivAssign& operator=(TrivAssign const&) = default;
  ~TrivAssign() { L.died(this); }
  u64 get() const { L.of(this); return v; }
};
static_assert(std::is_trivially_copy_assignable<TrivAssign>::value && !std::is_trivially_copy_constructible<TrivAssign>::value, "");
// Move assignment only through swap, a class that owns, compared by value.
struct Swapping {
  u64* p;
  explicit Swapping(u64 x) : p(new u64(x)) { L.born(this, 0); }
  Swapping(Swapping const& o) : p(new u64(o.get())) { L.born(this, 0); }
  Swapping(Swapping&& o) noexcept : p(o.p) { o.p = nullptr; L.born(this, 0); }
  Swapping& operator=(Swapping o) noexcept { L.of(this); std::swap(p, o.p); return *this; }
  ~Swapping() { L.died(this); delete p; }
  u64 get() const { L.of(this); VT_CHECK(p, "lifetime", "a moved-from element is visible"); return *p; }
};
// Trivially destructible and trivially assignable, but every copy counts.
struct CountsCopies {
  u64 v; CountsCopies const* self;
  explicit CountsCopies(u64 x) : v(x), self(this) {}
  CountsCopies(CountsCopies const& o) : v(o.get()), self(this) {}
  CountsCopies& operator=(CountsCopies const& o) { v = o.get(); get(); return *this; }
  u64 get() const { VT_CHECK(self == this, "lifetime", "an element was relocated by bytes"); return v; }
};
// Only the destructor is not trivial; overloads take part in nothing else.
struct DtorOnly {
  u64 v; u32 alive;
  explicit DtorOnly(u64 x) : v(x), alive(0x600D) {}
  DtorOnly(DtorOnly const&) = default;
  DtorOnly& operator=(DtorOnly const&) = default;
  ~DtorOnly() { get(); alive = 0; }
  u64 get() const { VT_CHECK(alive == 0x600D, "lifetime", "used or destroyed where no element lives"); return v; }
};
// Derived from a standard class.
struct Derived : std::string {
  explicit Derived(u64 x) : std::string(std::to_string(x) + (x % 2 ? std::string() : std::string(30, ' '))) { L.born(this, 0); }
  Derived(Derived const& o) : std::string(o) { L.born(this, L.of(&o)); }
  Derived(Derived&& o) noexcept : std::string(std::move(o)) { L.born(this, L.of(&o)); }
  Derived& operator=(Derived const&) = default;
  Derived& operator=(Derived&&) = default;
  ~Derived() { L.died(this); }
  u64 get() const { L.of(this); return strtoull(c_str(), nullptr, 10); }
};
// Sequences of sequences.
struct Nested {
  boost::segmented_tree::seq<Swapping, std::allocator<Swapping>, 16, 64> s;
  explicit Nested(u64 x) { for (u64 i = 0; i <= x % 9; ++i) s.push_back(Swapping(x + i)); }
  u64 get() const { VT_CHECK(!s.empty() && s.size() == s[0].get() % 9 + 1, "lifetime", "a moved-from sequence is visible"); return s[0].get(); }
};
struct Plain { u64 v; explicit Plain(u64 x) : v(x) {} u64 get() const { return v; } };
struct Owning { std::string t; explicit Owning(u64 x) : t(std::to_string(x) + std::string(25, '_')) {} u64 get() const { return strtoull(t.c_str(), nullptr, 10); } };

// ---------------------------------------------------------------- allocators
using E = VT_T;
template <class T> constexpr bool elem = std::is_same<T, E>::value;
template <class T> T* take(std::size_t n) { VT_CHECK(n, "allocator", "no object is allocated"); T* p = static_cast<T*>(::operator new(n * sizeof(T))); memset(static_cast<void*>(p), 0xA5, n * sizeof(T)); L.blocks[p] = n * 64 + sizeof(T) % 64; return p; }
template <class T> void give(T* p, std::size_t n) {
  auto i = L.blocks.find(p);
  VT_CHECK(i != L.blocks.end() && i->second == n * 64 + sizeof(T) % 64, "allocator", "a block of another size, or none, is deallocated");
  if (elem<T>) for (std::size_t k = 0; k < n; ++k) VT_CHECK(!L.at.count(p + k), "allocator", "memory deallocated while element %zu in it is alive", k);
  L.blocks.erase(i);
  ::operator delete(p);
}
template <class T, class... A> void make_at(T* p, A&&... a) {
  ::new (static_cast<void*>(p)) T(std::forward<A>(a)...);
  if (elem<T>) { ++L.hooks; L.born(p, 0); }
}
template <class T> void end_at(T* p) { if (elem<T>) { ++L.hooks; L.died(p); } p->~T(); }
#define VT_ALLOC_BODY(NAME)                                                            \
  using value_type = T;                                                                \
  NAME() = default;                                                                    \
  template <class U> NAME(NAME<U> const&) noexcept {}                                  \
  T* allocate(std::size_t n) { return take<T>(n); }                                    \
  void deallocate(T* p, std::size_t n) { give(p, n); }                                 \
  template <class U> bool operator==(NAME<U> const&) const { return true; }            \
  template <class U> bool operator!=(NAME<U> const&) const { return false; }
template <class T> struct Bare { VT_ALLOC_BODY(Bare) };
// Hooks as members of every kind.
template <class T> struct Usual { VT_ALLOC_BODY(Usual)
  template <class U, class... A> void construct(U* p, A&&... a) { make_at(p, std::forward<A>(a)...); }
  template <class U> void destroy(U* p) { end_at(p); } };
template <class T> struct ConstHooks { VT_ALLOC_BODY(ConstHooks)
  template <class U, class... A> void construct(U* p, A&&... a) const { make_at(p, std::forward<A>(a)...); }
  template <class U> void destroy(U* p) const noexcept { end_at(p); } };
template <class T> struct StaticHooks { VT_ALLOC_BODY(StaticHooks)
  template <class U, class... A> static void construct(U* p, A&&... a) { make_at(p, std::forward<A>(a)...); }
  template <class U> static void destroy(U* p) { end_at(p); } };
template <class T> struct Defaulted { VT_ALLOC_BODY(Defaulted)
  template <class U, class... A> void construct(U* p, A&&... a) { make_at(p, std::forward<A>(a)...); }
  template <class U> void destroy(U* p, int = 0) { end_at(p); } };
// Not templates: for the element type alone.
template <class T> struct Own { VT_ALLOC_BODY(Own)
  void construct(T* p, T const& v) { make_at(p, v); }
  void construct(T* p, T&& v) { make_at(p, std::move(v)); }
  void construct(T* p, u64 v) { make_at(p, v); }
  void destroy(T* p) { end_at(p); } };
// Inherited from a base class.
struct HookBase {
  template <class U, class... A> void construct(U* p, A&&... a) { make_at(p, std::forward<A>(a)...); }
  template <class U> void destroy(U* p) { end_at(p); } };
template <class T> struct Inherits : HookBase { VT_ALLOC_BODY(Inherits) };
// Derived from std::allocator: with hooks, without, and forwarding its memory.
#define VT_STD_BODY(NAME)                                                              \
  using value_type = T;                                                                \
  template <class U> struct rebind { using other = NAME<U>; };                         \
  NAME() = default;                                                                    \
  template <class U> NAME(NAME<U> const&) noexcept {}
template <class T> struct StdHooks : std::allocator<T> { VT_STD_BODY(StdHooks)
  template <class U, class... A> void construct(U* p, A&&... a) { make_at(p, std::forward<A>(a)...); }
  template <class U> void destroy(U* p) { end_at(p); } };
template <class T> struct StdMemory : std::allocator<T> { VT_STD_BODY(StdMemory)
  T* allocate(std::size_t n) { return take<T>(n); }
  void deallocate(T* p, std::size_t n) { give(p, n); } };
template <class T> struct StdAll : std::allocator<T> { VT_STD_BODY(StdAll)
  T* allocate(std::size_t n) { return take<T>(n); }
  void deallocate(T* p, std::size_t n) { give(p, n); }
  template <class U, class... A> void construct(U* p, A&&... a) { make_at(p, std::forward<A>(a)...); }
  template <class U> void destroy(U* p) { end_at(p); } };
// An adaptor of another allocator, with arguments the template does not show.
template <class T, class Tag = int, int N = 3> struct Adapted { 
  using value_type = T;
  template <class U> struct rebind { using other = Adapted<U, Tag, N>; };
  Adapted() = default;
  template <class U> Adapted(Adapted<U, Tag, N> const&) noexcept {}
  T* allocate(std::size_t n) { return take<T>(n); }
  void deallocate(T* p, std::size_t n) { give(p, n); }
  template <class U, class... A> void construct(U* p, A&&... a) { make_at(p, std::forward<A>(a)...); }
  template <class U> void destroy(U* p) { end_at(p); }
  friend bool operator==(Adapted const&, Adapted const&) { return true; }
  friend bool operator!=(Adapted const&, Adapted const&) { return false; } };
// Only a construct, or only a destroy.
template <class T> struct OnlyConstruct { VT_ALLOC_BODY(OnlyConstruct)
  template <class U, class... A> void construct(U* p, A&&... a) { ::new (static_cast<void*>(p)) U(std::forward<A>(a)...); if (elem<U>) ++L.hooks; } };
template <class T> struct OnlyDestroy { VT_ALLOC_BODY(OnlyDestroy)
  template <class U> void destroy(U* p) { p->~U(); if (elem<U>) ++L.hooks; } };

using S = boost::segmented_tree::seq<E, VT_ALLOC<E>, VT_SEG, VT_BASE>;
using It = S::iterator;
using CIt = S::const_iterator;
template <class X> u64 get(X const& x) { if constexpr (std::is_class<X>::value) return x.get(); else return x; }

// What must live now: one ledger entry at each element (VT_LEDGER 1: the
// elements', with the count of hooks 2), and no other.
static void check(S& s, Model const& m, S& t, Model const& o, const char* when) {
  VT_CHECK(s.size() == m.size() && t.size() == o.size(), "content", "%s: sizes %zu and %zu, expected %zu and %zu", when, s.size(), t.size(), m.size(), o.size());
  if (VT_LEDGER) VT_CHECK(L.at.size() == m.size() + o.size(), "lifetime", "%s: %zu elements are alive, the sequences hold %zu", when, L.at.size(), m.size() + o.size());
  auto look = [&](S& q, Model const& w) {
    std::size_t i = 0;
    for (It it = q.begin(), e = q.end(); it != e; ++it, ++i) {
      VT_CHECK(i < w.size(), "content", "%s: too many elements", when);
      if (VT_LEDGER) L.of(std::addressof(*it));
      u64 v = get(*it);
      VT_CHECK(v == w[i], "content", "%s: element %zu of %zu is %llu, expected %llu", when, i, w.size(), (unsigned long long)v, (unsigned long long)w[i]);
    }
    VT_CHECK(i == w.size(), "content", "%s: %zu elements, expected %zu", when, i, w.size());
  };
  look(s, m); look(t, o);
  VT_COUNT("deep_checks");
}
static bool less(E const& a, E const& b) { return get(a) < get(b); }
static bool same(E const& a, E const& b) { return get(a) % 4 == get(b) % 4; }
static bool out(E const& a) { return get(a) % 7 == 3; }

static void one_case(Rng& rng) {
  S s, t; Model m, o;
  std::size_t cap = rng.one_in(3) ? 20 : rng.one_in(2) ? 90 : 260;
  bool grow = true;
  u64 serial = 0;
  for (int k = 0; k < VT_OPS; ++k) {
    if (m.size() >= cap) grow = false;
    if (m.size() < 4) grow = true;
    if (rng.one_in(120)) { s.swap(t); m.swap(o); }
    std::size_t n = m.size(), i = rng.below(n + 1), q = rng.below(rng.one_in(8) ? 40 : 6);
    u64 v = rng.one_in(3) ? rng.below(9) : ++serial;
    int op = (int)rng.below(40);
    if (op < 12) op = grow ? op % 6 : 6 + op % 4;
    step("op", op, (long)n, (long)i);
    CIt p = s.nth(i);
    auto at = m.begin() + (long)i;
    switch (op) {
      case 0: { E x(v); s.insert(p, x); m.insert(at, v); break; }
      case 1: s.insert(p, E(v)); m.insert(at, v); break;
      case 2: s.emplace(p, v); m.insert(at, v); break;
      case 3: { E x(v); s.push_back(x); m.push_back(v); break; }
      case 4: s.emplace_front(v); m.insert(m.begin(), v); break;
      case 5: s.push_front(E(v)); m.insert(m.begin(), v); break;
      case 6: case 7: if (i < n) { s.erase(p); m.erase(at); } break;
      case 8: if (n) { s.pop_back(); m.pop_back(); } break;
      case 9: if (n) { s.pop_front(); m.erase(m.begin()); } break;
      case 12: if (grow) { E x(v); s.insert(p, q, x); m.insert(at, q, v); } break;
      case 13: if (grow) { std::list<E> l; for (std::size_t z = 0; z < q; ++z) l.emplace_back(v + z); s.insert(p, l.begin(), l.end()); Model w; for (std::size_t z = 0; z < q; ++z) w.push_back(v + z); m.insert(at, w.begin(), w.end()); } break;
      case 14: case 15: { std::size_t l = std::min(n, i + rng.below(grow ? 5 : 60)); s.erase(p, s.nth(l)); m.erase(at, m.begin() + (long)l); break; }
      case 16: { E x(v); std::size_t w = rng.one_in(2) ? n + q : n - std::min(n, q); s.resize(w, x); m.resize(w, v); break; }
      case 17: if constexpr (std::is_default_constructible<E>::value) { std::size_t w = n + q; s.resize(w); m.resize(w, 0); } break;
      case 18: s.splice(p, t); m.insert(at, o.begin(), o.end()); o.clear(); break;
      case 19: if (!o.empty()) { std::size_t j = rng.below(o.size()); s.splice(p, t, t.nth(j)); m.insert(at, o[j]); o.erase(o.begin() + (long)j); } break;
      case 20: { std::size_t j = rng.below(o.size() + 1), l = j + rng.below(o.size() - j + 1); s.splice(p, t, t.nth(j), t.nth(l)); m.insert(at, o.begin() + (long)j, o.begin() + (long)l); o.erase(o.begin() + (long)j, o.begin() + (long)l); break; }
      case 21: s.sort(less); std::stable_sort(m.begin(), m.end()); break;
      case 22: s.reverse(); std::reverse(m.begin(), m.end()); break;
      case 23: s.unique(same); m.erase(std::unique(m.begin(), m.end(), [](u64 a, u64 b) { return a % 4 == b % 4; }), m.end()); break;
      case 24: s.remove_if(out); m.erase(std::remove_if(m.begin(), m.end(), [](u64 a) { return a % 7 == 3; }), m.end()); break;
      case 25: { s.sort(less); t.sort(less); std::stable_sort(m.begin(), m.end()); std::stable_sort(o.begin(), o.end()); s.merge(t, less); Model r; std::merge(m.begin(), m.end(), o.begin(), o.end(), std::back_inserter(r)); m = r; o.clear(); break; }
      case 26: t = s; o = m; break;
      case 27: { S u(s); t = std::move(u); o = m; break; }
      case 28: { S u(std::move(s)); check(u, m, t, o, "moved"); s = std::move(u); break; }
      case 29: { E x(v); t.assign(q, x); o.assign(q, v); break; }
      case 30: { std::list<E> l(q, E(v)); S u(l.begin(), l.end()); t.swap(u); o.assign(q, v); break; }
      case 31: if (rng.one_in(4)) { s.clear(); m.clear(); } break;
      case 32: if constexpr (std::is_default_constructible<E>::value) { S u(q); t = std::move(u); o.assign(q, 0); } break;
      case 33: { E x(v); S u(q, x); s.splice(p, std::move(u)); m.insert(at, q, v); break; }
      case 34: if (n) { s.insert(p, *s.nth(i % n)); m.insert(at, u64(m[i % n])); } break;
      case 35: if (n > 1) { s.insert(p, std::move(E(m[0]))); m.insert(at, u64(m[0])); } break;
      default: if (i < n) { E x(v); *s.nth(i) = x; m[i] = v; }
    }
    if (m.size() > 2 * cap) { s.erase(s.nth(cap), s.end()); m.resize(cap); }
    if (o.size() > 2 * cap) { t.erase(t.nth(cap), t.end()); o.resize(cap); }
    VT_COUNT("operations");
    if (VT_LEDGER) VT_CHECK(L.at.size() == m.size() + o.size(), "lifetime", "%zu elements are alive after the operation, the sequences hold %zu", L.at.size(), m.size() + o.size());
    VT_CHECK(!VT_BLOCKS || L.blocks.empty() == (m.empty() && o.empty()), "allocator", "%zu blocks are held for %zu elements", L.blocks.size(), m.size() + o.size());
    if (k % 4 == 0) check(s, m, t, o, "after an operation");
    saw(mix(mix((u64)op, s.height()), mix(i, n)));
  }
}
int main(int argc, char** argv) {
  init(argc, argv, VT_UNIT);
  for (u64 id = 0; id < (u64)VT_CASES * st().scale; ++id) {
    if (!my_case(id)) continue;
    begin_case(id);
    Rng rng(case_seed(id));
    long before = L.hooks;
    one_case(rng);
    VT_CHECK(L.at.empty(), "lifetime", "%zu elements are alive after the sequences were destroyed", L.at.size());
    VT_CHECK(L.blocks.empty(), "leak", "%zu blocks are held after the sequences were destroyed", L.blocks.size());
    VT_CHECK(!VT_HOOKED || L.hooks > before, "allocator", "the allocator's construct and destroy were never called");
    if (id < 2) sample(trace(8));
  }
  VT_ADD("hooks", L.hooks);
  return finish();
}
