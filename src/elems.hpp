// Element types that watch their own life.
#pragma once
#include "core.hpp"
#include <exception>
#include <initializer_list>
#include <new>
#include <stdexcept>

namespace vt {
struct Boom {};  // what injected faults throw, alone or with a standard exception
struct BoomStd : Boom, std::exception {};
struct BoomAlloc : Boom, std::bad_alloc {};
struct BoomRange : Boom, std::length_error { BoomRange() : std::length_error("injected") {} };

// Global event counts and fault trigger of instrumented elements.
struct ElemEvents {
  long live = 0, dflt = 0, value = 0, copy = 0, move = 0, casg = 0, masg = 0, dtor = 0;
  long fault_in = -1;       // throws when it reaches 0: counts throwing-capable events
  long fault_events = 0;    // events that could have thrown
  bool sticky = false;      // once thrown, keep throwing
  bool fault_construct = false; // allocator construct() may throw
  long thrown = 0;
  long relocs() const { return move + masg; }
  long copies() const { return copy + casg; }
  [[noreturn]] static void boom(long which) {
    switch (which) { case 0: throw BoomStd{}; case 1: throw BoomAlloc{}; case 2: throw BoomRange{}; default: throw Boom{}; }
  }
  void maybe_throw() {
    ++fault_events;
    if (fault_in < 0) return;
    if (fault_in == 0) { if (!sticky) fault_in = -1; ++thrown; boom((fault_events + dtor) & 3); }
    --fault_in;
  }
};
inline ElemEvents& ev() { static ElemEvents e; return e; }

// Addresses holding a live instrumented element.
struct Registry {
  std::unordered_set<const void*> at;
  bool on = false;
  void born(const void* p) {
    if (on && !at.insert(p).second) fail("lifetime", "element constructed over a live element at %p", p);
  }
  void died(const void* p) {
    if (on && !at.erase(p)) fail("lifetime", "destructor run where no element lives (%p)", p);
  }
  void use(const void* p, const char* how) {
    if (on && !at.count(p)) fail("lifetime", "%s where no element lives (%p)", how, p);
  }
};
inline Registry& reg() { static Registry r; return r; }

// Elements can be made from allocators and from braced elements, and from
// nothing else by accident: a library that writes seq{alloc} where it means
// seq(alloc) makes an element, and one that writes T{value} where it means
// T(value) makes one that holds a list.
#define VT_FROM_ALLOCATOR(TYPE)                                                                         \
  TYPE(std::initializer_list<TYPE>) : TYPE(u64(667)) { fail("content", "an element was made from a braced list of elements"); } \
  template <class A, class = typename A::value_type, class = decltype(std::declval<A&>().allocate(1))> \
  TYPE(A const&) : TYPE(u64(666)) { fail("content", "an element was made from an allocator"); }

constexpr u32 kLive = 0x600DF00D, kDead = 0xDEADDEAD;

// Non-trivial, self-referential element. Flags select which operations exist.
template <int Flags>
struct Tracked_ {
  enum { NoCopy = 1, NoDefault = 2, NoMove = 4, ThrowMove = 8, Heap = 16, TrivDtor = 32 };
  u64 val;
  Tracked_* self;
  u32 magic;
  bool moved;
  void check(const char* how) const {
    if (magic != kLive) fail("lifetime", "%s an element that is not alive (magic %08x)", how, magic);
    if (self != this) fail("lifetime", "%s an element relocated without its move operations", how);
    reg().use(this, how);
  }
  explicit Tracked_(u64 v) : val(v), self(this), magic(kLive), moved(false) { ev().maybe_throw(); ++ev().value; ++ev().live; reg().born(this); }
  Tracked_() : val(0), self(this), magic(kLive), moved(false) {
    ev().maybe_throw(); ++ev().dflt; ++ev().live; reg().born(this);
  }
  VT_FROM_ALLOCATOR(Tracked_)
  Tracked_(Tracked_ const& o) : val(o.val), self(this), magic(kLive), moved(o.moved) {
    o.check("copied from"); ev().maybe_throw(); ++ev().copy; ++ev().live; reg().born(this);
  }
  Tracked_(Tracked_&& o) noexcept(!(Flags & ThrowMove)) : val(o.val), self(this), magic(kLive), moved(o.moved) {
    o.check("moved from");
    if (Flags & ThrowMove) ev().maybe_throw();
    o.moved = true; ++ev().move; ++ev().live; reg().born(this);
  }
  Tracked_& operator=(Tracked_ const& o) {
    check("assigned to"); o.check("copied from"); ev().maybe_throw();
    val = o.val; moved = o.moved; ++ev().casg; return *this;
  }
  Tracked_& operator=(Tracked_&& o) noexcept(!(Flags & ThrowMove)) {
    check("assigned to"); o.check("moved from");
    if (Flags & ThrowMove) ev().maybe_throw();
    u64 v = o.val; bool m = o.moved || &o == this; o.moved = true; val = v; moved = m; ++ev().masg; return *this;   // to itself: value lost
  }
  ~Tracked_() {
    if (magic != kLive) fail("lifetime", "destructor run on an element that is not alive (magic %08x)", magic);
    if (self != this) fail("lifetime", "destructor run on an element relocated without its move operations");
    reg().died(this);
    magic = kDead; ++ev().dtor; --ev().live;
  }
};
using Tracked = Tracked_<0>;
using TrackedThrowMove = Tracked_<8>;

// Move-only, no default constructor.
struct MoveOnly {
  Tracked t;
  explicit MoveOnly(u64 v) : t(v) {}
  VT_FROM_ALLOCATOR(MoveOnly)
  MoveOnly(MoveOnly&&) noexcept = default;
  MoveOnly& operator=(MoveOnly&&) noexcept = default;
  MoveOnly(MoveOnly const&) = delete;
  MoveOnly& operator=(MoveOnly const&) = delete;
};
// Copyable only: declares a copy constructor, so it has no move operations and
// relocation may throw.
struct CopyOnly {
  Tracked t;
  explicit CopyOnly(u64 v = 0) : t(v) {}
  VT_FROM_ALLOCATOR(CopyOnly)
  CopyOnly(CopyOnly const& o) : t(o.t) {}
  CopyOnly& operator=(CopyOnly const& o) { t = o.t; return *this; }
};
// Not default constructible, copyable.
struct NoDefault {
  Tracked t;
  explicit NoDefault(u64 v) : t(v) {}
  VT_FROM_ALLOCATOR(NoDefault)
};
// Trivial destructor but address-dependent copies: must never be memcpy'd.
struct SelfTriv {
  u64 val;
  SelfTriv const* self;
  explicit SelfTriv(u64 v = 0) : val(v), self(this) {}
  VT_FROM_ALLOCATOR(SelfTriv)
  SelfTriv(SelfTriv const& o) noexcept : val(o.get()), self(this) {}
  SelfTriv& operator=(SelfTriv const& o) noexcept { get(); val = o.get(); return *this; }
  u64 get() const {
    if (self != this) fail("lifetime", "element relocated without its copy or move operations");
    return val;
  }
};
// Owns heap memory: leaks and double frees are visible to the sanitizers.
struct Owner {
  std::unique_ptr<u64> p;
  explicit Owner(u64 v = 0) : p(new u64(v)) {}
  VT_FROM_ALLOCATOR(Owner)
  Owner(Owner const& o) : p(o.p ? new u64(*o.p) : nullptr) {}
  Owner(Owner&&) noexcept = default;
  Owner& operator=(Owner const& o) { p.reset(o.p ? new u64(*o.p) : nullptr); return *this; }
  Owner& operator=(Owner&&) noexcept = default;
};
struct Pod24 { u64 a; u64 b; u32 c; u32 d; };
struct Odd3 { unsigned char b[3]; };
struct Big200 { u64 a; unsigned char pad[184]; u64 b; };
// N bytes aligned to A, all of them determined by the value.
template <unsigned N, unsigned A> struct alignas(A) Blob { unsigned char b[N]; };
using Blob5 = Blob<5, 1>;
using Blob6 = Blob<6, 2>;
using Blob7 = Blob<7, 1>;
using Blob12 = Blob<12, 4>;
using Blob16 = Blob<16, 8>;
using Blob16a = Blob<16, 16>;
using Blob32 = Blob<32, 8>;
using Blob32a = Blob<32, 32>;
using Blob48 = Blob<48, 8>;
using Blob128 = Blob<128, 8>;
using Blob256 = Blob<256, 4>;
using Blob1000 = Blob<1000, 8>;
using Blob4096 = Blob<4096, 1>;
struct alignas(64) Aligned64 { u64 a; };
struct AlignedNT {   // over-aligned and non-trivial
  alignas(32) u64 a; AlignedNT const* self;
  explicit AlignedNT(u64 v = 0) : a(v), self(this) {}
  AlignedNT(AlignedNT const& o) : a(o.a), self(this) {}
  AlignedNT& operator=(AlignedNT const& o) { a = o.a; return *this; }
  ~AlignedNT() { if (self != this) fail("lifetime", "over-aligned element relocated by bytes"); }
};

// Elements with every operator a container must not rely on: address-of, comma,
// class-level allocation functions, and (EvilNT) implicit conversions from anything.
struct EvilPod {
  u64 a;
  void operator&() const = delete;
  static void* operator new(std::size_t) = delete;
  static void* operator new(std::size_t, void*) = delete;
  static void operator delete(void*) = delete;
};
struct EvilNT {
  u64 a; EvilNT const* self;
  EvilNT() : a(0), self(this) {}
  explicit EvilNT(u64 v) : a(v), self(this) {}
  VT_FROM_ALLOCATOR(EvilNT)
  EvilNT(EvilNT const& o) : a(o.a), self(this) {}
  EvilNT& operator=(EvilNT const& o) { ok(); a = o.a; return *this; }
  ~EvilNT() { ok(); self = nullptr; }
  void ok() const { if (self != this) fail("lifetime", "element relocated by bytes or used outside its lifetime"); }
  void operator&() const { fail("overloaded-operator", "the element's own operator& was used"); }
  static void* operator new(std::size_t n) { fail("overloaded-operator", "the element's own operator new was used"); return ::operator new(n); }
  static void* operator new(std::size_t, void* p) { fail("overloaded-operator", "the element's own placement new was used"); return p; }
  static void operator delete(void* p) { fail("overloaded-operator", "the element's own operator delete was used"); ::operator delete(p); }
};
template <class T> void operator,(EvilPod const&, T const&) = delete;
template <class T> void operator,(T const&, EvilPod const&) = delete;
template <class T> void operator,(EvilNT const&, T const&) { fail("overloaded-operator", "the element's own comma operator was used"); }
template <class T> void operator,(T const&, EvilNT const&) { fail("overloaded-operator", "the element's own comma operator was used"); }

template <class T> struct El {  // unsigned integers
  static u64 norm(u64 v) { return static_cast<T>(v); }
  static T make(u64 v) { return static_cast<T>(v); }
  static u64 get(T const& x) { return x; }
};
#define VT_EL_TRACKED(TYPE, ACCESS)                                                     \
  template <> struct El<TYPE> {                                                         \
    static u64 norm(u64 v) { return v; }                                                \
    static TYPE make(u64 v) { return TYPE(v); }                                         \
    static u64 get(TYPE const& x) {                                                     \
      x ACCESS check("read");                                                           \
      if (x ACCESS moved) fail("lifetime", "a moved-from element is visible in the sequence"); \
      return x ACCESS val;                                                              \
    }                                                                                   \
  }
VT_EL_TRACKED(Tracked, .);
VT_EL_TRACKED(TrackedThrowMove, .);
VT_EL_TRACKED(MoveOnly, .t.);
VT_EL_TRACKED(CopyOnly, .t.);
VT_EL_TRACKED(NoDefault, .t.);
template <> struct El<SelfTriv> {
  static u64 norm(u64 v) { return v; }
  static SelfTriv make(u64 v) { return SelfTriv(v); }
  static u64 get(SelfTriv const& x) { return x.get(); }
};
template <> struct El<Owner> {
  static u64 norm(u64 v) { return v; }
  static Owner make(u64 v) { return Owner(v); }
  static u64 get(Owner const& x) {
    if (!x.p) fail("lifetime", "a moved-from element is visible in the sequence");
    return *x.p;
  }
};
template <> struct El<Pod24> {
  static u64 norm(u64 v) { return v; }
  static Pod24 make(u64 v) { Pod24 p; p.a = v; p.b = ~v; p.c = (u32)(v * 3); p.d = (u32)(v >> 7); return p; }
  static u64 get(Pod24 const& x) {
    u64 v = x.a;
    if (v == 0 && x.b == 0 && x.c == 0 && x.d == 0) return 0;  // value-initialised
    if (x.b != ~v || x.c != (u32)(v * 3) || x.d != (u32)(v >> 7)) fail("torn-element", "the bytes of an element do not belong together");
    return v;
  }
};
template <> struct El<EvilPod> {
  static u64 norm(u64 v) { return v; }
  static EvilPod make(u64 v) { EvilPod p; p.a = v; return p; }
  static u64 get(EvilPod const& x) { return x.a; }
};
template <> struct El<EvilNT> {
  static u64 norm(u64 v) { return v; }
  static EvilNT make(u64 v) { return EvilNT(v); }
  static u64 get(EvilNT const& x) { x.ok(); return x.a; }
};
template <> struct El<bool> {
  static u64 norm(u64 v) { return v & 1; }
  static bool make(u64 v) { return v & 1; }
  static u64 get(bool const& x) { return x; }
};
template <> struct El<Odd3> {
  static u64 norm(u64 v) { return v & 0xffffff; }
  static Odd3 make(u64 v) { Odd3 p; p.b[0] = (unsigned char)v; p.b[1] = (unsigned char)(v >> 8); p.b[2] = (unsigned char)(v >> 16); return p; }
  static u64 get(Odd3 const& x) { return x.b[0] | (u64)x.b[1] << 8 | (u64)x.b[2] << 16; }
};
template <> struct El<Big200> {
  static u64 norm(u64 v) { return v; }
  static Big200 make(u64 v) { Big200 p; p.a = v; p.b = v; memset(p.pad, (int)(v & 255), sizeof p.pad); return p; }
  static u64 get(Big200 const& x) {
    if (x.a != x.b || x.pad[0] != (x.a & 255) || x.pad[183] != (x.a & 255)) fail("torn-element", "the bytes of an element do not belong together");
    return x.a;
  }
};
template <unsigned N, unsigned A> struct El<Blob<N, A>> {
  static u64 norm(u64 v) { return N < 8 ? v & ((1ull << 8 * (N % 8)) - 1) : v; }
  static unsigned char at(u64 v, unsigned i) { return (unsigned char)(i < 8 ? v >> 8 * i : v ? (v >> 8 * (i % 8)) + i : 0); }
  static Blob<N, A> make(u64 v) { Blob<N, A> p; for (unsigned i = 0; i < N; ++i) p.b[i] = at(v, i); return p; }
  static u64 get(Blob<N, A> const& x) {
    if (reinterpret_cast<std::uintptr_t>(&x) % A) fail("alignment", "an element at a misaligned address");
    u64 v = 0;
    for (unsigned i = 0; i < N && i < 8; ++i) v |= (u64)x.b[i] << 8 * i;
    for (unsigned i = 8; i < N; ++i)
      if (x.b[i] != at(v, i)) fail("torn-element", "the bytes of an element do not belong together");
    return v;
  }
};
template <> struct El<Aligned64> {
  static u64 norm(u64 v) { return v; }
  static Aligned64 make(u64 v) { return Aligned64{v}; }
  static u64 get(Aligned64 const& x) {
    if (reinterpret_cast<std::uintptr_t>(&x) % 64) fail("alignment", "over-aligned element at a misaligned address");
    return x.a;
  }
};
template <> struct El<AlignedNT> {
  static u64 norm(u64 v) { return v; }
  static AlignedNT make(u64 v) { return AlignedNT{v}; }
  static u64 get(AlignedNT const& x) {
    if (reinterpret_cast<std::uintptr_t>(&x) % 32) fail("alignment", "over-aligned element at a misaligned address");
    if (x.self != &x) fail("lifetime", "over-aligned element relocated by bytes");
    return x.a;
  }
};
template <> struct El<std::string> {
  static u64 norm(u64 v) { return v; }
  static std::string make(u64 v) { std::string s = std::to_string(v); if (v % 3) s += std::string(20 + v % 17, '.'); return s; }
  static u64 get(std::string const& x) {
    u64 v = strtoull(x.c_str(), nullptr, 10);
    if (x.empty()) return 0;
    if (x != make(v)) fail("torn-element", "string element damaged: '%s'", x.substr(0, 60).c_str());
    return v;
  }
};
// The element's value without demanding that it was not moved from.
template <class T> u64 peek(T const& x) { return El<T>::get(x); }
template <int F> u64 peek(Tracked_<F> const& x) { x.check("read"); return x.val; }
inline u64 peek(MoveOnly const& x) { return peek(x.t); }
inline u64 peek(CopyOnly const& x) { return peek(x.t); }
inline u64 peek(NoDefault const& x) { return peek(x.t); }
}  // namespace vt
