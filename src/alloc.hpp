// Allocators that watch the sequence, and hand out class-type pointers.
#pragma once
#include "elems.hpp"
#if __has_include(<boost/interprocess/offset_ptr.hpp>)
#include <boost/interprocess/offset_ptr.hpp>
#define VT_HAVE_OFFSET_PTR 1
#endif

namespace vt {
// One memory resource. Blocks are kept in a table, fresh memory is filled with
// a pattern, freed memory with another.
struct Arena {
  struct Block { std::size_t n, bytes, esz, align; bool elem; bool nullary; };
  int id = 0;
  std::map<const char*, Block> blocks;       // live blocks by address
  long alloc_calls = 0, dealloc_calls = 0, elem_live = 0, node_live = 0, elem_slots = 0;
  long elem_allocs = 0, node_allocs = 0;
  std::size_t seg_cap = 0;                    // elements per segment, as requested
  std::size_t cap_blocks = 1u << 22;
  long construct_calls = 0, destroy_calls = 0;
  std::unordered_set<const void*> built;      // addresses constructed through the allocator
  int want_label = -1;                        // whoever works here now carries this label
  Arena* on_copy = nullptr;                   // select_on_container_copy_construction
  bool log_objects = false;
  void* take(std::size_t n, std::size_t esz, std::size_t align, bool elem) {
    if (n == 0 || esz == 0) fail("allocator", "allocation of %zu objects requested", n);
    ev().maybe_throw();
    std::size_t bytes = n * esz;
    void* p = align > alignof(std::max_align_t) ? ::operator new(bytes, std::align_val_t(align)) : ::operator new(bytes);
    memset(p, 0xA5, bytes);
    blocks[static_cast<char*>(p)] = Block{n, bytes, esz, align, elem, false};
    ++alloc_calls;
    if (elem) { ++elem_live; ++elem_allocs; seg_cap = n; elem_slots += (long)n; } else { ++node_live; ++node_allocs; }
    if (blocks.size() > cap_blocks) fail("runaway-allocation", "%zu blocks live", blocks.size());
    return p;
  }
  void give(void* p, std::size_t n, std::size_t esz, bool elem) {
    ++dealloc_calls;
    if (p == nullptr) fail("allocator", "deallocate called with a null pointer");
    auto it = blocks.find(static_cast<char*>(p));
    if (it == blocks.end()) fail("allocator", "deallocate of a block that is not live in allocator %d", id);
    Block b = it->second;
    if (b.n != n) fail("allocator", "block of %zu objects deallocated as %zu", b.n, n);
    if (b.esz != esz || b.elem != elem) fail("allocator", "block deallocated through an allocator of another type");
    if (reg().on && elem)
      for (std::size_t i = 0; i < n; ++i)
        if (reg().at.count(static_cast<char*>(p) + i * esz)) fail("lifetime", "segment deallocated while element %zu in it is alive", i);
    if (log_objects && elem)
      for (std::size_t i = 0; i < n; ++i)
        if (built.count(static_cast<char*>(p) + i * esz)) fail("allocator", "segment deallocated before allocator destroyed element %zu in it", i);
    blocks.erase(it);
    if (elem) { --elem_live; elem_slots -= (long)n; } else --node_live;
    memset(p, 0x5A, b.bytes);
    if (b.align > alignof(std::max_align_t)) ::operator delete(p, std::align_val_t(b.align)); else ::operator delete(p);
  }
  // The live block that holds [p, p + bytes), or null.
  const char* block_of(const void* p, std::size_t bytes, Block const*& b) const {
    auto c = static_cast<const char*>(p);
    auto it = blocks.upper_bound(c);
    if (it == blocks.begin()) return nullptr;
    --it;
    if (c + bytes > it->first + it->second.bytes) return nullptr;
    b = &it->second;
    return it->first;
  }
  bool covers(const void* p, std::size_t bytes) const { Block const* b; return block_of(p, bytes, b) != nullptr; }
};

// With VT_PTR_LIFE each pointer object also knows its own address while it is
// alive: using one that was never constructed, was destroyed, or was copied
// bytewise is found, and all constructions and destructions must balance.
inline long& pointers_alive() { static long n; return n; }
struct PtrLife {
#ifdef VT_PTR_LIFE
  std::uintptr_t self;
  std::uintptr_t mark() const { return reinterpret_cast<std::uintptr_t>(this) ^ 0x5bd1e995a5a5u; }
  PtrLife() { self = mark(); ++pointers_alive(); }
  PtrLife(PtrLife const& o) : PtrLife() { o.check("copied from"); }
  PtrLife& operator=(PtrLife const& o) { check("assigned to"); o.check("assigned from"); return *this; }
  ~PtrLife() { check("destroyed"); self = 0; --pointers_alive(); }
  void check(const char* how) const { if (self != mark()) fail("pointer-lifetime", "a pointer object outside its lifetime was %s", how); }
#else
  void check(const char*) const {}
#endif
};

struct ArenaPool {
  std::vector<std::unique_ptr<Arena>> all;
  Arena* get(std::size_t i) {
    while (all.size() <= i) { all.emplace_back(new Arena); all.back()->id = (int)all.size() - 1; }
    return all[i].get();
  }
  void reset() { all.clear(); }
  void expect_empty(const char* when) {
    for (auto& a : all) {
      if (!a->blocks.empty()) fail("leak", "%s: allocator %d still has %zu live blocks (%ld segments, %ld nodes)", when, a->id, a->blocks.size(), a->elem_live, a->node_live);
      if (!a->built.empty()) fail("allocator", "%s: %zu elements constructed through allocator %d were never destroyed through it", when, a->built.size(), a->id);
    }
    if (pointers_alive()) fail("pointer-lifetime", "%s: %ld pointer objects were never destroyed (or were destroyed twice)", when, pointers_alive());
  }
};
inline ArenaPool& arenas() { static ArenaPool p; return p; }

// Hooks: 0 none, 1 construct only, 2 destroy only, 3 both.
template <bool Cca, bool Cma, bool Cs, int Hooks = 0, class SizeType = std::size_t>
struct Pol {
  static constexpr bool cca = Cca, cma = Cma, cs = Cs;
  static constexpr int hooks = Hooks;
  using size_type = SizeType;
};
using PolPlain = Pol<false, false, false>;
using PolProp = Pol<true, true, true>;

template <class T, class E, class P>
struct Alloc {
  using value_type = T;
  using size_type = typename P::size_type;
  using difference_type = std::make_signed_t<size_type>;
  using propagate_on_container_copy_assignment = std::bool_constant<P::cca>;
  using propagate_on_container_move_assignment = std::bool_constant<P::cma>;
  using propagate_on_container_swap = std::bool_constant<P::cs>;
  using is_always_equal = std::false_type;
  template <class U> struct rebind { using other = Alloc<U, E, P>; };
  Arena* arena;
  int label = 0;                              // no part of equality
  Alloc() : arena(arenas().get(0)) {}
  explicit Alloc(Arena* a, int l = 0) : arena(a), label(l) {}
  void mine(const char* what) const { if (arena->want_label >= 0 && label != arena->want_label) fail("allocator", "%s by an allocator that compares equal to the sequence's but is another one (%d, not %d)", what, label, arena->want_label); }
  Alloc(Alloc const&) noexcept = default;
  Alloc& operator=(Alloc const&) noexcept = default;
  template <class U> Alloc(Alloc<U, E, P> const& o) noexcept : arena(o.arena), label(o.label) {}
  T* allocate(size_type n) { mine("allocation"); return static_cast<T*>(arena->take(n, sizeof(T), alignof(T), std::is_same<T, E>::value)); }
  void deallocate(T* p, size_type n) { mine("deallocation"); arena->give(p, n, sizeof(T), std::is_same<T, E>::value); }
  Alloc select_on_container_copy_construction() const { return Alloc(arena->on_copy ? arena->on_copy : arena, label); }
  template <class U, class... A>
  auto construct(U* p, A&&... a) -> std::enable_if_t<(P::hooks & 1) && std::is_constructible<U, A&&...>::value> {
    if (ev().fault_construct) ev().maybe_throw();
    ::new (static_cast<void*>(p)) U(std::forward<A>(a)...);
    ++arena->construct_calls;
    if (arena->log_objects && P::hooks == 3 && !arena->built.insert(p).second) fail("allocator", "construct called for an object that is already alive");
  }
  template <class U>
  auto destroy(U* p) -> std::enable_if_t<(P::hooks & 2) && std::is_destructible<U>::value> {
    if (arena->log_objects && P::hooks == 3 && !arena->built.erase(p)) fail("allocator", "destroy called for an object this allocator did not construct");
    ++arena->destroy_calls;
    p->~U();
  }
  template <class U> bool operator==(Alloc<U, E, P> const& o) const { return arena == o.arena; }
  template <class U> bool operator!=(Alloc<U, E, P> const& o) const { return arena != o.arena; }
};

// std::allocator-like, stateless, but using a class-type pointer that checks
// every access against the live blocks of arena 0 and counts accesses.
inline unsigned long& deref_count() { static unsigned long n; return n; }
// When on, the index blocks accessed, in order of first access.
struct TouchLog { bool on = false; std::vector<const char*> nodes; };
inline TouchLog& touch_log() { static TouchLog t; return t; }
template <class T> class Ptr;
template <class T> struct PtrBase {
  using reference = T&;
};
template <> struct PtrBase<void> { using reference = void; };
template <> struct PtrBase<const void> { using reference = void; };
template <class T>
class Ptr : PtrLife {
  template <class> friend class Ptr;
 public:
  T* p;
  using element_type = T;
  using value_type = std::remove_cv_t<T>;
  using difference_type = std::ptrdiff_t;
  using pointer = Ptr;
  using reference = typename PtrBase<T>::reference;
  using iterator_category = std::random_access_iterator_tag;
  template <class U> using rebind = Ptr<U>;
  Ptr() = default;
  Ptr(std::nullptr_t) : p(nullptr) {}
  explicit Ptr(T* q) : p(q) {}
  template <class U, class = std::enable_if_t<std::is_convertible<U*, T*>::value>> Ptr(Ptr<U> const& o) : p(o.p) {}
  template <class U, class = void, class = std::enable_if_t<!std::is_convertible<U*, T*>::value && (std::is_void<U>::value)>>
  explicit Ptr(Ptr<U> const& o) : p(static_cast<T*>(o.p)) {}
  template <class U = T> static Ptr pointer_to(U& r) { return Ptr(std::addressof(r)); }
  template <class U = T> U* touch(std::ptrdiff_t i, const char* how) const {
    check(how);
    ++deref_count();
    if (p == nullptr) fail("bad-access", "%s through a null pointer", how);
    U* q = p + i;
    reach(q, sizeof(U), how);
    return q;
  }
  static void reach(const void* q, std::size_t bytes, const char* how) {
    Arena::Block const* b = nullptr;
    const char* at = arenas().get(0)->block_of(q, bytes, b);
    if (!at) fail("bad-access", "%s outside every live block of the allocator", how);
    if (touch_log().on && !b->elem) {
      auto& v = touch_log().nodes;
      for (auto x : v) if (x == at) return;
      v.push_back(at);
    }
  }
  template <class U = T> U& operator*() const { return *touch<U>(0, "dereference"); }
  T* operator->() const { return touch<T>(0, "member access"); }
  // Indexing may also name the end of the block (to form its address).
  template <class U = T> U& operator[](std::ptrdiff_t i) const {
    ++deref_count();
    check("indexed");
    if (p == nullptr) fail("bad-access", "indexing through a null pointer");
    reach(p + i, 0, "indexing");
    return p[i];
  }
  Ptr& operator+=(std::ptrdiff_t d) { p += d; return *this; }
  Ptr& operator-=(std::ptrdiff_t d) { p -= d; return *this; }
  Ptr& operator++() { ++p; return *this; }
  Ptr& operator--() { --p; return *this; }
  Ptr operator++(int) { auto c = *this; ++p; return c; }
  Ptr operator--(int) { auto c = *this; --p; return c; }
  Ptr operator+(std::ptrdiff_t d) const { auto c = *this; c.p += d; return c; }
  Ptr operator-(std::ptrdiff_t d) const { auto c = *this; c.p -= d; return c; }
  std::ptrdiff_t operator-(Ptr const& o) const { return p - o.p; }
  explicit operator bool() const { return p != nullptr; }
  bool operator!() const { return p == nullptr; }
  friend bool operator==(Ptr a, Ptr b) { return a.p == b.p; }
  friend bool operator!=(Ptr a, Ptr b) { return a.p != b.p; }
  friend bool operator<(Ptr a, Ptr b) { return a.p < b.p; }
  friend bool operator>(Ptr a, Ptr b) { return a.p > b.p; }
  friend bool operator<=(Ptr a, Ptr b) { return a.p <= b.p; }
  friend bool operator>=(Ptr a, Ptr b) { return a.p >= b.p; }
};
template <class T, class E>
struct PtrAlloc {
  using value_type = T;
  using pointer = Ptr<T>;
  using const_pointer = Ptr<const T>;
  using void_pointer = Ptr<void>;
  using const_void_pointer = Ptr<const void>;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;
  template <class U> struct rebind { using other = PtrAlloc<U, E>; };
  PtrAlloc() = default;
  template <class U> PtrAlloc(PtrAlloc<U, E> const&) noexcept {}
  pointer allocate(std::size_t n) { return pointer(static_cast<T*>(arenas().get(0)->take(n, sizeof(T), alignof(T), std::is_same<T, E>::value))); }
  void deallocate(pointer p, std::size_t n) { arenas().get(0)->give(p.p, n, sizeof(T), std::is_same<T, E>::value); }
  template <class U> bool operator==(PtrAlloc<U, E> const&) const { return true; }
  template <class U> bool operator!=(PtrAlloc<U, E> const&) const { return false; }
};
#ifdef VT_HAVE_OFFSET_PTR
// Self-relative pointers: byte-copying one, or keeping it in the wrong place, breaks it.
template <class T, class E>
struct OffAlloc {
  using value_type = T;
  using pointer = boost::interprocess::offset_ptr<T>;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;
  template <class U> struct rebind { using other = OffAlloc<U, E>; };
  OffAlloc() = default;
  template <class U> OffAlloc(OffAlloc<U, E> const&) noexcept {}
  pointer allocate(std::size_t n) { return pointer(static_cast<T*>(arenas().get(0)->take(n, sizeof(T), alignof(T), std::is_same<T, E>::value))); }
  void deallocate(pointer p, std::size_t n) { arenas().get(0)->give(p.get(), n, sizeof(T), std::is_same<T, E>::value); }
  template <class U> bool operator==(OffAlloc<U, E> const&) const { return true; }
  template <class U> bool operator!=(OffAlloc<U, E> const&) const { return false; }
};
#endif
}  // namespace vt
