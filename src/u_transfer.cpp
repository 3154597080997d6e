// Unit: copy, move, assignment and swap over every allocator propagation
// policy. VT_MODE 10: values, allocators and storage; 14: takeover keeps
// iterators and references.
#include "shape.hpp"
using namespace vt;
using T = VT_T;
using P = VT_POL;
using Al = VT_ALLOC;
using S = boost::segmented_tree::seq<T, Al, VT_SEG, VT_BASE>;
using V = View<S>;
using E = El<T>;
using It = S::iterator;
using CIt = S::const_iterator;
using Z = S::size_type;
using D = S::difference_type;
static constexpr bool copyable = std::is_copy_constructible<T>::value && std::is_copy_assignable<T>::value;

struct Box { std::unique_ptr<S> s; Model m; int a = 0, l = 0; };   // l: the label of its allocator
static Box box[4];

static void audit(const char* when) {
  std::map<int, std::size_t> segs;
  std::size_t live = 0;
  for (auto& b : box) {
    V::content(*b.s, b.m, when);
    Al al = b.s->get_allocator();
    VT_CHECK(al.arena->id == b.a, "allocator", "%s: get_allocator() is allocator %d, expected %d", when, al.arena->id, b.a);
    VT_CHECK(b.s->get_stored_allocator().arena->id == b.a, "allocator", "%s: get_stored_allocator() differs from get_allocator()", when);
    VT_CHECK(al.label == b.l && b.s->get_stored_allocator().label == b.l, "allocator", "%s: the allocator compares equal to the expected one but is another (%d, not %d)", when, al.label, b.l);
    auto runs = V::segments(*b.s, b.m, when);
    segs[b.a] += runs.size();
    live += b.m.size();
    if (b.m.size())
      for (auto it = b.s->begin(); it != b.s->end(); it.move_after_segment())
        VT_CHECK(al.arena->covers(raw(it.begin()), sizeof(T) * (std::size_t)(raw(it.end()) - raw(it.begin()))), "allocator", "%s: a segment does not come from the sequence's allocator %d", when, b.a);
  }
  for (auto& a : arenas().all) {
    VT_CHECK((std::size_t)a->elem_live == segs[a->id], "allocator", "%s: allocator %d has %ld segments out, its sequences use %zu", when, a->id, a->elem_live, segs[a->id]);
    bool tall = false;
    for (auto& b : box) tall |= b.a == a->id && b.s->height() > 1;
    VT_CHECK((a->node_live > 0) == tall, "allocator", "%s: allocator %d has %ld index nodes out", when, a->id, a->node_live);
  }
  if (ev().live || live) if (std::is_same<T, Tracked>::value || std::is_same<T, MoveOnly>::value) VT_CHECK((std::size_t)ev().live == live, "lifetime", "%s: %ld elements live, %zu expected", when, ev().live, live);
  VT_COUNT("audits");
}
static void edit(Box& b, Rng& rng) {
  struct Label { Box& b; Label(Box& x) : b(x) { set(x.l); } ~Label() { set(-1); } void set(int l) { arenas().get((std::size_t)b.a)->want_label = l; } } label(b);
  for (int k = (int)rng.below(8); k-- > 0;) {
    std::size_t i = rng.below(b.m.size() + 1);
    u64 v = E::norm(rng.next());
    if (rng.one_in(2) || i == b.m.size()) { b.s->insert(CIt(b.s->nth((Z)i)), E::make(v)); b.m.insert(b.m.begin() + (long)i, v); }
    else { b.s->erase(CIt(b.s->nth((Z)i))); b.m.erase(b.m.begin() + (long)i); }
  }
}
// A moved-from sequence must be a valid sequence; take over whatever it holds.
static void settle(Box& b, bool must_be_empty, const char* who, Rng& rng) {
  if (must_be_empty) {
    VT_CHECK(b.s->empty() && b.s->size() == 0 && b.s->height() == 0 && b.s->begin() == b.s->end(), "content", "%s leaves its source with %zu elements", who, (std::size_t)b.s->size());
  } else {
    std::size_t n = 0;
    for (auto& x : *b.s) { peek(x); ++n; }
    VT_CHECK(n == b.s->size(), "consistency", "%s leaves its source inconsistent", who);
    if (rng.one_in(2)) b.s->clear(); else b.s->erase(CIt(b.s->begin()), CIt(b.s->end()));
  }
  b.m.clear();
  VT_COUNT("moved_from_checks");
}

static void history(Rng& rng) {
  arenas().reset();
  bool sel = rng.one_in(2);
  for (int i = 0; i < 4; ++i) arenas().get((std::size_t)i)->on_copy = sel ? arenas().get((std::size_t)(i + 1) % 3) : nullptr;
  int same = (int)rng.below(3);                 // 0: all equal, otherwise different allocators
  for (int i = 0; i < 4; ++i) {
    int a = same == 0 ? 0 : (int)rng.below(3);
    box[i].a = a; box[i].m.clear();
    box[i].l = i;
    box[i].s.reset(new S(Al(arenas().get((std::size_t)a), i)));
    build_shape(*box[i].s, box[i].m, rng, len_or_long(rng, 40));
  }
  audit("at the start");
  for (int k = 0; k < (VT_LONG ? 12 : 60); ++k) {
    int i = (int)rng.below(4), j = (int)((unsigned)i + 1 + rng.below(3)) % 4;
    Box &b = box[i], &c = box[j];
    int na = (int)rng.below(3), nl = (int)rng.below(9);
    Al nal(arenas().get((std::size_t)na), nl);
    int op = (int)rng.below(27);
    step("op", op, b.a, c.a);
    VT_COUNT("operations");
    saw(mix(mix((u64)op, (u64)(P::cca + 2 * P::cma + 4 * P::cs + 8 * (b.a == c.a) + 16 * b.s->empty() + 32 * c.s->empty())), (u64)(c.s->height() * 100 + b.s->height() * 10 + (c.m.size() > b.m.size()))));
    switch (op) {
      case 0: if constexpr (copyable) { b.s.reset(new S(*c.s)); b.m = c.m; b.a = sel ? (c.a + 1) % 3 : c.a; b.l = c.l; edit(b, rng); } break;
      case 1: if constexpr (copyable) { b.s.reset(new S(*c.s, nal)); b.m = c.m; b.a = na; b.l = nl; edit(b, rng); } break;
      case 2: { b.s.reset(new S(std::move(*c.s))); b.m = c.m; b.a = c.a; b.l = c.l; settle(c, true, "move construction", rng); edit(c, rng); break; }
      case 3: { bool eq = na == c.a; b.s.reset(new S(std::move(*c.s), nal)); b.m = c.m; b.a = na; b.l = nl; settle(c, eq, "move construction with an allocator", rng); edit(c, rng); break; }
      case 4: case 5: if constexpr (copyable) { S& r = (*b.s = *c.s); VT_CHECK(&r == b.s.get(), "content", "copy assignment returns another object"); b.m = c.m; if (P::cca) { b.a = c.a; b.l = c.l; } edit(rng.one_in(2) ? b : c, rng); } break;
      case 6: case 7: {
        bool take = P::cma || b.a == c.a;
        S& r = (*b.s = std::move(*c.s));
        VT_CHECK(&r == b.s.get(), "content", "move assignment returns another object");
        b.m = c.m; if (P::cma) { b.a = c.a; b.l = c.l; }
        settle(c, take, "move assignment", rng);
        edit(rng.one_in(2) ? b : c, rng);
        break;
      }
      case 8: case 9: {
        if (!P::cs && b.a != c.a) break;        // undefined for unequal allocators that do not propagate
        if (op == 8) b.s->swap(*c.s); else { using std::swap; swap(*b.s, *c.s); }
        std::swap(b.m, c.m); if (P::cs) { std::swap(b.a, c.a); std::swap(b.l, c.l); }
        break;
      }
      case 10: if constexpr (copyable) { S& q = *b.s; *b.s = q; } break;                      // self copy assignment
      case 11: { S& q = *b.s; *b.s = std::move(q); settle(b, false, "self move assignment", rng); edit(b, rng); break; }
      case 12: { S& q = *b.s; b.s->swap(q); break; }
      case 13: if constexpr (copyable) { *b.s = {E::make(1), E::make(2), E::make(3)}; b.m = {1, 2, 3}; } break;
      case 14: if constexpr (copyable) {
        u64 v = E::norm(rng.next()); std::size_t n = rng.below(30);
        b.s.reset(new S((Z)n, E::make(v), nal)); b.m.assign(n, v); b.a = na; b.l = nl;
      } break;
      case 15: if constexpr (copyable) {
        if (rng.one_in(2)) b.s.reset(new S(c.s->begin(), c.s->end(), nal)); else b.s.reset(new S(c.s->cbegin(), c.s->cend(), nal));
        b.m = c.m; b.a = na; b.l = nl;
      } break;
      case 16: edit(b, rng); edit(c, rng); break;
      case 17: case 18: {                         // elements change hands, storage only between equal allocators
        if (rng.one_in(3)) { b.s->clear(); b.m.clear(); }
        std::size_t p = rng.below(b.m.size() + 1);
        CIt at = b.s->nth((Z)p);
        if (rng.one_in(2)) b.s->splice(at, *c.s); else b.s->splice(at, std::move(*c.s));
        b.m.insert(b.m.begin() + (long)p, c.m.begin(), c.m.end());
        settle(c, true, "splice", rng); edit(rng.one_in(2) ? b : c, rng);
        break;
      }
      case 19: {
        if (rng.one_in(4)) { b.s->clear(); b.m.clear(); }
        std::size_t p = rng.below(b.m.size() + 1), f = rng.one_in(3) ? 0 : rng.below(c.m.size() + 1), l = rng.one_in(3) ? c.m.size() : f + rng.below(c.m.size() - f + 1);
        CIt at = b.s->nth((Z)p), first = c.s->nth((Z)f), last = c.s->nth((Z)l);
        if (rng.one_in(2)) b.s->splice(at, *c.s, first, last); else b.s->splice(at, std::move(*c.s), first, last);
        b.m.insert(b.m.begin() + (long)p, c.m.begin() + (long)f, c.m.begin() + (long)l);
        c.m.erase(c.m.begin() + (long)f, c.m.begin() + (long)l); edit(rng.one_in(2) ? b : c, rng);
        break;
      }
      case 20: {
        if (c.m.empty()) break;
        if (rng.one_in(4)) { b.s->clear(); b.m.clear(); }
        std::size_t p = rng.below(b.m.size() + 1), f = rng.below(c.m.size());
        CIt at = b.s->nth((Z)p), it = c.s->nth((Z)f);
        if (rng.one_in(2)) b.s->splice(at, *c.s, it); else b.s->splice(at, std::move(*c.s), it);
        b.m.insert(b.m.begin() + (long)p, c.m[f]); c.m.erase(c.m.begin() + (long)f);
        break;
      }
      case 21: {
        auto lt = [](T const& x, T const& y) { return E::get(x) < E::get(y); };
        b.s->sort(lt); c.s->sort(lt); std::sort(b.m.begin(), b.m.end()); std::sort(c.m.begin(), c.m.end());
        if (rng.one_in(4)) { b.s->clear(); b.m.clear(); }
        if (rng.one_in(2)) b.s->merge(*c.s, lt); else b.s->merge(std::move(*c.s), lt);
        Model r; std::merge(b.m.begin(), b.m.end(), c.m.begin(), c.m.end(), std::back_inserter(r)); b.m = r;
        settle(c, true, "merge", rng);
        break;
      }
      case 22: {                                  // inserting or assigning moved elements leaves the source its own
        bool as = rng.one_in(2); std::size_t p = rng.below(b.m.size() + 1);
        if (as) { b.s->assign(std::make_move_iterator(c.s->begin()), std::make_move_iterator(c.s->end())); b.m = c.m; }
        else { b.s->insert(CIt(b.s->nth((Z)p)), std::make_move_iterator(c.s->begin()), std::make_move_iterator(c.s->end())); b.m.insert(b.m.begin() + (long)p, c.m.begin(), c.m.end()); }
        VT_CHECK(c.s->size() == c.m.size(), "content", "moving elements one by one changed the size of their source");
        settle(c, false, "moving elements", rng);
        break;
      }
      default: build_shape(*b.s, b.m, rng, len_or_long(rng, rng.one_in(3) ? 120 : 25)); break;
    }
    audit("after a transfer");
  }
  for (auto& b : box) { b.s.reset(); b.m.clear(); }
  arenas().expect_empty("after every sequence was destroyed");
}

struct Totals { long v[8]; };
static Totals totals() {
  Totals t{};
  auto& e = ev();
  t.v[0] = e.dflt; t.v[1] = e.value; t.v[2] = e.copy; t.v[3] = e.move; t.v[4] = e.casg; t.v[5] = e.masg; t.v[6] = e.dtor;
  for (auto& a : arenas().all) t.v[7] += a->alloc_calls;
  return t;
}
static void unchanged(Totals const& a, const char* who, long dtors) {
  Totals b = totals();
  static const char* nm[] = {"default constructions", "constructions", "copies", "moves", "copy assignments", "move assignments", "destructions", "allocations"};
  for (int i = 0; i < 8; ++i) {
    long d = b.v[i] - a.v[i];
    VT_CHECK(d == (i == 6 ? dtors : 0), "takeover", "%s performed %ld %s", who, d, nm[i]);
  }
}
struct Held { std::vector<It> it; std::vector<CIt> ct; std::vector<T*> ptr; };
static Held hold(S& s, Rng& rng) {
  Held h;
  std::size_t n = s.size();
  for (std::size_t i = 0; i < n; ++i) {
    It it = rng.one_in(2) ? s.nth((Z)i) : s.begin() + (D)i;
    h.it.push_back(it); h.ct.push_back(it); h.ptr.push_back(std::addressof(*it));
  }
  return h;
}
static void still(Held& h, S& s, Model const& m, Rng& rng, const char* who) {
  VT_CHECK(h.it.size() == m.size(), "content", "%s changed the number of elements", who);
  for (std::size_t i = 0; i < m.size(); ++i) {
    VT_CHECK(std::addressof(*h.it[i]) == h.ptr[i] && std::addressof(*h.ct[i]) == h.ptr[i], "iterator", "%s: iterator %zu designates another element", who, i);
    VT_CHECK(E::get(*h.ptr[i]) == m[i], "content", "%s: the element referred to at %zu changed", who, i);
    V::same_place(s, m, h.it[i], i, who);
    if (rng.one_in(3)) V::exercise(s, m, h.it[i], i, rng, who);
    if (rng.one_in(4)) V::exercise(s, m, h.ct[i], i, rng, who);
    VT_COUNT("held_iterators");
  }
  VT_COUNT("operations");
}
static void modify_through(Held& h, S& s, Model& m, Rng& rng, const char* who) {
  if (m.empty()) return;
  std::size_t i = rng.below(m.size());
  if (rng.one_in(2)) {
    u64 v = E::norm(rng.next());
    It r = s.insert(h.ct[i], E::make(v)); m.insert(m.begin() + (long)i, v);
    V::exercise(s, m, r, i, rng, who);
  } else {
    It r = s.erase(CIt(h.it[i])); m.erase(m.begin() + (long)i);
    V::exercise(s, m, r, i, rng, who);
  }
  V::content(s, m, who);
  V::segments(s, m, who);
}
static void takeover(Rng& rng) {
  arenas().reset();
  Arena *aa = arenas().get(0), *ab = arenas().get(rng.below(2));
  for (int op = 0; op < 9; ++op) {
    Model m, o;
    S s((Al(aa))), t((Al(ab)));
    build_shape(s, m, rng, op % 3 == 0 ? rng.below(5) : len_or_long(rng, 70)); build_shape(t, o, rng, rng.one_in(3) ? 0 : len_or_long(rng, 50));
    if (m.size()) saw(mix(shape_of(s, m), (u64)op));
    Held h = hold(s, rng), g = hold(t, rng);
    bool eq = aa == ab;
    step("takeover", op, (long)m.size(), (long)o.size());
    Totals z = totals();
    switch (op) {
      case 0: if (eq || P::cs) { s.swap(t); unchanged(z, "swap", 0); still(h, t, m, rng, "swap"); still(g, s, o, rng, "swap"); modify_through(h, t, m, rng, "after swap"); modify_through(g, s, o, rng, "after swap"); } break;
      case 1: if (eq || P::cs) { using std::swap; swap(t, s); unchanged(z, "swap(a, b)", 0); still(h, t, m, rng, "swap(a, b)"); still(g, s, o, rng, "swap(a, b)"); swap(s, t); unchanged(z, "swap(a, b) twice", 0); still(h, s, m, rng, "swapped back"); } break;
      case 2: { S d(std::move(s)); unchanged(z, "move construction", 0); still(h, d, m, rng, "move construction"); modify_through(h, d, m, rng, "after move construction"); break; }
      case 3: { S d(std::move(s), Al(aa)); unchanged(z, "move construction with an equal allocator", 0); still(h, d, m, rng, "move construction with an equal allocator"); modify_through(h, d, m, rng, "after a move"); break; }
      case 4: if (eq || P::cma) { t = std::move(s); unchanged(z, "move assignment", std::is_same<T, Tracked>::value ? (long)o.size() : totals().v[6] - z.v[6]); still(h, t, m, rng, "move assignment"); modify_through(h, t, m, rng, "after move assignment"); } break;
      case 5: {                                    // a chain of takeovers
        S d(std::move(s)); S f(std::move(d));
        if (P::cs || eq) { f.swap(t); unchanged(z, "moves and a swap", 0); still(h, t, m, rng, "moves and a swap"); still(g, f, o, rng, "moves and a swap"); modify_through(h, t, m, rng, "after moves and a swap"); }
        else { still(h, f, m, rng, "two moves"); }
        break;
      }
      case 6: {                                    // reading and writing through references
        for (std::size_t i = 0; i < m.size(); ++i) { (void)s.nth((Z)i); (void)s.at((Z)i); (void)E::get(s[(Z)i]); }
        for (auto it = s.cbegin(); it != s.cend(); it.move_after_segment()) (void)s.index_of(it);
        unchanged(z, "reading", 0);
        for (std::size_t i = 0; i < m.size(); i += 3) { u64 v = E::norm(rng.next()); *h.ptr[i] = E::make(v); m[i] = v; }
        still(h, s, m, rng, "reading and writing elements");
        break;
      }
      case 7: s.reverse(); std::reverse(m.begin(), m.end()); still(h, s, m, rng, "reverse"); modify_through(h, s, m, rng, "after reverse"); break;
      default: s.sort([](T const& x, T const& y) { return E::get(x) < E::get(y); }); std::stable_sort(m.begin(), m.end()); still(h, s, m, rng, "sort"); modify_through(h, s, m, rng, "after sort"); break;
    }
  }
  arenas().expect_empty("after every sequence was destroyed");
}

int main(int argc, char** argv) {
  init(argc, argv, VT_UNIT);
  for (u64 id = 0; id < (u64)VT_CASES * st().scale; ++id) {
    if (!my_case(id)) continue;
    begin_case(id);
    Rng rng(case_seed(id));
#if VT_MODE == 10
    history(rng);
#else
    takeover(rng);
#endif
    if (id < 2) sample(trace(8));
  }
  return finish();
}
