// Random histories over a few sequences, compared with vector models after
// every operation.
#pragma once
#include "view.hpp"
#include <algorithm>
#include <numeric>

namespace vt {
// Input iterator over values, single pass; every copy shares one position.
template <class T> struct OneWay {
  struct Src { std::vector<u64> const* v; std::size_t at = 0; std::size_t reads = 0; };
  Src* s; bool end;
  using iterator_category = std::input_iterator_tag;
  using value_type = T; using difference_type = std::ptrdiff_t; using pointer = void*; using reference = T;
  T operator*() const { ++s->reads; return El<T>::make((*s->v)[s->at]); }
  OneWay& operator++() { ++s->at; return *this; }
  OneWay operator++(int) { OneWay o = *this; ++s->at; return o; }
  friend bool operator==(OneWay const& a, OneWay const& b) { return (a.end || a.s->at == a.s->v->size()) == (b.end || b.s->at == b.s->v->size()); }
  friend bool operator!=(OneWay const& a, OneWay const& b) { return !(a == b); }
};

struct HistCfg {
  std::size_t max_n = 300;      // growth limit
  std::size_t ops = 1500;       // per case
  std::size_t bulk = 40;        // usual limit of counted and range operations
  unsigned deep_div = 24;       // deep check about every 1 + n / deep_div operations
  bool transfer = true, algos = true, bulks = true, shapes = true, chain = true;
};

template <class S> struct Hist {
  using V = View<S>;
  using T = typename S::value_type;
  using E = El<T>;
  using It = typename S::iterator;
  using CIt = typename S::const_iterator;
  using Z = typename S::size_type;
  using D = typename S::difference_type;
  using A = typename S::allocator_type;
  static constexpr bool copyable = std::is_copy_constructible<T>::value && std::is_copy_assignable<T>::value;
  static constexpr bool dflt = std::is_default_constructible<T>::value;
  struct Box { std::unique_ptr<S> s; Model m; };

  HistCfg cfg;
  Rng rng{1};
  Box box[3];
  int nb = 2;
  It cur{};          // iterator returned by the last single operation
  int cur_box = -1;
  std::size_t cur_i = 0;
  u64 counter = 0;
  bool dup = false;
  int pattern = 0;
  std::size_t sweep = 0, stride = 1, max_n = 0;
  bool counted = false;   // element type counts its instances
  std::size_t max_seen = 0, max_ht = 0;

  u64 val() { return E::norm(dup ? rng.below(6) : ++counter * 2654435761ull + rng.below(3)); }
  static bool less(T const& a, T const& b) { return E::get(a) < E::get(b); }
  static bool eq(T const& a, T const& b) { return E::get(a) == E::get(b); }

  // ------------------------------------------------------------ positions
  std::size_t pick(Box& b, std::size_t limit) {   // a position in [0, limit]
    std::size_t n = b.m.size(), i = 0;
    switch (pattern) {
      default: i = rng.below(limit + 1); break;
      case 1: i = rng.below(3); break;
      case 2: i = limit - std::min(limit, rng.below(3)); break;
      case 3: i = sweep += rng.below(2); if (i > limit) i = sweep = 0; break;
      case 4: i = (sweep += stride) > limit ? (sweep = rng.below(stride + 1)) : sweep; break;
      case 5: i = sweep = sweep ? sweep - 1 : limit; break;
      case 6: {
        if (n == 0) break;
        std::size_t r = rng.below(n);
        auto it = b.s->nth((Z)r);
        std::size_t off = (std::size_t)(raw(it.current()) - raw(it.begin())), rest = (std::size_t)(raw(it.end()) - raw(it.current()));
        i = rng.one_in(2) ? r - off : r + rest;
        if (rng.one_in(3) && i) --i;
        if (rng.one_in(3)) ++i;
        break;
      }
      case 7: i = limit / 2 + rng.below(5); break;
    }
    return std::min(i, limit);
  }
  It at(int bi, std::size_t i) {                 // an iterator to i, come by in various ways
    Box& b = box[bi];
    std::size_t n = b.m.size();
    if (cfg.chain && cur_box == bi && rng.below(4)) {
      It it = cur; it += (D)((long long)i - (long long)cur_i); VT_COUNT("chained_iterators");
      return it;
    }
    switch (rng.below(4)) {
      case 0: return b.s->nth((Z)i);
      case 1: { It it = b.s->begin(); it += (D)i; return it; }
      case 2: { It it = b.s->end(); it -= (D)(n - i); return it; }
      default: {
        if (i == n) return b.s->end();
        It it = b.s->nth((Z)rng.below(n));
        return it + (D)((long long)i - (long long)b.s->index_of(it));
      }
    }
  }
  void returned(int bi, It it, std::size_t i, const char* who) {
    V::same_place(*box[bi].s, box[bi].m, it, i, who);
    if (rng.one_in(6)) V::exercise(*box[bi].s, box[bi].m, it, i, rng, who);
    cur = it; cur_box = bi; cur_i = i;
  }
  void forget(int bi) { if (cur_box == bi) cur_box = -1; }

  // ------------------------------------------------------------ checks
  void census(const char* when) {
    if (!counted) return;
    long want = 0;
    for (auto& b : box) if (b.s) want += (long)b.s->size();
    VT_CHECK(ev().live == want, "lifetime", "%s: %ld elements are alive, the sequences hold %ld", when, ev().live, want);
  }
  void light(int bi) {
    Box& b = box[bi];
    std::size_t n = b.m.size();
    VT_CHECK(b.s->size() == n && b.s->empty() == (n == 0), "content", "size() is %zu, expected %zu", (std::size_t)b.s->size(), n);
    VT_CHECK((b.s->height() == 0) == (n == 0), "balance", "height() is %zu at size %zu", (std::size_t)b.s->height(), n);
    V::positions(*b.s, b.m, rng, 2);
    if (n) {
      VT_CHECK(E::get(b.s->front()) == b.m.front() && E::get(b.s->back()) == b.m.back(), "content", "front() or back() is wrong at size %zu", n);
      VT_CHECK(E::get(*b.s->begin()) == b.m.front() && E::get(*b.s->penultimate()) == b.m.back(), "content", "begin() or penultimate() is wrong at size %zu", n);
    }
    if (rng.one_in(4)) { std::size_t i = rng.below(n + 1); V::exercise(*b.s, b.m, at(bi, i), i, rng, "probe"); }
    census("after an operation");
    max_seen = std::max(max_seen, n);
    max_ht = std::max<std::size_t>(max_ht, b.s->height());
  }
  void deep(const char* when) {
    std::size_t segs = 0, lo = 0, hi = 0, B = 0, live = 0;
    Arena* a = nullptr;
    for (auto& b : box) {
      if (!b.s) continue;
      A al = b.s->get_allocator();
      a = ArenaOf<A>::get(al);
      V::content(*b.s, b.m, when);
      auto runs = V::segments(*b.s, b.m, when);
      B = a ? node_capacity(a, sizeof(typename std::allocator_traits<A>::void_pointer), sizeof(Z)) : 0;
#ifdef VT_TARGETS
      if (a) check_targets(a, VT_SEG, VT_BASE, sizeof(typename std::allocator_traits<A>::void_pointer), sizeof(Z), when);
#endif
      NodeBounds x = check_shape(runs, b.m.size(), b.s->height(), a ? a->seg_cap : 0, B, when);
      segs += runs.size(); lo += x.lo; hi += x.hi; live += b.m.size();
      if (cfg.shapes && runs.size() > 1) saw(shape_hash(runs, b.s->height()));
    }
    if (a) {
      VT_CHECK((std::size_t)a->elem_live == segs, "allocator", "%s: %ld segments are allocated, the sequences use %zu", when, a->elem_live, segs);
      VT_CHECK(a->node_live == 0 || ((std::size_t)a->node_live >= lo && (std::size_t)a->node_live <= hi), "balance", "%s: %ld index nodes are allocated, %zu to %zu fit the size", when, a->node_live, lo, hi);
      VT_CHECK(a->node_live != 0 || lo == 0, "balance", "%s: no index node is allocated", when);
      if (counted || !a->built.empty()) census(when);
      if (a->log_objects) VT_CHECK(a->built.size() == live, "allocator", "%s: %zu elements are constructed through the allocator, the sequences hold %zu", when, a->built.size(), live);
    }
    VT_COUNT("deep_checks");
  }
  // ------------------------------------------------------------ operations
  void insert1(int bi) {
    Box& b = box[bi];
    std::size_t n = b.m.size();
    u64 v = val();
    std::size_t i = pick(b, n);
    unsigned how = (unsigned)rng.below(8);
    if (pattern == 1 && rng.one_in(2)) how = 8 + (unsigned)rng.below(3);
    if (pattern == 2 && rng.one_in(2)) how = 11 + (unsigned)rng.below(3);
    step("insert", (long)how, (long)i, (long)n);
    if (!copyable && (how == 0 || how == 1 || how == 8 || how == 11)) how = 2;
    VT_COUNT("inserts");
    It r{};
    if (how < 8) {
      CIt p = at(bi, i);
      T x = E::make(v);
      if (how < 2) { if constexpr (copyable) { T const& cx = x; r = b.s->insert(p, cx); VT_CHECK(E::get(x) == v, "content", "insert(const&) changed its argument"); } }
      else if (how < 5) r = b.s->insert(p, std::move(x));
      else r = b.s->emplace(p, std::move(x));
      b.m.insert(b.m.begin() + (long)i, v);
      returned(bi, r, i, how < 5 ? "insert" : "emplace");
      return;
    }
    T x = E::make(v);
    i = how < 11 ? 0 : n;
    switch (how) {
      case 8: if constexpr (copyable) { T const& cx = x; b.s->push_front(cx); } break;
      case 9: b.s->push_front(std::move(x)); break;
      case 10: b.s->emplace_front(std::move(x)); break;
      case 11: if constexpr (copyable) { T const& cx = x; b.s->push_back(cx); } break;
      case 12: b.s->push_back(std::move(x)); break;
      default: b.s->emplace_back(std::move(x)); break;
    }
    b.m.insert(b.m.begin() + (long)i, v);
    forget(bi);
  }
  void erase1(int bi) {
    Box& b = box[bi];
    std::size_t n = b.m.size();
    if (n == 0) return;
    std::size_t i = pick(b, n - 1);
    VT_COUNT("erases");
    if (pattern == 1 && rng.one_in(2)) { step("pop_front", (long)n); b.s->pop_front(); b.m.erase(b.m.begin()); forget(bi); return; }
    if (pattern == 2 && rng.one_in(2)) { step("pop_back", (long)n); b.s->pop_back(); b.m.pop_back(); forget(bi); return; }
    step("erase", (long)i, (long)n);
    It r = b.s->erase(CIt(at(bi, i)));
    b.m.erase(b.m.begin() + (long)i);
    returned(bi, r, i, "erase");
  }
  std::size_t bulk_count(Box& b, bool grow) {
    std::size_t k = rng.one_in(5) ? rng.below(2) : rng.below(cfg.bulk + 1);
    if (rng.one_in(12)) k = rng.below(cfg.bulk * 4 + 1);
    if (grow && b.m.size() + k > max_n) k = rng.below(3);
    return k;
  }
  void bulk(int bi) {
    Box& b = box[bi];
    std::size_t n = b.m.size();
    unsigned op = (unsigned)rng.below(10);
    VT_COUNT("bulk_ops");
    switch (op) {
      case 0: if constexpr (copyable) {
        std::size_t i = pick(b, n), k = bulk_count(b, true); u64 v = val();
        step("insert_count", (long)i, (long)k, (long)n);
        T x = E::make(v);
        It r = b.s->insert(CIt(at(bi, i)), (Z)k, x);
        b.m.insert(b.m.begin() + (long)i, k, v);
        returned(bi, r, i, "insert(count)");
        return;
      } // fallthrough
      case 1: case 2: {
        std::size_t i = pick(b, n), k = bulk_count(b, true);
        std::vector<u64> vs; for (std::size_t j = 0; j < k; ++j) vs.push_back(val());
        step("insert_range", (long)i, (long)k, (long)n);
        It r{};
        CIt p = at(bi, i);
        if (op == 1 || !copyable) {
          typename OneWay<T>::Src src{&vs};
          r = b.s->insert(p, OneWay<T>{&src, false}, OneWay<T>{&src, true});
          VT_CHECK(src.reads == k && src.at == k, "range", "insert of %zu elements read %zu source elements", k, src.reads);
        } else if constexpr (copyable) {
          if (k == 3) { r = b.s->insert(p, {E::make(vs[0]), E::make(vs[1]), E::make(vs[2])}); }
          else {
            std::vector<T> ts; for (u64 v : vs) ts.push_back(E::make(v));
            r = b.s->insert(p, ts.begin(), ts.end());
          }
        }
        b.m.insert(b.m.begin() + (long)i, vs.begin(), vs.end());
        returned(bi, r, i, "insert(range)");
        return;
      }
      case 3: case 4: {
        std::size_t i = pick(b, n), k = std::min(n - i, op == 3 ? bulk_count(b, false) : rng.below(n - i + 1) / (1 + rng.below(4)));
        step("erase_range", (long)i, (long)k, (long)n);
        CIt f = at(bi, i), l = at(bi, i + k);
        It r = b.s->erase(f, l);
        b.m.erase(b.m.begin() + (long)i, b.m.begin() + (long)(i + k));
        returned(bi, r, i, "erase(range)");
        return;
      }
      case 5: {
        forget(bi);
        std::size_t k = rng.one_in(3) ? n - std::min(n, rng.below(cfg.bulk + 1)) : std::min(max_n, n + rng.below(cfg.bulk + 1));
        step("resize", (long)k, (long)n);
        if (copyable && (!dflt || rng.one_in(2))) {
          if constexpr (copyable) { u64 v = val(); b.s->resize((Z)k, E::make(v)); b.m.resize(k, v); }
        } else if constexpr (dflt && !std::is_same<T, std::string>::value) { dirty_stack(); b.s->resize((Z)k); b.m.resize(k, 0); }
        else if constexpr (dflt) { if (k < n) { b.s->resize((Z)k); b.m.resize(k); } }
        return;
      }
      case 6: if constexpr (copyable) {
        forget(bi);
        std::size_t k = rng.one_in(3) ? rng.below(max_n / 2 + 1) : n + bulk_count(b, true) - std::min(n, rng.below(4));
        u64 v = val();
        step("assign_count", (long)k, (long)n);
        b.s->assign((Z)k, E::make(v)); b.m.assign(k, v);
        return;
      } // fallthrough
      case 7: {
        forget(bi);
        std::size_t k = rng.one_in(2) ? rng.below(max_n / 2 + 1) : std::min(max_n, n + rng.below(cfg.bulk));
        std::vector<u64> vs; for (std::size_t j = 0; j < k; ++j) vs.push_back(val());
        step("assign_range", (long)k, (long)n);
        if (rng.one_in(2) || !copyable) {
          typename OneWay<T>::Src src{&vs};
          b.s->assign(OneWay<T>{&src, false}, OneWay<T>{&src, true});
          VT_CHECK(src.reads == k, "range", "assign of %zu elements read %zu source elements", k, src.reads);
        } else if constexpr (copyable) {
          if (rng.one_in(8)) {
            vs.assign({val(), val(), val(), val()});
            if (rng.one_in(2)) b.s->assign({E::make(vs[0]), E::make(vs[1]), E::make(vs[2]), E::make(vs[3])});
            else *b.s = {E::make(vs[0]), E::make(vs[1]), E::make(vs[2]), E::make(vs[3])};
          } else {
            std::vector<T> ts; for (u64 v : vs) ts.push_back(E::make(v));
            b.s->assign(ts.begin(), ts.end());
          }
        }
        b.m = vs;
        return;
      }
      case 8: {
        if (!rng.one_in(4)) return;
        forget(bi);
        step("clear", (long)n);
        b.s->clear(); b.m.clear();
        return;
      }
      default: {   // rewrite elements through references
        if (n == 0) return;
        std::size_t i = rng.below(n); u64 v = val();
        step("write", (long)i, (long)n);
        switch (rng.below(4)) {
          case 0: (*b.s)[(Z)i] = E::make(v); break;
          case 1: b.s->at((Z)i) = E::make(v); break;
          case 2: *at(bi, i) = E::make(v); break;
          default: *(b.s->rbegin() + (D)(n - 1 - i)) = E::make(v); break;
        }
        b.m[i] = v;
        return;
      }
    }
  }
  void transfer(int bi) {
    int bj = (bi + 1 + (int)rng.below((std::size_t)nb - 1)) % nb;
    Box &b = box[bi], &c = box[bj];
    std::size_t n = b.m.size(), k = c.m.size();
    unsigned op = (unsigned)rng.below(11);
    VT_COUNT("transfer_ops");
    step("transfer", (long)op, (long)n, (long)k);
    switch (op) {
      case 0: if constexpr (copyable) { forget(bi); *b.s = *c.s; b.m = c.m; return; }  // fallthrough
      case 1: if constexpr (copyable) { forget(bi); b.s.reset(new S(*c.s)); b.m = c.m; return; }  // fallthrough
      case 2: {
        forget(bi); forget(bj);
        b.s.reset(new S(std::move(*c.s))); b.m = std::move(c.m); c.m.clear();
        VT_CHECK(c.s->empty() && c.s->size() == 0, "content", "moved-from sequence has size %zu", (std::size_t)c.s->size());
        return;
      }
      case 3: {
        forget(bi); forget(bj);
        *b.s = std::move(*c.s); b.m = std::move(c.m); c.m.clear();
        VT_CHECK(c.s->empty(), "content", "moved-from sequence has size %zu", (std::size_t)c.s->size());
        return;
      }
      case 4: case 5: {
        if (cur_box == bi) cur_box = bj; else if (cur_box == bj) cur_box = bi;   // iterators follow their elements
        if (cur_box >= 0 && cur_i == (cur_box == bi ? c.m : b.m).size() ) cur_box = -1;
        if (op == 4) b.s->swap(*c.s); else swap(*b.s, *c.s);
        b.m.swap(c.m);
        return;
      }
      case 6: {
        if (n + k > max_n + 50) return;
        forget(bi); forget(bj);
        std::size_t i = pick(b, n);
        CIt p = at(bi, i);
        if (rng.one_in(2)) b.s->splice(p, *c.s); else b.s->splice(p, std::move(*c.s));
        b.m.insert(b.m.begin() + (long)i, c.m.begin(), c.m.end()); c.m.clear();
        return;
      }
      case 7: {
        if (k == 0) return;
        forget(bi); forget(bj);
        std::size_t i = pick(b, n), j = rng.below(k);
        CIt p = at(bi, i), q = at(bj, j);
        b.s->splice(p, *c.s, q);
        b.m.insert(b.m.begin() + (long)i, c.m[j]); c.m.erase(c.m.begin() + (long)j);
        return;
      }
      case 8: {
        forget(bi); forget(bj);
        std::size_t i = pick(b, n), j = rng.below(k + 1), l = j + rng.below(std::min(k - j, cfg.bulk) + 1);
        CIt p = at(bi, i), f = at(bj, j), g = at(bj, l);
        b.s->splice(p, *c.s, f, g);
        b.m.insert(b.m.begin() + (long)i, c.m.begin() + (long)j, c.m.begin() + (long)l);
        c.m.erase(c.m.begin() + (long)j, c.m.begin() + (long)l);
        return;
      }
      case 9: {
        if (!cfg.algos || n + k > max_n + 50) return;
        forget(bi); forget(bj);
        b.s->sort(less); c.s->sort(less);
        std::stable_sort(b.m.begin(), b.m.end()); std::stable_sort(c.m.begin(), c.m.end());
        b.s->merge(*c.s, less);
        Model r; std::merge(b.m.begin(), b.m.end(), c.m.begin(), c.m.end(), std::back_inserter(r));
        b.m = r; c.m.clear();
        return;
      }
      default: {
        if (!cfg.algos) return;
        forget(bi);
        switch (rng.below(4)) {
          case 0: b.s->sort(less); std::stable_sort(b.m.begin(), b.m.end()); break;
          case 1: b.s->reverse(); std::reverse(b.m.begin(), b.m.end()); break;
          case 2: b.s->unique(eq); b.m.erase(std::unique(b.m.begin(), b.m.end()), b.m.end()); break;
          default: {
            u64 r = rng.below(5);
            b.s->remove_if([r](T const& x) { return E::get(x) % 5 == r; });
            b.m.erase(std::remove_if(b.m.begin(), b.m.end(), [r](u64 x) { return x % 5 == r; }), b.m.end());
          }
        }
        return;
      }
    }
  }
  // ------------------------------------------------------------ one case
  void run(HistCfg const& c, u64 seed, A const& alloc) {
    cfg = c;
    rng = Rng(seed);
    counter = rng.below(1000);
    for (auto& b : box) { b.s.reset(); b.m.clear(); }
    nb = cfg.transfer ? (int)rng.in(2, 3) : 1;
    for (int i = 0; i < nb; ++i) box[i].s.reset(new S(alloc));
    cur_box = -1;
    std::size_t done = 0;
    max_n = std::max<std::size_t>(8, rng.one_in(3) ? cfg.max_n / 4 : cfg.max_n);
    while (done < cfg.ops) {
      unsigned kind = (unsigned)rng.below(10);
      pattern = (int)rng.below(8);
      stride = 1 + rng.below(12);
      dup = rng.one_in(3);
      std::size_t len = rng.in(10, std::min(60 + cfg.max_n / 2, 10 + cfg.ops / 4));
      int bi = (int)rng.below((std::size_t)nb);
      if (rng.one_in(3)) bi = 0;
      if (kind < 3 && box[bi].m.size() > max_n * 3 / 4) kind = 4;
      step("phase", kind, pattern, (long)len);
      VT_COUNT("phases");
      for (std::size_t k = 0; k < len && done < cfg.ops; ++k, ++done) {
        Box& b = box[bi];
        bool full = b.m.size() >= max_n;
        if (kind < 3) { if (full) break; if (rng.one_in(12)) erase1(bi); else insert1(bi); }
        else if (kind < 6) { if (b.m.empty()) break; if (rng.one_in(16)) insert1(bi); else erase1(bi); }
        else if (kind == 6) { if (rng.one_in(2) && !full) insert1(bi); else erase1(bi); }
        else if (kind < 9 && cfg.bulks) bulk(bi);
        else if (nb > 1) transfer(bi);
        else insert1(bi);
        VT_COUNT("operations");
        light(bi);
        std::size_t n = b.m.size();
        if (rng.one_in(1 + n / cfg.deep_div)) deep("during a history");
        if (kind == 9 && k > 12) break;
        if (kind > 6 && kind < 9 && k > 40) break;
      }
    }
    deep("at the end of a history");
    if (st().samples < 3) {
      char t[128]; snprintf(t, sizeof t, "case %llu: %zu operations, largest %zu elements, height %zu, ends with ", (unsigned long long)st().case_id, done, max_seen, max_ht);
      sample(std::string(t) + trace(6));
    }
    for (auto& b : box) { b.s.reset(); b.m.clear(); }
    if (counted) VT_CHECK(ev().live == 0, "lifetime", "%ld elements are alive after every sequence was destroyed", ev().live);
    long& mh = ctr("max_height"); mh = std::max<long>(mh, (long)max_ht);
    long& ms = ctr("max_size"); ms = std::max<long>(ms, (long)max_seen);
  }
};

template <class S> void hist_cases(HistCfg cfg, u64 cases, bool counted, bool registry, bool log_objects, typename S::allocator_type (*mk)()) {
  cases *= st().scale;
  for (u64 id = 0; id < cases; ++id) {
    if (!my_case(id)) continue;
    begin_case(id);
    reg().on = registry; reg().at.clear();
    arenas().reset();
    arenas().get(0)->log_objects = log_objects;
    {
      Hist<S> h;
      h.counted = counted;
      h.run(cfg, case_seed(id), mk());
    }
    arenas().expect_empty("after every sequence was destroyed");
    if (registry) VT_CHECK(reg().at.empty(), "lifetime", "%zu elements are alive after every sequence was destroyed", reg().at.size());
  }
}
}  // namespace vt
