// Unit (C06): the exact tree. A pointer class records which index blocks a
// lookup of each segment goes through; from these paths the tree is rebuilt
// and every index node's occupancy judged, after each of many modifications.
#include "view.hpp"
#include <algorithm>
using namespace vt;
using T = VT_T;
using S = boost::segmented_tree::seq<T, PtrAlloc<T, T>, VT_SEG, VT_BASE>;
using V = View<S>;
using E = El<T>;
using Z = S::size_type;
using CIt = S::const_iterator;

static std::size_t cap_node, cap_seg;     // largest node seen in growth; segment capacity as allocated

struct Tree {
  std::size_t segs = 0, nodes = 0, height = 0;
  std::map<const char*, std::size_t> children;
  const char* root = nullptr;
  bool exact = true;
  u64 hash = 0;
};
static Tree rebuild(S& s, Model const& m) {
  Tree t;
  t.height = s.height();
  auto runs = V::segments(s, m, "tree walk");
  t.segs = runs.size();
  t.hash = shape_hash(runs, t.height);
  if (t.height < 2) return t;
  std::map<const char*, const char*> parent;
  std::map<const char*, std::size_t> depth;
  std::set<const char*> done;
  std::vector<const char*> last;
  std::size_t at = 0;
  auto& log = touch_log();
  for (u32 r : runs) {
    log.nodes.clear(); log.on = true;
    (void)s.nth((Z)(at + r / 2));
    log.on = false;
    at += r;
    auto& path = log.nodes;
    if (path.size() != t.height - 1) { t.exact = false; return t; }
    for (std::size_t k = 0; k < path.size(); ++k) {
      const char* up = k ? path[k - 1] : nullptr;
      if (!k) { if (t.root && t.root != path[0]) { t.exact = false; return t; } t.root = path[0]; }
      auto ins = parent.emplace(path[k], up);
      if (!ins.second && ins.first->second != up) { t.exact = false; return t; }
      if (ins.second) { depth[path[k]] = k; if (k) ++t.children[up]; t.hash = mix(t.hash, k); }
    }
    ++t.children[path.back()];
    last = path;
  }
  t.nodes = parent.size();
  return t;
}
static void judge(S& s, Model const& m, const char* when) {
  Arena* a = arenas().get(0);
  std::size_t n = m.size();
  cap_seg = a->seg_cap ? a->seg_cap : cap_seg;
  Tree t = rebuild(s, m);
  VT_CHECK(s.size() == n, "content", "%s: size() is %zu, expected %zu", when, (std::size_t)s.size(), n);
  VT_CHECK((t.height == 0) == (n == 0) && (t.height == 1) == (t.segs == 1), "balance", "%s: height %zu with %zu segments", when, t.height, t.segs);
  check_targets(a, VT_SEG, VT_BASE, sizeof(std::allocator_traits<PtrAlloc<T, T>>::void_pointer), sizeof(Z), when);
  if (n == 0) VT_CHECK(a->blocks.empty(), "balance", "%s: an empty sequence holds %zu blocks", when, a->blocks.size());
  auto runs = V::segments(s, m, when);
  for (u32 r : runs) VT_CHECK(r <= cap_seg && (runs.size() == 1 || 2 * (std::size_t)r >= cap_seg), "balance", "%s: a segment holds %u of %zu", when, r, cap_seg);
  VT_CHECK((std::size_t)a->elem_live == t.segs, "balance", "%s: %ld segments allocated, %zu in use", when, a->elem_live, t.segs);
  if (t.height < 2) VT_CHECK(a->node_live == 0, "balance", "%s: %ld index nodes at height %zu", when, a->node_live, t.height);
  VT_COUNT("structure_checks");
  saw(t.hash);
  if (t.height < 2) return;
  if (!t.exact) { VT_COUNT("paths_not_derivable"); return; }
  VT_CHECK((std::size_t)a->node_live == t.nodes, "balance", "%s: %ld index nodes allocated, %zu reachable", when, a->node_live, t.nodes);
  for (auto& c : t.children) {
    bool root = c.first == t.root;
    cap_node = std::max(cap_node, c.second);
    VT_CHECK(root ? c.second >= 2 : true, "balance", "%s: the root has a single child at height %zu", when, t.height);
    VT_CHECK(root || 2 * c.second >= cap_node, "balance", "%s: an index node has %zu children, others have held %zu (height %zu, %zu segments)", when, c.second, cap_node, t.height, t.segs);
    VT_COUNT("node_occupancies");
  }
  long& mh = ctr("max_height"); mh = std::max<long>(mh, (long)t.height);
}
static void one_case(Rng& rng) {
  S s; Model m;
  u64 c = 0;
  std::size_t limit = VT_MAXN / (1 + rng.below(3)), sweep = 0;
  bool grow = true;
  long k = 0;
  while (k < VT_OPS) {
    unsigned pat = (unsigned)rng.below(8);
    std::size_t len = 1 + rng.below(limit), stride = 1 + rng.below(9);
    if (rng.one_in(12)) {                     // now and then whole ranges
      std::size_t n = m.size(), i = rng.below(n + 1), j = std::min(n, i + rng.below(n + 1));
      if (rng.one_in(2) && n < limit) {
        std::size_t q = rng.below(limit / 3 + 1); u64 v = E::norm(++c);
        step("insert_count", (long)i, (long)q, (long)n);
        s.insert(CIt(s.nth((Z)i)), (Z)q, E::make(v)); m.insert(m.begin() + (long)i, q, v);
      } else {
        step("erase_range", (long)i, (long)j, (long)n);
        s.erase(CIt(s.nth((Z)i)), CIt(s.nth((Z)j))); m.erase(m.begin() + (long)i, m.begin() + (long)j);
      }
      judge(s, m, "after a range operation");
    }
    for (std::size_t q = 0; q < len && k < VT_OPS; ++q, ++k) {
      std::size_t n = m.size();
      if (grow ? n >= limit : n == 0) break;
      std::size_t lim = grow ? n : n - 1, i;
      bool now = grow;
      if (pat == 7) { now = rng.one_in(2) || n == 0; lim = now ? n : n - 1; }
      switch (pat) {
        case 0: i = 0; break;
        case 1: i = lim; break;
        case 2: i = (sweep += stride) > lim ? (sweep = 0) : sweep; break;
        case 3: i = lim / 2; break;
        case 4: i = sweep ? --sweep : (sweep = lim); break;
        default: i = rng.below(lim + 1);
      }
      i = std::min(i, lim);
      if (now) { u64 v = E::norm(++c * 2654435761ull); step("insert", (long)i, (long)n); s.insert(CIt(s.nth((Z)i)), E::make(v)); m.insert(m.begin() + (long)i, v); }
      else { step("erase", (long)i, (long)n); s.erase(CIt(s.nth((Z)i))); m.erase(m.begin() + (long)i); }
      VT_COUNT("operations");
      if (rng.one_in(1 + n / 40)) judge(s, m, now ? "after an insertion" : "after an erasure");
    }
    judge(s, m, "after a phase");
    if (m.size() >= limit) grow = false;
    if (m.empty() || rng.one_in(6)) grow = true;
    if (grow && m.size() >= limit) grow = false;
  }
  judge(s, m, "at the end");
}
int main(int argc, char** argv) {
  init(argc, argv, VT_UNIT);
  {                                            // learn the node capacity: grow at random positions
    Rng rng(99);
    begin_case(0);
    arenas().reset();
    S s; Model m;
    for (std::size_t i = 0; i < 6000; ++i) { std::size_t p = i % 3 ? m.size() : rng.below(m.size() + 1); u64 v = E::norm(i); s.insert(CIt(s.nth((Z)p)), E::make(v)); m.insert(m.begin() + (long)p, v); if (i % 50 == 0) judge(s, m, "while growing"); }
    st().case_id = 0;
  }
  for (u64 id = 0; id < (u64)VT_CASES * st().scale; ++id) {
    if (!my_case(id)) continue;
    begin_case(id);
    arenas().reset();
    Rng rng(case_seed(id));
    one_case(rng);
    arenas().expect_empty("after the sequence was destroyed");
    if (id < 2) sample(trace(8));
  }
  long& cn = ctr("max_node_children"); cn = (long)cap_node;
  return finish();
}
