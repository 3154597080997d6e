// Unit (C18): index nodes wide enough to overflow a 16-bit child count, and
// many one-element segments.
#include "view.hpp"
using namespace vt;
using T = VT_T;
using S = boost::segmented_tree::seq<T, VT_ALLOC, VT_SEG, VT_BASE>;
using V = View<S>;
using E = El<T>;
using CIt = S::const_iterator;
using Z = S::size_type;
using D = S::difference_type;
static void look(S& s, Model& m, Rng& rng, int k, const char* when) {
  std::size_t n = m.size();
  VT_CHECK(s.size() == n, "content", "%s: size() is %zu, expected %zu", when, (std::size_t)s.size(), n);
  for (int q = 0; q < k && n; ++q) {
    std::size_t i = q == 0 ? n - 1 : q == 1 ? 0 : q < 8 ? (std::size_t)std::min<std::size_t>(n - 1, 65528 + rng.below(20)) : rng.below(n);
    auto it = s.nth((Z)i);
    V::same_place(s, m, it, i, when);
    std::size_t j = rng.below(n + 1);
    V::same_place(s, m, it + ((D)j - (D)i), j, "a jump");
    if (i + 1 < n) { ++it; V::same_place(s, m, it, i + 1, "++"); --it; }
    if (i) { --it; V::same_place(s, m, it, i - 1, "--"); }
    VT_COUNT("operations");
  }
}
int main(int argc, char** argv) {
  init(argc, argv, VT_UNIT);
  for (u64 id = 0; id < (u64)VT_CASES * st().scale; ++id) {
    if (!my_case(id)) continue;
    begin_case(id);
    watchdog(300);
    arenas().reset();
    Rng rng(case_seed(id));
    {
      S s; Model m;
      std::size_t top = VT_TOP + rng.below(500);
      bool front = id % 3 == 2;
      step("grow", (long)top, front);
      for (std::size_t i = 0; i < top; ++i) {
        u64 v = E::norm(i * 2654435761ull);
        if (front && i > VT_TOP - 3000) { s.push_front(E::make(v)); m.insert(m.begin(), v); }
        else { s.push_back(E::make(v)); m.push_back(v); }
        VT_COUNT("operations");
        if (i % 9001 == 0 || (i + 4 > 65532 && i < 65542)) look(s, m, rng, 12, "while growing");
      }
      V::content(s, m, "grown");
      V::segments(s, m, "grown");
      saw(shape_hash(V::segments(s, m, "grown"), s.height()));
      for (int k = 0; k < VT_CHURN; ++k) {
        std::size_t n = m.size(), i = rng.one_in(3) ? rng.below(n) : std::min<std::size_t>(n - 1, (std::size_t)(rng.one_in(2) ? 65530 : 32765) + rng.below(12));
        step("churn", (long)i, (long)n);
        if (rng.one_in(2)) { u64 v = E::norm(rng.next()); auto r = s.insert(CIt(s.nth((Z)i)), E::make(v)); m.insert(m.begin() + (long)i, v); V::same_place(s, m, r, i, "insert"); }
        else { auto r = s.erase(CIt(s.nth((Z)i))); m.erase(m.begin() + (long)i); V::same_place(s, m, r, i, "erase"); }
        look(s, m, rng, 4, "while churning");
      }
      V::content(s, m, "churned");
      while (m.size() > 40) {
        std::size_t n = m.size(), l = std::min<std::size_t>(n, 3000 + rng.below(9000)), i = rng.one_in(2) ? n - l : rng.below(n - l + 1);
        step("erase", (long)i, (long)l, (long)n);
        if (rng.one_in(2)) s.erase(CIt(s.nth((Z)i)), CIt(s.nth((Z)(i + l))));
        else while (l) { s.pop_back(); m.pop_back(); --l; }
        if (l) m.erase(m.begin() + (long)i, m.begin() + (long)(i + l));
        look(s, m, rng, 6, "while shrinking");
      }
      V::content(s, m, "shrunk");
      V::segments(s, m, "shrunk");
      if (id < 2) sample(trace(6));
    }
    arenas().expect_empty("after the sequence was destroyed");
  }
  return finish();
}
