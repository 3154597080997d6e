// The second translation unit: the same specialisations, used on objects made in the first.
#include "compat.hpp"
seq<int, std::allocator<int>, 16, 64> made_elsewhere(std::size_t n) {
  seq<int, std::allocator<int>, 16, 64> s;
  for (std::size_t i = 0; i < n; ++i) s.insert(s.nth(i / 3), static_cast<int>(i));
  return s;
}
u64 summed_elsewhere(seq<int, std::allocator<int>, 16, 64> const& s) { return std::accumulate(s.begin(), s.end(), u64(0), [](u64 a, int b) { return fold(a, static_cast<u64>(b)); }); }
void grown_elsewhere(seq<int, std::allocator<int>, 16, 64>& s) { s.sort(std::greater<int>()); s.insert(s.end(), 7, 7); s.erase(s.begin()); }
void other_unit(u64 seed) {
  digest<seq<double, Least<double>, 48, 64>, true>("double/least", seed + 1, 1500, 150);
  digest<seq<std::unique_ptr<int>, std::allocator<std::unique_ptr<int>>, 64, 80>, false>("unique_ptr", seed + 2, 1500, 150);
  digest<seq<std::vector<short>, Least<std::vector<short>>, 120, 64>, true>("vector", seed + 3, 1000, 120);
  digest<seq<Inner, std::allocator<Inner>, 200, 64>, true>("seq of seq", seed + 4, 600, 60);
  digest<seq<Color>, true>("enum/default", seed + 5, 600, 3000);
}
