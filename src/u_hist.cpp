// Unit: random histories for one sequence type (see run.py for the types).
#include "hist.hpp"
using namespace vt;
#ifndef VT_CASES
#define VT_CASES 16
#endif
using T = VT_T;
using Al = VT_ALLOC;
using S = boost::segmented_tree::seq<T, Al, VT_SEG, VT_BASE>;
template <class A> A mk_alloc() {
  return A();
}
int main(int argc, char** argv) {
  init(argc, argv, VT_UNIT);
  HistCfg c;
#ifdef VT_CFG
  VT_CFG;
#endif
#ifndef VT_COUNTED
#define VT_COUNTED false
#endif
#ifndef VT_REG
#define VT_REG false
#endif
#ifndef VT_LOG
#define VT_LOG false
#endif
  hist_cases<S>(c, VT_CASES, VT_COUNTED, VT_REG, VT_LOG, &mk_alloc<Al>);
  return finish();
}
