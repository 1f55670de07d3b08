// Access to the parallel integration rules that are private members, if they exist.
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <iostream>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
#include "omp.h"
#define private public
#include "num_integration.h"
#undef private
typedef NumericalDoubleInputIntegrator N;
template <class C> auto trapz_(C &c, int) -> decltype(c.trapz_parallel()) { return c.trapz_parallel(); }
template <class C> double trapz_(C &, long) { return NAN; }
template <class C> auto simpson_(C &c, int) -> decltype(c.simpson_parallel()) { return c.simpson_parallel(); }
template <class C> double simpson_(C &, long) { return NAN; }
extern "C" __attribute__((visibility("default"))) double
mc_private(int which, int n, double *y, double *x, bool es, int threads) {
  N c(n, y, x, es, which ? "simpson" : "trapz", threads, true);
  return which ? simpson_(c, 0) : trapz_(c, 0);
}
