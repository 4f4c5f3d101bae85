#include <richdem/depressions/depressions.hpp>
#include "pbt.hpp"
using namespace richdem;
static pbt::KnownRegistrar k1("K05-constrained", "Lindsay2016 in CONSTRAINED_BREACHING mode digs deeper than maxdepth (7x7 raster of 10s with a pit of 0 in the centre, maxdepth 5: the pit is dug to -10)", [] {
  Array2D<double> a(7, 7, 10);
  a.setNoData(-9999);
  for (int y = 2; y < 5; y++)
    for (int x = 2; x < 5; x++) a(x, y) = 0;
  Lindsay2016<double>(a, CONSTRAINED_BREACHING, false, false, 100, 5);
  double m = 1e9;
  for (auto i = a.i0(); i < a.size(); i++) m = std::min(m, a(i));
  return m < 0;
});
