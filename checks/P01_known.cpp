#include <richdem/depressions/depressions.hpp>
#include "pbt.hpp"
using namespace richdem;
static pbt::KnownRegistrar k1("K01-interior-nodata", "PriorityFlood_Original, _Barnes2014 and _Zhou2016 overwrite an interior NoData region that does not touch the raster's edge (5x5 raster of 10s with a NoData centre: the centre becomes 10)", [] {
  auto hit = [](auto f) {
    Array2D<int> a(5, 5, 10);
    a.setNoData(-9999);
    a(2, 2) = -9999;
    f(a);
    return a(2, 2) != -9999;
  };
  return hit([](Array2D<int> &a) { PriorityFlood_Original<Topology::D8>(a); }) || hit([](Array2D<int> &a) { PriorityFlood_Barnes2014<Topology::D8>(a); }) ||
         hit([](Array2D<int> &a) { PriorityFlood_Zhou2016(a); });
});
