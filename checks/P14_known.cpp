#include <richdem/depressions/fill_spill_merge.hpp>
#include "pbt.hpp"
using namespace richdem;
using namespace richdem::dephier;
static pbt::KnownRegistrar k1("K14-unsaturated", "FillSpillMerge, when an unsaturated cell lies in a depression merged from two (3x5 raster, row 1 0 1 0 9 between walls of 9, water 10 everywhere but -1 at the first zero), fails an assertion or creates water", [] {
  for (int side = 0; side < 2; side++) {
    Array2D<double> z(5, 3, 9.);
    double row[] = {1, 0, 1, 0, 9};
    for (int x = 0; x < 5; x++) z(x, 1) = row[x];
    Array2D<dh_label_t> label(5, 3, NO_DEP);
    Array2D<flowdir_t> fd(5, 3, NO_FLOW);
    label.setEdges(OCEAN);
    auto deps = GetDepressionHierarchy<double, Topology::D8>(z, label, fd);
    Array2D<double> w(5, 3, 10.);
    w(side ? 3 : 1, 1) = -11;
    double before = 0, after = 0;
    for (auto i = w.i0(); i < w.size(); i++) before += w(i);
    FillSpillMerge<double, double>(z, label, fd, deps, w);
    after = deps[OCEAN].water_vol;
    for (auto i = w.i0(); i < w.size(); i++) after += w(i);
    if (std::abs(before - after) > 1e-3) return true;
  }
  return false;
});
