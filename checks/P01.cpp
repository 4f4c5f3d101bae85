// P01: complete depression filling is the least drained surface, whichever algorithm
#include <richdem/depressions/depressions.hpp>
#include "gen.hpp"
#include "ref_fill.hpp"
using namespace richdem;
using namespace gen;

static pbt::RuleRegistrar rr(
    "cases: rasters of every shape from 1x1, eight landscape styles (ties, flats, bowls, rims, corridors, slopes, terraces, noise), six element "
    "types, NoData regions reaching the raster's edge; non-trivial: the reference raises at least one cell",
    {"NoData lower than every data value (documented precondition)", "NoData regions touch the raster's edge", "no NaN"});

template <class T>
static void check(pbt::Source &s, const char *name, bool d8, const Grid<T> &z, const Grid<T> &want, void (*f)(Array2D<T> &)) {
  auto a = to_array(z);
  f(a);
  PBT_CHECK(a.width() == z.w && a.height() == z.h, "dims", name, " changed the dimensions");
  PBT_CHECK(a.noData() == z.nd, "nodata-value", name, " changed the NoData value");
  for (int y = 0; y < z.h; y++)
    for (int x = 0; x < z.w; x++) {
      if (z.isnd(x, y)) PBT_CHECK(a(x, y) == z.nd, "nodata-changed", name, d8 ? " D8" : " D4", ": NoData cell (", x, ",", y, ") became ", +a(x, y), "\n", show(a));
      PBT_CHECK(a(x, y) >= z(x, y), "lowered", name, ": cell (", x, ",", y, ") lowered from ", +z(x, y), " to ", +a(x, y));
      PBT_CHECK(a(x, y) == want(x, y), "wrong-fill", name, d8 ? " D8" : " D4", ": cell (", x, ",", y, ") is ", +a(x, y), ", the least drained surface has ", +want(x, y), " there\n", show(a));
    }
  // filling a filled surface changes nothing
  f(a);
  for (int y = 0; y < z.h; y++)
    for (int x = 0; x < z.w; x++) PBT_CHECK(a(x, y) == want(x, y), "not-idempotent", name, ": cell (", x, ",", y, ") changed when filled again");
}

template <class T>
static void prop(pbt::Source &s) {
  const bool d8 = !s.coin(1, 3);
  auto z = dem<T>(s);
  s.note("topology ", d8 ? "D8" : "D4");
  s.note(show(z));
  auto want = ref::fill(z, d8);
  size_t raised = 0, nd = 0;
  for (size_t i = 0; i < z.size(); i++) raised += want.v[i] != z.v[i], nd += z.v[i] == z.nd;
  s.nontrivial(raised > 0);
  s.label(d8 ? "D8" : "D4");
  s.label(raised > 0, "raises cells");
  s.label(nd > 0, "has NoData");
  s.label(z.w == 1 || z.h == 1, "strip");
  s.label(z.size() > 400, "over 400 cells");
  if (d8) {
    check<T>(s, "PriorityFlood_Original", true, z, want, [](Array2D<T> &a) { PriorityFlood_Original<Topology::D8>(a); });
    check<T>(s, "PriorityFlood_Barnes2014", true, z, want, [](Array2D<T> &a) { PriorityFlood_Barnes2014<Topology::D8>(a); });
    check<T>(s, "PriorityFlood_Zhou2016", true, z, want, [](Array2D<T> &a) { PriorityFlood_Zhou2016(a); });
    check<T>(s, "PriorityFlood_Wei2018", true, z, want, [](Array2D<T> &a) { PriorityFlood_Wei2018(a); });
    check<T>(s, "FillDepressions", true, z, want, [](Array2D<T> &a) { FillDepressions<Topology::D8>(a); });
  } else {
    check<T>(s, "PriorityFlood_Original", false, z, want, [](Array2D<T> &a) { PriorityFlood_Original<Topology::D4>(a); });
    check<T>(s, "PriorityFlood_Barnes2014", false, z, want, [](Array2D<T> &a) { PriorityFlood_Barnes2014<Topology::D4>(a); });
    check<T>(s, "FillDepressions", false, z, want, [](Array2D<T> &a) { FillDepressions<Topology::D4>(a); });
  }
}
#ifdef TY
#define STR2(x) #x
#define STR(x) STR2(x)
PBT_PROP("fill_" STR(TY), QN, QN * 20, prop<TY>);
#endif
