// P02: epsilon filling
#include <richdem/depressions/depressions.hpp>
#include "gen.hpp"
#include "ref_fill.hpp"
using namespace richdem;
using namespace gen;

static pbt::RuleRegistrar rr("cases: float and double rasters as in P01, plus rasters whose values are a few representable steps apart; non-trivial: at least one cell is raised",
                             {"NoData lower than every data value (documented precondition)", "NoData regions touch the raster's edge", "no NaN or infinite elevation"});
using T = TY;
static T up(T v) { return std::nextafter(v, std::numeric_limits<T>::infinity()); }

static void verify(const char *name, bool d8, const Grid<T> &z, void (*f)(Array2D<T> &)) {
  const auto nb = nbr(d8);
  auto a = to_array(z);
  f(a);
  PBT_CHECK(a.width() == z.w && a.height() == z.h && a.noData() == z.nd, "dims", name, " changed the dimensions or the NoData value");
  auto fl = ref::fill(z, d8);
  for (int y = 0; y < z.h; y++)
    for (int x = 0; x < z.w; x++) {
      if (z.isnd(x, y)) {
        PBT_CHECK(a(x, y) == z.nd, "nodata-changed", name, ": NoData cell (", x, ",", y, ") became ", a(x, y));
        continue;
      }
      PBT_CHECK(a(x, y) >= z(x, y), "lowered", name, ": cell (", x, ",", y, ") lowered from ", z(x, y), " to ", a(x, y));
      bool outlet = z.edge(x, y), ok = false;
      for (int n = 1; n <= nb.n; n++) {
        int nx = x + nb.dx[n], ny = y + nb.dy[n];
        if (!z.in(nx, ny)) continue;
        if (z.isnd(nx, ny)) {
          outlet = true;
          continue;
        }
        if (a(x, y) == z(x, y) && a(nx, ny) < a(x, y)) ok = true;
        if (a(x, y) == up(a(nx, ny))) ok = true;
      }
      if (outlet) PBT_CHECK(a(x, y) == z(x, y), "outlet-raised", name, ": cell (", x, ",", y, ") drains off the raster or into NoData but was raised from ", z(x, y), " to ", a(x, y), "\n", show(a));
      else PBT_CHECK(ok, "no-descent-or-not-least", name, d8 ? " D8" : " D4", ": cell (", x, ",", y, ") = ", a(x, y), " (was ", z(x, y), ") is neither its own elevation above a lower neighbour nor one step above a neighbour\n", show(a));
      // the total rise above the flat fill is at most one step per cell
      T lim = fl(x, y);
      bool within = a(x, y) <= lim;
      for (size_t k = 0; k < z.size() && !within; k++) {
        lim = up(lim);
        within = a(x, y) <= lim;
      }
      PBT_CHECK(within, "raised-too-far", name, ": cell (", x, ",", y, ") = ", a(x, y), " is more than one step per cell above the flat fill ", fl(x, y));
    }
}

static Grid<T> close_values(pbt::Source &s) {
  // elevations a few representable steps apart
  DemOpts o;
  o.max_dim = 25;
  auto g = dem<T>(s, o);
  T base = s.pick<T>({T(1), T(0), T(-1), T(100.5), T(-0.001), T(1e6)});
  for (auto &c : g.v) {
    if (c == g.nd) continue;
    T v = base;
    for (int k = s.draw(6); k > 0; k--) v = up(v);
    c = v;
  }
  return g;
}

static void body(pbt::Source &s, bool d8, const Grid<T> &z) {
  s.note("topology ", d8 ? "D8" : "D4");
  s.note(show(z));
  auto want = ref::fill(z, d8);
  size_t raised = 0;
  for (size_t i = 0; i < z.size(); i++) raised += want.v[i] != z.v[i];
  // a flat that does not touch an outlet also has to be raised
  auto a = to_array(z);
  if (d8) {
    verify("PriorityFloodEpsilon_Barnes2014", true, z, [](Array2D<T> &a) { PriorityFloodEpsilon_Barnes2014<Topology::D8>(a); });
    verify("FillDepressionsEpsilon", true, z, [](Array2D<T> &a) { FillDepressionsEpsilon<Topology::D8>(a); });
    FillDepressionsEpsilon<Topology::D8>(a);
  } else {
    verify("PriorityFloodEpsilon_Barnes2014", false, z, [](Array2D<T> &a) { PriorityFloodEpsilon_Barnes2014<Topology::D4>(a); });
    verify("FillDepressionsEpsilon", false, z, [](Array2D<T> &a) { FillDepressionsEpsilon<Topology::D4>(a); });
    FillDepressionsEpsilon<Topology::D4>(a);
  }
  size_t changed = 0;
  for (size_t i = 0; i < z.size(); i++) changed += a(int(i % z.w), int(i / z.w)) != z.v[i];
  s.nontrivial(changed > 0);
  s.label(changed > 0, "raises cells");
  s.label(raised > 0, "has depressions");
  s.label(d8 ? "D8" : "D4");
}
static void prop_main(pbt::Source &s) {
  bool d8 = !s.coin(1, 3);
  body(s, d8, dem<T>(s));
}
static void prop_close(pbt::Source &s) {
  bool d8 = !s.coin(1, 3);
  body(s, d8, close_values(s));
}
#define STR2(x) #x
#define STR(x) STR2(x)
PBT_PROP("epsilon_" STR(TY), QN, QN * 20, prop_main);
PBT_PROP("epsilon_close_values_" STR(TY), QN / 2, QN * 10, prop_close);
