// P07: D8 and D-infinity flow directions; conversion of direction codes
#include <richdem/flowmet/d8_flowdirs.hpp>
#include <richdem/flowmet/dinf_flowdirs.hpp>
#include "gen.hpp"
using namespace richdem;
using namespace gen;

static pbt::RuleRegistrar rr("cases: rasters of every shape, eight styles, NoData anywhere; non-trivial: at least one interior cell with a lower neighbour",
                             {"NoData lower than every data value (documented precondition)"});
using T = TY;
static Grid<T> draw_case(pbt::Source &s, bool moderate = false) {
  DemOpts o;
  o.nodata_edge_d4 = false;
  o.extremes = !moderate;
  auto z = dem<T>(s, o);
  s.note(show(z));
  return z;
}
template <class U>
static void d8_as(pbt::Source &s, const Grid<T> &z) {
  auto a = to_array(z);
  Array2D<U> fd;
  if (s.coin()) fd.resize(s.range(1, 9), s.range(1, 9), 3);
  d8_flow_directions(a, fd);
  PBT_CHECK(fd.width() == z.w && fd.height() == z.h, "dims", "");
  for (int y = 0; y < z.h; y++)
    for (int x = 0; x < z.w; x++) {
      const auto got = fd(x, y);
      PBT_CHECK(a(x, y) == z(x, y), "altered", "the elevation of (", x, ",", y, ") changed");
      if (z.isnd(x, y)) {
        PBT_CHECK(got == (U)FLOWDIR_NO_DATA && got == fd.noData(), "nodata", "NoData cell (", x, ",", y, ") has direction ", +got);
        continue;
      }
      if (z.edge(x, y)) {
        PBT_CHECK(got >= 1 && got <= 8 && !z.in(x + DX8[(int)got], y + DY8[(int)got]), "border", "border cell (", x, ",", y, ") has direction ", +got);
        bool corner = (x == 0 || x == z.w - 1) && (y == 0 || y == z.h - 1);
        PBT_CHECK(((int)got % 2 == 0) == corner, "border-nearest", "border cell (", x, ",", y, ") has direction ", +got);
        continue;
      }
      int want = 0;
      bool any = false;
      T low{};
      for (int n = 1; n <= 8; n++) {
        T v = z(x + DX8[n], y + DY8[n]);
        if (!(v < z(x, y))) continue;
        if (!any || v < low) low = v, any = true;
      }
      if (any) {
        s.nontrivial();
        for (int n = 1; n <= 8 && !want; n += 2)
          if (z(x + DX8[n], y + DY8[n]) == low) want = n;
        for (int n = 2; n <= 8 && !want; n += 2)
          if (z(x + DX8[n], y + DY8[n]) == low) want = n;
      }
      PBT_CHECK(got == want, "direction", "(", x, ",", y, ") has direction ", +got, ", expected ", want);
    }
}
static void d8(pbt::Source &s) {
  auto z = draw_case(s);
  if (s.coin(1, 3)) d8_as<int>(s, z);
  else d8_as<d8_flowdir_t>(s, z);
}
// the steepest of the eight triangular facets around a cell: all the answers within rounding
static void dinf(pbt::Source &s) {
  auto z = draw_case(s, true);
  auto a = to_array(z);
  Array2D<float> fd;
  if (s.coin()) fd.resize(s.range(1, 9), s.range(1, 9), 3);
  dinf_flow_directions(a, fd);
  PBT_CHECK(fd.width() == z.w && fd.height() == z.h, "dims", "");
  const double Q = std::acos(-1.0) / 4;  // 45 degrees
  // neighbours counter-clockwise from east
  const int ex[9] = {1, 1, 0, -1, -1, -1, 0, 1, 1}, ey[9] = {0, -1, -1, -1, 0, 1, 1, 1, 0};
  for (int y = 0; y < z.h; y++)
    for (int x = 0; x < z.w; x++) {
      const double got = fd(x, y);
      if (z.isnd(x, y)) {
        PBT_CHECK(got == -1 && fd.isNoData(x, y), "nodata", "NoData cell (", x, ",", y, ") has direction ", got);
        continue;
      }
      if (z.edge(x, y)) {
        int k = (int)std::lround(got / Q);
        PBT_CHECK(std::abs(got - k * Q) < 1e-5 && k >= 1 && k <= 8, "border-angle", "(", x, ",", y, ") has direction ", got);
        PBT_CHECK(!z.in(x + ex[k], y + ey[k]), "border", "border cell (", x, ",", y, ") flows at ", got, ", into the raster");
        bool corner = (x == 0 || x == z.w - 1) && (y == 0 || y == z.h - 1);
        PBT_CHECK((k % 2 == 1) == corner, "border-nearest", "border cell (", x, ",", y, ") flows at ", got);
        continue;
      }
      double best = 0, e0 = z(x, y);
      double slope[8], ang[8];
      for (int f = 0; f < 8; f++) {
        // facet f spans the angles f*45..(f+1)*45 degrees
        int c = f % 2 == 0 ? f : f + 1, d = f % 2 == 0 ? f + 1 : f;
        double e1 = z(x + ex[c], y + ey[c]), e2 = z(x + ex[d], y + ey[d]);
        double s1 = e0 - e1, s2 = e1 - e2, r, sl;
        if (s2 <= 0 && !(s2 == 0 && s1 < 0)) r = 0, sl = s1;
        else if (s2 >= s1) r = Q, sl = (e0 - e2) / std::sqrt(2.0);
        else r = std::atan2(s2, s1), sl = std::hypot(s1, s2);
        slope[f] = sl;
        ang[f] = f % 2 == 0 ? f * Q + r : (f + 1) * Q - r;
        best = std::max(best, sl);
      }
      bool has = best > 0;
      if (has) s.nontrivial();
      PBT_CHECK((got != 0) == has, "no-flow", "(", x, ",", y, ") has direction ", got, ", steepest slope ", best);
      if (!has) continue;
      bool ok = false;
      std::string w;
      for (int f = 0; f < 8; f++)
        if (slope[f] >= best * (1 - 1e-9)) {
          double diff = std::abs(std::remainder(got - ang[f], 8 * Q));
          ok = ok || diff < 2e-5;
          w += pbt::str(" ", ang[f]);
        }
      PBT_CHECK(ok, "angle", "(", x, ",", y, ") has direction ", got, ", the steepest facet faces", w);
      PBT_CHECK(got > 0 && got <= 8 * Q + 1e-6, "range", got);
    }
}
#define STR2(x) #x
#define STR(x) STR2(x)
PBT_PROP("d8_" STR(TY), QN, QN * 20, d8);
PBT_PROP("dinf_" STR(TY), QN / 2, QN * 10, dinf);
