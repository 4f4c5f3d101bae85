// P12: terrain attributes (Horn 1981; Zevenbergen and Thorne 1987), SPI and CTI
#include <richdem/common/timer.hpp>
#include <richdem/methods/terrain_attributes.hpp>
#include "gen.hpp"
using namespace richdem;
using namespace gen;
using T = TY;

static pbt::RuleRegistrar rr("cases: rasters of every shape, eight styles, NoData anywhere, cell sizes 0.25 to 90 (different in x and y for slope and aspect), z scales; non-trivial: at least one data cell whose neighbourhood is not flat",
                             {"curvatures are only compared on square cells", "stream power and wetness indices are only compared on unit cells, to within the 0.001 their definitions differ by"});

enum Attr { RISERUN, PERCENT, DEGREES, RADIANS, ASPECT, CURV, PLAN, PROF, NA };
static const char *AN[] = {"slope_riserun", "slope_percentage", "slope_degrees", "slope_radians", "aspect", "curvature", "planform_curvature", "profile_curvature"};

static void call(int k, const Array2D<T> &a, Array2D<float> &o, float zs) {
  switch (k) {
    case RISERUN: TA_slope_riserun(a, o, zs); break;
    case PERCENT: TA_slope_percentage(a, o, zs); break;
    case DEGREES: TA_slope_degrees(a, o, zs); break;
    case RADIANS: TA_slope_radians(a, o, zs); break;
    case ASPECT: TA_aspect(a, o, zs); break;
    case CURV: TA_curvature(a, o, zs); break;
    case PLAN: TA_planform_curvature(a, o, zs); break;
    case PROF: TA_profile_curvature(a, o, zs); break;
  }
}

static void attr(pbt::Source &s) {
  int k = s.draw(NA);
  DemOpts o;
  o.nodata_edge_d4 = false;
  o.extremes = false;
  o.max_dim = 24;
  o.nd_lowest = false;
  auto z = dem<T>(s, o);
  double lx = s.pick({1.0, 30.0, 0.25, 90.0}), ly = s.coin(1, 3) && k < CURV ? s.pick({1.0, 10.0, 0.5}) : lx;
  float zs = s.pick({1.0f, 0.3048f, 2.0f, 10.0f});
  s.note(AN[k], " cell ", lx, "x", ly, " zscale ", zs);
  s.note(show(z));
  s.label(AN[k]);
  auto a = to_array(z);
  a.geotransform = {{100, lx, 0, 200, 0, s.coin(1, 4) ? ly : -ly}};
  a.projection = "p";
  Array2D<float> out;
  if (s.coin()) out.resize(s.range(1, 9), s.range(1, 9), 4);
  out.setNoData(-9999);
  call(k, a, out, zs);
  PBT_CHECK(out.width() == z.w && out.height() == z.h, "dims", "");
  PBT_CHECK(out.geotransform == a.geotransform && out.projection == "p", "properties", "the result does not take the raster's properties");
  PBT_CHECK(out.noData() == -9999, "nodata-value", "");
  for (int y = 0; y < z.h; y++)
    for (int x = 0; x < z.w; x++) {
      PBT_CHECK(a(x, y) == z(x, y), "altered", "");
      float g = out(x, y);
      if (z.isnd(x, y)) {
        PBT_CHECK(g == -9999, "nodata", "NoData cell (", x, ",", y, ") has ", g);
        continue;
      }
      double e[3][3], big = 0;  // e[row][column]
      bool flat = true;
      for (int j = -1; j <= 1; j++)
        for (int i = -1; i <= 1; i++) {
          int nx = x + i, ny = y + j;
          bool ok = z.in(nx, ny) && !z.isnd(nx, ny);
          e[j + 1][i + 1] = (double)(ok ? z(nx, ny) : z(x, y)) * zs;
          if (ok && z(nx, ny) != z(x, y)) flat = false;
          big = std::max(big, std::abs(e[j + 1][i + 1]));
        }
      if (!flat) s.nontrivial();
      // Horn: weighted central differences
      double gx = 0, gy = 0;
      for (int j = 0; j < 3; j++) {
        double wt = j == 1 ? 2 : 1;
        gx += wt * (e[j][2] - e[j][0]);
        gy += wt * (e[2][j] - e[0][j]);
      }
      gx /= 8 * lx;
      gy /= 8 * ly;  // positive: rises southwards
      double slope = std::hypot(gx, gy), noise = big * 1e-13 / std::min(lx, ly);
      auto near = [&](double want, double extra) { return std::abs(g - want) <= 1e-5 * (std::abs(want)) + extra + 1e-12; };
      auto why = [&](double want) { return pbt::str(AN[k], " at (", x, ",", y, ") is ", g, ", expected ", want); };
      const double PI = std::acos(-1.0);
      if (k == RISERUN) PBT_CHECK(near(slope, noise), "slope", why(slope));
      else if (k == PERCENT) PBT_CHECK(near(100 * slope, 100 * noise), "slope", why(100 * slope));
      else if (k == DEGREES) PBT_CHECK(near(std::atan(slope) * 180 / PI, 60 * noise), "slope", why(std::atan(slope) * 180 / PI));
      else if (k == RADIANS) PBT_CHECK(near(std::atan(slope), noise), "slope", why(std::atan(slope)));
      else if (k == ASPECT) {
        if (flat) {
          PBT_CHECK(g == -1, "flat-aspect", why(-1));
          continue;
        }
        if (slope <= 100 * noise) continue;
        PBT_CHECK(g >= 0 && g <= 360, "aspect-range", why(0));
        // bearing of the downslope vector, clockwise from north
        double want = std::atan2(-gx, gy) * 180 / PI, d = std::fmod(std::abs(g - want) + 720, 360);
        PBT_CHECK(std::min(d, 360 - d) < 1e-3, "aspect", why(want));
      } else {
        double L2 = lx * lx;
        double D = ((e[1][0] + e[1][2]) / 2 - e[1][1]) / L2, E = ((e[0][1] + e[2][1]) / 2 - e[1][1]) / L2, F = (e[0][2] - e[0][0] + e[2][0] - e[2][2]) / (4 * L2);
        double G = (e[1][2] - e[1][0]) / (2 * lx), H = (e[0][1] - e[2][1]) / (2 * lx);
        double n2 = 100 * 50 * big * 1e-14 / L2;
        double g2 = G * G + H * H;
        if (k == CURV) PBT_CHECK(near(-200 * (D + E), n2), "curvature", why(-200 * (D + E)));
        else {
          double w = 0;
          if (g2 != 0) {
            double q = k == PLAN ? -(D * H * H + E * G * G - F * G * H) : D * G * G + E * H * H + F * G * H;
            w = 200 * q / g2;
          }
          double scale = 200 * (std::abs(D) + std::abs(E) + std::abs(F));
          if (g2 != 0 && std::sqrt(g2) < 1e3 * noise) continue;
          PBT_CHECK(std::abs(g - w) <= 1e-5 * (std::abs(w) + 1e-2 * scale) + 1e3 * n2, "curvature", why(w));
        }
      }
    }
}

static void wet_index(pbt::Source &s) {
  int W = s.range(1, 12), H = s.range(1, 12);
  bool spi = s.coin(), mismatch = s.coin(1, 8);
  Array2D<T> acc(W, H, 1);
  int W2 = mismatch ? W + s.range(1, 2) : W;
  Array2D<float> sl(W2, H, 0);
  acc.setNoData(0);
  sl.setNoData(-1);
  acc.geotransform = sl.geotransform = {{0, 1, 0, 0, 0, -1}};
  for (int i = 0; i < W * H; i++) acc(i) = s.coin(1, 8) ? 0 : s.range(1, 120);
  for (int i = 0; i < W2 * H; i++) sl(i) = s.coin(1, 8) ? -1.f : s.coin(1, 4) ? 0.f : (float)s.real(0, 5);
  Array2D<float> out;
  bool threw = false;
  s.nontrivial(W * H > 1);
  s.note(spi ? "SPI" : "CTI", show(acc), show(sl));
  try {
    if (spi) TA_SPI(acc, sl, out);
    else TA_CTI(acc, sl, out);
  } catch (const std::runtime_error &) {
    threw = true;
  }
  PBT_CHECK(threw == mismatch, "size-mismatch", "refused: ", threw);
  if (threw) return;
  PBT_CHECK(out.width() == W && out.height() == H, "dims", "");
  for (int i = 0; i < W * H; i++) {
    if (acc(i) == 0 || sl(i) == -1) {
      PBT_CHECK(out(i) == out.noData(), "nodata", "");
      continue;
    }
    double w = std::log((double)acc(i)) + (spi ? 1 : -1) * std::log(sl(i) + 0.001);
    PBT_CHECK(std::abs(out(i) - w) < 0.0012, "index", "cell ", i, " has ", out(i), ", expected ", w);
  }
}
#define STR2(x) #x
#define STR(x) STR2(x)
PBT_PROP("attr_" STR(TY), QN, QN * 20, attr);
PBT_PROP("index_" STR(TY), QN / 4, QN * 5, wet_index);
