// P08: every flow metric apportions flow by its published rule
#include <richdem/methods/flow_accumulation.hpp>
#include <richdem/common/random.hpp>
#include "gen.hpp"
using namespace richdem;
using namespace gen;

static pbt::RuleRegistrar rr("cases: rasters of every shape, eight styles, NoData anywhere, every metric, exponents 0.5..8; non-trivial: at least one interior cell with a lower neighbour",
                             {"differences of neighbouring elevations are representable in the element type", "slope raised to the exponent is within the range of a float"});
using T = TY;
static const int MAXC = 24;
enum Metric { D8M, D4M, RHO8, RHO4, QUINN, FREEMAN, HOLMGREN, TARBOTON, NM };
static const char *MN[] = {"D8", "D4", "Rho8", "Rho4", "Quinn", "Freeman", "Holmgren", "Tarboton"};

static void run(Metric m, const Array2D<T> &a, Array3D<float> &p, double x, bool alias) {
  switch (m) {
    case D8M: alias ? FM_D8(a, p) : FM_OCallaghan<Topology::D8>(a, p); break;
    case D4M: alias ? FM_D4(a, p) : FM_OCallaghan<Topology::D4>(a, p); break;
    case RHO8: alias ? FM_Rho8(a, p) : FM_FairfieldLeymarie<Topology::D8>(a, p); break;
    case RHO4: alias ? FM_Rho4(a, p) : FM_FairfieldLeymarie<Topology::D4>(a, p); break;
    case QUINN: FM_Quinn(a, p); break;
    case FREEMAN: FM_Freeman(a, p, x); break;
    case HOLMGREN: FM_Holmgren(a, p, x); break;
    default: alias ? FM_Dinfinity(a, p) : FM_Tarboton(a, p);
  }
}

static void metric(pbt::Source &s) {
  Metric m = (Metric)s.draw(NM);
  double ex = s.pick({1.0, 1.1, 2.0, 4.0, 0.5, 8.0});
  bool alias = s.coin();
  DemOpts o;
  o.nodata_edge_d4 = false;
  o.extremes = false;
  o.max_dim = MAXC;
  o.nd_lowest = false;
  auto z = dem<T>(s, o);
  {
    double lo = INFINITY, hi = -INFINITY;
    for (auto v : z.v)
      if (v != z.nd) lo = std::min<double>(lo, v), hi = std::max<double>(hi, v);
    if (hi > lo && std::pow(hi - lo, ex) > 1e35) ex = 2;  // keep slope^exponent within a float
  }
  s.note("metric ", MN[m], " exponent ", ex);
  s.note(show(z));
  s.label(MN[m]);
  auto a = to_array(z);
  Array3D<float> p(a);
  if (s.coin()) p.setAll(0.25f);
  seed_rand(s.range(1, 1000));
  run(m, a, p, ex, alias);
  PBT_CHECK(p.width() == z.w && p.height() == z.h, "dims", "");
  PBT_CHECK(p.noData() == NO_DATA_GEN, "nodata-value", p.noData());
  const int d4slot[5] = {0, 1, 3, 5, 7};
  for (int y = 0; y < z.h; y++)
    for (int x = 0; x < z.w; x++) {
      PBT_CHECK(a(x, y) == z(x, y), "altered", "elevation changed");
      auto at = [&] { return pbt::str(MN[m], " (", x, ",", y, "): proportions ", p(x, y, 0), " | ", p(x, y, 1), " ", p(x, y, 2), " ", p(x, y, 3), " ", p(x, y, 4), " ", p(x, y, 5), " ", p(x, y, 6), " ", p(x, y, 7), " ", p(x, y, 8)); };
      if (z.isnd(x, y)) {
        PBT_CHECK(p(x, y, 0) == NO_DATA_GEN && p.isNoData(x, y), "nodata", at());
        for (int n = 1; n <= 8; n++) PBT_CHECK(!(p(x, y, n) > 0), "nodata-flows", at());
        continue;
      }
      PBT_CHECK(p(x, y, 0) != NO_DATA_GEN, "data-marked-nodata", at());
      // lower data neighbours
      bool lower[9] = {0};
      bool any = false;
      if (!z.edge(x, y))
        for (int n = 1; n <= 8; n++) {
          if (m == D4M || m == RHO4)
            if (n % 2 == 0) continue;
          int nx = x + DX8[n], ny = y + DY8[n];
          lower[n] = !z.isnd(nx, ny) && z(nx, ny) < z(x, y);
          any |= lower[n];
        }
      double want[9] = {0};
      std::vector<std::array<double, 9>> alts;  // acceptable answers when not one
      if (any) s.nontrivial();
      bool flows = any;
      if (m == D8M || m == D4M) {
        int b = 0;
        for (int n = 1; n <= 8; n++)
          if (lower[n] && (!b || z(x + DX8[n], y + DY8[n]) < z(x + DX8[b], y + DY8[b]))) b = n;
        if (b) want[b] = 1;
      } else if (m == RHO8 || m == RHO4) {
        // one neighbour; its slope, scaled by the random factor's range, is not beaten for certain by another's
        for (int b = 1; b <= 8; b++) {
          if (!lower[b]) continue;
          auto fac = [&](int n, bool hi) -> double {
            if (m == RHO8) return n % 2 == 0 ? (hi ? 1.0 : 0.5) : 1.0;
            return (n == 3 || n == 7) ? (hi ? INFINITY : 0.0) : 1.0;
          };
          double top = fac(b, true) * ((double)z(x, y) - (double)z(x + DX8[b], y + DY8[b]));
          bool possible = true;
          for (int n = 1; n <= 8; n++)
            if (lower[n] && n != b && fac(n, false) * ((double)z(x, y) - (double)z(x + DX8[n], y + DY8[n])) > top * (1 + 1e-12)) possible = false;
          if (possible) {
            std::array<double, 9> w{};
            w[b] = 1;
            alts.push_back(w);
          }
        }
      } else if (m == QUINN || m == FREEMAN || m == HOLMGREN) {
        double C = 0;
        for (int n = 1; n <= 8; n++)
          if (lower[n]) {
            double g = ((double)z(x, y) - (double)z(x + DX8[n], y + DY8[n])) / (n % 2 == 0 ? std::sqrt(2.0) : 1.0);
            if (m != FREEMAN) g *= n % 2 == 0 ? 0.354 : 0.5;
            want[n] = std::pow(g, m == QUINN ? 1.0 : ex);
            C += want[n];
          }
        for (int n = 1; n <= 8; n++)
          if (C > 0) want[n] /= C;
      } else {
        // D-infinity: the steepest triangular facet, its flow split by how near the direction is to each of its two cells
        double best = 0;
        std::vector<std::pair<double, std::array<double, 9>>> fs;
        if (!z.edge(x, y))
          for (int d = 2; d <= 8; d += 2)
            for (int side = -1; side <= 1; side += 2) {
              int c = d + side == 9 ? 1 : d + side;
              int cx = x + DX8[c], cy = y + DY8[c], dx = x + DX8[d], dy = y + DY8[d];
              if (z.isnd(cx, cy) || z.isnd(dx, dy)) continue;
              double e0 = z(x, y), e1 = z(cx, cy), e2 = z(dx, dy), s1 = e0 - e1, s2 = e1 - e2, sl, share;
              const double Q = std::acos(-1.0) / 4;
              if (s2 <= 0) sl = s1, share = 0;
              else if (s2 >= s1) sl = (e0 - e2) / std::sqrt(2.0), share = 1;
              else sl = std::hypot(s1, s2), share = std::atan2(s2, s1) / Q;
              if (sl <= 0) continue;
              std::array<double, 9> w{};
              w[c] = 1 - share;
              w[d] = share;
              fs.push_back({sl, w});
              best = std::max(best, sl);
            }
        for (auto &f : fs)
          if (f.first >= best * (1 - 1e-9)) alts.push_back(f.second);
        flows = !alts.empty();
      }
      PBT_CHECK((p(x, y, 0) == HAS_FLOW_GEN) == flows && (flows || p(x, y, 0) == NO_FLOW_GEN), "flow-flag", "flows: ", flows, "; ", at());
      double sum = 0;
      for (int n = 1; n <= 8; n++)
        if (p(x, y, n) > 0) sum += p(x, y, n);
      PBT_CHECK(std::abs(sum - (flows ? 1 : 0)) < 1e-5, "does-not-sum-to-one", "sum ", sum, "; ", at());
      auto matches = [&](const double *w) {
        for (int n = 1; n <= 8; n++) {
          double g = std::max(0.0, (double)p(x, y, n));
          if (std::abs(g - w[n]) > 2e-5) return false;
        }
        return true;
      };
      bool ok = alts.empty() ? matches(want) : false;
      for (auto &w : alts) ok = ok || matches(w.data());
      PBT_CHECK(ok, m == RHO8 || m == RHO4 ? "not-a-possible-choice" : "not-by-the-rule", at(), "; expected ", alts.empty() ? pbt::str(want[1], " ", want[2], " ", want[3], " ", want[4], " ", want[5], " ", want[6], " ", want[7], " ", want[8]) : pbt::str(alts[0][1], " ", alts[0][2], " ", alts[0][3], " ", alts[0][4], " ", alts[0][5], " ", alts[0][6], " ", alts[0][7], " ", alts[0][8], " (or one of ", alts.size() - 1, " others)"));
      (void)d4slot;
    }
}
#define STR2(x) #x
#define STR(x) STR2(x)
PBT_PROP("metric_" STR(TY), QN, QN * 20, metric);
