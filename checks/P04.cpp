// P04: priority-flood flow directions and watershed labels
#include <richdem/depressions/depressions.hpp>
#include "gen.hpp"
#include "ref_fill.hpp"
using namespace richdem;
using namespace gen;

static pbt::RuleRegistrar rr("cases: rasters as in P01; non-trivial: the raster has an interior data cell and at least one depression",
                             {"NoData lower than every data value (documented precondition)", "NoData regions touch the raster's edge"});
using T = TY;

static void flowdirs(pbt::Source &s) {
  auto z = dem<T>(s);
  s.note(show(z));
  auto want = ref::fill(z, true);
  size_t raised = 0;
  for (size_t i = 0; i < z.size(); i++) raised += want.v[i] != z.v[i];
  s.nontrivial(raised > 0);
  auto a = to_array(z);
  Array2D<d8_flowdir_t> fd;
  if (s.coin()) fd.resize(s.range(1, 9), s.range(1, 9), 9);
  PriorityFloodFlowdirs_Barnes2014(a, fd);
  PBT_CHECK(fd.width() == z.w && fd.height() == z.h, "dims", "flow directions are ", fd.width(), "x", fd.height());
  for (int y = 0; y < z.h; y++)
    for (int x = 0; x < z.w; x++) {
      PBT_CHECK(a(x, y) == z(x, y), "altered", "the elevation of (", x, ",", y, ") changed");
      if (z.isnd(x, y)) {
        PBT_CHECK(fd(x, y) == fd.noData(), "nodata-dir", "NoData cell (", x, ",", y, ") has flow direction ", +fd(x, y));
        continue;
      }
      int cx = x, cy = y;
      T top = z(x, y);
      for (size_t k = 0;; k++) {
        PBT_CHECK(k <= z.size(), "loop", "flow from (", x, ",", y, ") never leaves the raster\n", show(fd));
        int d = fd(cx, cy);
        PBT_CHECK(d >= 1 && d <= 8, "no-direction", "data cell (", cx, ",", cy, ") has flow direction ", d, "\n", show(fd));
        cx += DX8[d];
        cy += DY8[d];
        if (!z.in(cx, cy) || z.isnd(cx, cy)) break;
        top = std::max(top, z(cx, cy));
      }
      PBT_CHECK(top == want(x, y), "not-the-lowest-way", "flow from (", x, ",", y, ") climbs to ", +top, " on its way out, the lowest way out climbs to ", +want(x, y), "\n", show(fd));
    }
}

template <Topology topo>
static void watershed_body(pbt::Source &s, const Grid<T> &z) {
  const bool d8 = topo == Topology::D8;
  const auto nb = nbr(d8);
  auto want = ref::fill(z, d8);
  size_t raised = 0;
  for (size_t i = 0; i < z.size(); i++) raised += want.v[i] != z.v[i];
  s.nontrivial(raised > 0);
  bool alter = s.coin();
  s.note("alter_elevations ", alter);
  auto a = to_array(z);
  Array2D<int32_t> lab;
  if (s.coin()) lab.resize(s.range(1, 9), s.range(1, 9), 2);
  PriorityFloodWatersheds_Barnes2014<topo>(a, lab, alter);
  PBT_CHECK(lab.width() == z.w && lab.height() == z.h, "dims", "labels are ", lab.width(), "x", lab.height());
  std::map<int, std::vector<int>> by;
  for (int y = 0; y < z.h; y++)
    for (int x = 0; x < z.w; x++) {
      T w = alter ? want(x, y) : z(x, y);
      PBT_CHECK(a(x, y) == w, "elevations", "alter=", alter, ": elevation (", x, ",", y, ") is ", +a(x, y), ", expected ", +w);
      if (z.isnd(x, y)) {
        PBT_CHECK(lab(x, y) == lab.noData(), "nodata-label", "NoData cell (", x, ",", y, ") has label ", lab(x, y));
        continue;
      }
      PBT_CHECK(lab(x, y) != lab.noData() && lab(x, y) > 0, "unlabelled", "data cell (", x, ",", y, ") has label ", lab(x, y));
      by[lab(x, y)].push_back(y * z.w + x);
    }
  for (auto &kv : by) {
    // some outlet of the watershed must be reached from all of it without rising on the filled surface
    bool ok = false;
    int outlets = 0;
    std::set<int> mine(kv.second.begin(), kv.second.end());
    for (int o : kv.second) {
      int ox = o % z.w, oy = o / z.w;
      bool outlet = z.edge(ox, oy);
      for (int n = 1; n <= nb.n && !outlet; n++)
        if (z.in(ox + nb.dx[n], oy + nb.dy[n]) && z.isnd(ox + nb.dx[n], oy + nb.dy[n])) outlet = true;
      if (!outlet) continue;
      outlets++;
      std::set<int> seen{o};
      std::vector<int> st{o};
      while (!st.empty()) {
        int i = st.back();
        st.pop_back();
        for (int n = 1; n <= nb.n; n++) {
          int x = i % z.w + nb.dx[n], y = i / z.w + nb.dy[n];
          if (!z.in(x, y)) continue;
          int j = y * z.w + x;
          if (mine.count(j) && !seen.count(j) && want.v[j] >= want.v[i]) {
            seen.insert(j);
            st.push_back(j);
          }
        }
      }
      if (seen.size() == mine.size()) ok = true;
    }
    PBT_CHECK(ok, "not-one-outlet", "the ", kv.second.size(), " cells labelled ", kv.first, " do not all drain to one of their outlets\n", show(lab));
    PBT_CHECK(outlets == 1, "two-outlets", "label ", kv.first, " covers ", outlets, " outlets (border cells or cells beside NoData)\n", show(lab));
  }
}
static void watersheds(pbt::Source &s) {
  bool d8 = !s.coin(1, 3);
  auto z = dem<T>(s);
  s.note("topology ", d8 ? "D8" : "D4");
  s.note(show(z));
  s.label(d8 ? "D8" : "D4");
  if (d8) watershed_body<Topology::D8>(s, z);
  else watershed_body<Topology::D4>(s, z);
}
#define STR2(x) #x
#define STR(x) STR2(x)
PBT_PROP("flowdirs_" STR(TY), QN, QN * 20, flowdirs);
PBT_PROP("watersheds_" STR(TY), QN, QN * 20, watersheds);
