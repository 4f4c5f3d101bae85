// P10: accumulation from flow directions (D8 and D-infinity)
#include <richdem/flowmet/d8_flowdirs.hpp>
#include <richdem/flowmet/dinf_flowdirs.hpp>
#include <richdem/methods/d8_methods.hpp>
#include <richdem/methods/dinf_methods.hpp>
#include "gen.hpp"
using namespace richdem;
using namespace gen;

static pbt::RuleRegistrar rr("cases: direction rasters of every shape: computed from elevations, and arbitrary acyclic ones (also cyclic for D8), NoData anywhere; non-trivial: some cell lies two or more steps downstream of another",
                             {"D-infinity directions are acyclic"});

// area(c) = 1 + sum of shares * area(upstream), for cells with no cycle upstream
struct Edge { int from, to; double share; };
static std::vector<double> areas(int N, const std::vector<char> &nd, const std::vector<Edge> &es, int &deep, std::vector<char> &cyc) {
  std::vector<std::vector<std::pair<int, double>>> out(N);
  std::vector<int> deg(N, 0), depth(N, 0);
  for (auto &e : es) out[e.from].push_back({e.to, e.share}), deg[e.to]++;
  std::vector<double> a(N, 0);
  std::vector<int> st;
  for (int i = 0; i < N; i++)
    if (!nd[i] && !deg[i]) st.push_back(i);
  cyc.assign(N, 1);
  deep = 0;
  while (!st.empty()) {
    int c = st.back();
    st.pop_back();
    cyc[c] = 0;
    a[c] += 1;
    if (depth[c] >= 2) deep++;
    for (auto &o : out[c]) {
      a[o.first] += o.second * a[c];
      depth[o.first] = std::max(depth[o.first], depth[c] + 1);
      if (!--deg[o.first]) st.push_back(o.first);
    }
  }
  return a;
}

template <class A>
static void d8(pbt::Source &s) {
  bool from_dem = s.coin(1, 3);
  Array2D<d8_flowdir_t> fd;
  int W, H;
  std::vector<char> nd;
  if (from_dem) {
    DemOpts o;
    o.nodata_edge_d4 = false;
    auto z = dem<float>(s, o);
    auto a = to_array(z);
    d8_flow_directions(a, fd);
    W = z.w, H = z.h;
  } else {
    dims(s, W, H, 1, 60);
    fd.resize(W, H, 0);
    fd.setNoData(FLOWDIR_NO_DATA);
    DemOpts o;
    o.nodata_edge_d4 = false;
    auto m = nodata_mask<int>(s, W, H, o);
    int style = s.draw(4);
    s.label(pbt::str("arbitrary directions, style ", style));
    for (int y = 0; y < H; y++)
      for (int x = 0; x < W; x++) {
        int d;
        if (style == 0) d = s.draw(9);                                               // anything, cycles too
        else if (style == 1) d = s.pick({3, 2, 4, 1, 0});                            // northwards or west: acyclic
        else if (style == 2) d = (y % 2 ? (x == 0 ? 7 : 1) : (x == W - 1 ? 7 : 5));  // one long chain
        else d = s.pick({5, 6, 7});                                                  // south-east
        fd(x, y) = m[y * W + x] ? FLOWDIR_NO_DATA : d;
      }
  }
  s.note(show(fd));
  const int N = W * H;
  nd.assign(N, 0);
  std::vector<Edge> es;
  for (int i = 0; i < N; i++) nd[i] = fd(i) == FLOWDIR_NO_DATA;
  for (int i = 0; i < N; i++) {
    if (nd[i] || fd(i) == 0) continue;
    int x = i % W + DX8[fd(i)], y = i / W + DY8[fd(i)];
    if (x < 0 || y < 0 || x >= W || y >= H || nd[y * W + x]) continue;
    es.push_back({i, y * W + x, 1});
  }
  int deep;
  std::vector<char> cyc;
  auto want = areas(N, nd, es, deep, cyc);
  s.nontrivial(deep > 0);
  Array2D<A> area;
  if (s.coin()) area.resize(s.range(1, 9), s.range(1, 9), 7);
  auto copy = fd;
  d8_flow_accum(fd, area);
  PBT_CHECK(area.width() == W && area.height() == H, "dims", "");
  PBT_CHECK(area.noData() == (A)-1, "nodata-value", area.noData());
  bool any_cyc = false;
  for (int i = 0; i < N; i++) {
    PBT_CHECK(copy(i) == fd(i), "altered", "");
    if (nd[i]) {
      PBT_CHECK(area(i) == (A)-1, "nodata-cell", "NoData cell ", i, " has area ", area(i));
      continue;
    }
    if (cyc[i]) {
      any_cyc = true;
      continue;
    }
    PBT_CHECK(area(i) == (A)want[i], "area", "(", i % W, ",", i / W, ") has area ", area(i), ", ", want[i], " cells drain through it\n", show(area));
  }
  s.label(any_cyc, "has a cycle");
}

static void dinf(pbt::Source &s) {
  Array2D<float> fd;
  int W, H;
  bool from_dem = s.coin(2, 3);
  const double Q = std::acos(-1.0) / 4;
  if (from_dem) {
    DemOpts o;
    o.nodata_edge_d4 = false;
    o.extremes = false;
    auto z = dem<float>(s, o);
    s.note(show(z));
    auto a = to_array(z);
    dinf_flow_directions(a, fd);
    W = z.w, H = z.h;
  } else {
    dims(s, W, H, 1, 30);
    fd.resize(W, H, 0);
    fd.setNoData(-1);
    DemOpts o;
    o.nodata_edge_d4 = false;
    auto m = nodata_mask<int>(s, W, H, o);
    // all flow has a northward part or goes due west/east along whole rows: acyclic
    bool west = s.coin();
    for (int i = 0; i < W * H; i++) {
      int k = s.draw(4);
      double a = k == 0 ? 0 : k == 1 ? Q * s.range(1, 3) : k == 2 ? s.real(1.02 * Q, 2.98 * Q) : (west ? 4 * Q : 8 * Q);
      fd(i) = m[i] ? -1.f : (float)a;
    }
  }
  s.note(show(fd));
  const int N = W * H;
  const int ex[9] = {1, 1, 0, -1, -1, -1, 0, 1, 1}, ey[9] = {0, -1, -1, -1, 0, 1, 1, 1, 0};
  std::vector<char> nd(N);
  for (int i = 0; i < N; i++) nd[i] = fd(i) == -1;
  std::vector<Edge> es;
  for (int i = 0; i < N; i++) {
    if (nd[i] || fd(i) == 0) continue;
    double q = fd(i) / Q;
    int lo = (int)std::floor(q + 1e-6);
    double f = std::max(0.0, q - lo);
    if (f < 2e-6) f = 0;
    for (int k = 0; k < 2; k++) {
      double share = k ? f : 1 - f;
      if (share == 0) continue;
      int j = (lo + k) % 8;
      int x = i % W + ex[j], y = i / W + ey[j];
      if (x < 0 || y < 0 || x >= W || y >= H || nd[y * W + x]) continue;
      es.push_back({i, y * W + x, share});
    }
  }
  int deep;
  std::vector<char> cyc;
  auto want = areas(N, nd, es, deep, cyc);
  s.nontrivial(deep > 0);
  Array2D<float> area;
  if (s.coin()) area.resize(s.range(1, 9), s.range(1, 9), 7);
  dinf_upslope_area(fd, area);
  PBT_CHECK(area.width() == W && area.height() == H, "dims", "");
  for (int i = 0; i < N; i++) {
    if (nd[i]) {
      PBT_CHECK(area(i) == -1, "nodata-cell", "NoData cell ", i, " has area ", area(i));
      continue;
    }
    PBT_CHECK(!cyc[i], "cycle", "D-infinity directions computed from elevations have a cycle at (", i % W, ",", i / W, ")");
    PBT_CHECK(std::abs(area(i) - want[i]) <= 1e-3 * (1 + want[i]), "area", "(", i % W, ",", i / W, ") has area ", area(i), ", ", want[i], " drain through it\n", show(area));
  }
}
PBT_PROP("d8_int32", 8000, 160000, d8<int32_t>);
PBT_PROP("d8_double", 6000, 120000, d8<double>);
PBT_PROP("dinf", 10000, 200000, dinf);
