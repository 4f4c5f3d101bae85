// P09: flow accumulation: every cell's own flow plus all flow from upstream
#include <richdem/methods/flow_accumulation.hpp>
#include <richdem/common/random.hpp>
#include "gen.hpp"
using namespace richdem;
using namespace gen;

static pbt::RuleRegistrar rr("cases: (a) elevation rasters of eight styles run through every FA_ entry point, (b) arbitrary acyclic proportion rasters; cell weights constant, random, zero or fractional; NoData anywhere; non-trivial: some cell receives flow that itself received flow",
                             {"no cell on the raster's border passes flow on (true of every flow metric)"});

static const char *MN[] = {"FA_D8", "FA_OCallaghanD8", "FA_D4", "FA_OCallaghanD4", "FA_Rho8", "FA_FairfieldLeymarieD8", "FA_Rho4", "FA_FairfieldLeymarieD4", "FA_Quinn", "FA_Freeman", "FA_Holmgren", "FA_Tarboton", "FA_Dinfinity"};

// Order-independent reference: repeatedly forwards what arrived (Kahn order over a list of edges)
struct Ref {
  std::vector<double> acc;
  int second = 0;  // cells that receive flow that itself received flow
  std::vector<double> out;
};
static Ref reference(const Array3D<float> &p, const std::vector<double> &w0) {
  const int W = p.width(), H = p.height(), N = W * H;
  Ref r;
  r.acc = w0;
  r.out.assign(N, 0);
  std::vector<std::vector<std::pair<int, double>>> in(N);
  std::vector<int> depth(N, -1);
  for (int y = 0; y < H; y++)
    for (int x = 0; x < W; x++) {
      if (p(x, y, 0) == NO_DATA_GEN) continue;
      for (int n = 1; n <= 8; n++)
        if (p(x, y, n) > 0) {
          int nx = x + DX8[n], ny = y + DY8[n];
          if (nx < 0 || ny < 0 || nx >= W || ny >= H || p(nx, ny, 0) == NO_DATA_GEN) continue;
          in[ny * W + nx].push_back({y * W + x, p(x, y, n)});
          r.out[y * W + x] += p(x, y, n);
        }
    }
  // explicit stack evaluation of acc(c) = w(c) + sum share * acc(up)
  std::vector<char> st(N, 0);
  for (int i = 0; i < N; i++) {
    if (st[i]) continue;
    std::vector<std::pair<int, size_t>> stack{{i, 0}};
    st[i] = 1;
    while (!stack.empty()) {
      auto &top = stack.back();
      int c = top.first;
      if (top.second < in[c].size()) {
        int u = in[c][top.second++].first;
        if (!st[u]) st[u] = 1, stack.push_back({u, 0});
      } else {
        int d = 0;
        for (auto &e : in[c]) r.acc[c] += e.second * r.acc[e.first], d = std::max(d, depth[e.first] + 1);
        depth[c] = d;
        if (d >= 2) r.second++;
        stack.pop_back();
      }
    }
  }
  return r;
}

template <class A>
static void compare(const Array3D<float> &p, const std::vector<double> &w, const Array2D<A> &acc, const Ref &r, const char *who) {
  const int W = p.width(), H = p.height(), N = W * H;
  PBT_CHECK(acc.noData() == ACCUM_NO_DATA, "nodata-value", who, ": ", acc.noData());
  double tot = 0, leave = 0;
  const double tol = sizeof(A) == 4 ? 1e-3 : 1e-9;
  for (int i = 0; i < N; i++) {
    int x = i % W, y = i / W;
    if (p(x, y, 0) == NO_DATA_GEN) {
      PBT_CHECK(acc(x, y) == ACCUM_NO_DATA, "nodata-cell", who, ": NoData cell (", x, ",", y, ") has accumulation ", acc(x, y));
      continue;
    }
    PBT_CHECK(std::abs(acc(x, y) - r.acc[i]) <= tol * (1 + std::abs(r.acc[i])), "accumulation", who, ": (", x, ",", y, ") has ", acc(x, y), ", own flow plus upstream flow is ", r.acc[i], "\n", show(acc));
    tot += w[i];
    leave += acc(x, y) * (1 - r.out[i]);
  }
  PBT_CHECK(std::abs(tot - leave) <= (sizeof(A) == 4 ? 2e-3 : 1e-5) * (1 + tot), "not-conserved", who, ": ", tot, " generated, ", leave, " leaves");
}

static std::vector<double> weights(pbt::Source &s, int N) {
  std::vector<double> w(N);
  int k = s.draw(4);
  for (auto &v : w) v = k == 0 ? 1.0 : k == 1 ? s.range(0, 20) : k == 2 ? s.real(0, 2) : (s.coin(1, 10) ? 1.0 : 0.0);
  s.label(std::string("weights ") + (k == 0 ? "one" : k == 1 ? "integers" : k == 2 ? "fractions" : "sparse"));
  return w;
}

template <class T, class A>
static void fa(pbt::Source &s) {
  int m = s.draw(13);
  double ex = s.pick({1.0, 1.1, 2.0, 4.0});
  DemOpts o;
  o.nodata_edge_d4 = false;
  o.extremes = false;
  auto z = dem<T>(s, o);
  auto a = to_array(z);
  auto w = weights(s, z.size());
  s.note(MN[m], " exponent ", ex);
  s.note(show(z));
  s.label(MN[m]);
  int seed = s.range(1, 1 << 20);
  Array2D<A> acc(z.w, z.h);
  for (size_t i = 0; i < z.size(); i++) acc(i) = w[i];
  Array3D<float> p(a);
  seed_rand(seed);
  switch (m) {
    case 0: FM_D8(a, p); break;
    case 1: FM_OCallaghan<Topology::D8>(a, p); break;
    case 2: FM_D4(a, p); break;
    case 3: FM_OCallaghan<Topology::D4>(a, p); break;
    case 4: FM_Rho8(a, p); break;
    case 5: FM_FairfieldLeymarie<Topology::D8>(a, p); break;
    case 6: FM_Rho4(a, p); break;
    case 7: FM_FairfieldLeymarie<Topology::D4>(a, p); break;
    case 8: FM_Quinn(a, p); break;
    case 9: FM_Freeman(a, p, ex); break;
    case 10: FM_Holmgren(a, p, ex); break;
    default: FM_Tarboton(a, p);
  }
  seed_rand(seed);
  switch (m) {
    case 0: FA_D8(a, acc); break;
    case 1: FA_OCallaghanD8(a, acc); break;
    case 2: FA_D4(a, acc); break;
    case 3: FA_OCallaghanD4(a, acc); break;
    case 4: FA_Rho8(a, acc); break;
    case 5: FA_FairfieldLeymarieD8(a, acc); break;
    case 6: FA_Rho4(a, acc); break;
    case 7: FA_FairfieldLeymarieD4(a, acc); break;
    case 8: FA_Quinn(a, acc); break;
    case 9: FA_Freeman(a, acc, ex); break;
    case 10: FA_Holmgren(a, acc, ex); break;
    case 11: FA_Tarboton(a, acc); break;
    default: FA_Dinfinity(a, acc);
  }
  for (size_t i = 0; i < z.size(); i++) PBT_CHECK(a(i) == z.v[i], "altered", "elevations changed");
  auto r = reference(p, w);
  s.nontrivial(r.second > 0);
  compare(p, w, acc, r, MN[m]);
  // along a cell's whole flow the accumulation grows on convergent metrics
}

template <class A>
static void props(pbt::Source &s) {
  int W, H;
  dims(s, W, H, 1, 40);
  const int N = W * H;
  std::vector<int> rank(N);
  int style = s.draw(3);
  for (int i = 0; i < N; i++) rank[i] = style == 0 ? (int)s.draw(1000) : style == 1 ? i : (i / W) % 2 ? i / W * W + (W - 1 - i % W) : i;  // noise, raster order, boustrophedon (long chains)
  DemOpts o;
  o.nodata_edge_d4 = false;
  auto nd = nodata_mask<int>(s, W, H, o);
  Array3D<float> p(W, H, NO_FLOW_GEN);
  p.setNoData(NO_DATA_GEN);
  int maxout = s.range(1, 8);
  for (int y = 0; y < H; y++)
    for (int x = 0; x < W; x++) {
      int i = y * W + x;
      if (nd[i]) {
        p(x, y, 0) = NO_DATA_GEN;
        continue;
      }
      if (x == 0 || y == 0 || x == W - 1 || y == H - 1) continue;
      std::vector<int> c;
      for (int n = 1; n <= 8; n++) {
        int j = (y + DY8[n]) * W + x + DX8[n];
        if (rank[j] < rank[i] && s.coin(2, 3)) c.push_back(n);
      }
      if ((int)c.size() > maxout) c.resize(maxout);
      if (c.empty()) continue;
      p(x, y, 0) = HAS_FLOW_GEN;
      double left = 1;
      for (size_t k = 0; k < c.size(); k++) {
        double f = k + 1 == c.size() ? left : left * s.range(1, 9) / 10.0;
        p(x, y, c[k]) = f;
        left -= f;
      }
      if (s.coin())
        for (int n = 1; n <= 8; n++)
          if (!(p(x, y, n) > 0)) p(x, y, n) = 0;
    }
  auto w = weights(s, N);
  Array2D<A> acc(W, H);
  for (int i = 0; i < N; i++) acc(i) = w[i];
  auto r = reference(p, w);
  s.nontrivial(r.second > 0);
  FlowAccumulation(p, acc);
  compare(p, w, acc, r, "FlowAccumulation");
  Array2D<A> other(W + (s.coin() ? 1 : 0), H + 1);
  bool threw = false;
  try {
    FlowAccumulation(p, other);
  } catch (const std::exception &) {
    threw = true;
  }
  PBT_CHECK(threw, "size-mismatch-accepted", "");
}
#if PART == 0
PBT_PROP("fa_float", 16000, 320000, fa<float, double>);
#elif PART == 1
PBT_PROP("fa_int32", 10000, 200000, fa<int32_t, double>);
#elif PART == 2
PBT_PROP("fa_double_float", 8000, 160000, fa<double, float>);
#else
PBT_PROP("props_double", 8000, 160000, props<double>);
PBT_PROP("props_float", 4000, 80000, props<float>);
#endif
