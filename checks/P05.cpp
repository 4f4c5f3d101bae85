// P05: breaching
#include <richdem/depressions/depressions.hpp>
#include "gen.hpp"
#include "ref_fill.hpp"
using namespace richdem;
using namespace gen;

static pbt::RuleRegistrar rr("cases: rasters as in P01, NoData anywhere (interior holes too), every mode and limit; non-trivial: the raster has at least one depression",
                             {"NoData lower than every data value (documented precondition)", "no NaN or infinite elevation",
                              "selective and constrained breaching use D8 (the only connectivity offered); their limits are exercised with element ranges whose differences are representable"});
using T = TY;
static constexpr bool FLT = std::is_floating_point<T>::value;

namespace {
struct Info {
  bool outlet;
  bool strict_min;
  T low;
};
}  // namespace
static Info info(const Grid<T> &z, const Nbr &nb, int x, int y) {
  Info r{z.edge(x, y), true, std::numeric_limits<T>::max()};
  for (int n = 1; n <= nb.n; n++) {
    int nx = x + nb.dx[n], ny = y + nb.dy[n];
    if (!z.in(nx, ny)) continue;
    if (z.isnd(nx, ny)) {
      r.outlet = true;
      continue;
    }
    r.low = std::min(r.low, z(nx, ny));
  }
  r.strict_min = z(x, y) < r.low;
  return r;
}

// what holds of every mode
static void common(const char *name, const Grid<T> &z, const Array2D<T> &a) {
  PBT_CHECK(a.width() == z.w && a.height() == z.h && a.noData() == z.nd, "dims", name, ": dimensions or NoData value changed");
  for (int y = 0; y < z.h; y++)
    for (int x = 0; x < z.w; x++) {
      if (z.isnd(x, y)) PBT_CHECK(a(x, y) == z.nd, "nodata-changed", name, ": NoData cell (", x, ",", y, ") became ", +a(x, y));
      else PBT_CHECK(a(x, y) != z.nd, "became-nodata", name, ": data cell (", x, ",", y, ") became NoData");
    }
}
static void drained(const char *name, bool d8, const Array2D<T> &a) {
  auto g = from_array(a);
  auto f = ref::fill(g, d8);
  for (int y = 0; y < g.h; y++)
    for (int x = 0; x < g.w; x++)
      PBT_CHECK(f(x, y) == g(x, y), "depression-left", name, d8 ? " D8" : " D4", ": cell (", x, ",", y, ") = ", +g(x, y), " still lies in a depression (it spills at ", +f(x, y), ")\n", show(a));
}
static void strictly_drained(const char *name, bool d8, const Array2D<T> &a) {
  auto g = from_array(a);
  auto nb = nbr(d8);
  for (int y = 0; y < g.h; y++)
    for (int x = 0; x < g.w; x++) {
      if (g.isnd(x, y) || g.edge(x, y)) continue;
      bool ok = false;
      for (int n = 1; n <= nb.n; n++) {
        int nx = x + nb.dx[n], ny = y + nb.dy[n];
        if (g.isnd(nx, ny) || g(nx, ny) < g(x, y)) ok = true;
      }
      PBT_CHECK(ok, "no-gradient", name, ": cell (", x, ",", y, ") = ", +g(x, y), " has no lower neighbour although epsilon gradients were asked for\n", show(a));
    }
}
// what holds when nothing is filled: only strict local minima rise, and only to (just below) their lowest neighbour;
// what is lowered is lowered to the level of a pit
static void carve_only(const char *name, bool d8, bool eps, const Grid<T> &z, const Array2D<T> &a) {
  auto nb = nbr(d8);
  for (int y = 0; y < z.h; y++)
    for (int x = 0; x < z.w; x++) {
      if (z.isnd(x, y)) continue;
      auto i = info(z, nb, x, y);
      T cap = (!i.outlet && i.strict_min) ? i.low : z(x, y);
      PBT_CHECK(a(x, y) <= cap, "raised", name, ": cell (", x, ",", y, ") rose from ", +z(x, y), " to ", +a(x, y), " (its lowest neighbour is ", +i.low, ")\n", show(a));
    }
  if (eps) return;
  std::vector<char> seen(z.size(), 0);
  for (int i0 = 0; i0 < (int)z.size(); i0++) {
    T v = a(i0 % z.w, i0 / z.w);
    if (seen[i0] || v == z.nd) continue;
    bool lowered = false, anchor = false;
    std::vector<int> st{i0};
    seen[i0] = 1;
    int lowi = -1;
    while (!st.empty()) {
      int i = st.back();
      st.pop_back();
      if (v < z.v[i]) lowered = true, lowi = i;
      else anchor = true;
      for (int n = 1; n <= nb.n; n++) {
        int x = i % z.w + nb.dx[n], y = i / z.w + nb.dy[n];
        if (!z.in(x, y) || seen[y * z.w + x] || a(x, y) != v) continue;
        seen[y * z.w + x] = 1;
        st.push_back(y * z.w + x);
      }
    }
    PBT_CHECK(!lowered || anchor, "dug-below-the-pit", name, ": cell (", lowi % z.w, ",", lowi / z.w, ") was lowered to ", +v, ", which is the level of no pit it is connected to\n", show(a));
  }
}

template <Topology topo>
static void complete_body(pbt::Source &s, const Grid<T> &z, int which) {
  const bool d8 = topo == Topology::D8;
  auto a = to_array(z);
  const char *name = which == 0 ? "CompleteBreaching_Lindsay2016" : "BreachDepressions";
  if (which == 0) CompleteBreaching_Lindsay2016<topo>(a);
  else BreachDepressions<topo>(a);
  common(name, z, a);
  drained(name, d8, a);
  carve_only(name, d8, false, z, a);
}

static Grid<T> make(pbt::Source &s, bool limit) {
  DemOpts o;
  o.nodata_edge_d4 = false;
  o.extremes = !limit;
  if (s.coin(1, 2)) o.max_dim = 20;
  return dem<T>(s, o);
}
static bool classify(pbt::Source &s, const Grid<T> &z, bool d8) {
  auto want = ref::fill(z, d8);
  size_t raised = 0;
  for (size_t i = 0; i < z.size(); i++) raised += want.v[i] != z.v[i];
  s.nontrivial(raised > 0);
  s.label(raised > 0, "has depressions");
  s.label(d8 ? "D8" : "D4");
  return raised > 0;
}
static void prop_complete(pbt::Source &s) {
  bool d8 = !s.coin(1, 3);
  int which = s.draw(2);
  auto z = make(s, false);
  s.note("topology ", d8 ? "D8" : "D4", " entry point ", which);
  s.note(show(z));
  classify(s, z, d8);
  if (d8) complete_body<Topology::D8>(s, z, which);
  else complete_body<Topology::D4>(s, z, which);
}

static void prop_modes(pbt::Source &s) {
  auto z = make(s, true);
  LindsayMode mode = s.pick({COMPLETE_BREACHING, SELECTIVE_BREACHING, CONSTRAINED_BREACHING});
  bool eps = FLT && s.coin();
  bool fill = s.coin();
  uint32_t len = s.pick<uint32_t>({0, 1, 2, 3, 5, 10, std::numeric_limits<uint32_t>::max()});
  T depth = s.pick<T>({T(0), T(1), T(3), T(10), T(100), std::numeric_limits<T>::max()});
  s.note("mode ", mode, " eps ", eps, " fill ", fill, " maxpathlen ", len, " maxdepth ", +depth);
  s.note(show(z));
  bool any = classify(s, z, true);
  s.label(mode == COMPLETE_BREACHING ? "complete" : mode == SELECTIVE_BREACHING ? "selective" : "constrained");
  auto a = to_array(z);
  Lindsay2016(a, mode, eps, fill, len, depth);
  const char *name = mode == COMPLETE_BREACHING ? "Lindsay2016 complete" : mode == SELECTIVE_BREACHING ? "Lindsay2016 selective" : "Lindsay2016 constrained";
  if (mode == CONSTRAINED_BREACHING) {
    // see the recorded finding: only what holds whatever is dug
    PBT_CHECK(a.width() == z.w && a.height() == z.h && a.noData() == z.nd, "dims", name, ": dimensions or NoData value changed");
    for (int y = 0; y < z.h; y++)
      for (int x = 0; x < z.w; x++)
        if (z.isnd(x, y)) PBT_CHECK(a(x, y) == z.nd, "nodata-changed", name, ": NoData cell (", x, ",", y, ") became ", +a(x, y));
    bool made_nd = false;
    for (int y = 0; y < z.h; y++)
      for (int x = 0; x < z.w; x++) made_nd |= !z.isnd(x, y) && a(x, y) == z.nd;
    if (fill && !made_nd) drained(name, true, a);
    return;
  }
  common(name, z, a);
  const bool unlimited = len == std::numeric_limits<uint32_t>::max() && depth == std::numeric_limits<T>::max();
  if (mode == COMPLETE_BREACHING) {
    drained(name, true, a);
    if (eps) strictly_drained(name, true, a);
    carve_only(name, true, eps, z, a);
  } else {
    if (fill) {
      drained(name, true, a);
      if (eps) strictly_drained(name, true, a);
    } else {
      carve_only(name, true, eps, z, a);
    }
    if (unlimited && !(eps && fill)) {
      auto b = to_array(z);
      Lindsay2016(b, COMPLETE_BREACHING, eps, fill, len, depth);
      for (int y = 0; y < z.h; y++)
        for (int x = 0; x < z.w; x++)
          PBT_CHECK(a(x, y) == b(x, y), "unlimited-differs", "selective breaching without limits gives ", +a(x, y), " at (", x, ",", y, "), complete breaching ", +b(x, y));
      s.label("unlimited");
    }
    if (len == 0 || !any) {
      // no path may be dug: what is left is a plain fill
      auto want = ref::fill(z, true);
      for (int y = 0; y < z.h; y++)
        for (int x = 0; x < z.w; x++) {
          PBT_CHECK(a(x, y) >= z(x, y) || len > 0, "dug-too-long", name, ": no breach is allowed, but cell (", x, ",", y, ") was lowered from ", +z(x, y), " to ", +a(x, y));
          if (fill && !eps && len == 0)
            PBT_CHECK(a(x, y) == want(x, y), "fill-differs", name, " with no breach allowed: cell (", x, ",", y, ") is ", +a(x, y), ", filled it is ", +want(x, y), "\n", show(a));
        }
      s.label(any && fill, "fill only");
    }
    if (depth == 0 && !eps)
      for (int y = 0; y < z.h; y++)
        for (int x = 0; x < z.w; x++) PBT_CHECK(a(x, y) >= z(x, y), "dug-too-deep", name, ": no depth is allowed, but cell (", x, ",", y, ") was lowered from ", +z(x, y), " to ", +a(x, y));
  }
}
#define STR2(x) #x
#define STR(x) STR2(x)
PBT_PROP("complete_" STR(TY), QN, QN * 20, prop_complete);
PBT_PROP("modes_" STR(TY), QN, QN * 20, prop_modes);
