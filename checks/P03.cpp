// P03: HasDepressions, pit_mask, size-limited filling
#include <richdem/depressions/depressions.hpp>
#include "gen.hpp"
#include "ref_fill.hpp"
using namespace richdem;
using namespace gen;

static pbt::RuleRegistrar rr("cases: rasters as in P01 with a size threshold; non-trivial: the raster has at least one depression",
                             {"NoData lower than every data value (documented precondition)", "NoData regions touch the raster's edge",
                              "depressions that touch only through a shared cell at their spill level may be counted together or apart"});
using T = TY;

template <Topology topo>
static void body(pbt::Source &s, const Grid<T> &z) {
  const bool d8 = topo == Topology::D8;
  const auto nb = nbr(d8);
  auto want = ref::fill(z, d8);
  size_t raised = 0;
  for (size_t i = 0; i < z.size(); i++) raised += want.v[i] != z.v[i];
  s.nontrivial(raised > 0);
  s.label(raised > 0, "has depressions");
  s.label(d8 ? "D8" : "D4");

  {
    auto a = to_array(z);
    bool has = HasDepressions<topo>(a);
    PBT_CHECK(has == (raised > 0), "has-depressions", "HasDepressions says ", has, ", filling raises ", raised, " cells");
    for (int y = 0; y < z.h; y++)
      for (int x = 0; x < z.w; x++) PBT_CHECK(a(x, y) == z(x, y), "has-depressions-altered", "HasDepressions altered cell (", x, ",", y, ")");
  }
  {
    auto a = to_array(z);
    Array2D<uint8_t> mask;
    if (s.coin()) mask.resize(s.range(1, 9), s.range(1, 9), 7);  // an output that already holds something
    pit_mask<topo>(a, mask);
    PBT_CHECK(mask.width() == z.w && mask.height() == z.h, "mask-dims", "the mask is ", mask.width(), "x", mask.height());
    for (int y = 0; y < z.h; y++)
      for (int x = 0; x < z.w; x++) {
        int w = z.isnd(x, y) ? mask.noData() : want(x, y) > z(x, y) ? 1 : 0;
        PBT_CHECK(mask(x, y) == w, "pit-mask", "mask(", x, ",", y, ") is ", +mask(x, y), ", expected ", w, "\n", show(mask));
      }
    PBT_CHECK(mask.noData() == 3, "pit-mask-nodata", "the mask's NoData is ", +mask.noData());
  }
  {  // connected components of raised cells = depressions
    std::vector<int> comp(z.size(), -1);
    std::vector<std::vector<int>> cells;
    for (int i0 = 0; i0 < (int)z.size(); i0++) {
      if (comp[i0] >= 0 || want.v[i0] == z.v[i0]) continue;
      int id = cells.size();
      cells.emplace_back();
      std::vector<int> st{i0};
      comp[i0] = id;
      while (!st.empty()) {
        int i = st.back();
        st.pop_back();
        cells[id].push_back(i);
        for (int n = 1; n <= nb.n; n++) {
          int x = i % z.w + nb.dx[n], y = i / z.w + nb.dy[n];
          if (!z.in(x, y)) continue;
          int j = y * z.w + x;
          if (comp[j] < 0 && want.v[j] != z.v[j]) {
            comp[j] = id;
            st.push_back(j);
          }
        }
      }
    }
    // groups that share a neighbouring cell lying at their spill level (transitively)
    std::vector<int> grp(cells.size());
    for (size_t i = 0; i < grp.size(); i++) grp[i] = i;
    std::function<int(int)> find = [&](int a) { return grp[a] == a ? a : grp[a] = find(grp[a]); };
    for (int i = 0; i < (int)z.size(); i++) {
      if (z.isnd(i % z.w, i / z.w) || comp[i] >= 0) continue;
      int first = -1;
      for (int n = 1; n <= nb.n; n++) {
        int x = i % z.w + nb.dx[n], y = i / z.w + nb.dy[n];
        if (!z.in(x, y)) continue;
        int j = y * z.w + x;
        if (comp[j] >= 0 && want.v[j] == z.v[i]) {
          if (first < 0) first = comp[j];
          else grp[find(first)] = find(comp[j]);
        }
      }
    }
    std::vector<size_t> gsz(cells.size(), 0);
    for (size_t i = 0; i < cells.size(); i++) gsz[find(i)] += cells[i].size();
    uint64_t maxsz = s.pick<uint64_t>({1, 0, 2, 3, 5, 10, 50, 1000000});
    if (!cells.empty() && s.coin()) {
      auto &c = cells[s.draw(cells.size())];
      maxsz = c.size() - s.draw(2);
    }
    s.note("max_dep_size ", maxsz);
    auto a = to_array(z);
    PriorityFlood_Barnes2014_max_dep<topo>(a, maxsz);
    size_t nf = 0, nu = 0;
    for (size_t k = 0; k < cells.size(); k++) {
      bool must = gsz[find(k)] <= maxsz, mustnot = cells[k].size() > maxsz;
      size_t filled = 0, same = 0;
      for (int i : cells[k]) {
        T v = a(i % z.w, i / z.w);
        filled += v == want.v[i];
        same += v == z.v[i];
      }
      PBT_CHECK(filled == cells[k].size() || same == cells[k].size(), "partly-filled", "a depression of ", cells[k].size(), " cells, one of them (", cells[k][0] % z.w, ",", cells[k][0] / z.w,
                "), was neither filled nor left alone\n", show(a));
      PBT_CHECK(!must || filled == cells[k].size(), "small-not-filled", "a depression of ", cells[k].size(), " cells was not filled\n", show(a));
      PBT_CHECK(!mustnot || same == cells[k].size(), "large-filled", "a depression of ", cells[k].size(), " cells was filled\n", show(a));
      nf += must;
      nu += mustnot;
    }
    s.label(nf > 0 && nu > 0, "both small and large depressions");
    for (int i = 0; i < (int)z.size(); i++)
      if (comp[i] < 0) PBT_CHECK(a(i % z.w, i / z.w) == z.v[i], "other-changed", "cell (", i % z.w, ",", i / z.w, "), in no depression, changed to ", +a(i % z.w, i / z.w));
  }
}
static void prop(pbt::Source &s) {
  bool d8 = !s.coin(1, 3);
  auto z = dem<T>(s);
  s.note("topology ", d8 ? "D8" : "D4");
  s.note(show(z));
  if (d8) body<Topology::D8>(s, z);
  else body<Topology::D4>(s, z);
}
#define STR2(x) #x
#define STR(x) STR2(x)
PBT_PROP("detect_" STR(TY), QN, QN * 20, prop);
