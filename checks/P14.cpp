// P14: Fill-Spill-Merge
#include <richdem/depressions/fill_spill_merge.hpp>
#include <set>
#include "gen.hpp"
using namespace richdem;
using namespace richdem::dephier;
using namespace gen;
using T = TY;

static pbt::RuleRegistrar rr("cases: rasters of every style with oceans along the edges, on one side, as blocks or single cells, and water tables that are uniform, scattered, concentrated, scarce or plentiful, with and without unsaturated cells; non-trivial: standing water is left in at least one depression",
                             {"D8 hierarchies (FillSpillMerge routes in D8)", "elevations below 1e5; levels are compared to within 2e-5, as the library compares volumes to within 1e-6",
                              "no unsaturated cells inside a merged depression that holds water (known finding K14-unsaturated)"});

#define CK(cond, tag, ...) PBT_CHECK(cond, tag, __VA_ARGS__, "\n", dump())
static void fsm(pbt::Source &s) {
  DemOpts o;
  o.nodata = false;
  o.max_dim = 26;
  o.extremes = false;
  o.step = s.pick({1.0, 0.25, 0.1});
  auto z = dem<T>(s, o);
  const int N = z.size();
  std::vector<char> oc(N, 0);
  switch (s.weighted({55, 15, 15, 15})) {
    case 0:
      for (int i = 0; i < N; i++) oc[i] = z.edge(i % z.w, i / z.w);
      break;
    case 1:
      for (int i = 0; i < N; i++) oc[i] = s.coin(1, 12);
      break;
    case 2: oc[s.draw(N)] = 1; break;
    default: {
      int k = s.draw(4);
      for (int i = 0; i < N; i++) {
        int x = i % z.w, y = i / z.w;
        oc[i] = k == 0 ? x == 0 : k == 1 ? y == 0 : k == 2 ? x == z.w - 1 : y == z.h - 1;
      }
    }
  }
  if (s.coin(1, 4)) {
    T lo = *std::min_element(z.v.begin(), z.v.end());
    for (int i = 0; i < N; i++)
      if (oc[i]) z.v[i] = lo;
  }
  bool usable = false;
  for (int i = 0; i < N; i++)
    if (oc[i])
      for (int n = 1; n <= 8; n++) {
        int x = i % z.w + DX8[n], y = i / z.w + DY8[n];
        if (z.in(x, y) && !oc[y * z.w + x]) usable = true;
      }
  if (!usable) return;
  auto a = to_array(z);
  Array2D<dh_label_t> label(z.w, z.h, NO_DEP);
  Array2D<flowdir_t> fd(z.w, z.h, NO_FLOW);
  for (int i = 0; i < N; i++)
    if (oc[i]) label(i) = OCEAN;
  auto deps = GetDepressionHierarchy<T, Topology::D8>(a, label, fd);
  const auto label0 = from_array(label);
  const auto fd0 = from_array(fd);
  const auto deps0 = deps;
  const int D = deps.size();
  // water
  Array2D<double> wtd(z.w, z.h, 0.);
  bool dry = s.coin(1, 3);
  s.label(dry ? "unsaturated cells" : "saturated");
  double unit = s.pick({1.0, 0.25, 0.3, 10.0, 100.0});
  int wmode = s.weighted({25, 35, 25, 15});
  // amounts that doubles add up without rounding
  const bool exact = unit != 0.3 && wmode != 3 && (!std::is_floating_point<T>::value || o.step != 0.1);
  switch (wmode) {
    case 0: wtd.setAll(unit); break;
    case 1:
      for (int i = 0; i < N; i++) wtd(i) = unit * s.draw(5);
      break;
    case 2: {
      int k = s.range(1, 4);
      for (int i = 0; i < k; i++) wtd((unsigned)s.draw(N)) = unit * s.range(1, 40);
      break;
    }
    default:
      for (int i = 0; i < N; i++) wtd(i) = s.coin(1, 4) ? unit * s.unit() : 0;
  }
  if (dry) {
    double du = s.pick({1.0, 0.5, 20.0});
    int den = s.pick({2, 4, 10});
    for (int i = 0; i < N; i++)
      if (s.coin(1, den)) wtd(i) = -du * s.range(1, 3);
  }
  s.note("elevations ", show(z));
  s.note("labels ", show(label0));
  bool meta = false;
  for (auto &d : deps)
    if (d.lchild != NO_VALUE) meta = true;
  s.label(meta ? "merging" : "single depressions");
  bool reuse = s.coin(1, 4);  // a hierarchy that was used before
  if (reuse)
    for (auto &d : deps) d.water_vol = s.draw(100);

  // reference: routing
  std::vector<double> w1, wv(D, 0.);
  std::vector<int> dist(N, -1), next(N, -1), order(N);
  for (int i = 0; i < N; i++) {
    int c = i, k = 0;
    for (; fd0.v[c] != NO_FLOW; k++) c += DX8[fd0.v[c]] + z.w * DY8[fd0.v[c]];
    dist[i] = k;
    order[i] = i;
    if (k) next[i] = i + DX8[fd0.v[i]] + z.w * DY8[fd0.v[i]];
  }
  std::stable_sort(order.begin(), order.end(), [&](int p, int q) { return dist[p] > dist[q]; });
  std::vector<char> active(D, 0);
  Grid<double> w0;
  bool tie = false;
  auto reference = [&] {
  tie = false;
  w0 = from_array(wtd);
  w1 = w0.v;
  wv.assign(D, 0);
  std::vector<std::pair<dh_label_t, double>> arrivals;
  for (int c : order)
    if (w1[c] > 0) {
      if (next[c] >= 0) w1[next[c]] += w1[c];
      else arrivals.emplace_back(label0.v[c], w1[c]);
      w1[c] = 0;
    }
  // reference: overflow, depression by depression, a drop at a time
  active.assign(D, 0);
  for (int d = 1; d < D; d++) active[d] = deps0[d].lchild == NO_VALUE;
  for (auto &ar : arrivals) {
    dh_label_t cur = ar.first;
    double amt = ar.second;
    for (long k = 0;; k++) {
      if (k > 1000000) pbt::fail("reference", "the reference does not terminate");
      if (cur == OCEAN) {
        wv[OCEAN] += amt;
        break;
      }
      auto &q = deps0[cur];
      double cap = q.dep_vol - wv[cur];
      if (!exact && std::abs(amt - cap) < 1e-5) tie = true;
      if (cap > 0) {
        if (amt < cap) {
          wv[cur] += amt;
          break;
        }
        wv[cur] = q.dep_vol;
        amt -= cap;
      }
      if (q.ocean_parent) cur = q.geolink;
      else if (!active[q.odep] || wv[q.odep] < deps0[q.odep].dep_vol) cur = q.geolink;
      else {
        cur = q.parent;
        if (!active[cur]) {
          active[cur] = 1;
          wv[cur] = deps0[deps0[cur].lchild].dep_vol + deps0[deps0[cur].rchild].dep_vol;
        }
      }
    }
  }
  };
  std::vector<std::vector<char>> in(D);
  std::set<int> outs;
  for (int d = 1; d < D; d++) {
    in[d].assign(D, 0);
    in[d][d] = 1;
    if (deps0[d].lchild != NO_VALUE)
      for (auto c : {deps0[d].lchild, deps0[d].rchild})
        for (int e = 0; e < D; e++) in[d][e] |= in[c][e];
    outs.insert(deps0[d].out_cell);
  }
  // K14-unsaturated: unsaturated cells inside a merged depression that holds water are a known finding; saturate them
  for (bool again = true; again;) {
    reference();
    again = false;
    for (int d = 1; d < D; d++) {
      auto &q = deps0[d];
      if (!active[d] || q.lchild == NO_VALUE) continue;
      for (int i = 0; i < N; i++)
        if (wtd(i) < 0 && ((label0.v[i] != OCEAN && in[d][label0.v[i]]) || i == (int)q.out_cell)) wtd(i) = 0, again = true;
    }
  }
  s.note("water ", show(w0));
  s.label(tie ? "full to within rounding" : exact ? "exact amounts" : "rounded amounts");
  if (tie && dry) return;  // whether two depressions merged hangs on rounding, and K14-unsaturated hangs on that
  double before = 0, mag = 0;
  for (double x : w0.v) before += x, mag += std::abs(x);

  FillSpillMerge<T, double>(a, label, fd, deps, wtd);

  s.nontrivial([&] {
    for (int i = 0; i < N; i++)
      if (wtd(i) > 1e-6) return true;
    return false;
  }());
  const double tol = 2e-5;
  auto dump = [&] {
    std::ostringstream o;
    for (int d = 0; d < D; d++) o << d << ": vol " << deps0[d].dep_vol << " water " << deps[d].water_vol << " reference " << wv[d] << " out " << +deps0[d].out_elev << "\n";
    return o.str() + show(from_array(wtd));
  };
  for (int i = 0; i < N; i++) {
    PBT_CHECK(a(i) == z.v[i] && label(i) == label0.v[i] && fd(i) == fd0.v[i], "inputs-altered", "cell ", i);
    CK(!(wtd(i) != wtd(i)), "nan", "cell ", i);
    CK(wtd(i) >= w1[i] - tol, "water-taken", "cell ", i, " has ", wtd(i), " but had ", w1[i]);
    if (oc[i] || label0.v[i] == OCEAN) CK(wtd(i) <= tol, "ocean-water", "ocean cell ", i, " has standing water");
  }
  for (int d = 0; d < D; d++)
    CK(deps[d].parent == deps0[d].parent && deps[d].lchild == deps0[d].lchild && (d == 0 || deps[d].dep_vol == deps0[d].dep_vol), "hierarchy-altered", "depression ", d);
  double after = deps[OCEAN].water_vol;
  for (int i = 0; i < N; i++) after += wtd(i);
  CK(std::abs(after - before) <= tol * (1 + D) + 1e-9 * mag, "mass", "water before ", before, " after ", after);
  CK(std::abs(deps[OCEAN].water_vol - wv[OCEAN]) <= tol * (1 + D) + 1e-9 * mag, "ocean-volume", deps[OCEAN].water_vol, " reached the ocean rather than ", wv[OCEAN]);
  // standing water is level and does not lean on lower ground
  for (int i = 0; i < N; i++) {
    if (wtd(i) <= tol) continue;
    double L = (double)z.v[i] + wtd(i);
    for (int n = 1; n <= 8; n++) {
      int x = i % z.w + DX8[n], y = i / z.w + DY8[n];
      if (!z.in(x, y)) continue;
      int j = y * z.w + x;
      double S = (double)z.v[j] + std::max(0., wtd(j));
      CK(S >= L - tol, "not-level", "water at ", i, " stands at ", L, " but its neighbour ", j, " at ", S);
    }
  }
  // volumes and levels of every depression that holds its water by itself
  for (int d = 1; d < D && !tie; d++) {
    auto &q = deps0[d];
    if (!active[d] || (!q.ocean_parent && active[q.parent])) continue;
    std::vector<int> cells;
    bool unsat = false;
    double slack = 0, got = 0;
    for (int i = 0; i < N; i++)
      if (label0.v[i] != OCEAN && in[d][label0.v[i]]) {
        if (outs.count(i)) slack += -w1[i];
        else got += wtd(i) - w1[i];
        if (outs.count(i)) got += std::max(0., wtd(i));
        if (z.v[i] <= q.out_elev) {
          cells.push_back(i);
          if (w1[i] < 0) unsat = true;
        } else CK(std::abs(wtd(i) - w1[i]) <= tol || outs.count(i), "above-outlet", "cell ", i, " is above the outlet of depression ", d, " but got water");
      }
    if (!in[d][label0.v[q.out_cell]]) slack += -w1[q.out_cell];
    CK(got <= wv[d] + slack + tol * (1 + D) && got >= wv[d] - slack - tol * (1 + D), "dep-volume", "depression ", d, " holds ", got, " rather than ", wv[d]);
    std::sort(cells.begin(), cells.end(), [&](int p, int r) { return z.v[p] < z.v[r]; });
    // level: fill cells in order of elevation, saturating each as the water reaches it
    double V = wv[d], sum = 0, L = q.out_elev;
    size_t n = 0;
    for (; n < cells.size(); n++) {
      double e = z.v[cells[n]];
      double vol = n * e - sum;
      if (V <= vol) break;
      if (V <= vol - w1[cells[n]]) {
        V = vol;
        break;
      }
      V += w1[cells[n]];
      sum += e;
    }
    if (n) L = (V + sum) / n;
    else L = z.v[cells[0]];
    if (L > (double)q.out_elev) L = q.out_elev;
    if (wv[d] == 0) L = z.v[cells[0]];
    for (int c : cells) {
      double e = z.v[c];
      if (outs.count(c) && w1[c] < 0) continue;
      if (e < L - tol) CK(std::abs(wtd(c) - (L - e)) <= tol, "level", "cell ", c, " in depression ", d, " should be under water to the level ", L, " but has ", wtd(c));
      else if (e > L + tol) CK(std::abs(wtd(c) - w1[c]) <= tol, "level", "cell ", c, " in depression ", d, " is above the level ", L, " but its water table went from ", w1[c], " to ", wtd(c));
      else CK(wtd(c) <= tol, "level", "cell ", c, " in depression ", d, " at the level ", L, " has ", wtd(c));
    }
  }
  // running again leaves the water where it is
  if (!dry) {
    s.label("rerun");
    auto w2 = wtd;
    FillSpillMerge<T, double>(a, label, fd, deps, w2);
    for (int i = 0; i < N; i++) CK(std::abs(w2(i) - wtd(i)) <= tol, "rerun", "cell ", i, " went from ", wtd(i), " to ", w2(i), " when run again");
  }
}
#define STR2(x) #x
#define STR(x) STR2(x)
PBT_PROP("fill_spill_merge_" STR(TY), QN, QN * 20, fsm);
