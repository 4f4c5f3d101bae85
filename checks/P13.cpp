// P13: the depression hierarchy
#include <richdem/depressions/depression_hierarchy.hpp>
#include "gen.hpp"
using namespace richdem;
using namespace richdem::dephier;
using namespace gen;
using T = TY;

static pbt::RuleRegistrar rr("cases: rasters of every style and shape, ocean cells along the edges, on one side, as blocks, scattered or a single one, D8 and D4; non-trivial: at least one meta-depression (two depressions that merge) exists",
                             {"elevations below 1e6 in magnitude for floating point (volumes are doubles, compared by the library to within 1e-6)", "volumes are compared with a relative tolerance of 1e-9"});

static std::string show_deps(const DepressionHierarchy<T> &d, const Array2D<dh_label_t> &label) {
  std::ostringstream o;
  for (size_t i = 0; i < d.size(); i++) {
    o << i << ": pit " << d[i].pit_cell << "@" << +d[i].pit_elev << " out " << d[i].out_cell << "@" << +d[i].out_elev << " parent " << d[i].parent << " odep " << d[i].odep << " geolink "
      << d[i].geolink << " children " << d[i].lchild << "," << d[i].rchild << " ocean_parent " << d[i].ocean_parent << " cells " << d[i].cell_count << " vol " << d[i].dep_vol << " linked";
    for (auto l : d[i].ocean_linked) o << " " << l;
    o << "\n";
  }
  o << show(label);
  return o.str();
}

template <Topology topo>
static void run(pbt::Source &s) {
  constexpr bool d8 = topo == Topology::D8;
  auto nb = nbr(d8);
  DemOpts o;
  o.nodata = false;  // the hierarchy knows no NoData
  o.nodata_edge_d4 = false;
  o.max_dim = 30;
  auto z = dem<T>(s, o);
  const int N = z.size();
  std::vector<char> oc(N, 0);
  switch (s.weighted({40, 15, 15, 15, 15})) {
    case 0:
      for (int i = 0; i < N; i++) oc[i] = z.edge(i % z.w, i / z.w);
      break;
    case 1:
      for (int i = 0; i < N; i++) oc[i] = s.coin(1, 10);
      break;
    case 2: oc[s.draw(N)] = 1; break;
    case 3: {
      int k = s.draw(4);
      for (int i = 0; i < N; i++) {
        int x = i % z.w, y = i / z.w;
        oc[i] = k == 0 ? x == 0 : k == 1 ? y == 0 : k == 2 ? x == z.w - 1 : y == z.h - 1;
      }
      break;
    }
    default: {
      int x0 = s.draw(z.w), y0 = s.draw(z.h), bw = s.range(1, std::max(1, z.w / 2)), bh = s.range(1, std::max(1, z.h / 2));
      for (int i = 0; i < N; i++) {
        int x = i % z.w, y = i / z.w;
        oc[i] = x >= x0 && x < x0 + bw && y >= y0 && y < y0 + bh;
      }
    }
  }
  if (s.coin(1, 4)) {  // an ocean lower than everything
    T lo = *std::min_element(z.v.begin(), z.v.end());
    for (int i = 0; i < N; i++)
      if (oc[i]) z.v[i] = lo;
  }
  bool usable = false;
  for (int i = 0; i < N; i++)
    if (oc[i])
      for (int n = 1; n <= nb.n; n++) {
        int x = i % z.w + nb.dx[n], y = i / z.w + nb.dy[n];
        if (z.in(x, y) && !oc[y * z.w + x]) usable = true;
      }
  s.note(d8 ? "D8 " : "D4 ", show(z));
  {
    std::string m;
    for (int i = 0; i < N; i++) m += oc[i] ? 'O' : '.', m += (i + 1) % z.w ? "" : "\n";
    s.note("ocean cells:\n", m);
  }
  auto a = to_array(z);
  Array2D<dh_label_t> label(z.w, z.h, NO_DEP);
  Array2D<flowdir_t> fd(z.w, z.h, NO_FLOW);
  for (int i = 0; i < N; i++)
    if (oc[i]) label(i) = OCEAN;
  bool bad = s.coin(1, 40);
  if (bad) label((unsigned)s.draw(N)) = 1 + s.draw(50);
  if (!usable || bad) {
    s.label(bad ? "bad-label" : "no-ocean");
    bool threw = false;
    try {
      GetDepressionHierarchy<T, topo>(a, label, fd);
    } catch (const std::runtime_error &) {
      threw = true;
    }
    PBT_CHECK(threw, "no-error", "labels without a usable ocean, or with labels other than OCEAN and NO_DEP, were accepted");
    return;
  }
  auto deps = GetDepressionHierarchy<T, topo>(a, label, fd);
  for (int i = 0; i < N; i++) PBT_CHECK(a(i) == z.v[i], "altered", "elevation of cell ", i, " changed");
  const int D = deps.size();
  s.nontrivial([&] {
    for (auto &d : deps)
      if (d.lchild != NO_VALUE) return true;
    return false;
  }());
  auto dump = [&] { return show_deps(deps, label) + show(from_array(fd)); };
#define CK(cond, tag, ...) PBT_CHECK(cond, tag, __VA_ARGS__, "\n", dump())
  auto leaf = [&](dh_label_t d) { return d < (dh_label_t)D && d != OCEAN && deps[d].lchild == NO_VALUE && deps[d].rchild == NO_VALUE; };
  // (1) labels and directions
  for (int i = 0; i < N; i++) {
    if (oc[i]) {
      CK(label(i) == OCEAN, "ocean-label", "ocean cell ", i, " has label ", label(i));
      CK(fd(i) == NO_FLOW, "ocean-flow", "ocean cell ", i, " has a flow direction");
      continue;
    }
    CK(label(i) == OCEAN || leaf(label(i)), "label", "cell ", i, " has label ", label(i));
    int c = i;
    for (int k = 0;; k++) {
      CK(k <= N, "loop", "directions from cell ", i, " loop");
      int dir = fd(c);
      if (dir == NO_FLOW) break;
      CK(dir >= 1 && dir <= nb.n, "direction", "cell ", c, " has direction ", dir);
      int x = c % z.w + nb.dx[dir], y = c / z.w + nb.dy[dir];
      CK(z.in(x, y), "direction-out", "cell ", c, " flows off the raster");
      int n = y * z.w + x;
      CK(z.v[n] <= z.v[c], "climbs", "cell ", c, " flows up");
      CK(label(n) == label(c), "label-flow", "cell ", c, " flows into another depression");
      c = n;
    }
    if (label(i) == OCEAN) CK(oc[c], "not-ocean", "cell ", i, " is labelled OCEAN but its flow ends at ", c);
    else CK(c == (int)deps[label(i)].pit_cell, "not-pit", "flow from cell ", i, " ends at ", c, ", not at its depression's pit");
  }
  // (2) the tree
  CK(deps[0].lchild == NO_VALUE && deps[0].rchild == NO_VALUE && deps[0].parent == NO_PARENT, "ocean-dep", "the ocean has relatives");
  std::vector<int> linked(D, 0);
  for (int d = 0; d < D; d++)
    for (auto l : deps[d].ocean_linked) {
      CK(l > 0 && l < (dh_label_t)D && deps[l].ocean_parent && deps[l].parent == (dh_label_t)d, "ocean-linked", "depression ", d, " lists ", l);
      linked[l]++;
    }
  std::vector<std::vector<char>> in(D);  // the leaves of each depression
  for (int d = 1; d < D; d++) {
    auto &q = deps[d];
    CK(q.dep_label == (dh_label_t)d, "dep-label", "depression ", d, " calls itself ", q.dep_label);
    CK((q.lchild == NO_VALUE) == (q.rchild == NO_VALUE), "one-child", "depression ", d);
    in[d].assign(D, 0);
    in[d][d] = 1;
    if (q.lchild != NO_VALUE)
      for (auto c : {q.lchild, q.rchild}) {
        CK(c > 0 && c < (dh_label_t)d && deps[c].parent == (dh_label_t)d && !deps[c].ocean_parent, "child", "depression ", d, " and child ", c);
        CK(deps[c].odep == (c == q.lchild ? q.rchild : q.lchild), "odep", "depression ", c, " overflows into ", deps[c].odep, ", not its sibling");
        CK(deps[c].out_elev <= q.out_elev, "out-order", "depression ", d, " spills lower than its child ", c);
        for (int e = 0; e < D; e++) in[d][e] |= in[c][e];
      }
    CK(q.parent != NO_PARENT && q.parent < (dh_label_t)D, "no-parent", "depression ", d, " has no parent");
    CK(linked[d] == (q.ocean_parent ? 1 : 0), "ocean-linked", "depression ", d, " is listed ", linked[d], " times");
    if (q.ocean_parent) {
      CK(q.parent == q.geolink && (q.parent == OCEAN || leaf(q.parent)) && q.odep == NO_VALUE, "ocean-parent", "depression ", d);
    } else {
      CK(deps[q.parent].lchild == (dh_label_t)d || deps[q.parent].rchild == (dh_label_t)d, "parent", "depression ", d, " is not a child of its parent");
      CK(leaf(q.geolink), "geolink", "depression ", d, " geolink ", q.geolink);
    }
  }
  for (int d = 1; d < D; d++) {
    auto &q = deps[d];
    if (!q.ocean_parent) CK(in[q.odep][q.geolink], "geolink", "depression ", d, "'s geolink ", q.geolink, " is not in the sibling");
    dh_label_t p = d;  // every depression reaches the ocean
    for (int k = 0; p != OCEAN; k++) {
      CK(k <= 2 * D, "parent-loop", "parents of ", d, " loop");
      p = deps[p].parent;
    }
  }
  // (3) outlets, (4) volumes
  for (int d = 1; d < D; d++) {
    auto &q = deps[d];
    bool any = false, cell_ok = false, geo_ok = false;
    T best{};
    uint32_t cnt = 0;
    double tot = 0, vol = 0, mag = 0;
    for (int pass = 0; pass < 2; pass++)
      for (int i = 0; i < N; i++) {
        if (label(i) == OCEAN || !in[d][label(i)]) continue;
        if (pass == 1 && z.v[i] <= q.out_elev) {
          cnt++;
          tot += (double)z.v[i];
          vol += (double)q.out_elev - (double)z.v[i];
          mag += std::abs((double)z.v[i]) + std::abs((double)q.out_elev);
        }
        for (int n = 1; n <= nb.n; n++) {
          int x = i % z.w + nb.dx[n], y = i / z.w + nb.dy[n];
          if (!z.in(x, y)) continue;
          int j = y * z.w + x;
          if (label(j) != OCEAN && in[d][label(j)]) continue;
          T e = std::max(z.v[i], z.v[j]);
          if (pass == 0) {
            if (!any || e < best) best = e;
            any = true;
          } else if (e == best && (((int)q.out_cell == i && z.v[i] == e) || ((int)q.out_cell == j && z.v[j] == e))) {
            cell_ok = true;
            if (label(j) == q.geolink) geo_ok = true;
          }
        }
      }
    CK(any && q.out_elev == best, "out-elev", "depression ", d, " spills at ", +q.out_elev, " but its lowest way out is at ", +best);
    CK(cell_ok, "out-cell", "depression ", d, ": cell ", q.out_cell, " is not an outlet");
    CK(geo_ok, "out-geolink", "depression ", d, ": its outlet does not lead into ", q.geolink);
    CK(q.cell_count == cnt, "cell-count", "depression ", d, " counts ", q.cell_count, " cells rather than ", cnt);
    CK(std::abs(q.total_elevation - tot) <= 1e-9 * mag + 1e-300, "total-elevation", "depression ", d, " ", q.total_elevation, " rather than ", tot);
    CK(std::abs(q.dep_vol - vol) <= 1e-9 * mag + 1e-300, "volume", "depression ", d, " ", q.dep_vol, " rather than ", vol);
    CK(q.pit_cell < (dh_label_t)N && label(q.pit_cell) != OCEAN && in[d][label(q.pit_cell)], "pit", "depression ", d, "'s pit cell ", q.pit_cell);
    if (leaf(d)) {
      CK(q.pit_elev == z.v[q.pit_cell], "pit-elev", "depression ", d);
      for (int i = 0; i < N; i++)
        if (label(i) == (dh_label_t)d) CK(z.v[i] >= q.pit_elev, "pit-lowest", "depression ", d, " has a cell lower than its pit");
      for (int n = 1; n <= nb.n; n++) {
        int x = q.pit_cell % z.w + nb.dx[n], y = q.pit_cell / z.w + nb.dy[n];
        if (z.in(x, y)) CK(z(x, y) >= q.pit_elev, "pit-lower-neighbour", "depression ", d);
      }
    }
  }
  // each regional minimum (a plateau with no lower neighbour and no ocean cell) holds exactly one pit
  std::vector<int> comp(N, -1);
  for (int i = 0; i < N; i++) {
    if (comp[i] >= 0) continue;
    std::vector<int> q{i};
    comp[i] = i;
    bool minimum = true;
    int pits = 0;
    for (size_t k = 0; k < q.size(); k++) {
      int c = q[k];
      if (oc[c]) minimum = false;
      if (label(c) != OCEAN && (int)deps[label(c)].pit_cell == c) pits++;
      for (int n = 1; n <= nb.n; n++) {
        int x = c % z.w + nb.dx[n], y = c / z.w + nb.dy[n];
        if (!z.in(x, y)) continue;
        int j = y * z.w + x;
        if (z.v[j] < z.v[c]) minimum = false;
        if (z.v[j] == z.v[c] && comp[j] < 0) {
          comp[j] = i;
          q.push_back(j);
        }
      }
    }
    if (minimum) CK(pits == 1, "minimum", "the lowest plateau at cell ", i, " has ", pits, " pits");
  }
  // (5) the tops of the hierarchy are the filled surface
  std::vector<T> f(z.v);
  std::vector<char> set(oc.begin(), oc.end());
  for (bool ch = true; ch;) {
    ch = false;
    for (int i = 0; i < N; i++)
      for (int n = 1; n <= nb.n; n++) {
        if (oc[i]) break;
        int x = i % z.w + nb.dx[n], y = i / z.w + nb.dy[n];
        if (!z.in(x, y) || !set[y * z.w + x]) continue;
        T e = std::max(z.v[i], f[y * z.w + x]);
        if (!set[i] || e < f[i]) f[i] = e, set[i] = 1, ch = true;
      }
  }
  for (int i = 0; i < N; i++) {
    T want = z.v[i];
    if (label(i) != OCEAN) {
      dh_label_t p = label(i);
      while (!deps[p].ocean_parent) p = deps[p].parent;
      want = std::max(want, deps[p].out_elev);
    }
    CK(want == f[i], "filled", "cell ", i, " fills to ", +want, " by the hierarchy but to ", +f[i], " in fact");
  }
}
#define STR2(x) #x
#define STR(x) STR2(x)
static void d8(pbt::Source &s) { run<Topology::D8>(s); }
static void d4(pbt::Source &s) { run<Topology::D4>(s); }
PBT_PROP("hierarchy_d8_" STR(TY), QN, QN * 20, d8);
PBT_PROP("hierarchy_d4_" STR(TY), QN / 2, QN * 10, d4);
