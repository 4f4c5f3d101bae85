// P06: flats: detection, masks, labels, resolution by increments and by flow directions
#include <richdem/flats/flats.hpp>
#include <richdem/flats/flat_resolution.hpp>
#include "gen.hpp"
#include "ref_flats.hpp"
using namespace richdem;
using namespace gen;

static pbt::RuleRegistrar rr("cases: rasters of eight landscape styles (many of them with large flats), every shape from 1x1, NoData anywhere; non-trivial: at least one cell of a drainable flat that is not beside its outlet",
                             {"NoData lower than every data value (documented precondition), except for flat detection"});
using T = TY;

static void check_mask_labels(const Grid<T> &z, const RefFlats &r, const Array2D<int32_t> &mask, const Array2D<int32_t> &lab, const char *who) {
  PBT_CHECK(mask.width() == z.w && mask.height() == z.h && lab.width() == z.w && lab.height() == z.h, "dims", who);
  std::map<int, int> fwd, bwd;
  for (int y = 0; y < z.h; y++)
    for (int x = 0; x < z.w; x++) {
      int i = y * z.w + x;
      PBT_CHECK(mask(x, y) == r.mask[i], "mask", who, ": mask(", x, ",", y, ") is ", mask(x, y), ", expected ", r.mask[i], "\n", show(mask));
      PBT_CHECK((lab(x, y) != 0) == (r.comp[i] != 0), "label-extent", who, ": label(", x, ",", y, ") is ", lab(x, y), ", in a drainable flat: ", r.comp[i] != 0, "\n", show(lab));
      if (!r.comp[i]) continue;
      PBT_CHECK(lab(x, y) >= 1, "label-sign", who, ": label(", x, ",", y, ") is ", lab(x, y));
      auto a = fwd.emplace(lab(x, y), r.comp[i]), b = bwd.emplace(r.comp[i], lab(x, y));
      PBT_CHECK(a.first->second == r.comp[i] && b.first->second == lab(x, y), "labels-not-one-per-flat", who, ": label ", lab(x, y), " at (", x, ",", y, ")\n", show(lab));
    }
}

static Grid<T> draw_case(pbt::Source &s, RefFlats &r) {
  DemOpts o;
  o.nodata_edge_d4 = false;
  o.extremes = false;
  auto z = dem<T>(s, o);
  s.note(show(z));
  r = flats_reference(z);
  s.nontrivial(r.deep > 0);
  s.label(r.deep > 0, "a drainable flat");
  s.label(r.undrainable > 0, "an undrainable flat");
  return z;
}

static void detect(pbt::Source &s) {
  RefFlats r;
  auto z = draw_case(s, r);
  auto a = to_array(z);
  Array2D<int8_t> f;
  if (s.coin()) f.resize(s.range(1, 9), s.range(1, 9), 1);
  FindFlats(a, f);
  PBT_CHECK(f.width() == z.w && f.height() == z.h, "dims", "");
  for (int y = 0; y < z.h; y++)
    for (int x = 0; x < z.w; x++) PBT_CHECK(f(x, y) == r.flat[y * z.w + x], "flat-indicator", "(", x, ",", y, ") is ", +f(x, y), ", expected ", +r.flat[y * z.w + x]);
  {  // the indicator knows NoData by its value alone: that may be any value, not only a low one
    auto z2 = z;
    T hi = std::numeric_limits<T>::max();
    if (s.coin()) {  // just above, or among, the data
      T best = z.v[0];
      for (int i = 0; i < (int)z.size(); i++)
        if (!z.isnd(i % z.w, i / z.w)) best = std::max(best, z.v[i]);
      if (best < T(100)) hi = best + 1;
    }
    bool used = false;
    for (auto v : z.v) used |= v == hi && v != z.nd;
    if (!used) {
      for (auto &v : z2.v)
        if (v == z.nd) v = hi;
      z2.nd = hi;
      auto a2 = to_array(z2);
      Array2D<int8_t> f2;
      FindFlats(a2, f2);
      for (int i = 0; i < (int)z.size(); i++) PBT_CHECK(f2(i) == r.flat[i], "flat-indicator-high-nodata", "with NoData ", +hi, ": (", i % z.w, ",", i / z.w, ") is ", +f2(i), ", expected ", +r.flat[i]);
    }
  }
  Array2D<int32_t> mask, lab;
  if (s.coin()) mask.resize(s.range(1, 9), s.range(1, 9), 5), lab.resize(s.range(1, 9), s.range(1, 9), 3);
  GetFlatMask(a, mask, lab);
  check_mask_labels(z, r, mask, lab, "GetFlatMask");
  Array2D<d8_flowdir_t> fd;
  d8_flow_directions(a, fd);
  Array2D<int32_t> mask2, lab2;
  resolve_flats_barnes(a, fd, mask2, lab2);
  check_mask_labels(z, r, mask2, lab2, "resolve_flats_barnes");
  for (int i = 0; i < (int)z.size(); i++) PBT_CHECK(a(i) == z.v[i], "altered", "elevations changed by computing the mask");
}

// Follows flow directions from every cell
static void check_dirs(const Grid<T> &z, const RefFlats &r, const Array2D<d8_flowdir_t> &fd) {
  for (int y = 0; y < z.h; y++)
    for (int x = 0; x < z.w; x++) {
      int i = y * z.w + x;
      if (z.isnd(x, y)) {
        PBT_CHECK(fd(x, y) == FLOWDIR_NO_DATA, "nodata-dir", "NoData cell (", x, ",", y, ") has direction ", +fd(x, y));
        continue;
      }
      if (r.flat[i] == 1 && !r.comp[i]) {
        PBT_CHECK(fd(x, y) == NO_FLOW, "undrainable-flat-got-direction", "(", x, ",", y, ") has direction ", +fd(x, y));
        continue;
      }
      PBT_CHECK(fd(x, y) >= 1 && fd(x, y) <= 8, "drainable-without-direction", "(", x, ",", y, ") has direction ", +fd(x, y), "\n", show(fd));
      int cx = x, cy = y;
      for (size_t k = 0;; k++) {
        PBT_CHECK(k <= z.size(), "loop", "flow from (", x, ",", y, ") loops\n", show(fd));
        int d = fd(cx, cy);
        if (d == NO_FLOW) break;
        int nx = cx + DX8[d], ny = cy + DY8[d];
        if (!z.in(nx, ny) || z.isnd(nx, ny)) break;
        PBT_CHECK(z(nx, ny) <= z(cx, cy), "uphill", "flow climbs from (", cx, ",", cy, ")");
        cx = nx;
        cy = ny;
      }
      if (fd(cx, cy) == NO_FLOW) PBT_CHECK(z(cx, cy) < z(x, y), "drains-into-its-own-flat", "flow from (", x, ",", y, ") ends at the equally high (", cx, ",", cy, ")");
    }
}

static void resolve_dirs(pbt::Source &s) {
  RefFlats r;
  auto z = draw_case(s, r);
  auto a = to_array(z);
  Array2D<d8_flowdir_t> fd;
  barnes_flat_resolution_d8(a, fd, false);
  for (int i = 0; i < (int)z.size(); i++) PBT_CHECK(a(i) == z.v[i], "altered", "elevations changed though alter=false");
  check_dirs(z, r, fd);
}

#if TYFLOAT
static void resolve_epsilon(pbt::Source &s) {
  RefFlats r;
  auto z = draw_case(s, r);
  auto a = to_array(z);
  bool old = s.coin(1, 3);
  s.note(old ? "barnes_flat_resolution_d8(alter)" : "ResolveFlatsEpsilon");
  Array2D<d8_flowdir_t> fd;
  if (old) barnes_flat_resolution_d8(a, fd, true);
  else ResolveFlatsEpsilon(a);
  Grid<T> want = z;
  for (int i = 0; i < (int)z.size(); i++)
    if (!z.edge(i % z.w, i / z.w))
      for (int k = 0; k < r.mask[i]; k++) want.v[i] = std::nextafter(want.v[i], std::numeric_limits<T>::infinity());
  for (int i = 0; i < (int)z.size(); i++)
    PBT_CHECK(a(i) == want.v[i], "increments", "(", i % z.w, ",", i / z.w, ") was ", z.v[i], ", mask ", r.mask[i], ": is ", a(i), ", expected ", want.v[i]);
  // Where no cell was lifted to or above higher surroundings, all drainable flats now descend
  bool room = true;
  for (int i = 0; i < (int)z.size(); i++)
    for (int n = 1; n <= 8; n++) {
      int x = i % z.w + DX8[n], y = i / z.w + DY8[n];
      if (!z.in(x, y)) continue;
      int j = y * z.w + x;
      if (z.v[i] < z.v[j] && !z.isnd(i % z.w, i / z.w) && !(want.v[i] < want.v[j])) room = false;
    }
  s.label(room, "room for the increments");
  if (!room) return;
  auto b = from_array(a);
  for (int i = 0; i < (int)z.size(); i++) {
    int x = i % z.w, y = i / z.w;
    if (r.flat[i] < 0 || z.edge(x, y) || (r.flat[i] == 1 && !r.comp[i])) continue;
    bool lower = false;
    for (int n = 1; n <= 8; n++) {
      int nx = x + DX8[n], ny = y + DY8[n];
      if (b.isnd(nx, ny) || b(nx, ny) < b(x, y)) lower = true;
    }
    PBT_CHECK(lower, "does-not-descend", "(", x, ",", y, ") has no lower neighbour after resolution\n", show(b));
  }
  if (old)
    for (int i = 0; i < (int)z.size(); i++) {
      if (r.flat[i] < 0) continue;
      bool dr = !(r.flat[i] == 1 && !r.comp[i]);
      PBT_CHECK((fd(i) >= 1 && fd(i) <= 8) == dr, "direction-after-alteration", "(", i % z.w, ",", i / z.w, ") has direction ", +fd(i));
    }
}
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
PBT_PROP("detect_" STR(TY), QN, QN * 20, detect);
PBT_PROP("dirs_" STR(TY), QN, QN * 20, resolve_dirs);
#if TYFLOAT
PBT_PROP("epsilon_" STR(TY), QN, QN * 20, resolve_epsilon);
#endif
