// P25: D-infinity flow directions across flats
#include <richdem/flats/flat_resolution_dinf.hpp>
#include <richdem/methods/dinf_methods.hpp>
#include "gen.hpp"
#include "ref_flats.hpp"
using namespace richdem;
using namespace gen;

static pbt::RuleRegistrar rr("cases: rasters of eight landscape styles (many of them with large flats), every shape from 1x1, NoData anywhere; non-trivial: at least one cell of a drainable flat that is not beside its outlet",
                             {"NoData lower than every data value (documented precondition)"});
using T = TY;
static const double Q = std::acos(-1.0) / 4;
// neighbours counter-clockwise from east
static const int ex[9] = {1, 1, 0, -1, -1, -1, 0, 1, 1}, ey[9] = {0, -1, -1, -1, 0, 1, 1, 1, 0};

static Grid<T> draw_case(pbt::Source &s, RefFlats &r) {
  DemOpts o;
  o.nodata_edge_d4 = false;
  o.extremes = false;
  auto z = dem<T>(s, o);
  s.note(show(z));
  r = flats_reference(z);
  s.nontrivial(r.deep > 0);
  s.label(r.deep > 0, "a drainable flat");
  s.label(r.undrainable > 0, "an undrainable flat");
  return z;
}

// The cells an angle sends flow to: two neighbours around it, or one if it points straight at it
static std::vector<std::pair<int, double>> receivers(double got) {
  double q = got / Q;
  int k = (int)std::lround(q);
  if (std::abs(q - k) < 2e-6) return {{k % 8, 1.0}};
  int lo = (int)std::floor(q);
  return {{lo % 8, 1 - (q - lo)}, {(lo + 1) % 8, q - lo}};
}

static void check(pbt::Source &s, const Grid<T> &z, const RefFlats &r, const Array2D<float> &plain, const Array2D<float> &fd) {
  PBT_CHECK(fd.width() == z.w && fd.height() == z.h, "dims", "");
  PBT_CHECK(fd.noData() == -1, "nodata-value", "directions have NoData value ", fd.noData());
  int facets = 0, single = 0, east = 0;
  for (int y = 0; y < z.h; y++)
    for (int x = 0; x < z.w; x++) {
      const int i = y * z.w + x;
      const double got = fd(x, y);
      if (z.isnd(x, y)) {
        PBT_CHECK(got == -1 && fd.isNoData(x, y), "nodata", "NoData cell (", x, ",", y, ") has direction ", got);
        continue;
      }
      if (r.flat[i] == 0) {
        PBT_CHECK(got == plain(x, y) && got > 0, "changed-outside-flat", "(", x, ",", y, ") is no flat cell: its direction was ", plain(x, y), ", is ", got);
        continue;
      }
      if (!r.comp[i]) {
        PBT_CHECK(got == 0, "undrainable-flat-got-direction", "(", x, ",", y, ") has direction ", got);
        continue;
      }
      PBT_CHECK(got > 0 && got <= 8 * Q + 1e-6, "drainable-without-direction", "(", x, ",", y, ") of a drainable flat has direction ", got, "\n", show(fd));
      for (auto [k, share] : receivers(got)) {
        int a = x + ex[k], b = y + ey[k];
        (void)share;
        PBT_CHECK(z.in(a, b) && r.comp[b * z.w + a] == r.comp[i], "leaves-its-flat", "(", x, ",", y, ") has direction ", got, ", to (", a, ",", b, ") outside its flat");
        PBT_CHECK(r.mask[b * z.w + a] < r.mask[i], "climbs-the-mask", "(", x, ",", y, ") has direction ", got, ", to (", a, ",", b, ") whose mask is ", r.mask[b * z.w + a], ", its own ", r.mask[i]);
      }
      // the steepest facet over the mask within the flat
      double best = 0, slope[8], ang[8];
      for (int f = 0; f < 8; f++) {
        slope[f] = -1;
        int c = f % 2 == 0 ? f : f + 1, d = f % 2 == 0 ? f + 1 : f;
        int jc = (y + ey[c]) * z.w + x + ex[c], jd = (y + ey[d]) * z.w + x + ex[d];
        if (r.comp[jc] != r.comp[i] || r.comp[jd] != r.comp[i]) continue;
        double s1 = r.mask[i] - r.mask[jc], s2 = r.mask[jc] - r.mask[jd], t;
        if (s2 <= 0 && !(s2 == 0 && s1 < 0)) t = 0, slope[f] = s1;
        else if (s2 >= s1) t = Q, slope[f] = (s1 + s2) / std::sqrt(2.0);
        else t = std::atan2(s2, s1), slope[f] = std::hypot(s1, s2);
        ang[f] = f % 2 == 0 ? f * Q + t : (f + 1) * Q - t;
        best = std::max(best, slope[f]);
      }
      if (best > 0) {
        bool ok = false;
        std::string w;
        for (int f = 0; f < 8; f++)
          if (slope[f] >= best * (1 - 1e-9)) {
            ok = ok || std::abs(std::remainder(got - ang[f], 8 * Q)) < 2e-5;
            w += pbt::str(" ", ang[f]);
          }
        facets++;
        PBT_CHECK(ok, "angle", "(", x, ",", y, ") has direction ", got, ", the steepest facet of the mask faces", w);
      } else {
        single++;
        PBT_CHECK(receivers(got).size() == 1, "not-one-neighbour", "(", x, ",", y, ") has no descending facet, its direction is ", got);
      }
      if (std::abs(got - 8 * Q) < 1e-5) east++;
    }
  s.label(facets > 0, "follows a facet");
  s.label(single > 0, "no facet within the flat: one lower neighbour");
  s.label(east > 0, "due east");
  // everything drains: what leaves a drainable cell reaches the border, a NoData cell or an undrainable flat, and is all there
  const int N = z.size();
  std::vector<std::vector<std::pair<int, double>>> to(N);
  std::vector<double> area(N, 1);
  std::vector<int> dep(N, 0);
  double out = 0, in = 0;
  for (int i = 0; i < N; i++) {
    if (z.isnd(i % z.w, i / z.w)) continue;
    in += 1;
    if (fd(i) == 0) continue;
    for (auto [k, share] : receivers(fd(i))) {
      int x = i % z.w + ex[k], y = i / z.w + ey[k];
      int j = z.in(x, y) && !z.isnd(x, y) ? y * z.w + x : -1;
      to[i].push_back({j, share});
      if (j >= 0) dep[j]++;
    }
  }
  std::vector<int> q;
  for (int i = 0; i < N; i++)
    if (!z.isnd(i % z.w, i / z.w) && !dep[i]) q.push_back(i);
  size_t done = 0;
  for (; done < q.size(); done++) {
    int i = q[done];
    if (to[i].empty()) {
      PBT_CHECK(r.flat[i] == 1 && !r.comp[i], "stuck", "flow ends at (", i % z.w, ",", i / z.w, ")");
      out += area[i];
    }
    for (auto [j, share] : to[i]) {
      if (j < 0) {
        out += area[i] * share;
        continue;
      }
      area[j] += area[i] * share;
      if (!--dep[j]) q.push_back(j);
    }
  }
  PBT_CHECK(done == (size_t)in, "loop", in - done, " cells are on or behind a loop of flow directions\n", show(fd));
  PBT_CHECK(std::abs(out - in) <= 1e-6 * (1 + in), "oracle", out, " of ", in);
  Array2D<double> acc;
  dinf_upslope_area(fd, acc);
  for (int i = 0; i < N; i++) {
    if (z.isnd(i % z.w, i / z.w)) PBT_CHECK(acc(i) == -1, "area-nodata", "(", i % z.w, ",", i / z.w, ") has area ", acc(i));
    else PBT_CHECK(std::abs(acc(i) - area[i]) <= 1e-3 * (1 + area[i]), "area", "(", i % z.w, ",", i / z.w, ") has area ", acc(i), ", ", area[i], " drain through it");
  }
}

static void resolve(pbt::Source &s) {
  RefFlats r;
  auto z = draw_case(s, r);
  auto a = to_array(z);
  Array2D<float> plain, fd;
  dinf_flow_directions(a, plain);
  if (s.coin()) fd.resize(s.range(1, 9), s.range(1, 9), 3);
  bool steps = s.coin(1, 3);
  s.note(steps ? "directions, mask and dinf_flow_flats apart" : "resolve_flats_barnes_dinf");
  if (steps) {
    Array2D<int32_t> mask, lab;
    if (s.coin()) mask.resize(s.range(1, 9), s.range(1, 9), 5), lab.resize(s.range(1, 9), s.range(1, 9), 3);
    dinf_flow_directions(a, fd);
    resolve_flats_barnes(a, fd, mask, lab);
    for (int i = 0; i < (int)z.size(); i++) PBT_CHECK(fd(i) == plain(i), "mask-changed-directions", "resolve_flats_barnes changed the directions at ", i);
    for (int i = 0; i < (int)z.size(); i++) {
      PBT_CHECK(mask(i) == r.mask[i], "mask", "mask(", i % z.w, ",", i / z.w, ") is ", mask(i), ", expected ", r.mask[i]);
      PBT_CHECK((lab(i) != 0) == (r.comp[i] != 0), "label-extent", "label(", i % z.w, ",", i / z.w, ") is ", lab(i));
    }
    dinf_flow_flats(mask, lab, fd);
  } else resolve_flats_barnes_dinf(a, fd);
  for (int i = 0; i < (int)z.size(); i++) PBT_CHECK(a(i) == z.v[i], "altered", "elevations changed");
  check(s, z, r, plain, fd);
}
#define STR2(x) #x
#define STR(x) STR2(x)
PBT_PROP("resolve_" STR(TY), QN, QN * 20, resolve);
