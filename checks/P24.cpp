// P24: results do not depend on the number of threads or on who goes on when, and no two threads race
#include <richdem/common/random.hpp>
#include <richdem/depressions/depressions.hpp>
#include <richdem/depressions/fill_spill_merge.hpp>
#include <richdem/flats/flat_resolution.hpp>
#include <richdem/flats/flat_resolution_dinf.hpp>
#include <richdem/flats/flats.hpp>
#include <richdem/flowmet/d8_flowdirs.hpp>
#include <richdem/flowmet/dinf_flowdirs.hpp>
#include <richdem/methods/d8_methods.hpp>
#include <richdem/methods/dinf_methods.hpp>
#include <richdem/methods/flow_accumulation.hpp>
#include <richdem/methods/terrain_attributes.hpp>
#include <richdem/misc/misc_methods.hpp>
#include <cstring>
#include <functional>
#include <map>
#include "gen.hpp"
#include "gompsched.hpp"
using namespace richdem;
using namespace richdem::dephier;
using namespace gen;
using T = TY;

namespace {
pbt::RuleRegistrar rr("cases: a function with parallel loops, a raster (every style, NoData cells, up to 12x12), a number of threads from 2 to 5 and a schedule: a list of small numbers that decide which thread goes on at the start, at every barrier, critical section, atomic operation and end; non-trivial: the threads took turns at least twice and the raster has at least two rows",
                      {"the code is compiled with ThreadSanitizer, which is told only the orders that OpenMP guarantees: a race is reported whatever the schedule",
                       "threads change over at OpenMP synchronisations, not between plain instructions (that is what the race detection is for)", "rasters up to 12x12, at most 5 threads",
                       "sums of floating-point numbers may differ by rounding"});

// what a function gave, as a list of numbers: name, value
struct Out {
  std::vector<double> v;
  double rel = 0;  // rounding allowed
  void put(double x) { v.push_back(x); }
  template <class A>
  void grid(const A &a) {
    put(a.width()), put(a.height()), put((double)a.noData());
    for (unsigned i = 0; i < a.size(); i++) put((double)a(i));
  }
  void props(const Array3D<float> &p) {
    put(p.width()), put(p.height());
    for (int y = 0; y < p.height(); y++)
      for (int x = 0; x < p.width(); x++)
        for (int n = 0; n <= 8; n++) put(p(x, y, n));
  }
};
bool same(const Out &a, const Out &b, size_t &at) {
  if (a.v.size() != b.v.size()) {
    at = std::min(a.v.size(), b.v.size());
    return false;
  }
  for (at = 0; at < a.v.size(); at++) {
    double x = a.v[at], y = b.v[at];
    if (x == y || (std::isnan(x) && std::isnan(y))) continue;
    if (a.rel > 0 && std::fabs(x - y) <= a.rel * std::max(std::fabs(x), std::fabs(y))) continue;
    return false;
  }
  return true;
}

struct Case {
  Grid<T> z;
  double zscale = 1, cell = 1;
  int aux = 0;
};
Array2D<T> arr(const Case &c) {
  auto a = to_array(c.z);
  a.geotransform[1] = c.cell, a.geotransform[5] = -c.cell;
  return a;
}
using Fn = std::function<void(const Case &, Out &)>;
struct Sub {
  const char *name;
  Fn f;
};
template <class F>
Fn ta(F f) {
  return [f](const Case &c, Out &o) {
    auto a = arr(c);
    Array2D<float> r;
    f(a, r, (float)c.zscale);
    o.grid(r);
  };
}
template <class F>
Fn fm(F f) {
  return [f](const Case &c, Out &o) {
    auto a = arr(c);
    Array3D<float> p(a);
    f(a, p);
    o.props(p);
  };
}
void borders_ocean(const Case &c, Array2D<dh_label_t> &label) {
  label.setAll(NO_DEP);
  for (int y = 0; y < c.z.h; y++)
    for (int x = 0; x < c.z.w; x++)
      if (c.z.edge(x, y) ? (c.aux & 3) != 3 || (x + y) % 3 == 0 : (c.aux & 4) && c.z.isnd(x, y)) label(x, y) = OCEAN;
}
void put_deps(const DepressionHierarchy<T> &d, Out &o) {
  for (auto &e : d) {
    for (double v : {(double)e.pit_cell, (double)e.out_cell, (double)e.parent, (double)e.odep, (double)e.geolink, (double)e.lchild, (double)e.rchild, (double)e.ocean_parent, (double)e.dep_label,
                     (double)e.cell_count, (double)e.pit_elev, (double)e.out_elev})
      o.put(v);
    std::vector<double> l(e.ocean_linked.begin(), e.ocean_linked.end());
    o.put(l.size());
    for (double x : l) o.put(x);
  }
  // sums of elevations: rounding
  for (auto &e : d) o.put(e.dep_vol), o.put(e.total_elevation);
}

const std::vector<Sub> &subs() {
  static const std::vector<Sub> S = {
      {"d8_flow_directions",
       [](const Case &c, Out &o) {
         auto a = arr(c);
         Array2D<d8_flowdir_t> fd;
         d8_flow_directions(a, fd);
         o.grid(fd);
       }},
      {"d8_flow_accum",
       [](const Case &c, Out &o) {
         auto a = arr(c);
         Array2D<d8_flowdir_t> fd;
         d8_flow_directions(a, fd);
         Array2D<int32_t> acc;
         d8_flow_accum(fd, acc);
         o.grid(acc);
       }},
      {"dinf_flow_directions",
       [](const Case &c, Out &o) {
         auto a = arr(c);
         Array2D<float> fd;
         dinf_flow_directions(a, fd);
         o.grid(fd);
       }},
      {"dinf_upslope_area",
       [](const Case &c, Out &o) {
         auto a = arr(c);
         Array2D<float> fd, acc;
         dinf_flow_directions(a, fd);
         dinf_upslope_area(fd, acc);
         o.rel = 1e-4;
         o.grid(acc);
       }},
      {"resolve_flats_barnes",
       [](const Case &c, Out &o) {
         auto a = arr(c);
         Array2D<d8_flowdir_t> fd;
         d8_flow_directions(a, fd);
         Array2D<int32_t> mask, labels;
         resolve_flats_barnes(a, fd, mask, labels);
         o.grid(mask), o.grid(labels);
         d8_flow_flats(mask, labels, fd);
         o.grid(fd);
       }},
      {"barnes_flat_resolution_d8",
       [](const Case &c, Out &o) {
         auto a = arr(c);
         Array2D<d8_flowdir_t> fd;
         // altering the elevations needs a floating-point type with room between two values
         barnes_flat_resolution_d8(a, fd, std::is_floating_point<T>::value && (c.aux & 1));
         o.grid(a), o.grid(fd);
       }},
      {"resolve_flats_barnes_dinf",
       [](const Case &c, Out &o) {
         auto a = arr(c);
         Array2D<float> fd;
         dinf_flow_directions(a, fd);
         resolve_flats_barnes_dinf(a, fd);
         o.grid(fd);
       }},
      {"FindFlats",
       [](const Case &c, Out &o) {
         auto a = arr(c);
         Array2D<int8_t> fl;
         FindFlats(a, fl);
         o.grid(fl);
       }},
      {"GetFlatMask",
       [](const Case &c, Out &o) {
         auto a = arr(c);
         Array2D<int32_t> mask, labels;
         GetFlatMask(a, mask, labels);
         o.grid(mask);
         // the numbers of the flats may depend on the order they are met in; which cells share one may not
         std::map<int, int> first;
         for (unsigned i = 0; i < labels.size(); i++) {
           if (labels(i) > 0) o.put(first.emplace(labels(i), i).first->second);
           else o.put(-1);
         }
       }},
      {"ResolveFlatsEpsilon",
       [](const Case &c, Out &o) {
         if constexpr (std::is_floating_point<T>::value) {
           auto a = arr(c);
           ResolveFlatsEpsilon(a);
           o.grid(a);
         }
       }},
      {"dem_surface_area",
       [](const Case &c, Out &o) {
         auto a = arr(c);
         o.rel = 1e-9;
         o.put(dem_surface_area(a, c.zscale));
       }},
      {"Perimeter",
       [](const Case &c, Out &o) {
         auto a = arr(c);
         o.put(Perimeter(a, c.aux & 1 ? PerimType::CELL_COUNT : PerimType::SQUARE_EDGE));
       }},
      {"TA_slope_riserun", ta([](auto &a, auto &r, float z) { TA_slope_riserun(a, r, z); })},
      {"TA_slope_percentage", ta([](auto &a, auto &r, float z) { TA_slope_percentage(a, r, z); })},
      {"TA_slope_degrees", ta([](auto &a, auto &r, float z) { TA_slope_degrees(a, r, z); })},
      {"TA_slope_radians", ta([](auto &a, auto &r, float z) { TA_slope_radians(a, r, z); })},
      {"TA_aspect", ta([](auto &a, auto &r, float z) { TA_aspect(a, r, z); })},
      {"TA_curvature", ta([](auto &a, auto &r, float z) { TA_curvature(a, r, z); })},
      {"TA_planform_curvature", ta([](auto &a, auto &r, float z) { TA_planform_curvature(a, r, z); })},
      {"TA_profile_curvature", ta([](auto &a, auto &r, float z) { TA_profile_curvature(a, r, z); })},
      {"TA_SPI and TA_CTI",
       [](const Case &c, Out &o) {
         auto a = arr(c);
         Array2D<float> slope, r;
         TA_slope_riserun(a, slope, (float)c.zscale);
         Array2D<float> acc(a, 0.f);
         acc.setNoData(-1);
         for (unsigned i = 0; i < acc.size(); i++) acc(i) = a.isNoData(i) ? -1 : 1 + (i * 7 + c.aux) % 11;
         TA_SPI(acc, slope, r);
         o.grid(r);
         TA_CTI(acc, slope, r);
         o.grid(r);
       }},
      {"FM_OCallaghan", fm([](auto &a, auto &p) { FM_OCallaghan<Topology::D8>(a, p); })},
      {"FM_D4", fm([](auto &a, auto &p) { FM_D4(a, p); })},
      {"FM_Quinn", fm([](auto &a, auto &p) { FM_Quinn(a, p); })},
      {"FM_Freeman", fm([](auto &a, auto &p) { FM_Freeman(a, p, 1.1); })},
      {"FM_Holmgren", fm([](auto &a, auto &p) { FM_Holmgren(a, p, 2.3); })},
      {"FM_Tarboton", fm([](auto &a, auto &p) { FM_Tarboton(a, p); })},
      {"flow accumulation",
       [](const Case &c, Out &o) {
         auto a = arr(c);
         Array2D<double> acc(a, 1);
         o.rel = 1e-9;
         switch (c.aux % 3) {
           case 0: FA_D8(a, acc); break;
           case 1: FA_Tarboton(a, acc); break;
           default: FA_Freeman(a, acc, 1.1);
         }
         o.grid(acc);
       }},
      {"filling",
       [](const Case &c, Out &o) {
         auto a = arr(c);
         if (!std::is_floating_point<T>::value || (c.aux & 1)) FillDepressions<Topology::D8>(a);
         else PriorityFloodEpsilon_Barnes2014<Topology::D8>(a);
         o.grid(a);
       }},
      {"GetDepressionHierarchy",
       [](const Case &c, Out &o) {
         auto a = arr(c);
         Array2D<dh_label_t> label(c.z.w, c.z.h, NO_DEP);
         Array2D<flowdir_t> fd(c.z.w, c.z.h, NO_FLOW);
         borders_ocean(c, label);
         auto d = c.aux & 8 ? GetDepressionHierarchy<T, Topology::D4>(a, label, fd) : GetDepressionHierarchy<T, Topology::D8>(a, label, fd);
         o.rel = 1e-9;
         o.grid(label), o.grid(fd);
         put_deps(d, o);
       }},
      {"FillSpillMerge",
       [](const Case &c, Out &o) {
         auto a = arr(c);
         Array2D<dh_label_t> label(c.z.w, c.z.h, NO_DEP);
         Array2D<flowdir_t> fd(c.z.w, c.z.h, NO_FLOW);
         borders_ocean(c, label);
         auto d = GetDepressionHierarchy<T, Topology::D8>(a, label, fd);
         Array2D<double> w(c.z.w, c.z.h, 0.);
         for (unsigned i = 0; i < w.size(); i++)
           if (label(i) != OCEAN) w(i) = (i * 5 + c.aux) % 4 * 0.25;
         FillSpillMerge(a, label, fd, d, w);
         o.rel = 1e-6;
         for (unsigned i = 0; i < w.size(); i++) o.put(std::fabs(w(i)) < 1e-5 ? 0 : w(i));
       }},
  };
  return S;
}

void threads(pbt::Source &s) {
  Case c;
  const Sub &sub = subs()[s.draw(subs().size())];
  const bool dh = !strcmp(sub.name, "GetDepressionHierarchy") || !strcmp(sub.name, "FillSpillMerge");
  DemOpts o;
  o.max_dim = 12;
  o.extremes = false;
  o.step = s.pick({1.0, 0.25});
  if (dh) o.nodata = false, o.min_dim = 3;
  c.z = dem<T>(s, o);
  if (dh) {
    c.aux = s.draw(16);
  } else
    c.aux = s.draw(8);
  c.zscale = s.pick({1.0, 2.0, 0.1});
  c.cell = s.pick({1.0, 10.0});
  s.label(sub.name);
  const int k = s.range(2, 5);
  std::vector<unsigned> ch(s.range(1, 24));
  for (auto &x : ch) x = s.draw(60);
  Out one, many;
  gompsched::set(1, {0});
  sub.f(c, one);
  gompsched::set(k, ch);
  auto before = gompsched::switches();
  sub.f(c, many);
  auto after = gompsched::switches();
  gompsched::set(1, {0});
  if (after - before >= 2 && c.z.h >= 2) s.nontrivial();
  size_t at;
  if (!same(one, many, at))
    PBT_CHECK(false, "schedule", sub.name, " gives something else with ", k, " threads than with one: value ", at, " of ", one.v.size(), " is ", at < many.v.size() ? many.v[at] : NAN, ", not ",
              at < one.v.size() ? one.v[at] : NAN, "\ninput:\n", show(c.z));
}
#ifdef PART0
// The random methods: the seed and the number of threads decide, the schedule does not; every answer is a valid one
void random_methods(pbt::Source &s) {
  Case c;
  DemOpts o;
  o.max_dim = 12;
  o.extremes = false;
  c.z = dem<T>(s, o);
  auto a = arr(c);
  const int k = s.range(1, 5);
  const uint64_t seed = 1 + s.draw(1000);
  const bool d4 = s.coin();
  std::vector<unsigned> ch(s.range(1, 16)), ch2(s.range(1, 16));
  for (auto &x : ch) x = s.draw(60);
  for (auto &x : ch2) x = s.draw(60);
  auto run = [&](const std::vector<unsigned> &sched) {
    gompsched::set(k, sched);
    seed_rand(seed);
    Array3D<float> p(a);
    if (d4) FM_Rho4(a, p);
    else FM_Rho8(a, p);
    gompsched::set(1, {0});
    Out r;
    r.props(p);
    return r;
  };
  auto b = gompsched::switches();
  Out x = run(ch), y = run(ch2);
  if (gompsched::switches() - b >= 2 && c.z.h >= 2) s.nontrivial();
  s.label(d4 ? "Rho4" : "Rho8");
  size_t at;
  PBT_CHECK(same(x, y, at), "seed", "the same seed and ", k, " threads give two results under two schedules: value ", at, " is ", x.v[at], " and ", y.v[at], "\ninput:\n", show(c.z));
}
// Every seed gives every thread a stream of its own, whatever the schedule, and the same one again
void streams(pbt::Source &s) {
  const int k = s.range(1, 6);
  uint64_t a = 1 + s.draw(1 << 20), b = s.coin() ? a + s.range(1, 40) : 1 + s.draw(1 << 20) + (uint64_t(s.draw(3)) << 32);
  std::vector<unsigned> ch(s.range(1, 16));
  for (auto &x : ch) x = s.draw(60);
  auto first = [&](uint64_t seed) {
    std::vector<std::vector<uint32_t>> r(k);
    seed_rand(seed);
#pragma omp parallel
    {
      auto &v = r[omp_get_thread_num()];
      for (int i = 0; i < 6; i++) v.push_back(rand_engine()());
    }
    return r;
  };
  gompsched::set(k, ch);
  auto x = first(a), x2 = first(a), y = first(b);
  // a seed and a stream: whether it can be saved and restored
  auto state = SaveRandomState();
  std::vector<double> d1, d2;
  for (int i = 0; i < 5; i++) d1.push_back(i % 2 ? normal_rand(0, 1) : uniform_rand_real(0, 1));
  SetRandomState(state);
  for (int i = 0; i < 5; i++) d2.push_back(i % 2 ? normal_rand(0, 1) : uniform_rand_real(0, 1));
  gompsched::set(1, {0});
  if (k > 1) s.nontrivial();
  PBT_CHECK(x == x2, "seed", "the same seed, ", a, ", gives other numbers the second time, ", k, " threads");
  PBT_CHECK(d1 == d2, "state", "a restored state gives other numbers");
  for (int i = 0; i < k; i++) {
    for (int j = 0; j < i; j++) PBT_CHECK(x[i] != x[j], "streams", "threads ", i, " and ", j, " draw the same numbers with seed ", a);
    if (a != b)
      for (int j = 0; j < k; j++) PBT_CHECK(x[i] != y[j], "streams", "seed ", a, " thread ", i, " and seed ", b, " thread ", j, " draw the same numbers");
  }
}
PBT_PROP("streams", 1500, 20000, streams);
PBT_PROP("random_methods", 1500, 20000, random_methods);
#endif
#define STR_(x) #x
#define STR(x) STR_(x)
PBT_PROP("threads_" STR(TY), QN, QN * 20, threads);
}  // namespace
