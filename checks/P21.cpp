// P21: the functions of the Python wrapper, against the library called directly on the same data
#include <richdem/common/timer.hpp>
#include <richdem/depressions/depressions.hpp>
#include <richdem/flats/flats.hpp>
#include <richdem/methods/flow_accumulation.hpp>
#include <richdem/methods/terrain_attributes.hpp>
#ifdef TYDOUBLE
#include <richdem/depressions/depression_hierarchy.hpp>
#include <richdem/depressions/fill_spill_merge.hpp>
#include <richdem/terrain_generation.hpp>
#endif
#include "gen.hpp"
#include "pyco.hpp"
using namespace richdem;
using namespace gen;
using T = TY;

namespace {
#ifdef TYDOUBLE
pbt::RuleRegistrar rr("cases: an array of one of the ten element types in one of six memory layouts (C, Fortran, window, reversed, strided, transposed), georeferenced or not, handed to a function of the Python wrapper with generated options; the same data handed to the C++ library; non-trivial: the function changes the array, or some cell has an uphill neighbour",
                      {"Rho8 and Rho4 draw random numbers: their results are checked for being ones the method can give", "no NoData values which the element type cannot hold", "fill-spill-merge starts from saturated cells (see the known finding of P14)"});
#endif

struct Geo {
  bool none = false;
  std::array<double, 6> gt{{0, 1, 0, 0, 0, -1}};
  std::string json = "null", proj;
};
Geo geo(pbt::Source &s, bool square = false) {
  Geo g;
  switch (s.weighted({20, 40, 20, 20})) {
    case 0: g.none = true; break;
    default: {
      double l = s.pick({1.0, 30.0, 0.25});
      g.gt = {{s.pick({0.0, 100.5, -7.25}), l, 0, s.pick({0.0, -3.0, 1e6}), 0, square || s.coin() ? -l : -2 * l}};
      g.json = std::string("[\"") + s.pick<const char *>({"tuple", "list", "numpy"}) + "\",[";
      for (int i = 0; i < 6; i++) g.json += (i ? "," : "") + pyco::js(pyco::hexd(g.gt[i]));
      g.json += "]]";
    }
  }
  g.proj = s.coin() ? "" : "LOCAL_CS[\"x\"]";
  return g;
}
template <class U>
std::string nd_expr(pbt::Source &s, U nd) {
  int k = s.draw(3);
  if (std::is_floating_point<U>::value) {
    if (k == 1 && nd == std::floor(nd) && std::abs((double)nd) < 1e15) return pbt::str("i:", (int64_t)nd);
    return (k == 2 ? "n:" : "d:") + pyco::hexd((double)nd);
  }
  // 64-bit values may not survive as a double
  if (k == 1 && std::abs((long double)nd) < 1e15) return "d:" + pyco::hexd((double)nd);
  return pbt::str(k == 2 ? "n:" : "i:", +nd);
}
char layout(pbt::Source &s) {
  char l = s.pick({'C', 'F', 'S', 'R', 'X', 'T'});
  s.label(std::string("layout ") + l);
  return l;
}
std::string meta_json(pbt::Source &s, std::map<std::string, std::string> &m) {
  if (s.coin()) m["AREA"] = s.pick<const char *>({"somewhere", "a \"quoted\" place", "two\nlines"});
  if (s.coin()) m["PROCESSING_HISTORY"] = "\n2020-01-01 | something | earlier";
  std::string j;
  for (auto &e : m) j += (j.empty() ? "" : ",") + pyco::js(e.first) + ":" + pyco::js(e.second);
  return "{" + j + "}";
}
// An elevation model for Python: the raster, how it is stored, and its attributes
struct PyDem {
  Grid<T> z;
  char lay;
  Geo g;
  pyco::Attrs at;
  std::map<std::string, std::string> meta;
  Array2D<T> lib() const {
    auto a = to_array(z);
    a.geotransform.assign(g.gt.begin(), g.gt.end());
    return a;
  }
  void add(pyco::Request &q, const char *name = "dem") const { q.array(name, z.v, {z.h, z.w}, lay, at); }
};
PyDem pydem(pbt::Source &s, DemOpts o = DemOpts(), bool square = false) {
  o.max_dim = std::min(o.max_dim, 24);
  PyDem d;
  d.z = dem<T>(s, o);
  d.lay = layout(s);
  d.g = geo(s, square);
  d.at.nd = nd_expr(s, d.z.nd);
  d.at.gt = d.g.json;
  d.at.proj = d.g.proj;
  d.at.meta = meta_json(s, d.meta);
  s.note("layout ", d.lay, " geotransform ", d.g.json, " nodata ", d.at.nd, "\n", show(d.z));
  return d;
}
void no_exc(const pyco::Reply &r) { PBT_CHECK(!r.has("exc"), "exception", r.get("exc"), " at ", r.get("exc_at")); }
template <class U>
bool same_bits(U a, U b) {
  return a == b || (a != a && b != b);
}
template <class U>
void equal(const std::vector<U> &got, const Array2D<U> &want, const char *tag) {
  PBT_CHECK(got.size() == (size_t)want.size(), tag, "size ", got.size(), ", expected ", want.size());
  for (int y = 0; y < want.height(); y++)
    for (int x = 0; x < want.width(); x++)
      PBT_CHECK(same_bits(got[(size_t)y * want.width() + x], want(x, y)), tag, "cell (", x, ",", y, ") is ", +got[(size_t)y * want.width() + x], ", the library gives ", +want(x, y));
}
void untouched(const pyco::Reply &r, const std::string &n) {
  PBT_CHECK(r.yes(n + ".same_values"), "argument-altered", "the values of `", n, "` have changed");
  PBT_CHECK(r.yes(n + ".same_attrs"), "argument-altered", "the attributes of `", n, "` have changed");
  PBT_CHECK(r.yes(n + ".same_meta"), "argument-altered", "the metadata of `", n, "` have changed");
  PBT_CHECK(r.yes(n + ".outside_ok"), "outside-altered", "memory beside the window of `", n, "` has changed");
}
// The attributes of a result are those of the DEM, with one more line of history
void enriched(const pyco::Reply &r, const std::string &n, const PyDem &d, long double nd, const char *fn) {
  PBT_CHECK(r.get(n + ".type") == "rdarray" || r.get(n + ".type") == "rd3array", "type", "a ", r.get(n + ".type"));
  std::string e = "None";
  if (!d.g.none) {
    e = "";
    for (auto x : d.g.gt) e += (e.empty() ? "" : " ") + pyco::hexd(x);
  }
  std::istringstream a(r.get(n + ".gt")), b(e);
  std::string u, v;
  while (b >> v) {
    a >> u;
    PBT_CHECK((v == "None" && u == "None") || (u != "None" && strtod(u.c_str(), 0) == strtod(v.c_str(), 0)), "geotransform", "is ", r.get(n + ".gt"), ", expected ", e);
  }
  PBT_CHECK(r.get(n + ".proj") == d.g.proj, "projection", "is ", r.get(n + ".proj"));
  PBT_CHECK(strtold(r.get(n + ".nd").c_str(), 0) == nd, "no_data", "is ", r.get(n + ".nd"), ", expected ", nd);
  auto m = r.meta(n);
  for (auto &x : d.meta)
    if (x.first != "PROCESSING_HISTORY") PBT_CHECK(m.count(x.first) && m[x.first] == x.second, "metadata", "key ", x.first, " is lost");
  PBT_CHECK(m.size() == d.meta.size() + !d.meta.count("PROCESSING_HISTORY"), "metadata", "keys appeared");
  std::string was = d.meta.count("PROCESSING_HISTORY") ? d.meta.at("PROCESSING_HISTORY") : "", now = m["PROCESSING_HISTORY"];
  PBT_CHECK(now.compare(0, was.size(), was) == 0, "history", "the earlier history is lost: ", now);
  std::string line = now.substr(was.size());
  PBT_CHECK(std::count(line.begin(), line.end(), '\n') == 1 && line[0] == '\n' && line.find(fn) != line.npos, "history", "not one line about ", fn, " was added: ", line);
}

// functions which alter a DEM
void alter(pbt::Source &s) {
  int k = s.draw(7);
  static const char *KN[] = {"fill D8", "fill D4", "fill epsilon D8", "fill epsilon D4", "breach D8", "breach D4", "flats"};
  DemOpts o;
  o.extremes = k < 2 || k == 4 || k == 5;
  auto d = pydem(s, o);
  bool in_place = s.coin();
  s.note(KN[k], in_place ? " in place" : " on a copy");
  s.label(KN[k]);
  auto a = d.lib();
  bool refused = false;
  try { switch (k) {
    case 0: PriorityFlood_Zhou2016(a); break;
    case 1: PriorityFlood_Barnes2014<Topology::D4>(a); break;
    case 2: PriorityFloodEpsilon_Barnes2014<Topology::D8>(a); break;
    case 3: PriorityFloodEpsilon_Barnes2014<Topology::D4>(a); break;
    case 4: BreachDepressions<Topology::D8>(a); break;
    case 5: BreachDepressions<Topology::D4>(a); break;
    case 6: ResolveFlatsEpsilon(a); break;
  } } catch (const std::exception &) {
    refused = true;  // epsilons on integers
    s.label("refused by the library");
  }
  for (int i = 0; i < (int)d.z.size(); i++) s.nontrivial(a(i) != d.z.v[i]);
  pyco::Request q;
  d.add(q);
  const char *fn = k < 4 ? "FillDepressions" : k < 6 ? "BreachDepressions" : "ResolveFlats";
  std::string kw;
  if (k < 4 && (k >= 2 || s.coin())) kw += std::string(",\"epsilon\":") + (k >= 2 ? "true" : "false");
  if (k < 6 && (k % 2 || s.coin())) kw += std::string(",\"topology\":") + (k % 2 ? "\"D4\"" : "\"D8\"");
  if (in_place || s.coin()) kw += std::string(",\"in_place\":") + (in_place ? "true" : "false");
  q.call(fn, "\"$dem\"", kw.empty() ? "" : kw.substr(1), "\"r\"");
  q.want("r"), q.want("dem");
  auto r = pyco::python().ask(q);
  if (refused) {
    PBT_CHECK(r.has("exc"), "accepted", "the library refuses this, Python does not");
    PBT_CHECK(r.yes("dem.same_values"), "argument-altered", "");
    return;
  }
  no_exc(r);
  if (in_place) {
    PBT_CHECK(r.yes("r.none"), "returns", "an in-place call returns a ", r.get("r.type"));
    equal(r.a["dem"].as<T>(), a, "result");
    PBT_CHECK(r.yes("dem.outside_ok"), "outside-altered", "memory beside the window has changed");
    enriched(r, "dem", d, (long double)d.z.nd, fn);
  } else {
    untouched(r, "dem");
    PBT_CHECK(r.a.count("r"), "returns", "nothing was returned");
    equal(r.a["r"].as<T>(), a, "result");
    enriched(r, "r", d, (long double)d.z.nd, fn);
  }
}

struct Method {
  const char *name;
  void (*fa)(const Array2D<T> &, Array2D<double> &, double);
  void (*fm)(const Array2D<T> &, Array3D<float> &, double);
  bool exponent;
  int random;  // 0: no; 4 or 8: the topology of a random method
};
#define M0(name, FA, FM) {name, [](const Array2D<T> &e, Array2D<double> &a, double) { FA; }, [](const Array2D<T> &e, Array3D<float> &p, double) { FM; }, false, 0}
#define M1(name, FA, FM) {name, [](const Array2D<T> &e, Array2D<double> &a, double x) { FA; }, [](const Array2D<T> &e, Array3D<float> &p, double x) { FM; }, true, 0}
const Method METHODS[] = {
    M0("D8", FA_D8(e, a), FM_OCallaghan<Topology::D8>(e, p)),
    M0("D4", FA_D4(e, a), FM_OCallaghan<Topology::D4>(e, p)),
    M0("OCallaghanD8", FA_OCallaghanD8(e, a), FM_OCallaghan<Topology::D8>(e, p)),
    M0("OCallaghanD4", FA_OCallaghanD4(e, a), FM_OCallaghan<Topology::D4>(e, p)),
    M0("Tarboton", FA_Tarboton(e, a), FM_Tarboton(e, p)),
    M0("Dinf", FA_Tarboton(e, a), FM_Tarboton(e, p)),
    M0("Quinn", FA_Quinn(e, a), FM_Quinn(e, p)),
    M1("Freeman", FA_Freeman(e, a, x), FM_Freeman(e, p, x)),
    M1("Holmgren", FA_Holmgren(e, a, x), FM_Holmgren(e, p, x)),
    {"Rho8", nullptr, nullptr, false, 8},
    {"FairfieldLeymarieD8", nullptr, nullptr, false, 8},
    {"Rho4", nullptr, nullptr, false, 4},
    {"FairfieldLeymarieD4", nullptr, nullptr, false, 4},
};

void flow_opts(pbt::Source &s, DemOpts &o) {
  o.nodata_edge_d4 = false;
  o.extremes = false;
}
// a random method lets each interior cell that has lower neighbours flow to one of them
void random_props(const PyDem &d, const std::vector<float> &p, int topo) {
  auto &z = d.z;
  for (int y = 0; y < z.h; y++)
    for (int x = 0; x < z.w; x++) {
      const float *c = &p[((size_t)y * z.w + x) * 9];
      if (z.isnd(x, y)) {
        PBT_CHECK(c[0] == -2, "props", "NoData cell (", x, ",", y, ") has marker ", c[0]);
        continue;
      }
      int flows = 0;
      bool lower = false;
      for (int n = 1; n <= 8; n++) {
        int nx = x + DX8[n], ny = y + DY8[n];
        bool diag = DX8[n] && DY8[n], low = z.in(nx, ny) && !z.isnd(nx, ny) && z(nx, ny) < z(x, y);
        if (low && !(diag && topo == 4)) lower = true;
        if (c[n] > 0) {
          flows++;
          PBT_CHECK(c[n] == 1, "props", "proportion ", c[n]);
          PBT_CHECK(low, "props", "cell (", x, ",", y, ") flows to neighbour ", n, ", which is not lower");
          PBT_CHECK(!(diag && topo == 4), "props", "cell (", x, ",", y, ") flows diagonally in D4");
        }
      }
      PBT_CHECK(flows <= 1, "props", flows, " receivers");
      if (!z.edge(x, y)) PBT_CHECK(flows == (int)lower, "props", "cell (", x, ",", y, ") has ", flows, " receivers and ", lower ? "a" : "no", " lower neighbour");
    }
}
void random_accum(const PyDem &d, const std::vector<double> &a, int topo) {
  auto &z = d.z;
  for (int y = 0; y < z.h; y++)
    for (int x = 0; x < z.w; x++) {
      if (z.isnd(x, y)) {
        PBT_CHECK(a[(size_t)y * z.w + x] == -1, "accum", "NoData cell has ", a[(size_t)y * z.w + x]);
        continue;
      }
      double v = a[(size_t)y * z.w + x], most = 0, most_d4 = 0, into = 1;
      PBT_CHECK(v >= 1 && v == std::floor(v) && v <= (double)z.size(), "accum", "cell (", x, ",", y, ") has ", v);
      bool lower = false;
      for (int n = 1; n <= 8; n++) {
        int nx = x + DX8[n], ny = y + DY8[n];
        if (!z.in(nx, ny) || z.isnd(nx, ny)) continue;
        bool diag = DX8[n] && DY8[n];
        if (diag && topo == 4) continue;
        double w = a[(size_t)ny * z.w + nx];
        if (z(nx, ny) < z(x, y)) lower = true, most = std::max(most, w);
        else if (z(nx, ny) > z(x, y)) into += w;
      }
      (void)most_d4;
      if (lower && !z.edge(x, y)) PBT_CHECK(most >= v + 1, "accum", "cell (", x, ",", y, ") has ", v, " and no lower neighbour more than that");
      PBT_CHECK(v <= into, "accum", "cell (", x, ",", y, ") has ", v, ", its higher neighbours can give ", into - 1);
    }
}

void accumulate(pbt::Source &s) {
  const Method &m = METHODS[s.draw(sizeof METHODS / sizeof *METHODS)];
  DemOpts o;
  flow_opts(s, o);
  auto d = pydem(s, o, true);
  auto &z = d.z;
  double ex = s.pick({1.1, 0.5, 4.0});
  bool from_props = s.coin(1, 3) && !m.random;
  int wt = m.random ? 0 : (int)s.draw(4);  // 0: no weights, 1: a NumPy array, 2: an rdarray, 3: as 1, in place
  bool in_place = wt == 3 || (wt == 2 && s.coin());
  s.note(m.name, m.exponent ? pbt::str(" exponent ", ex) : "", from_props ? " from proportions" : "", " weights ", wt, in_place ? " in place" : "");
  s.label(m.name);
  for (int y = 0; y < z.h; y++)
    for (int x = 0; x + 1 < z.w; x++) s.nontrivial(!z.isnd(x, y) && !z.isnd(x + 1, y) && z(x, y) != z(x + 1, y));
  Array2D<double> acc(z.w, z.h, 1);
  acc.setNoData(-1);
  pyco::Request q;
  d.add(q);
  std::string kw = std::string("\"method\":\"") + m.name + "\"", kw2;
  if (m.exponent) kw += ",\"exponent\":" + pbt::str(ex);
  if (wt) {
    for (int i = 0; i < (int)z.size(); i++) acc(i) = s.pick({1.0, 0.5, 3.25, 0.0});
    pyco::Attrs at;
    at.rd = wt == 2;
    at.nd = "i:-1";
    std::vector<double> v(z.size());
    for (int i = 0; i < (int)z.size(); i++) v[i] = acc(i);
    q.array("w", v, {z.h, z.w}, layout(s), at);
    kw2 = "\"weights\":\"$w\"";
    if (in_place || s.coin()) kw2 += std::string(",\"in_place\":") + (in_place ? "true" : "false");
  }
  const char *fn = "FlowAccumulation";
  if (from_props) {
    q.call("FlowProportions", "\"$dem\"", kw, "\"p\"");
    q.call(fn = "FlowAccumFromProps", "\"$p\"", kw2, "\"r\"");
  } else
    q.call(fn, "\"$dem\"", kw + (kw2.empty() ? "" : "," + kw2), "\"r\"");
  q.want("r");
  if (wt) q.want("w"), q.share("r", "w");
  auto r = pyco::python().ask(q);
  no_exc(r);
  untouched(r, "dem");
  auto got = r.a["r"].as<double>();
  if (m.random) random_accum(d, got, m.random);
  else {
    m.fa(d.lib(), acc, ex);
    equal(got, acc, "result");
  }
  if (wt) {
    PBT_CHECK(r.yes("shares.r.w") == in_place, "view", in_place ? "the result is no view of the weights" : "the result is a view of the weights");
    if (in_place) {
      equal(r.a["w"].as<double>(), acc, "weights-in-place");
      PBT_CHECK(r.yes("w.outside_ok"), "outside-altered", "");
    } else
      untouched(r, "w");
  }
  auto d2 = d;
  if (from_props) {
    // the history of the proportions comes first
    auto h = r.meta("r")["PROCESSING_HISTORY"];
    auto i = h.rfind('\n');
    d2.meta["PROCESSING_HISTORY"] = h.substr(0, i == h.npos ? 0 : i);
    PBT_CHECK(d2.meta["PROCESSING_HISTORY"].find("FlowProportions") != std::string::npos, "history", "the proportions are not in the history: ", h);
  }
  enriched(r, "r", d2, -1, fn);
}

void proportions(pbt::Source &s) {
  const Method &m = METHODS[s.draw(sizeof METHODS / sizeof *METHODS)];
  DemOpts o;
  flow_opts(s, o);
  auto d = pydem(s, o, true);
  auto &z = d.z;
  double ex = s.pick({1.1, 0.5, 4.0});
  bool gone = s.coin(1, 4);  // the DEM is released before the result is read
  s.note(m.name, m.exponent ? pbt::str(" exponent ", ex) : "");
  s.label(m.name);
  for (int y = 0; y < z.h; y++)
    for (int x = 0; x + 1 < z.w; x++) s.nontrivial(!z.isnd(x, y) && !z.isnd(x + 1, y) && z(x, y) != z(x + 1, y));
  pyco::Request q;
  d.add(q);
  std::string kw = std::string("\"method\":\"") + m.name + "\"";
  if (m.exponent) kw += ",\"exponent\":" + pbt::str(ex);
  q.call("FlowProportions", "\"$dem\"", kw, "\"r\"");
  if (gone) q.call("del", "\"$dem\"");
  q.want("r");
  auto r = pyco::python().ask(q);
  no_exc(r);
  if (!gone) untouched(r, "dem");
  PBT_CHECK(r.a.count("r") && (r.a["r"].shape == std::vector<int>{z.h, z.w, 9}), "shape", "");
  auto got = r.a["r"].as<float>();
  if (m.random) random_props(d, got, m.random);
  else {
    auto e = d.lib();
    Array3D<float> p(e);
    m.fm(e, p, ex);
    for (int y = 0; y < z.h; y++)
      for (int x = 0; x < z.w; x++)
        for (int n = 0; n < 9; n++) PBT_CHECK(same_bits(got[((size_t)y * z.w + x) * 9 + n], p(x, y, n)), "result", "cell (", x, ",", y, ") element ", n, " is ", got[((size_t)y * z.w + x) * 9 + n], ", the library gives ", p(x, y, n));
  }
  enriched(r, "r", d, -2, "FlowProportions");
}

void attribute(pbt::Source &s) {
  static const char *AN[] = {"slope_riserun", "slope_percentage", "slope_degrees", "slope_radians", "aspect", "curvature", "planform_curvature", "profile_curvature"};
  int k = s.draw(8);
  DemOpts o;
  flow_opts(s, o);
  auto d = pydem(s, o);
  float zs = s.pick({1.0f, 2.0f, 0.25f});
  s.note(AN[k], " zscale ", zs);
  s.label(AN[k]);
  auto a = d.lib();
  Array2D<float> out;
  out.setNoData(-9999);
  switch (k) {
    case 0: TA_slope_riserun(a, out, zs); break;
    case 1: TA_slope_percentage(a, out, zs); break;
    case 2: TA_slope_degrees(a, out, zs); break;
    case 3: TA_slope_radians(a, out, zs); break;
    case 4: TA_aspect(a, out, zs); break;
    case 5: TA_curvature(a, out, zs); break;
    case 6: TA_planform_curvature(a, out, zs); break;
    case 7: TA_profile_curvature(a, out, zs); break;
  }
  for (int i = 0; i < (int)d.z.size(); i++) s.nontrivial(out(i) != 0 && out(i) != -9999 && out(i) != -1);
  pyco::Request q;
  d.add(q);
  std::string kw = std::string("\"attrib\":\"") + AN[k] + "\"";
  if (zs != 1 || s.coin()) kw += ",\"zscale\":" + pbt::str(zs);
  q.call("TerrainAttribute", "\"$dem\"", kw, "\"r\"");
  q.want("r");
  auto r = pyco::python().ask(q);
  no_exc(r);
  untouched(r, "dem");
  equal(r.a["r"].as<float>(), out, "result");
  enriched(r, "r", d, -9999, "TerrainAttribute");
}

// what has to be refused is refused, and changes nothing
void refuse(pbt::Source &s) {
  auto d = pydem(s);
  pyco::Request q;
  int k = s.draw(10);
  static const char *KN[] = {"no element type of the library", "foreign byte order", "topology", "method", "exponent missing", "attribute", "weights of another type", "no NoData value", "three dimensions", "epsilon topology"};
  s.note(KN[k]);
  s.label(KN[k]);
  s.nontrivial();
  if (k == 0) d.at.cast = s.pick<const char *>({"bool", "complex64", "float16", "complex128"});
  if (k == 1) {
    if (sizeof(T) == 1) throw pbt::Discard{};
    d.at.cast = std::string(">") + (std::is_floating_point<T>::value ? "f" : std::is_signed<T>::value ? "i" : "u") + std::to_string(sizeof(T));
  }
  if (k == 8) q.array("dem", d.z.v, {d.z.h, d.z.w, 1}, 'C', d.at);
  else d.add(q);
  const std::string D = "\"$dem\"";
  bool values = k != 7;
  switch (k) {
    case 0:
    case 1:
    case 8: {
      switch (s.draw(5)) {
        case 0: q.call("FillDepressions", D, "\"in_place\":true"); break;
        case 1: q.call("BreachDepressions", D); break;
        case 2: q.call("ResolveFlats", D); break;
        case 3: q.call("TerrainAttribute", D, "\"attrib\":\"aspect\""); break;
        case 4: q.call("FlowAccumulation", D, "\"method\":\"D8\""); break;
      }
      values = false;
      break;
    }
    case 2: q.call(s.pick<const char *>({"FillDepressions", "BreachDepressions"}), D, "\"topology\":\"D6\""); break;
    case 9: q.call("FillDepressions", D, "\"epsilon\":true,\"topology\":\"d8\""); break;
    case 3: q.call(s.pick<const char *>({"FlowAccumulation", "FlowProportions"}), D, s.coin() ? "" : "\"method\":\"D9\""); break;
    case 4: q.call(s.pick<const char *>({"FlowAccumulation", "FlowProportions"}), D, s.coin() ? "\"method\":\"Freeman\"" : "\"method\":\"Holmgren\""); break;
    case 5: q.call("TerrainAttribute", D, "\"attrib\":\"slope\""); break;
    case 6: {
      std::vector<float> v(d.z.size(), 1);
      pyco::Attrs at;
      at.rd = s.coin();
      q.array("w", v, {d.z.h, d.z.w}, layout(s), at);
      q.call("FlowAccumulation", D, std::string("\"method\":\"D8\",\"weights\":\"$w\",\"in_place\":") + (s.coin() ? "true" : "false"));
      break;
    }
    case 7: {
      std::vector<float> v(4, 1);
      pyco::Attrs at;
      at.rd = false;
      q.array("plain", v, {2, 2}, 'C', at);
      q.call("rdarray", "\"$plain\"");
    }
  }
  auto r = pyco::python().ask(q);
  PBT_CHECK(r.has("exc"), "accepted", KN[k], ": no exception");
  if (values) PBT_CHECK(r.yes("dem.same_values"), "argument-altered", "");
}

#ifdef TYDOUBLE
std::string dep_text(const dephier::DepressionHierarchy<double> &deps) {
  std::string o;
  auto h = [](double v) { return pbt::str(std::setprecision(17), v); };
  for (auto &d : deps) {
    o += pbt::str(d.pit_cell, " ", d.out_cell, " ", d.parent, " ", d.odep, " ", d.geolink, " ", h(d.pit_elev), " ", h(d.out_elev), " ", d.lchild, " ", d.rchild, " ", (int)d.ocean_parent, " ", d.dep_label, " ", d.cell_count, " ", h(d.dep_vol), " ", h(d.water_vol), " ", h(d.total_elevation));
    for (auto l : d.ocean_linked) o += " " + std::to_string(l);
    o += "\n";
  }
  return o;
}
void same_deps(const std::string &got, const std::string &want, const char *tag) {
  std::istringstream a(got), b(want);
  std::string x, y;
  int line = 0;
  while (true) {
    bool p = (bool)std::getline(a, x), q = (bool)std::getline(b, y);
    PBT_CHECK(p == q, tag, "one has more depressions\n", got, "\n", want);
    if (!p) return;
    std::istringstream u(x), v(y);
    std::string e, f;
    int col = 0;
    while (true) {
      bool pp = (bool)(u >> e), qq = (bool)(v >> f);
      PBT_CHECK(pp == qq && (!pp || same_bits(strtod(e.c_str(), 0), strtod(f.c_str(), 0))), tag, "depression ", line, " field ", col, ": ", e, ", the library gives ", f);
      if (!pp) break;
      col++;
    }
    line++;
  }
}
void hierarchy(pbt::Source &s) {
  DemOpts o;
  o.nodata = false;
  o.extremes = false;
  auto d = pydem(s, o);
  auto &z = d.z;
  bool helper = s.coin(1, 3), fsm = s.coin(2, 3);
  Array2D<dephier::dh_label_t> label(z.w, z.h, dephier::NO_DEP);
  Array2D<flowdir_t> dirs(z.w, z.h, NO_FLOW);
  for (int y = 0; y < z.h; y++)
    for (int x = 0; x < z.w; x++)
      if (z.edge(x, y) || (!helper && s.coin(1, 20))) label(x, y) = dephier::OCEAN;
  if (helper && (z.w < 2 || z.h < 2)) throw pbt::Discard{};
  auto e = d.lib();
  pyco::Request q;
  d.add(q);
  if (helper) q.call("labels", "\"$dem\"", "", "\"labels\"");
  else {
    std::vector<uint32_t> v(z.size());
    for (int i = 0; i < (int)z.size(); i++) v[i] = label(i);
    pyco::Attrs at;
    at.nd = "i:-9999";
    q.array("labels", v, {z.h, z.w}, layout(s), at);
  }
  q.call("get_depression_hierarchy", "\"$dem\",\"$labels\"", "", "[\"deps\",\"dirs\"]");
  Array2D<double> wtd(z.w, z.h, 0);
  if (fsm) {
    for (int i = 0; i < (int)z.size(); i++) wtd(i) = s.pick({0.0, 1.0, 0.25, 7.0});
    std::vector<double> v(z.size());
    for (int i = 0; i < (int)z.size(); i++) v[i] = wtd(i);
    pyco::Attrs at;
    q.array("wtd", v, {z.h, z.w}, layout(s), at);
    q.call("fill_spill_merge", "\"$dem\",\"$labels\",\"$dirs\",\"$deps\",\"$wtd\"");
  }
  q.want("labels"), q.want("dirs"), q.want("deps"), q.want("wtd");
  s.note(helper ? "labels from the helper" : "labels drawn", fsm ? ", then fill-spill-merge" : "", "\n", show(label), show(wtd));
  dephier::DepressionHierarchy<double> deps;
  bool refused = false;
  try {
    deps = dephier::GetDepressionHierarchy<double, Topology::D8>(e, label, dirs);
    s.nontrivial(deps.size() > 2);
    if (fsm) dephier::FillSpillMerge(e, label, dirs, deps, wtd);
  } catch (const std::exception &) {
    refused = true;  // nothing but ocean
  }
  auto r = pyco::python().ask(q);
  PBT_CHECK(r.has("exc") == refused, "exception", refused ? "the library refuses this, Python does not" : r.get("exc"));
  if (refused) return;
  untouched(r, "dem");
  equal(r.a["labels"].as<uint32_t>(), label, "labels");
  {
    auto got = r.a["dirs"].as<int8_t>();
    for (int i = 0; i < (int)z.size(); i++) PBT_CHECK((int)got[i] == (int)(int8_t)dirs(i), "flowdirs", "cell ", i, " has ", (int)got[i], ", the library gives ", (int)dirs(i));
  }
  if (!helper) PBT_CHECK(r.yes("labels.outside_ok"), "outside-altered", "");
  if (fsm) {
    equal(r.a["wtd"].as<double>(), wtd, "wtd");
    PBT_CHECK(r.yes("wtd.outside_ok"), "outside-altered", "");
  }
  same_deps(r.get("deps"), dep_text(deps), "depressions");
}
void perlin(pbt::Source &s) {
  int n = s.range(1, 30);
  uint32_t seed = s.range(0, 5000);
  s.nontrivial(n > 1);
  s.note("size ", n, " seed ", seed);
  Array2D<double> a(n, n, 0);
  generate_perlin_terrain(a, seed);
  pyco::Request q;
  q.call("generate_perlin_terrain", pbt::str(n, ",", seed), "", "\"r\"");
  q.call("FlowProportions", "\"$r\"", "\"method\":\"D8\"");  // what it returns can be worked on
  q.want("r");
  auto r = pyco::python().ask(q);
  no_exc(r);
  equal(r.a["r"].as<double>(), a, "result");
}
PBT_PROP("hierarchy", QN, QN * 20, hierarchy);
PBT_PROP("perlin", QN / 8, QN, perlin);
#endif
}  // namespace

#define STR2(x) #x
#define STR(x) STR2(x)
static void api(pbt::Source &s) {
  switch (s.weighted({28, 30, 18, 18, 6})) {
    case 0: return alter(s);
    case 1: return accumulate(s);
    case 2: return proportions(s);
    case 3: return attribute(s);
    case 4: return refuse(s);
  }
}
PBT_PROP("api_" STR(TY), QN, QN * 20, api);
