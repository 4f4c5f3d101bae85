// P22: what the Python wrapper does around the computations: loading, saving, metadata, history, command-line tools
#include <richdem/common/timer.hpp>
#include <richdem/depressions/depressions.hpp>
#include <richdem/flats/flats.hpp>
#include <richdem/methods/flow_accumulation.hpp>
#include <richdem/methods/terrain_attributes.hpp>
#include <filesystem>
#include <regex>
#include "gen.hpp"
#include "pyco.hpp"
using namespace richdem;
using namespace gen;
using T = TY;

namespace {
#ifdef TYDOUBLE
pbt::RuleRegistrar rr("cases: rasters of the types GDAL shares with the wrapper (and its 64-bit and 8-bit integers for saving), with geotransforms, projections, metadata and NoData values: saved and loaded through Python, through C++ and across; sequences of operations whose histories are followed; the command-line tools on files, against the library; non-trivial: more than one cell and a geotransform or metadata",
                      {"64-bit integers below 2^53 (they are saved as doubles)", "metadata keys are identifiers", "no NaN"});
#endif
using Meta = std::map<std::string, std::string>;

struct Sample {
  Grid<T> z;
  bool none = false;
  std::array<double, 6> gt{{0, 1, 0, 0, 0, -1}};
  std::string gtj = "null", proj;
  Meta meta;
  pyco::Attrs at;
};
const char *PROJ[] = {"", "GEOGCS[\"WGS 84\",DATUM[\"WGS_1984\",SPHEROID[\"WGS 84\",6378137,298.257223563,AUTHORITY[\"EPSG\",\"7030\"]],AUTHORITY[\"EPSG\",\"6326\"]],PRIMEM[\"Greenwich\",0,AUTHORITY[\"EPSG\",\"8901\"]],UNIT[\"degree\",0.0174532925199433,AUTHORITY[\"EPSG\",\"9122\"]],AXIS[\"Latitude\",NORTH],AXIS[\"Longitude\",EAST],AUTHORITY[\"EPSG\",\"4326\"]]"};

Sample sample(pbt::Source &s, bool flow = false) {
  Sample r;
  DemOpts o;
  o.max_dim = 20;
  o.extremes = sizeof(T) < 8;
  if (flow) o.extremes = false, o.nodata_edge_d4 = false;
  r.z = dem<T>(s, o);
  auto &z = r.z;
  if (std::is_floating_point<T>::value && !flow && s.coin(1, 3)) {
    // values which need every digit
    for (auto &v : z.v)
      if (v != z.nd) v = (T)s.real(-1e4, 1e4);
  }
  if (!std::is_floating_point<T>::value && !flow && s.coin(1, 3)) {
    int64_t big = sizeof(T) >= 8 ? (int64_t(1) << 53) - 5 : sizeof(T) == 4 ? (int64_t)std::numeric_limits<T>::max() : 100;
    for (auto &v : z.v)
      if (v != z.nd) v = (T)(big - s.draw(20));
  }
  if (sizeof(T) == 8 && std::numeric_limits<T>::is_integer && std::numeric_limits<T>::is_signed && std::abs((double)z.nd) > 1e15) {
    for (auto &v : z.v)
      if (v == z.nd) v = (T)-9999;
    z.nd = (T)-9999;
  }
  r.none = !flow && s.coin(1, 6);
  if (!r.none) {
    double l = s.pick({1.0, 30.0, 0.25, 1.0 / 3});
    r.gt = {{s.pick({0.0, 100.5, -7.25}), l, s.coin(1, 5) ? 0.125 : 0.0, s.pick({0.5, -3.0, 1e6}), s.coin(1, 5) ? -0.5 : 0.0, flow || s.coin() ? -l : 2 * l}};
    r.gtj = std::string("[\"") + s.pick<const char *>({"tuple", "list", "numpy"}) + "\",[";
    for (int i = 0; i < 6; i++) r.gtj += (i ? "," : "") + pyco::js(pyco::hexd(r.gt[i]));
    r.gtj += "]]";
    r.proj = PROJ[s.draw(2)];
  }
  if (s.coin()) r.meta["PLACE"] = s.pick<const char *>({"somewhere", "a \"quoted\" <place> & more", "two\nlines", "a=b=c", "Zürich"});
  if (s.coin()) r.meta["N2"] = "17";
  if (s.coin()) r.meta["PROCESSING_HISTORY"] = s.pick<const char *>({"\n2020-01-01 | something | earlier", "\nfirst\nsecond line | x=y"});
  std::string j;
  for (auto &e : r.meta) j += (j.empty() ? "" : ",") + pyco::js(e.first) + ":" + pyco::js(e.second);
  r.at.meta = "{" + j + "}";
  r.at.gt = r.gtj;
  r.at.proj = r.proj;
  r.at.nd = std::is_floating_point<T>::value ? "d:" + pyco::hexd((double)z.nd) : s.coin() || sizeof(T) == 8 ? pbt::str("i:", +z.nd) : "d:" + pyco::hexd((double)z.nd);
  s.note("geotransform ", r.gtj, " projection ", r.proj.substr(0, 20), " metadata ", r.at.meta, " nodata ", r.at.nd, "\n", show(z));
  s.nontrivial(z.size() > 1 && (!r.none || !r.meta.empty()));
  return r;
}
Array2D<T> lib(const Sample &m) {
  auto a = to_array(m.z);
  a.geotransform.assign(m.gt.begin(), m.gt.end());
  a.projection = m.proj;
  a.metadata = m.meta;
  return a;
}
void no_exc(const pyco::Reply &r) { PBT_CHECK(!r.has("exc"), "exception", r.get("exc"), " at ", r.get("exc_at")); }
struct Dir {  // a directory of this case
  std::string d = pbt::worker_dir() + "/p22";
  Dir() {
    std::filesystem::remove_all(d);
    std::filesystem::create_directories(d);
  }
  ~Dir() { std::filesystem::remove_all(d); }
  std::string operator()(const char *n) const { return d + "/" + n; }
};
// any numeric array of the reply, as doubles
std::vector<double> numbers(const pyco::Arr &a) {
  std::vector<double> o;
  auto put = [&](auto v) {
    for (auto x : v) o.push_back((double)x);
  };
  if (a.dtype == "uint8") put(a.as<uint8_t>());
  else if (a.dtype == "int16") put(a.as<int16_t>());
  else if (a.dtype == "uint16") put(a.as<uint16_t>());
  else if (a.dtype == "int32") put(a.as<int32_t>());
  else if (a.dtype == "uint32") put(a.as<uint32_t>());
  else if (a.dtype == "float32") put(a.as<float>());
  else if (a.dtype == "float64") put(a.as<double>());
  else pbt::fail("dtype", "loaded as " + a.dtype);
  return o;
}
template <class U>
void same_numbers(const pyco::Arr &a, int w, int h, const std::vector<U> &want, const char *tag) {
  PBT_CHECK(a.shape == (std::vector<int>{h, w}), tag, "dimensions differ");
  auto g = numbers(a);
  for (size_t i = 0; i < g.size(); i++) PBT_CHECK(g[i] == (double)want[i], tag, "cell ", i, " is ", pbt::str(std::setprecision(17), g[i]), ", expected ", pbt::str(std::setprecision(17), (double)want[i]));
}
void same_gt(const std::string &got, const std::array<double, 6> &gt) {
  std::istringstream a(got);
  for (auto x : gt) {
    std::string u;
    a >> u;
    PBT_CHECK(strtod(u.c_str(), 0) == x, "geotransform", "is ", got);
  }
}
std::string hist(const Meta &m) {
  auto i = m.find("PROCESSING_HISTORY");
  return i == m.end() ? "" : i->second;
}
// `now` is `was` and a number of lines, each saying when, what and by whom
std::string lstrip(std::string t) {  // GeoTIFF drops the white space in front of an item
  while (!t.empty() && isspace((unsigned char)t[0])) t.erase(0, 1);
  return t;
}
void grew(const std::string &was0, const std::string &now0, int lines, std::initializer_list<const char *> words) {
  auto was = lstrip(was0), now = lstrip(now0);
  PBT_CHECK(now.compare(0, was.size(), was) == 0, "history-lost", "it was: ", was, "\nit is: ", now);
  std::string add = (was.empty() && lines ? "\n" : "") + now.substr(was.size());
  PBT_CHECK(std::count(add.begin(), add.end(), '\n') == lines && (!lines || add[0] == '\n'), "history-lines", lines, " lines expected: ", add);
  std::istringstream s(add.empty() ? add : add.substr(1));
  std::string l;
  auto w = words.begin();
  while (std::getline(s, l)) {
    static const std::regex form("[0-9]{4}-[0-9]{2}-[0-9]{2} [0-9]{2}:[0-9]{2}:[0-9]{2}(\\.[0-9]+)? UTC \\| RichDEM .*hash=verif.* \\| .+");
    PBT_CHECK(std::regex_match(l, form), "history-form", l);
    PBT_CHECK(w == words.end() || l.find(*w) != l.npos, "history-what", l, " does not mention ", *w);
    if (w != words.end()) w++;
  }
}
void same_meta(Meta got, const Meta &want, std::initializer_list<const char *> ignore) {
  for (auto k : ignore) got.erase(k);
  got.erase("PROCESSING_HISTORY");
  for (auto &e : want)
    if (e.first != "PROCESSING_HISTORY") PBT_CHECK(got.count(e.first) && got[e.first] == e.second, "metadata", e.first, " is '", got[e.first], "', expected '", e.second, "'");
  for (auto &e : got) PBT_CHECK(want.count(e.first) || e.first == "AREA_OR_POINT", "metadata", e.first, " appeared");
}

// Python saves; Python and C++ load
void save(pbt::Source &s) {
  Sample m = sample(s);
  Dir dir;
  auto f = dir("x.tif");
  char lay = s.pick({'C', 'F', 'S', 'R', 'X', 'T'});
  bool other_nd = s.coin(1, 4);
  const int onv = s.pick({5, 0, 1, 100});
  pyco::Request q;
  q.array("a", m.z.v, {m.z.h, m.z.w}, lay, m.at);
  q.call("SaveGDAL", pyco::js(f) + ",\"$a\"");
  q.call("LoadGDAL", pyco::js(f), other_nd ? pbt::str("\"no_data\":", onv) : "", "\"r\"");
  q.want("r");
  auto r = pyco::python().ask(q);
  no_exc(r);
  PBT_CHECK(r.yes("a.same_values") && r.yes("a.same_attrs") && r.yes("a.same_meta") && r.yes("a.outside_ok"), "argument-altered", "SaveGDAL altered the array");
  same_numbers(r.a["r"], m.z.w, m.z.h, m.z.v, "values");
  PBT_CHECK(strtold(r.get("r.nd").c_str(), 0) == (other_nd ? onv : (long double)m.z.nd), "no_data", "is ", r.get("r.nd"));
  auto meta = r.meta("r");
  if (!m.none) {
    same_gt(r.get("r.gt"), m.gt);
    PBT_CHECK(m.proj.empty() ? r.get("r.proj").empty() : r.get("r.proj").find("\"EPSG\",\"4326\"") != std::string::npos, "projection", r.get("r.proj"));
  }
  same_meta(meta, m.meta, {});
  grew(hist(m.meta), hist(meta), 1, {"LoadGDAL"});
  {  // the library reads the same
#ifdef SAVE_ONLY
    using U = double;  // types the library does not load
#else
    using U = T;
#endif
    Array2D<U> a(f);
    PBT_CHECK(a.width() == m.z.w && a.height() == m.z.h, "cpp-dims", "");
    for (size_t i = 0; i < m.z.size(); i++) PBT_CHECK(a(i) == m.z.v[i], "cpp-values", "cell ", i, " is ", +a(i), " in C++");
    PBT_CHECK(a.noData() == m.z.nd, "cpp-no_data", +a.noData());
    if (!m.none) PBT_CHECK(std::equal(m.gt.begin(), m.gt.end(), a.geotransform.begin()), "cpp-geotransform", "");
    same_meta(a.metadata, m.meta, {});
    PBT_CHECK(lstrip(hist(a.metadata)) == lstrip(hist(m.meta)), "cpp-history", hist(a.metadata));
  }
}
#ifndef SAVE_ONLY
// C++ saves; Python loads
void load(pbt::Source &s) {
  Sample m = sample(s);
  Dir dir;
  auto f = dir("x.tif");
  auto a = lib(m);
  a.saveGDAL(f, "an analysis", 0, 0, s.coin());
  const bool bare = s.coin(1, 5), given = s.coin();  // a file that does not say what its NoData value is
  const int onv = s.pick({0, 5, 1, 100});
  if (bare) {
    auto d = (GDALDataset *)GDALOpen(f.c_str(), GA_Update);
    d->GetRasterBand(1)->DeleteNoDataValue();
    GDALClose(d);
  }
  s.note(bare ? "without NoData value" : "", given ? " loaded with one" : "");
  pyco::Request q;
  q.call("LoadGDAL", pyco::js(f), given ? pbt::str("\"no_data\":", onv) : "", "\"r\"");
  q.want("r");
  auto r = pyco::python().ask(q);
  if (bare && !given) {
    PBT_CHECK(r.has("exc"), "nodata-unknown", "a file without NoData value was loaded without giving one");
    return;
  }
  no_exc(r);
  PBT_CHECK(r.a["r"].dtype == pyco::dtype<T>(), "dtype", r.a["r"].dtype);
  same_numbers(r.a["r"], m.z.w, m.z.h, m.z.v, "values");
  PBT_CHECK(strtold(r.get("r.nd").c_str(), 0) == (given ? onv : (long double)m.z.nd), "no_data", "is ", r.get("r.nd"));
  if (!m.none) same_gt(r.get("r.gt"), m.gt);
  same_meta(r.meta("r"), m.meta, {"TIFFTAG_DATETIME", "TIFFTAG_SOFTWARE"});
  grew(hist(m.meta), hist(r.meta("r")), 2, {"an analysis", "LoadGDAL"});
}

// A history of operations on one DEM
void chain(pbt::Source &s) {
  Sample m = sample(s, true);
  Dir dir;
  pyco::Request q;
  q.array("v0", m.z.v, {m.z.h, m.z.w}, s.pick({'C', 'F', 'S'}), m.at);
  int n = s.range(1, 6), cur = 0, lines = 0;
  std::vector<std::string> names{"v0"};
  std::vector<const char *> words;
  auto ref = lib(m);
  std::string desc;
  std::vector<std::string> keep;
  std::vector<int> keep_lines;
  for (int i = 0; i < n; i++) {
    std::string v = "v" + std::to_string(cur), w = "v" + std::to_string(i + 1);
    bool in_place = s.coin();
    switch (s.draw(5)) {
      case 0:
        if (in_place) q.call("FillDepressions", pyco::js("$" + v), "\"in_place\":true");
        else q.call("FillDepressions", pyco::js("$" + v), "", pyco::js(w)), cur = i + 1;
        PriorityFlood_Zhou2016(ref);
        desc += in_place ? " fill!" : " fill";
        words.push_back("FillDepressions");
        lines++;
        break;
      case 1:
        if (in_place) q.call("BreachDepressions", pyco::js("$" + v), "\"in_place\":true");
        else q.call("BreachDepressions", pyco::js("$" + v), "", pyco::js(w)), cur = i + 1;
        BreachDepressions<Topology::D8>(ref);
        desc += in_place ? " breach!" : " breach";
        words.push_back("BreachDepressions");
        lines++;
        break;
      case 2:
        if (in_place) q.call("ResolveFlats", pyco::js("$" + v), "\"in_place\":true");
        else q.call("ResolveFlats", pyco::js("$" + v), "", pyco::js(w)), cur = i + 1;
        ResolveFlatsEpsilon(ref);
        desc += in_place ? " flats!" : " flats";
        words.push_back("ResolveFlats");
        lines++;
        break;
      case 3: {
        auto f = dir(("s" + std::to_string(i) + ".tif").c_str());
        q.call("SaveGDAL", pyco::js(f) + "," + pyco::js("$" + v));
        q.call("LoadGDAL", pyco::js(f), "", pyco::js(w));
        cur = i + 1;
        desc += " save+load";
        words.push_back("LoadGDAL");
        lines++;
        break;
      }
      case 4: {  // something made of it: the DEM keeps its own history
        std::string d = "d" + std::to_string(i);
        if (in_place) q.call("FlowAccumulation", pyco::js("$" + v), "\"method\":\"D8\"", pyco::js(d));
        else q.call("TerrainAttribute", pyco::js("$" + v), "\"attrib\":\"aspect\"", pyco::js(d));
        keep.push_back(d);
        keep_lines.push_back(lines + 1);
        q.want(d);
        desc += in_place ? " accum" : " aspect";
        break;
      }
    }
  }
  s.note(desc);
  s.nontrivial(lines > 1);
  std::string last = "v" + std::to_string(cur);
  q.want(last);
  auto r = pyco::python().ask(q);
  no_exc(r);
  PBT_CHECK(r.a.count(last), "missing", "");
  std::vector<T> want(ref.size());
  for (size_t i = 0; i < want.size(); i++) want[i] = ref(i);
  same_numbers(r.a[last], m.z.w, m.z.h, want, "values");
  same_gt(r.get(last + ".gt"), m.gt);
  PBT_CHECK(strtold(r.get(last + ".nd").c_str(), 0) == (long double)m.z.nd, "no_data", "is ", r.get(last + ".nd"));
  auto meta = r.meta(last);
  same_meta(meta, m.meta, {});
  grew(hist(m.meta), hist(meta), lines, {});
  std::istringstream h(lstrip(lstrip(hist(meta)).substr(lstrip(hist(m.meta)).size())));
  std::string l;
  for (auto w : words) {
    std::getline(h, l);
    PBT_CHECK(l.find(w) != l.npos, "history-what", l, " does not mention ", w);
  }
  for (size_t i = 0; i < keep.size(); i++) {
    grew(hist(m.meta), hist(r.meta(keep[i])), keep_lines[i], {});
    same_gt(r.get(keep[i] + ".gt"), m.gt);
  }
}

// rdarray: a view of the data; what is derived from one keeps its attributes
void views(pbt::Source &s) {
  Sample m = sample(s);
  pyco::Request q;
  pyco::Attrs np = m.at;
  np.rd = false;
  q.array("n", m.z.v, {m.z.h, m.z.w}, s.pick({'C', 'F', 'S', 'R'}), np);
  q.call("rdarray", "\"$n\"", pbt::str("\"no_data\":", m.z.nd == std::floor((double)m.z.nd) && std::abs((double)m.z.nd) < 1e15 ? pbt::str((int64_t)m.z.nd) : "-3"), "\"r\"");
  q.call("FillDepressions", "\"$r\"", "\"in_place\":true");
  q.want("n"), q.want("r"), q.share("n", "r");
  pyco::Request q2;
  q2.array("a", m.z.v, {m.z.h, m.z.w}, 'C', m.at);
  q2.call("rdarray_like", "\"$a\"", "", "\"b\"");
  q2.want("b");
  q2.share("a", "b");
  auto r = pyco::python().ask(q);
  no_exc(r);
  PBT_CHECK(r.yes("shares.n.r"), "view", "rdarray() copied the data");
  PBT_CHECK(r.a["n"].bytes == r.a["r"].bytes, "view-values", "what was computed in place did not reach the NumPy array");
  r = pyco::python().ask(q2);
  no_exc(r);
  PBT_CHECK(strtold(r.get("b.nd").c_str(), 0) == (long double)m.z.nd, "like-no_data", r.get("b.nd"));
  if (!m.none) same_gt(r.get("b.gt"), m.gt);
  PBT_CHECK(r.get("b.proj") == m.proj, "like-projection", "");
  PBT_CHECK(r.meta("b") == m.meta, "like-metadata", "");
}

// the command-line tools
void tools(pbt::Source &s) {
  Sample m = sample(s, true);
  Dir dir;
  auto f = dir("in.tif"), g = dir("out.tif");
  auto a = lib(m);
  auto orig = a;
  a.saveGDAL(f, "made");
  int k = s.draw(4);
  pyco::Request q;
  std::vector<double> want;
  long double nd = m.z.nd;
  std::string argv = pyco::js(f) + "," + pyco::js(g), cmd;
  auto take = [&](const auto &x) {
    for (int i = 0; i < (int)x.size(); i++) want.push_back((double)x(i));
  };
  auto refdem = orig;
  bool refused = false;
  if (k == 0) {
    bool eps = s.coin();
    cmd = "cli.DepressionFilling";
    if (eps) argv = (s.coin() ? "\"-g\"," : "\"--gradient\",") + argv;
    try {
      if (eps) PriorityFloodEpsilon_Barnes2014<Topology::D8, T>(refdem);
      else PriorityFlood_Zhou2016(refdem);
      take(refdem);
    } catch (const std::exception &) {
      refused = true;
    }
  } else if (k == 1) {
    cmd = "cli.BreachDepressions";
    BreachDepressions<Topology::D8>(refdem);
    take(refdem);
  } else if (k == 2) {
    cmd = "cli.FlowAccumulation";
    Array2D<double> acc(orig, 1);
    acc.setAll(1);
    acc.setNoData(-1);
    switch (s.draw(4)) {
      case 0: argv += ",\"-m\",\"D8\""; FA_D8(orig, acc); break;
      case 1: argv += ",\"-m\",\"Quinn\""; FA_Quinn(orig, acc); break;
      case 2: argv += ",\"--method\",\"Holmgren\",\"-e\",\"2.5\""; FA_Holmgren(orig, acc, 2.5); break;
      case 3: argv += ",\"-m\",\"Dinf\""; FA_Tarboton(orig, acc); break;
    }
    nd = -1;
    take(acc);
  } else {
    cmd = "cli.TerrainAttribute";
    double zs = s.pick({1.0, 2.0, 0.5});
    Array2D<float> o;
    o.setNoData(-9999);
    switch (s.draw(4)) {
      case 0: argv += ",\"-a\",\"slope_riserun\""; TA_slope_riserun(orig, o, zs); break;
      case 1: argv += ",\"-a\",\"slope_degrees\""; TA_slope_degrees(orig, o, zs); break;
      case 2: argv += ",\"-a\",\"aspect\""; TA_aspect(orig, o, zs); break;
      case 3: argv += ",\"-a\",\"curvature\""; TA_curvature(orig, o, zs); break;
    }
    if (zs != 1) argv += ",\"-z\",\"" + pbt::str(zs) + "\"";
    nd = -9999;
    take(o);
  }
  s.note(cmd, " ", argv);
  s.label(cmd);
  q.call(cmd, argv);
  auto r = pyco::python().ask(q);
  PBT_CHECK(r.has("exc") == refused, "exception", refused ? "the library refuses this" : r.get("exc"));
  if (refused) return;
  PBT_CHECK(std::filesystem::exists(g), "no-output", "");
  Array2D<double> out(g);
  PBT_CHECK(out.width() == m.z.w && out.height() == m.z.h, "dims", "");
  for (size_t i = 0; i < want.size(); i++) PBT_CHECK(out(i) == want[i], "result", cmd, ": cell ", i, " is ", pbt::str(std::setprecision(17), out(i)), ", the library gives ", pbt::str(std::setprecision(17), want[i]));
  PBT_CHECK((long double)out.noData() == nd, "no_data", out.noData());
  PBT_CHECK(std::equal(m.gt.begin(), m.gt.end(), out.geotransform.begin()), "geotransform", "");
  same_meta(out.metadata, m.meta, {"TIFFTAG_DATETIME", "TIFFTAG_SOFTWARE"});
  grew(hist(m.meta), hist(out.metadata), 4, {"made", "LoadGDAL", cmd.c_str(), k == 0 ? "FillDepressions" : k == 1 ? "BreachDepressions" : k == 2 ? "FlowAccumulation" : "TerrainAttribute"});
  Array2D<T> in(f);
  for (size_t i = 0; i < m.z.size(); i++) PBT_CHECK(in(i) == m.z.v[i], "input-altered", "");
}

double number_after(const std::string &t, const std::string &key) {
  auto i = t.find(key);
  PBT_CHECK(i != t.npos, "output", "no '", key, "' in ", t);
  return strtod(t.c_str() + i + key.size(), nullptr);
}
void compare(pbt::Source &s) {
  Sample m = sample(s, true), n = m;
  Dir dir;
  auto f = dir("1.tif"), g = dir("2.tif");
  bool gt = s.coin(1, 4), nd = s.coin(1, 4);
  int diffs = s.draw(4);
  if (std::abs((double)m.z.nd) > 1e6) {  // squares of it must not overflow
    for (auto &v : m.z.v)
      if (v == m.z.nd) v = (T)200;
    m.z.nd = (T)200;
    n = m;
  }
  for (int i = 0; i < diffs; i++) n.z.v[s.draw(n.z.size())] = (T)s.range(1, 100);
  if (gt) n.gt[0] += 1;
  if (nd) n.z.nd = (T)(n.z.nd == 5 ? 6 : 5);
  lib(m).saveGDAL(f);
  lib(n).saveGDAL(g);
  pyco::Request q;
  q.call("cli.RdCompare", pyco::js(f) + "," + pyco::js(g), "", "\"t\"");
  q.call("cli.RdInfo", pyco::js(f), "", "\"u\"");
  q.want("t"), q.want("u");
  auto r = pyco::python().ask(q);
  no_exc(r);
  auto t = r.get("t"), u = r.get("u");
  s.note("second: ", show(n.z), t);
  PBT_CHECK((t.find("NoData differs") != t.npos) == nd && (t.find("Geotransform differs") != t.npos) == gt && t.find("Projection differs") == t.npos, "compare-attributes", t);
  double mx = 0, mn = INFINITY, sum = 0, sq = 0;
  for (size_t i = 0; i < m.z.size(); i++) {
    double d = std::abs((double)m.z.v[i] - (double)n.z.v[i]);
    mx = std::max(mx, d), mn = std::min(mn, d), sum += d, sq += d * d;
  }
  double N = m.z.size();
  auto near = [](double a, double b) { return std::abs(a - b) <= 2e-5 * std::abs(b); };
  PBT_CHECK(near(number_after(t, "Absolute Max difference:"), mx), "compare-max", mx, " expected: ", t);
  PBT_CHECK(near(number_after(t, "Absolute Min difference:"), mn), "compare-min", mn, " expected: ", t);
  PBT_CHECK(near(number_after(t, "Absolute Avg difference:"), sum / N), "compare-avg", sum / N, " expected: ", t);
  PBT_CHECK(near(number_after(t, "RMS difference:"), std::sqrt(sq / N)), "compare-rms", std::sqrt(sq / N), " expected: ", t);
  PBT_CHECK(number_after(u, "Width     =") == m.z.w && number_after(u, "Height    =") == m.z.h && u.find(pyco::dtype<T>()) != u.npos, "info", u);
  for (auto &e : m.meta)
    if (e.first != "PROCESSING_HISTORY") PBT_CHECK(u.find(e.first + " = " + e.second) != u.npos, "info-metadata", u);
  std::istringstream h(hist(m.meta));
  std::string l;
  while (std::getline(h, l)) PBT_CHECK(u.find(l) != u.npos, "info-history", u);
}
#endif
}  // namespace

#define STR2(x) #x
#define STR(x) STR2(x)
PBT_PROP("save_" STR(TY), QN, QN * 20, save);
#ifndef SAVE_ONLY
PBT_PROP("load_" STR(TY), QN / 2, QN * 10, load);
PBT_PROP("chain_" STR(TY), QN / 2, QN * 10, chain);
PBT_PROP("views_" STR(TY), QN / 4, QN * 5, views);
PBT_PROP("tools_" STR(TY), QN / 2, QN * 10, tools);
PBT_PROP("compare_" STR(TY), QN / 8, QN * 3, compare);
#endif
