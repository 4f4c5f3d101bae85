// P23: the command-line programs of apps/, against the library and against what they say of themselves
#include <dlfcn.h>
#include <filesystem>
#include <fstream>
#include <regex>
#include <richdem/common/random.hpp>
#include <richdem/common/timer.hpp>
#include <richdem/depressions/depression_hierarchy.hpp>
#include <richdem/depressions/depressions.hpp>
#include <richdem/depressions/fill_spill_merge.hpp>
#include <richdem/flats/flat_resolution.hpp>
#include <richdem/methods/flow_accumulation.hpp>
#include <richdem/methods/terrain_attributes.hpp>
#include <richdem/misc/misc_methods.hpp>
#include "gen.hpp"
#include "ref_fill.hpp"
using namespace richdem;
using namespace gen;
namespace dh = richdem::dephier;

namespace {
#ifdef PART0
pbt::RuleRegistrar rr("cases: a raster of one of the seven types GDAL and the programs share, with geotransform, projection, metadata and history, saved to a file; one of the programs of apps/ run on it (its main(), in a shared object built from the tree) with generated arguments, good or bad; non-trivial: more than one cell, and arguments the program accepts",
                      {"rd_loop_check reports the ends of long paths as well as loops and is not covered; rd_surface_area is not built by the project", "rd_hist and rd_raster_display print six and two digits"});
#endif
using Meta = std::map<std::string, std::string>;
namespace fs = std::filesystem;

// ---- running a program
struct Ran {
  bool threw = false;
  int code = 0;
  std::string what, out, err;
  bool ok() const { return !threw && code == 0; }
};
using Main = int (*)(int, char **);
Main entry(const std::string &app) {
  static std::map<std::string, Main> m;
  auto &e = m[app];
  if (!e) {
    auto so = std::string(getenv("P23_APPS")) + "/" + app + ".so";
    void *h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) fprintf(stderr, "%s\n", dlerror()), abort();
    for (auto n : {"_Z12app_rd_entryiPPc", "_Z12app_rd_entryiPKPc", "_Z12app_rd_entryiPPKc"})
      if (!e) e = (Main)dlsym(h, n);
    if (!e) fprintf(stderr, "%s has no main\n", so.c_str()), abort();
  }
  return e;
}
Ran run(const std::string &app, std::vector<std::string> args) {
  auto f = entry(app);
  args.insert(args.begin(), app + ".exe");
  std::vector<char *> argv;
  for (auto &a : args) argv.push_back(&a[0]);
  argv.push_back(nullptr);
  Ran r;
  std::stringbuf o, e;
  std::ios keep(nullptr), keep2(nullptr);
  keep.copyfmt(std::cout), keep2.copyfmt(std::cerr);
  auto a = std::cout.rdbuf(&o), b = std::cerr.rdbuf(&e);
  try {
    r.code = f(args.size(), argv.data());
  } catch (const std::exception &x) {
    r.threw = true, r.what = x.what();
  }
  std::cout.rdbuf(a), std::cerr.rdbuf(b);
  std::cout.copyfmt(keep), std::cerr.copyfmt(keep2);
  r.out = o.str(), r.err = e.str();
  return r;
}
struct Quiet {
  std::streambuf *a = std::cerr.rdbuf(nullptr), *b = std::cout.rdbuf(nullptr);
  ~Quiet() {
    std::cerr.rdbuf(a), std::cout.rdbuf(b);
    std::cerr.clear(), std::cout.clear();
  }
};
struct Dir {
  std::string d = pbt::worker_dir() + "/p23";
  Dir() {
    fs::remove_all(d);
    fs::create_directories(d);
  }
  ~Dir() { fs::remove_all(d); }
  std::string operator()(const std::string &n) const { return d + "/" + n; }
  size_t files() const { return std::distance(fs::directory_iterator(d), fs::directory_iterator()); }
};

// ---- rasters
const char *WGS = "GEOGCS[\"WGS 84\",DATUM[\"WGS_1984\",SPHEROID[\"WGS 84\",6378137,298.257223563,AUTHORITY[\"EPSG\",\"7030\"]],AUTHORITY[\"EPSG\",\"6326\"]],PRIMEM[\"Greenwich\",0,AUTHORITY[\"EPSG\",\"8901\"]],UNIT[\"degree\",0.0174532925199433,AUTHORITY[\"EPSG\",\"9122\"]],AXIS[\"Latitude\",NORTH],AXIS[\"Longitude\",EAST],AUTHORITY[\"EPSG\",\"4326\"]]";
const char *UTM = "PROJCS[\"WGS 84 / UTM zone 15N\",GEOGCS[\"WGS 84\",DATUM[\"WGS_1984\",SPHEROID[\"WGS 84\",6378137,298.257223563,AUTHORITY[\"EPSG\",\"7030\"]],AUTHORITY[\"EPSG\",\"6326\"]],PRIMEM[\"Greenwich\",0,AUTHORITY[\"EPSG\",\"8901\"]],UNIT[\"degree\",0.0174532925199433,AUTHORITY[\"EPSG\",\"9122\"]],AUTHORITY[\"EPSG\",\"4326\"]],PROJECTION[\"Transverse_Mercator\"],PARAMETER[\"latitude_of_origin\",0],PARAMETER[\"central_meridian\",-93],PARAMETER[\"scale_factor\",0.9996],PARAMETER[\"false_easting\",500000],PARAMETER[\"false_northing\",0],UNIT[\"metre\",1,AUTHORITY[\"EPSG\",\"9001\"]],AXIS[\"Easting\",EAST],AXIS[\"Northing\",NORTH],AUTHORITY[\"EPSG\",\"32615\"]]";
template <class T>
struct Ras {
  Grid<T> z;
  std::vector<double> gt;
  std::string proj;  // "", WGS or UTM
  Meta meta;
  Array2D<T> lib() const {
    auto a = to_array(z);
    a.geotransform = gt;
    a.projection = proj;
    a.metadata = meta;
    return a;
  }
  void save(const std::string &f) {
    lib().saveGDAL(f, "made");
    meta = Array2D<T>(f).metadata;  // it has grown a line
    for (auto i = meta.begin(); i != meta.end();) i = i->first.compare(0, 8, "TIFFTAG_") == 0 ? meta.erase(i) : std::next(i);
  }
};
int epsg(const std::string &p) { return p.empty() ? 0 : p.find("\"EPSG\",\"32615\"") != p.npos ? 2 : p.find("\"EPSG\",\"4326\"") != p.npos ? 1 : -1; }
template <class T>
Ras<T> raster(pbt::Source &s, bool plain = false, int max_dim = 20, bool d4_edges = false) {
  Ras<T> r;
  DemOpts o;
  o.max_dim = max_dim;
  o.extremes = !plain;
  o.nodata_edge_d4 = !plain || d4_edges;
  r.z = dem<T>(s, o);
  if (plain && std::abs((double)r.z.nd) > 1e5) {
    T nd = std::is_signed<T>::value || std::is_floating_point<T>::value ? T(-9999) : sizeof(T) == 1 ? T(0) : T(60000);
    if (std::is_unsigned<T>::value)  // NoData is lower than data
      for (auto &v : r.z.v) v = v == r.z.nd ? 0 : v < 200 ? v + 1 : v;
    else
      for (auto &v : r.z.v) v = v == r.z.nd ? nd : v;
    r.z.nd = std::is_unsigned<T>::value ? T(0) : nd;
  }
  double l = s.pick({1.0, 30.0, 0.25, 0.5});
  r.gt = {s.pick({0.0, 100.5, -7.25}), l, 0, s.pick({0.5, -3.0, 1e6}), 0, s.coin() ? -l : -2 * l};
  r.proj = s.pick<const char *>({"", WGS, UTM});
  if (s.coin()) r.meta["PLACE"] = s.pick<const char *>({"somewhere", "a=b=c"});
  if (s.coin()) r.meta["PROCESSING_HISTORY"] = s.pick<const char *>({"\n2020-01-01 | something | earlier", "\nfirst\nsecond line | x=y"});
  s.note("geotransform ", r.gt[0], " ", r.gt[1], " ", r.gt[2], " ", r.gt[3], " ", r.gt[4], " ", r.gt[5], " projection ", epsg(r.proj), "\n", show(r.z));
  s.nontrivial(r.z.size() > 1);
  return r;
}
template <class F>
void any_type(pbt::Source &s, F f) {
  switch (s.draw(7)) {
    case 0: return f(float());
    case 1: return f(int16_t());
    case 2: return f(uint8_t());
    case 3: return f(double());
    case 4: return f(int32_t());
    case 5: return f(uint16_t());
    case 6: return f(uint32_t());
  }
}
std::string lstrip(std::string t) {
  while (!t.empty() && isspace((unsigned char)t[0])) t.erase(0, 1);
  return t;
}
std::string hist(const Meta &m) {
  auto i = m.find("PROCESSING_HISTORY");
  return i == m.end() ? "" : i->second;
}
// `got` has what `was` had, and its history one line more, which names the program and its arguments
void kept_meta(Meta got, const Meta &was, const std::string &app, const std::vector<std::string> &args) {
  auto h = lstrip(hist(got)), h0 = lstrip(hist(was));
  PBT_CHECK(h.compare(0, h0.size(), h0) == 0, "history-lost", "it was: ", h0, "\nit is: ", h);
  auto add = lstrip(h.substr(h0.size()));
  PBT_CHECK(!add.empty() && add.find('\n') == add.npos, "history-line", "added: ", add);
  static const std::regex form("[0-9]{4}-[0-9]{2}-[0-9]{2} [0-9]{2}:[0-9]{2}:[0-9]{2}(\\.[0-9]+)? UTC \\| RichDEM .*hash=verif.* \\| .+");
  PBT_CHECK(std::regex_match(add, form), "history-form", add);
  std::string cmd = app + ".exe";
  for (auto &a : args) cmd += " " + a;
  PBT_CHECK(add.find(cmd) != add.npos, "history-what", add, " does not say ", cmd);
  for (auto &e : was)
    if (e.first != "PROCESSING_HISTORY") PBT_CHECK(got.count(e.first) && got[e.first] == e.second, "metadata", e.first, " is lost");
}
void good(const Ran &r) {
  PBT_CHECK(!r.threw, "exception", r.what);
  PBT_CHECK(r.code == 0, "exit", "status ", r.code, ": ", r.err);
}
template <class A, class B>
void same_place(const A &out, const B &gt, const std::string &proj) {
  PBT_CHECK(out.geotransform.size() == 6 && std::equal(gt.begin(), gt.end(), out.geotransform.begin()), "geotransform", "origin and cell are ", out.geotransform[0], " ", out.geotransform[1], " ", out.geotransform[3], " ", out.geotransform[5]);
  PBT_CHECK(epsg(out.projection) == epsg(proj), "projection", out.projection);
}
// the file holds exactly this raster
template <class U>
void same_file(const std::string &f, const Array2D<U> &want, const std::vector<double> &gt, const std::string &proj, bool nd = true) {
  PBT_CHECK(fs::exists(f), "no-output", "");
  PBT_CHECK(peekGDALType(f) == NativeTypeToGDAL<U>(), "type", "saved as ", GDALGetDataTypeName(peekGDALType(f)));
  Array2D<U> out(f);
  PBT_CHECK(out.width() == want.width() && out.height() == want.height(), "dims", out.width(), "x", out.height());
  for (size_t i = 0; i < want.size(); i++)
    PBT_CHECK(out(i) == want(i) || (out(i) != out(i) && want(i) != want(i)), "result", "cell ", i, " is ", pbt::str(std::setprecision(17), +out(i)), ", expected ", pbt::str(std::setprecision(17), +want(i)));
  if (nd) PBT_CHECK(out.noData() == want.noData(), "no_data", "is ", +out.noData(), ", expected ", +want.noData());
  same_place(out, gt, proj);
}
template <class T>
void untouched(const std::string &f, const Ras<T> &m) {
  Array2D<T> in(f);
  PBT_CHECK(in.width() == m.z.w && in.height() == m.z.h && in.noData() == m.z.nd, "input-altered", "");
  for (size_t i = 0; i < m.z.size(); i++) PBT_CHECK(in(i) == m.z.v[i], "input-altered", "");
}
std::string num(double v) { return pbt::str(std::setprecision(17), v); }

#ifdef PART0
// ---- programs which alter a raster's description
void describe(pbt::Source &s) {
  any_type(s, [&](auto t) {
    using T = decltype(t);
    auto m = raster<T>(s);
    Dir dir;
    auto f = dir("in.tif"), g = dir("out.tif");
    m.save(f);
    auto want = m;
    std::string app;
    std::vector<std::string> args;
    switch (s.draw(4)) {
      case 0: {
        app = "rd_geotransform";
        args = {f, g};
        for (int i = 0; i < 6; i++)
          if (s.coin()) args.push_back("x");
          else {
            want.gt[i] = s.pick({3.25, -7.0, 1e-3, 123456.789, 0.1});
            args.push_back(num(want.gt[i]));
          }
        double det = want.gt[1] * want.gt[5] - want.gt[2] * want.gt[4];
        if (std::abs(det) < 1e-9) return;
        break;
      }
      case 1: {
        app = "rd_no_data";
        double v = std::is_floating_point<T>::value ? (double)(T)s.pick({-9999.0, 5.0, 0.5, -1e10, 0.0, 3e9}) : (double)s.pick<int64_t>({5, 0, 255, (int64_t)std::numeric_limits<T>::max(), (int64_t)std::numeric_limits<T>::min()});
        if (s.coin()) v = (double)s.pick(m.z.v);
        if (v < (double)std::numeric_limits<T>::lowest() || v > (double)std::numeric_limits<T>::max()) return;
        want.z.nd = (T)v;
        args = {f, g, std::is_floating_point<T>::value ? num(v) : pbt::str((int64_t)v)};
        break;
      }
      case 2: {
        app = "rd_projection";
        want.proj = s.pick<const char *>({WGS, UTM});
        if (s.coin()) {
          auto o = raster<uint8_t>(s, true, 6);
          o.proj = want.proj;
          o.save(dir("t.tif"));
          args = {f, g, dir("t.tif")};
        } else
          args = {f, g, ":" + want.proj};
        break;
      }
      case 3: {
        app = "rd_expand_dimensions";
        int dw = s.range(-1, 6), dhh = s.range(-1, 6);
        args = {f, g, std::to_string(m.z.w + dw), std::to_string(m.z.h + dhh)};
        if (dw < 0 || dhh < 0) {
          s.note(app, " to ", m.z.w + dw, "x", m.z.h + dhh);
          auto r = run(app, args);
          PBT_CHECK(!r.ok(), "accepted", "a raster was shrunk");
          PBT_CHECK(dir.files() == 1, "refused-output", "it wrote a file");
          untouched(f, m);
          return;
        }
        Grid<T> z(m.z.w + dw, m.z.h + dhh);
        z.nd = m.z.nd;
        for (auto &v : z.v) v = z.nd;
        for (int y = 0; y < m.z.h; y++)
          for (int x = 0; x < m.z.w; x++) z(x, y) = m.z(x, y);
        want.z = z;
        break;
      }
    }
    s.label(app);
    std::string cmd = app;
    for (auto &a : args) cmd += " " + a.substr(0, 60);
    s.note(cmd);
    auto r = run(app, args);
    good(r);
    auto w = want.lib();
    same_file(g, w, want.gt, want.proj);
    Array2D<T> out(g);
    kept_meta(out.metadata, m.meta, app, args);
    untouched(f, m);
  });
}
// ---- programs which print
std::vector<std::string> words(const std::string &t) {
  std::istringstream i(t);
  std::vector<std::string> o;
  std::string w;
  while (i >> w) o.push_back(w);
  return o;
}
void print(pbt::Source &s) {
  any_type(s, [&](auto t) {
    using T = decltype(t);
    auto m = raster<T>(s, true);
    bool fl = std::is_floating_point<T>::value;
    if (fl)  // six digits are printed
      for (auto &v : m.z.v) v = T(std::floor(double(v)));
    if (s.coin(1, 3)) m.gt[1] *= -1;
    if (s.coin(1, 3)) m.gt[5] *= -1;
    Dir dir;
    auto f = dir("in.tif");
    m.save(f);
    int w = m.z.w, h = m.z.h;
    auto after = [&](const std::string &o) {  // what comes after the header
      auto i = o.find("a Analysis command");
      PBT_CHECK(i != o.npos, "header", o);
      i = o.find('\n', i);
      return o.substr(i + 1);
    };
    switch (s.draw(6)) {
      case 0: {
        s.label("rd_geotransform");
        auto r = run("rd_geotransform", {f});
        good(r);
        auto v = words(after(r.out));
        PBT_CHECK(v.size() >= 11 && v[0] == "Geotransform:", "output", r.out);
        for (int i = 0; i < 6; i++) PBT_CHECK(std::abs(atof(v[i + 1].c_str()) - m.gt[i]) <= 1e-5 * std::abs(m.gt[i]), "geotransform", r.out);
        PBT_CHECK(v[7] == "Width:" && v[8] == std::to_string(w) && v[9] == "Height:" && v[10] == std::to_string(h), "dims", r.out);
        break;
      }
      case 1: {
        s.label("rd_no_data");
        auto r = run("rd_no_data", {f});
        good(r);
        auto v = words(r.err);
        PBT_CHECK(!v.empty(), "output", "nothing was printed");
        double got = atof(v.back().c_str());
        PBT_CHECK(std::abs(got - (double)m.z.nd) <= 1e-5 * std::abs((double)m.z.nd), "no_data", "'", v.back(), "' was printed for ", +m.z.nd);
        break;
      }
      case 2: {
        s.label("rd_processing_history");
        auto r = run("rd_processing_history", {f});
        good(r);
        auto h0 = lstrip(hist(m.meta));
        if (h0.empty()) PBT_CHECK(r.out.find("No processing history!") != r.out.npos, "history", r.out);
        else PBT_CHECK(lstrip(after(r.out)) == h0, "history", r.out);
        break;
      }
      case 3: {
        s.label("rd_hist");
        auto r = run("rd_hist", {f});
        good(r);
        std::map<double, long> want, got;
        for (auto v : m.z.v) want[(double)v]++;
        std::istringstream in(after(r.out));
        std::string l;
        bool nd = false;
        while (std::getline(in, l)) {
          if (l.compare(0, 7, "Nodata:") == 0) {
            nd = true;
            PBT_CHECK(atof(l.c_str() + 7) == (double)m.z.nd, "no_data", l);
            continue;
          }
          auto v = words(l);
          if (v.empty()) continue;
          char *e;
          PBT_CHECK(v.size() == 2, "output", "line '", l, "'");
          double k = strtod(v[0].c_str(), &e);
          PBT_CHECK(!*e && e != v[0].c_str(), "output", "line '", l, "'");
          got[k] += atol(v[1].c_str());
        }
        PBT_CHECK(nd, "no_data", "not shown");
        for (auto v : m.z.v)
          if (std::abs((double)v) >= 1e6) return;
        PBT_CHECK(got == want, "histogram", r.out);
        break;
      }
      case 4: {
        s.label("rd_raster_display");
        bool fh = s.coin(), fv = s.coin();
        auto r = run("rd_raster_display", {f, fh ? fv ? "fliphv" : "fliph" : fv ? "flipv" : "noflip"});
        good(r);
        if (m.gt[1] < 0) fh = !fh;
        if (m.gt[5] > 0) fv = !fv;
        auto v = words(after(r.out));
        PBT_CHECK(v.size() == m.z.size(), "output", v.size(), " numbers for ", m.z.size(), " cells");
        for (int y = 0; y < h; y++)
          for (int x = 0; x < w; x++) {
            auto want = m.z(fh ? w - 1 - x : x, fv ? h - 1 - y : y);
            PBT_CHECK(v[size_t(y) * w + x] == pbt::str((int)want), "cell", "at ", x, ",", y, ": ", v[size_t(y) * w + x], " is shown for ", +want);
          }
        break;
      }
      case 5: {
        s.label("rd_raster_inspect");
        bool fh = s.coin(), fv = s.coin(), range = s.coin();
        std::vector<std::string> a;
        int x0 = s.draw(w), x1 = s.range(x0, w - 1), y0 = s.draw(h), y1 = s.range(y0, h - 1), cx = -1, cy = -1;
        if (fh) a.push_back(s.coin() ? "-H" : "--flipH");
        a.push_back(f);
        if (range) {
          for (int v : {x0, x1, y0, y1}) a.push_back(std::to_string(v));
        } else {
          cx = x0, cy = y0;
          int rad = s.range(0, 5);
          for (int v : {cx, cy, rad}) a.push_back(std::to_string(v));
          x0 = std::max(0, cx - rad), x1 = std::min(w - 1, cx + rad), y0 = std::max(0, cy - rad), y1 = std::min(h - 1, cy + rad);
        }
        if (fv) a.push_back(s.coin() ? "-V" : "--flipV");
        auto r = run("rd_raster_inspect", a);
        good(r);
        if (m.gt[1] < 0) fh = !fh;
        if (m.gt[5] > 0) fv = !fv;
        std::string o = std::regex_replace(after(r.out), std::regex("\033\\[[0-9;]*m"), " ");
        auto v = words(o);
        size_t k = 0;
        auto next = [&](const std::string &want, const char *what) {
          PBT_CHECK(k < v.size() && v[k] == want, what, k < v.size() ? v[k] : "nothing", " is shown for ", want, "\n", o);
          k++;
        };
        for (int x = x0; x <= x1; x++) next(std::to_string(x), "column");
        for (int y = y0; y <= y1; y++) {
          next(std::to_string(y), "row");
          for (int x = x0; x <= x1; x++) {
            std::ostringstream q;
            q << +m.z(fh ? w - 1 - x : x, fv ? h - 1 - y : y);
            next(q.str(), "cell");
          }
        }
        PBT_CHECK(k == v.size(), "output", o);
        break;
      }
    }
    untouched(f, m);
  });
}
// ---- comparing
void compare(pbt::Source &s) {
  any_type(s, [&](auto t) {
    using T = decltype(t);
    auto m = raster<T>(s, true, 12);
    Dir dir;
    auto f = dir("1.tif"), g = dir("2.tif");
    m.save(f);
    auto other = [&](auto u) {
      using U = decltype(u);
      Ras<U> n;
      n.gt = m.gt, n.proj = m.proj, n.meta = m.meta;
      bool dgt = s.coin(1, 4), dnd = s.coin(1, 4), dpr = s.coin(1, 4), dw = s.coin(1, 5), dh_ = s.coin(1, 5);
      if (dgt) n.gt[s.coin() ? 0 : 3] += 1;
      if (dpr) n.proj = m.proj == WGS ? UTM : WGS;
      int w = m.z.w + (dw ? s.pick({1, 3, -1}) : 0), h = m.z.h + (dh_ ? s.pick({1, 3, -1}) : 0);
      if (w < 1) w = m.z.w, dw = false;
      if (h < 1) h = m.z.h, dh_ = false;
      n.z = Grid<U>(w, h);
      auto fits = [](double d) { return d >= (double)std::numeric_limits<U>::lowest() && d <= (double)std::numeric_limits<U>::max(); };
      for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++) {
          double d = x < m.z.w && y < m.z.h ? (double)m.z(x, y) : 7;
          n.z(x, y) = fits(d) ? (U)d : (U)3;
        }
      n.z.nd = fits((double)m.z.nd) ? (U)m.z.nd : (U)9;
      if (dnd) n.z.nd = (U)((double)m.z.nd == 9 ? 8 : 9);
      else dnd = (double)n.z.nd != (double)m.z.nd;
      int k = s.draw(5);
      for (int i = 0; i < k; i++) n.z.v[s.draw(n.z.size())] = (U)s.pick<int64_t>({1, 2, 100, std::is_signed<U>::value || std::is_floating_point<U>::value ? -1 : 4294967295, 16777217});
      n.save(g);
      s.note("other ", show(n.z));
      auto r = run("rd_compare", {f, g});
      good(r);
      auto said = [&](const char *t) { return r.out.find(t) != r.out.npos; };
      PBT_CHECK(said("Geotransforms differ.") == dgt, "geotransform", r.out);
      PBT_CHECK(said("NoData values differ.") == dnd, "no_data", r.out);
      PBT_CHECK(said("Projections differ.") == dpr, "projection", r.out);
      PBT_CHECK(said("Widths differ.") == dw && said("Heights differ.") == dh_, "dims", r.out);
      auto i = r.out.find("Number of values which differ = ");
      if (!dw && !dh_) {
        PBT_CHECK(i != r.out.npos, "output", r.out);
        long c = 0;
        for (size_t j = 0; j < m.z.size(); j++) c += (double)m.z.v[j] != (double)n.z.v[j];
        PBT_CHECK(atol(r.out.c_str() + i + 32) == c, "count", c, " differ: ", r.out);
      }
    };
    if (s.coin()) other(t);
    else any_type(s, other);
  });
}
// ---- refused
void refuse(pbt::Source &s) {
  static const std::pair<const char *, int> APPS[] = {{"rd_compare", 2}, {"rd_d8_flowdirs", 2}, {"rd_depression_hierarchy", 3}, {"rd_depressions_breach", 7}, {"rd_depressions_flood", 3}, {"rd_depressions_has", 1}, {"rd_depressions_mask", 2}, {"rd_expand_dimensions", 4}, {"rd_fill_spill_merge", 3}, {"rd_flood_for_flowdirs", 2}, {"rd_flow_accumulation", 3}, {"rd_geotransform", 8}, {"rd_hist", 1}, {"rd_merge_rasters_by_layout", 4}, {"rd_no_data", 3}, {"rd_processing_history", 1}, {"rd_projection", 3}, {"rd_raster_display", 2}, {"rd_raster_inspect", 4}, {"rd_taudem_d8_to_richdem_d8", 2}, {"rd_terrain_property", 4}};
  auto &a = APPS[s.draw(sizeof APPS / sizeof *APPS)];
  std::string app = a.first;
  Dir dir;
  auto f = dir("in.tif"), g = dir("out");
  std::vector<std::string> args;
  auto m = raster<float>(s, true, 8);
  m.save(f);
  std::map<std::string, std::vector<std::string>> good_args = {
      {"rd_compare", {f, f}}, {"rd_d8_flowdirs", {f, g}}, {"rd_depression_hierarchy", {f, g, "0"}}, {"rd_depressions_breach", {f, g, "COMPLETE", "NOEPS", "NOFILL", "5", "5"}}, {"rd_depressions_flood", {f, g, "0"}}, {"rd_depressions_has", {f}}, {"rd_depressions_mask", {f, g}}, {"rd_expand_dimensions", {f, g, "100", "100"}}, {"rd_fill_spill_merge", {f, g, "--swl", "1", "0"}}, {"rd_flood_for_flowdirs", {f, g}}, {"rd_flow_accumulation", {f, g, "1"}}, {"rd_geotransform", {f, g, "0", "1", "0", "0", "0", "-1"}}, {"rd_hist", {f}}, {"rd_merge_rasters_by_layout", {f, "3", g, "noflip"}}, {"rd_no_data", {f, g, "3"}}, {"rd_processing_history", {f}}, {"rd_projection", {f, g, f}}, {"rd_raster_display", {f, "noflip"}}, {"rd_raster_inspect", {f, "0", "0", "0", "0"}}, {"rd_taudem_d8_to_richdem_d8", {f, g}}, {"rd_terrain_property", {f, g, "1", "1"}}};
  args = good_args[app];
  std::string why;
  switch (s.draw(6)) {
    case 5: {
      why = "complex numbers";
      if (app == "rd_depression_hierarchy" || app == "rd_fill_spill_merge" || app == "rd_merge_rasters_by_layout" || app == "rd_processing_history") return;
      GDALAllRegister();
      auto *d = GetGDALDriverManager()->GetDriverByName("GTiff")->Create(f.c_str(), 3, 2, 1, s.pick({GDT_CInt16, GDT_CInt32, GDT_CFloat32, GDT_CFloat64}), nullptr);
      GDALClose(d);
      break;
    }
    case 4: {
      why = "an unknown option";
      static const std::pair<const char *, std::pair<int, std::vector<const char *>>> OPT[] = {{"rd_flow_accumulation", {2, {"0", "7", "8", "9", "12", "x"}}}, {"rd_terrain_property", {2, {"0", "9", "-1", "x"}}}, {"rd_depressions_breach", {2, {"complete", "ALL", ""}}}, {"rd_depressions_breach", {3, {"eps", ""}}}, {"rd_depressions_breach", {4, {"fill", ""}}}, {"rd_raster_display", {1, {"flip", ""}}}, {"rd_depressions_flood", {2, {"x"}}}};
      auto &o = OPT[s.draw(sizeof OPT / sizeof *OPT)];
      app = o.first;
      args = good_args[app];
      if (app == "rd_flow_accumulation") {
        auto alg = s.pick(o.second.second);
        args[2] = alg;
        if (*alg >= '7') args.push_back("1");
      } else
        args[o.second.first] = s.pick(o.second.second);
      break;
    }
    case 0:
      why = "too many arguments";
      args.push_back("0"), args.push_back("0"), args.push_back("0");
      break;
    case 1: {
      why = "no arguments";
      args.clear();
      break;
    }
    case 2:
      why = "missing input";
      args[0] = dir("missing.tif");
      break;
    case 3: {
      why = "unwritable output";
      bool any = false;
      for (auto &x : args)
        if (x == g) x = dir("no/such/dir/out"), any = true;
      if (app == "rd_merge_rasters_by_layout") any = false;
      if (app == "rd_taudem_d8_to_richdem_d8") any = false;
      if (!any) return;
      break;
    }
  }
  s.label(why);
  s.nontrivial(true);
  s.note(app, ": ", why);
  auto r = run(app, args);
  PBT_CHECK(!r.ok(), "accepted", app, " reported success with ", why, "\n", r.out, r.err);
  if (why != "unwritable output") PBT_CHECK(dir.files() == 1, "refused-output", app, " wrote a file with ", why);
}
PBT_PROP("describe", 8000, 160000, describe);
PBT_PROP("print", 8000, 160000, print);
PBT_PROP("compare", 5000, 100000, compare);
PBT_PROP("refuse", 3000, 20000, refuse);
#endif

#ifdef PART1
// ---- programs which compute
template <class T>
void compute_typed(pbt::Source &s) {
  auto m = raster<T>(s, true, 20, true);
  Dir dir;
  auto f = dir("in.tif"), g = dir("out.tif");
  m.save(f);
  auto a = m.lib();
  std::string app;
  std::vector<std::string> args{f, g};
  auto go = [&](bool meta, auto &want, bool nd = true) {
    std::string cmd = app;
    for (auto &x : args) cmd += " " + x;
    s.note(cmd);
    s.label(app);
    auto r = run(app, args);
    good(r);
    same_file(g, want, m.gt, m.proj, nd);
    Array2D<T> out(g);
    kept_meta(out.metadata, meta ? m.meta : Meta(), app, args);
  };
  switch (s.draw(7)) {
    case 0: {
      app = "rd_depressions_flood";
      unsigned n = s.pick({0, 0, 1, 2, 5, 20});
      args.push_back(std::to_string(n));
      {
        Quiet q;
        if (!n) PriorityFlood_Zhou2016(a);
        else PriorityFlood_Barnes2014_max_dep<Topology::D8>(a, n);
      }
      go(true, a);
      break;
    }
    case 1: {
      app = "rd_depressions_breach";
      int mode = s.draw(3), eps = s.draw(2), fill = s.draw(2), len = s.pick({0, 1, 3, 10, 1000});
      double depth = s.pick({0, 1, 3, 10, 100});
      const char *M[] = {"COMPLETE", "SELECTIVE", "CONSTRAINED"};
      args.insert(args.end(), {M[mode], eps ? "EPS" : "NOEPS", fill ? "FILL" : "NOFILL", std::to_string(len), num(depth)});
      {
        Quiet q;
        Lindsay2016(a, mode == 0 ? LindsayMode::COMPLETE_BREACHING : mode == 1 ? LindsayMode::SELECTIVE_BREACHING : LindsayMode::CONSTRAINED_BREACHING, eps, fill, len, (T)depth);
      }
      go(true, a);
      break;
    }
    case 2: {
      app = "rd_depressions_mask";
      Array2D<uint8_t> mask(m.z.w, m.z.h, 0);
      mask.setNoData(3);
      auto ref = ref::fill(m.z, true);
      for (int y = 0; y < m.z.h; y++)
        for (int x = 0; x < m.z.w; x++) mask(x, y) = m.z(x, y) == m.z.nd ? 3 : ref(x, y) != m.z(x, y);
      go(true, mask);
      break;
    }
    case 3: {
      app = "rd_depressions_has";
      args = {f};
      s.label(app);
      auto r = run(app, args);
      good(r);
      auto ref = ref::fill(m.z, true);
      bool has = ref.v != m.z.v;
      bool no = r.out.find("m No depressions found.") != r.out.npos, yes = r.out.find("m Depressions found.") != r.out.npos;
      PBT_CHECK(no == !has && yes == has, "answer", has ? "there are depressions: " : "there are none: ", r.out);
      break;
    }
    case 4: {
      app = "rd_flow_accumulation";
      int k = s.range(1, 6);
      double p = s.pick({1.0, 1.1, 4.5});
      args.push_back(std::to_string(k));
      if (k == 4 || k == 5) args.push_back(num(p));
      Array2D<double> acc(a, 1);
      unsigned seed = s.draw(1000);
      seed_rand(seed);
      {
        Quiet q;
        switch (k) {
          case 1: FA_D8(a, acc); break;
          case 2: FA_Rho8(a, acc); break;
          case 3: FA_Quinn(a, acc); break;
          case 4: FA_Holmgren(a, acc, (float)p); break;
          case 5: FA_Freeman(a, acc, (float)p); break;
          case 6: FA_Tarboton(a, acc); break;
        }
      }
      double area = std::abs(m.gt[1] * m.gt[5]);
      for (size_t i = 0; i < acc.size(); i++)
        if (!a.isNoData(i)) acc(i) *= area;
      seed_rand(seed);
      go(true, acc);
      break;
    }
    case 5: {
      app = "rd_terrain_property";
      int k = s.range(1, 8);
      double zs = s.pick({1.0, 2.0, 0.5});
      args.insert(args.end(), {std::to_string(k), num(zs)});
      Array2D<float> o(a);
      o.setNoData(-9999);
      {
        Quiet q;
        switch (k) {
          case 1: TA_slope_riserun(a, o, zs); break;
          case 2: TA_slope_percentage(a, o, zs); break;
          case 3: TA_slope_degrees(a, o, zs); break;
          case 4: TA_slope_radians(a, o, zs); break;
          case 5: TA_aspect(a, o, zs); break;
          case 6: TA_curvature(a, o, zs); break;
          case 7: TA_planform_curvature(a, o, zs); break;
          case 8: TA_profile_curvature(a, o, zs); break;
        }
      }
      std::string cmd = app;
      for (auto &x : args) cmd += " " + x;
      s.note(cmd);
      s.label(app);
      auto r = run(app, args);
      good(r);
      Array2D<float> out(g);
      PBT_CHECK(out.width() == m.z.w && out.height() == m.z.h, "dims", "");
      // whatever value stands for NoData, it is where the DEM has none and nowhere else
      for (size_t i = 0; i < m.z.size(); i++) {
        PBT_CHECK(out.isNoData(i) == a.isNoData(i), "no_data", "cell ", i, " is ", out(i), " and the NoData value is ", out.noData());
        if (!a.isNoData(i)) PBT_CHECK(out(i) == o(i) || (o(i) != o(i) && out(i) != out(i)), "result", "cell ", i, " is ", out(i), ", expected ", o(i));
      }
      same_place(out, m.gt, m.proj);
      kept_meta(out.metadata, m.meta, app, args);
      break;
    }
    case 6: {
      bool flood = s.coin();
      app = flood ? "rd_flood_for_flowdirs" : "rd_d8_flowdirs";
      bool fh = false, fv = false;
      if (flood) {
        if (s.coin()) m.gt[1] *= -1, fh = true;
        if (s.coin()) m.gt[5] *= -1, fv = true;
        m.save(f);
        a = m.lib();
      } else
        args[1] = dir("out"), g = dir("out-flowdirs.tif");
      Array2D<uint8_t> fd;
      {
        Quiet q;
        if (fh) a.flipHorz();
        if (fv) a.flipVert();
        PriorityFlood_Barnes2014<Topology::D8>(a);
        barnes_flat_resolution_d8(a, fd, false);
        if (fh) fd.flipHorz();
        if (fv) fd.flipVert();
      }
      go(true, fd);
      break;
    }
  }
  untouched(f, m);
}
void compute(pbt::Source &s) {
  any_type(s, [&](auto t) { compute_typed<decltype(t)>(s); });
}
PBT_PROP("compute", 8000, 160000, compute);
#endif

#ifdef PART2
void convert(pbt::Source &s) {
  any_type(s, [&](auto t) {
    using T = decltype(t);
    auto m = raster<T>(s, true, 12);
    bool bad = false;
    m.z.nd = s.pick({T(0), T(9), T(200), T(3)});
    for (auto &v : m.z.v) {
      v = (T)s.draw(9);
      if (s.coin(1, 10)) v = m.z.nd;
    }
    if (s.coin(1, 8)) m.z.v[s.draw(m.z.size())] = T(s.pick({9, 10, 99}));
    for (auto v : m.z.v) bad |= v != m.z.nd && v > 8;
    s.note("directions ", show(m.z));
    Dir dir;
    auto f = dir("in.tif"), g = dir("out.tif");
    m.save(f);
    std::vector<std::string> args{f, g};
    auto r = run("rd_taudem_d8_to_richdem_d8", args);
    if (bad) {
      PBT_CHECK(!r.ok(), "accepted", "a code that TauDEM does not have was accepted");
      PBT_CHECK(dir.files() == 1, "refused-output", "");
      return;
    }
    good(r);
    auto w = m.lib();
    // TauDEM: 1 is east and the rest follow counter-clockwise
    static const int tx[] = {0, 1, 1, 0, -1, -1, -1, 0, 1}, ty[] = {0, 0, -1, -1, -1, 0, 1, 1, 1};
    for (size_t i = 0; i < m.z.size(); i++)
      if (m.z.v[i] != m.z.nd) {
        int c = (int)m.z.v[i], n = 0;
        if (c)
          for (int k = 1; k <= 8; k++)
            if (d8x[k] == tx[c] && d8y[k] == ty[c]) n = k;
        w(i) = (T)n;
      }
    Array2D<T> out(g);
    for (size_t i = 0; i < m.z.size(); i++) PBT_CHECK(out(i) == w(i), "direction", "code ", +m.z.v[i], " became ", +out(i), ", expected ", +w(i));
    same_file(g, w, m.gt, m.proj);
    kept_meta(out.metadata, m.meta, "rd_taudem_d8_to_richdem_d8", args);
    untouched(f, m);
  });
}
// rd_merge_rasters_by_layout
void merge(pbt::Source &s) {
  any_type(s, [&](auto t) {
    using T = decltype(t);
    int W = s.range(1, 4), H = s.range(1, 4), tw = s.range(1, 5), th = s.range(1, 5);
    std::vector<char> gap(W * H, 0);
    if (s.coin())
      for (auto &q : gap) q = s.coin(1, 4);
    gap[0] = 0;
    for (int y = 0, any = 0; y < H; y++) {
      any |= !gap[y * W + W - 1];
      if (y == H - 1 && !any) gap[y * W + W - 1] = 0;
    }
    bool west = s.coin(1, 3), south = s.coin(1, 3), fh = s.coin(1, 3), fv = s.coin(1, 3);
    T nd = s.pick({T(0), T(7), T(100)});
    Grid<T> z(W * tw, H * th);
    for (auto &v : z.v) v = (T)s.draw(120);
    Dir dir;
    double cw = 0.5 * (west ? -1 : 1), ch = 0.25 * (south ? 1 : -1);
    std::string layout;
    for (int ty = 0; ty < H; ty++) {
      for (int tx = 0; tx < W; tx++) {
        if (tx) layout += ",";
        if (gap[ty * W + tx]) continue;
        auto n = pbt::str("t", tx, "_", ty, ".tif");
        layout += n;
        Array2D<T> a(tw, th);
        a.setNoData(nd);
        a.geotransform = {100 + tx * tw * cw, cw, 0, 200 + ty * th * ch, 0, ch};
        // what the file holds is turned when the tile is read, by its geotransform and by the option
        for (int y = 0; y < th; y++)
          for (int x = 0; x < tw; x++) a(west != fh ? tw - 1 - x : x, south != fv ? th - 1 - y : y) = z(tx * tw + x, ty * th + y);
        a.saveGDAL(dir(n));
      }
      layout += "\n";
    }
    std::ofstream(dir("in.layout")) << layout;
    s.note(W, "x", H, " tiles of ", tw, "x", th, west ? " west" : "", south ? " south" : "", fh ? " fliph" : "", fv ? " flipv" : "", "\n", layout, show(z));
    s.nontrivial(W > 1 && H > 1);
    auto g = dir("out.tif");
    auto r = run("rd_merge_rasters_by_layout", {dir("in.layout"), std::to_string(s.range(1, 5)), g, fh ? fv ? "fliphv" : "fliph" : fv ? "flipv" : "noflip"});
    good(r);
    PBT_CHECK(peekGDALType(g) == NativeTypeToGDAL<T>(), "type", "");
    Array2D<T> out(g);
    PBT_CHECK(out.width() == z.w && out.height() == z.h, "dims", out.width(), "x", out.height());
    PBT_CHECK(out.noData() == nd, "no_data", +out.noData());
    for (int y = 0; y < z.h; y++)
      for (int x = 0; x < z.w; x++) {
        bool gp = gap[(y / th) * W + x / tw];
        PBT_CHECK(out(x, y) == (gp ? nd : z(x, y)), "cell", "at ", x, ",", y, " is ", +out(x, y), ", expected ", +(gp ? nd : z(x, y)));
      }
  });
}
// the depression hierarchy's table and labels
void hierarchy(pbt::Source &s) {
  auto m = raster<float>(s, true, 20);
  Dir dir;
  auto f = dir("in.tif"), g = dir("out");
  m.z.nd = -9999;
  float level = (float)s.range(0, 3);
  m.save(f);
  auto a = m.lib();
  Array2D<dh::dh_label_t> label(m.z.w, m.z.h, dh::NO_DEP);
  Array2D<flowdir_t> fd(m.z.w, m.z.h, NO_FLOW);
  bool ocean = false;
  for (size_t i = 0; i < a.size(); i++)
    if (a.isNoData(i) || a(i) == level) label(i) = dh::OCEAN, ocean = true;
  if (label.countval(dh::OCEAN) == label.size()) return;  // nothing to do is an error, too
  s.note("ocean ", level);
  auto r = run("rd_depression_hierarchy", {f, g, num(level)});
  if (!ocean) {
    PBT_CHECK(!r.ok(), "accepted", "there is no ocean");
    PBT_CHECK(dir.files() == 1, "refused-output", "");
    return;
  }
  good(r);
  dh::DepressionHierarchy<float> deps;
  {
    Quiet q;
    deps = dh::GetDepressionHierarchy<float, Topology::D8>(a, label, fd);
  }
  s.nontrivial(deps.size() > 2);
  std::ifstream t(g + "-graph.csv");
  std::string l;
  std::getline(t, l);
  PBT_CHECK(l == "parent,child,oceanlink", "table", l);
  for (size_t i = 1; i < deps.size(); i++) {
    PBT_CHECK((bool)std::getline(t, l), "table", "it ends before depression ", i);
    bool link = false;  // one of the depressions that overflow into the parent from outside
    auto p = deps[i].parent;
    if (p != dh::NO_VALUE) link = p == dh::OCEAN || deps[i].ocean_parent;
    PBT_CHECK(l == pbt::str(p, ",", i, ",", link), "table", "line '", l, "', expected ", p, ",", i, ",", link);
  }
  PBT_CHECK(!std::getline(t, l), "table", "it goes on: ", l);
  same_file(g + "-label.tif", label, m.gt, m.proj, false);
  untouched(f, m);
}
void fsm(pbt::Source &s) {
  auto m = raster<double>(s, true, 16);
  Dir dir;
  auto f = dir("in.tif"), g = dir("out");
  double level = s.range(0, 4), swl = s.pick({0.0, 0.5, 1.0, 3.0});
  m.save(f);
  auto a = m.lib();
  std::vector<std::string> args{f, g, num(level)};
  Array2D<double> w(m.z.w, m.z.h, swl);
  if (s.coin()) {
    Ras<double> v = m;
    v.z.nd = -1;
    for (auto &x : v.z.v) x = s.draw(8) / 4.0;
    for (size_t i = 0; i < w.size(); i++) w(i) = v.z.v[i];
    v.save(dir("w.tif"));
    args.insert(args.begin() + (s.coin() ? 0 : 3), {"--swf", dir("w.tif")});
  } else
    args.insert(args.begin() + (s.coin() ? 2 : 3), {"--swl", num(swl)});
  Array2D<dh::dh_label_t> label(m.z.w, m.z.h, dh::NO_DEP);
  Array2D<flowdir_t> fd(m.z.w, m.z.h, NO_FLOW);
  // the ocean: what is joined to the raster's edge at or below the ocean's level
  std::vector<std::pair<int, int>> st;
  auto add = [&](int x, int y) {
    if (x < 0 || y < 0 || x >= m.z.w || y >= m.z.h || label(x, y) == dh::OCEAN || !(a(x, y) == level)) return;
    label(x, y) = dh::OCEAN;
    st.push_back({x, y});
  };
  for (int x = 0; x < m.z.w; x++) add(x, 0), add(x, m.z.h - 1);
  for (int y = 0; y < m.z.h; y++) add(0, y), add(m.z.w - 1, y);
  while (!st.empty()) {
    auto c = st.back();
    st.pop_back();
    for (int dx = -1; dx <= 1; dx++)
      for (int dy = -1; dy <= 1; dy++) add(c.first + dx, c.second + dy);
  }
  bool ocean = false;
  for (size_t i = 0; i < a.size(); i++) {
    if (a.isNoData(i)) label(i) = dh::OCEAN;
    if (label(i) == dh::OCEAN) w(i) = 0, ocean = true;
  }
  if (label.countval(dh::OCEAN) == label.size()) return;
  std::string cmd;
  for (auto &x : args) cmd += " " + x;
  s.note(cmd, "\nwater ", show(from_array(w)));
  auto r = run("rd_fill_spill_merge", args);
  if (!ocean) {
    PBT_CHECK(!r.ok(), "accepted", "there is no ocean");
    return;
  }
  good(r);
  {
    Quiet q;
    auto deps = dh::GetDepressionHierarchy<double, Topology::D8>(a, label, fd);
    s.nontrivial(deps.size() > 2);
    dh::FillSpillMerge(a, label, fd, deps, w);
  }
  same_file(g + "-wtd.tif", w, m.gt, m.proj, false);
  for (size_t i = 0; i < w.size(); i++)
    if (!a.isNoData(i)) w(i) += a(i);
  same_file(g + "-hydrologic-surface-height.tif", w, m.gt, m.proj, false);
  untouched(f, m);
}
// the Python scripts that look at layout files (README: rd_layout_check, rd_layout_display, rd_layout_find_square)
std::string script(const std::string &cmd, int &code) {
  std::string out;
  FILE *f = popen(("/usr/bin/python3 -B '" + std::string(getenv("RICHDEM_REPO")) + "/apps/" + cmd + " 2>&1").c_str(), "r");
  char b[4096];
  for (size_t n; (n = fread(b, 1, sizeof b, f)) > 0;) out.append(b, n);
  int st = pclose(f);
  code = WIFEXITED(st) ? WEXITSTATUS(st) : 128;
  return out;
}
void layouts(pbt::Source &s) {
  Dir dir;
  const int h = s.range(1, 7), w = s.range(1, 7), holes = s.pick({0, 1, 2, 4, 7});
  std::vector<std::vector<std::string>> g(h, std::vector<std::string>(w));
  std::set<std::string> names;
  int data = 0, missing = 0;
  bool dup = false;
  for (int y = 0; y < h; y++)
    for (int x = 0; x < w; x++) {
      if (s.coin(holes, 8)) continue;
      auto n = s.coin(1, 12) ? std::string("t") : pbt::str("tile_", x, "_", y, ".tif");
      g[y][x] = n;
      data++;
      dup |= !names.insert(n).second;
    }
  for (auto &n : names)
    if (s.coin(3, 4)) std::ofstream(dir(n)) << "x";
  for (auto &row : g)
    for (auto &n : row) missing += !n.empty() && !fs::exists(dir(n));
  auto pad = [&] { return s.coin(1, 10) ? std::string(" ") : std::string(); };
  std::string text;
  for (int y = 0; y < h; y++) {
    for (int x = 0; x < w; x++) text += (x ? "," : "") + g[y][x] + (x + 1 < w ? pad() : "");
    if (y + 1 < h || w == 1 || s.coin()) text += "\n";
  }
  s.note(text);
  { std::ofstream(dir("l.layout")) << text; }
  s.nontrivial(data > 1 && h > 1 && w > 1);
  s.label(dup, "a name twice");
  s.label(data && data < w * h, "null tiles");
  int code;
  switch (s.draw(3)) {
    case 0: {
      auto out = script("rd_layout_check.py' '" + dir("l.layout") + "'", code);
      PBT_CHECK(code == 0, "layout-check-exit", code, ": ", out);
      std::map<std::string, std::string> said;
      int warned = 0, dups = 0;
      std::istringstream in(out);
      for (std::string l; std::getline(in, l);) {
        if (l.find("does not exist") != l.npos) warned++;
        else if (l.find("duplicate") != l.npos) dups++;
        else if (l.find(": ") != l.npos) said[l.substr(0, l.find(": "))] = l.substr(l.find(": ") + 2);
      }
      PBT_CHECK(said["Layout height"] == pbt::str(h) && said["Layout width"] == pbt::str(w), "layout-check-size", out);
      PBT_CHECK(said["Total tile count"] == pbt::str(w * h) && said["Null tile count"] == pbt::str(w * h - data) && said["Data tile count"] == pbt::str(data), "layout-check-count", out);
      PBT_CHECK(dups == dup, "layout-check-duplicates", out);
      PBT_CHECK(warned == missing, "layout-check-missing", missing, " files are missing: ", out);
      break;
    }
    case 1: {
      auto out = script("rd_layout_display.py' '" + dir("l.layout") + "'", code);
      PBT_CHECK(code == 0, "layout-display-exit", code, ": ", out);
      std::string want;
      for (auto &row : g) {
        for (auto &n : row) want += n.empty() ? ' ' : '#';
        want += '\n';
      }
      PBT_CHECK(out == want, "layout-display", "printed\n", out, "expected\n", want);
      break;
    }
    default: {
      int best = 0;
      auto full = [&](int y, int x, int k) {
        for (int b = y; b < y + k; b++)
          for (int a = x; a < x + k; a++)
            if (b >= h || a >= w || g[b][a].empty()) return false;
        return true;
      };
      for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++)
          for (int k = 1; k <= std::min(w, h); k++)
            if (full(y, x, k)) best = std::max(best, k);
      auto out = script("rd_layout_find_square.py' onlydim '" + dir("l.layout") + "'", code);
      PBT_CHECK(code == 0, "find-square-exit", code, ": ", out);
      auto num = out.substr(0, out.find_last_not_of(" \n") + 1);
      PBT_CHECK(num.substr(num.find_last_of(' ') + 1) == pbt::str(best), "find-square", "the largest square of tiles is ", best, " wide, found ", out);
      out = script("rd_layout_find_square.py' '" + dir("sq") + "' '" + dir("l.layout") + "'", code);
      PBT_CHECK(code == 0, "find-square-exit", code, ": ", out);
      for (int k = 1; k <= std::max(w, h) + 1; k++) {
        auto f = dir(pbt::str("sq", k, ".layout"));
        PBT_CHECK(fs::exists(f) == (k <= best), "find-square-files", "size ", k, ", the largest is ", best);
        if (k > best) continue;
        std::ifstream in(f);
        std::vector<std::vector<std::string>> t;
        for (std::string l; std::getline(in, l);) {
          t.emplace_back();
          std::istringstream c(l);
          for (std::string n; std::getline(c, n, ',');) t.back().push_back(n.substr(0, n.find_last_not_of(' ') + 1));
        }
        bool found = false;
        for (int y = 0; y + k <= h && !found; y++)
          for (int x = 0; x + k <= w && !found; x++) {
            if (!full(y, x, k)) continue;
            found = (int)t.size() == k;
            for (int b = 0; b < k && found; b++) found = t[b] == std::vector<std::string>(g[y + b].begin() + x, g[y + b].begin() + x + k);
          }
        PBT_CHECK(found, "find-square-not-in-layout", "size ", k);
      }
    }
  }
}
PBT_PROP("convert", 4000, 80000, convert);
PBT_PROP("merge", 4000, 80000, merge);
PBT_PROP("hierarchy", 3000, 60000, hierarchy);
PBT_PROP("fsm", 3000, 60000, fsm);
PBT_PROP("layouts", 500, 8000, layouts);
#endif
}  // namespace
