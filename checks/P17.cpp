// P17: rasters survive being written to disk and read back: GeoTIFF through GDAL, the native cache, parts, padding,
// properties, processing history; failures are reported
#include <richdem/common/Array2D.hpp>
#include <richdem/common/loaders.hpp>
#include <sys/resource.h>
#include <csignal>
#include <filesystem>
#include <fstream>
#include "gen.hpp"
using namespace richdem;
using namespace gen;

#define STR2(x) #x
#define STR(x) STR2(x)
#ifndef QN
#define QN 600
#endif
static pbt::RuleRegistrar rr(
    "cases: rasters of every shape and type with generated NoData, geotransform, projection, metadata and history, saved and loaded whole, in parts, padded, "
    "compressed, in another type, through the cache, truncated, and on a disk that fills up; non-trivial: more than one row and column, at least one NoData and one data cell, and properties that are not the defaults",
    {"metadata values are printable text without leading or trailing white space (the GeoTIFF driver trims them)"});
using T = TY;
namespace {
const std::vector<std::string> PROJ = {
    "",
    "GEOGCS[\"WGS 84\",DATUM[\"WGS_1984\",SPHEROID[\"WGS 84\",6378137,298.257223563,AUTHORITY[\"EPSG\",\"7030\"]],AUTHORITY[\"EPSG\",\"6326\"]],PRIMEM[\"Greenwich\",0],UNIT[\"degree\",0.0174532925199433],AUTHORITY[\"EPSG\",\"4326\"]]",
    "PROJCS[\"WGS 84 / UTM zone 33N\",GEOGCS[\"WGS 84\",DATUM[\"WGS_1984\",SPHEROID[\"WGS 84\",6378137,298.257223563,AUTHORITY[\"EPSG\",\"7030\"]],AUTHORITY[\"EPSG\",\"6326\"]],PRIMEM[\"Greenwich\",0],UNIT[\"degree\",0.0174532925199433],AUTHORITY[\"EPSG\",\"4326\"]],PROJECTION[\"Transverse_Mercator\"],PARAMETER[\"latitude_of_origin\",0],PARAMETER[\"central_meridian\",15],PARAMETER[\"scale_factor\",0.9996],PARAMETER[\"false_easting\",500000],PARAMETER[\"false_northing\",0],UNIT[\"metre\",1],AUTHORITY[\"EPSG\",\"32633\"]]",
    "LOCAL_CS[\"mine\",UNIT[\"metre\",1]]"};
const std::vector<std::string> PROJ_NAME = {"", "WGS 84", "UTM zone 33N", "mine"};
struct Case {
  Array2D<T> a;
  int proj = 0;
  bool nontrivial = false;
};
template <class U>
U value(pbt::Source &s) {
  switch (s.weighted({8, 1, 1, 1})) {
    case 0: return U(s.range(0, 50));
    case 1: return std::numeric_limits<U>::max();
    case 2: return std::numeric_limits<U>::lowest();
    default:
      if constexpr (std::is_floating_point<U>::value) return U(s.unit() * 1e-3);
      else return U(s.draw(100));
  }
}
std::string text(pbt::Source &s) {
  static const std::string alphabet = "abcXYZ019 <>&\"'=;,.-_/\\\n";
  std::string r = "v";
  for (int n = s.draw(14); n > 0; n--) r += alphabet[s.draw(alphabet.size())];
  return r + "w";
}
Case draw_case(pbt::Source &s, int maxd = 40) {
  Case c;
  int w, h;
  dims(s, w, h, 1, maxd);
  c.a = Array2D<T>(w, h);
  T nd = s.coin() ? T(-9999) : value<T>(s);
  c.a.setNoData(nd);
  unsigned ndn = 0;
  for (unsigned i = 0; i < c.a.size(); i++) {
    c.a(i) = s.coin(1, 5) ? nd : value<T>(s);
    ndn += c.a(i) == nd;
  }
  if (!s.coin(1, 5)) c.a.geotransform = {double(s.range(0, 100000)) / 8, double(s.range(1, 400)) / 16, 0, double(s.range(0, 100000)) / 8, 0, -double(s.range(1, 400)) / 16};
  c.proj = s.draw(PROJ.size());
  c.a.projection = PROJ[c.proj];
  for (int n = s.draw(4); n > 0; n--) c.a.metadata["key" + std::to_string(s.draw(5))] = text(s);
  if (s.coin(1, 3)) c.a.metadata["PROCESSING_HISTORY"] = text(s);
  c.nontrivial = w > 1 && h > 1 && ndn && ndn < c.a.size() && !c.a.geotransform.empty() && (c.proj || !c.a.metadata.empty());
  if (c.nontrivial) s.nontrivial();
  if (s.verbose) {
    s.note(show(c.a));
    s.note(pbt::str("geotransform ", c.a.geotransform.empty() ? "none" : pbt::str(c.a.geotransform[0], " ", c.a.geotransform[1], " ", c.a.geotransform[3], " ", c.a.geotransform[5]), ", projection '", PROJ_NAME[c.proj], "'"));
    for (auto &kv : c.a.metadata) s.note(kv.first + ": " + kv.second);
  }
  return c;
}
std::string scratch(const char *name) { return pbt::worker_dir() + "/" + name; }
struct Remover {
  std::string f;
  ~Remover() {
    std::error_code e;
    std::filesystem::remove(f, e);
    std::filesystem::remove(f + ".aux.xml", e);
  }
};
// whichever way of saving and loading
void save(pbt::Source &s, Array2D<T> &a, const std::string &f, const std::string &cmd, int xo, int yo, bool compress) {
  if (s.coin()) s.label("SaveGDAL"), SaveGDAL(a, f, cmd, xo, yo, 0, 0, compress);
  else s.label("saveGDAL"), a.saveGDAL(f, cmd, xo, yo, compress);
}
template <class U>
Array2D<U> load(pbt::Source &s, const std::string &f) {
  switch (s.draw(3)) {
    case 0: return Array2D<U>(f);
    case 1: {
      Array2D<U> a(f, false, 0, 0, 0, 0, false, false);
      PBT_CHECK(a.empty(), "lazy", "the cells were loaded though this was not asked for");
      a.loadData();
      return a;
    }
    default: {
      Array2D<U> a;
      if (s.coin()) a.resize(s.range(1, 5), s.range(1, 5), U(1));
      LoadGDAL(f, a);
      return a;
    }
  }
}
template <class U>
void check_props(const Case &c, const std::map<std::string, std::string> &before, const Array2D<U> &b, const std::string &cmd, int xo, int yo) {
  if (!c.a.geotransform.empty()) {
    auto gt = c.a.geotransform;
    gt[0] += xo * gt[1];
    gt[3] += yo * gt[5];
    PBT_CHECK(b.geotransform == gt, "geotransform", "the geotransform changed");
  }
  PBT_CHECK(b.projection.empty() == !c.proj && b.projection.find(PROJ_NAME[c.proj]) != std::string::npos, "projection", "the projection '", PROJ_NAME[c.proj], "' became '", b.projection, "'");
  for (auto &kv : before)
    if (kv.first != "PROCESSING_HISTORY") {
      auto it = b.metadata.find(kv.first);
      PBT_CHECK(it != b.metadata.end() && it->second == kv.second, "metadata", "item ", kv.first, it == b.metadata.end() ? " is missing" : " is '" + it->second + "'");
    }
  auto it = b.metadata.find("PROCESSING_HISTORY");
  PBT_CHECK(it != b.metadata.end(), "history", "there is no processing history");
  std::string h = it->second, want = cmd.empty() ? "Unspecified Operation" : cmd;
  PBT_CHECK(h.size() >= want.size() && h.compare(h.size() - want.size(), want.size(), want) == 0, "history", "the history '", h, "' does not end in the operation '", want, "'");
  if (before.count("PROCESSING_HISTORY")) {
    auto &old = before.at("PROCESSING_HISTORY");
    PBT_CHECK(h.compare(0, old.size(), old) == 0 && h.size() > old.size() && h[old.size()] == '\n', "history", "the history '", h, "' does not continue the history '", old, "'");
  }
}
// the whole raster
void gdal_roundtrip(pbt::Source &s) {
  auto c = draw_case(s);
  std::string f = s.coin(1, 4) ? scratch("r.tif") : "/vsimem/r.tif", cmd = s.coin() ? text(s) : "";
  Remover rm{f};
  bool compress = s.coin(1, 3);
  int xo = s.coin(1, 3) ? s.range(0, 50) : 0, yo = s.coin(1, 3) ? s.range(0, 50) : 0;
  const auto before = c.a.metadata;
  const auto cells = from_array(c.a);
  save(s, c.a, f, cmd, xo, yo, compress);
  for (unsigned i = 0; i < cells.size(); i++) PBT_CHECK(c.a(i) == cells.v[i], "save-alters", "saving changed cell ", i);
  auto b = load<T>(s, f);
  PBT_CHECK(b.width() == cells.w && b.height() == cells.h, "dims", "loaded ", b.width(), "x", b.height());
  PBT_CHECK(b.noData() == cells.nd, "nodata", "NoData ", +cells.nd, " became ", +b.noData());
  for (unsigned i = 0; i < cells.size(); i++) PBT_CHECK(b(i) == cells.v[i], "cells", "cell ", i, " was ", +cells.v[i], " and is ", +b(i));
  PBT_CHECK(b.filename == f, "filename", "");
  check_props(c, before, b, cmd, xo, yo);
  // the file's header
  PBT_CHECK(peekGDALType(f) == NativeTypeToGDAL<T>(), "type", "");
  int32_t hh, ww;
  T nd;
  double gt[6];
  getGDALHeader<T>(f, hh, ww, nd, gt);
  PBT_CHECK(hh == cells.h && ww == cells.w && nd == cells.nd, "header", "getGDALHeader");
  GDALDataType dt;
  if (!c.a.geotransform.empty()) {
    getGDALDimensions(f, hh, ww, dt, gt);
    PBT_CHECK(hh == cells.h && ww == cells.w && dt == NativeTypeToGDAL<T>() && gt[1] == c.a.geotransform[1], "header", "getGDALDimensions");
  }
  // once more: nothing changes but the history
  Remover rm2{"/vsimem/r2.tif"};
  auto md = b.metadata;
  b.saveGDAL("/vsimem/r2.tif", "again");
  Array2D<T> d("/vsimem/r2.tif");
  PBT_CHECK(d == b && d.geotransform == b.geotransform && d.projection == b.projection, "second", "a second save and load changes the raster");
  for (auto &kv : md)
    if (kv.first != "PROCESSING_HISTORY" && kv.first.compare(0, 8, "TIFFTAG_") != 0) PBT_CHECK(d.metadata[kv.first] == kv.second, "second", "a second save and load changes item ", kv.first);
}
// part of the raster; padding
void gdal_parts(pbt::Source &s) {
  auto c = draw_case(s);
  std::string f = "/vsimem/p.tif";
  Remover rm{f};
  const auto z = from_array(c.a);
  int xo = s.draw(z.w), yo = s.draw(z.h), pw = s.range(1, z.w), ph = s.range(1, z.h);  // may reach beyond: cut off
  int ew = std::min(pw, z.w - xo), eh = std::min(ph, z.h - yo);
  s.note(pbt::str("part ", pw, "x", ph, " at (", xo, ",", yo, ")"));
  switch (s.draw(3)) {
    case 0: {
      c.a.saveGDAL(f);
      Array2D<T> b(f, false, xo, yo, pw, ph, false, s.coin());
      if (b.empty()) b.loadData();
      PBT_CHECK(b.width() == ew && b.height() == eh && b.viewXoff() == xo && b.viewYoff() == yo, "part-dims", "got ", b.width(), "x", b.height(), ", expected ", ew, "x", eh);
      for (int y = 0; y < eh; y++)
        for (int x = 0; x < ew; x++) PBT_CHECK(b(x, y) == z(x + xo, y + yo), "part-cells", "(", x, ",", y, ")");
      break;
    }
    case 1: {
      c.a.saveGDAL(f);
      int px = s.range(0, 3), py = s.range(0, 3);
      Array2D<T> b;
      LoadGDAL(f, b, px, py, xo, yo, pw, ph);
      PBT_CHECK(b.width() == ew + 2 * px && b.height() == eh + 2 * py, "pad-dims", "got ", b.width(), "x", b.height());
      for (int y = 0; y < b.height(); y++)
        for (int x = 0; x < b.width(); x++) {
          bool in = x >= px && y >= py && x < px + ew && y < py + eh;
          PBT_CHECK(b(x, y) == (in ? z(x - px + xo, y - py + yo) : T()), "pad-cells", "(", x, ",", y, ")");
        }
      break;
    }
    default: {
      int px = s.range(0, (z.w - 1) / 2), py = s.range(0, (z.h - 1) / 2);
      s.note(pbt::str("padding ", px, " ", py));
      SaveGDAL(c.a, f, "", 0, 0, px, py, s.coin());
      Array2D<T> b(f);
      PBT_CHECK(b.width() == z.w - 2 * px && b.height() == z.h - 2 * py, "unpad-dims", "got ", b.width(), "x", b.height(), " from ", z.w, "x", z.h, " without padding of ", px, " and ", py);
      for (int y = 0; y < b.height(); y++)
        for (int x = 0; x < b.width(); x++) PBT_CHECK(b(x, y) == z(x + px, y + py), "unpad-cells", "(", x, ",", y, ")");
    }
  }
}
// a file of another type
template <class U>
void other(pbt::Source &s) {
  int w = s.range(1, 12), h = s.range(1, 12);
  Array2D<U> a(w, h);
  a.setNoData(U(100));
  for (unsigned i = 0; i < a.size(); i++) a(i) = U(s.draw(101));
  Remover rm{"/vsimem/o.tif"};
  s.nontrivial();
  a.saveGDAL("/vsimem/o.tif");
  auto b = load<T>(s, "/vsimem/o.tif");
  PBT_CHECK(b.noData() == T(100) && b.width() == w && b.height() == h, "other-nodata", "");
  for (unsigned i = 0; i < a.size(); i++) PBT_CHECK(b(i) == T(a(i)), "other-cells", "cell ", i, " was ", +a(i), " and is ", +b(i));
}
void gdal_other(pbt::Source &s) {
  switch (s.draw(4)) {
    case 0: other<uint8_t>(s); break;
    case 1: other<double>(s); break;
    case 2: other<int16_t>(s); break;
    default: other<uint32_t>(s);
  }
}
// the native cache: dump and reload histories
void cache(pbt::Source &s) {
  auto c = draw_case(s);
  if (s.coin(1, 3)) {  // a raster that is part of another
    Remover rm{"/vsimem/c.tif"};
    c.a.saveGDAL("/vsimem/c.tif");
    int xo = s.draw(c.a.width()), yo = s.draw(c.a.height());
    Case p;
    p.proj = c.proj;
    p.a = Array2D<T>("/vsimem/c.tif", false, xo, yo, s.range(1, c.a.width()), s.range(1, c.a.height()));
    c = std::move(p);
  }
  auto z = from_array(c.a);
  auto gt = c.a.geotransform;
  if (gt.empty()) gt.resize(6);
  const auto md = c.a.metadata;
  const auto proj = c.a.projection;
  const int xo = c.a.viewXoff(), yo = c.a.viewYoff();
  std::string f = scratch("cache.native");
  Remover rm{f};
  auto same = [&](const Array2D<T> &b, const char *what) {
    PBT_CHECK(b.width() == z.w && b.height() == z.h && b.noData() == z.nd && b.viewXoff() == xo && b.viewYoff() == yo, "cache-dims", what);
    PBT_CHECK(b.projection == proj && b.geotransform == gt, "cache-props", what);
    for (unsigned i = 0; i < z.size(); i++) PBT_CHECK(b(i) == z.v[i], "cache-cells", what, ": cell ", i, " was ", +z.v[i], " and is ", +b(i));
    unsigned data = std::count_if(z.v.begin(), z.v.end(), [&](T v) { return v != z.nd; });
    PBT_CHECK(b.numDataCells() == data, "cache-count", what, ": ", b.numDataCells(), " data cells, should be ", data);
  };
  bool numbered = s.coin();
  if (numbered) c.a.numDataCells();
  c.a.setCacheFilename(f);
  int rounds = s.range(1, 4);
  for (int r = 0; r < rounds; r++) {
    switch (s.draw(4)) {
      case 0:
        s.note("dump and load");
        c.a.dumpData();
        PBT_CHECK(c.a.empty() && c.a.width() == z.w && c.a.height() == z.h, "dumped", "");
        c.a.loadData();
        break;
      case 1: {
        s.note("save and open");
        c.a.saveToCache(f);
        Array2D<T> b(f, true);
        same(b, "opened");
        if (s.coin()) c.a = b, c.a.metadata = md;
        break;
      }
      case 2: {
        s.note("save and open without cells");
        c.a.saveToCache(f);
        Array2D<T> b(f, true, 0, 0, 0, 0, false, false);
        PBT_CHECK(b.empty() && b.width() == z.w && b.height() == z.h, "opened-lazily", "");
        b.loadData();
        same(b, "opened later");
        bool threw = false;
        try {
          b.loadData();
        } catch (const std::runtime_error &) { threw = true; }
        PBT_CHECK(threw, "loaded-twice", "loadData() with data present did not throw");
        break;
      }
      default: {
        s.note("change a cell");
        int i = s.draw(z.size());
        T v = s.coin() ? z.nd : value<T>(s);
        c.a(i) = v;
        z.v[i] = v;
        c.a.dumpData();
        c.a.loadData();
      }
    }
    c.a.metadata = md;
    if (c.a.geotransform.empty()) c.a.geotransform = gt;
    same(c.a, "after the round");
  }
}
// a cache file cut short is refused; the file system fills up
void truncated(pbt::Source &s) {
  auto c = draw_case(s, 12);
  std::string f = scratch("t.native");
  Remover rm{f};
  c.a.saveToCache(f);
  auto n = std::filesystem::file_size(f);
  auto cut = s.draw(n);
  s.note(pbt::str("the first ", cut, " of ", n, " bytes"));
  std::filesystem::resize_file(f, cut);
  bool threw = false;
  try {
    Array2D<T> b(f, true);
  } catch (const std::exception &) { threw = true; }
  PBT_CHECK(threw, "truncated", "a file cut to ", cut, " of ", n, " bytes was loaded");
  c.a.clear();
  threw = false;
  try {
    c.a.loadData();
  } catch (const std::exception &) { threw = true; }
  PBT_CHECK(threw, "truncated", "a cache cut to ", cut, " of ", n, " bytes was loaded");
}
int gdal_failures;
void count_failures(CPLErr e, CPLErrorNum, const char *) { gdal_failures += e >= CE_Failure; }
void disk_full(pbt::Source &s) {
  auto c = draw_case(s, 60);
  const auto z = from_array(c.a);
  const bool native = s.coin();
  std::string f = scratch(native ? "d.native" : "d.tif");
  Remover rm{f};
  bool compress = s.coin(1, 4);
  auto go = [&] {
    if (native) c.a.setCacheFilename(f), c.a.dumpData();
    else save(s, c.a, f, "command", 0, 0, compress);
  };
  auto a0 = c.a;
  {
    auto keep = c.a;
    if (native) keep.saveToCache(f);
    else keep.saveGDAL(f, "command", 0, 0, compress);
  }
  auto n = std::filesystem::file_size(f);
  std::filesystem::remove(f);
  auto limit = s.draw(n + n / 4 + 2);
  s.note(pbt::str(native ? "native" : "GeoTIFF", ": room for ", limit, " bytes of about ", n));
  struct rlimit r, old;
  getrlimit(RLIMIT_FSIZE, &old);
  r = old;
  r.rlim_cur = limit;
  auto sig = std::signal(SIGXFSZ, SIG_IGN);
  setrlimit(RLIMIT_FSIZE, &r);
  bool threw = false;
  gdal_failures = 0;
  CPLPushErrorHandler(count_failures);
  try {
    go();
  } catch (const std::exception &) { threw = true; }
  CPLPopErrorHandler();
  setrlimit(RLIMIT_FSIZE, &old);
  std::signal(SIGXFSZ, sig);
  if (threw) {
    if (native) {
      PBT_CHECK(!c.a.empty(), "dropped", "the cells that could not be written were dropped from memory");
      for (unsigned i = 0; i < z.size(); i++) PBT_CHECK(c.a(i) == z.v[i], "dropped", "");
    }
    PBT_CHECK(native ? limit < n : true, "throws", "there was room for the whole file");
    s.label("refused");
  } else {
    if (!native && limit < n && !gdal_failures) {  // GDAL's TIFF driver does not report every failed write
      s.label("not reported by GDAL");
      return;
    }
    s.label("fits");
    Array2D<T> b;
    try {
      b = Array2D<T>(f, native);
    } catch (const std::exception &e) { pbt::fail("lost", pbt::str("saving reported success on a full disk, but the file cannot be read: ", e.what())); }
    PBT_CHECK(b.width() == z.w && b.height() == z.h, "lost", "saving reported success on a full disk");
    for (unsigned i = 0; i < z.size(); i++) PBT_CHECK(b(i) == z.v[i], "lost", "saving reported success on a full disk, but cell ", i, " is lost");
  }
}
void missing(pbt::Source &s) {
  std::string f = scratch("no/such/dir/x.tif");
  auto c = draw_case(s, 6);
  auto throws = [&](const char *what, std::function<void()> g) {
    bool threw = false;
    try {
      g();
    } catch (const std::exception &) { threw = true; }
    PBT_CHECK(threw, "missing", what, " did not throw");
  };
  throws("loading a file that does not exist", [&] { Array2D<T> b(f); });
  throws("loading a file that does not exist", [&] { Array2D<T> b; LoadGDAL(f, b); });
  throws("loading a native file that does not exist", [&] { Array2D<T> b(f, true); });
  throws("saving where there is no directory", [&] { c.a.saveGDAL(f); });
  throws("saving where there is no directory", [&] { SaveGDAL(c.a, f); });
  throws("caching where there is no directory", [&] { c.a.saveToCache(f); });
  throws("peekGDALType", [&] { peekGDALType(f); });
}
}  // namespace
static pbt::InitRegistrar init_([] {
  CPLPushErrorHandler(CPLQuietErrorHandler);
  GDALAllRegister();
});
PBT_PROP("gdal_" STR(TY), QN, QN * 20, gdal_roundtrip);
PBT_PROP("parts_" STR(TY), QN, QN * 20, gdal_parts);
PBT_PROP("other_" STR(TY), QN / 3, QN * 7, gdal_other);
PBT_PROP("cache_" STR(TY), QN, QN * 20, cache);
PBT_PROP("truncated_" STR(TY), QN, QN * 20, truncated);
PBT_PROP("disk_full_" STR(TY), QN / 2, QN * 10, disk_full);
PBT_PROP("missing_" STR(TY), 20, 40, missing);
