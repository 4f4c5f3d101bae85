// P18: layout files describe the grid of tiles that was written, and a tiled raster answers as one raster made of its tiles would
#include <richdem/common/Array2D.hpp>
#include <richdem/common/Layoutfile.hpp>
#include <richdem/tiled/A2Array2D.hpp>
#include <filesystem>
#include <fstream>
#include "gen.hpp"
using namespace richdem;
using namespace gen;

static pbt::RuleRegistrar rr(
    "layout cases: grids of tile names and gaps written by hand (random blanks, missing last commas) or by LayoutfileWriter, read back; tile cases: GeoTIFF tiles in any orientation arranged "
    "with gaps, read and written through A2Array2D with caches of 1 to 6 tiles in histories of reads, writes, fills, NoData changes and saves; non-trivial: at least two rows and two columns of tiles, and a gap or an eviction",
    {"tiles of one layout have the same size; blanks are spaces"});
namespace fs = std::filesystem;
namespace {
using Names = std::vector<std::vector<std::string>>;
std::string tile_name(pbt::Source &s, int i) {
  static const std::vector<std::string> ext = {".tif", ".a.tif", "", ".native", ".b c.tif"};
  static const std::vector<std::string> pre = {"t", "tile ", "x.y", "_", "a-b"};
  return pre[s.draw(pre.size())] + std::to_string(i) + ext[s.draw(ext.size())];
}
Names draw_names(pbt::Source &s, bool dirs) {
  int w = s.range(1, 5), h = s.range(1, 5), gaps = 0;
  Names g(h, std::vector<std::string>(w));
  int p = s.draw(4);
  for (int y = 0; y < h; y++)
    for (int x = 0; x < w; x++)
      if (s.coin(p, 4)) gaps++;
      else g[y][x] = (dirs && s.coin(1, 4) ? s.coin() ? "sub/" : "../up.dir/" : "") + tile_name(s, y * w + x);
  if (w > 1 && h > 1 && gaps) s.nontrivial();
  return g;
}
std::string base_of(const std::string &f) {
  std::string b = fs::path(f).filename().string();
  auto p = b.rfind('.');
  return p == std::string::npos ? b : b.substr(0, p);
}
void expect(const std::string &file, const std::string &dir, Names g) {
  LayoutfileReader lf(file);
  int n = 0;
  const int h = g.size(), w = g[0].size();
  while (lf.next()) {
    int x = n % w, y = n / w;
    PBT_CHECK(y < h, "extra", "the reader returned more than ", w, "x", h, " entries");
    const auto &f = g[y][x];
    PBT_CHECK(lf.getX() == x && lf.getY() == y, "position", "entry ", n, " of ", w, " columns is at ", lf.getX(), ",", lf.getY());
    PBT_CHECK(lf.newRow() == (x == 0), "row", "entry ", n, ": newRow=", lf.newRow());
    PBT_CHECK(lf.isNullTile() == f.empty(), "gap", "entry ", x, ",", y, " '", f, "': isNullTile=", lf.isNullTile());
    PBT_CHECK(lf.getFilename() == f, "name", "'", f, "' was read as '", lf.getFilename(), "'");
    PBT_CHECK(lf.getBasename() == base_of(f), "basename", "the basename of '", f, "' is '", lf.getBasename(), "'");
    PBT_CHECK(lf.getPath() == dir, "path", "the layout's path is '", lf.getPath(), "'");
    PBT_CHECK(lf.getFullPath() == dir + f, "fullpath", "'", lf.getFullPath(), "'");
    PBT_CHECK(lf.getGridLocName() == pbt::str(x, "_", y), "gridloc", lf.getGridLocName());
    n++;
  }
  PBT_CHECK(n == w * h, "missing", "the reader returned ", n, " of ", w * h, " entries");
}
struct Dir {
  std::string d;
  explicit Dir(pbt::Source &s) {
    static const std::vector<std::string> names = {"d", "d.x", "d e", "d.1/f"};
    d = pbt::worker_dir() + "/" + names[s.draw(names.size())] + "/";
    std::error_code e;
    fs::remove_all(d, e);
    fs::create_directories(d);
  }
  ~Dir() {
    std::error_code e;
    fs::remove_all(d, e);
  }
};
// the last column may be left out by every row: then nothing says it is there
bool drop_last(Names &g, const std::vector<bool> &shortened) {
  if (g[0].size() == 1) return false;
  for (size_t y = 0; y < g.size(); y++)
    if (!shortened[y]) return false;
  for (auto &r : g) r.pop_back();
  return true;
}
void text(pbt::Source &s) {
  auto g = draw_names(s, true);
  Dir dir(s);
  std::string out;
  std::vector<bool> shortened;
  auto blanks = [&] { return std::string(s.coin(1, 3) ? s.draw(4) : 0, ' '); };
  for (auto &r : g) {
    bool sh = false;
    for (size_t x = 0; x < r.size(); x++) {
      std::string cell = blanks() + r[x] + blanks();
      if (x) out += ",";
      if (x + 1 == r.size()) {
        if (cell.empty()) sh = true;
        // a comma after the last entry
        else if (s.coin(1, 4) && !r[x].empty()) cell += ",";
      }
      out += cell;
    }
    shortened.push_back(sh);
    out += "\n";
  }
  // a last comma says there is one more column only if some row has it
  if (s.coin(1, 4) && out.size() > 1 && out[out.size() - 2] != '\n') out.pop_back();  // no new line at the end of the file
  std::string f = dir.d + (s.coin() ? "l.layout" : "layout");
  std::ofstream(f, std::ios::binary) << out;
  s.note(out);
  drop_last(g, shortened);
  // every row may be one short of the widest: the reader cannot know; a row that lost its only cell is a row of one gap
  expect(f, dir.d, g);
}
void ragged(pbt::Source &s) {
  auto g = draw_names(s, false);
  while (g[0].size() < 3)
    for (auto &r : g) r.push_back("z");
  if (g.size() < 2) g.push_back(g[0]);
  size_t bad = s.draw(g.size()), full = (bad + 1 + s.draw(g.size() - 1)) % g.size();
  for (auto &r : g)
    for (auto &c : r)
      if (c.empty()) c = "q";
  size_t len = s.draw(g[0].size() - 1);  // at most two short
  Dir dir(s);
  std::string f = dir.d + "l.layout", out;
  for (size_t y = 0; y < g.size(); y++) {
    size_t n = y == bad ? len : y == full ? g[0].size() : g[0].size() - s.draw(2);
    for (size_t x = 0; x < n; x++) out += (x ? "," : "") + g[y][x];
    out += "\n";
  }
  std::ofstream(f) << out;
  s.note(out);
  s.nontrivial();
  bool threw = false;
  try {
    LayoutfileReader lf(f);
  } catch (const std::exception &) { threw = true; }
  PBT_CHECK(threw, "ragged", "a layout with rows of different lengths was accepted");
}
void writer(pbt::Source &s) {
  auto g = draw_names(s, false);
  Dir dir(s);
  static const std::vector<std::string> names = {"out.layout", "out.tif", "out", "o.u.t", ".layout"};
  std::string n = names[s.draw(names.size())], f = dir.d + n;
  bool before = s.coin();
  {
    LayoutfileWriter lw(f);
    for (auto &r : g) {
      if (before || &r != &g[0]) lw.addRow();
      for (auto &c : r) lw.addEntry(c.empty() ? "" : s.coin() ? dir.d + c : c);
    }
  }
  auto p = n.rfind('.');
  f = dir.d + (p == std::string::npos ? n : n.substr(0, p) + ".layout");
  PBT_CHECK(fs::exists(f), "written", "no file '", f, "'");
  std::vector<bool> shortened;
  for (auto &r : g) shortened.push_back(r.back().empty());
  drop_last(g, shortened);
  expect(f, dir.d, g);
}
// ---------------------------------------------------------------- tiles
template <class T>
struct Mosaic {
  int tw, th, W, H;
  std::vector<char> gap;
  Grid<T> z;  // the cells as the raster presents them
  bool real(int tx, int ty) const { return !gap[ty * W + tx]; }
  bool real_at(int x, int y) const { return real(x / tw, y / th); }
};
template <class T>
T cell(pbt::Source &s, T nd) {
  if (s.coin(1, 6)) return nd;
  return s.coin(1, 12) ? std::numeric_limits<T>::max() : T(s.range(0, 60));
}
template <class T, class A>
void compare(const Mosaic<T> &m, A &a, T nd, const std::vector<char> &init, const char *when) {
  for (int y = 0; y < m.z.h; y++)
    for (int x = 0; x < m.z.w; x++) {
      if (!m.real_at(x, y)) {
        PBT_CHECK(a.isNoData(x, y), "gap-nodata", when, ": ", x, ",", y, " in a gap is data");
        continue;
      }
      PBT_CHECK(a(x, y) == m.z(x, y), "cell", when, ": cell ", x, ",", y, " is ", +a(x, y), " instead of ", +m.z(x, y));
      PBT_CHECK(a.isNoData(x, y) == (m.z(x, y) == nd), "nodata", when, ": isNoData(", x, ",", y, ")=", a.isNoData(x, y));
    }
}
// one history of operations on a tiled raster
template <class T>
void history(pbt::Source &s, Mosaic<T> &m, A2Array2D<T> &a, T &nd, bool writable, bool can_save, const std::string &dir, bool georef, const std::array<double, 6> &gt, bool fh, bool fv, int cache) {
  const Mosaic<T> &cm = m;
  PBT_CHECK(a.width() == m.z.w && a.height() == m.z.h, "size", a.width(), "x", a.height(), " instead of ", m.z.w, "x", m.z.h);
  PBT_CHECK(a.widthInTiles() == m.W && a.heightInTiles() == m.H && a.stdTileWidth() == m.tw && a.stdTileHeight() == m.th, "tiling", "");
  PBT_CHECK(a.isReadonly() == !writable, "readonly", "");
  int nreal = 0;
  for (int ty = 0; ty < m.H; ty++)
    for (int tx = 0; tx < m.W; tx++) {
      nreal += m.real(tx, ty);
      PBT_CHECK(a.isNullTile(tx, ty) == !m.real(tx, ty), "null", "isNullTile(", tx, ",", ty, ")=", a.isNullTile(tx, ty));
    }
  PBT_CHECK(a.notNullTiles() == nreal, "not-null", a.notNullTiles(), " tiles of ", nreal);
  int saves = 0;
  for (int n = s.draw(40); n > 0; n--) {
    int tx = s.draw(m.W), ty = s.draw(m.H), px = s.draw(m.tw), py = s.draw(m.th), x = tx * m.tw + px, y = ty * m.th + py;
    int op = s.weighted({4, 4, 2, 2, writable ? 6 : 0, writable ? 6 : 0, writable ? 1 : 0, 1, 1, 1, 1, can_save && saves < 1 ? 1 : 0, georef && saves < 1 ? 1 : 0});
    bool r = cm.real(tx, ty);
    switch (op) {
      case 0:
        s.note(pbt::str("read ", x, ",", y));
        if (r) PBT_CHECK(a(x, y) == m.z(x, y), "cell", "cell ", x, ",", y, " is ", +a(x, y), " instead of ", +m.z(x, y));
        else (void)a(x, y);
        break;
      case 1:
        s.note(pbt::str("read ", tx, ",", ty, ",", px, ",", py));
        if (r) PBT_CHECK(a(tx, ty, px, py) == m.z(x, y), "cell", "cell ", px, ",", py, " of tile ", tx, ",", ty, " is ", +a(tx, ty, px, py), " instead of ", +m.z(x, y));
        else (void)a(tx, ty, px, py);
        break;
      case 2:
        s.note(pbt::str("isNoData ", x, ",", y));
        PBT_CHECK(a.isNoData(x, y) == (!r || m.z(x, y) == nd), "nodata", "isNoData(", x, ",", y, ")=", a.isNoData(x, y));
        break;
      case 3:
        s.note(pbt::str("isNoData ", tx, ",", ty, ",", px, ",", py));
        PBT_CHECK(a.isNoData(tx, ty, px, py) == (!r || m.z(x, y) == nd), "nodata", "isNoData(", tx, ",", ty, ",", px, ",", py, ")=", a.isNoData(tx, ty, px, py));
        break;
      case 4:
      case 5: {
        T v = cell(s, nd);
        s.note(pbt::str("write ", x, ",", y, "=", +v));
        (op == 4 ? a(x, y) : a(tx, ty, px, py)) = v;
        if (r) m.z(x, y) = v;
        break;
      }
      case 6: {
        T v = cell(s, nd);
        s.note(pbt::str("setAll ", +v));
        a.setAll(v);
        for (auto &c : m.z.v) c = v;
        break;
      }
      case 7:
        nd = T(s.range(0, 60));
        s.note(pbt::str("setNoData ", +nd));
        a.setNoData(nd);
        break;
      case 8: {
        s.note(pbt::str("loadTile ", tx, ",", ty));
        int e = a.getEvictions();
        a.loadTile(tx, ty);
        PBT_CHECK(a.getEvictions() - e <= 1, "evictions", "loading one tile evicted ", a.getEvictions() - e);
        e = a.getEvictions();
        a.loadTile(tx, ty);
        PBT_CHECK(a.getEvictions() == e, "evictions", "loading the tile that is loaded evicted one");
        break;
      }
      case 9: {
        int32_t qtx, qty, qx, qy;
        a.makeQuadIndex(x, y, qtx, qty, qx, qy);
        PBT_CHECK(qtx == tx && qty == ty && qx == px && qy == py, "quad", "makeQuadIndex");
        if (r) PBT_CHECK(a.tileWidth(tx, ty) == m.tw && a.tileHeight(tx, ty) == m.th, "tile-size", a.tileWidth(tx, ty), "x", a.tileHeight(tx, ty), " instead of ", m.tw, "x", m.th);
        break;
      }
      case 10: {
        int qx = s.range(-2, m.z.w + 1), qy = s.range(-2, m.z.h + 1);
        PBT_CHECK(a.in_grid(qx, qy) == m.z.in(qx, qy), "in_grid", "in_grid(", qx, ",", qy, ")");
        if (m.z.in(qx, qy)) {
          PBT_CHECK(a.isEdgeCell(qx, qy) == m.z.edge(qx, qy), "edge", "isEdgeCell(", qx, ",", qy, ")");
          PBT_CHECK(a.isInteriorCell(qx, qy) == !m.z.edge(qx, qy), "edge", "isInteriorCell(", qx, ",", qy, ")");
        }
        break;
      }
      case 11: {  // as tiles with a layout of their own
        saves++;
        s.note("saveGDAL");
        a.saveGDAL(dir + "out-%f.tif");
        A2Array2D<T> b(dir + "out-layout.layout", s.range(1, 4));
        b.flipH = fh, b.flipV = fv;
        int Wb = b.widthInTiles();
        bool last_gone = Wb == m.W - 1;
        for (int yy = 0; yy < m.H && last_gone; yy++) last_gone = !m.real(m.W - 1, yy);
        PBT_CHECK(b.heightInTiles() == m.H && (Wb == m.W || last_gone), "saved-tiling", Wb, "x", b.heightInTiles(), " tiles instead of ", m.W, "x", m.H);
        for (int yy = 0; yy < b.height(); yy++)
          for (int xx = 0; xx < b.width(); xx++)
            if (m.real_at(xx, yy)) PBT_CHECK(b(xx, yy) == m.z(xx, yy), "saved-cell", "cell ", xx, ",", yy, " was saved as ", +b(xx, yy), " instead of ", +m.z(xx, yy));
            else PBT_CHECK(b.isNoData(xx, yy), "saved-gap", "");
        break;
      }
      default: {  // as a single file
        saves++;
        s.note("saveUnifiedGDAL");
        a.saveUnifiedGDAL(dir + "one.tif");
        Array2D<T> b(dir + "one.tif");
        PBT_CHECK(b.width() == m.z.w && b.height() == m.z.h, "one-size", b.width(), "x", b.height());
        PBT_CHECK(b.noData() == nd, "one-nodata", +b.noData(), " instead of ", +nd);
        for (int yy = 0; yy < m.z.h; yy++)
          for (int xx = 0; xx < m.z.w; xx++) {
            T e = m.real_at(xx, yy) ? m.z(xx, yy) : nd;
            PBT_CHECK(b(xx, yy) == e, "one-cell", "cell ", xx, ",", yy, " was saved as ", +b(xx, yy), " instead of ", +e);
          }
        if (gt[1] > 0 && gt[5] < 0 && !fh && !fv)
          for (int i = 0; i < 6; i++) PBT_CHECK(b.geotransform[i] == gt[i], "one-geotransform", "entry ", i, " is ", b.geotransform[i], " instead of ", gt[i]);
        break;
      }
    }
  }
  compare(m, a, nd, {}, "at the end");
  if (a.getEvictions()) s.label("evictions");
  if (m.W > 1 && m.H > 1 && (a.getEvictions() || nreal < m.W * m.H)) s.nontrivial();
  if (cache >= nreal) PBT_CHECK(a.getEvictions() == 0, "evictions", "a cache of ", cache, " evicted ", a.getEvictions(), " of ", nreal, " tiles");
}
template <class T>
void tiles(pbt::Source &s) {
  Dir dir(s);
  Mosaic<T> m;
  m.W = s.range(1, 4), m.H = s.range(1, 4), m.tw = s.range(1, 6), m.th = s.range(1, 6);
  m.gap.assign(m.W * m.H, 0);
  int p = s.coin() ? 0 : s.range(1, 2);
  for (auto &g : m.gap) g = s.coin(p, 4);
  m.gap[s.draw(m.gap.size())] = 0;
  // a last column that is all gaps would be left out
  bool last = false;
  for (int y = 0; y < m.H; y++) last |= m.real(m.W - 1, y);
  if (!last) m.gap[s.draw(m.H) * m.W + m.W - 1] = 0;
  m.z = Grid<T>(m.W * m.tw, m.H * m.th);
  T nd = s.coin() ? T(-9999) : T(s.range(0, 60));
  bool west = s.coin(1, 3), south = s.coin(1, 3), fh = s.coin(1, 4), fv = s.coin(1, 4);
  double cw = (west ? -1 : 1) * double(s.range(1, 64)) / 8, ch = (south ? 1 : -1) * double(s.range(1, 64)) / 8;
  std::array<double, 6> gt{double(s.range(-800, 800)) / 8, cw, 0, double(s.range(-800, 800)) / 8, 0, ch};
  std::string layout;
  int cache = s.range(1, 6);
  s.note(pbt::str(m.W, "x", m.H, " tiles of ", m.tw, "x", m.th, ", ", west ? "east-west" : "west-east", ", ", south ? "south-up" : "north-up", ", flipH=", fh, " flipV=", fv, ", cache of ", cache, ", NoData ", +nd));
  for (int ty = 0; ty < m.H; ty++) {
    for (int tx = 0; tx < m.W; tx++) {
      if (tx) layout += ",";
      if (!m.real(tx, ty)) {
        s.note(pbt::str("gap at ", tx, ",", ty));
        continue;
      }
      std::string n = pbt::str("t", tx, "-", ty);
      layout += n + ".tif";
      Array2D<T> t(m.tw, m.th);
      t.setNoData(nd);
      t.geotransform = {gt[0] + tx * m.tw * gt[1], gt[1], 0, gt[3] + ty * m.th * gt[5], 0, gt[5]};
      for (int y = 0; y < m.th; y++)
        for (int x = 0; x < m.tw; x++) {
          t(x, y) = cell(s, nd);
          int fx = west != fh ? m.tw - 1 - x : x, fy = south != fv ? m.th - 1 - y : y;
          m.z(tx * m.tw + fx, ty * m.th + fy) = t(x, y);
        }
      t.saveGDAL(dir.d + n + ".tif");
    }
    layout += "\n";
  }
  const std::string lf = dir.d + "in.layout";
  std::ofstream(lf) << layout;
  PBT_CHECK(peekLayoutType(lf) == NativeTypeToGDAL<T>(), "type", "peekLayoutType");
  PBT_CHECK(peekLayoutTileSize(lf) == m.tw * m.th, "tile-size", "peekLayoutTileSize gives ", peekLayoutTileSize(lf));
  A2Array2D<T> a(lf, cache);
  a.flipH = fh, a.flipV = fv;
  auto z0 = m;
  T nd0 = nd;
  switch (s.draw(3)) {
    case 0:
      s.label("read-only");
      history(s, m, a, nd, false, true, dir.d, true, gt, fh, fv, cache);
      break;
    case 1: {
      s.label("from a template");
      if (s.coin()) (void)a(0, 0);
      using U = uint8_t;
      Mosaic<U> mu;
      mu.tw = m.tw, mu.th = m.th, mu.W = m.W, mu.H = m.H, mu.gap = m.gap;
      mu.z = Grid<U>(m.z.w, m.z.h, U(0));
      A2Array2D<U> b(dir.d + "tmp-%f.native", a, cache);
      U nb = U(s.range(200, 255));
      b.setNoData(nb);
      history(s, mu, b, nb, true, true, dir.d, true, gt, fh, fv, cache);
      compare(z0, a, nd0, {}, "the template");
      break;
    }
    default: {
      s.label("from a prefix");
      Mosaic<T> mp = m;
      std::fill(mp.gap.begin(), mp.gap.end(), 0);
      for (auto &c : mp.z.v) c = T();
      A2Array2D<T> b(dir.d + "pre", m.tw, m.th, m.W, m.H, cache);
      b.setNoData(nd);
      history(s, mp, b, nd, true, false, dir.d, false, gt, fh, fv, cache);
    }
  }
}
void uneven(pbt::Source &s) {
  Dir dir(s);
  int n = s.range(2, 5), bad = s.draw(n), w = s.range(2, 6), h = s.range(2, 6);
  std::string layout;
  for (int i = 0; i < n; i++) {
    bool horz = s.coin();
    Array2D<float> t(w - (i == bad && horz), h - (i == bad && !horz), 1);
    t.saveGDAL(dir.d + pbt::str("u", i, ".tif"));
    layout += pbt::str("u", i, ".tif") + (i + 1 < n ? "," : "\n");
  }
  std::ofstream(dir.d + "u.layout") << layout;
  s.nontrivial();
  bool threw = false;
  try {
    A2Array2D<float> a(dir.d + "u.layout", 2);
  } catch (const std::exception &) { threw = true; }
  PBT_CHECK(threw, "uneven", "tiles of different sizes were accepted");
}
}  // namespace
static pbt::InitRegistrar init_([] { CPLPushErrorHandler(CPLQuietErrorHandler); });
PBT_PROP("layout_text", 8000, 80000, text);
PBT_PROP("layout_ragged", 2000, 20000, ragged);
PBT_PROP("layout_writer", 6000, 60000, writer);
PBT_PROP("tiles_float", 1200, 12000, tiles<float>);
PBT_PROP("tiles_int32", 1200, 12000, tiles<int32_t>);
PBT_PROP("tiles_uint8", 1200, 12000, tiles<uint8_t>);
PBT_PROP("tiles_double", 600, 6000, tiles<double>);
PBT_PROP("tiles_uneven", 200, 2000, uneven);
