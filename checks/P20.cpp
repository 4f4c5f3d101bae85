// P20: the parallel D8 accumulation of a tiled flow-direction raster equals the accumulation of the whole, under every message schedule
#define main acc_main
#include "programs/parallel_d8_accum/main.cpp"
#undef main
#include "mosaic.hpp"
using namespace gen;
namespace {
static pbt::RuleRegistrar rr(
    "cases: flow directions without loops (down generated DEMs, towards random lower neighbours, along winding random trees) with NoData and cells without flow, cut into up to 6x6 tiles of 1x1 cells "
    "and more in any orientation, with gaps, run with 2 to 5 ranks under every retention policy and a drawn message schedule, and single files cut by the program; "
    "non-trivial: at least two tiles along both axes and a path that enters some tile twice",
    {"flow directions are without loops", "directions are given in the orientation of the layout"});

// directions without loops; nd marks NoData
Grid<int> directions(pbt::Source &s, int w, int h, int nd, std::string &how) {
  Grid<int> d(w, h);
  d.nd = nd;
  for (auto &v : d.v) v = 0;
  const int N = w * h;
  std::vector<char> gone(N, 0);
  if (s.coin()) {
    int p = s.range(1, 10);
    for (auto &g : gone) g = s.coin(p, 40);
  }
  int kind = s.draw(3);
  how = kind == 0 ? "any lower neighbour" : kind == 1 ? "winding trees" : "mostly one way";
  if (kind == 0 || kind == 2) {
    // a random height for every cell; each flows to some neighbour that is lower, off the raster, or NoData
    std::vector<uint64_t> z(N);
    int gx = s.range(-2, 2), gy = s.range(-2, 2);
    int noise = kind == 2 ? 1 + s.draw(3) : 1000;
    for (int i = 0; i < N; i++) z[i] = (uint64_t(1000 + gx * (i % w) + gy * (i / w)) * 3 + s.draw(noise)) * N + i;
    for (int i = 0; i < N; i++) {
      std::vector<int> can;
      for (int n = 1; n <= 8; n++) {
        int x = i % w + DX8[n], y = i / w + DY8[n];
        if (!d.in(x, y) || gone[y * w + x] || z[y * w + x] < z[i]) can.push_back(n);
      }
      if (can.empty() || s.coin(1, 40)) continue;
      d.v[i] = can[s.draw(can.size())];
    }
  } else {
    // trees grown backwards from some roots, by depth (long winding paths) or at random
    std::vector<char> seen = gone;
    int deep = s.range(0, 4), roots = s.range(1, 4);
    for (int left = N, r = 0; left > 0; r++) {
      int root = -1;
      if (r < roots) root = s.draw(N);
      else
        for (int i = 0; i < N && root < 0; i++)
          if (!seen[i]) root = i;
      if (root < 0) break;
      if (seen[root]) continue;
      seen[root] = 1;
      if (s.coin()) {
        std::vector<int> out;
        for (int n = 1; n <= 8; n++)
          if (!d.in(root % w + DX8[n], root / w + DY8[n]) || gone[(root / w + DY8[n]) * w + root % w + DX8[n]]) out.push_back(n);
        if (out.size()) d.v[root] = out[s.draw(out.size())];
      }
      std::vector<int> open{root};
      while (!open.empty()) {
        size_t k = s.coin(deep, 4) ? open.size() - 1 : s.draw(open.size());
        int c = open[k];
        std::vector<int> can;
        for (int n = 1; n <= 8; n++) {
          int x = c % w + DX8[n], y = c / w + DY8[n];
          if (d.in(x, y) && !seen[y * w + x]) can.push_back(n);
        }
        if (can.empty()) {
          open.erase(open.begin() + k);
          continue;
        }
        int n = can[s.draw(can.size())];
        int i = (c / w + DY8[n]) * w + c % w + DX8[n];
        seen[i] = 1;
        d.v[i] = n <= 4 ? n + 4 : n - 4;  // back to where it was reached from
        open.push_back(i);
      }
    }
  }
  for (int i = 0; i < N; i++)
    if (gone[i]) d.v[i] = nd;
  return d;
}
// by rounds: cells per path, counted from each cell separately
template <class At>
Grid<double> reference(const Grid<int> &d, At at) {
  Grid<double> a(d.w, d.h);
  for (auto &v : a.v) v = 0;
  for (int y = 0; y < d.h; y++)
    for (int x = 0; x < d.w; x++) {
      int cx = x, cy = y;
      while (d.in(cx, cy) && at(cx, cy) && d(cx, cy) != d.nd) {
        a(cx, cy)++;
        int n = d(cx, cy);
        if (n == 0) break;
        cx += DX8[n], cy += DY8[n];
      }
    }
  for (int i = 0; i < (int)d.size(); i++)
    if (d.v[i] == d.nd) a.v[i] = -1;
  return a;
}
bool reenters(const Grid<int> &d, const mosaic::Tiling &t) {
  for (int y = 0; y < d.h; y++)
    for (int x = 0; x < d.w; x++) {
      std::vector<int> tiles;
      int cx = x, cy = y;
      while (d.in(cx, cy) && t.at(cx, cy) && d(cx, cy) != d.nd) {
        int k = cy / t.th * t.W + cx / t.tw;
        if (tiles.empty() || tiles.back() != k) {
          for (int o : tiles)
            if (o == k) return true;
          tiles.push_back(k);
        }
        int n = d(cx, cy);
        if (n == 0) break;
        cx += DX8[n], cy += DY8[n];
      }
    }
  return false;
}
std::string fill_name(std::string f, const mosaic::Tiling &t, int tx, int ty) {
  auto p = f.find("%f");
  if (p != std::string::npos) return f.replace(p, 2, t.name(tx, ty));
  p = f.find("%n");
  return f.replace(p, 2, pbt::str(tx, "_", ty));
}
template <class T>
void many(pbt::Source &s) {
  int w = s.range(1, 24), h = s.range(1, 24);
  auto t = mosaic::draw_tiling(s, w, h, 1, 6, true);
  int nd = s.pick(std::vector<int>{255, 9, 127});
  std::string how;
  auto d = directions(s, t.W * t.tw, t.H * t.th, nd, how);
  Grid<T> z(d.w, d.h);
  z.nd = nd;
  for (int i = 0; i < (int)d.size(); i++) z.v[i] = d.v[i];
  mosaic::Dir dir("acc");
  auto layout = mosaic::write(t, z, dir.d);
  int ranks = s.range(2, 5);
  std::string out = dir.d + (s.coin() ? "out-%f.tif" : "out-%n.tif");
  std::string ret = s.coin(1, 3) ? "@evict" : s.coin() ? "@retain" : dir.d + (s.coin() ? "ret-%f-" : "ret-%n-");
  std::vector<std::string> args{"parallel_d8_accum"};
  if (t.fh) args.push_back(s.coin() ? "--flipH" : "-H");
  if (t.fv) args.push_back(s.coin() ? "-V" : "--flipV");
  for (auto &a : {std::string("many"), ret, layout, out}) args.push_back(a);
  s.note(pbt::str(t.W, "x", t.H, " tiles of ", t.tw, "x", t.th, ", ", t.west ? "east-west" : "west-east", ", ", t.south ? "south-up" : "north-up", ", flipH=", t.fh, " flipV=", t.fv, ", ", ranks, " ranks, retention ", ret, ", ", how));
  for (int ty = 0; ty < t.H; ty++)
    for (int tx = 0; tx < t.W; tx++)
      if (!t.real(tx, ty)) s.note(pbt::str("gap at ", tx, ",", ty));
  s.note(show(d));
  auto oc = mosaic::run(s, ranks, args, acc_main);
  mosaic::check_outcome(oc, ranks);
  auto e = reference(d, [&](int x, int y) { return t.at(x, y); });
  if (t.W > 1 && t.H > 1 && reenters(d, t)) s.nontrivial();
  if (t.gaps()) s.label("gaps");
  if (t.tw == 1 || t.th == 1) s.label("tiles of one row or column");
  s.label(ret[0] == '@' ? ret : "on disk");
  s.label(how);
  for (int ty = 0; ty < t.H; ty++)
    for (int tx = 0; tx < t.W; tx++) {
      auto f = fill_name(out, t, tx, ty);
      if (!t.real(tx, ty)) {
        PBT_CHECK(!mosaic::fs::exists(f), "gap", "there is an output '", f, "' for a gap");
        continue;
      }
      PBT_CHECK(mosaic::fs::exists(f), "output", "no output for tile ", tx, ",", ty);
      Array2D<double> a(f);
      PBT_CHECK(a.width() == t.tw && a.height() == t.th, "size", a.width(), "x", a.height());
      PBT_CHECK(a.noData() == -1, "nodata", +a.noData());
      PBT_CHECK(a.geotransform == mosaic::tile_gt(t, tx, ty), "geotransform", "the geotransform of tile ", tx, ",", ty, " changed");
      for (int y = ty * t.th; y < (ty + 1) * t.th; y++)
        for (int x = tx * t.tw; x < (tx + 1) * t.tw; x++) {
          double v = a(t.fx(x), t.fy(y));
          PBT_CHECK(v == e(x, y), "accumulation", "cell ", x, ",", y, " (tile ", tx, ",", ty, ") is ", v, " instead of ", e(x, y));
        }
    }
  auto lay = out;
  auto p = lay.find("%f");
  if (p == std::string::npos) p = lay.find("%n");
  lay.replace(p, 2, "layout");
  lay.replace(lay.rfind("."), std::string::npos, ".layout");
  richdem::LayoutfileReader lf(lay);
  while (lf.next()) {
    bool r = t.real(lf.getX(), lf.getY());
    PBT_CHECK(lf.isNullTile() == !r, "layout", "the output's layout has ", r ? "a gap" : "a file", " at ", lf.getX(), ",", lf.getY());
    if (r) PBT_CHECK(lf.getFullPath() == fill_name(out, t, lf.getX(), lf.getY()), "layout", "'", lf.getFullPath(), "'");
  }
}
// a single file, cut by the program into blocks of any size
void one(pbt::Source &s) {
  int w = s.range(1, 40), h = s.range(1, 40);
  std::string how;
  auto d = directions(s, w, h, 255, how);
  mosaic::Dir dir("acc1");
  Array2D<uint8_t> a(w, h);
  a.setNoData(255);
  for (int i = 0; i < w * h; i++) a(i) = d.v[i];
  a.geotransform = {5, 2, 0, 7, 0, -3};
  a.saveGDAL(dir.d + "in.tif");
  int ranks = s.range(2, 4);
  std::string ret = s.coin(1, 3) ? "@evict" : s.coin() ? "@retain" : dir.d + "ret-%n-";
  std::vector<std::string> args{"parallel_d8_accum"};
  int bw = w, bh = h;
  auto block = [&](const char *l, const char *sh, int n, int &b) {
    if (s.coin(1, 4)) return;
    args.push_back(s.coin() ? l : sh);
    if (s.coin(1, 6)) {
      args.push_back("-1");
      return;
    }
    b = s.range(std::max(1, n / 5), n + 2);
    args.push_back(std::to_string(b));
  };
  block("--bwidth", "-w", w, bw);
  block("--bheight", "-h", h, bh);
  for (auto &x : {std::string("one"), ret, dir.d + "in.tif", dir.d + "o-%n.tif"}) args.push_back(x);
  s.note(pbt::str(w, "x", h, " in blocks of ", bw, "x", bh, ", ", ranks, " ranks, retention ", ret, ", ", how));
  s.note(show(d));
  auto oc = mosaic::run(s, ranks, args, acc_main);
  mosaic::check_outcome(oc, ranks);
  mosaic::Tiling t;
  t.tw = bw, t.th = bh, t.W = (w + bw - 1) / bw, t.H = (h + bh - 1) / bh;
  t.gap.assign(t.W * t.H, 0);
  if (t.W > 1 && t.H > 1 && reenters(d, t)) s.nontrivial();
  if (w % bw == 1 || h % bh == 1) s.label("a last block of one row or column");
  auto e = reference(d, [](int, int) { return true; });
  richdem::LayoutfileReader lf(dir.d + "o-layout.layout");
  int seen = 0;
  while (lf.next()) {
    seen++;
    int gx = lf.getX(), gy = lf.getY();
    Array2D<double> b(lf.getFullPath());
    PBT_CHECK(lf.getFullPath() == dir.d + pbt::str("o-", gx, "_", gy, ".tif"), "layout", lf.getFullPath());
    PBT_CHECK(b.width() == std::min(bw, w - gx * bw) && b.height() == std::min(bh, h - gy * bh), "size", b.width(), "x", b.height());
    PBT_CHECK(b.geotransform == (std::vector<double>{5. + 2 * gx * bw, 2, 0, 7. - 3 * gy * bh, 0, -3}), "geotransform", "block ", gx, ",", gy);
    for (int y = 0; y < b.height(); y++)
      for (int x = 0; x < b.width(); x++) PBT_CHECK(b(x, y) == e(gx * bw + x, gy * bh + y), "accumulation", "cell ", gx * bw + x, ",", gy * bh + y, " is ", b(x, y), " instead of ", e(gx * bw + x, gy * bh + y));
  }
  PBT_CHECK(seen == t.W * t.H, "layout", seen, " blocks in the layout");
}
// the perimeter as an array: every perimeter cell once, at the place its coordinates say
void perimeter(pbt::Source &s) {
  int w = s.range(1, 12), h = s.range(1, 12);
  Array2D<int> g(w, h);
  for (int i = 0; i < w * h; i++) g(i) = i;
  std::vector<int> v;
  GridPerimToArray(g, v);
  s.note(pbt::str(w, "x", h));
  if (w > 1 && h > 1) s.nontrivial();
  for (int y = 0; y < h; y++)
    for (int x = 0; x < w; x++) {
      if (x > 0 && y > 0 && x < w - 1 && y < h - 1) continue;
      int k = xyToSerial(x, y, w, h);
      PBT_CHECK(k >= 0 && k < (int)v.size(), "serial", "cell ", x, ",", y, " is at ", k, " of ", v.size());
      PBT_CHECK(v[k] == y * w + x, "perimeter", "cell ", x, ",", y, " is at ", k, " which holds cell ", v[k] % w, ",", v[k] / w);
      int bx = -1, by = -1;
      serialToXY(k, bx, by, w, h);
      PBT_CHECK(bx == x && by == y, "round-trip", x, ",", y, " came back as ", bx, ",", by);
    }
}
void wrong(pbt::Source &s) {
  mosaic::Dir d("accw");
  std::vector<std::vector<std::string>> bad = {
      {},
      {"many"},
      {"many", "@evict", "in", "out.tif"},
      {"many", "@evict", "in", "out%f%n.tif"},
      {"some", "@evict", "in", "out%n.tif"},
      {"many", "@what", "in", "out%n.tif"},
      {"many", "ret", "in", "out%n.tif"},
      {"many", "x%n", "in", "x%n"},
      {"one", "@evict", "in", "out%n", "more"},
      {"-h", "two", "one", "@evict", "in", "out%n"},
      {"one", "@evict", "in", "out%n", "-w"},
      {"--what", "one", "@evict", "in", "out%n"},
      {"--help"}};
  auto args = bad[s.draw(bad.size())];
  for (auto &a : args)
    if (a == "in" || a.find("out") == 0 || a.find("ret") == 0 || a.find("x%") == 0) a = d.d + a;
  args.insert(args.begin(), "parallel_d8_accum");
  int ranks = args.size() > 4 && s.coin(1, 4) ? 1 : s.range(2, 4);
  for (auto &a : args) s.note(a);
  s.nontrivial();
  auto oc = mosaic::run(s, ranks, args, acc_main);
  for (int r = 0; r < ranks; r++) PBT_CHECK(oc.error[r].empty(), "crash", "rank ", r, " ended with an ", oc.error[r]);
  PBT_CHECK(!oc.deadlock, "deadlock", "every rank waits for another");
  PBT_CHECK(oc.ret[0] != 0, "accepted", "wrong arguments were accepted");
}
}  // namespace
static pbt::InitRegistrar init_([] { CPLPushErrorHandler(CPLQuietErrorHandler); });
PBT_PROP("many_uint8", 1600, 16000, many<uint8_t>);
PBT_PROP("many_int16", 300, 3000, many<int16_t>);
PBT_PROP("many_float", 300, 3000, many<float>);
PBT_PROP("one", 700, 7000, one);
PBT_PROP("perimeter", 300, 1000, perimeter);
PBT_PROP("arguments", 200, 1000, wrong);
