// P19: the parallel priority-flood fills a tiled DEM as the serial algorithm fills the whole, under every message schedule
#define main pf_main
#include "programs/parallel_priority_flood/main.cpp"
#undef main
#include "mosaic.hpp"
#include "ref_fill.hpp"
using namespace gen;
using namespace richdem;
namespace {
static pbt::RuleRegistrar rr(
    "cases: DEMs of every style cut into up to 5x5 tiles of 1x1 cells and more in any orientation, with gaps, run with 2 to 5 ranks under every retention policy and a drawn message schedule, "
    "and single files cut by the program; non-trivial: at least two tiles along both axes and a cell that has to be raised",
    {"NoData regions reach the mosaic's edge; elevations are not NaN"});
std::string fill_name(std::string f, const mosaic::Tiling &t, int tx, int ty, bool many) {
  auto p = f.find("%f");
  if (p != std::string::npos) return f.replace(p, 2, t.name(tx, ty));
  p = f.find("%n");
  return f.replace(p, 2, pbt::str(tx, "_", ty));
}
template <class T>
Grid<T> expected(const mosaic::Tiling &t, const Grid<T> &z) {
  // a gap is the ocean: lower than everything
  Grid<double> g(z.w, z.h);
  g.nd = -1e300;
  for (int y = 0; y < z.h; y++)
    for (int x = 0; x < z.w; x++) g(x, y) = t.at(x, y) ? double(z(x, y)) : g.nd;
  auto f = ref::fill(g, true);
  Grid<T> r = z;
  for (int y = 0; y < z.h; y++)
    for (int x = 0; x < z.w; x++)
      if (t.at(x, y)) r(x, y) = T(f(x, y));
  return r;
}
template <class T>
void many(pbt::Source &s) {
  DemOpts o;
  o.max_dim = 30;
  auto z0 = dem<T>(s, o);
  auto t = mosaic::draw_tiling(s, z0.w, z0.h, 1, 5, true);
  auto z = mosaic::crop(z0, t.W * t.tw, t.H * t.th);
  // NoData is the lowest value; inside the mosaic it is filled like anything else
  mosaic::Dir d("pf");
  auto layout = mosaic::write(t, z, d.d);
  int ranks = s.range(2, 5);
  std::string out = d.d + (s.coin() ? "out-%f.tif" : "out-%n.tif");
  std::string ret = s.coin(1, 3) ? "@evict" : s.coin() ? "@retain" : d.d + (s.coin() ? "ret-%f-" : "ret-%n-");
  std::vector<std::string> args{"parallel_pf"};
  if (t.fh) args.push_back(s.coin() ? "--flipH" : "-H");
  if (t.fv) args.push_back(s.coin() ? "-V" : "--flipV");
  for (auto &a : {std::string("many"), ret, layout, out}) args.push_back(a);
  s.note(pbt::str(t.W, "x", t.H, " tiles of ", t.tw, "x", t.th, ", ", t.west ? "east-west" : "west-east", ", ", t.south ? "south-up" : "north-up", ", flipH=", t.fh, " flipV=", t.fv, ", ", ranks, " ranks, retention ", ret));
  for (int ty = 0; ty < t.H; ty++)
    for (int tx = 0; tx < t.W; tx++)
      if (!t.real(tx, ty)) s.note(pbt::str("gap at ", tx, ",", ty));
  s.note(show(z));
  auto oc = mosaic::run(s, ranks, args, pf_main);
  mosaic::check_outcome(oc, ranks);
  auto e = expected(t, z);
  bool raised = false;
  for (int ty = 0; ty < t.H; ty++)
    for (int tx = 0; tx < t.W; tx++) {
      auto f = fill_name(out, t, tx, ty, true);
      if (!t.real(tx, ty)) {
        PBT_CHECK(!mosaic::fs::exists(f), "gap", "there is an output '", f, "' for a gap");
        continue;
      }
      PBT_CHECK(mosaic::fs::exists(f), "output", "no output for tile ", tx, ",", ty);
      Array2D<T> a(f);
      PBT_CHECK(a.width() == t.tw && a.height() == t.th, "size", a.width(), "x", a.height());
      PBT_CHECK(a.noData() == z.nd, "nodata", +a.noData());
      PBT_CHECK(a.geotransform == mosaic::tile_gt(t, tx, ty), "geotransform", "the geotransform of tile ", tx, ",", ty, " changed");
      for (int y = ty * t.th; y < (ty + 1) * t.th; y++)
        for (int x = tx * t.tw; x < (tx + 1) * t.tw; x++) {
          T v = a(t.fx(x), t.fy(y));
          PBT_CHECK(v == e(x, y), "fill", "cell ", x, ",", y, " (tile ", tx, ",", ty, ") is ", +v, " instead of ", +e(x, y), "; it was ", +z(x, y));
          raised |= v != z(x, y);
        }
    }
  if (t.W > 1 && t.H > 1 && raised) s.nontrivial();
  if (raised) s.label("raised");
  if (t.gaps()) s.label("gaps");
  s.label(ret[0] == '@' ? ret : "on disk");
  // the output's layout lists the outputs at the same places
  auto lay = out;
  auto p = lay.find("%f");
  if (p == std::string::npos) p = lay.find("%n");
  lay.replace(p, 2, "layout");
  lay.replace(lay.rfind("."), std::string::npos, ".layout");
  richdem::LayoutfileReader lf(lay);
  while (lf.next()) {
    bool r = t.real(lf.getX(), lf.getY());
    PBT_CHECK(lf.isNullTile() == !r, "layout", "the output's layout has ", r ? "a gap" : "a file", " at ", lf.getX(), ",", lf.getY());
    if (r) PBT_CHECK(lf.getFullPath() == fill_name(out, t, lf.getX(), lf.getY(), true), "layout", "'", lf.getFullPath(), "'");
  }
}
// a single file, cut by the program
void one(pbt::Source &s) {
  const bool two = s.coin();
  int w = two ? s.range(400, 430) : s.range(100, 140), h = s.range(100, 130);
  if (s.coin()) std::swap(w, h);
  Grid<float> z(w, h);
  z.nd = -9999;
  uint64_t r = s.draw(1u << 30) * 2654435761u + 12345;
  auto rnd = [&](unsigned n) { return (r = r * 6364136223846793005ull + 1442695040888963407ull, unsigned((r >> 33) % n)); };
  int style = s.draw(3), k = s.range(2, 60);
  for (int y = 0; y < h; y++)
    for (int x = 0; x < w; x++) z(x, y) = style == 0 ? rnd(k) : style == 1 ? (x + y) / 4 + rnd(k) : 20 + 10 * std::sin(x / 9.) * std::cos(y / 11.) + rnd(3);
  mosaic::Dir d("pf1");
  auto a = to_array(z);
  a.geotransform = {5, 2, 0, 7, 0, -3};
  a.saveGDAL(d.d + "in.tif");
  int ranks = s.range(2, 4);
  std::string ret = s.coin(1, 3) ? "@evict" : s.coin() ? "@retain" : d.d + "ret-%n-";
  std::vector<std::string> args{"parallel_pf"};
  int bw = w, bh = h;
  auto block = [&](const char *l, const char *sh, int n, int &b) {
    if (n >= 400) b = s.range(300, n - 100);
    else if (s.coin()) return;
    args.push_back(s.coin() ? l : sh);
    args.push_back(n >= 400 ? std::to_string(b) : "-1");
  };
  block("--bwidth", "-w", w, bw);
  block("--bheight", "-h", h, bh);
  for (auto &x : {std::string("one"), ret, d.d + "in.tif", d.d + "o-%n.tif"}) args.push_back(x);
  s.note(pbt::str(w, "x", h, " in blocks of ", bw, "x", bh, ", ", ranks, " ranks, retention ", ret));
  auto oc = mosaic::run(s, ranks, args, pf_main);
  mosaic::check_outcome(oc, ranks);
  auto e = ref::fill(z, true);
  if (two) s.nontrivial();
  for (int gy = 0; gy * bh < h; gy++)
    for (int gx = 0; gx * bw < w; gx++) {
      Array2D<float> b(d.d + pbt::str("o-", gx, "_", gy, ".tif"));
      PBT_CHECK(b.width() == std::min(bw, w - gx * bw) && b.height() == std::min(bh, h - gy * bh), "size", b.width(), "x", b.height());
      PBT_CHECK(b.geotransform == (std::vector<double>{5. + 2 * gx * bw, 2, 0, 7. - 3 * gy * bh, 0, -3}), "geotransform", "block ", gx, ",", gy);
      for (int y = 0; y < b.height(); y++)
        for (int x = 0; x < b.width(); x++) PBT_CHECK(b(x, y) == e(gx * bw + x, gy * bh + y), "fill", "cell ", gx * bw + x, ",", gy * bh + y, " is ", b(x, y), " instead of ", e(gx * bw + x, gy * bh + y));
    }
}
// wrong arguments end every rank with an error
void wrong(pbt::Source &s) {
  mosaic::Dir d("pfw");
  std::vector<std::vector<std::string>> bad = {
      {},
      {"many"},
      {"many", "@evict", "in", "out.tif"},
      {"many", "@evict", "in", "out%f%n.tif"},
      {"some", "@evict", "in", "out%n.tif"},
      {"many", "@what", "in", "out%n.tif"},
      {"many", "ret", "in", "out%n.tif"},
      {"many", "x%n", "in", "x%n"},
      {"one", "@evict", "in", "out%n", "more"},
      {"-w", "12", "one", "@evict", "in", "out%n"},
      {"-h", "two", "one", "@evict", "in", "out%n"},
      {"one", "@evict", "in", "out%n", "-w"},
      {"--what", "one", "@evict", "in", "out%n"},
      {"--help"}};
  auto args = bad[s.draw(bad.size())];
  for (auto &a : args)
    if (a == "in" || a.find("out") == 0 || a.find("ret") == 0 || a.find("x%") == 0) a = d.d + a;
  args.insert(args.begin(), "parallel_pf");
  int ranks = args.size() > 4 && s.coin(1, 4) ? 1 : s.range(2, 4);
  for (auto &a : args) s.note(a);
  s.nontrivial();
  auto oc = mosaic::run(s, ranks, args, pf_main);
  for (int r = 0; r < ranks; r++) PBT_CHECK(oc.error[r].empty(), "crash", "rank ", r, " ended with an ", oc.error[r]);
  PBT_CHECK(!oc.deadlock, "deadlock", "every rank waits for another");
  PBT_CHECK(oc.ret[0] != 0, "accepted", "wrong arguments were accepted");
}
}  // namespace
static pbt::InitRegistrar init_([] { CPLPushErrorHandler(CPLQuietErrorHandler); });
PBT_PROP("many_float", 1000, 10000, many<float>);
PBT_PROP("many_int32", 600, 6000, many<int32_t>);
PBT_PROP("many_uint8", 600, 6000, many<uint8_t>);
PBT_PROP("many_int16", 300, 3000, many<int16_t>);
PBT_PROP("many_uint16", 300, 3000, many<uint16_t>);
PBT_PROP("many_uint32", 300, 3000, many<uint32_t>);
PBT_PROP("many_double", 400, 4000, many<double>);
PBT_PROP("one", 24, 400, one);
PBT_PROP("arguments", 200, 1000, wrong);
