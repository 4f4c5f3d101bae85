// Generated tiled datasets: tiles on disk with a layout file, in any orientation, with gaps; and runs of the parallel
// programs on them under generated message schedules
#pragma once
#include <filesystem>
#include <fstream>
#include <iostream>
#include "gen.hpp"
#include "mpi.h"

namespace mosaic {
using gen::Grid;
namespace fs = std::filesystem;
struct Dir {
  std::string d;
  explicit Dir(const std::string &name) : d(pbt::worker_dir() + "/" + name + "/") {
    std::error_code e;
    fs::remove_all(d, e);
    fs::create_directories(d);
  }
  ~Dir() {
    std::error_code e;
    fs::remove_all(d, e);
  }
};
struct Tiling {
  int tw, th, W, H;
  std::vector<char> gap;
  bool west = false, south = false;  // the tiles' rows run from east to west, from south to north
  bool fh = false, fv = false;       // the user asks for a flip
  double gt[6] = {100, 1, 0, 200, 0, -1};
  bool real(int tx, int ty) const { return !gap[ty * W + tx]; }
  bool at(int x, int y) const { return real(x / tw, y / th); }
  int gaps() const {
    int n = 0;
    for (auto g : gap) n += g;
    return n;
  }
  std::string name(int tx, int ty) const { return pbt::str("t", tx, "-", ty); }
  // where a cell of the mosaic is in its tile's file
  int fx(int x) const { return west != fh ? tw - 1 - x % tw : x % tw; }
  int fy(int y) const { return south != fv ? th - 1 - y % th : y % th; }
};
// a tiling that fits a raster of w x h, which has to be cropped to W*tw x H*th
inline Tiling draw_tiling(pbt::Source &s, int w, int h, int min_side, int max_tiles, bool gaps) {
  Tiling t;
  auto side = [&](int n, int &tiles) {
    tiles = s.range(1, std::min(max_tiles, std::max(1, n / min_side)));
    return n / tiles;
  };
  t.tw = side(w, t.W);
  t.th = side(h, t.H);
  t.gap.assign(t.W * t.H, 0);
  int p = gaps && s.coin() ? s.range(1, 2) : 0;
  for (auto &g : t.gap) g = s.coin(p, 4);
  t.gap[s.draw(t.gap.size())] = 0;
  // a last column that is all gaps would be left out of a layout file
  bool last = false;
  for (int y = 0; y < t.H; y++) last |= t.real(t.W - 1, y);
  if (!last) t.gap[s.draw(t.H) * t.W + t.W - 1] = 0;
  t.west = s.coin(1, 4), t.south = s.coin(1, 4), t.fh = s.coin(1, 4), t.fv = s.coin(1, 4);
  t.gt[1] = (t.west ? -1 : 1) * double(s.range(1, 64)) / 8;
  t.gt[5] = (t.south ? 1 : -1) * double(s.range(1, 64)) / 8;
  return t;
}
template <class T>
Grid<T> crop(const Grid<T> &g, int w, int h) {
  Grid<T> r(w, h);
  r.nd = g.nd, r.has_nd = g.has_nd;
  for (int y = 0; y < h; y++)
    for (int x = 0; x < w; x++) r(x, y) = g(x, y);
  return r;
}
inline std::vector<double> tile_gt(const Tiling &t, int tx, int ty) {
  return {t.gt[0] + tx * t.tw * t.gt[1], t.gt[1], 0, t.gt[3] + ty * t.th * t.gt[5], 0, t.gt[5]};
}
// writes the tiles and the layout; returns the layout's name
template <class T>
std::string write(const Tiling &t, const Grid<T> &z, const std::string &dir) {
  std::string layout;
  for (int ty = 0; ty < t.H; ty++) {
    for (int tx = 0; tx < t.W; tx++) {
      if (tx) layout += ",";
      if (!t.real(tx, ty)) continue;
      layout += t.name(tx, ty) + ".tif";
      richdem::Array2D<T> a(t.tw, t.th);
      a.setNoData(z.nd);
      a.geotransform = tile_gt(t, tx, ty);
      for (int y = ty * t.th; y < (ty + 1) * t.th; y++)
        for (int x = tx * t.tw; x < (tx + 1) * t.tw; x++) a(t.fx(x), t.fy(y)) = z(x, y);
      a.saveGDAL(dir + t.name(tx, ty) + ".tif");
    }
    layout += "\n";
  }
  std::ofstream(dir + "in.layout") << layout;
  return dir + "in.layout";
}
struct Quiet {  // the programs report every step
  std::streambuf *a = std::cerr.rdbuf(nullptr), *b = std::cout.rdbuf(nullptr);
  ~Quiet() {
    std::cerr.rdbuf(a), std::cout.rdbuf(b);
    std::cerr.clear(), std::cout.clear();
  }
};
inline fakempi::Outcome run(pbt::Source &s, int ranks, const std::vector<std::string> &args, int (*main_)(int, char **)) {
  // a schedule that always takes the first choice, or one drawn choice by choice
  bool plain = s.coin(1, 4);
  auto choose = [&](unsigned n) -> unsigned { return plain ? 0 : s.draw(n); };
  std::vector<std::vector<std::string>> copies(ranks, args);
  std::vector<std::vector<char *>> argv(ranks);
  for (int r = 0; r < ranks; r++) {
    for (auto &a : copies[r]) argv[r].push_back(&a[0]);
    argv[r].push_back(nullptr);
  }
  Quiet q;
  return fakempi::run(ranks, choose, [&](int r) { return main_(args.size(), argv[r].data()); });
}
inline void check_outcome(const fakempi::Outcome &o, int ranks) {
  for (int r = 0; r < ranks; r++) PBT_CHECK(o.error[r].empty(), "crash", "rank ", r, " ended with an ", o.error[r]);
  PBT_CHECK(!o.aborted, "abort", "the program aborted with code ", o.abort_code);
  PBT_CHECK(!o.deadlock, "deadlock", "every rank waits for another");
  for (int r = 0; r < ranks; r++) PBT_CHECK(o.ret[r] == 0, "exit", "rank ", r, " returned ", o.ret[r]);
  PBT_CHECK(o.left == 0, "unreceived", o.left, " messages were never received");
}
}  // namespace mosaic
