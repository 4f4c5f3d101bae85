#pragma once
#include "gen.hpp"
namespace ref {
using gen::Grid;
// The least surface >= z from which every cell has a non-ascending path to an outlet. Outlets: cells on the raster's
// border, and cells next to NoData (NoData is lower than any data). Bellman-style sweeps to the fixed point; W(c) =
// max(z(c), min over neighbours W).
template <class T>
Grid<T> fill(const Grid<T> &z, bool d8) {
  const auto nb = gen::nbr(d8);
  Grid<T> W = z;
  std::vector<char> inf(z.size(), 0);
  auto id = [&](int x, int y) { return size_t(y) * z.w + x; };
  for (int y = 0; y < z.h; y++)
    for (int x = 0; x < z.w; x++) {
      if (z.isnd(x, y) || z.edge(x, y)) continue;
      inf[id(x, y)] = 1;
    }
  bool ch = true;
  auto relax = [&](int x, int y) {
    if (z.isnd(x, y)) return;
    if (!inf[id(x, y)] && W(x, y) == z(x, y)) return;
    for (int n = 1; n <= nb.n; n++) {
      int nx = x + nb.dx[n], ny = y + nb.dy[n];
      if (!z.in(nx, ny) || inf[id(nx, ny)]) continue;
      T cand = z.isnd(nx, ny) ? z(x, y) : std::max<T>(z(x, y), W(nx, ny));
      if (inf[id(x, y)] || cand < W(x, y)) {
        W(x, y) = cand;
        inf[id(x, y)] = 0;
        ch = true;
      }
    }
  };
  while (ch) {
    ch = false;
    for (int y = 0; y < z.h; y++)
      for (int x = 0; x < z.w; x++) relax(x, y);
    for (int y = z.h - 1; y >= 0; y--)
      for (int x = z.w - 1; x >= 0; x--) relax(x, y);
  }
  return W;
}
// Does every data cell reach an outlet (raster border or NoData neighbour) along non-ascending steps?
}  // namespace ref
