// Reference for flats (Barnes et al. 2014): which cells are flat, which flats can drain, and the mask of
// increments inside them. Written from the paper, by repeated relabelling and rounds, sharing no code with richdem.
#pragma once
#include "gen.hpp"
#include <map>
#include <set>
#include <vector>

namespace gen {

struct RefFlats {
  std::vector<int8_t> flat;        // -1, 0, 1
  std::vector<int> comp;           // component of equal elevation containing an outlet cell; 0 none
  std::vector<int32_t> mask;
  int deep = 0;                    // flat cells of drainable flats
  int undrainable = 0;
};

template <class U>
RefFlats flats_reference(const Grid<U> &z) {
  RefFlats r;
  const int N = z.size();
  r.flat.assign(N, 0);
  r.comp.assign(N, 0);
  r.mask.assign(N, 0);
  for (int i = 0; i < N; i++) {
    int x = i % z.w, y = i / z.w;
    if (z.isnd(x, y)) {
      r.flat[i] = -1;
      continue;
    }
    if (z.edge(x, y)) continue;
    bool f = true;
    for (int n = 1; n <= 8; n++) {
      int a = x + DX8[n], b = y + DY8[n];
      if (z.isnd(a, b) || z(a, b) < z(x, y)) f = false;
    }
    r.flat[i] = f;
  }
  // components of equal elevation (over data cells), by repeated relabelling
  std::vector<int> c(N);
  for (int i = 0; i < N; i++) c[i] = i + 1;
  for (bool ch = true; ch;) {
    ch = false;
    for (int k = 0; k < 2 * N; k++) {
      int i = k < N ? k : 2 * N - 1 - k;
      if (r.flat[i] < 0) continue;
      for (int n = 1; n <= 8; n++) {
        int x = i % z.w + DX8[n], y = i / z.w + DY8[n];
        if (!z.in(x, y) || z.isnd(x, y) || z(x, y) != z.v[i]) continue;
        int j = y * z.w + x;
        if (c[j] < c[i]) c[i] = c[j], ch = true;
      }
    }
  }
  auto each = [&](int i, auto f) {
    for (int n = 1; n <= 8; n++) {
      int x = i % z.w + DX8[n], y = i / z.w + DY8[n];
      if (z.in(x, y)) f(y * z.w + x);
    }
  };
  std::vector<char> low(N, 0), high(N, 0);
  std::set<int> drained;
  for (int i = 0; i < N; i++) {
    if (r.flat[i] == 0) {
      each(i, [&](int j) { if (r.flat[j] == 1 && z.v[j] == z.v[i]) low[i] = 1; });
      if (low[i]) drained.insert(c[i]);
    } else if (r.flat[i] == 1) {
      each(i, [&](int j) { if (r.flat[j] >= 0 && z.v[j] > z.v[i]) high[i] = 1; });
    }
  }
  for (int i = 0; i < N; i++)
    if (r.flat[i] >= 0 && drained.count(c[i])) r.comp[i] = c[i];
  // distances by rounds (1 at the seeds), within the component, over flat cells
  auto dist = [&](const std::vector<char> &seed, bool seeds_flat) {
    std::vector<int> d(N, 0);
    for (int i = 0; i < N; i++)
      if (seed[i] && r.comp[i]) d[i] = 1;
    for (int round = 1;; round++) {
      bool any = false;
      for (int i = 0; i < N; i++)
        if (d[i] == round)
          each(i, [&](int j) { if (r.flat[j] == 1 && r.comp[j] == r.comp[i] && r.comp[j] && !d[j]) d[j] = round + 1, any = true; });
      if (!any) break;
    }
    return d;
  };
  auto away = dist(high, true), towards = dist(low, false);
  std::map<int, int> height;
  for (int i = 0; i < N; i++) height[r.comp[i]] = std::max(height[r.comp[i]], away[i]);
  for (int i = 0; i < N; i++) {
    if (!towards[i]) continue;
    r.mask[i] = 2 * towards[i] + (away[i] ? height[r.comp[i]] - away[i] : 0);
    if (r.flat[i] == 1) r.deep++;
  }
  for (int i = 0; i < N; i++)
    if (r.flat[i] == 1 && !r.comp[i]) r.undrainable++;
  return r;
}

}  // namespace gen
