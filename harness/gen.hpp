// Generators of rasters, and small independent reference helpers, shared by the checks.
#pragma once
#include <richdem/common/Array2D.hpp>
#include <cmath>
#include <deque>
#include <limits>
#include <queue>
#include <string>
#include <type_traits>
#include <vector>
#include "pbt.hpp"

namespace gen {
using pbt::Source;
using richdem::Array2D;

// A plain raster the references work on: no code of the library is involved.
template <class T>
struct Grid {
  int w = 0, h = 0;
  std::vector<T> v;
  bool has_nd = false;  // a NoData value is in use
  T nd{};
  Grid() = default;
  Grid(int w_, int h_, T x = T()) : w(w_), h(h_), v(size_t(w_) * h_, x) {}
  typename std::vector<T>::reference operator()(int x, int y) { return v[size_t(y) * w + x]; }
  typename std::vector<T>::const_reference operator()(int x, int y) const { return v[size_t(y) * w + x]; }
  bool in(int x, int y) const { return x >= 0 && y >= 0 && x < w && y < h; }
  bool edge(int x, int y) const { return x == 0 || y == 0 || x == w - 1 || y == h - 1; }
  bool isnd(int x, int y) const { return v[size_t(y) * w + x] == nd; }
  size_t size() const { return v.size(); }
};

// neighbours 1..8 as in "234/105/876"; written out here on purpose (the library's tables are under test)
constexpr int DX8[9] = {0, -1, -1, 0, 1, 1, 1, 0, -1};
constexpr int DY8[9] = {0, 0, -1, -1, -1, 0, 1, 1, 1};
constexpr int DX4[5] = {0, -1, 0, 1, 0};
constexpr int DY4[5] = {0, 0, -1, 0, 1};
struct Nbr {
  int n;
  const int *dx, *dy;
};
inline Nbr nbr(bool d8) { return d8 ? Nbr{8, DX8, DY8} : Nbr{4, DX4, DY4}; }

template <class T>
std::string show(const Grid<T> &g) {
  std::ostringstream o;
  o.precision(17);
  o << g.w << "x" << g.h << " nodata=" << +g.nd << "\n";
  for (int y = 0; y < g.h; y++) {
    for (int x = 0; x < g.w; x++) o << (x ? " " : "  ") << +g(x, y);
    o << "\n";
  }
  return o.str();
}
template <class T>
std::string show(const Array2D<T> &g) {
  std::ostringstream o;
  o.precision(17);
  o << g.width() << "x" << g.height() << " nodata=" << +g.noData() << "\n";
  for (int y = 0; y < g.height(); y++) {
    for (int x = 0; x < g.width(); x++) o << (x ? " " : "  ") << +g(x, y);
    o << "\n";
  }
  return o.str();
}

template <class T>
Array2D<T> to_array(const Grid<T> &g) {
  Array2D<T> a(g.w, g.h, T());
  for (int y = 0; y < g.h; y++)
    for (int x = 0; x < g.w; x++) a(x, y) = g(x, y);
  a.setNoData(g.nd);
  a.geotransform = {0., 1., 0., 0., 0., -1.};
  return a;
}
template <class T>
Grid<T> from_array(const Array2D<T> &a) {
  Grid<T> g(a.width(), a.height());
  for (int y = 0; y < g.h; y++)
    for (int x = 0; x < g.w; x++) g(x, y) = a(x, y);
  g.nd = a.noData();
  return g;
}

struct DemOpts {
  int max_dim = 60;           // of the occasional large raster
  int min_dim = 1;
  bool nodata = true;         // may contain NoData cells
  bool nodata_edge_d4 = true; // NoData regions reach the raster's edge through NoData (D4)
  bool extremes = true;       // may use the whole range of the type
  double step = 0;            // floats: 0 = choose
  bool nd_lowest = true;      // the NoData value is less than every data value
};

inline void dims(Source &s, int &w, int &h, int min_dim, int max_dim) {
  auto clampd = [&](int v) { return std::max(min_dim, std::min(v, max_dim)); };
  switch (s.weighted({50, 30, 8, 6, 6})) {
    case 0: w = clampd(s.range(1, 8)), h = clampd(s.range(1, 8)); break;
    case 1: w = clampd(s.range(3, 20)), h = clampd(s.range(3, 20)); break;
    case 2: w = clampd(s.range(1, max_dim)), h = clampd(s.range(1, 4)); break;
    case 3: w = clampd(s.range(1, 4)), h = clampd(s.range(1, max_dim)); break;
    default: w = clampd(s.range(10, max_dim)), h = clampd(s.range(10, max_dim)); break;
  }
}

// A raster of small integers, 0..(some bound), in a landscape-like or adversarial style
inline std::vector<int64_t> shape_values(Source &s, int w, int h, int &style, int64_t &maxv) {
  std::vector<int64_t> v(size_t(w) * h, 0);
  style = s.weighted({4, 3, 3, 3, 2, 2, 2, 2});
  auto at = [&](int x, int y) -> int64_t & { return v[size_t(y) * w + x]; };
  switch (style) {
    case 0: {  // few levels: many ties, flats, plateaus
      int k = s.range(1, 4);
      for (auto &c : v) c = s.draw(k + 1);
      break;
    }
    case 1: {
      int k = s.pick({9, 20, 100});
      for (auto &c : v) c = s.draw(k + 1);
      break;
    }
    case 2: {  // nested bowls and hills on a plane
      int sx = s.range(0, 4) - 2, sy = s.range(0, 4) - 2;
      int nb = s.range(0, 6);
      std::vector<double> z(v.size());
      for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++) z[size_t(y) * w + x] = 300 + sx * x + sy * y;
      for (int b = 0; b < nb; b++) {
        int cx = s.draw(w), cy = s.draw(h), r = s.range(1, 12), d = s.range(1, 40) * (s.coin(1, 4) ? 1 : -1);
        for (int y = 0; y < h; y++)
          for (int x = 0; x < w; x++) {
            double q = std::hypot(x - cx, y - cy);
            if (q < r) z[size_t(y) * w + x] += d * (1 - q / r);
          }
      }
      int noise = s.pick({0, 0, 1, 3});
      for (size_t i = 0; i < v.size(); i++) v[i] = std::max<int64_t>(0, std::llround(z[i]) + (noise ? (int64_t)s.draw(noise + 1) : 0));
      break;
    }
    case 3: {  // interior lower than the rim, with a few notches: large depressions
      int k = s.range(1, 30);
      for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++) {
          bool rim = x == 0 || y == 0 || x == w - 1 || y == h - 1;
          at(x, y) = rim ? 50 + (int64_t)s.draw(k) : (int64_t)s.draw(k);
        }
      int notches = s.range(0, 3);
      for (int i = 0; i < notches; i++) {
        int x = s.draw(w), y = s.draw(h);
        if (s.coin()) x = s.coin() ? 0 : w - 1;
        else y = s.coin() ? 0 : h - 1;
        at(x, y) = s.draw(60);
      }
      break;
    }
    case 4: {  // corridors between walls: long winding paths
      for (auto &c : v) c = 90;
      int steps = std::min<int>(4 * (w + h), 200);
      int x = s.draw(w), y = s.draw(h);
      int64_t z = 10;
      for (int i = 0; i < steps; i++) {
        at(x, y) = std::max<int64_t>(0, z);
        int d = 1 + s.draw(8);
        int nx = x + DX8[d], ny = y + DY8[d];
        if (nx < 0 || ny < 0 || nx >= w || ny >= h) continue;
        x = nx;
        y = ny;
        z += (int64_t)s.draw(5) - 2;
      }
      break;
    }
    case 5: {  // a slope with pits
      int dir = s.draw(4);
      for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++) at(x, y) = 5 + 2 * (dir == 0 ? x : dir == 1 ? y : dir == 2 ? w - 1 - x : h - 1 - y);
      int n = s.range(0, 10);
      for (int i = 0; i < n; i++) {
        int x = s.draw(w), y = s.draw(h);
        at(x, y) = std::max<int64_t>(0, at(x, y) + (int64_t)s.draw(15) - 10);
      }
      break;
    }
    case 6: {  // large flats with a few differing cells
      for (auto &c : v) c = 10;
      int n = s.range(0, std::max(2, w * h / 6));
      for (int i = 0; i < n; i++) {
        int x = s.draw(w), y = s.draw(h);
        at(x, y) = s.draw(21);
      }
      break;
    }
    default: {  // terraces: a smooth field, quantised
      int q = s.range(2, 12);
      double a = s.real(0.1, 0.9), b = s.real(0.1, 0.9), ph = s.real(0, 6.28);
      for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++) at(x, y) = (int64_t)(q * (2 + std::sin(a * x + ph) + std::cos(b * y - ph))) + (s.coin(1, 10) ? (int64_t)s.draw(3) : 0);
      break;
    }
  }
  maxv = 0;
  for (auto c : v) maxv = std::max(maxv, c);
  return v;
}

// A mask of NoData cells. Styles: none, scattered, border strips, blocks at the edge.
template <class T>
std::vector<char> nodata_mask(Source &s, int w, int h, const DemOpts &o) {
  std::vector<char> m(size_t(w) * h, 0);
  if (!o.nodata) return m;
  switch (s.weighted({45, 15, 20, 20})) {
    case 0: return m;
    case 1: {
      int den = s.pick({4, 10, 25});
      for (auto &c : m) c = s.coin(1, den);
      break;
    }
    case 2: {  // strips along the sides
      int l = s.draw(3), t = s.draw(3), r = s.draw(3), b = s.draw(3);
      for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++) m[size_t(y) * w + x] = x < l || y < t || x >= w - r || y >= h - b;
      break;
    }
    default: {  // blocks, possibly interior
      int n = s.range(1, 4);
      for (int i = 0; i < n; i++) {
        int x0 = s.draw(w), y0 = s.draw(h), bw = s.range(1, std::max(1, w / 2)), bh = s.range(1, std::max(1, h / 2));
        for (int y = y0; y < std::min(h, y0 + bh); y++)
          for (int x = x0; x < std::min(w, x0 + bw); x++) m[size_t(y) * w + x] = 1;
      }
    }
  }
  if (o.nodata_edge_d4) {  // keep only what reaches the edge through NoData
    std::vector<char> keep(m.size(), 0);
    std::deque<int> q;
    for (int y = 0; y < h; y++)
      for (int x = 0; x < w; x++)
        if ((x == 0 || y == 0 || x == w - 1 || y == h - 1) && m[size_t(y) * w + x]) {
          keep[size_t(y) * w + x] = 1;
          q.push_back(y * w + x);
        }
    while (!q.empty()) {
      int i = q.front();
      q.pop_front();
      for (int n = 1; n <= 4; n++) {
        int x = i % w + DX4[n], y = i / w + DY4[n];
        if (x < 0 || y < 0 || x >= w || y >= h) continue;
        if (m[size_t(y) * w + x] && !keep[size_t(y) * w + x]) {
          keep[size_t(y) * w + x] = 1;
          q.push_back(y * w + x);
        }
      }
    }
    m = keep;
  }
  return m;
}

inline std::string str_style(int i) {
  static const char *n[] = {"style few-levels", "style noise", "style bowls", "style rimmed", "style corridors", "style slope+pits", "style flats", "style terraces"};
  return n[i];
}
// A digital elevation model of element type T
template <class T>
Grid<T> dem(Source &s, const DemOpts &o = DemOpts()) {
  int w, h;
  dims(s, w, h, o.min_dim, o.max_dim);
  int style;
  int64_t maxv;
  auto v = shape_values(s, w, h, style, maxv);
  Grid<T> g(w, h);
  g.has_nd = true;
  using L = std::numeric_limits<T>;
  if constexpr (std::is_floating_point<T>::value) {
    double step = o.step ? o.step : s.pick({1.0, 0.1, 0.25, 1e-3, 1000.0});
    double off = s.pick({0.0, 100.0, -50.0, -3.5});
    for (size_t i = 0; i < v.size(); i++) g.v[i] = (T)(off + step * v[i]);
    g.nd = o.nd_lowest ? s.pick<T>({(T)-9999e6, L::lowest()}) : s.pick<T>({(T)-9999e6, L::lowest(), L::max()});
  } else {
    bool ext = o.extremes && s.coin(1, 6);
    int64_t lo = L::is_signed ? (int64_t)L::lowest() : 0;
    int64_t hi = sizeof(T) >= 8 ? (int64_t(1) << 60) : (int64_t)L::max();
    if (sizeof(T) >= 8) lo = L::is_signed ? -(int64_t(1) << 60) : 0;
    if (ext && maxv > 0) {
      // stretch over the whole range above the NoData value
      for (size_t i = 0; i < v.size(); i++) {
        __int128 t = (__int128)(hi - (lo + 1)) * v[i] / maxv;
        g.v[i] = (T)(lo + 1 + (int64_t)t);
      }
      g.nd = (T)lo;
    } else {
      int64_t off = L::is_signed ? s.pick<int64_t>({0, 1, -40}) : 1;
      if (L::is_signed && sizeof(T) == 1) off = -100;
      for (size_t i = 0; i < v.size(); i++) g.v[i] = (T)std::min<int64_t>(hi, off + v[i]);
      if (L::is_signed) g.nd = sizeof(T) > 1 ? s.pick<T>({(T)-9999, L::lowest()}) : L::lowest();
      else g.nd = 0;
    }
  }
  auto m = nodata_mask<T>(s, w, h, o);
  for (size_t i = 0; i < m.size(); i++)
    if (m[i]) g.v[i] = g.nd;
  s.label(str_style(style));
  return g;
}
}  // namespace gen
