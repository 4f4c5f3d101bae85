// P26: surface area, perimeter, bucket fills, iterators
#include <richdem/common/iterators.hpp>
#include <richdem/misc/misc_methods.hpp>
#include "gen.hpp"
using namespace richdem;
using namespace gen;

namespace {
using T = TY;
pbt::RuleRegistrar rr("cases: rasters of eight landscape styles and every shape from 1x1, with NoData anywhere, cells of any proportion and vertical factors of either sign; bucket fills over rasters of few values with seeds anywhere; non-trivial: relief within reach of a NoData cell or in the interior (areas), both kinds of border (perimeters), a seed that fills more than itself and leaves a cell of the value unfilled (fills)",
                      {"areas: relief of up to 20000 cell widths between neighbours: beyond that Heron's formula loses its digits (as the square of the ratio)", "cell sides from 1e-4 to 1e4"});

Grid<T> draw_case(pbt::Source &s) {
  DemOpts o;
  o.nodata_edge_d4 = false;
  o.extremes = false;
  o.nd_lowest = s.coin();
  auto z = dem<T>(s, o);
  s.note(show(z));
  return z;
}
double side(pbt::Source &s) { return s.coin(1, 3) ? 1.0 : s.pick({0.5, 2.0, 3.0, 0.0001, 30.0, 10000.0, 90.5, 0.3}); }
void cells(pbt::Source &s, Array2D<T> &a, double &lx, double &ly) {
  lx = side(s), ly = s.coin(1, 3) ? lx : side(s);
  a.geotransform = {{100, s.coin(1, 6) ? -lx : lx, 0, 200, 0, s.coin(1, 3) ? ly : -ly}};
  s.note("cells ", lx, " x ", ly);
}

// The height of a neighbour; one that is missing is as high as the cell itself
double height(const Grid<T> &z, int x, int y, int n) {
  int a = x + DX8[n], b = y + DY8[n];
  return z.in(a, b) && !z.isnd(a, b) ? z(a, b) : z(x, y);
}
void area(pbt::Source &s) {
  auto z = draw_case(s);
  auto a = to_array(z);
  double lx, ly;
  cells(s, a, lx, ly);
  double zs = s.pick({1.0, 1.0, 0.0, -1.0, 2.5, 0.001, 100.0, -3.0});
  double tall = 0;
  for (int y = 0; y < z.h; y++)
    for (int x = 0; x < z.w; x++)
      if (!z.isnd(x, y))
        for (int n = 1; n <= 8; n++) tall = std::max(tall, std::abs(height(z, x, y, n) - z(x, y)));
  if (std::abs(zs) * tall > 2e4 * std::min(lx, ly)) zs = 2e4 * std::min(lx, ly) / tall;
  s.note("zscale ", zs);
  long double want = 0;
  int data = 0;
  bool mixed = false;
  for (int y = 0; y < z.h; y++)
    for (int x = 0; x < z.w; x++) {
      if (z.isnd(x, y)) continue;
      data++;
      bool relief = false, gone = z.edge(x, y);
      for (int n = 1; n <= 8; n++) {
        int m = n % 8 + 1;
        // twice the area of the triangle to two neighbours is the length of a cross product; a quarter of the triangle is in the cell
        long double ux = DX8[n] * lx, uy = DY8[n] * ly, uz = (long double)zs * height(z, x, y, n) - (long double)zs * z(x, y);
        long double vx = DX8[m] * lx, vy = DY8[m] * ly, vz = (long double)zs * height(z, x, y, m) - (long double)zs * z(x, y);
        long double cx = uy * vz - uz * vy, cy = uz * vx - ux * vz, cz = ux * vy - uy * vx;
        want += std::sqrt(cx * cx + cy * cy + cz * cz) / 8;
        relief |= uz != 0;
        gone |= z.in(x + DX8[n], y + DY8[n]) && z.isnd(x + DX8[n], y + DY8[n]);
      }
      mixed |= relief && gone;
    }
  s.nontrivial(mixed);
  const double flat = data * lx * ly;
  double got = dem_surface_area(a, zs);
  const double ratio = std::abs(zs) * tall / std::min(lx, ly) + std::max(lx, ly) / std::min(lx, ly);
  PBT_CHECK(std::abs(got - want) <= (1e-9 + 1e-15 * ratio * ratio) * (double)want, "surface-area", "surface area is ", got, ", the triangles have ", (double)want);
  PBT_CHECK(got >= flat * (1 - 1e-12), "less-than-planar", "surface area ", got, " < planar area ", flat);
  if (zs == 0 || tall == 0) PBT_CHECK(std::abs(got - flat) <= 1e-9 * flat, "level-surface", "a level surface of ", flat, " has area ", got);
  for (int i = 0; i < (int)z.size(); i++) PBT_CHECK(a(i) == z.v[i], "altered", "elevations changed");
}

void perimeter(pbt::Source &s) {
  auto z = draw_case(s);
  auto a = to_array(z);
  double lx, ly;
  cells(s, a, lx, ly);
  long count = 0, inner = 0, hor = 0, ver = 0;
  for (int y = 0; y < z.h; y++)
    for (int x = 0; x < z.w; x++) {
      if (z.isnd(x, y)) continue;
      bool b = false;
      for (int n = 1; n <= 8; n++) b |= !z.in(x + DX8[n], y + DY8[n]) || z.isnd(x + DX8[n], y + DY8[n]);
      count += b;
      inner += b && !z.edge(x, y);
      for (int n = 1; n <= 4; n++) {
        int p = x + DX4[n], q = y + DY4[n];
        if (!z.in(p, q) || z.isnd(p, q)) (DX4[n] ? ver : hor)++;
      }
    }
  s.nontrivial(inner > 0);
  double got = Perimeter(a, PerimType::CELL_COUNT);
  PBT_CHECK(got == count, "cell-count", got, " cells are said to border the edge or NoData, ", count, " do");
  got = Perimeter(a, PerimType::SQUARE_EDGE);
  double want = hor * lx + ver * ly;
  PBT_CHECK(std::abs(got - want) <= 1e-12 * want, "square-edge", "perimeter is ", got, ", the outline has ", hor, " horizontal and ", ver, " vertical sides: ", want);
}

template <Topology topo, class U>
void fill_as(pbt::Source &s) {
  int w, h;
  dims(s, w, h, 1, 60);
  const int k = s.range(1, 3);
  Grid<T> c(w, h);
  const int walls = s.pick({1, 2, 4, 5});
  for (auto &v : c.v) v = s.coin(walls, 8) ? s.draw(k + 1) : 1;
  Grid<U> m(w, h);
  const int kb = s.pick({1, 6, 30});
  const U set = s.pick({7, 0, 3});
  for (auto &v : m.v) v = s.coin(1, kb) ? s.draw(9) : 5;
  const T value = s.coin(1, 8) ? T(s.draw(4)) : T(1);
  bool edges = s.coin();
  s.note(show(c), show(m), topo == Topology::D8 ? "D8" : "D4", edges ? " from edges" : " from seeds", " value ", +value, " set ", +set);
  std::vector<size_t> seeds;
  if (edges) {
    for (int i = 0; i < w * h; i++)
      if (c.edge(i % w, i / w)) seeds.push_back(i);
  } else {
    for (int n = s.range(0, 4); n > 0; n--) {
      seeds.push_back(s.draw(w * h));
      s.note("seed ", seeds.back());
    }
  }
  auto nb = nbr(topo == Topology::D8);
  // rounds over the raster until nothing more is reached
  std::vector<char> reach(w * h, 0);
  auto open = [&](int i) { return c.v[i] == value && m.v[i] != set; };
  size_t filled = 0;
  for (auto i : seeds)
    if (open(i)) reach[i] = 1;
  for (bool ch = true; ch;) {
    ch = false;
    for (int q = 0; q < 2 * w * h; q++) {
      int i = q < w * h ? q : 2 * w * h - 1 - q;
      if (!reach[i]) continue;
      for (int n = 1; n <= nb.n; n++) {
        int x = i % w + nb.dx[n], y = i / w + nb.dy[n];
        if (c.in(x, y) && open(y * w + x) && !reach[y * w + x]) reach[y * w + x] = 1, ch = true;
      }
    }
  }
  bool left = false;
  for (int i = 0; i < w * h; i++) filled += reach[i], left |= open(i) && !reach[i];
  s.nontrivial(filled > seeds.size() && left);
  auto ca = to_array(c);
  auto ma = to_array(m);
  if (s.coin()) ca.setNoData(value);  // values are compared, NoData or not
  if (s.coin()) ma.setNoData(set);
  if (edges) BucketFillFromEdges<topo>(ca, ma, value, set);
  else {
    auto sd = seeds;
    BucketFill<topo>(ca, ma, value, set, sd);
  }
  for (int i = 0; i < w * h; i++) {
    PBT_CHECK(ma(i) == (reach[i] ? set : m.v[i]), "fill", "(", i % w, ",", i / w, ") is ", +ma(i), ", was ", +m.v[i], reach[i] ? ", reached" : ", not reached");
    PBT_CHECK(ca(i) == c.v[i], "checked-raster-changed", i);
  }
  // rasters that differ in shape are refused, and left alone
  int w2 = s.range(1, 9), h2 = s.range(1, 9);
  if (w2 != w || h2 != h) {
    Array2D<U> other(w2, h2, U(5));
    bool threw = false;
    try {
      if (edges) BucketFillFromEdges<topo>(ca, other, value, set);
      else {
        auto sd = seeds;
        BucketFill<topo>(ca, other, value, set, sd);
      }
    } catch (const std::runtime_error &) {
      threw = true;
    }
    PBT_CHECK(threw, "shapes-differ", w, "x", h, " and ", w2, "x", h2, " rasters were accepted");
    for (int i = 0; i < w2 * h2; i++) PBT_CHECK(other(i) == U(5), "shapes-differ-changed", i);
  }
}
void fill(pbt::Source &s) {
  switch (s.draw(4)) {
    case 0: return fill_as<Topology::D8, uint8_t>(s);
    case 1: return fill_as<Topology::D4, uint8_t>(s);
    case 2: return fill_as<Topology::D8, int32_t>(s);
    default: return fill_as<Topology::D4, float>(s);
  }
}

void iterate(pbt::Source &s) {
  int w, h;
  dims(s, w, h, 1, 60);
  Array2D<T> a(w, h, T(1));
  s.note(w, "x", h);
  s.nontrivial(w > 1 && h > 1);
  std::vector<size_t> flat, want;
  iterate_flat<T>(a, [&](Array2D<T> &arr, typename Array2D<T>::i_t i) {
    PBT_CHECK(&arr == &a, "other-raster", "");
    flat.push_back(i);
    arr(i) = T(2);
  });
  for (int i = 0; i < w * h; i++) want.push_back(i);
  PBT_CHECK(flat == want, "iterate-flat", flat.size(), " visits");
  for (int i = 0; i < w * h; i++) PBT_CHECK(a(i) == T(2), "iterate-flat-write", i);
  std::vector<size_t> grid;
  iterate_2d<T>(a, [&](typename Array2D<T>::xy_t x, typename Array2D<T>::xy_t y) {
    PBT_CHECK(x >= 0 && y >= 0 && x < w && y < h, "iterate-2d-outside", x, ",", y);
    grid.push_back(size_t(y) * w + x);
  });
  PBT_CHECK(grid == want, "iterate-2d", grid.size(), " visits");
}
}  // namespace
#define STR2(x) #x
#define STR(x) STR2(x)
PBT_PROP("area_" STR(TY), QN, QN * 20, area);
PBT_PROP("perimeter_" STR(TY), QN, QN * 20, perimeter);
PBT_PROP("fill_" STR(TY), QN, QN * 20, fill);
PBT_PROP("iterate_" STR(TY), QN / 4, QN, iterate);
