#include <richdem/misc/conversion.hpp>
#include "gen.hpp"
using namespace richdem;
using namespace gen;
// ArcGIS codes: powers of two clockwise from east
static void arc(pbt::Source &s) {
  int w = s.range(1, 12), h = s.range(1, 12);
  Array2D<d8_flowdir_t> a(w, h, 0), r(w, h, 77);
  static const int dx[8] = {1, 1, 0, -1, -1, -1, 0, 1}, dy[8] = {0, 1, 1, 1, 0, -1, -1, -1};
  bool bad = false;
  std::vector<int> code(w * h);
  bool may_bad = s.coin(1, 4);
  for (int i = 0; i < w * h; i++) {
    int k = s.range(0, 8);
    int v = k == 0 ? 0 : 1 << (k - 1);
    if (may_bad && s.coin(1, 10)) v = s.draw(256);
    code[i] = v;
    a(i) = v;
    if (v != 0 && (v & (v - 1)) != 0) bad = true;
  }
  s.nontrivial(w * h > 1);
  s.label(bad, "holds an invalid code");
  bool threw = false;
  try {
    convert_arc_flowdirs_to_richdem_d8(a, r);
  } catch (const std::runtime_error &) {
    threw = true;
  }
  PBT_CHECK(threw == bad, "invalid-code", "invalid code present: ", bad, ", refused: ", threw);
  if (threw) return;
  for (int i = 0; i < w * h; i++) {
    PBT_CHECK(a(i) == code[i], "altered-input", "");
    int v = code[i], n = r(i);
    if (v == 0) {
      PBT_CHECK(n == 0, "no-flow", n);
      continue;
    }
    int b = __builtin_ctz(v);
    PBT_CHECK(n >= 1 && n <= 8 && DX8[n] == dx[b] && DY8[n] == dy[b], "conversion", "code ", v, " became ", n);
    PBT_CHECK(d8_arcgis[n] == v, "inverse-table", "d8_arcgis[", n, "] is ", +d8_arcgis[n], ", expected ", v);
  }
}
PBT_PROP("arcgis", 2000, 40000, arc);
