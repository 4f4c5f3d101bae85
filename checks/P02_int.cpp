// P02: epsilon filling is refused for integers, however it is called
#include <richdem/depressions/depressions.hpp>
#include "gen.hpp"
using namespace richdem;
using namespace gen;

namespace {
template <class T, Topology topo>
void refused(pbt::Source &s) {
  DemOpts o;
  o.max_dim = 12;
  auto z = dem<T>(s, o);
  s.nontrivial(z.size() > 1);
  int how = s.draw(3);
  s.note(how, " ", show(z));
  auto a = to_array(z);
  bool threw = false;
  try {
    if (how == 0) PriorityFloodEpsilon_Barnes2014<topo, T>(a);
    else if (how == 1) PriorityFloodEpsilon_Barnes2014<topo>(a);
    else FillDepressionsEpsilon<topo>(a);
  } catch (const std::runtime_error &) {
    threw = true;
  }
  PBT_CHECK(threw, "accepted", "an epsilon of an integer: ", show(a));
  for (size_t i = 0; i < z.size(); i++) PBT_CHECK(a(i) == z.v[i], "altered", "refused, but the raster has changed");
}
void any(pbt::Source &s) {
  switch (s.draw(8)) {
    case 0: return refused<int8_t, Topology::D8>(s);
    case 1: return refused<uint8_t, Topology::D4>(s);
    case 2: return refused<int16_t, Topology::D4>(s);
    case 3: return refused<uint16_t, Topology::D8>(s);
    case 4: return refused<int32_t, Topology::D8>(s);
    case 5: return refused<uint32_t, Topology::D4>(s);
    case 6: return refused<int64_t, Topology::D8>(s);
    case 7: return refused<uint64_t, Topology::D4>(s);
  }
}
PBT_PROP("epsilon_refuses_integers", 400, 4000, any);
}  // namespace
