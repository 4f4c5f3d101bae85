// P16: the ordered queues, the radix heaps, the union-find and the LRU cache against plain models
#include <algorithm>
#include <cstdint>
#include <stdexcept>
#include <string>
#include <deque>
#include <map>
#include <set>
#include <cstring>
#include <richdem/common/grid_cell.hpp>
#include <richdem/common/radix_heap.hpp>
#include <richdem/common/disjoint_dense_int_set.hpp>
#include <richdem/common/timer.hpp>
#include <richdem/tiled/lru.hpp>
#include "pbt.hpp"
using namespace richdem;

static pbt::RuleRegistrar rr(
    "cases: interleaved pushes, pops and queries; merges and lookups; non-trivial: for queues at least one tie between queued items and a pop between pushes, "
    "for sets at least two merges of sets of several elements, for the cache at least one eviction",
    {"radix heaps are pushed no key below the last one popped (their documented contract) and no negative zero",
     "mergeAintoB is given the representatives of two different sets, as in its use"});

namespace {
template <class T>
T special(pbt::Source &s) {
  if constexpr (std::is_floating_point<T>::value) {
    switch (s.draw(6)) {
      case 0: return std::numeric_limits<T>::quiet_NaN();
      case 1: return std::numeric_limits<T>::infinity();
      case 2: return -std::numeric_limits<T>::infinity();
      case 3: return std::numeric_limits<T>::denorm_min();
      case 4: return T(-0.0);
      default: return -std::numeric_limits<T>::denorm_min();
    }
  } else {
    return s.coin() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
  }
}
template <class T>
bool is_nan(T v) { return v != v; }
template <class T>
bool before(T a, T b) {  // NaN is lowest
  if (is_nan(a)) return !is_nan(b);
  if (is_nan(b)) return false;
  return a < b;
}
template <class T>
bool same(T a, T b) { return !before(a, b) && !before(b, a); }

// kind 0: no order among ties; 1: earliest first; -1: latest first
template <class T, class Q>
void queue_case(pbt::Source &s, int kind) {
  struct It { int x, y; T z; uint64_t k; };
  std::vector<It> m;
  Q q;
  uint64_t k = 0;
  int nops = s.range(1, 60);
  bool popped = false, tie = false;
  int levels = s.pick({1, 2, 5, 100});
  for (int i = 0; i < nops; i++) {
    if (s.coin(2, 3)) {
      T z = s.coin(1, 12) ? special<T>(s) : T(s.draw(levels));
      int x = s.range(0, 1000), y = s.range(0, 1000);
      if (s.verbose) s.note(pbt::str("push (", x, ",", y, ") at ", +z));
      q.emplace(x, y, z);
      for (auto &e : m) tie = tie || same(e.z, z);
      m.push_back({x, y, z, ++k});
      if (popped && tie) s.nontrivial();
    } else if (!m.empty()) {
      auto c = q.top();
      q.pop();
      popped = true;
      if (s.verbose) s.note(pbt::str("pop gives (", c.x, ",", c.y, ") at ", +c.z));
      auto best = m.begin();
      for (auto it = m.begin(); it != m.end(); ++it) {
        if (before(it->z, best->z)) best = it;
        else if (same(it->z, best->z) && kind < 0) best = it;  // items are kept in insertion order
      }
      if (kind == 0) {
        PBT_CHECK(same(c.z, best->z), "order", "popped elevation ", +c.z, ", the least is ", +best->z);
        for (best = m.begin(); best != m.end(); ++best)
          if (best->x == c.x && best->y == c.y && same(best->z, c.z)) break;
        PBT_CHECK(best != m.end(), "invented", "popped an item that was not queued");
      } else
        PBT_CHECK(best->x == c.x && best->y == c.y && same(best->z, c.z), "order", "popped (", c.x, ",", c.y, ") at ", +c.z, ", expected (", best->x, ",", best->y, ") at ", +best->z);
      m.erase(best);
    }
    PBT_CHECK(q.size() == m.size() && q.empty() == m.empty(), "size", "size ", q.size(), ", should be ", m.size());
  }
}
template <class T>
void queues(pbt::Source &s) {
  switch (s.draw(3)) {
    case 0: s.label("plain"); queue_case<T, GridCellZ_pq<T>>(s, 0); break;
    case 1: s.label("low"); queue_case<T, GridCellZk_low_pq<T>>(s, 1); break;
    default: s.label("high"); queue_case<T, GridCellZk_high_pq<T>>(s, -1);
  }
}
// the comparisons of cells of floating elevations are a total preorder with NaN lowest
template <class T>
void comparisons(pbt::Source &s) {
  auto v = [&] { return s.coin(1, 3) ? special<T>(s) : T(s.range(0, 6)) - T(3); };
  T a = v(), b = v();
  GridCellZ<T> x(1, 2, a), y(3, 4, b);
  if (is_nan(a) || is_nan(b)) s.nontrivial();
  s.note(pbt::str(a, " with ", b));
  PBT_CHECK((x < y) == before(a, b) && (x > y) == before(b, a) && (x <= y) == !before(b, a) && (x >= y) == !before(a, b) && (x == y) == same(a, b) && (x != y) == !same(a, b), "compare", a, " with ", b);
  PBT_CHECK(x.isnan() == is_nan(a), "isnan", "");
  int ka = s.range(0, 2), kb = s.range(0, 2);
  PBT_CHECK((GridCellZk_low<T>(0, 0, a, ka) > GridCellZk_low<T>(0, 0, b, kb)) == (before(b, a) || (same(a, b) && ka > kb)), "compare-low", a, ":", ka, " with ", b, ":", kb);
  PBT_CHECK((GridCellZk_high<T>(0, 0, a, ka) > GridCellZk_high<T>(0, 0, b, kb)) == (before(b, a) || (same(a, b) && ka < kb)), "compare-high", a, ":", ka, " with ", b, ":", kb);
}

template <class K>
K key_at_least(pbt::Source &s, bool has_last, K last) {
  const K lo = has_last ? last : std::numeric_limits<K>::lowest();
  if constexpr (std::is_floating_point<K>::value) {
    K base = has_last ? last : K(s.range(0, 2000) - 1000);
    if (!has_last && s.coin(1, 10)) base = s.coin() ? -std::numeric_limits<K>::infinity() : std::numeric_limits<K>::lowest();
    K r;
    switch (s.draw(5)) {
      case 0: r = base; break;
      case 1: r = base + K(s.draw(5)) * K(0.25); break;
      case 2: r = base + K(s.draw(100000)); break;
      case 3: r = std::nextafter(base, std::numeric_limits<K>::infinity()); break;
      default: r = s.coin(1, 4) ? std::numeric_limits<K>::infinity() : std::max(base, K(s.range(0, 10)));
    }
    if (r == 0) r = 0;  // not -0
    if (std::signbit(r) && r == 0) r = K(0);
    if (!(r >= base)) r = base;
    return r;
  } else {
    const K hi = std::numeric_limits<K>::max();
    switch (s.draw(5)) {
      case 0: return lo;
      case 1: case 2: {
        uint64_t room = uint64_t(hi) - uint64_t(lo);
        return K(uint64_t(lo) + std::min<uint64_t>(room, s.draw(6)));
      }
      case 3: {
        uint64_t room = uint64_t(hi) - uint64_t(lo);
        return K(uint64_t(lo) + std::min<uint64_t>(room, s.draw(1ull << s.draw(sizeof(K) * 8))));
      }
      default: {
        uint64_t room = uint64_t(hi) - uint64_t(lo);
        return K(uint64_t(hi) - std::min<uint64_t>(room, s.draw(3)));
      }
    }
  }
}
template <class K>
void radix(pbt::Source &s) {
  radix_heap::radix_heap<K> h, h2;
  std::multiset<K> m, m2;
  bool has = false, has2 = false, popped = false, tie = false;
  K last{}, last2{};
  int nops = s.range(1, 60);
  for (int i = 0; i < nops; i++) {
    switch (s.weighted({10, 6, 3, 4, 1, 1})) {
      case 0: {
        K k = key_at_least<K>(s, has, last);
        s.note(pbt::str("push ", +k));
        h.push(k);
        tie = tie || m.count(k);
        m.insert(k);
        if (popped && tie) s.nontrivial();
        break;
      }
      case 1:
        if (m.empty()) break;
        s.note("pop");
        h.pop();
        last = *m.begin(), has = true, popped = true;
        m.erase(m.begin());
        break;
      case 2: {
        if (m.empty()) break;
        K t = h.top();
        s.note(pbt::str("top gives ", +t));
        PBT_CHECK(t == *m.begin(), "top", "top() is ", +t, ", should be ", +*m.begin());
        last = t, has = true;
        break;
      }
      case 3: {
        if (m.empty()) break;
        K t = h.min();
        PBT_CHECK(t == *m.begin(), "min", "min() is ", +t, ", should be ", +*m.begin());
        break;
      }
      case 4:
        s.note("clear");
        h.clear();
        m.clear();
        has = false;
        break;
      default:
        s.note("swap");
        h.swap(h2);
        m.swap(m2);
        std::swap(has, has2);
        std::swap(last, last2);
    }
    PBT_CHECK(h.size() == m.size() && h.empty() == m.empty(), "size", "size ", h.size(), ", should be ", m.size());
  }
  while (!m.empty()) {
    PBT_CHECK(h.top() == *m.begin(), "drain", "top() is ", +h.top(), ", should be ", +*m.begin());
    h.pop();
    m.erase(m.begin());
  }
  PBT_CHECK(h.empty(), "drain", "");
}
template <class K>
void pair_radix(pbt::Source &s) {
  using H = radix_heap::pair_radix_heap<K, std::string>;
  H h, h2;
  std::multimap<K, std::string> m, m2;
  bool has = false, has2 = false, popped = false, tie = false;
  K last{}, last2{};
  int nops = s.range(1, 60), n = 0;
  auto take = [&](K k, const std::string &v) {
    auto r = m.equal_range(k);
    for (auto it = r.first; it != r.second; ++it)
      if (it->second == v) {
        m.erase(it);
        return true;
      }
    return false;
  };
  for (int i = 0; i < nops; i++) {
    switch (s.weighted({10, 6, 3, 1, 1, 1, 1})) {
      case 0: {
        K k = key_at_least<K>(s, has, last);
        std::string v = "value number " + std::to_string(n++);
        s.note(pbt::str("push ", +k));
        switch (s.draw(3)) {
          case 0: h.push(k, v); break;
          case 1: h.push(k, std::string(v)); break;
          default: h.emplace(k, v);
        }
        tie = tie || m.count(k);
        m.insert({k, v});
        if (popped && tie) s.nontrivial();
        break;
      }
      case 1: {
        if (m.empty()) break;
        K k = h.top_key();
        std::string v = h.top_value();
        h.pop();
        s.note(pbt::str("pop gives ", +k, " ", v));
        PBT_CHECK(k == m.begin()->first, "top", "top_key() is ", +k, ", should be ", +m.begin()->first);
        PBT_CHECK(take(k, v), "value", "'", v, "' is not a value of key ", +k);
        last = k, has = popped = true;
        break;
      }
      case 2: {
        if (m.empty()) break;
        K t = h.min_key();
        PBT_CHECK(t == m.begin()->first, "min", "min_key() is ", +t, ", should be ", +m.begin()->first);
        break;
      }
      case 3: {
        if (m.empty()) break;
        K k = m.begin()->first;
        auto all = h.extract_top_values();
        s.note("extract_top_values");
        PBT_CHECK(all.size() == m.count(k), "extract", "extract_top_values() gives ", all.size(), " items of ", m.count(k));
        for (auto &p : all) PBT_CHECK(take(k, p.second), "extract", "'", p.second, "' is not a value of key ", +k);
        last = k, has = popped = true;
        break;
      }
      case 4: {
        if (m.empty()) break;
        K k = m.begin()->first;
        s.note("pop_top_values");
        h.pop_top_values();
        m.erase(k);
        last = k, has = popped = true;
        break;
      }
      case 5:
        s.note("clear");
        h.clear();
        m.clear();
        has = false;
        break;
      default:
        s.note("swap");
        h.swap(h2);
        m.swap(m2);
        std::swap(has, has2);
        std::swap(last, last2);
    }
    PBT_CHECK(h.size() == m.size() && h.empty() == m.empty(), "size", "size ", h.size(), ", should be ", m.size());
  }
  while (!m.empty()) {
    K k = h.top_key();
    PBT_CHECK(k == m.begin()->first && take(k, h.top_value()), "drain", "");
    h.pop();
  }
  PBT_CHECK(h.empty(), "drain", "");
}
template <class K>
void encoder(pbt::Source &s) {
  auto v = [&] {
    K r;
    do {
      uint64_t bits = s.draw(1ull << 32) << 32 | s.draw(1ull << 32);
      std::memcpy(&r, &bits, sizeof r);
      if (s.coin(1, 4)) r = K(s.range(0, 6)) - K(3);
    } while (r != r);
    return r;
  };
  using E = radix_heap::internal::encoder<K>;
  K a = v(), b = v();
  s.nontrivial();
  s.note(pbt::str(+a, " and ", +b));
  K back = E::decode(E::encode(a));
  PBT_CHECK(std::memcmp(&back, &a, sizeof a) == 0, "roundtrip", +a, " comes back as ", +back);
  if (a < b) PBT_CHECK(E::encode(a) < E::encode(b), "monotone", "the codes of ", +a, " and ", +b, " are in the wrong order");
}
void disjoint(pbt::Source &s) {
  unsigned n0 = s.range(0, 6);
  DisjointDenseIntSet d = n0 ? DisjointDenseIntSet(n0) : DisjointDenseIntSet();
  std::vector<int> cls(n0);  // class of each element
  for (unsigned i = 0; i < n0; i++) cls[i] = i;
  auto grow = [&](unsigned n) { while (cls.size() <= n) cls.push_back(cls.size()); };
  int nops = s.range(1, 50), merges = 0;
  for (int i = 0; i < nops; i++) {
    switch (s.weighted({2, 5, 3, 3})) {
      case 0: {
        unsigned n = s.range(0, s.coin(1, 10) ? 300 : 20);
        s.note(pbt::str("makeSet ", n));
        d.makeSet(n);
        grow(n);
        break;
      }
      case 1: {
        if (cls.empty()) break;
        unsigned a = s.draw(cls.size()), b = s.draw(cls.size());
        s.note(pbt::str("unionSet ", a, " ", b));
        d.unionSet(a, b);
        int ca = cls[a], cb = cls[b];
        if (ca != cb && std::count(cls.begin(), cls.end(), ca) + std::count(cls.begin(), cls.end(), cb) > 2 && ++merges >= 2) s.nontrivial();
        for (auto &c : cls)
          if (c == cb) c = ca;
        break;
      }
      case 2: {
        unsigned a, b;
        if (!cls.empty() && !s.coin(1, 4)) {
          a = d.findSet(s.draw(cls.size())), b = d.findSet(s.draw(cls.size()));
          if (a == b) break;
        } else {
          a = cls.size() + s.draw(4), b = cls.size() + s.draw(4);  // new sets
          if (a == b) break;
        }
        s.note(pbt::str("mergeAintoB ", a, " ", b));
        d.mergeAintoB(a, b);
        grow(std::max(a, b));
        int ca = cls[a], cb = cls[b];
        if (std::count(cls.begin(), cls.end(), ca) + std::count(cls.begin(), cls.end(), cb) > 2 && ++merges >= 2) s.nontrivial();
        for (auto &c : cls)
          if (c == ca) c = cb;
        PBT_CHECK(d.findSet(a) == b && d.findSet(b) == b, "parenthood", "after merging ", a, " into ", b, " the representative is ", d.findSet(a));
        break;
      }
      default: {
        unsigned n = cls.size() + s.draw(3);
        bool threw = false;
        try {
          d.findSet(n);
        } catch (const std::runtime_error &) { threw = true; }
        PBT_CHECK(threw, "outside", "findSet of an element that does not exist did not throw");
      }
    }
    if (!cls.empty()) PBT_CHECK(d.maxElement() == cls.size() - 1, "maxelement", "maxElement() is ", d.maxElement(), ", should be ", cls.size() - 1);
    for (int q = 0; q < 6 && !cls.empty(); q++) {
      unsigned a = s.draw(cls.size()), b = s.draw(cls.size());
      PBT_CHECK(d.sameSet(a, b) == (cls[a] == cls[b]), "sameset", "sameSet(", a, ",", b, ") is ", d.sameSet(a, b));
    }
  }
  for (unsigned a = 0; a < cls.size(); a++) {
    unsigned r = d.findSet(a);
    PBT_CHECK(r < cls.size() && cls[r] == cls[a] && d.findSet(r) == r, "representative", "the representative of ", a, " is ", r);
    for (unsigned b = 0; b < a; b++) PBT_CHECK((d.findSet(b) == r) == (cls[a] == cls[b]), "partition", a, " and ", b);
  }
}
template <class T>
void lru(pbt::Source &s) {
  void *mem = ::operator new(sizeof(LRU<T>));
  std::memset(mem, s.coin() ? 0 : s.draw(256), sizeof(LRU<T>));  // whatever was there before must not matter
  LRU<T> *l = new (mem) LRU<T>();
  std::deque<T> m;  // most recent first
  int cap = -1, nops = s.range(1, 50), keys = s.pick({1, 2, 4, 12});
  auto key = [&] {
    if constexpr (std::is_same<T, std::string>::value) return std::string("k") + std::to_string(s.draw(keys));
    else return T(s.draw(keys));
  };
  for (int i = 0; i < nops; i++) {
    switch (s.weighted({10, 2, 3, 2})) {
      case 0: {
        T k = key();
        s.note(pbt::str("insert ", k));
        l->insert(k);
        auto it = std::find(m.begin(), m.end(), k);
        if (it != m.end()) m.erase(it);
        m.push_front(k);
        break;
      }
      case 1:
        cap = s.range(0, 5);
        s.note(pbt::str("setCapacity ", cap));
        l->setCapacity(cap);
        break;
      case 2:
        s.note("prune");
        l->prune();
        if (cap >= 0)
          while ((int)m.size() > cap) m.pop_back(), s.nontrivial();
        break;
      default:
        if (m.empty()) break;
        s.note("pop_back");
        l->pop_back();
        m.pop_back();
        s.nontrivial();
    }
    PBT_CHECK(l->size() == (int)m.size(), "size", "size() is ", l->size(), ", should be ", m.size());
    PBT_CHECK(l->full() == ((int)m.size() == cap) && l->getCapacity() == cap, "full", "");
    if (!m.empty()) PBT_CHECK(l->back() == m.back(), "back", "the least recently used is ", l->back(), ", should be ", m.back());
    PBT_CHECK(std::equal(l->cache.begin(), l->cache.end(), m.begin(), m.end()), "recency", "the order of use is wrong");
  }
  l->~LRU<T>();
  ::operator delete(mem);
}
void timer(pbt::Source &s) {
  Timer t;
  bool running = false;
  double acc = 0;
  int nops = s.range(1, 20);
  for (int i = 0; i < nops; i++) {
    bool threw = false;
    double r = 0;
    int op = s.draw(5);
    try {
      if (op == 0) t.start();
      if (op == 1) r = t.stop();
      if (op == 2) r = t.accumulated();
      if (op == 3) r = t.lap();
      if (op == 4) t.reset();
    } catch (const std::runtime_error &) { threw = true; }
    bool must = (op == 0 && running) || (op == 1 && !running) || (op == 2 && running) || (op == 3 && !running);
    PBT_CHECK(threw == must, "timer-throws", "operation ", op);
    if (op == 0 && !threw) running = true;
    if (op == 1 && !threw) {
      running = false;
      PBT_CHECK(r >= acc, "timer-shrinks", "");
      acc = r;
      s.nontrivial();
    }
    if (op == 2 && !threw) PBT_CHECK(r == acc, "timer-accumulated", "");
    if (op == 3 && !threw) PBT_CHECK(r >= 0, "timer-lap", "");
    if (op == 4) running = false, acc = 0;
  }
}
}  // namespace
PBT_PROP("queues_double", 30000, 600000, queues<double>);
PBT_PROP("queues_float", 30000, 600000, queues<float>);
PBT_PROP("queues_int32", 30000, 600000, queues<int32_t>);
PBT_PROP("queues_uint8", 15000, 300000, queues<uint8_t>);
PBT_PROP("compare_double", 20000, 400000, comparisons<double>);
PBT_PROP("compare_float", 20000, 400000, comparisons<float>);
PBT_PROP("radix_float", 20000, 400000, radix<float>);
PBT_PROP("radix_double", 20000, 400000, radix<double>);
PBT_PROP("radix_int32", 20000, 400000, radix<int32_t>);
PBT_PROP("radix_uint8", 20000, 400000, radix<uint8_t>);
PBT_PROP("radix_int16", 20000, 400000, radix<int16_t>);
PBT_PROP("radix_uint64", 20000, 400000, radix<uint64_t>);
PBT_PROP("pairs_double", 20000, 400000, pair_radix<double>);
PBT_PROP("pairs_float", 20000, 400000, pair_radix<float>);
PBT_PROP("pairs_int32", 20000, 400000, pair_radix<int32_t>);
PBT_PROP("pairs_uint8", 20000, 400000, pair_radix<uint8_t>);
PBT_PROP("encoder_double", 30000, 600000, encoder<double>);
PBT_PROP("encoder_float", 30000, 600000, encoder<float>);
PBT_PROP("encoder_int32", 30000, 600000, encoder<int32_t>);
PBT_PROP("encoder_int16", 30000, 600000, encoder<int16_t>);
PBT_PROP("disjoint", 30000, 600000, disjoint);
PBT_PROP("lru_int", 20000, 400000, lru<int>);
PBT_PROP("lru_string", 5000, 100000, lru<std::string>);
PBT_PROP("timer", 2000, 40000, timer);
