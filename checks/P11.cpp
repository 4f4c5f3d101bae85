// P11: random numbers and what is generated from them: reproducibility, ranges, distributions, Perlin terrain
#include <omp.h>
#include <richdem/common/random.hpp>
#include <richdem/methods/flow_accumulation.hpp>
#include <richdem/terrain_generation.hpp>
#include "gen.hpp"
using namespace richdem;
using namespace gen;

static pbt::RuleRegistrar rr("cases: operation sequences on the generator after seeding (integers, reals, Gaussians, raw bits, saving and restoring, 1 to 8 threads), frequency experiments, Perlin rasters of every size and seed; non-trivial: at least two draws, or a raster wider than one cell",
                             {"statistical comparisons use bounds of at least six standard deviations"});

struct Op {
  int kind;
  int a, b;
};
static Op draw_op(pbt::Source &s) {
  Op o;
  o.kind = s.draw(7);
  o.a = s.pick({0, -5, 3, -1000000, INT_MIN});
  o.b = s.pick({0, 1, 7, 1000000, INT_MAX});
  if (o.b < o.a) std::swap(o.a, o.b);
  return o;
}
static std::string run_op(const Op &o) {
  char buf[80];
  if (o.kind == 0 || o.kind == 5) {
    int v = uniform_rand_int(o.a, o.b);
    PBT_CHECK(v >= o.a && v <= o.b, "int-range", v, " is not in [", o.a, ",", o.b, "]");
    snprintf(buf, 80, "i%d", v);
  } else if (o.kind == 1) {
    double lo = o.a, hi = o.b;
    double v = uniform_rand_real(lo, hi);
    PBT_CHECK(v >= lo && (v < hi || lo == hi || v == hi), "real-range", v, " is not in [", lo, ",", hi, ")");
    snprintf(buf, 80, "r%a", v);
  } else if (o.kind == 2 || o.kind == 6) {
    snprintf(buf, 80, "n%a", normal_rand(o.a % 100, 1 + std::abs(o.b % 50)));
  } else if (o.kind == 3) {
    snprintf(buf, 80, "b%llu", (unsigned long long)uniform_bits<uint64_t>());
  } else {
    snprintf(buf, 80, "s%d", (int)uniform_bits<int16_t>());
  }
  return buf;
}
static uint64_t draw_seed(pbt::Source &s) {
  return s.coin() ? 1 + s.draw(1000) : 1 + s.draw(4000000000u);
}

// the same seed gives the same draws; restoring a saved state repeats what followed it
static void sequence(pbt::Source &s) {
  omp_set_num_threads(1);
  uint64_t seed = draw_seed(s);
  int n = s.range(1, 12);
  std::vector<Op> ops;
  for (int i = 0; i < n; i++) ops.push_back(draw_op(s));
  int cut = s.range(0, n);
  int before = s.range(0, 3);  // draws before seeding must not matter
  s.nontrivial(n >= 2);
  s.note("seed ", seed, ", ", n, " draws, saved after ", cut);
  for (int i = 0; i < before; i++) run_op(ops[0]);
  seed_rand(seed);
  std::vector<std::string> a;
  RandomEngineState st;
  for (int i = 0; i < n; i++) {
    if (i == cut) st = SaveRandomState();
    a.push_back(run_op(ops[i]));
  }
  for (int i = 0; i < before; i++) run_op(ops[n - 1]);
  seed_rand(seed);
  for (int i = 0; i < n; i++) {
    auto v = run_op(ops[i]);
    PBT_CHECK(v == a[i], "seed-not-reproducible", "draw ", i, " was ", a[i], ", after seeding alike it is ", v);
  }
  if (st.empty()) return;
  int junk = s.range(0, 5);
  for (int i = 0; i < junk; i++) run_op(draw_op(s));
  if (s.coin()) seed_rand(seed + 1);
  SetRandomState(st);
  for (int i = cut; i < n; i++) {
    auto v = run_op(ops[i]);
    PBT_CHECK(v == a[i], "state-not-restored", "draw ", i, " was ", a[i], ", after restoring the state it is ", v);
  }
}

// different seeds, and different threads under one seed, give different streams
static void streams(pbt::Source &s) {
  uint64_t s1 = draw_seed(s), s2 = s.coin() ? s1 + s.range(1, 4) : draw_seed(s);
  int th = s.range(1, 8);
  if (s1 == s2) s2++;
  s.note("seeds ", s1, " ", s2, ", threads ", th);
  s.nontrivial();
  s.label(th > 1, "several threads");
  omp_set_dynamic(0);
  omp_set_num_threads(th);
  auto take = [&](uint64_t seed) {
    std::vector<std::vector<uint64_t>> r(th);
    seed_rand(seed);
#pragma omp parallel num_threads(th)
    {
      auto &v = r[omp_get_thread_num()];
      for (int i = 0; i < 6; i++) v.push_back(uniform_bits<uint64_t>());
    }
    return r;
  };
  auto a = take(s1), b = take(s2), c = take(s1), z1 = take(0), z2 = take(0);
  omp_set_num_threads(1);
  PBT_CHECK(a == c, "thread-streams-not-reproducible", "");
  std::set<std::vector<uint64_t>> all(a.begin(), a.end());
  PBT_CHECK((int)all.size() == th, "threads-share-a-stream", "");
  for (int t = 0; t < th; t++) {
    PBT_CHECK(a[t] != b[t], "seeds-share-a-stream", "thread ", t, " draws the same numbers under seeds ", s1, " and ", s2);
    PBT_CHECK(z1[t] != z2[t], "entropy-seed-repeats", "seeding with 0 twice gave thread ", t, " the same numbers");
  }
}

// moments and uniformity, with wide bounds
static void distribution(pbt::Source &s) {
  omp_set_num_threads(1);
  seed_rand(draw_seed(s));
  const int N = 4000;
  s.nontrivial();
  int kind = s.draw(3);
  if (kind == 0) {
    int lo = s.range(-1000, 1000), n = s.range(1, 20);
    s.note("integers ", lo, "..", lo + n - 1);
    std::vector<int> c(n);
    for (int i = 0; i < N; i++) {
      int v = uniform_rand_int(lo, lo + n - 1);
      PBT_CHECK(v >= lo && v < lo + n, "int-range", v);
      c[v - lo]++;
    }
    double p = 1.0 / n, sd = std::sqrt(N * p * (1 - p));
    for (int i = 0; i < n; i++) PBT_CHECK(std::abs(c[i] - N * p) <= 7 * sd + 1, "int-frequency", lo + i, " drawn ", c[i], " times of ", N, ", expected about ", N * p);
  } else {
    double m = 0, q = 0, a = s.range(-50, 50), b = kind == 1 ? a + s.range(1, 100) : s.range(1, 50);
    s.note(kind == 1 ? "reals " : "Gaussians ", a, " ", b);
    int low = 0;
    for (int i = 0; i < N; i++) {
      double v = kind == 1 ? uniform_rand_real(a, b) : normal_rand(a, b);
      if (kind == 1) PBT_CHECK(v >= a && v < b, "real-range", v);
      m += v;
      q += v * v;
      low += kind == 1 ? v < a + (b - a) / 4 : v < a - b;
    }
    m /= N;
    double sd = std::sqrt(q / N - m * m);
    double em = kind == 1 ? (a + b) / 2 : a, es = kind == 1 ? (b - a) / std::sqrt(12.0) : b, pl = kind == 1 ? 0.25 : 0.15866;
    PBT_CHECK(std::abs(m - em) < 7 * es / std::sqrt(N), "mean", m, ", expected ", em);
    PBT_CHECK(std::abs(sd - es) < 0.12 * es, "spread", sd, ", expected ", es);
    PBT_CHECK(std::abs(low - N * pl) < 7 * std::sqrt(N * pl * (1 - pl)), "quantile", low, " of ", N, ", expected ", N * pl);
  }
}

// The stochastic metrics choose with the probabilities their random factors imply, and repeat under the same seed
static void rho(pbt::Source &s) {
  omp_set_num_threads(1);
  bool r8 = s.coin();
  const int K = 400;
  Array2D<double> a(3 * K, 3, 1000);
  a.setNoData(-1);
  double dd = s.range(1, 20), dc = s.range(1, 20);
  int n1, n2;  // n1: the neighbour with a random factor
  if (r8) n1 = s.pick({2, 4, 6, 8}), n2 = s.pick({1, 3, 5, 7});
  else n1 = s.pick({3, 7}), n2 = s.pick({1, 5});
  s.note(r8 ? "Rho8" : "Rho4", " drops ", dd, " to ", n1, ", ", dc, " to ", n2);
  for (int k = 0; k < K; k++) {
    a(3 * k + 1, 1) = 500;
    a(3 * k + 1 + DX8[n1], 1 + DY8[n1]) = 500 - dd;
    a(3 * k + 1 + DX8[n2], 1 + DY8[n2]) = 500 - dc;
  }
  uint64_t seed = draw_seed(s);
  Array3D<float> p(a), p2(a);
  seed_rand(seed);
  r8 ? FM_Rho8(a, p) : FM_Rho4(a, p);
  seed_rand(seed);
  r8 ? FM_Rho8(a, p2) : FM_Rho4(a, p2);
  int c1 = 0, c2 = 0;
  for (int k = 0; k < K; k++) {
    for (int n = 0; n <= 8; n++) PBT_CHECK(p(3 * k + 1, 1, n) == p2(3 * k + 1, 1, n), "metric-not-reproducible", "cell ", k);
    c1 += p(3 * k + 1, 1, n1) > 0;
    c2 += p(3 * k + 1, 1, n2) > 0;
  }
  PBT_CHECK(c1 + c2 == K, "choice", c1, "+", c2);
  double e = r8 ? std::min(1.0, std::max(0.0, dd / dc - 1)) : 1 / (1 + dc / dd);
  s.nontrivial(e > 0 && e < 1);
  PBT_CHECK(std::abs(c1 - K * e) <= 6.5 * std::sqrt(K * e * (1 - e)) + 1, "choice-frequency", "chosen ", c1, " times of ", K, ", expected about ", K * e);
}

// Improved Perlin noise (Perlin 2002), permutation shuffled from the seed
static double perlin(const std::vector<int> &P, double x, double y, double z) {
  auto fl = [](double v) { return (int)std::floor(v); };
  int X = fl(x), Y = fl(y), Z = fl(z);
  double f[3] = {x - X, y - Y, z - Z};
  double sum = 0;
  for (int c = 0; c < 8; c++) {
    int i = c & 1, j = c >> 1 & 1, k = c >> 2 & 1;
    int h = P[(P[(P[(X + i) & 255] + Y + j) & 255] + Z + k) & 255] & 15;
    double d[3] = {f[0] - i, f[1] - j, f[2] - k};
    static const int g[16][3] = {{1, 1, 0}, {-1, 1, 0}, {1, -1, 0}, {-1, -1, 0}, {1, 0, 1}, {-1, 0, 1}, {1, 0, -1}, {-1, 0, -1}, {0, 1, 1}, {0, -1, 1}, {0, 1, -1}, {0, -1, -1}, {1, 1, 0}, {0, -1, 1}, {-1, 1, 0}, {0, -1, -1}};
    double w = 1, dot = 0;
    for (int a = 0; a < 3; a++) {
      double t = f[a], s = t * t * t * (t * (t * 6 - 15) + 10);
      w *= (a == 0 ? i : a == 1 ? j : k) ? s : 1 - s;
      dot += g[h][a] * d[a];
    }
    sum += w * dot;
  }
  return (sum + 1) / 2;
}
static void terrain(pbt::Source &s) {
  int n = s.range(1, 48), m = s.coin(1, 8) ? s.range(1, 48) : n;
  uint32_t seed = s.coin() ? s.draw(1000) : s.draw(4294967295u);
  s.note(n, "x", m, " seed ", seed);
  s.nontrivial(n > 1);
  Array2D<double> a(n, m, -7);
  bool threw = false;
  try {
    generate_perlin_terrain(a, seed);
  } catch (const std::runtime_error &) {
    threw = true;
  }
  PBT_CHECK(threw == (n != m), "non-square", "refused: ", threw);
  if (threw) return;
  std::vector<int> P(256);
  for (int i = 0; i < 256; i++) P[i] = i;
  std::default_random_engine e((unsigned)seed);
  std::shuffle(P.begin(), P.end(), e);
  Array2D<double> b(n, n, 3);
  generate_perlin_terrain(b, seed);
  for (int y = 0; y < n; y++)
    for (int x = 0; x < n; x++) {
      PBT_CHECK(a(x, y) == b(x, y), "terrain-not-reproducible", "(", x, ",", y, ")");
      double w = perlin(P, 10.0 * x / n, 10.0 * y / n, 0.8);
      PBT_CHECK(std::abs(a(x, y) - w) < 1e-9, "terrain", "(", x, ",", y, ") is ", a(x, y), ", Perlin noise is ", w);
    }
}
PBT_PROP("sequence", 20000, 400000, sequence);
PBT_PROP("streams", 600, 12000, streams);
PBT_PROP("distribution", 800, 16000, distribution);
PBT_PROP("rho", 1500, 30000, rho);
PBT_PROP("terrain", 2000, 40000, terrain);
