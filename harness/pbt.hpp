// A small property-based testing engine with internal (choice-sequence) shrinking.
//
// A property is a function `void prop(pbt::Source &s)`. Everything random in it comes from s.draw()/s.range()/...,
// each of which records one integer "choice" (0 = simplest). A case is thus fully described by its choice sequence:
// the sequence is what is shrunk, and what is written to the replay file.
//
//  * case i of sub-property p under seed S is a pure function of (S, p, i): independent of the number of workers;
//  * cases run in forked worker processes, with choices recorded in shared memory as they are made, so a crash, a
//    sanitizer report, an assertion failure or a hang (CPU time, not wall clock) is attributed to its case;
//  * a failure is shrunk (delete blocks, zero, halve, decrement), re-run in a fresh process per attempt, accepted only if
//    it fails with the same tag, replayed three times, and only then reported.
#pragma once
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Failure {
  std::string tag, msg;
};
struct Discard {};

inline uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ull;
  }
  return h;
}
inline uint64_t hash_mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  return h * 0xff51afd7ed558ccdull;
}

constexpr size_t kMaxChoices = 1u << 20;
constexpr size_t kMsgLen = 16384;

// Shared between a worker and the parent.
struct Slot {
  volatile uint64_t caseno;
  volatile uint64_t cpu_at_start_ns;  // worker CPU time when the case began
  volatile uint64_t wall_at_start_ns;
  volatile int running;               // a case is in progress
  volatile int failed;                // 1: failure recorded in tag/msg
  volatile uint64_t cases_done;
  char tag[256];
  char msg[kMsgLen];
  volatile uint64_t nchoices;
  uint64_t choices[kMaxChoices];
};

class Source {
 public:
  bool verbose = false;
  // random mode
  uint64_t rng = 0;
  bool random_mode = false;
  // replay mode
  const uint64_t *rep = nullptr;
  size_t rep_n = 0, rep_pos = 0;
  // byte mode (libFuzzer)
  const uint8_t *bytes = nullptr;
  size_t bytes_n = 0;
  // record
  Slot *slot = nullptr;
  std::vector<uint64_t> own;
  uint64_t hash = 0x1234567;
  std::string notes;
  std::string notes_file;  // kept up to date, so that a crash does not lose the notes
  bool is_nontrivial = false;
  std::vector<std::string> labels;
  uint64_t size_hint = 0;  // grows with case number: 0..100

  uint64_t draw(uint64_t n) {  // uniform in [0,n), n>=1
    if (n == 0) n = 1;
    uint64_t v = 0;
    if (random_mode) {
      v = n == 1 ? 0 : splitmix(rng) % n;
    } else if (rep) {
      if (rep_pos < rep_n) {
        v = rep[rep_pos++];
        if (v >= n) v = n - 1;
      }
    } else if (bytes_n) {
      int need = n <= 1 ? 0 : n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ull << 32) ? 4 : 8;
      for (int i = 0; i < need; i++)
        if (bytes_n) {
          v = (v << 8) | *bytes++;
          bytes_n--;
        }
      v %= n;
    }
    record(v);
    return v;
  }
  void record(uint64_t v) {
    hash = hash_mix(hash, v);
    if (slot) {
      uint64_t k = slot->nchoices;
      if (k < kMaxChoices) {
        slot->choices[k] = v;
        slot->nchoices = k + 1;
      } else {
        throw Discard{};
      }
    } else {
      own.push_back(v);
    }
  }
  int64_t range(int64_t lo, int64_t hi) {  // inclusive; shrinks to lo
    return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo) + 1));
  }
  bool coin(unsigned num = 1, unsigned den = 2) {  // shrinks to false
    return draw(den) >= den - num;
  }
  double unit() {  // [0,1)
    return static_cast<double>(draw(1u << 20)) / static_cast<double>(1u << 20);
  }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  template <class T>
  const T &pick(const std::vector<T> &v) {
    return v[draw(v.size())];
  }
  template <class T>
  T pick(std::initializer_list<T> v) {
    return *(v.begin() + draw(v.size()));
  }
  // index picked with the given weights; shrinks to index 0
  size_t weighted(std::initializer_list<unsigned> w) {
    unsigned tot = 0;
    for (auto x : w) tot += x;
    uint64_t r = draw(tot);
    size_t i = 0;
    for (auto x : w) {
      if (r < x) return i;
      r -= x;
      i++;
    }
    return 0;
  }
  void label(const std::string &l) { labels.push_back(l); }
  void label(bool c, const std::string &l) {
    if (c) labels.push_back(l);
  }
  void nontrivial(bool c = true) {
    if (c) is_nontrivial = true;
  }
  template <class... A>
  void note(const A &...a) {
    if (!verbose) return;
    std::ostringstream o;
    o.precision(17);
    (o << ... << a);
    notes += o.str();
    notes += '\n';
    if (notes.size() > 200000) notes.resize(200000);
    if (!notes_file.empty())
      if (FILE *fp = fopen(notes_file.c_str(), "wb")) {
        fwrite(notes.data(), 1, notes.size(), fp);
        fclose(fp);
      }
  }
};

[[noreturn]] inline void fail(const std::string &tag, const std::string &msg) { throw Failure{tag, msg}; }

template <class... A>
std::string str(const A &...a) {
  std::ostringstream o;
  o.precision(17);
  (o << ... << a);
  return o.str();
}

// PBT_CHECK(cond, "tag", message pieces...)
#define PBT_CHECK(cond, tag, ...)                                    \
  do {                                                               \
    if (!(cond)) ::pbt::fail((tag), ::pbt::str("", ##__VA_ARGS__)); \
  } while (0)

struct Property {
  std::string name;
  uint64_t quick, thorough;  // number of cases
  std::function<void(Source &)> fn;
  double cpu_limit_s;  // per case: beyond it the case is a hang
  int max_workers;
};
inline std::vector<Property> &registry() {
  static std::vector<Property> r;
  return r;
}
struct Registrar {
  Registrar(const char *name, uint64_t q, uint64_t t, std::function<void(Source &)> f, double cpu = 60, int mw = 0) {
    registry().push_back({name, q, t, std::move(f), cpu, mw});
  }
};
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_PROP(name, quick, thorough, ...) \
  static ::pbt::Registrar PBT_CAT(pbt_reg_, __COUNTER__)(name, quick, thorough, __VA_ARGS__)

// Extra text lines for the evidence and KNOWN-FINDING lines (see known())
struct Known {
  std::string id, what;
  std::function<bool()> still;  // true: the recorded finding still fails
};
inline std::vector<Known> &knowns() {
  static std::vector<Known> k;
  return k;
}
struct KnownRegistrar {
  KnownRegistrar(const char *id, const char *what, std::function<bool()> f) { knowns().push_back({id, what, std::move(f)}); }
};

inline std::vector<std::string> &assumptions() {
  static std::vector<std::string> a;
  return a;
}
inline std::string &rule() {
  static std::string r;
  return r;
}
// Run once in each worker before its first case
inline std::vector<std::function<void()>> &worker_inits() {
  static std::vector<std::function<void()>> v;
  return v;
}
struct InitRegistrar {
  InitRegistrar(std::function<void()> f) { worker_inits().push_back(std::move(f)); }
};
struct RuleRegistrar {
  RuleRegistrar(const char *r, std::initializer_list<const char *> as = {}) {
    if (!rule().empty()) return;
    rule() = r;
    for (auto a : as) assumptions().push_back(a);
  }
};

inline uint64_t now_ns(clockid_t c) {
  timespec ts;
  clock_gettime(c, &ts);
  return uint64_t(ts.tv_sec) * 1000000000ull + ts.tv_nsec;
}
inline double wall() {
  static const uint64_t t0 = now_ns(CLOCK_MONOTONIC);
  return (now_ns(CLOCK_MONOTONIC) - t0) / 1e9;
}

inline std::string &scratch() {  // directory removed at exit
  static std::string s;
  return s;
}
inline int &worker_id() {
  static int w = 0;
  return w;
}
// A scratch directory of this worker
inline std::string worker_dir() {
  std::string d = scratch() + "/w" + std::to_string(worker_id());
  mkdir(d.c_str(), 0777);
  return d;
}

// Runs one case in this process. Returns true if ok; otherwise fills tag and msg.
inline bool run_one(const Property &p, Source &s, std::string &tag, std::string &msg, bool &discarded) {
  discarded = false;
  try {
    p.fn(s);
    return true;
  } catch (const Failure &f) {
    tag = f.tag;
    msg = f.msg;
  } catch (const Discard &) {
    discarded = true;
    return true;
  } catch (const std::exception &e) {
    tag = "unexpected-exception";
    msg = e.what();
  } catch (...) {
    tag = "unexpected-exception";
    msg = "(not a std::exception)";
  }
  return false;
}

inline uint64_t case_seed(uint64_t seed, const std::string &name, uint64_t i) {
  uint64_t x = hash_mix(hash_mix(hash_str(name), seed), i);
  splitmix(x);
  return x;
}

inline Slot *new_slot() {
  void *m = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) {
    perror("mmap");
    _exit(3);
  }
  return static_cast<Slot *>(m);
}

inline void record_failure(Slot *sl, const std::string &tag, const std::string &msg) {
  snprintf(sl->tag, sizeof sl->tag, "%s", tag.c_str());
  snprintf(sl->msg, sizeof sl->msg, "%s", msg.c_str());
  sl->failed = 1;
}

inline std::string slurp(const std::string &f, size_t max = 1 << 20) {
  std::string r;
  FILE *fp = fopen(f.c_str(), "rb");
  if (!fp) return r;
  char buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, fp)) > 0 && r.size() < max) r.append(buf, n);
  fclose(fp);
  return r;
}

// The interesting lines of a captured stderr (sanitizer report or assertion)
inline std::string crash_summary(const std::string &err, std::string &kind) {
  std::istringstream is(err);
  std::string l, out, summary;
  kind = "crash";
  int frames = 0;
  while (std::getline(is, l)) {
    if (l.size() > 400) l.resize(400);
    if (l.find("ERROR: AddressSanitizer: ") != std::string::npos) {
      std::string k = l.substr(l.find("AddressSanitizer: ") + 18);
      kind = "asan-" + k.substr(0, k.find_first_of(" :"));
      out += l + "\n";
    } else if (l.find("WARNING: ThreadSanitizer: ") != std::string::npos) {
      kind = l.find("data race") != std::string::npos ? "race" : "tsan";
      out += l + "\n";
    } else if (l.find("OpenMP deadlock") != std::string::npos) {
      kind = "deadlock";
      out += l + "\n";
    } else if (l.find("runtime error:") != std::string::npos) {
      kind = "ubsan";
      out += l + "\n";
    } else if (l.find("Assertion") != std::string::npos || l.find("assertion") != std::string::npos) {
      kind = "assert";
      out += l + "\n";
    } else if (l.find("terminate called") != std::string::npos || l.find("what():") != std::string::npos) {
      out += l + "\n";
    } else if (l.find("    #") == 0 && frames < 12) {
      out += l + "\n";
      frames++;
    }
  }
  return out;
}

inline void child_setup(int wid) {
  worker_id() = wid;
  setpgid(0, 0);
  std::string ef = scratch() + "/stderr." + std::to_string(wid);
  int fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
  if (fd >= 0) {
    dup2(fd, 2);
    dup2(fd, 1);
    close(fd);
  }
  std::cerr.setstate(std::ios::badbit);
  std::cout.setstate(std::ios::badbit);
  std::clog.setstate(std::ios::badbit);
  setenv("PBT_WORKER", std::to_string(wid).c_str(), 1);
  for (auto &f : worker_inits()) f();
}

// The child's stderr grows with what the code under test prints with printf; keep it small.
inline void trim_stderr() {
  struct stat st;
  if (fstat(2, &st) == 0 && st.st_size > (4 << 20)) {
    if (ftruncate(2, 0) == 0) lseek(2, 0, SEEK_SET);
  }
}

struct Attempt {
  bool failed = false;
  std::string tag, msg, notes;
  std::vector<uint64_t> choices;
  bool nontrivial = false;
};

inline uint64_t proc_cpu_ns(pid_t pid) {
  clockid_t c;
  if (clock_getcpuclockid(pid, &c) != 0) return 0;
  timespec ts;
  if (clock_gettime(c, &ts) != 0) return 0;
  return uint64_t(ts.tv_sec) * 1000000000ull + ts.tv_nsec;
}

constexpr double kIdleHangS = 300;  // no CPU used and no progress for this long: give up on the worker

// Run one choice sequence in a fresh process.
inline Attempt attempt(const Property &p, const std::vector<uint64_t> *choices, uint64_t seed, bool verbose, double cpu_limit) {
  static Slot *sl = new_slot();
  sl->failed = 0;
  sl->nchoices = 0;
  sl->running = 1;
  sl->cases_done = 0;
  const int wid = 100;
  std::string nf = scratch() + "/notes";
  unlink(nf.c_str());
  pid_t pid = fork();
  if (pid == 0) {
    child_setup(wid);
    Source s;
    s.slot = sl;
    s.verbose = verbose;
    if (verbose) s.notes_file = nf;
    if (choices) {
      static const uint64_t zero = 0;
      s.rep = choices->empty() ? &zero : choices->data();
      s.rep_n = choices->size();
    } else {
      s.random_mode = true;
      s.rng = seed;
    }
    std::string tag, msg;
    bool disc = false;
    bool ok = run_one(p, s, tag, msg, disc);
    if (!ok) record_failure(sl, tag, msg);
    sl->cases_done = s.is_nontrivial ? 2 : 1;
    sl->running = 0;
    if (verbose) {
      FILE *fp = fopen(nf.c_str(), "wb");
      if (fp) {
        fwrite(s.notes.data(), 1, s.notes.size(), fp);
        fclose(fp);
      }
    }
    _exit(ok ? 0 : 1);
  }
  Attempt a;
  int st = 0;
  double t0 = wall(), last = t0;
  (void)last;
  while (true) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    double cpu = proc_cpu_ns(pid) / 1e9;
    if (cpu > cpu_limit || wall() - t0 > kIdleHangS + cpu_limit) {
      kill(-pid, SIGKILL);
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      a.failed = true;
      a.tag = "hang";
      a.msg = str("no result after ", cpu, " s of CPU time");
      break;
    }
    usleep(wall() - t0 < 0.05 ? 200 : 2000);
  }
  kill(-pid, SIGKILL);
  a.choices.assign(sl->choices, sl->choices + sl->nchoices);
  a.nontrivial = sl->cases_done == 2;
  if (verbose) a.notes = slurp(nf);
  if (a.failed) return a;
  if (sl->failed) {
    a.failed = true;
    a.tag = sl->tag;
    a.msg = sl->msg;
  } else if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
    a.failed = true;
    std::string kind, sum = crash_summary(slurp(scratch() + "/stderr." + std::to_string(wid)), kind);
    a.tag = kind;
    a.msg = str(WIFSIGNALED(st) ? "killed by signal " : "exit status ", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), "\n", sum);
  }
  return a;
}

inline bool simpler(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
}

inline std::vector<uint64_t> shrink(const Property &p, Attempt best, double budget_s, double cpu_limit, uint64_t &tries) {
  const double t_end = wall() + budget_s;
  const std::string tag = best.tag;
  std::vector<uint64_t> cur = best.choices;
  auto test = [&](const std::vector<uint64_t> &c) {
    if (wall() > t_end) return false;
    tries++;
    Attempt a = attempt(p, &c, 0, false, cpu_limit);
    if (a.failed && a.tag == tag) {
      // the sequence actually consumed (clamped) is canonical
      std::vector<uint64_t> n = a.choices;
      while (!n.empty() && n.back() == 0) n.pop_back();
      if (simpler(n, cur)) {
        cur = n;
        return true;
      }
    }
    return false;
  };
  while (!cur.empty() && cur.back() == 0) cur.pop_back();
  bool progress = true;
  while (progress && wall() < t_end) {
    progress = false;
    // truncate
    for (size_t k = 1; k < cur.size() && wall() < t_end; k *= 2) {
      auto c = cur;
      c.resize(cur.size() - std::min(k, cur.size()));
      if (test(c)) progress = true;
    }
    // delete and zero blocks
    for (size_t b = std::max<size_t>(1, cur.size() / 2);; b /= 2) {
      for (size_t i = 0; i < cur.size() && wall() < t_end;) {
        size_t e = std::min(cur.size(), i + b);
        auto c = cur;
        c.erase(c.begin() + i, c.begin() + e);
        if (test(c)) {
          progress = true;
          continue;
        }
        bool nz = false;
        c = cur;
        for (size_t k = i; k < e; k++) {
          nz |= c[k] != 0;
          c[k] = 0;
        }
        if (nz && test(c)) progress = true;
        i += b;
      }
      if (b <= 1) break;
    }
    // minimise values
    for (size_t i = 0; i < cur.size() && wall() < t_end; i++) {
      uint64_t lo = 0;
      while (i < cur.size() && cur[i] > lo && wall() < t_end) {
        auto c = cur;
        c[i] = lo + (cur[i] - lo) / 2;
        if (c[i] == cur[i]) break;
        if (test(c)) {
          progress = true;
        } else {
          lo = c[i] + 1;
        }
      }
    }
    // delete one element while lowering an earlier one (sizes)
    for (size_t i = 0; i < cur.size() && i < 12 && wall() < t_end; i++) {
      if (cur[i] == 0) continue;
      for (size_t j = i + 1; j < cur.size() && j < i + 200 && wall() < t_end; j++) {
        auto c = cur;
        c[i]--;
        c.erase(c.begin() + j);
        if (test(c)) {
          progress = true;
          break;
        }
      }
    }
  }
  return cur;
}

inline std::string json_escape(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o;
}

struct Stats {
  uint64_t evals = 0, discarded = 0, nontrivial = 0, distinct = 0, excluded = 0;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  std::vector<std::string> sub;  // JSON objects
};

struct Options {
  std::string property, tier = "quick", evidence, replay_dir, replay, only;
  uint64_t seed = 1;
  int workers = 8;
  double wall_cap = 600;
  double scale = 1;
};

inline bool write_replay(const std::string &path, const Property &p, const std::string &property, const Attempt &a, uint64_t seed, uint64_t caseno) {
  FILE *fp = fopen(path.c_str(), "wb");
  if (!fp) return false;
  fprintf(fp, "# pbt replay file; re-run it with: ./check %s --replay THIS_FILE\n", property.c_str());
  fprintf(fp, "property %s\nsubproperty %s\nseed %" PRIu64 "\ncase %" PRIu64 "\ntag %s\nchoices", property.c_str(), p.name.c_str(), seed, caseno, a.tag.c_str());
  for (auto c : a.choices) fprintf(fp, " %" PRIu64, c);
  fprintf(fp, "\n");
  std::istringstream is("failure: " + a.msg + "\n--- the generated case ---\n" + a.notes);
  std::string l;
  while (std::getline(is, l)) fprintf(fp, "# %s\n", l.c_str());
  fclose(fp);
  return true;
}

// Runs one sub-property. Returns true if a violation was found (fills out).
inline bool run_property(const Property &p, const Options &o, uint64_t ncases, double deadline, Stats &st, Attempt &bad, uint64_t &bad_case, bool &incomplete) {
  int W = o.workers;
  if (p.max_workers > 0) W = std::min(W, p.max_workers);
  W = std::max(1, std::min<int>(W, ncases));
  struct Worker {
    pid_t pid = 0;
    Slot *sl = nullptr;
    bool done = false;
    uint64_t next = 0;
  };
  std::vector<Worker> ws(W);
  const double t0 = wall();
  bool found = false;
  static std::vector<Slot *> slots;
  while ((int)slots.size() < W) slots.push_back(new_slot());
  static uint64_t serial = 0;
  serial++;
  auto start = [&](int w, uint64_t first) {
    Slot *sl = slots[w];
    ws[w].sl = sl;
    sl->failed = 0;
    sl->running = 0;
    sl->nchoices = 0;
    sl->cases_done = 0;
    sl->caseno = first;
    pid_t pid = fork();
    if (pid == 0) {
      child_setup(w);
      std::map<std::string, uint64_t> labels;
      std::unordered_set<uint64_t> hashes;
      uint64_t evals = 0, disc = 0, nontriv = 0;
      std::vector<uint64_t> sample_cases;
      bool ok = true;
      for (uint64_t i = first; i < ncases; i += W) {
        if (wall() > deadline) break;
        Source s;
        s.slot = sl;
        s.random_mode = true;
        s.rng = case_seed(o.seed, p.name, i);
        sl->caseno = i;
        sl->nchoices = 0;
        sl->cpu_at_start_ns = now_ns(CLOCK_PROCESS_CPUTIME_ID);
        sl->wall_at_start_ns = now_ns(CLOCK_MONOTONIC);
        sl->running = 1;
        std::string tag, msg;
        bool d = false;
        ok = run_one(p, s, tag, msg, d);
        sl->running = 0;
        if (!ok) {
          record_failure(sl, tag, msg);
          break;
        }
        sl->cases_done = sl->cases_done + 1;
        evals++;
        if (d) {
          disc++;
          continue;
        }
        for (auto &l : s.labels) labels[l]++;
        if (s.is_nontrivial) {
          nontriv++;
          hashes.insert(s.hash);
          if (sample_cases.size() < 2) sample_cases.push_back(i);
        }
        if ((evals & 63) == 0) trim_stderr();
      }
      std::string f = str(scratch(), "/stats.", serial, ".", w, ".", first);
      FILE *fp = fopen(f.c_str(), "wb");
      if (fp) {
        fprintf(fp, "%" PRIu64 " %" PRIu64 " %" PRIu64 " %zu %zu %zu\n", evals, disc, nontriv, labels.size(), hashes.size(), sample_cases.size());
        for (auto &kv : labels) fprintf(fp, "%" PRIu64 " %s\n", kv.second, kv.first.c_str());
        for (auto h : hashes) fprintf(fp, "%" PRIu64 "\n", h);
        for (auto h : sample_cases) fprintf(fp, "%" PRIu64 "\n", h);
        fclose(fp);
      }
      _exit(ok ? 0 : 1);
    }
    ws[w].pid = pid;
    ws[w].done = false;
  };
  for (int w = 0; w < W; w++) start(w, w);
  int live = W;
  std::vector<std::pair<uint64_t, Attempt>> fails;
  while (live > 0) {
    bool any = false;
    for (int w = 0; w < W; w++) {
      if (ws[w].done) continue;
      int s = 0;
      pid_t r = waitpid(ws[w].pid, &s, WNOHANG);
      Slot *sl = ws[w].sl;
      Attempt a;
      if (r == ws[w].pid) {
        any = true;
        ws[w].done = true;
        live--;
        kill(-ws[w].pid, SIGKILL);
        if (sl->failed) {
          a.failed = true;
          a.tag = sl->tag;
          a.msg = sl->msg;
        } else if (!WIFEXITED(s) || WEXITSTATUS(s) != 0) {
          a.failed = true;
          std::string kind, sum = crash_summary(slurp(scratch() + "/stderr." + std::to_string(w)), kind);
          a.tag = kind;
          a.msg = str(WIFSIGNALED(s) ? "killed by signal " : "exit status ", WIFSIGNALED(s) ? WTERMSIG(s) : WEXITSTATUS(s), "\n", sum);
        }
      } else if (sl->running) {
        uint64_t c0 = sl->cpu_at_start_ns, i0 = sl->caseno, w0 = sl->wall_at_start_ns;
        double cpu = (double(proc_cpu_ns(ws[w].pid)) - double(c0)) / 1e9;
        double wl = (now_ns(CLOCK_MONOTONIC) - w0) / 1e9;
        if (sl->caseno == i0 && sl->cpu_at_start_ns == c0 && sl->running && (cpu > p.cpu_limit_s || wl > kIdleHangS + p.cpu_limit_s)) {
          kill(-ws[w].pid, SIGKILL);
          kill(ws[w].pid, SIGKILL);
          waitpid(ws[w].pid, &s, 0);
          ws[w].done = true;
          live--;
          a.failed = true;
          a.tag = "hang";
          a.msg = str("no result after ", cpu, " s of CPU time (", wl, " s of wall time)");
        }
      }
      if (a.failed) {
        a.choices.assign(sl->choices, sl->choices + sl->nchoices);
        fails.push_back({sl->caseno, a});
        found = true;
        // stop the others
        for (int v = 0; v < W; v++)
          if (!ws[v].done) {
            kill(-ws[v].pid, SIGKILL);
            kill(ws[v].pid, SIGKILL);
            waitpid(ws[v].pid, &s, 0);
            ws[v].done = true;
            live--;
            if (ws[v].sl->failed) {
              Attempt b;
              b.failed = true;
              b.tag = ws[v].sl->tag;
              b.msg = ws[v].sl->msg;
              b.choices.assign(ws[v].sl->choices, ws[v].sl->choices + ws[v].sl->nchoices);
              fails.push_back({ws[v].sl->caseno, b});
            }
          }
      }
    }
    if (!any) usleep(2000);
  }
  // merge statistics
  std::unordered_set<uint64_t> hashes;
  std::vector<uint64_t> sample_cases;
  uint64_t evals = 0, disc = 0, nt = 0;
  std::map<std::string, uint64_t> labels;
  for (int w = 0; w < W; w++) {
    std::string f = str(scratch(), "/stats.", serial, ".", w, ".", w);
    FILE *fp = fopen(f.c_str(), "rb");
    if (!fp) {
      evals += ws[w].sl ? ws[w].sl->cases_done : 0;
      continue;
    }
    uint64_t e, d, n;
    size_t nl, nh, ns;
    if (fscanf(fp, "%" SCNu64 " %" SCNu64 " %" SCNu64 " %zu %zu %zu\n", &e, &d, &n, &nl, &nh, &ns) == 6) {
      evals += e;
      disc += d;
      nt += n;
      char buf[4096];
      for (size_t i = 0; i < nl; i++) {
        uint64_t c;
        if (fscanf(fp, "%" SCNu64 " %4000[^\n]\n", &c, buf) == 2) labels[buf] += c;
      }
      for (size_t i = 0; i < nh; i++) {
        uint64_t h;
        if (fscanf(fp, "%" SCNu64 "\n", &h) == 1) hashes.insert(h);
      }
      for (size_t i = 0; i < ns; i++) {
        uint64_t h;
        if (fscanf(fp, "%" SCNu64 "\n", &h) == 1) sample_cases.push_back(h);
      }
    }
    fclose(fp);
    unlink(f.c_str());
  }
  incomplete = !found && evals < ncases;
  st.evals += evals;
  st.discarded += disc;
  st.nontrivial += nt;
  st.distinct += hashes.size();
  for (auto &kv : labels) st.labels[p.name + ": " + kv.first] += kv.second;
  std::sort(sample_cases.begin(), sample_cases.end());
  for (size_t i = 0; i < sample_cases.size() && i < 2; i++) {
    Attempt a = attempt(p, nullptr, case_seed(o.seed, p.name, sample_cases[i]), true, p.cpu_limit_s);
    std::string n = a.notes;
    if (n.size() > 1500) n = n.substr(0, 1500) + "...";
    st.samples.push_back(str("{\"subproperty\": \"", json_escape(p.name), "\", \"case\": ", sample_cases[i], ", \"input\": \"", json_escape(n), "\"}"));
  }
  st.sub.push_back(str("{\"name\": \"", json_escape(p.name), "\", \"evaluations\": ", evals, ", \"discarded\": ", disc, ", \"nontrivial\": ", nt, ", \"distinct_nontrivial\": ", hashes.size(),
                       ", \"complete\": ", incomplete ? "false" : "true", ", \"wall_s\": ", (int)((wall() - t0) * 100) / 100.0, "}"));
  fprintf(stderr, "[%s] %s: %" PRIu64 " cases, %" PRIu64 " nontrivial, %zu distinct, %.1fs%s\n", o.property.c_str(), p.name.c_str(), evals, nt, hashes.size(), wall() - t0,
          incomplete ? " (wall cap reached)" : "");
  if (getenv("PBT_LABELS"))
    for (auto &kv : labels) fprintf(stderr, "      %7" PRIu64 " %s\n", kv.second, kv.first.c_str());
  if (found) {
    // prefer a failure with a message over a crash, and the shortest
    auto it = std::min_element(fails.begin(), fails.end(), [](const auto &a, const auto &b) { return a.second.choices.size() < b.second.choices.size(); });
    bad = it->second;
    bad_case = it->first;
  }
  return found;
}

inline bool read_replay(const std::string &file, std::string &sub, std::vector<uint64_t> &choices) {
  std::istringstream is(slurp(file, 64 << 20));
  std::string l;
  bool ok = false;
  while (std::getline(is, l)) {
    if (l.rfind("subproperty ", 0) == 0) sub = l.substr(12);
    if (l.rfind("choices", 0) == 0) {
      std::istringstream c(l.substr(7));
      uint64_t v;
      while (c >> v) choices.push_back(v);
      ok = true;
    }
  }
  return ok;
}

inline void rm_scratch(const std::string &d) {
  // only ever a directory this process created with mkdtemp
  if (d.find("/pbt.") == std::string::npos) return;
  pid_t pid = fork();
  if (pid == 0) {
    execl("/bin/rm", "rm", "-rf", "--", d.c_str(), (char *)nullptr);
    _exit(1);
  }
  int s;
  waitpid(pid, &s, 0);
}

inline int main_impl(int argc, char **argv) {
  wall();
  Options o;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--property") o.property = next();
    else if (a == "--tier") o.tier = next();
    else if (a == "--seed") o.seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--evidence") o.evidence = next();
    else if (a == "--replay-dir") o.replay_dir = next();
    else if (a == "--replay") o.replay = next();
    else if (a == "--only") o.only = next();
    else if (a == "--workers") o.workers = atoi(next().c_str());
    else if (a == "--cap") o.wall_cap = atof(next().c_str());
    else if (a == "--scale") o.scale = atof(next().c_str());
    else {
      fprintf(stderr, "unknown option %s\n", a.c_str());
      return 3;
    }
  }
  const char *td = getenv("PBT_TMP");
  std::string tmpl = std::string(td ? td : "/tmp") + "/pbt.XXXXXX";
  std::vector<char> tb(tmpl.begin(), tmpl.end());
  tb.push_back(0);
  if (!mkdtemp(tb.data())) {
    perror("mkdtemp");
    return 3;
  }
  scratch() = tb.data();
  signal(SIGPIPE, SIG_IGN);

  int rc = 0;
  if (!o.replay.empty()) {
    std::string sub;
    std::vector<uint64_t> ch;
    if (!read_replay(o.replay, sub, ch)) {
      fprintf(stderr, "cannot read the replay file %s\n", o.replay.c_str());
      rm_scratch(scratch());
      return 3;
    }
    rc = 3;
    for (auto &p : registry())
      if (p.name == sub) {
        Attempt a = attempt(p, &ch, 0, true, p.cpu_limit_s);
        printf("%s\n", a.notes.c_str());
        if (a.failed) {
          printf("FAILS: tag=%s\n%s\n", a.tag.c_str(), a.msg.c_str());
          printf("VIOLATION property=%s replay=%s\n", o.property.c_str(), o.replay.c_str());
          rc = 1;
        } else {
          printf("passes\n");
          rc = 0;
        }
      }
    rm_scratch(scratch());
    return rc;
  }

  Stats st;
  int violations = 0;
  std::string note_unrepro;
  std::vector<std::string> known_lines;
  uint64_t total_q = 0;
  for (auto &p : registry()) total_q += o.tier == "thorough" ? p.thorough : p.quick;
  for (size_t pi = 0; pi < registry().size(); pi++) {
    auto &p = registry()[pi];
    if (!o.only.empty() && p.name.find(o.only) == std::string::npos) continue;
    uint64_t n = (o.tier == "thorough" ? p.thorough : p.quick) * o.scale;
    if (n == 0) continue;
    // remaining wall time shared equally among the remaining sub-properties
    double left = o.wall_cap - wall();
    double deadline = wall() + std::max(5.0, left / double(registry().size() - pi));
    Attempt bad;
    uint64_t bc = 0;
    bool inc = false;
    if (run_property(p, o, n, deadline, st, bad, bc, inc)) {
      fprintf(stderr, "[%s] %s: case %" PRIu64 " fails: %s\n%s\n", o.property.c_str(), p.name.c_str(), bc, bad.tag.c_str(), bad.msg.substr(0, 600).c_str());
      double lim = bad.tag == "hang" ? p.cpu_limit_s : p.cpu_limit_s;
      // reproduce
      int rep = 0;
      Attempt a;
      for (int k = 0; k < 3; k++) {
        a = attempt(p, &bad.choices, 0, false, lim);
        if (a.failed) rep++;
      }
      std::vector<uint64_t> ch = bad.choices;
      uint64_t tries = 0;
      if (rep == 3) {
        bad.tag = a.tag;
        ch = shrink(p, bad, bad.tag == "hang" ? 60 : 45, lim, tries);
      }
      Attempt fin = attempt(p, &ch, 0, true, lim);
      int rep2 = 0;
      for (int k = 0; k < 3; k++)
        if (attempt(p, &ch, 0, false, lim).failed) rep2++;
      if (!fin.failed || rep2 < 3) {
        // the shrunk case is not stable: fall back to the original
        ch = bad.choices;
        fin = attempt(p, &ch, 0, true, lim);
        rep2 = rep;
      }
      if (rep2 == 0 && !fin.failed) {
        // Not reproducible in three fresh processes (for instance a data race): try harder before believing it.
        for (int k = 0; k < 40 && !fin.failed; k++) fin = attempt(p, &ch, 0, true, lim);
      }
      if (!fin.failed) {
        fprintf(stderr, "[%s] %s: case %" PRIu64 " did not fail again in 43 fresh runs; not reported\n", o.property.c_str(), p.name.c_str(), bc);
        note_unrepro += str(p.name, " case ", bc, " tag ", bad.tag, "; ");
        continue;
      }
      mkdir(o.replay_dir.c_str(), 0777);
      std::string sn = p.name;
      for (auto &c : sn)
        if (!isalnum((unsigned char)c)) c = '_';
      std::string path = str(o.replay_dir, "/", o.property, ".", sn, ".", o.seed, ".replay");
      fin.choices = ch;
      write_replay(path, p, o.property, fin, o.seed, bc);
      fprintf(stderr, "[%s] shrunk to %zu choices in %" PRIu64 " runs: %s\n%s\n%s\n", o.property.c_str(), ch.size(), tries, fin.tag.c_str(), fin.msg.substr(0, 1200).c_str(), fin.notes.substr(0, 1500).c_str());
      printf("VIOLATION property=%s replay=%s\n", o.property.c_str(), path.c_str());
      fflush(stdout);
      violations++;
      if (violations >= 3) break;
    }
  }
  // the recorded findings
  for (auto &k : knowns()) {
    Property kp{"known:" + k.id, 1, 1, [&](Source &) {
                  if (k.still()) fail("known", "still fails");
                },
                60, 1};
    Attempt a = attempt(kp, nullptr, 1, false, 60);
    if (a.failed) {
      printf("KNOWN-FINDING: property=%s %s: %s\n", o.property.c_str(), k.id.c_str(), k.what.c_str());
      known_lines.push_back(k.id);
    } else {
      fprintf(stderr, "[%s] known finding %s no longer occurs\n", o.property.c_str(), k.id.c_str());
    }
  }
  fflush(stdout);
  if (!o.evidence.empty()) {
    FILE *fp = fopen(o.evidence.c_str(), "wb");
    if (!fp) {
      perror("evidence");
      rm_scratch(scratch());
      return 3;
    }
    fprintf(fp, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %" PRIu64 ",\n \"level\": \"exploration\",\n", o.property.c_str(), o.tier.c_str(), o.seed);
    fprintf(fp, " \"coverage\": {\n  \"evaluations\": %" PRIu64 ",\n  \"distinct_nontrivial\": %" PRIu64 ",\n  \"nontrivial\": %" PRIu64 ",\n  \"discarded\": %" PRIu64 ",\n  \"rule\": \"%s\",\n", st.evals,
            st.distinct, st.nontrivial, st.discarded, json_escape(rule()).c_str());
    fprintf(fp, "  \"subproperties\": [");
    for (size_t i = 0; i < st.sub.size(); i++) fprintf(fp, "%s\n   %s", i ? "," : "", st.sub[i].c_str());
    fprintf(fp, "],\n  \"distribution\": {");
    bool first = true;
    for (auto &kv : st.labels) {
      fprintf(fp, "%s\n   \"%s\": %" PRIu64, first ? "" : ",", json_escape(kv.first).c_str(), kv.second);
      first = false;
    }
    fprintf(fp, "},\n  \"known_findings\": [");
    for (size_t i = 0; i < known_lines.size(); i++) fprintf(fp, "%s\"%s\"", i ? ", " : "", json_escape(known_lines[i]).c_str());
    fprintf(fp, "],\n  \"unreproduced\": \"%s\",\n  \"samples\": [", json_escape(note_unrepro).c_str());
    for (size_t i = 0; i < st.samples.size(); i++) fprintf(fp, "%s\n   %s", i ? "," : "", st.samples[i].c_str());
    fprintf(fp, "]\n },\n \"assumptions\": [");
    for (size_t i = 0; i < assumptions().size(); i++) fprintf(fp, "%s\"%s\"", i ? ", " : "", json_escape(assumptions()[i]).c_str());
    fprintf(fp, "],\n \"violations\": %d,\n \"wall_s\": %.2f\n}\n", violations, wall());
    fclose(fp);
  }
  if (violations) rc = 1;
  else if (st.evals == 0 && o.only.empty()) rc = 3;
  rm_scratch(scratch());
  return rc;
}

}  // namespace pbt
