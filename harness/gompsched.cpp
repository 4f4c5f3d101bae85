// The part of libgomp's interface that GCC's code uses, for real threads of which exactly one runs at a time. Who runs
// is decided at every synchronisation (start, barrier, critical section, atomic operation, next chunk of a loop) by the
// choices of gompsched::set, so that a schedule replays. The hand-over itself is hidden from ThreadSanitizer: this file is
// compiled without it and uses relaxed atomics, and only what OpenMP orders is announced as ordered (hb_*).
// A race is then reported whatever the schedule, and a result that depends on the order of the threads shows.
#include "gompsched.hpp"
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <ctime>

extern "C" {
void __tsan_acquire(void *) __attribute__((weak));
void __tsan_release(void *) __attribute__((weak));
}
namespace {
void hb_acquire(void *p) {
  if (__tsan_acquire) __tsan_acquire(p);
}
void hb_release(void *p) {
  if (__tsan_release) __tsan_release(p);
}
constexpr auto RX = std::memory_order_relaxed;
constexpr int MAXT = 64;
enum State { RUN, DONE, BARRIER, LOCK };

struct Loop {  // one work-sharing construct
  long next = 0, end = 0, incr = 1, chunk = 1;
  int left = 0;
  bool single_taken = false;
};
struct Team {
  int n = 1;
  std::atomic<int> turn{0};
  State st[MAXT];
  void *wait_on[MAXT];
  int arrived = 0;
  std::vector<Loop *> loops;   // by the number of the construct
  size_t at[MAXT];             // the construct each thread is at
  char barrier_hb, end_hb;
  void *copy = nullptr;
  void (*fn)(void *);
  void *data;
};
int g_threads = 1;
std::vector<unsigned> g_choices{0};
size_t g_next = 0;
unsigned long g_switches = 0;
thread_local Team *team = nullptr;
thread_local int me = 0;
thread_local Loop *cur = nullptr;
thread_local Team *serial_team = nullptr;

struct Lock {
  std::atomic<int> held{0};
};
Lock g_critical, g_atomic;

void hand_over(Team *t, int next) {
  t->turn.store(next, RX);
  std::atomic_thread_fence(std::memory_order_seq_cst);
  syscall(SYS_futex, (int *)&t->turn, FUTEX_WAKE_PRIVATE, MAXT, nullptr, nullptr, 0);
}
void step(Team *t, int k) {  // let one of the runnable threads go on; returns when it is this one's turn
  int can[MAXT], n = 0;
  for (int i = 0; i < t->n; i++)
    if (t->st[i] == RUN || (t->st[i] == LOCK && !((Lock *)t->wait_on[i])->held.load(RX))) can[n++] = i;
  if (!n) {
    bool all = true;
    for (int i = 0; i < t->n; i++) all &= t->st[i] == DONE;
    if (all) {
      t->turn.store(-1, RX);
      return;
    }
    fprintf(stderr, "OpenMP deadlock: every thread of the team waits\n");
    abort();
  }
  int next = can[g_choices[g_next++ % g_choices.size()] % n];
  if (next != k) g_switches++;
  if (next != k) hand_over(t, next);
  else t->turn.store(next, RX);
}
void await(Team *t, int k) {
  int spins = 0;
  for (;;) {
    int now = t->turn.load(RX);
    if (now == k) break;
    if (++spins > 200) syscall(SYS_futex, (int *)&t->turn, FUTEX_WAIT_PRIVATE, now, nullptr, nullptr, 0);
  }
  std::atomic_thread_fence(std::memory_order_acquire);
}
void point() {  // another thread may go on here
  Team *t = team;
  if (!t || t->n == 1) return;
  std::atomic_thread_fence(std::memory_order_release);
  step(t, me);
  await(t, me);
}
void give_way() {  // another thread goes on here, if one can
  Team *t = team;
  if (!t || t->n == 1) return;
  int next = me;
  do next = (next + 1) % t->n;  // in turn, so that each gets on
  while (next != me && t->st[next] != RUN && !(t->st[next] == LOCK && !((Lock *)t->wait_on[next])->held.load(RX)));
  if (next == me) return;
  std::atomic_thread_fence(std::memory_order_release);
  g_switches++;
  hand_over(t, next);
  await(t, me);
}
void lock(Lock &l) {
  Team *t = team;
  if (t && t->n > 1) {
    point();
    while (l.held.load(RX)) {
      t->st[me] = LOCK, t->wait_on[me] = &l;
      std::atomic_thread_fence(std::memory_order_release);
      step(t, me);
      await(t, me);
      t->st[me] = RUN;
    }
  }
  l.held.store(1, RX);
  hb_acquire(&l);
}
void unlock(Lock &l) {
  hb_release(&l);
  l.held.store(0, RX);
  point();
}
void barrier() {
  Team *t = team;
  if (!t || t->n == 1) return;
  hb_release(&t->barrier_hb);
  if (++t->arrived == t->n) {
    t->arrived = 0;
    for (int i = 0; i < t->n; i++)
      if (t->st[i] == BARRIER) t->st[i] = RUN;
  } else
    t->st[me] = BARRIER;
  std::atomic_thread_fence(std::memory_order_release);
  step(t, me);
  await(t, me);
  hb_acquire(&t->barrier_hb);
}
struct Arg {
  Team *t;
  int k;
};
void *thread(void *p) {
  auto a = (Arg *)p;
  team = a->t, me = a->k, cur = nullptr;
  await(team, me);
  team->fn(team->data);
  hb_release(&team->end_hb);
  team->st[me] = DONE;
  std::atomic_thread_fence(std::memory_order_release);
  step(team, me);
  return nullptr;
}
Loop *enter(bool &first, Team *t, int k) {
  if (t->at[k] == t->loops.size()) t->loops.push_back(nullptr);
  auto &l = t->loops[t->at[k]++];
  first = !l;
  if (first) l = new Loop;
  return l;
}
Team *here() {
  if (team) return team;
  if (!serial_team) {
    serial_team = new Team;
    serial_team->at[0] = 0;
    serial_team->st[0] = RUN;
  }
  return serial_team;
}
bool next_chunk(long *a, long *b) {
  point();
  Loop *l = cur;
  if (l->incr > 0 ? l->next >= l->end : l->next <= l->end) return false;
  *a = l->next;
  long n = l->next + l->chunk * l->incr;
  if (l->incr > 0 ? n > l->end || n < l->next : n < l->end || n > l->next) n = l->end;
  *b = l->next = n;
  return true;
}
bool start_loop(long start, long end, long incr, long chunk, long *a, long *b) {
  bool first;
  cur = enter(first, here(), me);
  if (first) cur->next = start, cur->end = end, cur->incr = incr, cur->chunk = chunk > 0 ? chunk : 1;
  return next_chunk(a, b);
}
using ULL = unsigned long long;
bool next_ull(ULL *a, ULL *b) {
  long x, y;
  if (!next_chunk(&x, &y)) return false;
  *a = x, *b = y;
  return true;
}
bool start_ull(bool up, ULL start, ULL end, ULL incr, ULL chunk, ULL *a, ULL *b) {
  long x, y;
  (void)up;
  if (!start_loop(start, end, (long)incr, chunk, &x, &y)) return false;
  *a = x, *b = y;
  return true;
}
// a static schedule asked for by calls: contiguous blocks or chunks in turn (approximated by chunks on demand)
}  // namespace

namespace gompsched {
void set(int threads, const std::vector<unsigned> &choices) {
  g_threads = threads < 1 ? 1 : threads > MAXT ? MAXT : threads;
  g_choices = choices.empty() ? std::vector<unsigned>{0} : choices;
  g_next = 0;
}
unsigned long switches() { return g_switches; }
}  // namespace gompsched

extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) {
  if (n == 0) n = g_threads;
  if (team && team->n > 1) n = 1;  // nested regions have one thread
  if (n > MAXT) n = MAXT;
  Team *outer = team;
  int outer_me = me;
  Loop *outer_cur = cur;
  Team t;
  t.n = n, t.fn = fn, t.data = data;
  for (unsigned i = 0; i < n; i++) t.st[i] = RUN, t.at[i] = 0, t.wait_on[i] = nullptr;
  t.turn.store(-2, RX);
  pthread_t th[MAXT];
  Arg a[MAXT];
  for (unsigned i = 1; i < n; i++) {
    a[i] = {&t, (int)i};
    if (pthread_create(&th[i], nullptr, thread, &a[i])) {
      fprintf(stderr, "no thread\n");
      abort();
    }
  }
  team = &t, me = 0, cur = nullptr;
  if (n > 1) {
    step(&t, 0);
    await(&t, 0);
  }
  fn(data);
  if (n > 1) {
    t.st[0] = DONE;
    std::atomic_thread_fence(std::memory_order_release);
    step(&t, 0);
    for (unsigned i = 1; i < n; i++) pthread_join(th[i], nullptr);
    hb_acquire(&t.end_hb);
  }
  for (auto l : t.loops) delete l;
  team = outer, me = outer_me, cur = outer_cur;
}
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned n, unsigned flags) {
  fprintf(stderr, "task reductions are not supported\n");
  abort();
}
void GOMP_barrier() { barrier(); }
bool GOMP_barrier_cancel() {
  barrier();
  return false;
}
void GOMP_critical_start() { lock(g_critical); }
void GOMP_critical_end() { unlock(g_critical); }
void GOMP_critical_name_start(void **p) {
  static_assert(sizeof(Lock) <= sizeof(void *), "");
  lock(*(Lock *)p);
}
void GOMP_critical_name_end(void **p) { unlock(*(Lock *)p); }
void GOMP_atomic_start() { lock(g_atomic); }
void GOMP_atomic_end() { unlock(g_atomic); }
bool GOMP_single_start() {
  bool first;
  point();
  enter(first, here(), me);
  return first;
}
void *GOMP_single_copy_start() {
  bool first;
  Team *t = here();
  enter(first, t, me);
  if (first) return nullptr;
  barrier();
  void *r = t->copy;
  barrier();
  return r;
}
void GOMP_single_copy_end(void *d) {
  here()->copy = d;
  barrier();
  barrier();
}
#define LOOPS(NAME)                                                                                                                                                                             \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *a, long *b) { return start_loop(s, e, i, c, a, b); }                                                                     \
  bool GOMP_loop_##NAME##_next(long *a, long *b) { return next_chunk(a, b); }                                                                                                                  \
  bool GOMP_loop_ull_##NAME##_start(bool up, ULL s, ULL e, ULL i, ULL c, ULL *a, ULL *b) { return start_ull(up, s, e, i, c, a, b); }                                                            \
  bool GOMP_loop_ull_##NAME##_next(ULL *a, ULL *b) { return next_ull(a, b); }
LOOPS(static)
LOOPS(dynamic)
LOOPS(guided)
LOOPS(nonmonotonic_dynamic)
LOOPS(nonmonotonic_guided)
#define LOOPSR(NAME)                                                                                                                                                                            \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long *a, long *b) { return start_loop(s, e, i, 1, a, b); }                                                                             \
  bool GOMP_loop_##NAME##_next(long *a, long *b) { return next_chunk(a, b); }                                                                                                                  \
  bool GOMP_loop_ull_##NAME##_start(bool up, ULL s, ULL e, ULL i, ULL *a, ULL *b) { return start_ull(up, s, e, i, 1, a, b); }                                                                   \
  bool GOMP_loop_ull_##NAME##_next(ULL *a, ULL *b) { return next_ull(a, b); }
LOOPSR(runtime)
LOOPSR(nonmonotonic_runtime)
LOOPSR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { barrier(); }
bool GOMP_loop_end_cancel() {
  barrier();
  return false;
}
void GOMP_loop_end_nowait() {}
// parallel + loop in one call: the body asks for its chunks with _next
struct PL {
  void (*fn)(void *);
  void *data;
  long s, e, i, c;
};
static void pl(void *p) {
  auto q = (PL *)p;
  bool first;
  cur = enter(first, here(), me);
  if (first) cur->next = q->s, cur->end = q->e, cur->incr = q->i, cur->chunk = q->c > 0 ? q->c : 1;
  q->fn(q->data);
}
#define PLOOP(NAME)                                                                                                                     \
  void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) {                 \
    PL q{fn, d, s, e, i, c};                                                                                                            \
    GOMP_parallel(pl, &q, n, f);                                                                                                        \
  }
PLOOP(static)
PLOOP(dynamic)
PLOOP(guided)
PLOOP(nonmonotonic_dynamic)
PLOOP(nonmonotonic_guided)
#define PLOOPR(NAME)                                                                                                                    \
  void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) {                         \
    PL q{fn, d, s, e, i, 1};                                                                                                            \
    GOMP_parallel(pl, &q, n, f);                                                                                                        \
  }
PLOOPR(runtime)
PLOOPR(nonmonotonic_runtime)
PLOOPR(maybe_nonmonotonic_runtime)
// sections
unsigned GOMP_sections_next() {
  long a, b;
  return next_chunk(&a, &b) ? (unsigned)a : 0;
}
unsigned GOMP_sections_start(unsigned n) {
  long a, b;
  return start_loop(1, (long)n + 1, 1, 1, &a, &b) ? (unsigned)a : 0;
}
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned count, unsigned f) {
  PL q{fn, d, 1, (long)count + 1, 1, 1};
  GOMP_parallel(pl, &q, n, f);
}
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
// ordered loops run their chunks in turn only if asked one by one: not supported
// mutexes of the code under test (-Wl,--wrap): the one who waits lets the others go on
int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!team || team->n == 1) return __real_pthread_mutex_lock(m);
  point();
  int r;
  while ((r = pthread_mutex_trylock(m)) == EBUSY) give_way();
  return r;
}
int __real_pthread_mutex_unlock(pthread_mutex_t *m);
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  int r = __real_pthread_mutex_unlock(m);
  point();
  return r;
}
int omp_get_num_threads() { return team ? team->n : 1; }
int omp_get_thread_num() { return me; }
int omp_get_max_threads() { return g_threads; }
int omp_get_num_procs() { return g_threads; }
int omp_get_thread_limit() { return MAXT; }
int omp_in_parallel() { return team && team->n > 1; }
int omp_get_level() { return team != nullptr; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
void omp_set_num_threads(int n) { g_threads = n < 1 ? 1 : n > MAXT ? MAXT : n; }
double omp_get_wtime() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void **l) { *l = nullptr; }
void omp_destroy_lock(void **) {}
void omp_set_lock(void **l) { lock(*(Lock *)l); }
void omp_unset_lock(void **l) { unlock(*(Lock *)l); }
int omp_test_lock(void **l) {
  if (((Lock *)l)->held.load(RX)) return 0;
  lock(*(Lock *)l);
  return 1;
}
// atomic operations of the code under test pass here (-Wl,--wrap): another thread may go on before and after each
#define WRAP2(F, T, A)                            \
  T __real_##F(volatile T *p, T v, int m);        \
  T __wrap_##F(volatile T *p, T v, int m) {       \
    point();                                      \
    T r = __real_##F(p, v, m);                    \
    A return r;                                   \
  }
#define WRAPN(B, T)                                \
  WRAP2(__tsan_atomic##B##_fetch_add, T, point();) \
  WRAP2(__tsan_atomic##B##_fetch_sub, T, point();) \
  WRAP2(__tsan_atomic##B##_fetch_or, T, point();)  \
  WRAP2(__tsan_atomic##B##_fetch_and, T, point();) \
  WRAP2(__tsan_atomic##B##_exchange, T, point();)
#define WRAPS(B, T)                                                  \
  WRAPN(B, T)                                                        \
  T __real___tsan_atomic##B##_load(const volatile T *p, int m);      \
  T __wrap___tsan_atomic##B##_load(const volatile T *p, int m) {     \
    point();                                                         \
    T r = __real___tsan_atomic##B##_load(p, m);                      \
    point();                                                         \
    return r;                                                        \
  }                                                                  \
  void __real___tsan_atomic##B##_store(volatile T *p, T v, int m);   \
  void __wrap___tsan_atomic##B##_store(volatile T *p, T v, int m) {  \
    point();                                                         \
    __real___tsan_atomic##B##_store(p, v, m);                        \
    point();                                                         \
  }
// loads and stores of a byte are left alone: the guards of static variables
WRAPN(8, char)
WRAPS(16, short)
WRAPS(32, int)
WRAPS(64, long)
}
