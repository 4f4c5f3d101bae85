// A stand-in for MPI: every rank is a thread of this process and exactly one of them runs at a time. Who runs next, which
// of several pending messages a wildcard matches, and whether MPI_Send buffers or waits for its receiver are choices of
// the generated schedule. The rules are those of the MPI standard: messages between two ranks do not overtake each other,
// a non-blocking send's buffer is read when the message is received, every rank must finish, nobody may wait forever.
#pragma once
#include <condition_variable>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Request;
struct MPI_Status {
  int MPI_SOURCE, MPI_TAG, MPI_ERROR;
  int size_;
};
#define MPI_COMM_WORLD 0
#define MPI_BYTE 1
#define MPI_INT 4
#define MPI_ANY_SOURCE -1
#define MPI_ANY_TAG -1
#define MPI_SUCCESS 0
#define MPI_STATUS_IGNORE ((MPI_Status *)nullptr)

namespace fakempi {
struct Aborted {
  int code;
};
struct Stopped {};  // another rank failed
struct Msg {
  int src, tag;
  std::vector<char> data;
  const void *lazy = nullptr;  // of a non-blocking send: read when received
  int size = 0;
  bool *taken = nullptr;
};
struct World {
  int n = 0;
  std::function<unsigned(unsigned)> choose;
  std::mutex m;
  std::condition_variable cv;
  int turn = -1;
  bool stop = false, deadlock = false;
  std::vector<char> done;
  std::vector<std::function<bool()>> waiting;               // what a rank waits for
  std::vector<std::vector<std::deque<Msg>>> box;            // [dst][src]
  std::vector<std::vector<std::deque<std::vector<char>>>> bcast;  // [dst][root]
  long messages = 0, switches = 0;
  std::string where;
};
inline World *world = nullptr;
inline thread_local int rank = -1;

// with the lock: passes the turn on to a rank that can run
inline void pass(World &w) {
  std::vector<int> can;
  bool all = true;
  for (int r = 0; r < w.n; r++) {
    if (w.done[r]) continue;
    all = false;
    if (!w.waiting[r] || w.waiting[r]()) can.push_back(r);
  }
  if (all) {
    w.turn = -2;
  } else if (can.empty()) {
    w.deadlock = w.stop = true;
  } else {
    w.turn = can[can.size() > 1 ? w.choose(can.size()) : 0];
    w.switches++;
  }
  w.cv.notify_all();
}
// gives others a chance to run, then goes on once cond holds
inline void point(std::function<bool()> cond = nullptr) {
  World &w = *world;
  std::unique_lock<std::mutex> l(w.m);
  if (w.stop) throw Stopped();
  w.waiting[rank] = cond;
  pass(w);
  w.cv.wait(l, [&] { return w.stop || w.turn == rank; });
  if (w.stop) throw Stopped();
  w.waiting[rank] = nullptr;
}
// (asked by whichever rank passes the turn on)
inline bool pending(int me, int from, int tag) {
  World &w = *world;
  for (int s = 0; s < w.n; s++)
    if (from == MPI_ANY_SOURCE || from == s)
      for (auto &m : w.box[me][s])
        if (tag == MPI_ANY_TAG || m.tag == tag) return true;
  return false;
}
// the first matching message of one of the sources that have one
inline Msg *match(int from, int tag) {
  World &w = *world;
  std::vector<Msg *> c;
  for (int s = 0; s < w.n; s++)
    if (from == MPI_ANY_SOURCE || from == s)
      for (auto &m : w.box[rank][s])
        if (tag == MPI_ANY_TAG || m.tag == tag) {
          c.push_back(&m);
          break;
        }
  return c[c.size() > 1 ? w.choose(c.size()) : 0];
}
struct Outcome {
  std::vector<int> ret;                // what main returned
  std::vector<std::string> error;      // an exception that left main
  bool deadlock = false, aborted = false;
  int abort_code = 0;
  long messages = 0, switches = 0, left = 0;
};
// runs main_ as n ranks
inline Outcome run(int n, std::function<unsigned(unsigned)> choose, std::function<int(int)> main_) {
  World w;
  w.n = n;
  w.choose = choose;
  w.done.assign(n, 0);
  w.waiting.resize(n);
  w.box.assign(n, std::vector<std::deque<Msg>>(n));
  w.bcast.assign(n, std::vector<std::deque<std::vector<char>>>(n));
  world = &w;
  Outcome o;
  o.ret.assign(n, -12345);
  o.error.resize(n);
  std::vector<std::thread> t;
  auto body = [&](int r) {
    rank = r;
    {
      std::unique_lock<std::mutex> l(w.m);
      w.cv.wait(l, [&] { return w.stop || w.turn == r; });
    }
    bool bad = false;
    try {
      if (!w.stop) o.ret[r] = main_(r);
    } catch (const Stopped &) {
    } catch (const Aborted &a) {
      o.aborted = true, o.abort_code = a.code, bad = true;
    } catch (const std::exception &e) {
      o.error[r] = std::string("exception: ") + e.what(), bad = true;
    } catch (...) {
      o.error[r] = "exception", bad = true;
    }
    std::unique_lock<std::mutex> l(w.m);
    w.done[r] = 1;
    if (bad) w.stop = true, w.cv.notify_all();
    else if (!w.stop) pass(w);
  };
  for (int r = 0; r < n; r++) t.emplace_back(body, r);
  {
    std::unique_lock<std::mutex> l(w.m);
    pass(w);
  }
  for (auto &x : t) x.join();
  o.deadlock = w.deadlock, o.messages = w.messages, o.switches = w.switches;
  for (auto &a : w.box)
    for (auto &b : a) o.left += b.size();
  world = nullptr;
  return o;
}
}  // namespace fakempi

inline int MPI_Init(int *, char ***) {
  fakempi::point();
  return MPI_SUCCESS;
}
inline int MPI_Finalize() {
  fakempi::point();
  return MPI_SUCCESS;
}
inline int MPI_Comm_rank(MPI_Comm, int *r) {
  *r = fakempi::rank;
  return MPI_SUCCESS;
}
inline int MPI_Comm_size(MPI_Comm, int *n) {
  *n = fakempi::world->n;
  return MPI_SUCCESS;
}
inline int MPI_Abort(MPI_Comm, int code) { throw fakempi::Aborted{code}; }
inline int MPI_Isend(const void *b, int n, MPI_Datatype, int dest, int tag, MPI_Comm, MPI_Request *r) {
  using namespace fakempi;
  Msg m;
  m.src = rank, m.tag = tag, m.lazy = b, m.size = n;
  world->box.at(dest)[rank].push_back(m);
  world->messages++;
  *r = 0;
  point();
  return MPI_SUCCESS;
}
inline int MPI_Send(const void *b, int n, MPI_Datatype, int dest, int tag, MPI_Comm) {
  using namespace fakempi;
  Msg m;
  m.src = rank, m.tag = tag, m.size = n;
  m.data.assign((const char *)b, (const char *)b + n);
  bool taken = false, wait = world->choose(2);
  if (wait) m.taken = &taken;
  world->box.at(dest)[rank].push_back(m);
  world->messages++;
  if (wait) point([&taken] { return taken; });
  else point();
  return MPI_SUCCESS;
}
inline int MPI_Probe(int from, int tag, MPI_Comm, MPI_Status *s) {
  using namespace fakempi;
  point([=, me = rank] { return pending(me, from, tag); });
  Msg *m = match(from, tag);
  s->MPI_SOURCE = m->src, s->MPI_TAG = m->tag, s->MPI_ERROR = 0, s->size_ = m->size;
  return MPI_SUCCESS;
}
inline int MPI_Get_count(const MPI_Status *s, MPI_Datatype, int *n) {
  *n = s->size_;
  return MPI_SUCCESS;
}
inline int MPI_Recv(void *b, int n, MPI_Datatype, int from, int tag, MPI_Comm, MPI_Status *s) {
  using namespace fakempi;
  point([=, me = rank] { return pending(me, from, tag); });
  Msg *m = match(from, tag);
  if (m->size > n) throw std::runtime_error("MPI_Recv: message truncated");
  std::memcpy(b, m->lazy ? m->lazy : m->data.data(), m->size);
  if (s) s->MPI_SOURCE = m->src, s->MPI_TAG = m->tag, s->MPI_ERROR = 0, s->size_ = m->size;
  if (m->taken) *m->taken = true;
  auto &q = world->box[rank][m->src];
  for (auto i = q.begin(); i != q.end(); ++i)
    if (&*i == m) {
      q.erase(i);
      break;
    }
  return MPI_SUCCESS;
}
inline int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm) {
  using namespace fakempi;
  const int bytes = n * t;
  if (rank == root) {
    for (int r = 0; r < world->n; r++)
      if (r != root) world->bcast[r][root].emplace_back((char *)b, (char *)b + bytes);
    point();
  } else {
    point([=, me = rank] { return !world->bcast[me][root].empty(); });
    auto &q = world->bcast[rank][root];
    std::memcpy(b, q.front().data(), bytes);
    q.pop_front();
  }
  return MPI_SUCCESS;
}
