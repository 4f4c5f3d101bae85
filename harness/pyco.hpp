// A Python process beside the worker, which runs calls of the wrapper (pyworker.py), and what to ask it.
#pragma once
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include "pbt.hpp"

namespace pyco {
inline std::string hexd(double d) {
  char b[64];
  if (d != d) return "nan";
  if (std::isinf(d)) return d > 0 ? "inf" : "-inf";
  snprintf(b, sizeof b, "%a", d);
  return b;
}
inline std::string js(const std::string &s) {  // a JSON string
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') o += '\\', o += c;
    else if (c < 32) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else o += c;
  }
  return o + "\"";
}
template <class T>
const char *dtype() {
  if (std::is_same<T, float>::value) return "float32";
  if (std::is_same<T, double>::value) return "float64";
  static const char *n[2][4] = {{"uint8", "uint16", "uint32", "uint64"}, {"int8", "int16", "int32", "int64"}};
  return n[std::is_signed<T>::value][sizeof(T) == 1 ? 0 : sizeof(T) == 2 ? 1 : sizeof(T) == 4 ? 2 : 3];
}

struct Attrs {  // of an rdarray
  bool rd = true;
  std::string nd = "i:-9999", gt = "null", proj, meta = "{}", cast;
};
struct Request {
  std::string arrays, calls, out, shares, payload;
  template <class T>
  void array(const std::string &name, const std::vector<T> &v, std::vector<int> shape, char layout, const Attrs &a) {
    std::string sh;
    for (int d : shape) sh += (sh.empty() ? "" : ",") + std::to_string(d);
    size_t n = v.size() * sizeof(T);
    arrays += (arrays.empty() ? "" : ",") + pbt::str("{\"name\":", js(name), ",\"kind\":\"", a.rd ? "rd" : "np", "\",\"dtype\":\"", dtype<T>(), "\",\"shape\":[", sh, "],\"layout\":\"", layout, "\",\"bytes\":", n, ",\"nd\":", js(a.nd),
                                                     ",\"gt\":", a.gt, ",\"proj\":", js(a.proj), ",\"meta\":", a.meta, ",\"cast\":", js(a.cast), "}");
    payload.append((const char *)v.data(), n);
  }
  // args and kw are JSON text; as: JSON text or empty
  void call(const std::string &fn, const std::string &args, const std::string &kw = "", const std::string &as = "") {
    calls += (calls.empty() ? "" : ",") + pbt::str("{\"fn\":", js(fn), ",\"args\":[", args, "],\"kw\":{", kw, "}", as.empty() ? "" : ",\"as\":" + as, "}");
  }
  void want(const std::string &name) { out += (out.empty() ? "" : ",") + js(name); }
  void share(const std::string &a, const std::string &b) { shares += (shares.empty() ? "" : ",") + pbt::str("[", js(a), ",", js(b), "]"); }
};
struct Arr {
  std::string dtype, bytes;
  std::vector<int> shape;
  template <class T>
  std::vector<T> as() const {
    PBT_CHECK(dtype == pyco::dtype<T>(), "dtype", "the result has type ", dtype, ", expected ", pyco::dtype<T>());
    std::vector<T> v(bytes.size() / sizeof(T));
    memcpy((void *)v.data(), bytes.data(), bytes.size());
    return v;
  }
};
struct Reply {
  std::map<std::string, std::string> f;
  std::map<std::string, Arr> a;
  bool has(const std::string &k) const { return f.count(k); }
  std::string get(const std::string &k) const {
    auto i = f.find(k);
    return i == f.end() ? "" : i->second;
  }
  bool yes(const std::string &k) const { return get(k) == "1"; }
  std::map<std::string, std::string> meta(const std::string &name) const {
    std::map<std::string, std::string> m;
    std::string p = name + ".meta.";
    for (auto &e : f)
      if (e.first.compare(0, p.size(), p) == 0) m[e.first.substr(p.size())] = e.second;
    return m;
  }
};

class Python {
  int in = -1, out = -1;
  pid_t pid = -1, owner = -1;
  void start() {
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) throw pbt::Discard{};
    std::string path = std::string(getenv("PYRICHDEM_BUILD")) + ":" + getenv("RICHDEM_REPO") + "/wrappers/pyrichdem";
    std::string script = getenv("PYRICHDEM_WORKER");
    pid = fork();
    if (pid == 0) {
      dup2(a[0], 0);
      int o = fcntl(b[1], F_DUPFD, 10);
      int nul = open("/dev/null", O_WRONLY);
      dup2(nul, 1);
      if (!getenv("PYCO_DEBUG")) dup2(nul, 2);
      dup2(o, 3);
      setenv("PYTHONPATH", path.c_str(), 1);
      setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
      setenv("MALLOC_PERTURB_", "85", 1);
      setenv("OMP_NUM_THREADS", "1", 1);
      execl("/usr/bin/python3", "python3", script.c_str(), (char *)nullptr);
      _exit(127);
    }
    close(a[0]), close(b[1]);
    in = a[1], out = b[0], owner = getpid();
  }
  void stop() {
    if (in >= 0) close(in), close(out);
    in = out = -1;
    if (owner == getpid() && pid > 0) {
      kill(pid, SIGKILL);
      waitpid(pid, nullptr, 0);
    }
    pid = owner = -1;
  }
  void send(const char *p, size_t n) {
    while (n) {
      ssize_t k = write(in, p, n);
      if (k <= 0) {
        stop();
        pbt::fail("python-died", "the Python process is gone");
      }
      p += k, n -= k;
    }
  }
  void recv(char *p, size_t n) {
    while (n) {
      pollfd f{out, POLLIN, 0};
      int r = poll(&f, 1, 120000);
      if (r == 0) {
        stop();
        pbt::fail("python-hangs", "no answer within 120 s");
      }
      ssize_t k = read(out, p, n);
      if (k <= 0) {
        int st = 0;
        waitpid(pid, &st, 0);
        pid = -1;
        stop();
        pbt::fail("python-died", pbt::str("the Python process died with status ", st));
      }
      p += k, n -= k;
    }
  }
  static std::string unq(const std::string &s) {
    std::string o;
    for (size_t i = 0; i < s.size(); i++)
      if (s[i] == '%') o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16), i += 2;
      else o += s[i];
    return o;
  }

 public:
  ~Python() { stop(); }
  Reply ask(const Request &q) {
    signal(SIGPIPE, SIG_IGN);
    if (owner != getpid()) {
      in = out = -1, pid = owner = -1;
      start();
    }
    std::string j = "{\"arrays\":[" + q.arrays + "],\"calls\":[" + q.calls + "],\"out\":[" + q.out + "],\"shares\":[" + q.shares + "]}";
    uint64_t n = j.size();
    send((char *)&n, 8);
    send(j.data(), j.size());
    send(q.payload.data(), q.payload.size());
    recv((char *)&n, 8);
    std::string t(n, 0);
    recv(&t[0], n);
    Reply r;
    std::istringstream s(t);
    std::string line;
    std::vector<std::pair<std::string, size_t>> order;
    while (std::getline(s, line)) {
      std::istringstream l(line);
      std::string k, a, b;
      if (!(l >> k >> a)) continue;
      a = unq(a);
      if (k == "F") {
        l >> b;
        r.f[a] = unq(b);
      } else {
        Arr x;
        int nd, d;
        size_t bytes;
        l >> x.dtype >> nd;
        while (nd--) l >> d, x.shape.push_back(d);
        l >> bytes;
        r.a[a] = x;
        order.push_back({a, bytes});
      }
    }
    for (auto &o : order) {
      auto &x = r.a[o.first];
      x.bytes.resize(o.second);
      if (o.second) recv(&x.bytes[0], o.second);
    }
    return r;
  }
};
inline Python &python() {
  static Python p;
  return p;
}
}  // namespace pyco
