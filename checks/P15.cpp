// P15: Array2D, Array3D and ManagedVector behave like the plain rasters and vectors they stand for, whatever the
// history of operations (stateful, model based)
#include <memory>
#include <richdem/common/Array2D.hpp>
#include <richdem/common/Array3D.hpp>
#include "gen.hpp"
using namespace richdem;
using namespace gen;

#define STR2(x) #x
#define STR(x) STR2(x)
#ifndef QN
#define QN 20000
#endif
static pbt::RuleRegistrar rr(
    "cases: histories of up to 40 operations on a pool of rasters, some wrapping external memory; non-trivial: a raster of at least two rows and columns "
    "passes through at least three operations that change it, two of them of shape or ownership",
    {"no cell outside the raster is addressed", "the memory a raster wraps outlives it"});
using T = TY;
using U = std::conditional_t<std::is_same<T, double>::value, int16_t, double>;

namespace {  // the same names stand for different element types in other translation units
struct Buf {  // external memory, with guards
  std::vector<T> mem;
  size_t n;
  explicit Buf(size_t n_) : mem(n_ + 8), n(n_) {
    for (int i = 0; i < 4; i++) mem[i] = mem[n + 4 + i] = T(77 + i);
  }
  T *p() { return mem.data() + 4; }
  void check() {
    for (int i = 0; i < 4; i++) PBT_CHECK(mem[i] == T(77 + i) && mem[n + 4 + i] == T(77 + i), "guard", "memory beside the wrapped memory was written");
  }
};
struct Model {
  int w = 0, h = 0;
  std::vector<T> v;
  T nd = T(-1);
  std::vector<double> gt;
  std::string proj, base;
  std::map<std::string, std::string> md;
  std::shared_ptr<Buf> buf;  // wrapped
  std::string ops;
  int changes = 0, shapes = 0;
  T &at(int x, int y) { return v[size_t(y) * w + x]; }
};
struct Entry {
  std::unique_ptr<Array2D<T>> a;
  Model m;
};
}  // namespace
static T val(pbt::Source &s) {
  switch (s.weighted({8, 2, 1, 1})) {
    case 0: return T(s.range(0, 5));
    case 1: return T(-1);
    case 2: return std::numeric_limits<T>::max();
    default: return std::numeric_limits<T>::lowest();
  }
}
static void show_model(pbt::Source &s, const char *what, const Model &m) {
  if (!s.verbose) return;
  std::ostringstream o;
  o << what << ": " << m.w << "x" << m.h << " nodata " << +m.nd << (m.buf ? " wrapped" : "");
  s.note(o.str());
}
static void verify(pbt::Source &s, Entry &e) {
  auto &a = *e.a;
  const auto &ca = a;
  auto &m = e.m;
  PBT_CHECK(a.width() == m.w && a.height() == m.h, "dims", "is ", a.width(), "x", a.height(), ", should be ", m.w, "x", m.h);
  PBT_CHECK(a.size() == m.v.size() && a.empty() == m.v.empty(), "size", "size ", a.size(), " of ", m.w, "x", m.h);
  PBT_CHECK(a.noData() == m.nd, "nodata", "NoData is ", +a.noData(), ", should be ", +m.nd);
  PBT_CHECK(a.owned() == !m.buf, "owned", "owned() is ", a.owned());
  PBT_CHECK(a.geotransform == m.gt && a.projection == m.proj && a.basename == m.base && a.metadata == m.md, "properties", "geotransform, projection, basename or metadata differ");
  if (m.buf) {
    PBT_CHECK(a.data() == m.buf->p(), "wrapped-elsewhere", "a raster wrapping external memory holds other memory");
    m.buf->check();
  }
  T lo = std::numeric_limits<T>::max(), hi = std::numeric_limits<T>::lowest();
  unsigned data = 0;
  for (int y = 0; y < m.h; y++)
    for (int x = 0; x < m.w; x++) {
      const T want = m.at(x, y);
      const unsigned i = y * m.w + x;
      PBT_CHECK(ca(x, y) == want && ca(i) == want && a(x, y) == want && a(i) == want && a.data()[i] == want, "cell", "cell (", x, ",", y, ") is ", +ca(x, y), ", should be ", +want);
      PBT_CHECK(a.isNoData(x, y) == (want == m.nd) && a.isNoData(i) == (want == m.nd) && a.isData(x, y) == (want != m.nd) && a.isData(i) == (want != m.nd), "isnodata", "at (", x, ",", y, ")");
      if (want != m.nd) data++, lo = std::min(lo, want), hi = std::max(hi, want);
    }
  if (!m.v.empty()) {
    PBT_CHECK(a.numDataCells() == data, "numdatacells", "numDataCells() is ", a.numDataCells(), ", should be ", data);
    PBT_CHECK(a.min() == lo && a.max() == hi, "minmax", "min ", +a.min(), " max ", +a.max(), ", should be ", +lo, " and ", +hi);
    T q = val(s);
    PBT_CHECK(a.countval(q) == (unsigned)std::count(m.v.begin(), m.v.end(), q), "countval", "countval(", +q, ") is ", a.countval(q));
    // addressing of one generated cell
    int x = s.draw(m.w), y = s.draw(m.h);
    unsigned i = y * m.w + x;
    int xx, yy;
    a.iToxy(i, xx, yy);
    PBT_CHECK(xx == x && yy == y && a.xyToI(x, y) == i, "address", "of (", x, ",", y, ")");
    bool e_ = x == 0 || y == 0 || x == m.w - 1 || y == m.h - 1;
    PBT_CHECK(a.isEdgeCell(x, y) == e_ && a.isEdgeCell(i) == e_, "isedge", "(", x, ",", y, ")");
    PBT_CHECK(a.isTopRow(x, y) == (y == 0) && a.isBottomRow(x, y) == (y == m.h - 1) && a.isLeftCol(x, y) == (x == 0) && a.isRightCol(x, y) == (x == m.w - 1), "sides", "(", x, ",", y, ")");
    PBT_CHECK(a.isTopLeft(x, y) == (!x && !y) && a.isTopRight(x, y) == (x == m.w - 1 && !y) && a.isBottomLeft(x, y) == (!x && y == m.h - 1) && a.isBottomRight(x, y) == (x == m.w - 1 && y == m.h - 1), "corners", "(", x, ",", y, ")");
    for (int n = 0; n <= 8; n++) {
      int nx = x + DX8[n], ny = y + DY8[n];
      bool in = nx >= 0 && ny >= 0 && nx < m.w && ny < m.h;
      PBT_CHECK(a.inGrid(nx, ny) == in, "ingrid", "(", nx, ",", ny, ")");
      unsigned want = in ? unsigned(ny * m.w + nx) : (unsigned)Array2D<T>::NO_I;
      PBT_CHECK(a.getN(i, n) == want && a.nToI(i, DX8[n], DY8[n]) == want, "neighbour", "neighbour ", n, " of (", x, ",", y, ")");
      PBT_CHECK(a.nshift(n) == DY8[n] * m.w + DX8[n], "nshift", "nshift(", n, ") is ", a.nshift(n), " in a raster ", m.w, " wide");
    }
    auto row = a.getRowData(y), col = a.getColData(x), top = a.topRow(), bot = a.bottomRow(), left = a.leftColumn(), right = a.rightColumn();
    PBT_CHECK((int)row.size() == m.w && (int)col.size() == m.h && (int)top.size() == m.w && (int)bot.size() == m.w && (int)left.size() == m.h && (int)right.size() == m.h, "rowlen", "");
    for (int k = 0; k < m.w; k++) PBT_CHECK(row[k] == m.at(k, y) && top[k] == m.at(k, 0) && bot[k] == m.at(k, m.h - 1), "row", "column ", k);
    for (int k = 0; k < m.h; k++) PBT_CHECK(col[k] == m.at(x, k) && left[k] == m.at(0, k) && right[k] == m.at(m.w - 1, k), "col", "row ", k);
  }
  if (m.gt.size() == 6) PBT_CHECK(a.getCellArea() == std::abs(m.gt[1] * m.gt[5]) && a.getCellLengthX() == std::abs(m.gt[1]) && a.getCellLengthY() == std::abs(m.gt[5]), "cellsize", "");
}
static void set_props(pbt::Source &s, Entry &e) {
  e.m.gt = {double(s.range(0, 9)), double(s.range(1, 9)), 0, double(s.range(0, 9)), 0, -double(s.range(1, 9))};
  e.m.proj = "proj" + std::to_string(s.range(0, 9));
  e.m.base = "base" + std::to_string(s.range(0, 9));
  e.m.md.clear();
  e.m.md["k" + std::to_string(s.range(0, 3))] = std::to_string(s.range(0, 9));
  e.a->geotransform = e.m.gt;
  e.a->projection = e.m.proj;
  e.a->basename = e.m.base;
  e.a->metadata = e.m.md;
}
static void resize_model(Model &m, int w, int h, T v) {
  m.w = w, m.h = h;
  m.v.assign(size_t(w) * h, v);
}
static void history(pbt::Source &s) {
  std::vector<Entry> pool(4);
  for (auto &e : pool) e.a = std::make_unique<Array2D<T>>();
  std::vector<std::shared_ptr<Buf>> bufs;
  std::vector<std::vector<T>> buf_model;  // contents of external memory no live raster wraps any more
  int nops = s.range(1, 40);
  auto dim = [&] { return int(s.weighted({8, 1}) ? s.range(10, 30) : s.range(1, 7)); };
  auto sync = [&](Model &m) {  // the wrapped memory shows the model's cells
    if (m.buf)
      for (size_t i = 0; i < m.v.size(); i++) PBT_CHECK(m.buf->p()[i] == m.v[i], "wrapped-stale", "the wrapped memory does not show the raster's cells");
  };
  for (int k = 0; k < nops; k++) {
    Entry &e = pool[s.draw(pool.size())];
    Entry &o = pool[s.draw(pool.size())];
    Model &m = e.m;
    const bool loaded = !m.v.empty();
    bool threw = false;
    int op = s.draw(26);
    auto detach = [&](Model &x) {  // the raster lets go of what it wrapped: that memory stays as it is
      if (x.buf) {
        bufs.push_back(x.buf);
        buf_model.push_back(x.v);
        x.buf = nullptr;
      }
    };
    auto named = [&](const char *n) {
      s.note(pbt::str(k, ": ", n, " on ", &e - pool.data(), " (", m.w, "x", m.h, m.buf ? ", wrapped" : "", ")", &o != &e ? pbt::str(" with ", &o - pool.data(), " (", o.m.w, "x", o.m.h, o.m.buf ? ", wrapped)" : ")") : std::string()));
      s.label(n);
    };
    switch (op) {
      case 0: {
        named("construct");
        int w = dim(), h = dim();
        T v = val(s);
        detach(m);
        e.a = std::make_unique<Array2D<T>>(w, h, v);
        m = Model();
        resize_model(m, w, h, v);
        break;
      }
      case 1: {
        named("initializer-list");
        T v[6];
        for (auto &c : v) c = val(s);
        detach(m);
        m = Model();
        switch (s.draw(4)) {
          case 0: e.a.reset(new Array2D<T>{{v[0]}}), m.w = 1, m.h = 1; break;
          case 1: e.a.reset(new Array2D<T>{{v[0], v[1], v[2]}, {v[3], v[4], v[5]}}), m.w = 3, m.h = 2; break;
          case 2: e.a.reset(new Array2D<T>{{v[0], v[1]}, {v[2], v[3]}, {v[4], v[5]}}), m.w = 2, m.h = 3; break;
          default: {
            try {
              Array2D<T> bad{{v[0], v[1]}, {v[2]}};
            } catch (const std::runtime_error &) { threw = true; }
            PBT_CHECK(threw, "ragged", "a ragged initializer list was accepted");
            e.a = std::make_unique<Array2D<T>>();
          }
        }
        m.v.assign(v, v + m.w * m.h);
        break;
      }
      case 2: case 3: {
        named("wrap");
        int w = dim(), h = dim();
        auto b = std::make_shared<Buf>(size_t(w) * h);
        for (size_t i = 0; i < b->n; i++) b->p()[i] = val(s);
        detach(m);
        if (s.coin()) {
          e.a = std::make_unique<Array2D<T>>(b->p(), w, h);
          m = Model();
        } else {  // move-assigned from a wrapping raster
          *e.a = Array2D<T>(b->p(), w, h);
          m = Model();
        }
        m.w = w, m.h = h, m.v.assign(b->p(), b->p() + b->n), m.buf = b;
        break;
      }
      case 4: {
        named("copy-construct");
        if (&e == &o) break;
        detach(m);
        e.a = std::make_unique<Array2D<T>>(*static_cast<const Array2D<T> *>(o.a.get()));
        m = o.m;
        m.buf = nullptr;
        break;
      }
      case 5: {
        named("copy-assign");
        if (&e != &o) detach(m);
        *e.a = *static_cast<const Array2D<T> *>(o.a.get());
        if (&e != &o) m = o.m, m.buf = nullptr;
        else if (m.buf) detach(m);
        break;
      }
      case 6: {
        named("move-construct");
        if (&e == &o) break;
        detach(m);
        e.a = std::make_unique<Array2D<T>>(std::move(*o.a));
        m = o.m;
        o.m = Model();
        o.a = std::make_unique<Array2D<T>>();
        m.shapes++;
        break;
      }
      case 7: {
        named("move-assign");
        if (&e == &o) break;
        detach(m);
        *e.a = std::move(*o.a);
        m = o.m;
        o.m = Model();
        o.a = std::make_unique<Array2D<T>>();
        m.shapes++;
        break;
      }
      case 8: {
        named("template-of-another-type");
        T v = val(s);
        if (&e == &o) break;
        Array2D<U> t(*o.a, U(3));
        PBT_CHECK(t.width() == o.m.w && t.height() == o.m.h && t.geotransform == o.m.gt && t.metadata == o.m.md && t.projection == o.m.proj && t.basename == o.m.base, "template", "a templated raster differs in size or properties");
        for (unsigned i = 0; i < t.size(); i++) PBT_CHECK(t(i) == U(3), "template-fill", "");
        detach(m);
        if (s.coin()) e.a = std::make_unique<Array2D<T>>(t, v);
        else e.a = std::make_unique<Array2D<T>>(Array2D<T>::make_from_template(t, v));
        Model n;
        n.gt = o.m.gt, n.proj = o.m.proj, n.base = o.m.base, n.md = o.m.md;
        resize_model(n, o.m.w, o.m.h, v);
        m = n;
        break;
      }
      case 9: case 10: {
        named("resize");
        int w = dim(), h = dim();
        if (s.coin(1, 3) && loaded) w = m.h, h = m.w;
        T v = val(s);
        bool must_throw = m.buf && size_t(w) * h != m.v.size();
        try {
          e.a->resize(w, h, v);
        } catch (const std::runtime_error &) { threw = true; }
        PBT_CHECK(threw == must_throw, "resize-wrapped", "resizing ", m.buf ? "wrapped" : "owned", " memory ", threw ? "threw" : "was accepted");
        if (!threw) resize_model(m, w, h, v), m.shapes++;
        break;
      }
      case 11: {
        named("resize-like");
        T v = val(s);
        if (&e == &o) break;
        bool must_throw = m.buf && o.m.v.size() != m.v.size();
        try {
          e.a->resize(*o.a, v);
        } catch (const std::runtime_error &) { threw = true; }
        PBT_CHECK(threw == must_throw, "resize-wrapped", "resizing ", m.buf ? "wrapped" : "owned", " memory ", threw ? "threw" : "was accepted");
        if (!threw) resize_model(m, o.m.w, o.m.h, v), m.gt = o.m.gt, m.proj = o.m.proj, m.shapes++;
        break;
      }
      case 12: case 13: {
        named("expand");
        int w = m.w + s.range(0, 4) - (s.coin(1, 6) && m.w > 0), h = m.h + s.range(0, 4) - (s.coin(1, 6) && m.h > 0);
        T v = val(s);
        bool same = w == m.w && h == m.h;
        bool must_throw = !same && (m.buf || w < m.w || h < m.h);
        try {
          e.a->expand(w, h, v);
        } catch (const std::runtime_error &) { threw = true; }
        PBT_CHECK(threw == must_throw, "expand-throws", "expanding to ", w, "x", h, threw ? " threw" : " was accepted");
        if (!threw && !same) {
          Model n = m;
          resize_model(n, w, h, v);
          for (int y = 0; y < m.h; y++)
            for (int x = 0; x < m.w; x++) n.at(x, y) = m.at(x, y);
          m = n, m.shapes++;
        }
        break;
      }
      case 14: {
        named("setAll");
        T v = val(s);
        e.a->setAll(v);
        m.v.assign(m.v.size(), v);
        break;
      }
      case 15: {
        named("setNoData");
        T v = val(s);
        e.a->setNoData(v);
        m.nd = v;
        break;
      }
      case 16: case 17: {
        if (!loaded) break;
        named("set-cells");
        for (int q = s.range(1, 12); q > 0; q--) {
          int x = s.draw(m.w), y = s.draw(m.h);
          T v = val(s);
          if (s.coin()) (*e.a)(x, y) = v;
          else (*e.a)(unsigned(y * m.w + x)) = v;
          m.at(x, y) = v;
        }
        m.changes++;
        break;
      }
      case 18: {
        named("flipVert");
        e.a->flipVert();
        Model n = m;
        for (int y = 0; y < m.h; y++)
          for (int x = 0; x < m.w; x++) n.at(x, m.h - 1 - y) = m.at(x, y);
        m = n, m.changes++;
        break;
      }
      case 19: {
        if (!loaded) break;
        named("flipHorz");
        e.a->flipHorz();
        Model n = m;
        for (int y = 0; y < m.h; y++)
          for (int x = 0; x < m.w; x++) n.at(m.w - 1 - x, y) = m.at(x, y);
        m = n, m.changes++;
        break;
      }
      case 20: {
        named("transpose");
        e.a->transpose();
        Model n = m;
        std::swap(n.w, n.h);
        for (int y = 0; y < m.h; y++)
          for (int x = 0; x < m.w; x++) n.at(y, x) = m.at(x, y);
        m = n, m.changes++, m.shapes++;
        break;
      }
      case 21: {
        named("replace");
        T p = val(s), q = val(s);
        e.a->replace(p, q);
        for (auto &c : m.v)
          if (c == p) c = q;
        m.changes++;
        break;
      }
      case 22: {
        if (!loaded) break;
        named("set-lines");
        T v = val(s);
        int x = s.draw(m.w), y = s.draw(m.h);
        int what = s.draw(3);
        if (what == 0) e.a->setRow(y, v);
        if (what == 1) e.a->setCol(x, v);
        if (what == 2) e.a->setEdges(v);
        for (int j = 0; j < m.h; j++)
          for (int i = 0; i < m.w; i++)
            if ((what == 0 && j == y) || (what == 1 && i == x) || (what == 2 && (i == 0 || j == 0 || i == m.w - 1 || j == m.h - 1))) m.at(i, j) = v;
        m.changes++;
        break;
      }
      case 23: {
        named("properties");
        if (s.coin()) set_props(s, e);
        else if (&e != &o) {
          e.a->templateCopy(*o.a);
          m.gt = o.m.gt, m.proj = o.m.proj, m.base = o.m.base, m.md = o.m.md;
        }
        break;
      }
      case 24: {
        named("scale");
        // halves and doubles of small values are exact in every type
        bool small = true;
        for (auto c : m.v) small = small && (c == m.nd || (c >= T(0) && c <= T(60)));
        if (!small) break;
        double f = s.coin() ? 2 : 1;
        e.a->scale(f);
        for (auto &c : m.v)
          if (c != m.nd) c = T(c * f);
        m.changes++;
        break;
      }
      default: {
        named("clear");
        // only the cells go: the raster must be resized before it is used again
        e.a->clear();
        PBT_CHECK(e.a->empty() && e.a->owned() && e.a->countval(val(s)) == 0, "cleared", "a cleared raster still holds cells");
        detach(m);
        int w = dim(), h = dim();
        e.a->resize(w, h);
        resize_model(m, w, h, T());
        break;
      }
    }
    if (m.changes >= 3 && m.shapes >= 2 && m.w >= 2 && m.h >= 2) s.nontrivial();
    verify(s, e);
    sync(m);
    if (&o != &e) verify(s, o), sync(o.m);
    if (!m.v.empty() && !o.m.v.empty()) {
      bool eq = m.w == o.m.w && m.h == o.m.h && m.nd == o.m.nd && m.v == o.m.v;
      PBT_CHECK((*e.a == *o.a) == eq, "equality", "== is ", *e.a == *o.a);
    }
    for (size_t i = 0; i < bufs.size(); i++) {
      bufs[i]->check();
      PBT_CHECK(std::equal(buf_model[i].begin(), buf_model[i].end(), bufs[i]->p()), "released-altered", "memory the raster no longer wraps was altered");
    }
  }
  for (auto &e : pool) verify(s, e), sync(e.m);
  for (auto &e : pool) {
    auto b = e.m.buf;
    std::vector<T> v = e.m.v;
    e.a.reset();
    if (b) {
      b->check();
      PBT_CHECK(std::equal(v.begin(), v.end(), b->p()), "released-altered", "destroying a raster altered the memory it wrapped");
    }
  }
}
PBT_PROP("array2d_" STR(TY), QN, QN * 20, history);

// the same for Array3D: nine values per cell
static void history3(pbt::Source &s) {
  struct M {
    int w = 0, h = 0;
    std::vector<T> v;
    T nd = T(-1);
    std::shared_ptr<Buf> buf;
  };
  std::vector<std::unique_ptr<Array3D<T>>> a(3);
  std::vector<M> ms(3);
  std::vector<std::shared_ptr<Buf>> keep;
  for (auto &p : a) p = std::make_unique<Array3D<T>>();
  auto dim = [&] { return (int)s.range(1, 6); };
  int nops = s.range(1, 20);
  int changed = 0;
  for (int k = 0; k < nops; k++) {
    size_t ei = s.draw(3), oi = s.draw(3);
    auto &e = a[ei];
    auto &m = ms[ei];
    int op = s.draw(9);
    s.note(pbt::str(k, ": operation ", op, " on ", ei, " with ", oi));
    switch (op) {
      case 0: {
        int w = dim(), h = dim();
        T v = val(s);
        e = std::make_unique<Array3D<T>>(w, h, v);
        m = M(), m.w = w, m.h = h, m.v.assign(9 * w * h, v);
        break;
      }
      case 1: {
        int w = dim(), h = dim();
        auto b = std::make_shared<Buf>(9 * w * h);
        for (size_t i = 0; i < b->n; i++) b->p()[i] = val(s);
        keep.push_back(b);
        if (s.coin()) e = std::make_unique<Array3D<T>>(b->p(), w, h);
        else *e = Array3D<T>(b->p(), w, h);
        m = M(), m.w = w, m.h = h, m.v.assign(b->p(), b->p() + b->n), m.buf = b;
        break;
      }
      case 2:
        if (ei == oi) break;
        *e = *static_cast<const Array3D<T> *>(a[oi].get());
        m = ms[oi], m.buf = nullptr;
        break;
      case 3: {
        int w = dim(), h = dim();
        T v = val(s);
        bool must = m.buf && 9u * w * h != m.v.size(), threw = false;
        try {
          e->resize(w, h, v);
        } catch (const std::runtime_error &) { threw = true; }
        PBT_CHECK(threw == must, "resize-wrapped", "");
        if (!threw) m.w = w, m.h = h, m.v.assign(9 * w * h, v);
        break;
      }
      case 4: {
        T v = val(s);
        e->setAll(v);
        m.v.assign(m.v.size(), v);
        break;
      }
      case 5: {
        T v = val(s);
        e->setNoData(v);
        m.nd = v;
        break;
      }
      case 6: case 7:
        for (int q = m.v.empty() ? 0 : s.range(1, 20); q > 0; q--) {
          int x = s.draw(m.w), y = s.draw(m.h), n = s.draw(9);
          T v = val(s);
          if (s.coin()) (*e)(x, y, n) = v;
          else e->getIN(y * m.w + x, n) = v;
          m.v[(y * m.w + x) * 9 + n] = v;
        }
        changed++;
        break;
      default: {
        Array2D<U> t(dim(), dim());
        t.geotransform = {0, 2, 0, 0, 0, -3};
        t.projection = "p";
        t.metadata["a"] = "b";
        T v = val(s);
        e = std::make_unique<Array3D<T>>(t, v);
        PBT_CHECK(e->geotransform == t.geotransform && e->projection == "p" && e->metadata == t.metadata, "template", "");
        m = M(), m.w = t.width(), m.h = t.height(), m.v.assign(9 * t.size(), v);
        Array2D<U> back(*e, U(2));
        PBT_CHECK(back.width() == m.w && back.height() == m.h && back.geotransform == t.geotransform, "template", "");
      }
    }
    if (changed >= 2 && m.w >= 2 && m.h >= 2) s.nontrivial();
    for (size_t q = 0; q < 3; q++) {
      auto &x = *a[q];
      const auto &cx = x;
      auto &xm = ms[q];
      PBT_CHECK(x.width() == xm.w && x.height() == xm.h && x.size() == size_t(xm.w) * xm.h && x.empty() == xm.v.empty(), "dims3", "");
      PBT_CHECK(x.noData() == xm.nd && x.owned() == !xm.buf, "nodata3", "");
      unsigned data = 0;
      for (int yy = 0; yy < xm.h; yy++)
        for (int xx = 0; xx < xm.w; xx++) {
          for (int n = 0; n < 9; n++) {
            const T want = xm.v[(yy * xm.w + xx) * 9 + n];
            PBT_CHECK(cx(xx, yy, n) == want && cx.getIN(yy * xm.w + xx, n) == want && x.getData()[x.xyToI(xx, yy, n)] == want, "cell3", "(", xx, ",", yy, ",", n, ") is ", +cx(xx, yy, n), ", should be ", +want);
          }
          bool nd = xm.v[(yy * xm.w + xx) * 9] == xm.nd;
          PBT_CHECK(x.isNoData(xx, yy) == nd && x.isNoData(yy * xm.w + xx) == nd, "isnodata3", "");
          data += !nd;
        }
      if (!xm.v.empty()) PBT_CHECK(x.numDataCells() == data, "numdatacells3", "numDataCells() is ", x.numDataCells(), ", should be ", data);
      if (xm.buf) {
        xm.buf->check();
        PBT_CHECK(std::equal(xm.v.begin(), xm.v.end(), xm.buf->p()), "wrapped-stale3", "");
      }
      for (size_t r = 0; r < 3; r++) {
        bool eq = xm.w == ms[r].w && xm.h == ms[r].h && xm.nd == ms[r].nd && xm.v == ms[r].v;
        PBT_CHECK((x == *a[r]) == eq, "equality3", "");
      }
    }
    for (auto &b : keep) b->check();
  }
}
PBT_PROP("array3d_" STR(TY), QN / 2, QN * 10, history3);

// ManagedVector: a vector, or a view of memory it must never free nor resize
static void managed(pbt::Source &s) {
  struct M {
    std::vector<T> v;
    std::shared_ptr<Buf> buf;
  };
  std::vector<std::unique_ptr<ManagedVector<T>>> a(3);
  std::vector<M> ms(3);
  std::vector<std::pair<std::shared_ptr<Buf>, std::vector<T>>> freed;
  for (auto &p : a) p = std::make_unique<ManagedVector<T>>();
  auto detach = [&](M &m) {
    if (m.buf) freed.push_back({m.buf, m.v});
    m.buf = nullptr;
  };
  int nops = s.range(1, 25), wraps = 0, moves = 0;
  for (int k = 0; k < nops; k++) {
    size_t ei = s.draw(3), oi = s.draw(3);
    auto &e = a[ei];
    auto &m = ms[ei];
    int op = s.draw(8);
    s.note(pbt::str(k, ": operation ", op, " on ", ei, " with ", oi));
    switch (op) {
      case 0: {
        size_t n = s.range(0, 9);
        T v = val(s);
        detach(m);
        e = std::make_unique<ManagedVector<T>>(n, v);
        m.v.assign(n, v);
        break;
      }
      case 1: {
        auto b = std::make_shared<Buf>(s.range(1, 9));
        for (size_t i = 0; i < b->n; i++) b->p()[i] = val(s);
        detach(m);
        if (s.coin()) e = std::make_unique<ManagedVector<T>>(b->p(), b->n);
        else *e = ManagedVector<T>(b->p(), b->n);
        m.buf = b, m.v.assign(b->p(), b->p() + b->n);
        wraps++;
        break;
      }
      case 2:
        if (ei == oi) break;
        detach(m);
        e = std::make_unique<ManagedVector<T>>(*static_cast<const ManagedVector<T> *>(a[oi].get()));
        m.v = ms[oi].v;
        break;
      case 3:
        if (ei == oi) break;
        detach(m);
        *e = *static_cast<const ManagedVector<T> *>(a[oi].get());
        m.v = ms[oi].v;
        break;
      case 4:
      case 5:
        if (ei == oi) break;
        detach(m);
        if (op == 4) e = std::make_unique<ManagedVector<T>>(std::move(*a[oi]));
        else *e = std::move(*a[oi]);
        m = ms[oi];
        ms[oi] = M();
        PBT_CHECK(a[oi]->empty() && a[oi]->owned() && a[oi]->data() == nullptr, "moved-from", "a vector moved from is not empty");
        moves++;
        break;
      case 6: {
        size_t n = s.range(0, 9);
        bool must = m.buf && n != m.v.size(), threw = false;
        try {
          e->resize(n);
        } catch (const std::runtime_error &) { threw = true; }
        PBT_CHECK(threw == must, "resize-wrapped", "");
        if (!threw && n != m.v.size()) {
          m.v.assign(n, T(1));
          for (size_t i = 0; i < n; i++) (*e)[i] = T(1);
        }
        break;
      }
      default: {
        if (m.v.empty()) break;
        size_t i = s.draw(m.v.size());
        T v = val(s);
        (*e)[i] = v;
        m.v[i] = v;
      }
    }
    if (wraps && moves) s.nontrivial();
    for (size_t q = 0; q < 3; q++) {
      const auto &x = *a[q];
      auto &xm = ms[q];
      PBT_CHECK(x.size() == xm.v.size() && x.empty() == xm.v.empty(), "mv-size", "size ", x.size(), ", should be ", xm.v.size());
      PBT_CHECK(x.owned() == !xm.buf, "mv-owned", "");
      if (xm.buf) PBT_CHECK(x.data() == xm.buf->p(), "mv-elsewhere", "");
      for (size_t i = 0; i < xm.v.size(); i++) PBT_CHECK(x[i] == xm.v[i] && x.data()[i] == xm.v[i], "mv-value", "element ", i, " is ", +x[i], ", should be ", +xm.v[i]);
      if (xm.buf) xm.buf->check();
    }
    for (auto &f : freed) {
      f.first->check();
      PBT_CHECK(std::equal(f.second.begin(), f.second.end(), f.first->p()), "mv-released", "memory no longer wrapped was altered");
    }
  }
}
PBT_PROP("managed_" STR(TY), QN / 2, QN * 10, managed);
