// Shared parts of the drivers: integer shapes, transforms, history execution on
// the real library, JSON trace output, oracle tables compiled from Oracle.tla.
#pragma once
#include "river.h"
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using std::string;
using std::vector;
using river::point;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t a = 1, uint64_t b = 0, uint64_t c = 0) {
    s = a + 0x1234567; s = next() + b; s = next() + c; s = next();   // unrelated streams for every (a, b, c)
  }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int operator()(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
  int range(int a, int b) { return a + (*this)(b - a + 1); }
  bool one(int n) { return (*this)(n) == 0; }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

// ---------------------------------------------------------------- shapes
struct Seg { bool cubic = false; int v[6] = {0,0,0,0,0,0}; int ex() const { return cubic ? v[4] : v[0]; } int ey() const { return cubic ? v[5] : v[1]; } };
struct Contour {
  int x = 0, y = 0; vector<Seg> s;
  Contour() {}
  Contour(int X, int Y) : x(X), y(Y) {}
  void line(int a, int b) { Seg g; g.v[0] = a; g.v[1] = b; s.push_back(g); }
  void cubic(int a, int b, int c, int d, int e, int f) { Seg g; g.cubic = true; int q[6] = {a,b,c,d,e,f}; memcpy(g.v, q, sizeof q); s.push_back(g); }
  bool curved() const { for (auto& g : s) if (g.cubic) return true; return false; }
};
typedef vector<Contour> Shape;
struct IP { int x, y; };
static inline Contour poly(const vector<IP>& p) { Contour c(p[0].x, p[0].y); for (size_t i = 1; i < p.size(); i++) c.line(p[i].x, p[i].y); return c; }
static inline vector<IP> verts(const Contour& c) { vector<IP> r{{c.x, c.y}}; for (auto& g : c.s) r.push_back({g.ex(), g.ey()}); return r; }

// real = M * int + t
struct Xf {
  double a = 1, b = 0, c = 0, d = 1, tx = 0, ty = 0;
  point fwd(double x, double y) const { return point(a * x + b * y + tx, c * x + d * y + ty); }
  point inv(const point& p) const {
    double det = a * d - b * c, x = p.x - tx, y = p.y - ty;
    return point((d * x - b * y) / det, (-c * x + a * y) / det);
  }
  bool mirrored() const { return a * d - b * c < 0; }
  double scale() const { return std::sqrt(std::abs(a * d - b * c)); }
};

// a contour in quanta, but real valued
struct DSeg { bool cubic; point c1, c2, to; };
struct DContour { point from; vector<DSeg> s; bool exact_closed = false; };
typedef vector<DContour> DShape;

static inline void emit_contour(river::path& p, const Contour& c, const Xf& f) {
  p.moveto(f.fwd(c.x, c.y));
  for (auto& g : c.s) {
    if (g.cubic) p.cubicto(f.fwd(g.v[0], g.v[1]), f.fwd(g.v[2], g.v[3]), f.fwd(g.v[4], g.v[5]));
    else p.lineto(f.fwd(g.v[0], g.v[1]));
  }
}

// ---------------------------------------------------------------- JSON
static inline void jint(string& o, long v) { char b[24]; snprintf(b, sizeof b, "%ld", v); o += b; }
static inline void jcontour(string& o, const Contour& c) {
  o += "[["; jint(o, c.x); o += ","; jint(o, c.y); o += "]";
  for (auto& g : c.s) { o += ",["; int n = g.cubic ? 6 : 2; for (int i = 0; i < n; i++) { if (i) o += ","; jint(o, g.v[i]); } o += "]"; }
  o += "]";
}
static inline void jshape(string& o, const Shape& s) { o += "["; for (size_t i = 0; i < s.size(); i++) { if (i) o += ","; jcontour(o, s[i]); } o += "]"; }
static inline long q(double v) {
  if (!(v > -30000 && v < 30000)) return v > 0 ? 30000 : -30000;   // keeps TLC inside 32 bits; far outside any input
  return std::lround(v);
}
static inline void jdshape(string& o, const DShape& s) {
  o += "[";
  for (size_t i = 0; i < s.size(); i++) {
    if (i) o += ",";
    o += "[["; jint(o, q(s[i].from.x)); o += ","; jint(o, q(s[i].from.y)); o += "]";
    for (auto& g : s[i].s) {
      o += ",[";
      if (g.cubic) { double v[4] = {g.c1.x, g.c1.y, g.c2.x, g.c2.y}; for (double d : v) { jint(o, q(d)); o += ","; } }
      jint(o, q(g.to.x)); o += ","; jint(o, q(g.to.y)); o += "]";
    }
    o += "]";
  }
  o += "]";
}
static inline string hexd(double v) { char b[40]; snprintf(b, sizeof b, "%a", v == 0 ? 0.0 : v); return b; }

// ---------------------------------------------------------------- flattening and winding (screening only)
static inline point bez(point a, point b, point c, point d, double t) {
  double k = 1 - t; return a * (k*k*k) + b * (3*k*k*t) + c * (3*k*t*t) + d * (t*t*t);
}
typedef vector<vector<point>> Flat;
static inline Flat flat(const DShape& s, int n = 64) {
  Flat f;
  for (auto& c : s) {
    vector<point> p{c.from}; point cur = c.from;
    for (auto& g : c.s) {
      if (g.cubic) for (int i = 1; i <= n; i++) p.push_back(i == n ? g.to : bez(cur, g.c1, g.c2, g.to, i / (double)n));
      else p.push_back(g.to);
      cur = g.to;
    }
    f.push_back(std::move(p));
  }
  return f;
}
static inline DShape todouble(const Shape& s) {
  DShape r;
  for (auto& c : s) {
    DContour d; d.from = point(c.x, c.y);
    for (auto& g : c.s) {
      DSeg e; e.cubic = g.cubic;
      if (g.cubic) { e.c1 = point(g.v[0], g.v[1]); e.c2 = point(g.v[2], g.v[3]); e.to = point(g.v[4], g.v[5]); }
      else e.to = point(g.v[0], g.v[1]);
      d.s.push_back(e);
    }
    r.push_back(std::move(d));
  }
  return r;
}
static inline int wind(const Flat& f, double qx, double qy) {
  int w = 0;
  for (auto& p : f) {
    size_t n = p.size();
    for (size_t i = 0; i < n; i++) {
      const point& a = p[i]; const point& b = p[i + 1 == n ? 0 : i + 1];
      if ((a.y <= qy) == (b.y <= qy)) continue;
      double c = (b.x - a.x) * (qy - a.y) - (qx - a.x) * (b.y - a.y);
      if (a.y <= qy) { if (c > 0) w++; } else if (c < 0) w--;
    }
  }
  return w;
}
static inline double distseg(const point& a, const point& b, double qx, double qy) {
  double dx = b.x - a.x, dy = b.y - a.y, d2 = dx*dx + dy*dy;
  double t = d2 > 0 ? ((qx - a.x) * dx + (qy - a.y) * dy) / d2 : 0;
  t = t < 0 ? 0 : t > 1 ? 1 : t;
  double ex = qx - a.x - t*dx, ey = qy - a.y - t*dy;
  return std::sqrt(ex*ex + ey*ey);
}
static inline double distflat(const Flat& f, double qx, double qy) {
  double m = 1e300;
  for (auto& p : f) { size_t n = p.size(); for (size_t i = 0; i < n; i++) m = std::min(m, distseg(p[i], p[i + 1 == n ? 0 : i + 1], qx, qy)); }
  return m;
}

// ---------------------------------------------------------------- oracle tables
struct Tables {
  bool ok = false; int g = 0, ns = 0;
  vector<IP> samples; vector<vector<signed char>> rows; // [i*np+j] -> codes (i<j)
  int fill[4][65]; int op[5][4];
  struct Atom { int x, y, dx, dy, l, r; }; vector<Atom> atoms;
  int np() const { return (g + 1) * (g + 1); }
  bool load(const char* file) {
    FILE* f = fopen(file, "r"); if (!f) return false;
    auto rd = [&]() { int v = 0; if (fscanf(f, "%d", &v) != 1) { v = -99999; } return v; };
    g = rd(); ns = rd();
    for (int i = 0; i < ns; i++) { int x = rd(), y = rd(); samples.push_back({x, y}); }
    for (auto& r : fill) for (int& v : r) v = rd();
    for (auto& r : op) for (int& v : r) v = rd();
    int na = rd(); for (int i = 0; i < na; i++) { Atom a; a.x = rd(); a.y = rd(); a.dx = rd(); a.dy = rd(); a.l = rd(); a.r = rd(); atoms.push_back(a); }
    int n = rd(); rows.resize(np() * np());
    for (int i = 0; i < n; i++) { int a = rd(), b = rd(); auto& r = rows[a * np() + b]; r.resize(ns); for (int k = 0; k < ns; k++) r[k] = (signed char)rd(); }
    fclose(f); ok = n == np() * (np() - 1) / 2; return ok;
  }
  // adds the contour's windings and clears the clear flags; false if off the lattice
  bool add(const Contour& c, vector<int>& w, vector<char>& clr) const {
    auto v = verts(c); size_t n = v.size();
    for (auto& p : v) if (p.x % 60 || p.y % 60 || p.x < 0 || p.y < 0 || p.x > g * 60 || p.y > g * 60) return false;
    for (size_t i = 0; i < n; i++) {
      auto& a = v[i]; auto& b = v[i + 1 == n ? 0 : i + 1];
      int ia = a.y / 60 * (g + 1) + a.x / 60, ib = b.y / 60 * (g + 1) + b.x / 60;
      if (ia == ib) continue;
      bool fl = ia > ib; auto& r = rows[fl ? ib * np() + ia : ia * np() + ib];
      for (int k = 0; k < ns; k++) { int cd = r[k] % 3 - 1; w[k] += fl ? -cd : cd; if (r[k] < 3) clr[k] = 0; }
    }
    return true;
  }
  bool expect(int o, int rule, int ws, int wc) const {
    auto cl = [](int w) { return w < -32 ? -32 : w > 32 ? 32 : w; };
    return op[o][fill[rule][cl(ws) + 32] * 2 + fill[rule][cl(wc) + 32]];
  }
};
static inline bool fills(int rule, int w) { return rule == 0 ? (w & 1) : rule == 1 ? w != 0 : rule == 2 ? w > 0 : w < 0; }
static inline bool combine(int op, bool s, bool c) { return op == 1 ? s && c : op == 2 ? s || c : op == 3 ? s && !c : op == 4 ? s != c : false; }

// ---------------------------------------------------------------- reading results
struct Collect { DShape out; const Xf* f; vector<point> rawv; };
static inline void col_m(path_moveto_func_para) { auto c = (Collect*)user; DContour d; d.from = c->f->inv(to); c->out.push_back(d); c->rawv.push_back(to); }
static inline void col_l(path_lineto_func_para) { auto c = (Collect*)user; if (c->out.empty()) c->out.push_back(DContour{}); DSeg s; s.cubic = false; s.to = c->f->inv(to); c->out.back().s.push_back(s); c->rawv.push_back(to); }
static inline void col_c(path_cubicto_func_para) { auto c = (Collect*)user; if (c->out.empty()) c->out.push_back(DContour{}); DSeg s; s.cubic = true; s.c1 = c->f->inv(ctrl1); s.c2 = c->f->inv(ctrl2); s.to = c->f->inv(to); c->out.back().s.push_back(s); c->rawv.push_back(to); }
static inline river::path_traverse_funcs collect_funcs() { river::path_traverse_funcs t; t.move_to = col_m; t.line_to = col_l; t.cubic_to = col_c; return t; }

static inline DShape read_paths(const river::paths& ps, const Xf& f, size_t from = 0, vector<point>* raw = nullptr) {
  Collect c; c.f = &f;
  for (size_t i = from; i < ps.size(); i++) {
    size_t k = c.out.size();
    ps[i].traverse(collect_funcs(), &c);
    for (; k < c.out.size(); k++) {
      // exact closure: compare raw doubles of the path
      auto& d = ps[i].data; auto n = d.size();
      c.out[k].exact_closed = n >= 4 && d[0] == d[n - 2] && d[1] == d[n - 1];
    }
  }
  if (raw) *raw = c.rawv;
  return c.out;
}

static inline void dump_path_text(string& o, const Shape& s) {
  char b[200];
  for (auto& c : s) {
    snprintf(b, sizeof b, " m %d %d", c.x, c.y); o += b;
    for (auto& g : c.s) {
      if (g.cubic) snprintf(b, sizeof b, " c %d %d %d %d %d %d", g.v[0], g.v[1], g.v[2], g.v[3], g.v[4], g.v[5]);
      else snprintf(b, sizeof b, " l %d %d", g.v[0], g.v[1]);
      o += b;
    }
  }
}
