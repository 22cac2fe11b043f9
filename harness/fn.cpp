// Drives the functions below the clipper: rmath, path recording, path text and the
// broad phase.  Every case is one line of the trace; numbers that are not small
// integers are written exactly (multiples of 2^-40, see Big.tla).
#include "fnmain.h"
#include "rmath.h"
#include "river.h"
using namespace rmath;
typedef long double LD;
typedef __int128 i128;

// exact multiple of 2^-40 nearest to v, as <<sign, digits base 2^13>>
static void jbig(string& o, double v) {
  if (!std::isfinite(v) || std::fabs(v) > 1e20) { o += "[1,0,0,0,0,0,0,0,0,0,0,1]"; return; }   // far away from anything expected
  LD x = std::round(std::fabs((LD)v) * 1099511627776.0L);
  if (x == 0) { o += "[0]"; return; }
  i128 n = (i128)x; o += v < 0 ? "[-1" : "[1";
  while (n) { o += ","; jint(o, (long)(n & 8191)); n >>= 13; }
  o += "]";
}
static long unit24(double t) { if (!(t > -100 && t < 100)) return 1 << 30; return std::lround(t * 16777216.0); }
static void jhits(string& o, const intersect_info* d, int n, bool both) {
  o += ",\"h\":["; if (n > 12) n = 12;
  for (int i = 0; i < n; i++) {
    if (i) o += ","; o += "["; jbig(o, d[i].p.x); o += ","; jbig(o, d[i].p.y); o += ","; jbig(o, d[i].t0); o += ","; jbig(o, d[i].t1);
    if (both) { o += ","; jint(o, unit24(d[i].t0)); }
    o += ","; jint(o, unit24(d[i].t1)); o += "]";
  }
  o += "]";
}
static bezier_cubic bz(const vector<int>& k) { return bezier_cubic{vec2(k[0], k[1]), vec2(k[2], k[3]), vec2(k[4], k[5]), vec2(k[6], k[7])}; }
static void jbez(string& o, const bezier_cubic& b) {
  o += "["; const vec2* p[4] = {&b.p0, &b.p1, &b.p2, &b.p3};
  for (int i = 0; i < 4; i++) { if (i) o += ","; jbig(o, p[i]->x); o += ","; jbig(o, p[i]->y); }
  o += "]";
}
static vector<int> rnd_pts(Rng& r, int n, int m, int off) { vector<int> v; for (int i = 0; i < 2 * n; i++) v.push_back(r(m + 1) - off); return v; }

// ---------------------------------------------------------------- segments
static void case_seg(long id) {
  Rng r(opt.seed, id, 11); vector<int> s; int sc = 0;
  if (opt.kind) {   // every pair of segments on the kind x kind grid
    long g = opt.kind * opt.kind, n = g * (g - 1), a = id / n % n, b = id % n;
    auto dec = [&](long c) { long p = c / (g - 1), q = c % (g - 1); if (q >= p) q++; for (long z : {p, q}) { s.push_back(z % opt.kind); s.push_back(z / opt.kind); } };
    dec(a); dec(b);
  } else {
    int m = r.one(3) ? 100 : r.one(2) ? 12 : 5;
    do {
      s = rnd_pts(r, 4, 2 * m, m);
      if (r.one(3)) {   // collinear or touching
        int dx = s[2] - s[0], dy = s[3] - s[1], a = r(5) - 2, b = r(5) - 2;
        if (std::abs(a * dx) < 100 && std::abs(b * dx) < 100 && std::abs(a * dy) < 100 && std::abs(b * dy) < 100) {
          s[4] = s[0] + a * dx; s[5] = s[1] + a * dy;
          if (r.one(2)) { s[6] = s[0] + b * dx; s[7] = s[1] + b * dy; }
        }
      }
    } while ((s[0] == s[2] && s[1] == s[3]) || (s[4] == s[6] && s[5] == s[7]));
    sc = r.one(2) ? r.range(-20, 20) : 0;
  }
  double f = std::ldexp(1.0, sc); vec2 p[4]; for (int i = 0; i < 4; i++) p[i] = vec2(s[2 * i] * f, s[2 * i + 1] * f);
  auto res = intersect(p[0], p[1], p[2], p[3]);
  for (int i = 0; i < res.count && i < 2; i++) res.data[i].p = res.data[i].p / f;
  string o = head(id, "seg") + ",\"a\":"; jints(o, s); jhits(o, res.data, std::min(res.count, 2), false);
  if (res.count > 2) o += ",\"over\":1"; o += "}\n"; put(o);
}

// ---------------------------------------------------------------- independent reference (screening only)
static LD bern(const LD* v, LD t) { LD k = 1 - t; return v[0]*k*k*k + 3*v[1]*k*k*t + 3*v[2]*k*t*t + v[3]*t*t*t; }
static vector<LD> roots01(const LD* v) {   // sign changes on a fine grid, bisected
  vector<LD> r; const int N = 400; LD a = bern(v, 0);
  for (int i = 1; i <= N; i++) {
    LD b = bern(v, (LD)i / N);
    if ((a < 0) != (b < 0)) { LD lo = (LD)(i - 1) / N, hi = (LD)i / N; bool neg = a < 0; for (int k = 0; k < 60; k++) { LD m = (lo + hi) / 2; if ((bern(v, m) < 0) == neg) lo = m; else hi = m; } r.push_back((lo + hi) / 2); }
    a = b;
  }
  return r;
}

static vector<int> rnd_cubic(Rng& r) {
  int m = r.one(4) ? 8 : 32; vector<int> k = rnd_pts(r, 4, m, 0);
  int s = r(12);
  if (s == 0) { k[2] = k[0]; k[3] = k[1]; }                       // control point on the start
  else if (s == 1) { k[4] = k[6]; k[5] = k[7]; }
  else if (s == 2) { for (int i = 0; i < 2; i++) { k[2 + i] = k[i]; k[4 + i] = k[6 + i]; } }   // straight
  else if (s == 3) { int c = r(2); int a = r(10), d = r(10), e = r(3) - 1; for (int i = 0; i < 4; i++) k[2 * i + c] = a + i * d % 33 * 1 + 0 * e; }   // linear coordinate
  else if (s == 4) { k[6] = k[0]; k[7] = k[1]; }                  // closed
  else if (s == 5) { int c = r(2); k[6 + c] = k[c]; k[4 + c] = k[2 + c]; }   // symmetric: quadratic coordinate
  else if (s == 6) { int c = r(2), a = r(8), b = r(8), d = r(4); int q[4] = {a, a + b, a + 2 * b + d, a + 3 * b + 3 * d}; for (int i = 0; i < 4; i++) k[2 * i + c] = std::min(q[i], 40); }   // degree two
  return k;
}

static void case_lcub(long id) {
  Rng r(opt.seed, id, 12); vector<int> k = rnd_cubic(r), l;
  do { l = rnd_pts(r, 2, 40, 4); int z = r(6); if (z == 0) l[2] = l[0]; if (z == 1) l[3] = l[1]; if (z == 2) { l[0] = k[0]; l[1] = k[1]; } } while (l[0] == l[2] && l[1] == l[3]);
  auto res = intersect(line{vec2(l[0], l[1]), vec2(l[2], l[3])}, bz(k));
  LD sd[4], dt[4], dx = l[2] - l[0], dy = l[3] - l[1];
  for (int i = 0; i < 4; i++) { LD x = k[2*i] - l[0], y = k[2*i+1] - l[1]; sd[i] = dx * y - dy * x; dt[i] = (dx * x + dy * y) / (dx*dx + dy*dy); }
  bool sus = res.count > 3; int must = 0; vector<LD> R = roots01(sd);
  for (LD t : R) { LD u = bern(dt, t); if (u > 0.01 && u < 0.99 && t > 1e-4 && t < 1 - 1e-4) { must++; int n = 0; for (int j = 0; j < res.count && j < 3; j++) if (std::fabs(res.data[j].t1 - t) < 1e-6) n++; if (n != 1) sus = true; } }
  for (int j = 0; j < res.count && j < 3; j++) { auto& d = res.data[j]; vec2 q = bz(k).point_at(d.t1); if ((q - d.p).dist() > 1e-7 || std::hypot(l[0] + dx * d.t0 - d.p.x, l[1] + dy * d.t0 - d.p.y) > 1e-5L || d.t1 < 0 || d.t1 > 1 || d.t0 < -1e-6 || d.t0 > 1 + 1e-6) sus = true; }
  if (sus) shm->sus++;
  if (!(fwd(id) || (sus && shm->sus < opt.maxsus))) return;
  string o = head(id, "lcub") + ",\"l\":"; jints(o, l); o += ",\"k\":"; jints(o, k); jhits(o, res.data, std::min(res.count, 3), false); if (res.count > 3) o += ",\"over\":1"; o += "}\n"; put(o);
}

static void case_ccub(long id) {
  Rng r(opt.seed, id, 13); vector<int> a = rnd_cubic(r), b = rnd_cubic(r); int z = r(20);
  if (z == 0) b = a; else if (z == 1) { for (int i = 0; i < 4; i++) { b[2*i] = a[6-2*i]; b[2*i+1] = a[7-2*i]; } }
  else if (z < 8) {   // zigzags that cross several times
    int x0 = r(6), y0 = r(6); for (int i = 0; i < 4; i++) { int w = i % 2 ? 20 + r(12) : r(8); a[2*i] = x0 + i * 8; a[2*i+1] = w; b[2*i] = i % 2 ? 20 + r(12) : r(8); b[2*i+1] = y0 + i * 8; }
    if (r.one(2)) { a = {0, r(8), 60 - r(8), 32, -28 + r(8), 32, 32, r(8)}; for (int& v : a) v = std::max(-20, std::min(52, v)); b = {r(8), 0, 32, 60 - r(8), 32, -28 + r(8), r(8), 32}; for (int& v : b) v = std::max(-20, std::min(52, v)); }
  }
  else if (z < 11) {   // two zigzags across each other, up to nine crossings
    a = {r.range(0, 8), r.range(0, 8), r.range(52, 72), r.range(12, 24), r.range(-40, -16), r.range(12, 24), r.range(24, 32), r.range(24, 32)};
    b = {r.range(0, 8), r.range(0, 8), r.range(12, 24), r.range(52, 72), r.range(12, 24), r.range(-40, -16), r.range(24, 32), r.range(24, 32)};
  }
  // a stationary end of one on an end of the other: many candidates around one touch
  bool touch = z == 11 || opt.kind == 11; if (touch) { a = rnd_pts(r, 4, 32, 0); b = rnd_pts(r, 4, 32, 0); a[2] = a[0]; a[3] = a[1]; b[6] = a[0]; b[7] = a[1]; }
  int pr[] = {25, 40, 30, 22}; int p = pr[r(4)]; if (touch && p > 25) p = 25;
  // near-coincident curves make the subdivision explode: outside the property's scope
  bezier_cubic A = bz(a), B = bz(b); bool same = z <= 1;
  { bool flat = true; vector<int> q = a; q.insert(q.end(), b.begin(), b.end()); int f = 1; while (f < 8 && q[2*f] == q[0] && q[2*f+1] == q[1]) f++;
    for (int i = 1; i < 8 && f < 8; i++) flat &= (q[2*f] - q[0]) * (q[2*i+1] - q[1]) == (q[2*f+1] - q[1]) * (q[2*i] - q[0]);
    if (flat && !same) return; }
  if (!same) { int close = 0; for (int i = 0; i <= 40; i++) for (int j = 0; j <= 40; j++) { vec2 d = A.point_at(i / 40.) - B.point_at(j / 40.); if (d.dist2() < 0.25) close++; } if (close > 24) return; }
  cubic_intersect_result res = p == 25 && r.one(2) ? intersect(A, B) : intersect(A, B, p);
  string o = head(id, "ccub") + ",\"k\":"; jints(o, a); o += ",\"m\":"; jints(o, b); o += ",\"pr\":"; jint(o, p); jhits(o, res.data, std::min(res.count, 9), true); if (res.count > 9) o += ",\"over\":1"; o += "}\n"; put(o);
}

// ---------------------------------------------------------------- one cubic
static void case_bez(long id) {
  Rng r(opt.seed, id, 14); vector<int> k = rnd_cubic(r); bezier_cubic b = bz(k); string o;
  switch (opt.kind ? opt.kind - 1 : (int)(id % 6)) {
    case 0: {
      int n = 1 + r(4); vector<double> t; for (int i = 0; i < n; i++) t.push_back(r.one(4) ? r.range(1, 15) / 16. : r.one(6) ? 1e-5 * r.range(1, 50) : r.range(1, 999999) / 1e6);
      std::sort(t.begin(), t.end()); bool dup = false; for (int i = 1; i < n; i++) dup |= t[i] - t[i-1] < 1e-4; if (dup || t[n-1] > 1 - 1e-5) return;
      for (double& x : t) x = std::round(x * 1099511627776.0) / 1099511627776.0;
      vector<bezier_cubic> out(n + 1);
      if (n == 1 && r.one(2)) b.split(t[0], &out[0], &out[1]); else b.split(t.data(), out.data(), n);
      o = head(id, "split") + ",\"k\":"; jints(o, k); o += ",\"t\":["; for (int i = 0; i < n; i++) { if (i) o += ","; jbig(o, t[i]); } o += "],\"o\":["; for (int i = 0; i <= n; i++) { if (i) o += ","; jbez(o, out[i]); } o += "]}\n"; break;
    }
    case 1: {
      double t1 = -5, t2 = -5; int n = b.split_y(&t1, &t2); o = head(id, "splity") + ",\"k\":"; jints(o, k); o += ",\"t\":["; double t[2] = {t1, t2};
      for (int i = 0; i < n && i < 2; i++) { if (i) o += ","; jbig(o, t[i]); } if (n < 0 || n > 2) o += n > 2 && n >= 0 ? ",[1,7],[1,7],[1,7]" : "[1,7],[1,7],[1,7]"; o += "]}\n"; break;
    }
    case 2: { rect q = b.get_boundary(); o = head(id, "bound") + ",\"k\":"; jints(o, k); o += ",\"o\":["; jbig(o, q.min.x); o += ","; jbig(o, q.min.y); o += ","; jbig(o, q.max.x); o += ","; jbig(o, q.max.y); o += "]}\n"; break; }
    case 3: {
      int y = r.one(5) ? k[1 + 2 * r(4)] : r.range(-4, 40); auto q = b.point_at_y(y); o = head(id, "aty") + ",\"k\":"; jints(o, k); o += ",\"y\":"; jint(o, y); o += ",\"t\":[";
      int n = std::max(0, std::min(q.count, 3)); for (int i = 0; i < n; i++) { if (i) o += ","; o += "["; jbig(o, q.t[i]); o += ","; jint(o, unit24(q.t[i])); o += "]"; } o += "]}\n"; break;
    }
    case 4: { double t = r.one(5) ? r(17) / 16. : std::round(r.u() * 1099511627776.0) / 1099511627776.0; vec2 p = b.point_at(t); o = head(id, "at") + ",\"k\":"; jints(o, k); o += ",\"t\":"; jbig(o, t); o += ",\"o\":["; jbig(o, p.x); o += ","; jbig(o, p.y); o += "]}\n"; break; }
    case 5: {
      int x = r.range(-100, 100), y = r.range(-100, 100), q = r.range(1, 200); bezier_cubic c[4]; bezier_cubic::circle(vec2(x, y), q, c);
      o = head(id, "circle") + ",\"a\":"; jints(o, {x, y, q}); o += ",\"o\":["; for (int i = 0; i < 4; i++) { if (i) o += ","; jbez(o, c[i]); } o += "]}\n"; break;
    }
  }
  put(o);
}

// ---------------------------------------------------------------- equations
static void jroots(string& o, const double* x, int n) {
  o += ",\"x\":["; for (int i = 0; i < n && i < 3; i++) { if (i) o += ","; o += "["; jbig(o, x[i]); o += ","; double v = x[i]; jint(o, v > -128 && v < 128 ? std::lround((v + 128) * 4194304.0) : 0); o += "]"; } o += "]";
}
static void case_solve(long id) {
  Rng r(opt.seed, id, 15); vector<int> c; string o; double x[3] = {0, 0, 0}; int n = 0; bool quad = false;
  if (r.one(3)) {   // known integer roots, multiple ones allowed
    int a = r.range(1, 3) * (r.one(2) ? 1 : -1), m = r.one(3) ? 2 : 3; vector<int> rs; for (int i = 0; i < m; i++) rs.push_back(i && r.one(2) ? rs[r(i)] : r.range(-12, 12));
    if (m == 3) c = {a, -a * (rs[0] + rs[1] + rs[2]), a * (rs[0]*rs[1] + rs[0]*rs[2] + rs[1]*rs[2]), -a * rs[0]*rs[1]*rs[2]}; else c = {0, a, -a * (rs[0] + rs[1]), a * rs[0] * rs[1]};
    quad = m == 2 && r.one(2); o = head(id, "solvem") + ",\"a\":"; jint(o, a); o += ",\"r\":"; jints(o, rs);
  } else {
    int m = r.one(2) ? 6 : 60; c = {r.range(-m, m), r.range(-m, m), r.range(-m, m), r.range(-m, m)};
    int z = r(8); if (z == 0) c[0] = 0; if (z == 1) c[0] = c[1] = 0; if (z == 2) c[0] = c[1] = c[2] = 0; if (z == 3) c[1] = c[2] = 0; if (z == 4) c[1] = 0; if (z == 5) c[3] = 0;
    if (!c[0] && !c[1] && !c[2] && !c[3]) c[3] = 5;
    quad = c[0] == 0 && r.one(2); o = head(id, "solve");
  }
  if (quad) { auto q = resolv_quad_equa(c[1], c[2], c[3]); n = q.count; for (int i = 0; i < n && i < 2; i++) x[i] = q.data[i]; n = std::min(n, 2); }
  else { auto q = resolv_cubic_equa(c[0], c[1], c[2], c[3]); n = q.count; for (int i = 0; i < n && i < 3; i++) x[i] = q.data[i]; }
  o += ",\"c\":"; jints(o, c); jroots(o, x, std::max(0, std::min(n, 3))); o += "}\n"; put(o);
}

// ---------------------------------------------------------------- path objects
static const double tab[] = {0.0, 1, 2, -1, 0.1, -2.5, 1e308, -1e-308, 5e-324, HUGE_VAL, -HUGE_VAL, 3.141592653589793, 123456789.125, -0.0, 1e-17, 7};
static const int NT = sizeof tab / sizeof *tab;
static int index_of(double v) { for (int i = 0; i < NT; i++) if (!memcmp(&v, &tab[i], 8)) return i; return 99; }
struct Seen { string calls; void* want; bool ok = true; bool first = true; };
static void call(Seen* s, int kind, const river::point& from, std::initializer_list<const river::point*> ps) {
  string& o = s->calls; if (!s->first) o += ","; s->first = false; o += "["; jint(o, kind); o += ",["; jint(o, index_of(from.x)); o += ","; jint(o, index_of(from.y)); o += "],[";
  bool f = true; for (auto p : ps) { if (!f) o += ","; f = false; jint(o, index_of(p->x)); o += ","; jint(o, index_of(p->y)); } o += "]]";
}
static Seen* cur;   // where the calls belong whatever user pointer arrives
static void p_move(path_moveto_func_para) { if (user != cur->want) cur->ok = false; call(cur, 1, from, {&to}); }
static void p_line(path_lineto_func_para) { if (user != cur->want) cur->ok = false; call(cur, 2, from, {&to}); }
static void p_cubic(path_cubicto_func_para) { if (user != cur->want) cur->ok = false; call(cur, 3, from, {&ctrl1, &ctrl2, &to}); }
static void case_path(long id) {
  Rng r(opt.seed, id, 16); std::unique_ptr<river::path> sl[5]; for (int i = 1; i <= 4; i++) sl[i].reset(new river::path);
  string o = head(id, "path") + ",\"x\":["; bool pile = r.one(5); int n = pile ? 20 + r(r.one(4) ? 160 : 50) : 3 + r(r.one(4) ? 40 : 14); bool first = true; int last = 1;
  auto num = [&] { return r.one(2) ? r(4) : r(NT); };
  for (int k = 0; k < n; k++) {
    if (!first) o += ","; first = false;
    int z = pile && !r.one(8) ? 0 : r(10), s = pile ? (r.one(12) ? 1 + r(4) : last) : 1 + r(r.one(2) ? 1 : 4);
    if (z < 5) {
      int kind = 1 + r(3), v[6]; for (int& x : v) x = num(); double d[6]; for (int i = 0; i < 6; i++) d[i] = tab[v[i]];
      river::path& p = *sl[s]; bool sp = r.one(2);
      if (kind == 1) { if (sp) p.moveto(d[0], d[1]); else p.moveto(river::point(d[0], d[1])); }
      else if (kind == 2) { if (sp) p.lineto(d[0], d[1]); else p.lineto(river::point(d[0], d[1])); }
      else p.cubicto(river::point(d[0], d[1]), river::point(d[2], d[3]), river::point(d[4], d[5]));
      o += "[\"b\","; jint(o, s); o += ","; jint(o, kind); o += ","; jints(o, vector<int>(v, v + (kind == 3 ? 6 : 2))); o += "]";
    } else if (z == 5) {
      int t = 1 + r(4); if (t == s) t = t % 4 + 1;
      last = r.one(2) ? s : t;   // what was moved from is recorded into again
      if (r.one(2)) sl[t].reset(new river::path(std::move(*sl[s])));
      else { river::paths v; v.push_back(std::move(*sl[s])); for (int i = 0; i < 5; i++) v.push_back(river::path()); sl[t].reset(new river::path(std::move(v[0]))); }
      o += "[\"m\","; jint(o, s); o += ","; jint(o, t); o += "]";
    } else {
      int mask = r.one(3) ? 7 : r(8); Seen sn; char dummy; sn.want = r.one(4) ? nullptr : r.one(2) ? (void*)&dummy : (void*)&sn; cur = &sn; vector<int> ks;
      river::path_traverse_funcs f; if (mask & 1) { f.move_to = p_move; ks.push_back(1); } if (mask & 2) { f.line_to = p_line; ks.push_back(2); } if (mask & 4) { f.cubic_to = p_cubic; ks.push_back(3); }
      const river::path& p = *sl[s]; p.traverse(f, sn.want);
      o += "[\"t\","; jint(o, s); o += ","; jints(o, ks); o += ",[" + sn.calls + "],"; jint(o, sn.ok); o += "]";
    }
  }
  o += "]}\n"; put(o);
}

// ---------------------------------------------------------------- path text
static void jdec(string& o, double v) {
  if (v == 0) { o += "[1,0,0,0]"; return; }
  if (!std::isfinite(v)) { o += "[7,0,0,0]"; return; }
  char b[40]; snprintf(b, sizeof b, "%.11e", std::fabs(v)); long hi = 0, lo = 0; int k = 0; const char* p = b;
  for (; *p && *p != 'e'; p++) if (isdigit(*p)) { if (k < 6) hi = hi * 10 + *p - 48; else lo = lo * 10 + *p - 48; k++; }
  o += v < 0 ? "[-1," : "[1,"; jint(o, hi); o += ","; jint(o, lo); o += ","; jint(o, atol(p + 1) + 1); o += "]";
}
static string rnd_num(Rng& r) {
  string s; int z = r(10); if (z < 3) s += "-"; else if (z == 3) s += "+";
  auto dig = [&](int n) { for (int i = 0; i < n; i++) s += char('0' + r(10)); };
  switch (r(6)) { case 0: case 1: dig(1 + r(3)); break; case 2: dig(1 + r(3)); s += "."; dig(r(5)); break; case 3: s += "."; dig(1 + r(5)); break; case 4: dig(1 + r(4)); s += "."; dig(1 + r(4)); break; default: dig(1); }
  if (r.one(5)) { s += r.one(2) ? "e" : "E"; int q = r(3); if (q == 1) s += "-"; if (q == 2) s += "+"; dig(1 + r(2)); }
  return s;
}
static string rnd_text(Rng& r) {
  string s; const char* ws[] = {" ", "  ", "\n", "\t", "\r\n", "\v", "\f", " \t\n"};
  auto sp = [&](bool need) { if (need || r.one(2)) s += ws[r.one(3) ? r(8) : 0]; };
  int n = r(9); if (r.one(4)) sp(true);
  for (int i = 0; i < n; i++) {
    char c = i == 0 && !r.one(5) ? 'm' : "mlllccca"[r(8)]; s += c; int k = c == 'c' ? 6 : c == 'a' ? 4 : 2;
    for (int j = 0; j < k; j++) { sp(false); string t = rnd_num(r); char b = s.back(); if ((isdigit(b) || b == '.') && (isdigit(t[0]) || t[0] == '.') && !r.one(12)) s += " "; s += t; }
    sp(false);
  }
  int m = r.one(2) ? 0 : 1 + r(3); const char* al = "mlca0123456789.-+eE  \nxzMLC,;#\x7f\xc3(";
  while (m-- && !s.empty()) { int p = r((int)s.size()); switch (r(4)) { case 0: s.erase(p, 1); break; case 1: s.insert(p, 1, al[r((int)strlen(al))]); break; case 2: s[p] = al[r((int)strlen(al))]; break; default: s.resize(p); } }
  return s;
}
static void case_text(long id) {
  string s;
  if (opt.kind && opt.kind < 10) { const char* al = "ml1-.e c2"; long x = id; for (int i = 0; i < opt.kind; i++) { s += al[x % 9]; x /= 9; } }
  else if (opt.kind) { const char* tk[] = {"m", "l", "c", "a", "1 ", "-2.5", " .5e1", "\n", "x", "m 1 2 ", "3 4 5 6 "}; long x = id; for (int i = 0; i < opt.kind - 10; i++) { s += tk[x % 11]; x /= 11; } }
  else { Rng r(opt.seed, id, 17); s = rnd_text(r); }
  for (size_t i = 0; i < s.size(); i++) if (s[i] == 'e' || s[i] == 'E') { size_t j = i + 1; if (j < s.size() && (s[j] == '+' || s[j] == '-')) j++; size_t k = j; while (k < s.size() && isdigit(s[k])) k++; if (k - j > 2) return; }
  river::paths ps = river::make_path(s.c_str());
  string o = head(id, "text") + ",\"s\":["; for (size_t i = 0; i < s.size(); i++) { if (i) o += ","; jint(o, (unsigned char)s[i]); } o += "],\"o\":[";
  struct W { string* o; bool first; } w;
  for (size_t i = 0; i < ps.size(); i++) {
    if (i) o += ","; o += "["; w = W{&o, true};
    river::path_traverse_funcs f;
    f.move_to = [](path_moveto_func_para) { W* w = (W*)user; if (!w->first) *w->o += ","; w->first = false; *w->o += "[1,["; jdec(*w->o, to.x); *w->o += ","; jdec(*w->o, to.y); *w->o += "]]"; };
    f.line_to = [](path_lineto_func_para) { W* w = (W*)user; if (!w->first) *w->o += ","; w->first = false; *w->o += "[2,["; jdec(*w->o, to.x); *w->o += ","; jdec(*w->o, to.y); *w->o += "]]"; };
    f.cubic_to = [](path_cubicto_func_para) { W* w = (W*)user; if (!w->first) *w->o += ","; w->first = false; *w->o += "[3,["; bool a = true; for (auto p : {&ctrl1, &ctrl2, &to}) { if (!a) *w->o += ","; a = false; jdec(*w->o, p->x); *w->o += ","; jdec(*w->o, p->y); } *w->o += "]]"; };
    ps[i].traverse(f, &w); o += "]";
  }
  o += "]}\n"; put(o);
}

// ---------------------------------------------------------------- vectors, rectangles, lines
static bool whole(double v) { return v == std::floor(v) && std::fabs(v) < 1e9; }
static void jw(string& o, double v) { if (whole(v)) jint(o, (long)v); else o += "-1999999999"; }
static void jws(string& o, std::initializer_list<double> v) { o += "["; bool f = true; for (double x : v) { if (!f) o += ","; f = false; jw(o, x); } o += "]"; }
static void case_help(long id) {
  Rng r(opt.seed, id, 19); string o; int m = r.one(2) ? 6 : 900; auto n = [&] { return r.range(-m, m); };
  auto box = [&](vector<int>& a) { int x = n(), y = n(), w = r.one(3) ? 0 : r(m), h = r.one(3) ? 0 : r(m); a.insert(a.end(), {x, y, x + w, y + h}); };
  vector<int> a;
  switch (id % 5) {
    case 0: { box(a); box(a); if (r.one(4)) { int k = r(2); a[4 + k] = a[2 + k]; a[6 + k] = std::max(a[6 + k], a[4 + k]); }
      rect p(vec2(a[0], a[1]), vec2(a[2], a[3])), q(vec2(a[4], a[5]), vec2(a[6], a[7]));
      o = head(id, "rhit") + ",\"a\":"; jints(o, a); o += ",\"o\":"; jints(o, {p.intersect(q), q.intersect(p), p.intersect(p)}); break; }
    case 1: { box(a); int k = r(20); rect p(vec2(a[0], a[1]), vec2(a[2], a[3])), q = p.inflated(k), t(vec2(a[0], a[1]), k), u(vec2(a[0], a[1])); vec2 c = p.center() * 2;
      a.push_back(k); o = head(id, "rbox") + ",\"a\":"; jints(o, a); o += ",\"o\":"; jws(o, {p.width(), p.height(), c.x, c.y, q.min.x, q.min.y, q.max.x, q.max.y, t.min.x, t.min.y, t.max.x, t.max.y, u.min.x, u.min.y, u.max.x, u.max.y}); break; }
    case 2: { for (int i = 0; i < 10; i++) a.push_back(n()); vec2 v[5]; for (int i = 0; i < 5; i++) v[i] = vec2(a[2*i], a[2*i+1]); int k = 1 + r(5); a.resize(2 * k);
      rect q = k == 1 ? rect::from({v[0]}) : k == 2 ? rect::from({v[0], v[1]}) : k == 3 ? rect::from({v[0], v[1], v[2]}) : k == 4 ? rect::from({v[0], v[1], v[2], v[3]}) : rect::from({v[0], v[1], v[2], v[3], v[4]});
      o = head(id, "rfrom") + ",\"a\":"; jints(o, a); o += ",\"o\":"; jws(o, {q.min.x, q.min.y, q.max.x, q.max.y}); break; }
    case 3: { for (int i = 0; i < 6; i++) a.push_back(n()); if (r.one(6)) { a[2] = a[0]; } if (r.one(6)) a[3] = a[1]; if (r.one(8)) { a[4] = a[r(2) * 2]; a[5] = a[1]; }
      vec2 p(a[4], a[5]), s(a[0], a[1]), e(a[2], a[3]); double A, B, C; line l{s, e}; l.general_from(&A, &B, &C);
      o = head(id, "line") + ",\"a\":"; jints(o, a); o += ",\"o\":"; jws(o, {A, B, C}); o += ",\"in\":"; jint(o, point_project_in_segment(p, s, e)); break; }
    default: { for (int i = 0; i < 5; i++) a.push_back(n()); vec2 p(a[0], a[1]), q(a[2], a[3]), s = p + q, d = p - q, g = -p, t = p * a[4], u = a[4] * p, b = p + (double)a[4], e = p - (double)a[4];
      if (r.one(5)) { q = p; a[2] = a[0]; a[3] = a[1]; s = p + q; d = p - q; }
      o = head(id, "vec") + ",\"a\":"; jints(o, a); o += ",\"o\":"; jws(o, {s.x, s.y, d.x, d.y, g.x, g.y, t.x, t.y, u.x, u.y, b.x, b.y, e.x, e.y, p.dot(q), p.cross(q), p.dist2(), (double)(p == q), (double)(p != q)}); }
  }
  o += "}\n"; put(o);
}

static void one_case(long i) {
  if (opt.mode == "seg") case_seg(i); else if (opt.mode == "lcub") case_lcub(i); else if (opt.mode == "ccub") case_ccub(i);
  else if (opt.mode == "bez") case_bez(i); else if (opt.mode == "solve") case_solve(i); else if (opt.mode == "help") case_help(i); else if (opt.mode == "path") case_path(i); else if (opt.mode == "text") case_text(i);
  else { fprintf(stderr, "unknown mode\n"); _exit(3); }
}
