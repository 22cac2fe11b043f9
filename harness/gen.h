// Random inputs. Lattice families live on the oracle lattice (unit 60 quanta),
// general families on integer quanta; both are exact in the specification.
#pragma once
#include "hv.h"

struct Case { Shape S, C; bool lattice = false, oct = false, curved = false; int clr = 3; int fam = 0; };
static const int U = 60;

namespace gen {
static inline vector<IP> rectv(Rng& r, int G) {
  int x0 = r(G), x1 = r.range(x0 + 1, G), y0 = r(G), y1 = r.range(y0 + 1, G);
  vector<IP> p{{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}};
  if (r.one(3)) std::reverse(p.begin(), p.end());
  std::rotate(p.begin(), p.begin() + r(4), p.end());
  return p;
}
static inline vector<IP> polyv(Rng& r, int G, int n) { vector<IP> p; while (n--) p.push_back({r(G + 1), r(G + 1)}); return p; }
static inline vector<IP> octv(Rng& r, int G, int n, bool diag) {
  static const int dx[] = {1,0,-1,0,1,-1,-1,1}, dy[] = {0,1,0,-1,1,1,-1,-1};
  vector<IP> p; int x = r(G + 1), y = r(G + 1), sx = x, sy = y; p.push_back({x, y});
  for (int i = 0; i < n; i++) {
    int d = r(diag ? 8 : 4), l = 1 + r(G), m = 0;
    while (m < l && x + dx[d] >= 0 && x + dx[d] <= G && y + dy[d] >= 0 && y + dy[d] <= G) { x += dx[d]; y += dy[d]; m++; }
    if (m) p.push_back({x, y});
  }
  int ex = sx - x, ey = sy - y;
  if (diag) { int m = std::min(abs(ex), abs(ey)); if (m && abs(ex) != abs(ey)) { x += m * (ex > 0 ? 1 : -1); y += m * (ey > 0 ? 1 : -1); p.push_back({x, y}); } }
  else if (ex && ey) { if (r.one(2)) x = sx; else y = sy; p.push_back({x, y}); }
  return p;
}
static inline Contour lat(const vector<IP>& p) { vector<IP> v; for (auto& a : p) v.push_back({a.x * U, a.y * U}); return poly(v); }

// one lattice shape; kind 0 rects, 1 polygon, 2 several polygons, 3 octilinear, 4 rectilinear,
// 5 nested rings, 6 spikes, 7 many contours
static inline Shape lattice(Rng& r, int kind) {
  Shape s; static const int gs[] = {2, 3, 4, 6, 6}; int G = gs[r(5)];
  switch (kind) {
  case 0: { int n = 1 + r(3); while (n--) s.push_back(lat(rectv(r, G))); break; }
  case 1: s.push_back(lat(polyv(r, G, 3 + r(4)))); break;
  case 2: { int n = 1 + r(3); while (n--) s.push_back(lat(polyv(r, G, 3 + r(6)))); break; }
  case 3: { int n = 1 + r(3); while (n--) s.push_back(lat(octv(r, G, 3 + r(7), true))); break; }
  case 4: { int n = 1 + r(3); while (n--) s.push_back(lat(octv(r, G, 3 + r(9), false))); break; }
  case 5: {
    int d = r(2), n = 1 + r(3); bool flip = r.one(2);
    for (int i = 0; i < n && d + i < 6 - d - i; i++) {
      int a = d + i, b = 6 - d - i; vector<IP> p{{a, a}, {b, a}, {b, b}, {a, b}};
      if ((i & 1) && flip) std::reverse(p.begin(), p.end());
      s.push_back(lat(p));
    }
    if (r.one(2)) s.push_back(lat(rectv(r, 6)));
    break; }
  case 6: {
    vector<IP> p = r.one(2) ? rectv(r, G) : polyv(r, G, 3 + r(3));
    int n = 1 + r(2);
    while (n--) { int i = r(p.size()); IP a = p[i], t{r(G + 1), r(G + 1)}; p.insert(p.begin() + i + 1, {t, a}); if (r.one(2)) p.insert(p.begin() + i, a); }
    s.push_back(lat(p)); break; }
  default: { int n = 4 + r(6); while (n--) s.push_back(lat(r.one(2) ? rectv(r, 6) : polyv(r, 6, 3 + r(2)))); break; }
  }
  return s;
}
static inline bool is_oct(const Shape& s) {
  for (auto& c : s) { auto v = verts(c); for (size_t i = 0; i < v.size(); i++) { auto a = v[i], b = v[(i + 1) % v.size()]; int dx = abs(a.x - b.x), dy = abs(a.y - b.y); if (dx && dy && dx != dy) return false; } }
  return true;
}
// C related to S: identical, reversed, one vertex moved, shifted by a unit, subset plus extra
static inline Shape derive(Rng& r, const Shape& S) {
  Shape C = S; int k = r(6);
  for (auto& c : C) {
    auto v = verts(c);
    if (k == 1) std::reverse(v.begin(), v.end());
    else if (k == 2) { auto& p = v[r(v.size())]; p.x = U * r(7); p.y = U * r(7); }
    else if (k == 3) { int dx = r.range(-1, 1) * U, dy = r.range(-1, 1) * U; for (auto& p : v) { p.x = std::min(6*U, std::max(0, p.x + dx)); p.y = std::min(6*U, std::max(0, p.y + dy)); } }
    else if (k == 4) std::rotate(v.begin(), v.begin() + r(v.size()), v.end());
    c = poly(v);
  }
  if (k == 5) { if (C.size() > 1) C.pop_back(); C.push_back(lat(rectv(r, 6))); }
  return C;
}

// ---------------------------------------------------------------- general position
static inline Contour star(Rng& r, int n, int cx, int cy, int rad) {
  vector<IP> p; double a0 = r.u() * 6.28;
  for (int i = 0; i < n; i++) { double a = a0 + 2 * M_PI * (i + 0.7 * r.u()) / n, q = rad * (0.25 + 0.75 * r.u()); p.push_back({(int)(cx + q * cos(a)), (int)(cy + q * sin(a))}); }
  if (r.one(2)) std::reverse(p.begin(), p.end());
  return poly(p);
}
static const int W = 3900;
static inline Shape general(Rng& r, int kind) {
  Shape s;
  auto c = [&]() { return r.range(-W, W); };
  switch (kind) {
  case 0: { int n = 3 + r(4); vector<IP> p; while (n--) p.push_back({c(), c()}); s.push_back(poly(p)); break; }
  case 1: { int n = 1 + r(3); while (n--) { int k = 3 + r(5); vector<IP> p; while (k--) p.push_back({c(), c()}); s.push_back(poly(p)); } break; }
  case 2: { int n = 1 + r(3); while (n--) { int rad = 400 + r(2200); int m = W - rad; s.push_back(star(r, 3 + r(10), r.range(-m, m), r.range(-m, m), rad)); } break; }
  case 3: { s.push_back(star(r, 30 + r(60), r.range(-500, 500), r.range(-500, 500), 3300)); break; }
  default: { int n = 8 + r(10); while (n--) { int rad = 200 + r(900); int m = W - rad; s.push_back(star(r, 3 + r(5), r.range(-m, m), r.range(-m, m), rad)); } break; }
  }
  return s;
}
static const int WC = 1950;
static inline Contour ellipse(int cx, int cy, int rx, int ry, bool rev) {
  int mx = (int)(0.5522848 * rx), my = (int)(0.5522848 * ry);
  Contour c(cx + rx, cy);
  c.cubic(cx + rx, cy + my, cx + mx, cy + ry, cx, cy + ry);
  c.cubic(cx - mx, cy + ry, cx - rx, cy + my, cx - rx, cy);
  c.cubic(cx - rx, cy - my, cx - mx, cy - ry, cx, cy - ry);
  c.cubic(cx + mx, cy - ry, cx + rx, cy - my, cx + rx, cy);
  if (rev) {
    Contour d(c.x, c.y); int px[5] = {cx + rx, cx, cx - rx, cx, cx + rx}, py[5] = {cy, cy + ry, cy, cy - ry, cy};
    for (int i = 3; i >= 0; i--) { auto& g = c.s[i]; d.cubic(g.v[2], g.v[3], g.v[0], g.v[1], px[i], py[i]); }
    return d;
  }
  return c;
}
static inline Contour blob(Rng& r, int n, int cx, int cy, int rad) { // star shaped, mixed edges
  vector<IP> p; double a0 = r.u() * 6.28;
  for (int i = 0; i < n; i++) { double a = a0 + 2 * M_PI * (i + 0.5 * r.u()) / n, q = rad * (0.45 + 0.4 * r.u()); p.push_back({(int)(cx + q * cos(a)), (int)(cy + q * sin(a))}); }
  if (r.one(2)) std::reverse(p.begin(), p.end());
  Contour c(p[0].x, p[0].y);
  for (int i = 1; i <= n; i++) {
    IP a = p[i - 1], b = p[i % n];
    if (r(3)) { auto j = [&](int v) { return v + r.range(-rad / 3, rad / 3); };
      auto k = [&](int v) { return std::max(-WC, std::min(WC, v)); };
      c.cubic(k(j(a.x + (b.x - a.x) / 3)), k(j(a.y + (b.y - a.y) / 3)), k(j(a.x + (b.x - a.x) * 2 / 3)), k(j(a.y + (b.y - a.y) * 2 / 3)), b.x, b.y); }
    else if (i < n || r.one(2)) c.line(b.x, b.y);
  }
  return c;
}
static inline Contour wild(Rng& r, int n) {
  auto c = [&]() { return r.range(-WC, WC); };
  Contour k(c(), c());
  while (n--) { if (r.one(3)) k.line(c(), c()); else { int a[6]; for (int& v : a) v = c(); k.cubic(a[0], a[1], a[2], a[3], a[4], a[5]); } }
  return k;
}
static inline Shape curves(Rng& r, int kind) {
  Shape s;
  switch (kind) {
  case 0: s.push_back(wild(r, 2 + r(3))); break;
  case 1: { int n = 1 + r(3); while (n--) { int a = 200 + r(1000), b = 200 + r(1000); s.push_back(ellipse(r.range(-WC + a, WC - a), r.range(-WC + b, WC - b), a, b, r.one(3))); } break; }
  case 2: { int n = 1 + r(2); while (n--) { int rad = 500 + r(1000), m = WC - rad; s.push_back(blob(r, 3 + r(5), r.range(-m, m), r.range(-m, m), rad)); } break; }
  case 3: { int rad = 500 + r(1000), m = WC - rad; s.push_back(star(r, 3 + r(5), r.range(-m, m), r.range(-m, m), rad)); if (r.one(2)) s.push_back(wild(r, 2)); break; }
  case 4: { int cx = r.range(-300, 300), cy = r.range(-300, 300); int R = 1500; int n = 2 + r(3); for (int i = 0; i < n; i++) { s.push_back(ellipse(cx + r.range(-20, 20), cy + r.range(-20, 20), R, R - 30 - r(60), i & 1)); R -= 200 + r(150); } break; }
  default: { int n = 2 + r(2); while (n--) s.push_back(r.one(2) ? wild(r, 2) : blob(r, 3, r.range(-800, 800), r.range(-800, 800), 900)); break; }
  }
  return s;
}

// clearly separated: no vertex closer than d to an edge it does not belong to; crossings not too flat;
// for curves also: no two curves running close to each other without crossing
static inline bool separated(const Shape& S, const Shape& C, double d, bool curves) {
  struct E { point a, b; int seg, con; bool cub; int idx; }; vector<E> es; vector<std::pair<point, std::pair<int,int>>> vs; // vertex, (con, seg index before)
  int con = 0, seg = 0;
  vector<std::pair<int,int>> nb; // per vertex: segs it belongs to
  for (auto sh : {&S, &C}) for (auto& c : *sh) {
    DShape one = todouble({c}); auto& dc = one[0]; point cur = dc.from; int first = seg, last = -1;
    int nseg = (int)dc.s.size(); bool closes = nseg && dc.s.back().to == dc.from;
    for (int i = 0; i <= nseg; i++) {
      if (i == nseg && closes) break;
      point to = i == nseg ? dc.from : dc.s[i].to;
      if (i < nseg && dc.s[i].cubic) {
        int n = 32; point p = cur;
        for (int k = 1; k <= n; k++) { point w = k == n ? to : bez(cur, dc.s[i].c1, dc.s[i].c2, to, k / (double)n); es.push_back({p, w, seg, con, true, k}); p = w; }
      } else es.push_back({cur, to, seg, con, false, 0});
      vs.push_back({cur, {con, seg}}); nb.push_back({seg, last < 0 ? -1 : last});
      last = seg; cur = to; seg++;
    }
    if (last >= 0) for (size_t i = 0; i < nb.size(); i++) if (nb[i].first == first && nb[i].second == -1) nb[i].second = last;
    con++;
  }
  for (size_t i = 0; i < vs.size(); i++) for (auto& e : es) {
    if (e.seg == nb[i].first || e.seg == nb[i].second) continue;
    if (distseg(e.a, e.b, vs[i].first.x, vs[i].first.y) < d) return false;
  }
  // joints: the exact tangents must not fold back onto each other
  if (curves) for (auto sh : {&S, &C}) for (auto& c : *sh) {
    DShape one = todouble({c}); auto& dc = one[0]; vector<std::pair<point, point>> tan; point cur = dc.from;
    auto dir = [](std::initializer_list<point> p) { auto i = p.begin(); point o = *i; for (++i; i != p.end(); ++i) if (!(*i == o)) return *i - o; return point(0, 0); };
    for (auto& g : dc.s) { if (g.cubic) tan.push_back({dir({cur, g.c1, g.c2, g.to}), dir({g.to, g.c2, g.c1, cur})}); else if (!(g.to == cur)) tan.push_back({g.to - cur, cur - g.to}); cur = g.to; }
    if (!(cur == dc.from)) tan.push_back({dc.from - cur, cur - dc.from});
    for (size_t i = 0; i < tan.size(); i++) { point u = tan[i].second, v = tan[(i + 1) % tan.size()].first; if (u.dot(v) > 0 && std::abs(u.cross(v)) < 0.05 * u.dist() * v.dist()) return false; }
  }
  // a monotone piece much shorter than its curve makes the library's subdivision explode: see "limits" in DESIGN.md
  if (curves) for (auto sh : {&S, &C}) for (auto& c : todouble(*sh)) { point cur = c.from; for (auto& g : c.s) {
    if (g.cubic) { double a = g.c1.y - cur.y, b = g.c2.y - g.c1.y, e = g.to.y - g.c2.y, A = a - 2 * b + e, B = 2 * (b - a), D = B * B - 4 * A * a;
      vector<double> ts; if (std::abs(A) < 1e-9) { if (B) ts.push_back(-a / B); } else if (D >= 0) { ts.push_back((-B + std::sqrt(D)) / (2 * A)); ts.push_back((-B - std::sqrt(D)) / (2 * A)); }
      for (double t : ts) if (t > 0 && t < 1) { point q = bez(cur, g.c1, g.c2, g.to, t); if (std::min((q - cur).dist(), (q - g.to).dist()) < 0.5) return false; } }
    cur = g.to; } }
  // crossings: angle and mutual distance
  vector<point> xs;
  for (size_t i = 0; i < es.size(); i++) for (size_t j = i + 1; j < es.size(); j++) {
    auto& e = es[i]; auto& f = es[j];
    if (e.seg == f.seg) { // cusps and hairpins inside one cubic
      point u = e.b - e.a, v = f.b - f.a; double l = u.dist() * v.dist();
      if (curves && u.dot(v) < 0 && std::abs(u.cross(v)) < 0.15 * l && ((e.a + e.b) / 2 - (f.a + f.b) / 2).dist() < 4 * d) return false;
      continue;
    }
    if (std::max(e.a.x, e.b.x) < std::min(f.a.x, f.b.x) - d || std::max(f.a.x, f.b.x) < std::min(e.a.x, e.b.x) - d ||
        std::max(e.a.y, e.b.y) < std::min(f.a.y, f.b.y) - d || std::max(f.a.y, f.b.y) < std::min(e.a.y, e.b.y) - d) continue;
    point u = e.b - e.a, v = f.b - f.a; double cr = u.cross(v), lu = u.dist(), lv = v.dist();
    if (lu == 0 || lv == 0) continue;
    point w = f.a - e.a; double t = w.cross(v) / cr, s = w.cross(u) / cr;
    bool share = e.a == f.a || e.a == f.b || e.b == f.a || e.b == f.b;
    bool flat = std::abs(cr) < 0.05 * lu * lv;
    bool hit = cr != 0 && t >= -0.05 && t <= 1.05 && s >= -0.05 && s <= 1.05;
    if (share) {
      // tangential joint of consecutive curve pieces is fine, folding back is not
      point o = (e.a == f.a || e.a == f.b) ? e.a : e.b; point p1 = (o == e.a) ? e.b : e.a, p2 = (o == f.a) ? f.b : f.a;
      point k1 = p1 - o, k2 = p2 - o; if (k1.dot(k2) > 0 && std::abs(k1.cross(k2)) < 0.05 * k1.dist() * k2.dist()) return false;
      continue;
    }
    if (flat) {
      double m = std::min(std::min(distseg(e.a, e.b, f.a.x, f.a.y), distseg(e.a, e.b, f.b.x, f.b.y)), std::min(distseg(f.a, f.b, e.a.x, e.a.y), distseg(f.a, f.b, e.b.x, e.b.y)));
      if (m < (curves ? 3 * d : d) || (hit && t > 0 && t < 1 && s > 0 && s < 1)) return false;
      continue;
    }
    if (hit && t >= 0 && t <= 1 && s >= 0 && s <= 1) xs.push_back(e.a + u * t);
  }
  // distinct crossings must not nearly coincide (chords of one curve may report a crossing twice)
  if (!curves) for (size_t i = 0; i < xs.size(); i++) for (size_t j = i + 1; j < xs.size(); j++) if ((xs[i] - xs[j]).dist() < d) return false;
  return true;
}
}

enum Fam { F_LATTICE = 0, F_GENERAL = 1, F_CURVES = 2 };
static inline Case make_case(Rng& r, int fam, int kind = -1) {
  Case k; k.fam = fam;
  if (fam == F_LATTICE) {
    int a = kind >= 0 ? kind : r(8), b = r.one(3) ? a : (kind == 3 || kind == 4 ? 3 + r(2) : r(8));
    if (kind >= 0 && kind != 3 && kind != 4) b = a;
    k.S = gen::lattice(r, a); k.C = r.one(5) ? gen::derive(r, k.S) : gen::lattice(r, b);
    if (r.one(25)) k.C.clear(); else if (r.one(40)) k.S.clear();
    k.lattice = true; k.oct = gen::is_oct(k.S) && gen::is_oct(k.C); k.clr = 2;
  } else if (fam == F_GENERAL) {
    for (int t = 0; t < 60; t++) {
      int a = kind >= 0 ? kind : r.one(12) ? 3 + r(2) : r(3), b = kind >= 0 ? kind : a == 3 ? r(4) : r(3);
      k.S = gen::general(r, a); k.C = gen::general(r, b);
      if (gen::separated(k.S, k.C, 2, false)) break;
      k.S.clear(); k.C.clear();
    }
    k.clr = 3;
  } else {
    for (int t = 0; t < 60; t++) {
      int a = kind >= 0 ? kind : r(6), b = kind >= 0 ? kind : r(6);
      k.S = gen::curves(r, a); k.C = gen::curves(r, b);
      if (gen::separated(k.S, k.C, 12, true)) break;
      k.S.clear(); k.C.clear();
    }
    // sometimes the clip shares whole contours with the subject
    if (!k.S.empty() && r.one(8)) { k.C = k.S; if (r.one(2) && k.C.size() > 1) k.C.pop_back(); }
    k.clr = 22; k.curved = true;
  }
  return k;
}
