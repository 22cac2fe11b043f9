// Driver for the processor properties. Generates histories, runs them on the real
// library, screens the results and writes traces for TraceRiver.tla. The screening
// only selects what is forwarded; the verdict is the specification's.
#include "gen.h"
using namespace river;

static Tables T;
struct Opt { string mode; uint64_t seed = 1; long from = 0, count = 100; int every = 50; int maxsus = 12; string out, tables; int fam = -1, kind = -1; int combos = 2; long only = -1; string checks = "rfp"; int hangs = 10; string subject, clip; int cpu = 20; long base = 0; } opt;
static bool dbg = getenv("RV_DEBUG") != nullptr;
#define WHY(...) do { if (dbg) { fprintf(stderr, __VA_ARGS__); fputc('\n', stderr); } } while (0)
static bool chk(char c) { return opt.checks.find(c) != string::npos; }

struct Shm { volatile long idx; volatile long call; volatile long done; volatile long sus; volatile long fwd; volatile long procs; volatile long nontrivial; volatile long judged; };
static Shm* shm;

// ---------------------------------------------------------------- one process call, described
struct ProcRec {
  int p, op, rule; DShape out; int ec = 1, off = 0, pre = 1, inp = 1, proto = 1;
  DShape ref; bool hasref = false;
};

static int count_near(const Case& k, const Xf& f, const vector<point>& raw) {
  vector<point> in; int n = 0; double sc = 0;
  for (auto sh : {&k.S, &k.C}) for (auto& c : *sh) for (auto& v : verts(c)) { in.push_back(f.fwd(v.x, v.y)); sc = std::max(sc, std::max(std::abs(in.back().x), std::abs(in.back().y))); }
  for (auto& v : raw) for (auto& u : in) { if (u == v) continue; if (std::abs(u.x - v.x) < 1e-9 * sc && std::abs(u.y - v.y) < 1e-9 * sc) { n++; break; } }
  return n;
}

// ---------------------------------------------------------------- sub-curve hints
struct Hint { int ty, ci, si; long t0, t1; bool ok = false; };
// all local minima of the distance that come close to q
static vector<double> nearest_ts(const point p[4], const point& q) {
  const int N = 96; double d[N + 1]; vector<double> r;
  for (int i = 0; i <= N; i++) d[i] = (bez(p[0], p[1], p[2], p[3], i / (double)N) - q).dist2();
  for (int i = 0; i <= N; i++) {
    if ((i > 0 && d[i - 1] < d[i]) || (i < N && d[i + 1] < d[i]) || d[i] > 400. * 400) continue;
    double lo = std::max(0.0, (i - 1.0) / N), hi = std::min(1.0, (i + 1.0) / N);
    for (int k = 0; k < 40; k++) { double a = lo + (hi - lo) / 3, b = hi - (hi - lo) / 3; if ((bez(p[0], p[1], p[2], p[3], a) - q).dist2() < (bez(p[0], p[1], p[2], p[3], b) - q).dist2()) hi = b; else lo = a; }
    double t = (lo + hi) / 2; if ((bez(p[0], p[1], p[2], p[3], t) - q).dist2() < 9) r.push_back(t);
  }
  for (double e : {0.0, 1.0}) if ((bez(p[0], p[1], p[2], p[3], e) - q).dist() < 1) r.push_back(e);
  return r;
}
static point blossom(const point p[4], double a, double b, double c) {
  auto L = [](const point& x, const point& y, double t) { return x + (y - x) * t; };
  point ab = L(p[0], p[1], a), bc = L(p[1], p[2], a), cd = L(p[2], p[3], a);
  return L(L(ab, bc, b), L(bc, cd, b), c);
}
static double sub_err(const point p[4], double a, double b, const point& f, const DSeg& g) {
  point s[4] = {blossom(p, a, a, a), blossom(p, a, a, b), blossom(p, a, b, b), blossom(p, b, b, b)}; point o[4] = {f, g.c1, g.c2, g.to};
  double m = 0; for (int i = 0; i < 4; i++) m = std::max(m, std::max(std::abs(s[i].x - o[i].x), std::abs(s[i].y - o[i].y)));
  return m;
}
static Hint find_hint(const Case& k, const point& from, const DSeg& g) {
  Hint best; double be = 1e300;
  for (int ty = 0; ty < 2; ty++) { auto& sh = ty ? k.C : k.S;
    for (size_t ci = 0; ci < sh.size(); ci++) { point cur(sh[ci].x, sh[ci].y);
      for (size_t si = 0; si < sh[ci].s.size(); si++) { auto& s = sh[ci].s[si]; point to(s.ex(), s.ey());
        if (s.cubic) {
          point p[4] = {cur, point(s.v[0], s.v[1]), point(s.v[2], s.v[3]), to};
          vector<double> c0 = nearest_ts(p, from), c1; if (!c0.empty()) c1 = nearest_ts(p, g.to);
          for (double a0 : c0) for (double b0 : c1) { double a = a0, b = b0;
            double m = sub_err(p, a, b, from, g);
            if (m > 1 && m < 400) { // refine around self crossings and flat spots
              double h = 1 / 64.0; for (int it = 0; it < 80 && h > 1e-7; it++) { bool imp = false; for (int d = 0; d < 4; d++) { double na = a + (d == 0 ? h : d == 1 ? -h : 0), nb = b + (d == 2 ? h : d == 3 ? -h : 0); if (na < 0 || na > 1 || nb < 0 || nb > 1) continue; double e = sub_err(p, na, nb, from, g); if (e < m) { m = e; a = na; b = nb; imp = true; } } if (!imp) h /= 2; }
            }
            if (m < be) { be = m; best.ty = ty; best.ci = ci + 1; best.si = si + 1; best.t0 = std::lround(a * 65536); best.t1 = std::lround(b * 65536); }
          }
        }
        cur = to;
      } } }
  best.ok = be < 3; if (!best.ok) WHY("  best %.3f ty %d con %d seg %d t %ld %ld", be, best.ty, best.ci, best.si, best.t0, best.t1); return best;
}
// the edge a-b is covered by input edges that run along it
static bool line_prov(const Case& k, const point& a, const point& b, double tol) {
  vector<std::pair<double,double>> iv; bool hx = std::abs(b.x - a.x) >= std::abs(b.y - a.y);
  double lo = hx ? std::min(a.x, b.x) : std::min(a.y, b.y), hi = hx ? std::max(a.x, b.x) : std::max(a.y, b.y);
  for (auto sh : {&k.S, &k.C}) for (auto& c : *sh) { auto v = verts(c); size_t n = v.size();
    for (size_t i = 0; i < n; i++) {
      if (i + 1 < n && c.s[i].cubic) { auto& g = c.s[i]; if (!(g.v[1] == v[i].y && g.v[3] == v[i].y && g.v[5] == v[i].y)) continue; }
      auto& p = v[i]; auto& q = v[(i + 1) % n]; point P(p.x, p.y), Q(q.x, q.y); double l = (Q - P).dist(); if (l == 0) continue;
      if (std::abs((Q - P).cross(a - P)) > tol * l || std::abs((Q - P).cross(b - P)) > tol * l) continue;
      iv.push_back(hx ? std::make_pair(std::min(P.x, Q.x), std::max(P.x, Q.x)) : std::make_pair(std::min(P.y, Q.y), std::max(P.y, Q.y)));
    } }
  std::sort(iv.begin(), iv.end()); double t = lo;
  for (auto& i : iv) if (i.first <= t + tol) t = std::max(t, i.second);
  return t >= hi - tol && !iv.empty();
}
static int vertex_edges(const Case& k, const point& a, double tol) {
  int m = 0;
  for (auto sh : {&k.S, &k.C}) for (auto& c : *sh) { auto v = verts(c); size_t n = v.size(); for (size_t i = 0; i < n; i++) { auto& p = v[i]; auto& q = v[(i + 1) % n]; if (distseg(point(p.x, p.y), point(q.x, q.y), a.x, a.y) <= tol) m++; } }
  return m;
}

// ---------------------------------------------------------------- samples
struct SampleSet { vector<IP> pts; vector<int> ws, wc; vector<char> clr; };
static long Lx(long e1, long e2, long e3, long e4) { return std::abs(e3 - e1) + std::abs(e4 - e2); }
static bool clear_int(const vector<vector<IP>>& F, IP p, long d) {
  for (auto& c : F) { size_t n = c.size(); for (size_t i = 0; i < n; i++) { IP a = c[i], b = c[i + 1 == n ? 0 : i + 1];
    if (p.x < std::min(a.x, b.x) - d || p.x > std::max(a.x, b.x) + d || p.y < std::min(a.y, b.y) - d || p.y > std::max(a.y, b.y) + d) continue;
    long side = (long)(b.x - a.x) * (p.y - a.y) - (long)(p.x - a.x) * (b.y - a.y);
    if (std::abs(side) < d * Lx(a.x, a.y, b.x, b.y) + 1) return false; } }
  return true;
}
static vector<vector<IP>> iflat(const Shape& s) {
  vector<vector<IP>> r;
  for (auto& f : flat(todouble(s), 32)) { vector<IP> v; for (auto& p : f) v.push_back({(int)std::lround(p.x), (int)std::lround(p.y)}); r.push_back(v); }
  return r;
}
static SampleSet make_samples(const Case& k, Rng& r, size_t want) {
  SampleSet s;
  Flat fs = flat(todouble(k.S), 32), fc = flat(todouble(k.C), 32);
  auto is = iflat(k.S), ic = iflat(k.C);
  Flat all = fs; all.insert(all.end(), fc.begin(), fc.end());
  double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9;
  for (auto& c : all) for (auto& p : c) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); }
  if (all.empty()) { x0 = y0 = -100; x1 = y1 = 100; }
  auto put = [&](int x, int y) {
    IP p{x, y}; if (!clear_int(is, p, k.clr) || !clear_int(ic, p, k.clr)) return;
    s.pts.push_back(p); s.ws.push_back(wind(fs, x, y)); s.wc.push_back(wind(fc, x, y)); s.clr.push_back(1);
  };
  for (int row = 0; row < 60 && s.pts.size() < want; row++) {
    int y = (int)(y0 + (y1 - y0) * r.u()); vector<double> xs;
    for (auto& c : all) { size_t n = c.size(); for (size_t i = 0; i < n; i++) { auto& a = c[i]; auto& b = c[i + 1 == n ? 0 : i + 1]; if ((a.y <= y) != (b.y <= y)) xs.push_back(a.x + (b.x - a.x) * (y - a.y) / (b.y - a.y)); } }
    std::sort(xs.begin(), xs.end());
    for (size_t i = 0; i + 1 < xs.size(); i++) put((int)std::lround((xs[i] + xs[i + 1]) / 2), y);
    if (!xs.empty() && r.one(4)) { put((int)xs.front() - 30, y); put((int)xs.back() + 30, y); }
  }
  if (s.pts.size() > want) { s.pts.resize(want); s.ws.resize(want); s.wc.resize(want); s.clr.resize(want); }
  return s;
}

// ---------------------------------------------------------------- trace writing
static FILE* fo = nullptr;
static void put_begin(string& o, long id, const vector<IP>& sm, int clr, const vector<Tables::Atom>* atoms) {
  o += "{\"e\":\"begin\",\"id\":"; jint(o, id); o += ",\"clr\":"; jint(o, clr); o += ",\"sm\":[";
  if (!atoms) for (size_t i = 0; i < sm.size(); i++) { if (i) o += ","; o += "["; jint(o, sm[i].x); o += ","; jint(o, sm[i].y); o += "]"; }
  o += "],\"atoms\":[";
  if (atoms) for (size_t i = 0; i < atoms->size(); i++) { auto& a = (*atoms)[i]; if (i) o += ","; o += "["; jint(o, a.x); o += ","; jint(o, a.y); o += ","; jint(o, a.dx); o += ","; jint(o, a.dy); o += "]"; }
  o += "]}\n";
}
static void put_new(string& o, int p) { o += "{\"e\":\"new\",\"p\":"; jint(o, p); o += "}\n"; }
static void put_del(string& o, int p) { o += "{\"e\":\"del\",\"p\":"; jint(o, p); o += "}\n"; }
static void put_add(string& o, int p, int ty, const Shape& s) { o += "{\"e\":\"add\",\"p\":"; jint(o, p); o += ",\"ty\":"; jint(o, ty); o += ",\"c\":"; jshape(o, s); o += "}\n"; }
struct SideH { int i, j, k, off, mar; };
static void put_proc(string& o, const ProcRec& r, const vector<SideH>& sides, const vector<Hint>& cub) {
  o += "{\"e\":\"proc\",\"p\":"; jint(o, r.p); o += ",\"op\":"; jint(o, r.op); o += ",\"rule\":"; jint(o, r.rule);
  o += ",\"out\":"; jdshape(o, r.out); o += ",\"ec\":"; jint(o, r.ec); o += ",\"off\":"; jint(o, r.off);
  o += ",\"pre\":"; jint(o, r.pre); o += ",\"inp\":"; jint(o, r.inp); o += ",\"proto\":"; jint(o, r.proto);
  if (r.hasref) { o += ",\"ref\":"; jdshape(o, r.ref); }
  o += ",\"sides\":[";
  for (size_t i = 0; i < sides.size(); i++) { if (i) o += ","; auto& s = sides[i]; o += "["; jint(o, s.i); o += ","; jint(o, s.j); o += ","; jint(o, s.k); o += ","; jint(o, s.off); o += ","; jint(o, s.mar); o += "]"; }
  o += "],\"cub\":[";
  for (size_t i = 0; i < cub.size(); i++) { if (i) o += ","; auto& h = cub[i]; if (!h.ok) { o += "[]"; continue; } o += "["; jint(o, h.ty); o += ","; jint(o, h.ci); o += ","; jint(o, h.si); o += ","; jint(o, h.t0); o += ","; jint(o, h.t1); o += "]"; }
  o += "]}\n";
}
static void flush_trace(const string& o) { fwrite(o.data(), 1, o.size(), fo); fflush(fo); shm->fwd++; }

// ---------------------------------------------------------------- running
static river::paths to_paths(const Shape& s, const Xf& f) { river::paths p; for (auto& c : s) { p.emplace_back(); emit_contour(p.back(), c, f); } return p; }
static int real_rule(int rule, const Xf& f) { return f.mirrored() && rule >= 2 ? 5 - rule : rule; }

static DShape run_fresh(const Case& k, const Xf& f, int op, int rule, int* ec, vector<point>* raw) {
  shm->call++; shm->procs++;
  river::processor pr;
  { auto s = to_paths(k.S, f); pr.add_path(s, path_type::subject); }
  { auto c = to_paths(k.C, f); pr.add_path(c, path_type::clip); }
  river::paths out;
  pr.process((clip_type)op, (fill_rule)real_rule(rule, f), out);
  auto d = read_paths(out, f, 0, raw);
  if (ec) { *ec = 1; for (auto& c : d) if (!c.exact_closed) *ec = 0; }
  return d;
}

// side probes of output edges, same arithmetic as the specification (SideProbe in TraceRiver)
static long fdiv(long a, long b) { long q = a / b; return (a % b != 0 && ((a < 0) != (b < 0))) ? q - 1 : q; }
static bool probe(const DShape& out, const SideH& h, IP& L, IP& R) {
  auto& c = out[h.i - 1]; point a = h.j == 2 ? c.from : c.s[h.j - 3].to; const DSeg& g = c.s[h.j - 2]; point b = g.to;
  if (g.cubic) { point p[4] = {a, g.c1, g.c2, g.to}; a = bez(p[0], p[1], p[2], p[3], (h.k - 1) / 32.0); b = bez(p[0], p[1], p[2], p[3], h.k / 32.0); }
  long ax = q(a.x), ay = q(a.y), bx = q(b.x), by = q(b.y), dx = bx - ax, dy = by - ay, m = std::max(std::abs(dx), std::abs(dy));
  if (m < 24) return false;
  long mx = fdiv(ax + bx, 2), my = fdiv(ay + by, 2);
  L = {(int)(mx + fdiv(-dy * h.off, m)), (int)(my + fdiv(dx * h.off, m))}; R = {(int)(mx - fdiv(-dy * h.off, m)), (int)(my - fdiv(dx * h.off, m))};
  return true;
}

// only input edges along the probed edge come near its middle (Valid in TraceRiver)
static bool side_valid(const vector<vector<IP>>& S, const vector<vector<IP>>& C, const DShape& out, const SideH& h) {
  auto& c = out[h.i - 1]; point A = h.j == 2 ? c.from : c.s[h.j - 3].to, B = c.s[h.j - 2].to;
  long ax = q(A.x), ay = q(A.y), bx = q(B.x), by = q(B.y); IP m{(int)fdiv(ax + bx, 2), (int)fdiv(ay + by, 2)};
  struct Ed { long x, y, u, v; long side(long px, long py) const { return std::abs((u - x) * (py - y) - (px - x) * (v - y)); } }; vector<Ed> near;
  for (auto F : {&S, &C}) for (auto& c : *F) { size_t n = c.size(); for (size_t i = 0; i < n; i++) { IP a = c[i], b = c[i + 1 == n ? 0 : i + 1]; long d = 2 * h.off + h.mar;
    if (m.x < std::min(a.x, b.x) - d || m.x > std::max(a.x, b.x) + d || m.y < std::min(a.y, b.y) - d || m.y > std::max(a.y, b.y) + d) continue;
    Ed e{a.x, a.y, b.x, b.y}; long l = Lx(a.x, a.y, b.x, b.y);
    if (e.side(m.x, m.y) >= d * l + 1) continue;
    if (e.side(ax, ay) > l || e.side(bx, by) > l) return false;
    near.push_back(e); } }
  for (auto& e : near) for (auto& f : near) if (e.side(f.x, f.y) || e.side(f.u, f.v)) return false;
  return true;
}
// two long output elements share the middle of one of them (OnceOK in TraceRiver)
static bool twice(const DShape& out) {
  struct El { vector<point> p; point m; bool lng; }; vector<El> es;
  for (auto& c : out) { point a = c.from; for (auto& g : c.s) {
    El e; if (g.cubic) { for (int i = 0; i <= 32; i++) e.p.push_back(bez(a, g.c1, g.c2, g.to, i / 32.0)); e.m = e.p[16]; } else { e.p = {a, g.to}; e.m = (a + g.to) / 2; }
    e.lng = std::abs(a.x - g.to.x) + std::abs(a.y - g.to.y) >= 160; es.push_back(e); a = g.to; } }
  for (size_t i = 0; i < es.size(); i++) if (es[i].lng) for (size_t j = 0; j < es.size(); j++) if (i != j && es[j].lng)
    for (size_t k = 0; k + 1 < es[j].p.size(); k++) if (distseg(es[j].p[k], es[j].p[k + 1], es[i].m.x, es[i].m.y) < 1) return true;
  return false;
}

// screens one result; returns reasons
static bool screen(const Case& k, const SampleSet& ss, const ProcRec& r, Flat& fs, Flat& fc, vector<vector<IP>>& is, vector<vector<IP>>& ic,
                   vector<int>& badSamples, vector<SideH>& badSides) {
  bool bad = false;
  Flat fout = flat(r.out, 32);
  for (size_t i = 0; i < ss.pts.size(); i++) {
    if (!ss.clr[i]) continue;
    shm->judged++;
    bool e = k.lattice && T.ok ? T.expect(r.op, r.rule, ss.ws[i], ss.wc[i]) : combine(r.op, fills(r.rule, ss.ws[i]), fills(r.rule, ss.wc[i]));
    int w = wind(fout, ss.pts[i].x, ss.pts[i].y);
    if ((chk('r') && (w != 0) != e) || (chk('f') && w != 0 && w != 1)) { bad = true; badSamples.push_back((int)i); WHY("case %ld op %d rule %d sample %d,%d want %d wind %d", shm->idx, r.op, r.rule, ss.pts[i].x, ss.pts[i].y, e, w); }
  }
  if (chk('f')) {
    if (!r.ec) { bad = true; WHY("case %ld op %d rule %d not closed", shm->idx, r.op, r.rule); }
    for (auto& c : r.out) if (c.s.size() < 2) { bad = true; WHY("case %ld op %d rule %d short contour", shm->idx, r.op, r.rule); }
    if (k.oct && T.ok) { // exact boundary
      std::map<std::array<long, 4>, int> got; bool al = true;
      for (auto& c : r.out) { point a = c.from; for (auto& g : c.s) {
        double ddx = g.to.x - a.x, ddy = g.to.y - a.y; long dx = std::lround(ddx), dy = std::lround(ddy), x = std::lround(a.x), y = std::lround(a.y);
        if (std::abs(a.x - x) > 1e-6 || std::abs(a.y - y) > 1e-6) al = false;
        if (dx || dy) {
          if (dx && dy && std::abs(dx) != std::abs(dy)) al = false;
          else { long st = (dx && dy) ? 30 : 60, n = std::max(std::abs(dx), std::abs(dy)) / st; long ux = dx > 0 ? st : dx < 0 ? -st : 0, uy = dy > 0 ? st : dy < 0 ? -st : 0;
            for (long i = 0; i < n; i++) got[{x + i * ux, y + i * uy, ux, uy}]++; }
        }
        a = g.to; } }
      std::map<std::array<long, 4>, int> want;
      for (auto& at : T.atoms) {
        auto in = [&](int id) { return id >= 0 && T.expect(r.op, r.rule, ss.ws[id], ss.wc[id]); };
        bool l = in(at.l), rr = in(at.r);
        if (l && !rr) want[{at.x, at.y, at.dx, at.dy}] = 1; else if (rr && !l) want[{at.x + at.dx, at.y + at.dy, -at.dx, -at.dy}] = 1;
      }
      if (!al || got != want) { bad = true; WHY("case %ld op %d rule %d atoms al %d got %zu want %zu", shm->idx, r.op, r.rule, al, got.size(), want.size()); }
    }
    // sides
    int off = 7, mar = 3, n = 0;
    if (k.curved) { if (twice(r.out)) { bad = true; WHY("case %ld op %d rule %d twice", shm->idx, r.op, r.rule); } }
    else
    for (size_t i = 0; i < r.out.size() && n < 400; i++) for (size_t j = 0; j < r.out[i].s.size() && n < 400; j++) {
      SideH h{(int)i + 1, (int)j + 2, r.out[i].s[j].cubic ? 16 : 0, off, mar}; IP L, R;
      if (!probe(r.out, h, L, R)) continue;
      n++;
      if (!side_valid(is, ic, r.out, h)) continue;
      bool l = combine(r.op, fills(r.rule, wind(fs, L.x, L.y)), fills(r.rule, wind(fc, L.x, L.y)));
      bool rr = combine(r.op, fills(r.rule, wind(fs, R.x, R.y)), fills(r.rule, wind(fc, R.x, R.y)));
      if (!l || rr) { bad = true; badSides.push_back(h); WHY("case %ld op %d rule %d side contour %d elem %d l %d r %d", shm->idx, r.op, r.rule, h.i, h.j, l, rr); }
    }
  }
  if (chk('p')) {
    if (r.off) { bad = true; WHY("case %ld op %d rule %d off", shm->idx, r.op, r.rule); }
    for (auto& c : r.out) { point a = c.from;
      for (auto& g : c.s) {
        if (!g.cubic) { if (!line_prov(k, a, g.to, 0.01)) { bad = true; WHY("case %ld op %d rule %d line_prov %.3f,%.3f %.3f,%.3f", shm->idx, r.op, r.rule, a.x, a.y, g.to.x, g.to.y); } }
        else if (!find_hint(k, a, g).ok) { bad = true; WHY("case %ld op %d rule %d cubic prov %.3f,%.3f %.3f,%.3f", shm->idx, r.op, r.rule, a.x, a.y, g.to.x, g.to.y); }
        if (!k.curved && vertex_edges(k, g.to, 0.01) < 2) { bad = true; WHY("case %ld op %d rule %d vertex %.3f,%.3f", shm->idx, r.op, r.rule, g.to.x, g.to.y); }
        a = g.to;
      } }
  }
  return bad;
}

static vector<SideH> some_sides(const Case& k, const DShape& out, Rng& r, size_t n) {
  vector<SideH> s; if (k.curved) return s;
  for (size_t i = 0; i < out.size(); i++) for (size_t j = 0; j < out[i].s.size(); j++) s.push_back({(int)i + 1, (int)j + 2, 0, 7, 3});
  for (size_t i = s.size(); i > 1; i--) std::swap(s[i - 1], s[r(i)]);
  if (s.size() > n) s.resize(n);
  return s;
}

static SampleSet samples_for(const Case& k, Rng& r) {
  SampleSet ss;
  if (k.lattice && T.ok) {
    ss.pts = T.samples; ss.ws.assign(T.ns, 0); ss.wc.assign(T.ns, 0); ss.clr.assign(T.ns, 1);
    for (auto& c : k.S) T.add(c, ss.ws, ss.clr);
    for (auto& c : k.C) T.add(c, ss.wc, ss.clr);
    return ss;
  }
  return make_samples(k, r, k.curved ? 80 : 120);
}

// exact: scales and shifts that keep grid coordinates exactly representable, so that a degenerate input stays degenerate
static Xf random_xf(Rng& r, bool exact, bool curved) {
  Xf f; double s;
  switch (exact ? r(3) : 3 + r(4)) {
  case 0: s = std::ldexp(1.0, r.range(-16, 16)); break;
  case 1: s = std::pow(10, r.range(0, 5)); break;
  case 2: s = 1 + r(100000); break;
  case 3: s = std::pow(10, r.range(-5, 4)); break;
  case 4: s = 1.0 / 60; break;
  case 5: s = 1e-5 * (1 + r.u()); break;
  default: s = std::exp((r.u() * 2 - 1) * 9);
  }
  if (curved) s = std::max(s, r.one(2) ? 1e-3 : 1e-3 * (1 + 9 * r.u()));
  int q4 = r(4); double co[] = {1, 0, -1, 0}, si[] = {0, 1, 0, -1};
  f.a = s * co[q4]; f.b = -s * si[q4]; f.c = s * si[q4]; f.d = s * co[q4];
  if (r.one(2)) { f.b = -f.b; f.d = -f.d; }
  switch (r(4)) {
  case 0: break;
  case 1: f.tx = -180 * s * (f.a + f.b > 0 ? 1 : -1); f.ty = -180 * s; break;
  case 2: f.tx = s * r.range(-4000, 4000); f.ty = s * r.range(-4000, 4000); break;
  default: if (exact) { f.tx = s * r.range(-100000, 100000); f.ty = s * r.range(-100000, 100000); } else { f.tx = s * (r.u() * 2e4 - 1e4); f.ty = -s * r.u() * 2e4; }
  }
  return f;
}

// C01, C02, C03, C04 (xf = false) and C07 (xf = true)
static void case_bool(long idx, bool xf, const Case* given = nullptr) {
  Rng r(opt.seed, idx, xf ? 77 : 11);
  int fam = opt.fam >= 0 ? opt.fam : (int)(idx % 4 == 3 ? F_GENERAL : F_LATTICE);
  Case k = given ? *given : make_case(r, fam, opt.kind);
  Xf f; if (xf) f = random_xf(r, k.lattice, k.curved);
  if (getenv("RV_SHOW")) { string a, b; dump_path_text(a, k.S); dump_path_text(b, k.C); fprintf(stderr, "a %g b %g c %g d %g tx %g ty %g\nS=%s\nC=%s\n", f.a, f.b, f.c, f.d, f.tx, f.ty, a.c_str(), b.c_str()); }
  SampleSet ss = samples_for(k, r);
  Flat fs = flat(todouble(k.S), 32), fc = flat(todouble(k.C), 32); auto is = iflat(k.S), ic = iflat(k.C);
  bool fwd = idx % opt.every == 0; int pick = r(16);
  struct Item { ProcRec r; vector<int> bs; vector<SideH> bd; bool bad; }; vector<Item> items; bool anybad = false, any = false;
  for (int c = 0; c < 16; c++) {
    Item it; it.r.p = 1; it.r.op = 1 + c / 4; it.r.rule = c % 4; vector<point> raw;
    it.r.out = run_fresh(k, f, it.r.op, it.r.rule, &it.r.ec, &raw);
    if (chk('p')) it.r.off = count_near(k, f, raw);
    if (!it.r.out.empty()) any = true;
    it.bad = screen(k, ss, it.r, fs, fc, is, ic, it.bs, it.bd);
    anybad |= it.bad;
    bool mine = false; for (int j = 0; j < opt.combos; j++) if ((pick + j * 5) % 16 == c) mine = true;
    if (it.bad || (fwd && mine)) items.push_back(it);
  }
  if (idx % 64 == 0) { int e; auto o = run_fresh(k, f, 0, r(4), &e, nullptr); if (!o.empty()) { Item it; it.r.p = 1; it.r.op = 0; it.r.rule = 0; it.r.out = o; it.bad = true; items.push_back(it); anybad = true; } }
  if (any) shm->nontrivial++;
  if (anybad) shm->sus++;
  if (!(fwd || (anybad && shm->sus <= opt.maxsus))) return;
  if (anybad) { vector<Item> b; for (auto& i : items) if (i.bad) b.push_back(i); if (b.size() > 3) b.resize(3); items = b; }
  // samples for the specification: the disputed ones, then a spread of others
  bool atoms = chk('f') && k.oct && k.lattice && T.ok;
  vector<IP> sm; std::set<int> used;
  for (auto& i : items) for (int b : i.bs) if (used.size() < 12 && used.insert(b).second) sm.push_back(ss.pts[b]);
  for (int t = 0; t < 200 && sm.size() < 40 && !ss.pts.empty(); t++) { int b = r(ss.pts.size()); if (ss.clr[b] && used.insert(b).second) sm.push_back(ss.pts[b]); }
  string o; put_begin(o, idx, sm, k.clr, atoms ? &T.atoms : nullptr);
  for (auto& i : items) {
    vector<SideH> sd = i.bd; if (sd.size() > 6) sd.resize(6);
    if (chk('f')) for (auto& h : some_sides(k, i.r.out, r, 10)) sd.push_back(h);
    vector<Hint> cub; if (chk('p')) for (auto& c : i.r.out) { point a = c.from; for (auto& g : c.s) { if (g.cubic) cub.push_back(find_hint(k, a, g)); a = g.to; } }
    put_new(o, 1); put_add(o, 1, 0, k.S); put_add(o, 1, 1, k.C); put_proc(o, i.r, sd, cub); put_del(o, 1);
  }
  flush_trace(o);
}

// every pair of oriented polygons with kind / 10 and kind % 10 vertices on the 3 x 3 grid
static const vector<Contour>& grid_polys(int n) {
  static std::map<int, vector<Contour>> memo; auto& v = memo[n]; if (!v.empty()) return v;
  vector<int> ix(n);
  std::function<void(int)> rec = [&](int d) {
    if (d == n) { vector<IP> p; for (int i : ix) p.push_back({i % 3 * 2 * U, i / 3 * 2 * U}); v.push_back(poly(p)); return; }
    for (int i = d ? ix[0] + 1 : 0; i < 9; i++) { bool dup = false; for (int j = 0; j < d; j++) dup |= ix[j] == i; if (!dup) { ix[d] = i; rec(d + 1); } }
  };
  rec(0); return v;
}
static long enum_size() { return (long)grid_polys(opt.kind / 10).size() * grid_polys(opt.kind % 10).size(); }
static void case_enum(long idx) {
  auto& a = grid_polys(opt.kind / 10); auto& b = grid_polys(opt.kind % 10); Case k; k.S.push_back(a[idx / b.size()]); k.C.push_back(b[idx % b.size()]);
  k.lattice = true; k.oct = gen::is_oct(k.S) && gen::is_oct(k.C); k.clr = 2; case_bool(idx, false, &k);
}

#include "modes.h"

// ---------------------------------------------------------------- main
static void one_case(long i) {
  shm->idx = i; shm->call = 0;
  if (opt.mode == "bool") case_bool(i, false);
  else if (opt.mode == "xf") case_bool(i, true);
  else if (opt.mode == "enum") case_enum(i);
  else if (opt.mode == "text") for (int c = 0; c < 16; c++) { // one written-down input, all combinations
    river::processor pr; shm->procs++; pr.add_path(river::make_path(opt.subject.c_str()), path_type::subject); pr.add_path(river::make_path(opt.clip.c_str()), path_type::clip);
    river::paths o; pr.process((clip_type)(1 + c / 4), (fill_rule)(c % 4), o); }
  else if (!more_modes(i)) { fprintf(stderr, "unknown mode\n"); _exit(3); }
}
int main(int argc, char** argv) {
  opt.mode = argv[1];
  for (int i = 2; i + 1 < argc; i += 2) {
    string a = argv[i], v = argv[i + 1];
    if (a == "--seed") opt.seed = strtoull(v.c_str(), 0, 10); else if (a == "--from") opt.from = atol(v.c_str()); else if (a == "--count") opt.count = atol(v.c_str());
    else if (a == "--every") opt.every = atoi(v.c_str()); else if (a == "--out") opt.out = v; else if (a == "--tables") opt.tables = v; else if (a == "--fam") opt.fam = atoi(v.c_str());
    else if (a == "--kind") opt.kind = atoi(v.c_str()); else if (a == "--combos") opt.combos = atoi(v.c_str()); else if (a == "--screen") opt.checks = v; else if (a == "--maxsus") opt.maxsus = atoi(v.c_str());
    else if (a == "--hangs") opt.hangs = atoi(v.c_str()); else if (a == "--script") script_file = v; else if (a == "--words") words_file = v; else if (a == "--base") opt.base = atol(v.c_str()); else if (a == "--subject") opt.subject = v; else if (a == "--clip") opt.clip = v; else if (a == "--cpu") opt.cpu = atoi(v.c_str());
  }
  if (!opt.tables.empty() && !T.load(opt.tables.c_str())) { fprintf(stderr, "cannot load tables\n"); return 3; }
  shm = (Shm*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  fo = fopen(opt.out.c_str(), "a"); if (!fo) { perror("out"); return 3; }
  if (!load_scripts() || !load_words()) return 3;
  if (opt.mode == "enum") opt.count = std::max(0L, std::min(opt.count, enum_size() - opt.from));
  long i = opt.from, end = opt.from + opt.count, aborts = 0;
  while (i < end && aborts < opt.hangs) {
    shm->idx = i; fflush(fo);
    long chunk = std::min(end, i + 2000);
    pid_t pid = fork();
    if (!pid) {
      for (long k = i; k < chunk; k++) {
        itimerval tv{}; tv.it_value.tv_sec = opt.cpu; setitimer(ITIMER_PROF, &tv, nullptr);   // CPU seconds for one case
        one_case(k); shm->done++;
      }
      fflush(fo); exit(0);   // exit, not _exit: the leak checker runs here
    }
    int st; waitpid(pid, &st, 0);
    if (st == 0) { i = chunk; continue; }
    long at = shm->idx; aborts++; shm->sus++;
    string o; vector<IP> none; put_begin(o, at, none, 0, nullptr);
    o += "{\"e\":\"abort\",\"id\":"; jint(o, at); o += ",\"call\":"; jint(o, shm->call); o += ",\"why\":\"";
    if (WIFSIGNALED(st)) { o += WTERMSIG(st) == SIGPROF ? "no return within the CPU time limit" : "signal "; if (WTERMSIG(st) != SIGPROF) jint(o, WTERMSIG(st)); } else { o += "exit "; jint(o, WEXITSTATUS(st)); }
    o += "\"}\n"; flush_trace(o);
    i = at + 1; if (at + 1 >= chunk) i = chunk;
  }
  printf("{\"cases\":%ld,\"calls\":%ld,\"judged\":%ld,\"nontrivial\":%ld,\"suspicious\":%ld,\"forwarded\":%ld,\"aborts\":%ld}\n", shm->done, shm->procs, shm->judged, shm->nontrivial, shm->sus, shm->fwd, aborts);
  return 0;
}
