// Histories: repeated and incremental processing (C08), several processors (C09),
// presentations (C06), interfaces (C18), areas (C19), safety (C05), and the replay
// of behaviours generated from RiverMC.tla.
static string script_file;
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
static long heap_bytes() { return (long)__sanitizer_get_current_allocated_bytes(); }
#else
static long heap_bytes() { return 0; }
#endif

// ---------------------------------------------------------------- reader / writer callbacks
struct ReadSrc { const river::paths* ps; int tag; };
static const int TAG = 0x5eed;
static void reader(const void* src, path_traverse_funcs f, void* user) {
  auto r = (const ReadSrc*)src; if (r->tag != TAG) { fprintf(stderr, "reader: wrong source pointer\n"); abort(); }
  for (auto& p : *r->ps) p.traverse(f, user);
}
// writer: records exactly what it is given
struct Writer {
  int tag = TAG; river::paths out; bool proto = true; bool open = false; point last; std::function<void()> hook; int ncalls = 0;
  bool ok() const { return tag == TAG; }
  void tick() { if (++ncalls == 1 && hook) hook(); }
};
static thread_local Writer* expected_writer = nullptr;
static Writer* W_(void* u) { if (u != expected_writer) { fprintf(stderr, "writer: wrong user pointer\n"); abort(); } return (Writer*)u; }
static void wr_m(path_moveto_func_para) { auto w = W_(user); w->out.emplace_back(); w->out.back().moveto(to); w->open = true; w->last = to; auto e = expected_writer; w->tick(); expected_writer = e; }
static void wr_l(path_lineto_func_para) { auto w = W_(user); if (!w->open || from != w->last) { w->proto = false; if (w->out.empty()) w->out.emplace_back(); } w->out.back().lineto(to); w->last = to; }
static void wr_c(path_cubicto_func_para) { auto w = W_(user); if (!w->open || from != w->last) { w->proto = false; if (w->out.empty()) w->out.emplace_back(); } w->out.back().cubicto(ctrl1, ctrl2, to); w->last = to; }
static path_traverse_funcs wr_funcs() { path_traverse_funcs f; f.move_to = wr_m; f.line_to = wr_l; f.cubic_to = wr_c; return f; }

static bool same_paths(const river::paths& a, const river::paths& b, size_t n) {
  if (a.size() < n || b.size() < n) return false;
  for (size_t i = 0; i < n; i++) if (a[i].element_types != b[i].element_types || a[i].data.size() != b[i].data.size() || memcmp(a[i].data.data(), b[i].data.data(), a[i].data.size() * sizeof(double))) return false;
  return true;
}
static river::paths clone(const river::paths& a) { river::paths r; for (auto& p : a) { r.emplace_back(); r.back().data = p.data; r.back().element_types = p.element_types; } return r; }

static double area2(const DShape& s) {
  double a = 0;
  for (auto& c : s) { point p = c.from - c.from;
    for (auto& g : c.s) { point o = c.from, e = g.to - o;
      if (!g.cubic) a += p.cross(e);
      else { point u = g.c1 - o, v = g.c2 - o; a += (6 * p.cross(u) + 3 * p.cross(v) + p.cross(e) + 3 * u.cross(v) + 3 * u.cross(e) + 6 * v.cross(e)) / 10; }
      p = e; } }
  return a;
}

// ---------------------------------------------------------------- recorded histories
struct Hist {
  Xf f; string o; const SampleSet& ss; bool bad = false; bool curved; string why;
  std::map<int, std::unique_ptr<river::processor>> live; std::map<int, Case> content;
  struct Ob { vector<char> in; double area; }; std::map<std::array<int,3>, Ob> obs;
  Hist(const SampleSet& s, bool cv) : ss(s), curved(cv) {}
  void flag(const char* w) { if (!bad) why = w; bad = true; WHY("case %ld: %s", shm->idx, w); }
  void nw(int p) { live[p].reset(new river::processor); content[p] = Case(); put_new(o, p); }
  void del(int p) { live.erase(p); content.erase(p); put_del(o, p); for (auto i = obs.begin(); i != obs.end();) if (i->first[0] == p) i = obs.erase(i); else ++i; }
  Rng* pad = nullptr;   // sprinkle empty paths and lone moves, which mean nothing, over what is added
  // style 0: list, one path per contour; 1: reader callback; 2: all contours in one path; 3: one call per contour
  int add(int p, int ty, Shape s, int style = 0, bool scribble = false) {
    int inp = 1; if (pad) for (int n = (*pad)(3); n-- > 0 && style != 3;) s.insert(s.begin() + (*pad)(s.size() + 1), Contour((*pad).range(-6, 6) * U, (*pad).range(-6, 6) * U)); auto& k = content[p]; auto& dst = ty ? k.C : k.S; auto t = ty ? path_type::clip : path_type::subject;
    auto give = [&](river::paths& ps, bool cb) {
      auto before = clone(ps);
      if (cb) { ReadSrc rs{&ps, TAG}; live[p]->add_path(reader, &rs, t); } else live[p]->add_path(ps, t);
      if (!same_paths(ps, before, before.size()) || ps.size() != before.size()) inp = 0;
      if (scribble) for (auto& q : ps) for (auto& d : q.data) d = -12345.5;
    };
    if (style == 3) { for (auto& c : s) { auto ps = to_paths({c}, f); give(ps, false); put_add(o, p, ty, {c}); dst.push_back(c); } return inp; }
    river::paths ps;
    if (style == 2) { ps.emplace_back(); for (auto& c : s) emit_contour(ps.back(), c, f); if (s.empty()) ps.clear(); }
    else ps = to_paths(s, f);
    if (pad) for (int n = (*pad)(4); n-- > 0;) { ps.emplace_back(); for (size_t j = ps.size() - 1, at = (*pad)(ps.size()); j > at; j--) { std::swap(ps[j - 1].data, ps[j].data); std::swap(ps[j - 1].element_types, ps[j].element_types); } }
    give(ps, style == 1);
    put_add(o, p, ty, s); dst.insert(dst.end(), s.begin(), s.end());
    if (!inp) flag("input changed");
    return inp;
  }
  ProcRec run(int p, int op, int rule, int style = 0, bool prefill = false, std::function<void()> hook = nullptr) {
    ProcRec r; r.p = p; r.op = op; r.rule = rule; shm->call++; shm->procs++;
    if (getenv("RV_SHOW2")) { string a, b; dump_path_text(a, content[p].S); dump_path_text(b, content[p].C); fprintf(stderr, "op %d rule %d S=%s\nC=%s\n", op, rule, a.c_str(), b.c_str()); }
    river::paths out; size_t n0 = 0; river::paths snap;
    auto ro = (clip_type)op; auto rr = (fill_rule)real_rule(rule, f);
    if (prefill) { out.emplace_back(); out.back().moveto(1, 2); out.back().lineto(3, 4); out.emplace_back(); out.back().moveto(-7, 8); out.back().cubicto({1, 1}, {2, 2}, {3, 5}); n0 = 2; snap = clone(out); }
    if (style == 0) live[p]->process(ro, rr, out);
    else { Writer w; w.hook = hook; w.out = std::move(out); auto save = expected_writer; expected_writer = &w; live[p]->process(ro, rr, wr_funcs(), &w); expected_writer = save; out = std::move(w.out); r.proto = w.proto; }
    if (n0) r.pre = same_paths(out, snap, n0);
    r.out = read_paths(out, f, n0);
    for (auto& c : r.out) if (!c.exact_closed) r.ec = 0;
    return r;
  }
  void note(const ProcRec& r) { // log an already finished call and remember what it showed
    put_proc(o, r, {}, {});
    if (!r.pre) flag("existing output changed");
    Ob b; Flat fo = flat(r.out, 32); for (auto& p : ss.pts) b.in.push_back(wind(fo, p.x, p.y) != 0); b.area = area2(r.out); obs[{r.p, r.op, r.rule}] = b;
    if (!r.out.empty()) nontrivial = true;
  }
  bool nontrivial = false;
  void proc(int p, int op, int rule, int style = 0, bool prefill = false) { note(run(p, op, rule, style, prefill)); }
  // p under (op, rule) and q under (op2, rule2) must show the same region
  void same(int p, int op, int rule, int q, int op2, int rule2) {
    auto& a = obs[{p, op, rule}]; auto& b = obs[{q, op2, rule2}];
    for (size_t i = 0; i < ss.pts.size(); i++) if (ss.clr[i]) { shm->judged++; if (a.in[i] != b.in[i]) { flag("regions differ"); disputed.insert((int)i); } }
    if (std::abs(a.area - b.area) > (curved ? 500 : 2)) flag("areas differ");
    char t[160]; snprintf(t, sizeof t, "{\"e\":\"same\",\"p\":%d,\"op\":%d,\"rule\":%d,\"q\":%d,\"op2\":%d,\"rule2\":%d}\n", p, op, rule, q, op2, rule2); o += t;
  }
  // the same question put to a fresh processor holding the same contours
  void against_fresh(int p, int op, int rule) {
    Case k = content[p]; nw(99); if (!k.S.empty()) add(99, 0, k.S); if (!k.C.empty()) add(99, 1, k.C); proc(99, op, rule); same(p, op, rule, 99, op, rule); del(99);
  }
  std::set<int> disputed;
  void finish(long idx, int clr, Rng& r, bool fwd) {
    while (!live.empty()) del(live.begin()->first);
    if (nontrivial) shm->nontrivial++;
    if (bad) shm->sus++;
    if (!(fwd || (bad && shm->sus <= opt.maxsus))) return;
    vector<IP> sm; std::set<int> used;
    for (int b : disputed) if (sm.size() < 12 && used.insert(b).second) sm.push_back(ss.pts[b]);
    for (int t = 0; t < 200 && sm.size() < 36 && !ss.pts.empty(); t++) { int b = r(ss.pts.size()); if (ss.clr[b] && used.insert(b).second) sm.push_back(ss.pts[b]); }
    string s; put_begin(s, idx, sm, clr, nullptr); flush_trace(s + o);
  }
};

static Case pick_case(Rng& r, long idx) { int fam = opt.fam >= 0 ? opt.fam : idx % 5 == 4 ? F_CURVES : idx % 5 == 3 ? F_GENERAL : F_LATTICE; return make_case(r, fam, opt.kind); }
static vector<Shape> pieces(const Case& k, Rng& r) { // the contours of the case in small groups
  Shape all = k.S; all.insert(all.end(), k.C.begin(), k.C.end()); vector<Shape> v;
  for (size_t i = 0; i < all.size();) { size_t n = 1 + r(2); Shape s; while (n-- && i < all.size()) s.push_back(all[i++]); v.push_back(s); }
  return v;
}

// C08: one processor, any sequence of add and process
static void case_hist(long idx) {
  Rng r(opt.seed, idx, 21); Case k = pick_case(r, idx); SampleSet ss = samples_for(k, r); Hist h(ss, k.curved);
  auto pc = pieces(k, r); h.nw(1); size_t next = 0; int steps = 4 + r(7), procs = 0; bool nonrand = r.one(2); int lop = 1 + r(4), lru = r(4);
  for (int i = 0; i < steps || next < pc.size() || procs < 2; i++) {
    if (i > 24) break;
    if (next < pc.size() && (r.one(2) || i == 0)) { h.add(1, r(2), pc[next++], r(4), r.one(3)); continue; }
    if (!nonrand || r.one(3)) { lop = r.one(12) ? 0 : 1 + r(4); lru = r(4); }
    h.proc(1, lop, lru, r(2)); procs++;
    if (r.one(2) || i + 1 >= steps) h.against_fresh(1, lop, lru);
  }
  h.proc(1, lop, lru); h.against_fresh(1, lop, lru);
  h.finish(idx, k.clr, r, idx % opt.every == 0);
}

// C09: several processors, interleaved, nested in callbacks, inputs destroyed at once
static void case_iso(long idx) {
  Rng r(opt.seed, idx, 31); Case k = pick_case(r, idx); SampleSet ss = samples_for(k, r); Hist h(ss, k.curved);
  auto pc = pieces(k, r); int np = 2 + r(2); for (int p = 1; p <= np; p++) h.nw(p);
  int steps = 8 + r(8); int io = 1; std::set<std::pair<int,int>> had;
  // a straight contour may come any number of times, a curved one once per processor
  auto pickp = [&](int p) { int i = r(pc.size()); if (k.curved && !had.insert({p, i}).second) return Shape(); return pc[i]; };
  for (int i = 0; i < steps; i++) {
    vector<int> ids; for (auto& e : h.live) ids.push_back(e.first);
    int p = ids[r(ids.size())], op = 1 + r(4), rule = r(4);
    switch (i < np ? 0 : r(6)) {
    case 0: case 1: { Shape s = pickp(p); if (!s.empty() && !h.add(p, r(2), s, r(3), true)) io = 0; break; }
    case 2: case 3: { ProcRec a = h.run(p, op, rule, r(2), true); a.inp = io; h.note(a); if (r.one(2)) h.against_fresh(p, op, rule); break; }
    case 4: { // another processor is used from inside the write callback
      int q = ids[r(ids.size())]; if (q == p) break; int op2 = 1 + r(4), rule2 = r(4); int what = r(3); Shape s = what == 1 ? pickp(q) : pc[r(pc.size())]; if (s.empty()) what = 0; int ty = r(2); bool ran = false; ProcRec b;
      ProcRec a = h.run(p, op, rule, 1, true, [&] { if (what == 1) h.add(q, ty, s, 0, true); if (what == 2) { river::processor tmp; auto ps = to_paths(s, h.f); tmp.add_path(ps, path_type::subject); river::paths t; tmp.process(clip_type::union_, fill_rule::even_odd, t); } b = h.run(q, op2, rule2, 1, true); ran = true; });
      a.inp = io; if (ran) h.note(b); h.note(a); h.against_fresh(p, op, rule); if (ran) h.against_fresh(q, op2, rule2); break; }
    default: if (ids.size() > 1 && r.one(2)) { h.del(p); for (auto i = had.begin(); i != had.end();) if (i->first == p) i = had.erase(i); else ++i; } else if (ids.size() < 4) { int q = 1; while (h.live.count(q)) q++; h.nw(q); }
    }
  }
  vector<int> ids; for (auto& e : h.live) ids.push_back(e.first);
  for (int p : ids) { int op = 1 + r(4), rule = r(4); ProcRec a = h.run(p, op, rule, 0, true); a.inp = io; h.note(a); h.against_fresh(p, op, rule); }
  if (!io) h.flag("input changed");
  h.finish(idx, k.clr, r, idx % opt.every == 0);
}

// C09: the same calls on several threads at once, each with its own processors
static void case_threads(long idx) {
  const int N = 6; Rng r0(opt.seed, idx, 41);
  struct Job { Case k; SampleSet ss; std::unique_ptr<Hist> h; vector<std::array<int,3>> plan; vector<ProcRec> rec; }; vector<Job> js(N);
  for (int i = 0; i < N; i++) { auto& j = js[i]; Rng r(opt.seed, idx * 64 + i, 42); j.k = make_case(r, opt.fam >= 0 ? opt.fam : i % 3); j.ss = samples_for(j.k, r); j.h.reset(new Hist(j.ss, j.k.curved)); for (int c = 0; c < 6; c++) j.plan.push_back({1 + r(4), r(4), r(2)}); }
  vector<std::thread> ts;
  for (auto& j : js) ts.emplace_back([&j] {
    auto& h = *j.h; h.nw(1); h.add(1, 0, j.k.S, 0, true); h.add(1, 1, j.k.C, 1, true);
    for (auto& p : j.plan) j.rec.push_back(h.run(1, p[0], p[1], p[2], true));
  });
  for (auto& t : ts) t.join();
  for (int i = 0; i < N; i++) { auto& j = js[i]; auto& h = *j.h; Rng r(opt.seed, idx * 64 + i, 43);
    std::set<std::array<int,2>> done; for (auto& a : j.rec) { h.note(a); if (done.insert({a.op, a.rule}).second) h.against_fresh(1, a.op, a.rule); }
    h.finish(idx, j.k.clr, r, idx % opt.every == 0 && i == (idx / opt.every) % N); }
}

// ---------------------------------------------------------------- C06
static Contour rotated(const Contour& c, size_t by) { // start at another vertex, explicit edge back if it was implicit
  vector<IP> v = verts(c); size_t n = c.s.size(); bool closed = n && v[n].x == c.x && v[n].y == c.y;
  vector<Seg> s = c.s; if (!closed) { Seg g; g.v[0] = c.x; g.v[1] = c.y; s.push_back(g); }
  size_t m = s.size(); by %= m; Contour d(by ? s[by - 1].ex() : c.x, by ? s[by - 1].ey() : c.y);
  for (size_t i = 0; i < m; i++) d.s.push_back(s[(by + i) % m]);
  return d;
}
static Contour reversed(const Contour& c) {
  vector<IP> v = verts(c); size_t n = c.s.size(); Contour d(v[n].x, v[n].y);
  for (size_t i = n; i-- > 0;) { auto& g = c.s[i]; if (g.cubic) d.cubic(g.v[2], g.v[3], g.v[0], g.v[1], v[i].x, v[i].y); else d.line(v[i].x, v[i].y); }
  return d;
}
static Contour rewritten(Rng& r, Contour c, bool lattice) {
  if (c.s.empty()) return c;
  if (r.one(2)) c = rotated(c, r(c.s.size() + 1));
  vector<IP> v = verts(c); size_t n = c.s.size();
  bool closed = v[n].x == c.x && v[n].y == c.y;
  if (!closed && r.one(2)) c.line(c.x, c.y);
  else if (closed && !c.s.back().cubic && n > 2 && r.one(2)) c.s.pop_back();
  Contour d(c.x, c.y); IP cur{c.x, c.y};
  if (r.one(6)) d.line(c.x, c.y);
  for (auto& g : c.s) {
    if (!g.cubic && r.one(3)) { // cut at an interior point of the edge's own lattice
      int dx = g.v[0] - cur.x, dy = g.v[1] - cur.y, q = std::__gcd(abs(dx), abs(dy)); if (lattice && q) { q /= U; if (q > 1) q = q; else q = 0; }
      if (q > 1) { int a = 1 + r(q - 1), b = lattice ? (q) : q; d.line(cur.x + dx / b * a, cur.y + dy / b * a); }
      else if (lattice && r.one(2) && (dx || dy)) d.line(cur.x + dx / 2, cur.y + dy / 2);   // half lattice steps are exact, too
    }
    d.s.push_back(g); cur = {g.ex(), g.ey()};
    if (r.one(5)) { d.line(cur.x, cur.y); if (r.one(3)) d.line(cur.x, cur.y); }
  }
  return d;
}
static void case_repr(long idx) {
  Rng r(opt.seed, idx, 51); Case k = pick_case(r, idx); SampleSet ss = samples_for(k, r); Hist h(ss, k.curved); Rng pr(opt.seed, idx, 52);
  int op = 1 + r(4), rule = r(4);
  h.nw(1); h.add(1, 0, k.S); h.add(1, 1, k.C); h.proc(1, op, rule);
  for (int v = 0; v < 3; v++) {
    int kind = r(4), op2 = op, rule2 = rule; Shape S = k.S, C = k.C;
    if (kind == 1) { for (auto& c : S) c = reversed(c); for (auto& c : C) c = reversed(c); if (rule >= 2) rule2 = 5 - rule; }
    if (kind == 2 && op != 3) std::swap(S, C);
    if (kind != 1 || r.one(2)) { for (auto& c : S) c = rewritten(r, c, k.lattice); for (auto& c : C) c = rewritten(r, c, k.lattice); }
    if (r.one(2)) for (auto x : {&S, &C}) for (size_t i = x->size(); i > 1; i--) std::swap((*x)[i - 1], (*x)[r(i)]);
    h.pad = r.one(2) ? &pr : nullptr; h.nw(2);
    if (r.one(2)) { h.add(2, 0, S, r(4)); h.add(2, 1, C, r(4)); }
    else { size_t i = 0, j = 0; while (i < S.size() || j < C.size()) { if (j >= C.size() || (i < S.size() && r.one(2))) { h.add(2, 0, {S[i]}, r(3)); i++; } else { h.add(2, 1, {C[j]}, r(3)); j++; } } }
    h.proc(2, op2, rule2); h.same(1, op, rule, 2, op2, rule2); h.del(2);
  }
  h.finish(idx, k.clr, r, idx % opt.every == 0);
}

// ---------------------------------------------------------------- C18
// same elements, coordinates equal up to rounding
static bool close_paths(const DShape& a, const DShape& b) {
  if (a.size() != b.size()) return false;
  auto eq = [](const point& u, const point& v) { return std::abs(u.x - v.x) < 1e-6 && std::abs(u.y - v.y) < 1e-6; };
  for (size_t i = 0; i < a.size(); i++) {
    if (a[i].s.size() != b[i].s.size() || !eq(a[i].from, b[i].from)) return false;
    for (size_t j = 0; j < a[i].s.size(); j++) { auto& u = a[i].s[j]; auto& v = b[i].s[j]; if (u.cubic != v.cubic || !eq(u.to, v.to) || (u.cubic && (!eq(u.c1, v.c1) || !eq(u.c2, v.c2)))) return false; }
  }
  return true;
}
static void case_api(long idx) {
  Rng r(opt.seed, idx, 61); Case k = pick_case(r, idx); SampleSet none; Hist h(none, k.curved); bool fwd = idx % opt.every == 0; Rng pr(opt.seed, idx, 62);
  for (int c = 0; c < 4; c++) {
    h.pad = c % 2 ? &pr : nullptr; int op = 1 + r(4), rule = r(4);
    auto one = [&](int in, int out, ProcRec& rec) {
      h.nw(1); h.add(1, 0, k.S, in); h.add(1, 1, k.C, in); rec = h.run(1, op, rule, out);
    };
    ProcRec base; one(0, 0, base); put_proc(h.o, base, {}, {}); h.del(1); if (!base.out.empty()) h.nontrivial = true;
    for (int v = 1; v < 4; v++) {
      ProcRec rec; one(v & 1, v >> 1, rec); shm->judged++; rec.ref = base.out; rec.hasref = true;
      if (!close_paths(rec.out, base.out)) h.flag("interfaces disagree");
      if (!rec.proto) h.flag("callback protocol");
      put_proc(h.o, rec, {}, {}); h.del(1);
    }
  }
  h.finish(idx, 0, r, fwd);
}

// ---------------------------------------------------------------- C19
static void case_area(long idx) {
  Rng r(opt.seed, idx, 71); Case k = pick_case(r, idx); SampleSet none; Hist h(none, k.curved);
  for (int rule = 0; rule < 4; rule++) {
    h.nw(1); h.add(1, 0, k.S); h.add(1, 1, k.C); h.nw(2); h.add(2, 0, k.C); h.add(2, 1, k.S); h.nw(3); h.add(3, 0, k.S); h.nw(4); h.add(4, 0, k.C);
    for (int op = 1; op <= 4; op++) h.proc(1, op, rule);
    h.proc(2, 3, rule); h.proc(3, 2, rule); h.proc(4, 2, rule);
    auto A = [&](int p, int op) { return h.obs[{p, op, rule}].area; };
    double tol = k.curved ? 400 : 1; auto zero = [&](double v) { shm->judged++; if (std::abs(v) > tol) h.flag("area law"); };
    zero(A(1, 2) - A(1, 1) - A(1, 4)); zero(A(1, 4) - A(1, 3) - A(2, 3)); zero(A(3, 2) - A(1, 1) - A(1, 3)); zero(A(4, 2) - A(1, 1) - A(2, 3));
    for (int op = 1; op <= 4; op++) if (A(1, op) < -tol) h.flag("negative area");
    char t[120]; snprintf(t, sizeof t, "{\"e\":\"measure\",\"p\":1,\"q\":2,\"s\":3,\"c\":4,\"rule\":%d}\n", rule); h.o += t;
    for (int p = 1; p <= 4; p++) h.del(p);
  }
  h.finish(idx, 0, r, idx % opt.every == 0);
}

// ---------------------------------------------------------------- C05
static Contour odd_contour(Rng& r) { // anything well formed
  int kind = r(12); bool curve = kind >= 5 && kind <= 9;
  // degenerate curves keep off the lattice the straight contours live on: see "limits" in DESIGN.md
  auto c = [&]() { return curve ? r.range(-250, 250) : r.range(-4, 4) * U; }; Contour k(c(), c());
  switch (kind) {
  case 0: break;                                                             // a lone move
  case 1: k.line(c(), c()); break;                                           // two points
  case 2: k.line(k.x, k.y); break;                                           // repeated point
  case 3: { int x = c(), y = c(); k.line(x, y); k.line(k.x, k.y); if (r.one(2)) k.line(x, y); break; }   // spike
  case 4: { int n = 3 + r(4), dx = r.range(-2, 2), dy = r.range(-2, 2); for (int i = 0; i < n; i++) { int t = r.range(-3, 3); k.line(k.x + dx * t * U, k.y + dy * t * U); } break; } // collinear
  case 5: k.cubic(k.x, k.y, k.x, k.y, k.x, k.y); break;                      // collapsed cubic
  case 6: { int y = k.y; k.cubic(c(), y, c(), y, c(), y); if (r.one(2)) k.line(c(), c()); break; }       // flat, horizontal
  case 7: { int x = k.x, y[4] = {c(), c(), c(), c()}; std::sort(y, y + 4); if (r.one(2)) std::reverse(y, y + 4); k.y = y[0]; k.cubic(x, y[1], x, y[2], x, y[3]); k.line(c(), c()); break; } // flat, vertical
  case 8: { k.cubic(c(), c(), c(), c(), k.x, k.y); break; }                  // closed loop of one cubic
  case 9: { int x = c(), y = c(); k.cubic(k.x, k.y, x, y, x, y); k.line(c(), c()); break; }              // straight cubic
  case 10: { int n = 3 + r(6); while (n--) k.line(c(), c()); k.line(k.x, k.y); k.line(k.x, k.y); break; }
  default: { int n = 2 + r(3); for (int i = 0; i < n; i++) k.line(c(), c()); }
  }
  return k;
}
static void safe_once(Rng r, long idx, Hist* h) {
  Case k; int kind = r(10);
  if (kind < 5) { int n = r(4); while (n--) k.S.push_back(odd_contour(r)); n = r(3); while (n--) k.C.push_back(odd_contour(r)); if (r.one(3)) k.S.push_back(gen::lat(gen::rectv(r, 6)));
    // curved degenerate contours only meet straight ones: partly coincident curves are outside the property
    int cv = 0; for (auto x : {&k.S, &k.C}) for (size_t i = 0; i < x->size();) { if ((*x)[i].curved() && cv++) x->erase(x->begin() + i); else i++; }
    // and keep their vertices off each other: see "limits" in DESIGN.md
    Contour* cc = nullptr; Shape rest; for (auto x : {&k.S, &k.C}) for (auto& c : *x) if (c.curved()) cc = &c; else rest.push_back(c);
    if (cc) { Flat fr = flat(todouble(rest)), fc = flat(todouble({*cc})); bool close = false;
      for (auto& v : verts(*cc)) if (distflat(fr, v.x, v.y) < 0.5) close = true;
      for (auto& c : rest) for (auto& v : verts(c)) if (distflat(fc, v.x, v.y) < 0.5) close = true;
      if (close) *cc = Contour(cc->x, cc->y); } }
  else if (kind < 8) k = make_case(r, F_LATTICE);
  else if (kind == 8) k = make_case(r, F_GENERAL);
  else k = make_case(r, F_CURVES);
  if (r.one(40)) { k.S.clear(); k.C.clear(); Contour z(0, 0); int n = 200 + r(400); for (int i = 1; i < n; i++) { int a = r.range(0, 12) * U, b = r.range(0, 12) * U; z.line(a, b); } if (n < 330) k.S.push_back(z); else { for (int i = 0; i < 40; i++) (i % 3 ? k.S : k.C).push_back(gen::star(r, 8, r.range(-2000, 2000), r.range(-2000, 2000), 1500)); } }
  if (getenv("RV_SHOW")) { string a, b; dump_path_text(a, k.S); dump_path_text(b, k.C); fprintf(stderr, "kind %d S=%s\nC=%s\n", kind, a.c_str(), b.c_str()); }
  river::paths empty; h->nw(1);
  if (r.one(8)) h->live[1]->process(clip_type::union_, fill_rule::non_zero, empty);   // nothing added yet
  if (r.one(6)) h->live[1]->add_path(empty, path_type::subject);
  if (r.one(6)) { river::paths e(2); h->live[1]->add_path(e, path_type::clip); }      // paths without elements
  if (!k.S.empty() || r.one(3)) h->add(1, 0, k.S, k.S.empty() ? 0 : r(4));
  if (!k.C.empty() || r.one(3)) h->add(1, 1, k.C, k.C.empty() ? 0 : r(4));
  int n = 1 + r(4); while (n--) { ProcRec a = h->run(1, r(5), r(4), r(2), r.one(4)); h->note(a); if (r.one(4)) h->add(1, r(2), {gen::lat(gen::rectv(r, 6))}); }
  if (r.one(3)) { h->nw(2); h->add(2, 0, k.S); h->run(2, 1 + r(4), r(4), 0); if (r.one(2)) h->del(2); }
  h->del(1); if (h->live.count(2)) h->del(2);
}
static void case_safe(long idx) {
  SampleSet none; long m[3]; bool fwd = idx % opt.every == 0; string keep; bool nt = false;
  for (int pass = 0; pass < 3; pass++) { // the heap must come back to the same level every time
    { Hist h(none, true); safe_once(Rng(opt.seed, idx, 81), idx, &h); if (pass == 0) { keep = h.o; keep.shrink_to_fit(); nt = h.nontrivial; } }
    m[pass] = heap_bytes();
  }
  if (nt) shm->nontrivial++;
  long grow = m[2] - m[1]; shm->judged++;
  if (grow) { WHY("case %ld leaks %ld", idx, grow); shm->sus++; }
  if (!(fwd || (grow && shm->sus <= opt.maxsus))) return;
  string s; put_begin(s, idx, {}, 0, nullptr); s += keep; s += "{\"e\":\"balance\",\"bytes\":"; jint(s, grow); s += "}\n"; flush_trace(s);
}

// ---------------------------------------------------------------- behaviours generated from RiverMC.tla
// one line per behaviour: n steps, each  N p | D p | A p ty c | P p op rule mask(hex string of expected membership)
struct Step { char k; int a[3]; string mask; };
static vector<vector<Step>> scripts; static vector<Contour> lib_contours; static vector<IP> lib_samples;
static bool load_scripts() {
  if (script_file.empty()) return true;
  FILE* f = fopen(script_file.c_str(), "r"); if (!f) return false;
  int n; if (fscanf(f, "%d", &n) != 1) return false;
  for (int i = 0; i < n; i++) { int m; if (fscanf(f, "%d", &m) != 1) return false; vector<IP> v; while (m--) { IP p; if (fscanf(f, "%d %d", &p.x, &p.y) != 2) return false; v.push_back(p); } lib_contours.push_back(poly(v)); }
  if (fscanf(f, "%d", &n) != 1) return false;
  for (int i = 0; i < n; i++) { IP p; if (fscanf(f, "%d %d", &p.x, &p.y) != 2) return false; lib_samples.push_back(p); }
  int len;
  while (fscanf(f, "%d", &len) == 1) { vector<Step> s; while (len--) { Step t{}; char b[512]; if (fscanf(f, " %c", &t.k) != 1) return false; int c = t.k == 'A' || t.k == 'P' ? 3 : 1; for (int i = 0; i < c; i++) if (fscanf(f, "%d", &t.a[i]) != 1) return false; if (t.k == 'P') { if (fscanf(f, "%511s", b) != 1) return false; t.mask = b; } s.push_back(t); } scripts.push_back(s); }
  fclose(f); if (opt.count > (long)scripts.size() - opt.from) opt.count = std::max(0L, (long)scripts.size() - opt.from);
  return true;
}
static void case_script(long line) {
  long idx = line + opt.base; Rng r(opt.seed, idx, 91); SampleSet ss; ss.pts = lib_samples; ss.clr.assign(lib_samples.size(), 1); ss.ws = ss.wc = vector<int>(lib_samples.size(), 0); Hist h(ss, false);
  bool scr = idx % 3 == 0;
  for (auto& t : scripts[line]) switch (t.k) {
    case 'N': h.nw(t.a[0]); break;
    case 'D': h.del(t.a[0]); break;
    case 'A': h.add(t.a[0], t.a[1], {lib_contours[t.a[2]]}, (idx + t.a[2]) % 2, scr); break;
    case 'P': { h.proc(t.a[0], t.a[1], t.a[2], (idx + t.a[1]) % 2, idx % 2); auto& o = h.obs[{t.a[0], t.a[1], t.a[2]}];
      for (size_t i = 0; i < t.mask.size(); i++) { shm->judged++; if ((t.mask[i] == '1') != (bool)o.in[i]) { h.flag("generated behaviour"); h.disputed.insert((int)i); } } break; }
  }
  h.finish(idx, 2, r, idx % opt.every == 0);
}

// ---------------------------------------------------------------- inputs generated from SweepMC.tla
// one line per input: beams, then per beam: letters, (type, winding, x below, x above) each, then for each of the
// sixteen questions one character per letter: does the strip to its right belong to the result
struct Word { vector<vector<std::array<int,4>>> beam; vector<string> mask; };
static vector<Word> words; static string words_file;
static bool load_words() {
  if (words_file.empty()) return true;
  FILE* f = fopen(words_file.c_str(), "r"); if (!f) return false; int n;
  while (fscanf(f, "%d", &n) == 1) { Word w; w.beam.resize(n); int tot = 0;
    for (auto& b : w.beam) { int m; if (fscanf(f, "%d", &m) != 1) return false; b.resize(m); tot += m; for (auto& l : b) for (int& v : l) if (fscanf(f, "%d", &v) != 1) return false; }
    for (int q = 0; q < 16; q++) { char t[256]; if (fscanf(f, "%255s", t) != 1 || (int)strlen(t) != tot) return false; w.mask.push_back(t); }
    words.push_back(w); }
  fclose(f); if (opt.count > (long)words.size() - opt.from) opt.count = std::max(0L, (long)words.size() - opt.from);
  return true;
}
static void case_words(long line) {
  auto& w = words[line]; long idx = line + opt.base; Rng r(opt.seed, idx, 95); Case k; SampleSet ss; vector<int> pos; const int G = 2 * U;   // edges on even grid points, so half steps are on the grid
  int at = 0;
  for (size_t y = 0; y < w.beam.size(); y++) { auto& b = w.beam[y]; vector<char> used(b.size(), 0);
    int Y0 = (int)y * G, Y1 = Y0 + G;
    for (size_t i = 0; i < b.size(); i++) { if (used[i]) continue;
      vector<size_t> mate; for (size_t j = i + 1; j < b.size(); j++) if (!used[j] && b[j][0] == b[i][0] && b[j][1] == -b[i][1]) mate.push_back(j);
      if (mate.empty()) continue; size_t j = mate[r(mate.size())]; used[i] = used[j] = 1;
      vector<IP> q = {{b[i][2] * G, Y0}, {b[j][2] * G, Y0}, {b[j][3] * G, Y1}, {b[i][3] * G, Y1}}; if (b[i][1] < 0) std::reverse(q.begin(), q.end());
      std::rotate(q.begin(), q.begin() + r(4), q.end()); (b[i][0] ? k.C : k.S).push_back(poly(q)); }
    for (size_t i = 0; i + 1 < b.size(); i++) { int m0 = b[i][2] + b[i][3], m1 = b[i + 1][2] + b[i + 1][3]; if (m0 < m1) { ss.pts.push_back({(m0 + m1) * G / 4, Y0 + G / 2}); pos.push_back(at + (int)i); } }
    at += (int)b.size(); }
  ss.clr.assign(ss.pts.size(), 1); ss.ws = ss.wc = vector<int>(ss.pts.size(), 0);
  for (auto x : {&k.S, &k.C}) for (size_t i = x->size(); i > 1; i--) std::swap((*x)[i - 1], (*x)[r(i)]);
  Hist h(ss, false); if (r.one(2)) { h.f = random_xf(r, true, false); if (h.f.a * h.f.d < h.f.b * h.f.c) h.f.c = -h.f.c, h.f.d = -h.f.d; }   // no mirror: the prescribed winding is signed
  for (int q = 0; q < 16; q++) { int op = 1 + q / 4, rule = q % 4; h.nw(1); h.add(1, 0, k.S, r(4)); h.add(1, 1, k.C, r(4)); ProcRec rec = h.run(1, op, rule, r(2)); h.note(rec);
    Flat fo = flat(rec.out, 1); for (size_t i = 0; i < ss.pts.size(); i++) { shm->judged++; if (wind(fo, ss.pts[i].x, ss.pts[i].y) != w.mask[q][pos[i]] - '0') { h.flag("generated input"); h.disputed.insert((int)i); } }
    h.del(1); }
  h.finish(idx, 2, r, idx % opt.every == 0);
}

static bool more_modes(long i) {
  if (opt.mode == "words") { case_words(i); return true; }
  if (opt.mode == "hist") case_hist(i); else if (opt.mode == "iso") case_iso(i); else if (opt.mode == "threads") case_threads(i);
  else if (opt.mode == "repr") case_repr(i); else if (opt.mode == "api") case_api(i); else if (opt.mode == "area") case_area(i);
  else if (opt.mode == "safe") case_safe(i); else if (opt.mode == "script") case_script(i); else return false;
  return true;
}
