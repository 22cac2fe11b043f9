// Drives the broad phase (scan_line.h) with items of its own.
#include <set>
#include <unordered_map>
#include <map>
#include <memory>
#include "fnmain.h"
#include "scan_line.h"

struct Item { int id; double x1, y1, x2, y2; };
struct Rec { vector<std::pair<int, int>>* calls; };
static vector<std::pair<int, int>>* calls; static void* want; static bool uok;
namespace scan_line {
  template<> struct all_function<Item> {
    struct box { double x1, y1, x2, y2; };
    typedef double ct;
    typedef Item segment;
    static bool intersect(const box& a, const box& b) { return a.x1 <= b.x2 && b.x1 <= a.x2 && a.y1 <= b.y2 && b.y1 <= a.y2; }
    static ct get_min_x(const box& b) { return b.x1; }
    static ct get_min_y(const box& b) { return b.y1; }
    static ct get_max_x(const box& b) { return b.x2; }
    static ct get_max_y(const box& b) { return b.y2; }
    static box get_rect(const Item& i) { return box{i.x1, i.y1, i.x2, i.y2}; }
    static void intersect(const Item& a, const Item& b, void* user) { if (user != want) uok = false; calls->push_back({a.id, b.id}); }
  };
}
static void one_case(long id) {
  Rng r(opt.seed, id, 18); vector<vector<int>> b; vector<int> at;
  if (opt.kind) {   // every sequence of three boxes on the kind x 1 grid
    int g = opt.kind + 1; vector<vector<int>> all;
    for (int a = 0; a < g; a++) for (int c = a; c < g; c++) for (int y = 0; y < 2; y++) for (int z = y; z < 2; z++) all.push_back({a, y, c, z});
    long x = id; for (int i = 0; i < 3; i++) { b.push_back(all[x % all.size()]); x /= all.size(); }
    at = {3};
  } else {
    int n = 1 + r(r.one(3) ? 24 : 7), m = r.one(2) ? 4 : r.one(2) ? 12 : 60;
    for (int i = 0; i < n; i++) { int x = r(m), y = r(m), w = r.one(3) ? 0 : r(m / 2 + 1), h = r.one(3) ? 0 : r(m / 2 + 1); if (i && r.one(6)) b.push_back(b[r(i)]); else b.push_back({x, y, x + w, y + h}); }
    int k = 1 + r(3); for (int i = 0; i < k; i++) at.push_back(i + 1 == k ? n : r(n + 1)); std::sort(at.begin(), at.end());
  }
  int sc = r.one(3) ? r.range(-30, 30) : 0; double f = std::ldexp(r.one(2) ? 1.0 : 0.7, sc), off = r.one(3) ? -30 : 0;
  string o = head(id, "scan") + ",\"b\":["; for (size_t i = 0; i < b.size(); i++) { if (i) o += ","; jints(o, b[i]); } o += "],\"q\":[";
  char tags[8]; size_t added = 0;
  { scan_line::scan_line<Item> s;
    for (size_t q = 0; q < at.size(); q++) {
      for (; added < (size_t)at[q]; added++) { auto& v = b[added]; s.add_segment(Item{(int)added + 1, (v[0] + off) * f, (v[1] + off) * f, (v[2] + off) * f, (v[3] + off) * f}); }
      vector<std::pair<int, int>> c; calls = &c; want = &tags[q]; uok = true; s.process(want);
      if (q) o += ","; o += "["; jint(o, at[q]); o += ",["; for (size_t i = 0; i < c.size(); i++) { if (i) o += ","; jints(o, {c[i].first, c[i].second}); } o += "],"; jint(o, uok); o += "]";
    } }
  o += "]}\n"; put(o);
}
