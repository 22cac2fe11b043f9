From 704b9ad947cc8eb79b777349e74dfcd005a7e4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:11 +0000
Subject: [PATCH 01/19] fix: return the y extrema of a cubic in increasing
 order

split_y left t1 > t2 for some curves; read_cubicto then split the curve at
decreasing parameters and produced overlapping pieces (wrong output or an
endless sweep).
---
 src/src/rmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 3d2ce07..668bed8 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -440,7 +440,7 @@ namespace rmath
       switch (res.size())
       {
       case 1: *t1 = res[0]; return 1;
-      case 2: *t1 = res[0]; *t2 = res[1]; return 2;
+      case 2: *t1 = (std::min)(res[0], res[1]); *t2 = (std::max)(res[0], res[1]); return 2;
       default: return 0;
       }
     }
-- 
2.43.0


From 82685a892cead21666a2d1d6410cff6457d4afca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:11 +0000
Subject: [PATCH 02/19] fix: detect collinear overlap when one segment contains
 the other

intersect() only tested whether p0 lies on p2p3, so a segment lying strictly
inside the other one was reported as not touching it.
---
 src/src/rmath.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 668bed8..a5e7dc1 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -108,7 +108,8 @@ namespace rmath
     if (denominator == 0 || !std::isfinite(denominator))
     {
       // 此时平行
-      if (dist2_point_line(p0, p2, p3) == 0)
+      if (dist2_point_line(p0, p2, p3) == 0 || dist2_point_line(p1, p2, p3) == 0
+        || dist2_point_line(p2, p0, p1) == 0 || dist2_point_line(p3, p0, p1) == 0)
       {
         // 此时共线
         if (p0 != p2 && p0 != p3 && point_between_two_point(p0, p2, p3)) {
-- 
2.43.0


From 597189eb1e56031b6ed11a5879767df3cc27d21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:11 +0000
Subject: [PATCH 03/19] fix: make seg_lineto::curr_x independent of the segment
 direction

Coincident segments running in opposite directions got x values that differed
by rounding and were ordered apart on the scanline.
---
 src/src/segment.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/src/segment.h b/src/src/segment.h
index b0597f7..b86fe29 100644
--- a/src/src/segment.h
+++ b/src/src/segment.h
@@ -73,7 +73,10 @@ namespace river {
       target = from;
     }
     virtual double curr_x(const point& from, double y) const override {
-      return (target.x - from.x) * (y - from.y) / (target.y - from.y) + from.x;
+      // 结果不能受线段方向的影响, 不然重合的线段会因舍入误差而分离
+      const point& bot = from.y < target.y ? from : target;
+      const point& top = from.y < target.y ? target : from;
+      return (top.x - bot.x) * (y - bot.y) / (top.y - bot.y) + bot.x;
     }
   };
 
-- 
2.43.0


From 95ab15aa6d76c5eac518a387b641158a04e05aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:11 +0000
Subject: [PATCH 04/19] fix: insert both bounds of a local minimum by their own
 position

With a horizontal minimum the two bounds do not start next to each other, the
second one was inserted beside the first regardless of the edges between.
---
 src/src/vatti.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 79188aa..b6ef1b6 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -758,7 +758,7 @@ namespace vatti
       b->curr_x = b->bot.x;
 
       insert_into_ael(a);
-      insert_into_ael(a->prev_in_ael, b);
+      insert_into_ael(b);
       insert_scanline(a->top.y);
       insert_scanline(b->top.y);
     }
-- 
2.43.0


From eda7c362ef00a766c5fd934cc1e63d8bc7e09c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:11 +0000
Subject: [PATCH 05/19] fix: do not rely on a sorted AEL while re-sorting it

Edges that passed a horizontal have a changed curr_x, so the merge-like walk
missed edges that had to be re-inserted.
---
 src/src/vatti.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index b6ef1b6..34a1922 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -1221,23 +1221,20 @@ namespace vatti
     std::sort(list.begin(), list.end());
     list.erase(std::unique(list.begin(), list.end()), list.end());
 
-    auto it = list.begin();
+    // 经过水平线的 edge 其 curr_x 已经改变, 此时 ael 不一定有序
     auto e = ael_first;
 
     std::vector<edge*> reinsert_list;
-    while (it != list.end() && e) {
-      if (e->curr_x == *it) {
+    while (e) {
+      auto next = e->next_in_ael;
+      if (std::binary_search(list.begin(), list.end(), e->curr_x)) {
         reinsert_list.push_back(e);
-        auto next = e->next_in_ael;
         // 重新排列也意味着原来的bound有可能失效
         if (e->bound) e->bound->curr_edge = nullptr;
         e->bound = nullptr;
         take_from_ael(e);
-        e = next;
       }
-      else if (*it < e->curr_x)
-        ++it;
-      else e = e->next_in_ael;
+      e = next;
     }
 
     for (auto e : reinsert_list) insert_into_ael(e);
-- 
2.43.0


From 6d48280e089628ff51b941cc1db2aa6a2fd628ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:11 +0000
Subject: [PATCH 06/19] fix: orient output bounds by their side, not by the
 edge direction

A filled region can be bounded by two edges of equal direction (difference,
xor, even_odd, non_zero). The left bound always runs down and the right one up.
---
 src/src/vatti.cpp | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 34a1922..25be860 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -904,18 +904,20 @@ namespace vatti
       out_bound* bound;
       num curr_x;
       size_t obl_index;
+      bool is_left;
     };
 
     // bound_edge 和 obl 剩下的依次按 curr_x, is_up, obl_index, ael, obl原来的顺序排序
 
     std::list<bound_data> sbl;
-    for (auto& new_b : bound_edge) {
+    for (size_t i = 0; i < bound_edge.size(); ++i) {
+      auto& new_b = bound_edge[i];
       if (new_b.is_done == false) sbl.push_back({
-          new_b.edge, nullptr, new_b.edge->curr_x, sbl.size() });
+          new_b.edge, nullptr, new_b.edge->curr_x, sbl.size(), i % 2 == 0 });
     }
     auto curr_b = obl_first;
     while (curr_b) {
-      sbl.push_back({ nullptr, curr_b, curr_b->stop_x, sbl.size() });
+      sbl.push_back({ nullptr, curr_b, curr_b->stop_x, sbl.size(), false });
       curr_b = curr_b->next_in_obl;
     }
     sbl.sort(
@@ -949,7 +951,10 @@ namespace vatti
 
         // 只剩下可以按顺序两两相连即可
         next = std::next(it);
-        if (it->edge && next->edge) new_output(it->edge, next->edge);
+        if (it->edge && next->edge) {
+          if (it->is_left) new_output(it->edge, next->edge);
+          else new_output(next->edge, it->edge);
+        }
         else if (it->bound && next->bound) join_output(it->bound, next->bound, y);
         else if (it->edge) update_bound(next->bound, it->edge);
         else update_bound(it->bound, next->edge);
@@ -1351,7 +1356,7 @@ namespace vatti
     delete_obl_bound(b);
   }
 
-  // a、b 的wind_dx必定相反
+  // a 是输出区域的左边界(down), b 是右边界(up), 与 edge 自身的 wind_dx 无关
   void clipper::new_output(edge* a, edge* b)
   {
     auto output = new_out_polygon();
@@ -1359,23 +1364,19 @@ namespace vatti
     output_list.push_back(output);
     output->owner = nullptr; // ToDo 这里可以开始计算polytree了
 
-    auto up = new_bound();
-    up->owner = output;
-    up->curr_edge = a;
-    a->bound = up;
-    up->wind_dx = a->wind_dx;
-    up->stop_x = a->curr_x;
-
     auto down = new_bound();
     down->owner = output;
-    down->curr_edge = b;
-    b->bound = down;
-    down->wind_dx = b->wind_dx;
-    down->stop_x = b->curr_x;
+    down->curr_edge = a;
+    a->bound = down;
+    down->wind_dx = 1;
+    down->stop_x = a->curr_x;
 
-    if (!up->is_up()) {
-      std::swap(up, down);
-    }
+    auto up = new_bound();
+    up->owner = output;
+    up->curr_edge = b;
+    b->bound = up;
+    up->wind_dx = -1;
+    up->stop_x = b->curr_x;
 
     output->up_bound = up;
     output->down_bound = down;
-- 
2.43.0


From 4d8a1f5b7d5e9693fb18b392264222e0708816ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:11 +0000
Subject: [PATCH 07/19] fix: merge intersection points that differ only by
 rounding

The same point found from several segment pairs differed in the last bits, and
the sweep treated it as several vertices.
---
 src/src/vatti.cpp | 42 ++++++++++++++++++++++++++++++++++++++++++
 src/src/vatti.h   |  4 ++--
 2 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 25be860..462dee3 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -5,6 +5,8 @@
 
 #include <algorithm>
 #include <list>
+#include <map>
+#include <set>
 
 namespace scan_line
 {
@@ -582,6 +584,7 @@ namespace vatti
       } while (cur != start);
     }
     scaner.process(this);
+    merge_break_points();
 
     // 处理得到的打断信息
 #if RIVER_GRAPHICS_DEBUG &  0
@@ -702,6 +705,45 @@ namespace vatti
 #endif
   }
 
+  // 同一个交点会由不同的线段对重复求得, 各自的舍入误差会使其被视为不同的点.
+  // 在误差范围内统一它们的坐标, 优先使用已有的顶点和已有的扫描线高度
+  void clipper::merge_break_points()
+  {
+    num scale = 0;
+    std::map<num, std::set<num>> rows; // y -> x
+    for (auto& start : paths_start) {
+      auto cur = start;
+      do {
+        rows[cur->pt.y].insert(cur->pt.x);
+        scale = (std::max)({ scale, std::abs(cur->pt.x), std::abs(cur->pt.y) });
+        cur = cur->next;
+      } while (cur != start);
+    }
+    const num tolerance = scale * 1e-11;
+
+    for (auto& info : break_info_list) {
+      auto& p = info.break_point;
+
+      auto row = rows.lower_bound(p.y - tolerance);
+      if (row == rows.end() || row->first > p.y + tolerance) {
+        row = rows.emplace(p.y, std::set<num>{}).first;
+      }
+      p.y = row->first;
+
+      auto& xs = row->second;
+      auto x = xs.lower_bound(p.x - tolerance);
+      if (x == xs.end() || *x > p.x + tolerance) x = xs.insert(p.x).first;
+      p.x = *x;
+    }
+
+    // 与自身端点重合的不需要打断
+    break_info_list.erase(std::remove_if(break_info_list.begin(), break_info_list.end(),
+      [](const break_info& info) {
+        return info.break_point == info.vert->pt
+          || info.break_point == info.vert->next->pt;
+      }), break_info_list.end());
+  }
+
   bool clipper::pop_scanline(num old_y, num& new_y)
   {
     if (scanline_list.empty()) return false;
diff --git a/src/src/vatti.h b/src/src/vatti.h
index 0d123f5..99b31bb 100644
--- a/src/src/vatti.h
+++ b/src/src/vatti.h
@@ -64,8 +64,7 @@ namespace vatti
 
     bool operator==(const break_info& r) const {
       return vert == r.vert
-        && break_point == r.break_point
-        && t == r.t;
+        && break_point == r.break_point;
     }
   };
 
@@ -167,6 +166,7 @@ namespace vatti
     segment* copy_seg(const edge* e, bool reverse = false);
 
     void process_intersect();
+    void merge_break_points();
     void add_local_min(vertex* vert, path_type pt, bool is_open);
     void reset();
     void insert_scanline(num y);
-- 
2.43.0


From 2a4c73b96da2b876cb37588dd8b72796a24c2d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:11 +0000
Subject: [PATCH 08/19] fix: keep intersection points on end points and axis
 parallel lines

---
 src/src/vatti.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 462dee3..160c744 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -1583,6 +1583,24 @@ namespace vatti
       }
   }
 
+  // 线段不能因交点的舍入误差而偏离: 落在水平或垂直线上时保持在该线上,
+  // 落在端点的误差范围内时就是该端点
+  void snap_intersection(const vertex* l, const vertex* r, intersect_info& info)
+  {
+    auto& p = info.p;
+    for (auto v : { l, r }) {
+      const point& end = v->next_seg->get_target();
+      if (v->next_seg->get_type() != seg_type::lineto) continue;
+      if (v->pt.x == end.x) p.x = end.x;
+      if (v->pt.y == end.y) p.y = end.y;
+    }
+
+    if (info.t0 <= zero) p = l->pt;
+    else if (info.t0 >= one) p = l->next_seg->get_target();
+    if (info.t1 <= zero) p = r->pt;
+    else if (info.t1 >= one) p = r->next_seg->get_target();
+  }
+
   void clipper::intersect(vertex* const& l, vertex* const& r)
   {
 
@@ -1601,6 +1619,7 @@ namespace vatti
       auto res = rmath::intersect(l->pt, lseg->get_target(), r->pt, rseg->get_target());
       for (int i = 0; i < res.count; ++i) {
         auto& data = res.data[i];
+        snap_intersection(l, r, data);
         if (zero < data.t0 && data.t0 < one) break_info_list.push_back({ l,data.p,data.t0 });
         if (zero < data.t1 && data.t1 < one) break_info_list.push_back({ r,data.p,data.t1 });
       }
@@ -1618,6 +1637,7 @@ namespace vatti
       auto res = rmath::intersect(_line, _curve);
       for (int i = 0; i < res.count; ++i) {
         auto& data = res.data[i];
+        snap_intersection(line, cubic, data);
         if (zero < data.t0 && data.t0 < one) break_info_list.push_back({ line,data.p,data.t0 });
         if (zero < data.t1 && data.t1 < one) break_info_list.push_back({ cubic,data.p,data.t1 });
       }
@@ -1631,6 +1651,7 @@ namespace vatti
       auto res = rmath::intersect(c1->get_cubic(l->pt), c2->get_cubic(r->pt), 40);
       for (int i = 0; i < res.count; ++i) {
         auto& data = res.data[i];
+        snap_intersection(l, r, data);
         if (zero < data.t0 && data.t0 < one) break_info_list.push_back({ l,data.p,data.t0 });
         if (zero < data.t1 && data.t1 < one) break_info_list.push_back({ r,data.p,data.t1 });
       }
-- 
2.43.0


From de48f6ee6a4b0e3cb0c4c2058ab5899f92da686e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:11 +0000
Subject: [PATCH 09/19] fix: clear the previous result when a processor is used
 again

---
 src/src/vatti.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 160c744..0234154 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -354,6 +354,9 @@ namespace vatti
     cur_locmin_it = local_minima_list.begin();
     ael_first = nullptr;
     obl_first = nullptr;
+    // 清除上一次 process 的结果
+    output_list.clear();
+    windcnt_change_list.clear();
   }
 
   void clipper::add_path(const paths& paths, path_type polytype, bool is_open)
-- 
2.43.0


From 4d7d6761aa206286f08c9fa66862c1eff3580e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:11 +0000
Subject: [PATCH 10/19] fix: release the nodes owned by scan_line

---
 src/src/scan_line.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/src/scan_line.h b/src/src/scan_line.h
index 113b16c..380e844 100644
--- a/src/src/scan_line.h
+++ b/src/src/scan_line.h
@@ -72,6 +72,11 @@ namespace scan_line
       };
     };
 
+    scan_line() = default;
+    scan_line(const scan_line&) = delete;
+    scan_line& operator=(const scan_line&) = delete;
+    ~scan_line();
+
     void add_segment(const segment& in);
     void process(void* user);
 
@@ -83,6 +88,13 @@ namespace scan_line
     std::vector<inner_seg*> segments;
   };
 
+  template<class segment>
+  scan_line<segment>::~scan_line()
+  {
+    for (auto p : scan_points) delete p;
+    for (auto s : segments) delete s;
+  }
+
   template<class segment>
   void scan_line<segment>::add_segment(const segment& in)
   {
-- 
2.43.0


From d4d6d261563abec1bee881f93e0a18d23e2ea80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:11 +0000
Subject: [PATCH 11/19] fix: do not subdivide identical cubics for ever

---
 src/src/rmath.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index a5e7dc1..8dbb3d9 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -861,6 +861,10 @@ namespace rmath
     cubic_intersect_result res;
     res.count = 0;
 
+    // 完全重合的曲线处处相交, 细分永远不会收敛. 它们只共享端点, 不需要打断
+    const bool same = b1.p0 == b2.p0 && b1.p1 == b2.p1 && b1.p2 == b2.p2 && b1.p3 == b2.p3;
+    const bool reversed = b1.p0 == b2.p3 && b1.p1 == b2.p2 && b1.p2 == b2.p1 && b1.p3 == b2.p0;
+    if (same || reversed) return res;
 
     typedef std::pair<data, data> data_pair;
     std::vector<data_pair> pairs;
-- 
2.43.0


From 694e63b4d95b4424c6026b022f74e590761d0af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:11 +0000
Subject: [PATCH 12/19] fix: ignore segments before the first moveto in
 make_path

back() was called on an empty vector.
---
 src/src/river.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/src/river.cpp b/src/src/river.cpp
index b71edd9..68226e0 100644
--- a/src/src/river.cpp
+++ b/src/src/river.cpp
@@ -34,11 +34,16 @@ namespace river
       path& back() const { return _path->back(); }
 
       void moveto(point const& p) const { _path->push_back(path()); back().moveto(p); }
-      void lineto(const point& p) const { back().lineto(p); }
+      // 第一个 m 之前没有起点, 忽略
+      void lineto(const point& p) const {
+        if (_path->empty()) return;
+        back().lineto(p);
+      }
       void arcto(arc_pack const& pack) const {
         //back().arcto(fusion::at_c<1>(pack), fusion::at_c<2>(pack));
       }
       void cubicto(cubic_pack const& pack) const {
+        if (_path->empty()) return;
         back().cubicto(fusion::at_c<1>(pack), fusion::at_c<2>(pack), fusion::at_c<3>(pack));
       }
     };
-- 
2.43.0


From d4cae1f93779b00cabffdb85f73163dba6aa20eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:48 +0000
Subject: [PATCH 13/19] fix: recognise coincident curve pieces up to rounding

---
 src/src/vatti.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 0234154..3758ff8 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -183,8 +183,13 @@ namespace vatti
       {
         auto c1 = (seg_cubicto*)get_seg(a);
         auto c2 = (seg_cubicto*)get_seg(b);
-        return (c1->ctrl1 == c2->ctrl1 && c1->ctrl2 == c2->ctrl2)
-          || (c1->ctrl2 == c2->ctrl1 && c1->ctrl1 == c2->ctrl2);
+        // 同一条曲线被打断后，控制点可能有舍入误差
+        auto near_pt = [](const point& l, const point& r) {
+          num tolerance = 1e-7 * (std::max)({ std::abs(l.x), std::abs(l.y), std::abs(r.x), std::abs(r.y) });
+          return std::abs(l.x - r.x) <= tolerance && std::abs(l.y - r.y) <= tolerance;
+        };
+        return (near_pt(c1->ctrl1, c2->ctrl1) && near_pt(c1->ctrl2, c2->ctrl2))
+          || (near_pt(c1->ctrl2, c2->ctrl1) && near_pt(c1->ctrl1, c2->ctrl2));
         break;
       }
       default:
-- 
2.43.0


From 45ab9e92f1f0805be0f4ff017e999e21c126945d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:06 +0000
Subject: [PATCH 14/19] fix: split the original segments in every process call

---
 src/src/vatti.cpp | 19 +++++++++++--------
 src/src/vatti.h   |  9 +++++++++
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 3758ff8..307e38e 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -580,6 +580,13 @@ namespace vatti
 
   void clipper::process_intersect()
   {
+    // 恢复上一次 process 打断的线段，避免对带误差的碎段重复求交
+    for (auto& info : split_list) {
+      info.start->next = info.end;
+      info.start->next_seg = info.seg;
+      info.end->prev = info.start;
+    }
+    split_list.clear();
     break_info_list.clear();
 
     // 先求交点
@@ -625,6 +632,7 @@ namespace vatti
 
       auto start_p = cur_v->pt;
       auto start_seg = cur_v->next_seg;
+      split_list.push_back({ start_v, end_v, start_seg });
       //auto end_p = cur_v->next->pt;
       switch (start_seg->get_type())
       {
@@ -633,9 +641,8 @@ namespace vatti
         std::vector<break_info> cur_break_list(start, end);
         //auto dx = end_p.x >= start_p.x;
         //auto dy = end_p.y >= start_p.y;
-        ((seg_lineto*)start_seg)->target = cur_break_list[0].break_point;
         auto next = new_vertex();
-        set_segment(start_v, next, start_seg);
+        set_segment(start_v, next, new_lineto(cur_break_list[0].break_point));
         cur_v = next;
         for (size_t i = 1; i < cur_break_list.size(); ++i) {
           set_segment(cur_v, new_vertex(), new_lineto(cur_break_list[i].break_point));
@@ -656,14 +663,10 @@ namespace vatti
         std::vector<bezier_cubic> split_c(cur_break_list.size() + 1);
         std::vector<double> split_t;
         for (auto& info : cur_break_list) split_t.push_back(info.t);
-        auto first_cubicto = (seg_cubicto*)start_seg;
-        first_cubicto->get_cubic(start_p).split(split_t.data(), split_c.data(), split_t.size());
+        ((seg_cubicto*)start_seg)->get_cubic(start_p).split(split_t.data(), split_c.data(), split_t.size());
 
-        first_cubicto->ctrl1 = split_c[0].p1;
-        first_cubicto->ctrl2 = split_c[0].p2;
-        first_cubicto->target = cur_break_list[0].break_point;
         auto next = new_vertex();
-        set_segment(start_v, next, first_cubicto);
+        set_segment(start_v, next, new_cubicto(split_c[0].p1, split_c[0].p2, cur_break_list[0].break_point));
         cur_v = next;
         for (size_t i = 1; i < cur_break_list.size(); ++i) {
           set_segment(cur_v, new_vertex(), new_cubicto(
diff --git a/src/src/vatti.h b/src/src/vatti.h
index 99b31bb..d012989 100644
--- a/src/src/vatti.h
+++ b/src/src/vatti.h
@@ -68,6 +68,14 @@ namespace vatti
     }
   };
 
+  // 被打断的线段，用于恢复输入
+  struct split_info
+  {
+    vertex* start;
+    vertex* end;
+    segment* seg;
+  };
+
   struct out_seg {
     seg_type type = seg_type::moveto;
     void* data = nullptr;
@@ -209,6 +217,7 @@ namespace vatti
 
     std::vector<vertex*> paths_start;
     std::vector<break_info> break_info_list;
+    std::vector<split_info> split_list;
     std::vector<local_minima*> local_minima_list;
     std::vector<local_minima*>::iterator cur_locmin_it;
     std::priority_queue<num, std::vector<num>, std::greater<num>> scanline_list;
-- 
2.43.0


From 47260742a41ba101d3e42d0cb15901b03ca99802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:04 +0000
Subject: [PATCH 15/19] fix: find the roots of cubics whose discriminant is
 small

The discriminant was compared with an absolute tolerance, so equations with
clearly separated roots lost roots, and x^3 + c = 0 with c > 0 gave NaN by
cancellation.
---
 src/src/rmath.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 8dbb3d9..4dbf1b9 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -758,7 +758,10 @@ namespace rmath
 
 
     double k = std::pow(q / 2, 2) + std::pow(p / 3, 3);
-    if (is_zero(k))
+    // k 的量级随系数变化, 只能与其舍入误差比较
+    const double k_error = 1e-14 * (std::pow((std::max)({ std::abs(2 * aPow2 * a / 27), std::abs(a * b / 3), std::abs(c) }), 2)
+      + std::pow((std::max)(std::abs(b), aPow2 / 3) / 3, 3));
+    if (std::abs(k) <= k_error)
     {
       //此时v1, w1均为实数
       //观察有ϵ和ϵ^2为共轭复数
@@ -791,7 +794,8 @@ namespace rmath
       //此时v1, w1均为实数
       //只有一个实数解则只能是y1 = v1 + w1
       double sqrtk = std::sqrt(k);
-      double v1 = std::cbrt(-q / 2 + sqrtk);
+      //取绝对值较大的一个作为v1，避免相减丢失精度
+      double v1 = std::cbrt(q > 0 ? -q / 2 - sqrtk : -q / 2 + sqrtk);
       double w1 = -p / (3 * v1);
 
       res.count = 1;
@@ -814,7 +818,7 @@ namespace rmath
 
       double r = std::sqrt(q * q / 4 - k);
       double AAA = 2 * std::cbrt(r);
-      constexpr double pi = 3.1415926535;
+      constexpr double pi = 3.14159265358979323846;
 
       res.count = 3;
       res.data[0] = minus * AAA * std::cos(phi / 3) - a / 3;
-- 
2.43.0


From bb9cef1827b0af00b166ab394ccdc43b966b4f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:23 +0000
Subject: [PATCH 16/19] fix: report each crossing of two cubics once at every
 precision

---
 src/src/rmath.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 4dbf1b9..a996bd9 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -907,10 +907,11 @@ namespace rmath
       [](const data_pair& l, const data_pair& r) {
         return l.first.t0 < r.first.t0;
       });
-    // 移除太过相似的结果
+    // 移除太过相似的结果, 同一个交点周围相邻的若干小段都会相交
+    const double similar = (std::max)(1e-8, std::ldexp(1.0, 7 - precise));
     intersect_pair.erase(std::unique(intersect_pair.begin(), intersect_pair.end(),
-      [](const data_pair& l, const data_pair& r) ->bool {
-        return (std::abs)(l.first.t0 - r.first.t0) < 1e-8;
+      [similar](const data_pair& l, const data_pair& r) ->bool {
+        return (std::abs)(l.first.t0 - r.first.t0) < similar;
       }), intersect_pair.end());
 
     // ToDo 不能检查部分重合的情况
-- 
2.43.0


From 9be4e0c7ec361aa845cd4e058335b1dbe644af02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:02 +0000
Subject: [PATCH 17/19] fix: inflate a rectangle on its far side as well

---
 src/include/rmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/rmath.h b/src/include/rmath.h
index d90cf17..13cb908 100644
--- a/src/include/rmath.h
+++ b/src/include/rmath.h
@@ -74,7 +74,7 @@ namespace rmath
     num height() const { return max.y - min.y; }
     point_type center() const { return (max + min) / 2; }
 
-    rect inflated(const num& n) const { return rect(min - n, min + n); }
+    rect inflated(const num& n) const { return rect(min - n, max + n); }
 
     static rect from(std::initializer_list<point_type> _Ilist)
     {
-- 
2.43.0


From 1b4f49c5bbc05d22105096a81d04d2d8b2668825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:02 +0000
Subject: [PATCH 18/19] fix: a point projecting before the start is not inside
 the segment

---
 src/src/rmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index a996bd9..142f00f 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -84,7 +84,7 @@ namespace rmath
     vec2 u = p - p0;
 
     double sc = v.dot(u) / v.dot(v);
-    return sc <= 1;
+    return 0 <= sc && sc <= 1;
   }
 
   bool point_between_two_point(const vec2& p, const vec2& p0, const vec2& p1)
-- 
2.43.0


From b9a71f3b9e75bcc348350dc395e2761b49906b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:28 +0000
Subject: [PATCH 19/19] fix: merge neighbouring candidates of one cubic
 crossing

---
 src/src/rmath.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 142f00f..8f1ff0e 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -909,10 +909,19 @@ namespace rmath
       });
     // 移除太过相似的结果, 同一个交点周围相邻的若干小段都会相交
     const double similar = (std::max)(1e-8, std::ldexp(1.0, 7 - precise));
-    intersect_pair.erase(std::unique(intersect_pair.begin(), intersect_pair.end(),
-      [similar](const data_pair& l, const data_pair& r) ->bool {
-        return (std::abs)(l.first.t0 - r.first.t0) < similar;
-      }), intersect_pair.end());
+    // 与前一个候选比较而不是与这一组的第一个比较, 否则一长串相连的小段会被当成多个交点.
+    // 曲线在端点处速度为零时 (控制点与端点重合), 相连的小段在 t0 上的间隔可以达到 sqrt(similar)
+    const double nearby = std::sqrt(similar);
+    std::vector<data_pair> hits;
+    for (size_t i = 0; i < intersect_pair.size(); ++i) {
+      if (i > 0) {
+        const double d0 = intersect_pair[i].first.t0 - intersect_pair[i - 1].first.t0;
+        const double d1 = (std::abs)(intersect_pair[i].second.t0 - intersect_pair[i - 1].second.t0);
+        if (d0 < similar || (d0 < nearby && d1 < similar)) continue;
+      }
+      hits.push_back(intersect_pair[i]);
+    }
+    intersect_pair.swap(hits);
 
     // ToDo 不能检查部分重合的情况
     for (int i = 0; i < intersect_pair.size(); ++i) {
-- 
2.43.0

