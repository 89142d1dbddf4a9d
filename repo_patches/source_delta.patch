From 284ff374c1c7277c5554d927072ff6b8c17d366c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:27 +0000
Subject: [PATCH 01/33] fix: bezier_cubic::split_y returns the two split points
 in ascending order

---
 src/src/rmath.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 3d2ce07..2e85353 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -440,7 +440,10 @@ namespace rmath
       switch (res.size())
       {
       case 1: *t1 = res[0]; return 1;
-      case 2: *t1 = res[0]; *t2 = res[1]; return 2;
+      case 2:
+        *t1 = (std::min)(res[0], res[1]);
+        *t2 = (std::max)(res[0], res[1]);
+        return 2;
       default: return 0;
       }
     }
-- 
2.43.0


From 081b754ff8fa41ae822b746db9c0f71391467506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:01 +0000
Subject: [PATCH 02/33] fix: resolv_cubic_equa accuracy: relative discriminant
 test, no cancellation, Newton polish

---
 src/src/rmath.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 2e85353..12330ae 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -759,8 +759,11 @@ namespace rmath
     //      y3 = v1·ϵ^2 + w1·ϵ
 
 
-    double k = std::pow(q / 2, 2) + std::pow(p / 3, 3);
-    if (is_zero(k))
+    const double q2 = std::pow(q / 2, 2);
+    const double p3 = std::pow(p / 3, 3);
+    double k = q2 + p3;
+    // 判别式的误差和 q2、p3 的量级有关，用绝对误差会把相近的单根误判成重根
+    if ((std::abs)(k) <= 1e-14 * (std::max)(q2, (std::abs)(p3)))
     {
       //此时v1, w1均为实数
       //观察有ϵ和ϵ^2为共轭复数
@@ -793,7 +796,8 @@ namespace rmath
       //此时v1, w1均为实数
       //只有一个实数解则只能是y1 = v1 + w1
       double sqrtk = std::sqrt(k);
-      double v1 = std::cbrt(-q / 2 + sqrtk);
+      // 取同号的一侧，避免 q 和 sqrtk 相消
+      double v1 = std::cbrt(q > 0 ? -q / 2 - sqrtk : -q / 2 + sqrtk);
       double w1 = -p / (3 * v1);
 
       res.count = 1;
@@ -824,6 +828,19 @@ namespace rmath
       res.data[2] = minus * AAA * std::cos((phi + 4 * pi) / 3) - a / 3;
     }
 
+    // 公式解在接近重根时误差较大，用牛顿法修正
+    for (int i = 0; i < res.count; ++i) {
+      double& x = res.data[i];
+      for (int step = 0; step < 3; ++step) {
+        const double fx = ((x + a) * x + b) * x + c;
+        const double dfx = (3 * x + 2 * a) * x + b;
+        const double next = x - fx / dfx;
+        if (!std::isfinite(next)) break;
+        if ((std::abs)(((next + a) * next + b) * next + c) >= (std::abs)(fx)) break;
+        x = next;
+      }
+    }
+
     return res;
   }
 
-- 
2.43.0


From 2008abccc788ff08fa286456ccf2a9a9d62e631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:38 +0000
Subject: [PATCH 03/33] fix: intersections with horizontal/vertical segments
 lie exactly on the segment

---
 src/src/rmath.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 12330ae..918a167 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -163,6 +163,9 @@ namespace rmath
     if (in_l && in_r) {
       res.count = 1;
       res.data[0].p = (p0 + a * na);
+      // 交点必须精确地落在水平/垂直的线段上，否则打断后水平线不再水平
+      if (p2.x == p3.x) res.data[0].p.x = p2.x;
+      if (p2.y == p3.y) res.data[0].p.y = p2.y;
       res.data[0].t0 = na;
       res.data[0].t1 = nb;
     }
@@ -204,6 +207,9 @@ namespace rmath
       if (0 <= t && t <= 1) {
         // ToDo 由于计算精度的问题，这里应该很难算出同一个点，特别实在交点靠近任意一方的端点时
         auto p = curve.point_at(t);
+        // 交点必须精确地落在水平/垂直的线段上，否则打断后水平线不再水平
+        if (segment.p0.x == segment.p1.x) p.x = segment.p0.x;
+        if (segment.p0.y == segment.p1.y) p.y = segment.p0.y;
         if (point_between_two_point(p, segment.p0, segment.p1)) {
           auto& data = res.data[res.count];
           data.p = p;
-- 
2.43.0


From f8378f354b6801cee238cd10bdd80494c8d9ae01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:21 +0000
Subject: [PATCH 04/33] fix: intersect(cubic, cubic) returns at once for
 identical curves instead of exploding

---
 src/src/rmath.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 918a167..2998ed6 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -886,6 +886,10 @@ namespace rmath
     cubic_intersect_result res;
     res.count = 0;
 
+    // 完全重合(包括反向)的曲线有无限个交点，和重合的线段一样不返回交点
+    if ((b1.p0 == b2.p0 && b1.p1 == b2.p1 && b1.p2 == b2.p2 && b1.p3 == b2.p3)
+      || (b1.p0 == b2.p3 && b1.p1 == b2.p2 && b1.p2 == b2.p1 && b1.p3 == b2.p0))
+      return res;
 
     typedef std::pair<data, data> data_pair;
     std::vector<data_pair> pairs;
-- 
2.43.0


From 20c2e6399019bc06d636245e311fc89a4c97fe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:00 +0000
Subject: [PATCH 05/33] fix: arc end angle is measured from the centre and
 reverse() negates the sweep

---
 src/src/rmath.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 2998ed6..958fd27 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -265,7 +265,8 @@ namespace rmath
     double end_rad = _start_rad + sweep_rad();
     p1 = vec2(cos(end_rad), sin(end_rad));
     p1 = center() + p1 * _radius;
-    _end_rad = clamp_0_2pi(atan2(p1.y, p1.x));
+    tmp = end() - center();
+    _end_rad = clamp_0_2pi(atan2(tmp.y, tmp.x));
   }
 
   const vec2& arc::start() const{
@@ -300,6 +301,7 @@ namespace rmath
     arc r = *this;
     std::swap(r.p0, r.p1);
     std::swap(r._start_rad, r._end_rad);
+    r._sweep_rad = -r._sweep_rad;
 
     return r;
   }
-- 
2.43.0


From 263fffe802eaa50114d1cf8b60626743e38e4f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:43 +0000
Subject: [PATCH 06/33] fix: rect::inflated grows the max corner

---
 src/include/rmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/rmath.h b/src/include/rmath.h
index d90cf17..13cb908 100644
--- a/src/include/rmath.h
+++ b/src/include/rmath.h
@@ -74,7 +74,7 @@ namespace rmath
     num height() const { return max.y - min.y; }
     point_type center() const { return (max + min) / 2; }
 
-    rect inflated(const num& n) const { return rect(min - n, min + n); }
+    rect inflated(const num& n) const { return rect(min - n, max + n); }
 
     static rect from(std::initializer_list<point_type> _Ilist)
     {
-- 
2.43.0


From ff5e11f47da457de14213db0ef0bee2f739153f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:23 +0000
Subject: [PATCH 07/33] fix: make_path ignores segments before the first moveto
 instead of using back() of an empty vector

---
 src/src/river.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/src/river.cpp b/src/src/river.cpp
index b71edd9..a6719dc 100644
--- a/src/src/river.cpp
+++ b/src/src/river.cpp
@@ -34,12 +34,13 @@ namespace river
       path& back() const { return _path->back(); }
 
       void moveto(point const& p) const { _path->push_back(path()); back().moveto(p); }
-      void lineto(const point& p) const { back().lineto(p); }
+      // 第一个 m 之前的内容没有起点，忽略
+      void lineto(const point& p) const { if (!_path->empty()) back().lineto(p); }
       void arcto(arc_pack const& pack) const {
         //back().arcto(fusion::at_c<1>(pack), fusion::at_c<2>(pack));
       }
       void cubicto(cubic_pack const& pack) const {
-        back().cubicto(fusion::at_c<1>(pack), fusion::at_c<2>(pack), fusion::at_c<3>(pack));
+        if (!_path->empty()) back().cubicto(fusion::at_c<1>(pack), fusion::at_c<2>(pack), fusion::at_c<3>(pack));
       }
     };
 
-- 
2.43.0


From c744e61c519634a93053844eb52d95b3c67db4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:57 +0000
Subject: [PATCH 08/33] fix: scan_line frees the segments and points it
 allocates

---
 src/src/scan_line.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/src/scan_line.h b/src/src/scan_line.h
index 113b16c..16a9685 100644
--- a/src/src/scan_line.h
+++ b/src/src/scan_line.h
@@ -72,6 +72,11 @@ namespace scan_line
       };
     };
 
+    scan_line() = default;
+    scan_line(const scan_line&) = delete;
+    scan_line& operator=(const scan_line&) = delete;
+    ~scan_line();
+
     void add_segment(const segment& in);
     void process(void* user);
 
@@ -83,6 +88,13 @@ namespace scan_line
     std::vector<inner_seg*> segments;
   };
 
+  template<class segment>
+  scan_line<segment>::~scan_line()
+  {
+    for (auto s : segments) delete s;
+    for (auto p : scan_points) delete p;
+  }
+
   template<class segment>
   void scan_line<segment>::add_segment(const segment& in)
   {
-- 
2.43.0


From 71572069927a1782c964488c16a3e2286164fb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:33 +0000
Subject: [PATCH 09/33] fix: scan_line visits active segments in insertion
 order, not by address

---
 src/src/scan_line.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/src/scan_line.h b/src/src/scan_line.h
index 16a9685..1c3b330 100644
--- a/src/src/scan_line.h
+++ b/src/src/scan_line.h
@@ -45,6 +45,16 @@ namespace scan_line
       segment seg;
       // 当前的包围框
       box bbox;
+      // 添加的顺序
+      size_t index;
+    };
+
+    // 按添加的顺序排列，而不是内存地址，否则结果会受内存分配的影响
+    struct inner_seg_compare
+    {
+      bool operator()(const inner_seg* l, const inner_seg* r) const {
+        return l->index < r->index;
+      }
     };
 
     struct scan_point
@@ -98,7 +108,7 @@ namespace scan_line
   template<class segment>
   void scan_line<segment>::add_segment(const segment& in)
   {
-    auto new_seg = new inner_seg{ in, funcs::get_rect(in) };
+    auto new_seg = new inner_seg{ in, funcs::get_rect(in), segments.size() };
 
     segments.push_back(new_seg);
 
@@ -111,7 +121,7 @@ namespace scan_line
   template<class segment>
   void scan_line<segment>::process(void* user)
   {
-    std::set<inner_seg*> current;
+    std::set<inner_seg*, inner_seg_compare> current;
 
     for (auto p : scan_points)
     {
-- 
2.43.0


From f3767eb8ad72af2f4ab2e210335fabf648f41485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:06 +0000
Subject: [PATCH 10/33] fix: orient output contours by the filled side, not by
 the input edges' direction

---
 src/src/vatti.cpp | 15 +++++++++------
 src/src/vatti.h   |  2 +-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 79188aa..6c6cacb 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -895,7 +895,7 @@ namespace vatti
         bound_edge[i - 1].is_done = true;
         bound_edge[i - 0].is_done = true;
 
-        new_output(bound_edge[i - 1].edge, bound_edge[i].edge);
+        new_output(bound_edge[i - 1].edge, bound_edge[i].edge, true);
       }
     }
 
@@ -949,7 +949,7 @@ namespace vatti
 
         // 只剩下可以按顺序两两相连即可
         next = std::next(it);
-        if (it->edge && next->edge) new_output(it->edge, next->edge);
+        if (it->edge && next->edge) new_output(it->edge, next->edge, it->obl_index % 2 == 0);
         else if (it->bound && next->bound) join_output(it->bound, next->bound, y);
         else if (it->edge) update_bound(next->bound, it->edge);
         else update_bound(it->bound, next->edge);
@@ -1354,9 +1354,12 @@ namespace vatti
     delete_obl_bound(b);
   }
 
-  // a、b 的wind_dx必定相反
-  void clipper::new_output(edge* a, edge* b)
+  // a、b 的wind_dx不一定相反(例如 difference 中 clip 的边)，所以输出的朝向由区域位于 a 的
+  // 哪一侧决定，同一区域的左右轮廓朝向才必定相反
+  void clipper::new_output(edge* a, edge* b, bool fill_on_right)
   {
+    const bool a_is_up = fill_on_right == (fillrule_ == fill_rule::negative);
+
     auto output = new_out_polygon();
     output->idx = output_list.size();
     output_list.push_back(output);
@@ -1366,14 +1369,14 @@ namespace vatti
     up->owner = output;
     up->curr_edge = a;
     a->bound = up;
-    up->wind_dx = a->wind_dx;
+    up->wind_dx = a_is_up ? -1 : 1;
     up->stop_x = a->curr_x;
 
     auto down = new_bound();
     down->owner = output;
     down->curr_edge = b;
     b->bound = down;
-    down->wind_dx = b->wind_dx;
+    down->wind_dx = -up->wind_dx;
     down->stop_x = b->curr_x;
 
     if (!up->is_up()) {
diff --git a/src/src/vatti.h b/src/src/vatti.h
index 0d123f5..4bb8e23 100644
--- a/src/src/vatti.h
+++ b/src/src/vatti.h
@@ -188,7 +188,7 @@ namespace vatti
     void resort_ael(num y);
     void build_output(path_traverse_funcs write_func, void* output);
     void join_output(out_bound* a, out_bound* b, num y);
-    void new_output(edge* a, edge* b);
+    void new_output(edge* a, edge* b, bool fill_on_right);
     void update_bound(out_bound* bound, edge* new_edge);
     void delete_obl_bound(out_bound*);
     edge* do_maxima(edge* e);
-- 
2.43.0


From 305bdd9b15b772ae1a699366a3057620fff73770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:37 +0000
Subject: [PATCH 11/33] fix: find the AEL position of the second edge of a
 local minimum independently

---
 src/src/vatti.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 6c6cacb..011b52f 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -758,7 +758,8 @@ namespace vatti
       b->curr_x = b->bot.x;
 
       insert_into_ael(a);
-      insert_into_ael(a->prev_in_ael, b);
+      // a、b 之间可能隔着别的边(底部是水平线，或有别的边经过该点)，所以 b 要独立查找位置
+      insert_into_ael(b);
       insert_scanline(a->top.y);
       insert_scanline(b->top.y);
     }
-- 
2.43.0


From 8b92c337685fedbfd770caefc1cd6c0c0ab40ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:09 +0000
Subject: [PATCH 12/33] fix: break touching and coincident segments at exactly
 the same point

---
 src/src/vatti.cpp | 50 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 011b52f..2579982 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -1558,15 +1558,44 @@ namespace vatti
 
     uint32_t t = flags(rt) & flags(lt);
 
+    // 按固定的顺序求交，重合的线段才会在完全相同的点被打断
+    auto less = [](const point& a, const point& b) {
+      return a.y != b.y ? a.y < b.y : a.x < b.x;
+    };
+
+    // 交点位于其中一方的端点时，必须使用该端点打断另一方，否则两者不再重合
+    auto add_break = [this](vertex* v0, num t0, vertex* v1, num t1, point p) {
+      if (t0 <= zero) p = v0->pt;
+      else if (t0 >= one) p = v0->next_seg->get_target();
+      else if (t1 <= zero) p = v1->pt;
+      else if (t1 >= one) p = v1->next_seg->get_target();
+
+      if (zero < t0 && t0 < one) break_info_list.push_back({ v0,p,t0 });
+      if (zero < t1 && t1 < one) break_info_list.push_back({ v1,p,t1 });
+    };
+
     switch (t)
     {
     case flags(seg_type::lineto):
     {
-      auto res = rmath::intersect(l->pt, lseg->get_target(), r->pt, rseg->get_target());
+      vertex* v[] = { l, r };
+      point low[2], high[2];
+      bool reversed[2];
+      for (int i = 0; i < 2; ++i) {
+        low[i] = v[i]->pt;
+        high[i] = v[i]->next_seg->get_target();
+        reversed[i] = less(high[i], low[i]);
+        if (reversed[i]) std::swap(low[i], high[i]);
+      }
+      const int first = less(low[1], low[0])
+        || (low[1] == low[0] && less(high[1], high[0]));
+      const int second = 1 - first;
+
+      auto res = rmath::intersect(low[first], high[first], low[second], high[second]);
       for (int i = 0; i < res.count; ++i) {
         auto& data = res.data[i];
-        if (zero < data.t0 && data.t0 < one) break_info_list.push_back({ l,data.p,data.t0 });
-        if (zero < data.t1 && data.t1 < one) break_info_list.push_back({ r,data.p,data.t1 });
+        add_break(v[first], reversed[first] ? 1 - data.t0 : data.t0,
+          v[second], reversed[second] ? 1 - data.t1 : data.t1, data.p);
       }
       break;
     }
@@ -1582,21 +1611,22 @@ namespace vatti
       auto res = rmath::intersect(_line, _curve);
       for (int i = 0; i < res.count; ++i) {
         auto& data = res.data[i];
-        if (zero < data.t0 && data.t0 < one) break_info_list.push_back({ line,data.p,data.t0 });
-        if (zero < data.t1 && data.t1 < one) break_info_list.push_back({ cubic,data.p,data.t1 });
+        add_break(line, data.t0, cubic, data.t1, data.p);
       }
       break;
     }
     case flags(seg_type::cubicto):
     {
-      auto c1 = (const seg_cubicto*)(lseg);
-      auto c2 = (const seg_cubicto*)(rseg);
+      vertex* v[] = { l, r };
+      if (less(r->pt, l->pt) || (r->pt == l->pt
+        && less(rseg->get_target(), lseg->get_target()))) std::swap(v[0], v[1]);
+      auto c1 = (const seg_cubicto*)(v[0]->next_seg);
+      auto c2 = (const seg_cubicto*)(v[1]->next_seg);
 
-      auto res = rmath::intersect(c1->get_cubic(l->pt), c2->get_cubic(r->pt), 40);
+      auto res = rmath::intersect(c1->get_cubic(v[0]->pt), c2->get_cubic(v[1]->pt), 40);
       for (int i = 0; i < res.count; ++i) {
         auto& data = res.data[i];
-        if (zero < data.t0 && data.t0 < one) break_info_list.push_back({ l,data.p,data.t0 });
-        if (zero < data.t1 && data.t1 < one) break_info_list.push_back({ r,data.p,data.t1 });
+        add_break(v[0], data.t0, v[1], data.t1, data.p);
       }
       break;
     }
-- 
2.43.0


From b318461c173f0e126c92cc9369ada3b88dcc7df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:41 +0000
Subject: [PATCH 13/33] fix: process() starts from a clean state when called
 again on the same processor

---
 src/src/vatti.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 2579982..9413647 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -338,6 +338,12 @@ namespace vatti
 
   void clipper::reset()
   {
+    // 清除上一次 process 留下的内容
+    scanline_list = {};
+    windcnt_change_list.clear();
+    output_list.clear();
+    succeeded_ = true;
+
     // build init scan line list
     std::sort(local_minima_list.begin(), local_minima_list.end(),
       [](local_minima* const& l, local_minima* const& r) {
-- 
2.43.0


From 1255d88ad1037088d9e3630fb612e01a57f198fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:14 +0000
Subject: [PATCH 14/33] fix: give up without output instead of crashing or
 looping when contours cannot be paired

---
 src/src/vatti.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 9413647..293133d 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -413,9 +413,11 @@ namespace vatti
       insert_local_minima_to_ael(y);
       recalc_windcnt();
       update_ouput_bound(y);
+      if (!succeeded_) break;
       if (!pop_scanline(y, y)) break;  // y new top of scanbeam
       do_top_of_scanbeam(y);
       close_output(y);
+      if (!succeeded_) break;
       resort_ael(y);
     }
 
@@ -956,6 +958,11 @@ namespace vatti
 
         // 只剩下可以按顺序两两相连即可
         next = std::next(it);
+        if (next == sbl.end()) {
+          // 轮廓无法成对，说明扫描状态已经因为精度问题而不一致
+          succeeded_ = false;
+          return;
+        }
         if (it->edge && next->edge) new_output(it->edge, next->edge, it->obl_index % 2 == 0);
         else if (it->bound && next->bound) join_output(it->bound, next->bound, y);
         else if (it->edge) update_bound(next->bound, it->edge);
@@ -972,6 +979,12 @@ namespace vatti
         obl_first = nullptr;
         return;
       }
+      for (auto& b : bound_edge) {
+        if (!b.edge->bound) {
+          succeeded_ = false;
+          return;
+        }
+      }
       auto it = bound_edge.begin();
       obl_first = it->edge->bound;
       obl_first->prev_in_obl = nullptr; obl_first->next_in_obl = nullptr;
@@ -984,6 +997,7 @@ namespace vatti
         last = next_b;
         ++it;
       }
+      last->next_in_obl = nullptr;
     }
   }
 
@@ -1298,6 +1312,12 @@ namespace vatti
   // 到达顶点close了，left 和 right 都会从 obl 中移除
   void clipper::join_output(out_bound* a, out_bound* b, num y)
   {
+    // 只有朝向相反的轮廓才能相连，否则扫描状态已经因为精度问题而不一致
+    if (a->is_up() == b->is_up()) {
+      succeeded_ = false;
+      return;
+    }
+
     if (a->curr_edge) a->curr_edge->bound = nullptr;
     if (b->curr_edge) b->curr_edge->bound = nullptr;
     a->curr_edge = nullptr;
-- 
2.43.0


From f5de0e550f65b6ccfd4ab2cc2a01123c806ffe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:57 +0000
Subject: [PATCH 15/33] fix: coincident lines of opposite direction get the
 same x at every scanline

---
 src/src/segment.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/src/segment.h b/src/src/segment.h
index b0597f7..768b8d5 100644
--- a/src/src/segment.h
+++ b/src/src/segment.h
@@ -73,7 +73,10 @@ namespace river {
       target = from;
     }
     virtual double curr_x(const point& from, double y) const override {
-      return (target.x - from.x) * (y - from.y) / (target.y - from.y) + from.x;
+      // 总是从下往上计算，重合但朝向相反的线段才会得到完全相同的结果
+      const point& bot = from.y <= target.y ? from : target;
+      const point& top = from.y <= target.y ? target : from;
+      return (top.x - bot.x) * (y - bot.y) / (top.y - bot.y) + bot.x;
     }
   };
 
-- 
2.43.0


From 8d1d3837695ff7b05f0774618f7d82c8f1079319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:57 +0000
Subject: [PATCH 16/33] fix: resort_ael also finds edges that moved along a
 horizontal past their neighbours

---
 src/src/vatti.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 293133d..96ccd4e 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -1242,12 +1242,12 @@ namespace vatti
     std::sort(list.begin(), list.end());
     list.erase(std::unique(list.begin(), list.end()), list.end());
 
-    auto it = list.begin();
     auto e = ael_first;
 
+    // 沿水平线移动过的边此时不一定按 curr_x 排序，所以要逐一检查
     std::vector<edge*> reinsert_list;
-    while (it != list.end() && e) {
-      if (e->curr_x == *it) {
+    while (e) {
+      if (std::binary_search(list.begin(), list.end(), e->curr_x)) {
         reinsert_list.push_back(e);
         auto next = e->next_in_ael;
         // 重新排列也意味着原来的bound有可能失效
@@ -1256,8 +1256,6 @@ namespace vatti
         take_from_ael(e);
         e = next;
       }
-      else if (*it < e->curr_x)
-        ++it;
       else e = e->next_in_ael;
     }
 
-- 
2.43.0


From d990d87a2812f4f728961c8a86fe64212985e2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:56 +0000
Subject: [PATCH 17/33] fix: dist2_point_line is the distance to the infinite
 line, so intersect() finds collinear overlaps

---
 src/src/rmath.cpp | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 958fd27..42a6239 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -54,23 +54,13 @@ namespace rmath
 
   vec2 operator*(double sc, const vec2& v) { return v * sc; }
   double dist2_point_line(const vec2& p, const vec2& l0, const vec2& l1) {
-    vec2 AC, D;
-    AC = p - l0;
+    vec2 AC = p - l0;
     vec2 AB = l1 - l0;
-    double f = 0, d = AB.dist2(), res;
-    f = AB.dot(AC);
-    if (f < 0)
-      res = AC.dist2();
-    else if (f > d)
-      res = (p - l1).dist2();
-    else
-    {
-      f = f / d;
-      D = l0 + AB * f;
-      res = (p - D).dist2();
-    }
+    double d = AB.dist();
+    if (d == 0) return AC.dist2();
 
-    return res;
+    double f = AB.cross(AC) / d;
+    return f * f;
   }
 
   // 计算点投影到（有限长）线段的点是否位于线段内
-- 
2.43.0


From f19b5f072c11e28922cd092744e6440f1ecb00a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:50 +0000
Subject: [PATCH 18/33] fix: equation solvers and extrema decide degeneracy
 relative to the coefficients

An absolute 1e-8 dropped the leading terms of curves with small coordinates
(about 1e-3 and below) and merged well separated roots; near-quadratic cubics
lost a root to the discriminant test.
---
 src/src/rmath.cpp | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 42a6239..fce4d74 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -7,6 +7,11 @@ namespace rmath
     return -err < v&& v < err;
   }
 
+  // 系数 v 相对于 ref 小到可以忽略，绝对误差会把坐标很小的曲线误判成退化的
+  inline bool is_negligible(double v, double ref) {
+    return (std::abs)(v) <= 1e-8 * (std::abs)(ref);
+  }
+
   double clamp_0_2pi(double rad) {
     rad = remainder(rad, pi * 2);
     return std::signbit(rad) ? rad + pi * 2 : rad;
@@ -410,8 +415,8 @@ namespace rmath
     c = C.y;
     k = b * b - 4 * a * c;
 
-    if (is_zero(a)) {
-      if (is_zero(b)) {
+    if (is_negligible(a, b)) {
+      if (b == 0) {
         return 0;
       }
       else {
@@ -484,9 +489,9 @@ namespace rmath
     c = C.x;
     k = b * b - 4 * a * c;
 
-    if (is_zero(a))
+    if (is_negligible(a, b))
     {
-      if (is_zero(b))
+      if (b == 0)
       {
         x1 = p0.x;
         x2 = p3.x;
@@ -539,9 +544,9 @@ namespace rmath
     c = C.y;
     k = b * b - 4 * a * c;
 
-    if (is_zero(a))
+    if (is_negligible(a, b))
     {
-      if (is_zero(b))
+      if (b == 0)
       {
         y1 = p0.y;
         y2 = p3.y;
@@ -649,10 +654,10 @@ namespace rmath
   quad_equa_result resolv_quad_equa(double a, double b, double c)
   {
     quad_equa_result res;
-    if (is_zero(a))
+    if (a == 0)
     {
       //一元方程
-      if (is_zero(b))
+      if (b == 0)
         return res;
 
       res.count = 1;
@@ -661,17 +666,19 @@ namespace rmath
     }
 
     double k = b * b - 4 * a * c;
-    if (is_zero(k))
+    if ((std::abs)(k) <= 1e-14 * b * b)
     {
       res.count = 1;
       res.data[0] = -b / (2 * a);
     }
     else if (k > 0)
     {
+      // b 和 sqrtK 相消的一侧由两根之积得到
       double sqrtK = std::sqrt(k);
+      double q = b > 0 ? -b - sqrtK : -b + sqrtK;
       res.count = 2;
-      res.data[0] = (-b + sqrtK) / (2 * a);
-      res.data[1] = (-b - sqrtK) / (2 * a);
+      res.data[0] = b > 0 ? 2 * c / q : q / (2 * a);
+      res.data[1] = b > 0 ? q / (2 * a) : 2 * c / q;
     }
 
     return res;
@@ -681,14 +688,20 @@ namespace rmath
   {
     cubic_equa_result res;
 
-    // ToDo 这里还需要判断a3与a2的指数是否相差过大
-    if (is_zero(a3))
+    // a3 远小于 a2、a1 时判别式会被误差淹没，按二次方程求解后再修正
+    if ((std::abs)(a3) <= 1e-7 * (std::max)((std::abs)(a2), (std::abs)(a1)))
     {
       //二次方程
       auto quad_res = resolv_quad_equa(a2, a1, a0);
       res.count = quad_res.count;
       for (int i = 0; i < quad_res.count; ++i) {
-        res.data[i] = quad_res.data[i];
+        double& x = res.data[i];
+        x = quad_res.data[i];
+        const double fx = ((a3 * x + a2) * x + a1) * x + a0;
+        const double next = x - fx / ((3 * a3 * x + 2 * a2) * x + a1);
+        if (std::isfinite(next)
+          && (std::abs)(((a3 * next + a2) * next + a1) * next + a0) < (std::abs)(fx))
+          x = next;
       }
       return res;
     }
-- 
2.43.0


From f7470c7101ed69ea1cbc150c68c5799db50337fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:50 +0000
Subject: [PATCH 19/33] fix: point_project_in_segment rejects projections
 before the start of the segment

---
 src/src/rmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index fce4d74..a4e2e22 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -79,7 +79,7 @@ namespace rmath
     vec2 u = p - p0;
 
     double sc = v.dot(u) / v.dot(v);
-    return sc <= 1;
+    return 0 <= sc && sc <= 1;
   }
 
   bool point_between_two_point(const vec2& p, const vec2& p0, const vec2& p1)
-- 
2.43.0


From 7d7e3d96bdeb9ad660025b2b1d4166f0606aec03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:21 +0000
Subject: [PATCH 20/33] fix: clamp_0_2pi never returns 2pi

---
 src/src/rmath.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index a4e2e22..ab3189d 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -14,7 +14,9 @@ namespace rmath
 
   double clamp_0_2pi(double rad) {
     rad = remainder(rad, pi * 2);
-    return std::signbit(rad) ? rad + pi * 2 : rad;
+    if (rad < 0) rad += pi * 2;
+    // 负得极小的数加上 2pi 后会舍入成 2pi
+    return rad < pi * 2 ? rad : 0;
   }
 
   bool rect::intersect(const rect& r) const
-- 
2.43.0


From 3220c2fdd85fbb1be5611a7282cba94d38aff197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:18 +0000
Subject: [PATCH 21/33] fix: resolv_cubic_equa finds every root when the
 leading coefficient is comparatively small

---
 src/src/rmath.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index ab3189d..127ed4f 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -690,20 +690,27 @@ namespace rmath
   {
     cubic_equa_result res;
 
-    // a3 远小于 a2、a1 时判别式会被误差淹没，按二次方程求解后再修正
-    if ((std::abs)(a3) <= 1e-7 * (std::max)((std::abs)(a2), (std::abs)(a1)))
+    // a3 远小于 a2 时判别式会被误差淹没，此时一个根在 -a2 / a3 附近，其余的根和二次方程的相近
+    const bool near_quad = (std::abs)(a3) <= 1e-4 * (std::abs)(a2);
+    if (near_quad || (std::abs)(a3) <= 1e-12 * (std::abs)(a1))
     {
-      //二次方程
       auto quad_res = resolv_quad_equa(a2, a1, a0);
       res.count = quad_res.count;
       for (int i = 0; i < quad_res.count; ++i) {
+        res.data[i] = quad_res.data[i];
+      }
+      if (near_quad && std::isfinite(a2 / a3)) {
+        res.data[res.count++] = -a2 / a3;
+      }
+      for (int i = 0; i < res.count; ++i) {
         double& x = res.data[i];
-        x = quad_res.data[i];
-        const double fx = ((a3 * x + a2) * x + a1) * x + a0;
-        const double next = x - fx / ((3 * a3 * x + 2 * a2) * x + a1);
-        if (std::isfinite(next)
-          && (std::abs)(((a3 * next + a2) * next + a1) * next + a0) < (std::abs)(fx))
+        for (int step = 0; step < 4; ++step) {
+          const double fx = ((a3 * x + a2) * x + a1) * x + a0;
+          const double next = x - fx / ((3 * a3 * x + 2 * a2) * x + a1);
+          if (!std::isfinite(next)) break;
+          if ((std::abs)(((a3 * next + a2) * next + a1) * next + a0) >= (std::abs)(fx)) break;
           x = next;
+        }
       }
       return res;
     }
-- 
2.43.0


From 113b7b790a4bc27ef3c383ff2fbdd70884bd79ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:18 +0000
Subject: [PATCH 22/33] fix: intersect(cubic, cubic) merges the leaves of one
 crossing at any precision

With the default precision neighbouring leaves are further apart than the fixed
1e-8, so a single crossing could fill the nine results and hide the others.
---
 src/src/rmath.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 127ed4f..ba4fb95 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -942,10 +942,11 @@ namespace rmath
       [](const data_pair& l, const data_pair& r) {
         return l.first.t0 < r.first.t0;
       });
-    // 移除太过相似的结果
+    // 移除太过相似的结果, 同一个交点会留下多个相邻的小段, 小段的长度取决于 precise
+    const double similar = (std::max)(1e-8, std::ldexp(64., -precise));
     intersect_pair.erase(std::unique(intersect_pair.begin(), intersect_pair.end(),
-      [](const data_pair& l, const data_pair& r) ->bool {
-        return (std::abs)(l.first.t0 - r.first.t0) < 1e-8;
+      [similar](const data_pair& l, const data_pair& r) ->bool {
+        return (std::abs)(l.first.t0 - r.first.t0) < similar;
       }), intersect_pair.end());
 
     // ToDo 不能检查部分重合的情况
-- 
2.43.0


From 050cb0ad2bbf38c9d380d877897f468742d34c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:00 +0000
Subject: [PATCH 23/33] fix: intersect(line, line) never writes a third point
 when products under- or overflow

---
 src/src/rmath.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index ba4fb95..ff65abd 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -127,7 +127,8 @@ namespace rmath
           res.count++;
         }
 
-        if (p2 != p0 && p2 != p1 && point_between_two_point(p2, p0, p1)) {
+        // 最多两个交点，坐标极大或极小(乘积溢出)时也不能越界
+        if (res.count < 2 && p2 != p0 && p2 != p1 && point_between_two_point(p2, p0, p1)) {
           // p2 在 l 内
           auto& data = res.data[res.count];
           data.p = p2;
@@ -136,7 +137,7 @@ namespace rmath
           else data.t0 = (p2 - p0).y / a.y;
           res.count++;
         }
-        if (p3 != p0 && p3 != p1 && point_between_two_point(p3, p0, p1)) {
+        if (res.count < 2 && p3 != p0 && p3 != p1 && point_between_two_point(p3, p0, p1)) {
           // p3 在 l 内
           auto& data = res.data[res.count];
           data.p = p3;
-- 
2.43.0


From 3da8f296c3ae49dba31e3fdc63e018f201526398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:25 +0000
Subject: [PATCH 24/33] fix: repeated process() calls do not break the segments
 again

---
 src/src/vatti.cpp | 7 ++++++-
 src/src/vatti.h   | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 96ccd4e..8b819db 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -402,7 +402,11 @@ namespace vatti
     cliptype_ = operation;
     fillrule_ = fill;
 
-    process_intersect();
+    // 已经打断过的线段不再重复打断，否则每次 process 线段都会变多
+    if (need_break_) {
+      process_intersect();
+      need_break_ = false;
+    }
     reset();
 
     num y = -std::numeric_limits<num>::max();
@@ -556,6 +560,7 @@ namespace vatti
     }
 
     paths_start.push_back(first);
+    need_break_ = true;
 #if RIVER_GRAPHICS_DEBUG &  0
     // 图形调试
     QPen redpen(Qt::red);
diff --git a/src/src/vatti.h b/src/src/vatti.h
index 4bb8e23..17a22e6 100644
--- a/src/src/vatti.h
+++ b/src/src/vatti.h
@@ -221,6 +221,7 @@ namespace vatti
     //boost::pool<double> seg_data_pool;
 
     bool succeeded_ = true;
+    bool need_break_ = false;  // 上次打断之后又加入了新的路径
 
   };
 }
-- 
2.43.0


From c24c2a387c38085984c873e1ebe303b359d4db69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:09 +0000
Subject: [PATCH 25/33] fix: resolv_cubic_equa splits off the far root instead
 of dropping the cubic term

---
 src/src/rmath.cpp | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index ff65abd..7f0bcad 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -691,20 +691,14 @@ namespace rmath
   {
     cubic_equa_result res;
 
-    // a3 远小于 a2 时判别式会被误差淹没，此时一个根在 -a2 / a3 附近，其余的根和二次方程的相近
-    const bool near_quad = (std::abs)(a3) <= 1e-4 * (std::abs)(a2);
-    if (near_quad || (std::abs)(a3) <= 1e-12 * (std::abs)(a1))
+    // a3 远小于 a2 时判别式会被误差淹没。当 -a2 / a3 附近的根远大于另外两个根时，先求出它再降为二次方程
+    const double far_root = -a2 / a3;
+    const bool near_quad = std::isfinite(far_root)
+      && (std::abs)(a1) <= 1e-4 * (std::abs)(a2 * far_root)
+      && (std::abs)(a0) <= 1e-4 * (std::abs)(a2 * far_root * far_root);
+    if (near_quad || (std::abs)(a3) <= 1e-12 * (std::abs)(a2) || (std::abs)(a3) <= 1e-12 * (std::abs)(a1))
     {
-      auto quad_res = resolv_quad_equa(a2, a1, a0);
-      res.count = quad_res.count;
-      for (int i = 0; i < quad_res.count; ++i) {
-        res.data[i] = quad_res.data[i];
-      }
-      if (near_quad && std::isfinite(a2 / a3)) {
-        res.data[res.count++] = -a2 / a3;
-      }
-      for (int i = 0; i < res.count; ++i) {
-        double& x = res.data[i];
+      auto polish = [&](double x) {
         for (int step = 0; step < 4; ++step) {
           const double fx = ((a3 * x + a2) * x + a1) * x + a0;
           const double next = x - fx / ((3 * a3 * x + 2 * a2) * x + a1);
@@ -712,6 +706,26 @@ namespace rmath
           if ((std::abs)(((a3 * next + a2) * next + a1) * next + a0) >= (std::abs)(fx)) break;
           x = next;
         }
+        return x;
+      };
+
+      double b2 = a2, b1 = a1, b0 = a0;
+      if (near_quad) {
+        // a3·x^3 + a2·x^2 + a1·x + a0 = (x - r)(b2·x^2 + b1·x + b0)
+        const double r = polish(far_root);
+        b0 = -a0 / r;
+        b1 = (b0 - a1) / r;
+        b2 = (b1 - a2) / r;
+        b0 *= -r; b1 *= -r; b2 *= -r;
+        res.data[res.count++] = r;
+      }
+      auto quad_res = resolv_quad_equa(b2, b1, b0);
+      for (int i = 0; i < quad_res.count; ++i) {
+        const double x = polish(quad_res.data[i]);
+        const double terms = (std::abs)(a3 * x * x * x) + (std::abs)(a2 * x * x) + (std::abs)(a1 * x) + (std::abs)(a0);
+        if ((std::abs)(((a3 * x + a2) * x + a1) * x + a0) <= 1e-6 * terms) {
+          res.data[res.count++] = x;
+        }
       }
       return res;
     }
-- 
2.43.0


From c2bcfe0cbadacb5bc24cd6eb8f699ac9c6d4b102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:09 +0000
Subject: [PATCH 26/33] fix: draw_path(bezier_cubic) applies the offset

---
 src/src/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/util.cpp b/src/src/util.cpp
index 82ab0cc..de7f13b 100644
--- a/src/src/util.cpp
+++ b/src/src/util.cpp
@@ -22,7 +22,7 @@ void draw_path(const rmath::line& l, const QPen& pen, const QPointF& offset)
 
 void draw_path(const rmath::bezier_cubic& c, const QPen& pen, const QPointF& offset)
 {
-  debug_util::show_cubic(toqt(c.p0), toqt(c.p1), toqt(c.p2), toqt(c.p3), pen);
+  debug_util::show_cubic(toqt(c.p0) + offset, toqt(c.p1) + offset, toqt(c.p2) + offset, toqt(c.p3) + offset, pen);
 }
 
 void draw_path(const river::path& show, const QPen& pen, const QPointF& offset)
-- 
2.43.0


From 505837ada3b7f73b81a4047bde563db81c2097cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:09 +0000
Subject: [PATCH 27/33] fix: coincident curves of opposite direction get the
 same x at every scanline

---
 src/src/segment.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/src/segment.cpp b/src/src/segment.cpp
index 8107b02..b0772a7 100644
--- a/src/src/segment.cpp
+++ b/src/src/segment.cpp
@@ -39,13 +39,15 @@ namespace river {
 
   double seg_cubicto::curr_x(const point& from, double y) const
   {
-    auto cubic = get_cubic(from);
+    // 总是从下往上计算，方向相反的重合曲线才有完全相同的 x
+    auto cubic = from.y <= target.y ? get_cubic(from)
+      : rmath::bezier_cubic{ target, ctrl2, ctrl1, from };
     auto res = cubic.point_at_y(y);
     if (res.count == 1) {
       return cubic.point_at(res.t[0]).x;
     }
     else {
-      return (target.x - from.x) * (y - from.y) / (target.y - from.y) + from.x;
+      return (cubic.p3.x - cubic.p0.x) * (y - cubic.p0.y) / (cubic.p3.y - cubic.p0.y) + cubic.p0.x;
     }
 
   }
-- 
2.43.0


From 33b5dab3d3b7bfe7bd9b96b9b9f48ca50d383015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:09 +0000
Subject: [PATCH 28/33] fix: coincident curves of opposite direction are broken
 at exactly the same points instead of exploding in intersect

---
 src/src/vatti.cpp | 71 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 56 insertions(+), 15 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 8b819db..ef861de 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -245,6 +245,18 @@ namespace vatti
     
   }
 
+  // 曲线总是按从下往上(等高时从左往右)的方向求交和打断
+  bool is_backward(const bezier_cubic& b) {
+    return b.p0.y != b.p3.y ? b.p3.y < b.p0.y
+      : b.p0.x != b.p3.x ? b.p3.x < b.p0.x
+      : b.p1.y != b.p2.y ? b.p2.y < b.p1.y
+      : b.p2.x < b.p1.x;
+  }
+
+  bezier_cubic reversed(const bezier_cubic& b) {
+    return bezier_cubic{ b.p3, b.p2, b.p1, b.p0 };
+  }
+
   void read_cubicto(path_cubicto_func_para) {
     auto data = (process_path_data*)(user);
     auto& prev = data->prev;
@@ -259,6 +271,10 @@ namespace vatti
       return;
     }
 
+    // 按固定的方向打断，方向相反的重合曲线才会在完全相同的点被打断
+    const bool backward = is_backward(b);
+    if (backward) b = reversed(b);
+
     double split_t[] = { -1,-1 };
     b.split_y(split_t, split_t + 1);
     // 在误差范围内检查
@@ -269,6 +285,10 @@ namespace vatti
     }
     bezier_cubic tmp[3];
     b.split(recheck_t.data(), tmp, recheck_t.size());
+    if (backward) {
+      std::reverse(tmp, tmp + recheck_t.size() + 1);
+      for (auto& c : tmp) c = reversed(c);
+    }
     switch (recheck_t.size())
     {
     case 2:
@@ -659,7 +679,17 @@ namespace vatti
         std::vector<double> split_t;
         for (auto& info : cur_break_list) split_t.push_back(info.t);
         auto first_cubicto = (seg_cubicto*)start_seg;
-        first_cubicto->get_cubic(start_p).split(split_t.data(), split_c.data(), split_t.size());
+        auto curve = first_cubicto->get_cubic(start_p);
+        // t 沿着求交时的方向
+        if (is_backward(curve)) {
+          reversed(curve).split(split_t.data(), split_c.data(), split_t.size());
+          std::reverse(split_c.begin(), split_c.end());
+          for (auto& c : split_c) c = reversed(c);
+          std::reverse(cur_break_list.begin(), cur_break_list.end());
+        }
+        else {
+          curve.split(split_t.data(), split_c.data(), split_t.size());
+        }
 
         first_cubicto->ctrl1 = split_c[0].p1;
         first_cubicto->ctrl2 = split_c[0].p2;
@@ -1593,11 +1623,14 @@ namespace vatti
     };
 
     // 交点位于其中一方的端点时，必须使用该端点打断另一方，否则两者不再重合
-    auto add_break = [this](vertex* v0, num t0, vertex* v1, num t1, point p) {
-      if (t0 <= zero) p = v0->pt;
-      else if (t0 >= one) p = v0->next_seg->get_target();
-      else if (t1 <= zero) p = v1->pt;
-      else if (t1 >= one) p = v1->next_seg->get_target();
+    auto add_break = [this](vertex* v0, num t0, bool reversed0,
+      vertex* v1, num t1, bool reversed1, point p) {
+      auto start = [](vertex* v, bool reversed) { return reversed ? v->next_seg->get_target() : v->pt; };
+      auto target = [](vertex* v, bool reversed) { return reversed ? v->pt : v->next_seg->get_target(); };
+      if (t0 <= zero) p = start(v0, reversed0);
+      else if (t0 >= one) p = target(v0, reversed0);
+      else if (t1 <= zero) p = start(v1, reversed1);
+      else if (t1 >= one) p = target(v1, reversed1);
 
       if (zero < t0 && t0 < one) break_info_list.push_back({ v0,p,t0 });
       if (zero < t1 && t1 < one) break_info_list.push_back({ v1,p,t1 });
@@ -1623,8 +1656,8 @@ namespace vatti
       auto res = rmath::intersect(low[first], high[first], low[second], high[second]);
       for (int i = 0; i < res.count; ++i) {
         auto& data = res.data[i];
-        add_break(v[first], reversed[first] ? 1 - data.t0 : data.t0,
-          v[second], reversed[second] ? 1 - data.t1 : data.t1, data.p);
+        add_break(v[first], reversed[first] ? 1 - data.t0 : data.t0, false,
+          v[second], reversed[second] ? 1 - data.t1 : data.t1, false, data.p);
       }
       break;
     }
@@ -1637,25 +1670,33 @@ namespace vatti
       rmath::line _line{ line->pt, line->next_seg->get_target() };
       auto _cubic_to = (const seg_cubicto*)(cubic->next_seg);
       auto _curve = _cubic_to->get_cubic(cubic->pt);
+      const bool backward = is_backward(_curve);
+      if (backward) _curve = reversed(_curve);
       auto res = rmath::intersect(_line, _curve);
       for (int i = 0; i < res.count; ++i) {
         auto& data = res.data[i];
-        add_break(line, data.t0, cubic, data.t1, data.p);
+        add_break(line, data.t0, false, cubic, data.t1, backward, data.p);
       }
       break;
     }
     case flags(seg_type::cubicto):
     {
       vertex* v[] = { l, r };
-      if (less(r->pt, l->pt) || (r->pt == l->pt
-        && less(rseg->get_target(), lseg->get_target()))) std::swap(v[0], v[1]);
-      auto c1 = (const seg_cubicto*)(v[0]->next_seg);
-      auto c2 = (const seg_cubicto*)(v[1]->next_seg);
+      bezier_cubic c[2];
+      bool backward[2];
+      for (int i = 0; i < 2; ++i) {
+        c[i] = ((const seg_cubicto*)(v[i]->next_seg))->get_cubic(v[i]->pt);
+        backward[i] = is_backward(c[i]);
+        if (backward[i]) c[i] = reversed(c[i]);
+      }
+      const int first = less(c[1].p0, c[0].p0)
+        || (c[1].p0 == c[0].p0 && less(c[1].p3, c[0].p3));
+      const int second = 1 - first;
 
-      auto res = rmath::intersect(c1->get_cubic(v[0]->pt), c2->get_cubic(v[1]->pt), 40);
+      auto res = rmath::intersect(c[first], c[second], 40);
       for (int i = 0; i < res.count; ++i) {
         auto& data = res.data[i];
-        add_break(v[0], data.t0, v[1], data.t1, data.p);
+        add_break(v[first], data.t0, backward[first], v[second], data.t1, backward[second], data.p);
       }
       break;
     }
-- 
2.43.0


From 8b74525b72eeecb09a6015476e075000ff71778e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:17 +0000
Subject: [PATCH 29/33] fix: edges whose x ties only by rounding between two
 scanlines are not joined

---
 src/src/vatti.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index ef861de..80a2e59 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -1197,10 +1197,12 @@ namespace vatti
   {
     windcnt_change_list.clear();
     num last_x = num_min;
+    edge* last_e = nullptr;
     auto e = ael_first;
     while (e)
     {
       if (e->top.y == y) {
+        last_e = nullptr;
         e->curr_x = e->top.x;
         if (e->curr_x == last_x) insert_windcnt_change(last_x);
         if (is_hot(e)) {
@@ -1244,9 +1246,13 @@ namespace vatti
       }
       else {
         update_intermediate_curr_x(e, y);
+        // 都没有到达顶点的两条边不会相交，x 相同只是舍入的结果
+        if (last_e && e->curr_x <= last_x)
+          e->curr_x = is_same(last_e, e) ? last_x : std::nextafter(last_x, num_max);
         if (is_hot(e)) e->bound->stop_x = e->curr_x;
         if (e->curr_x == last_x) insert_windcnt_change(last_x);
         last_x = e->curr_x;
+        last_e = e;
         e = e->next_in_ael;
       }
     }
-- 
2.43.0


From 972edc1806438248c5cdb06482bc110a89f2a0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:26 +0000
Subject: [PATCH 30/33] fix: intersect(cubic, cubic) subdivides the larger
 curve only and stops at single points instead of exploding

---
 src/src/rmath.cpp | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 7f0bcad..b065a6d 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -933,24 +933,26 @@ namespace rmath
       auto back = pairs.back();
       pairs.pop_back();
 
-      data p11, p12, p21, p22;
-      back.first.subdive(p11, p12);
-      back.second.subdive(p21, p22);
-
-      constexpr auto check_func = [](const data& p0, const data& p1, int precise,
-        decltype(pairs)& next_out, decltype(intersect_pair)& intersect_out) {
-          if (p0.bbox.intersect(p1.bbox)) {
-            if (p0.recurse > precise)
-              intersect_out.push_back(data_pair(p0, p1));
-            else
-              next_out.push_back(data_pair(p0, p1));
-          }
+      // 已经缩小到一个点的小段不需要再细分
+      const bool done0 = back.first.recurse > precise || back.first.bbox.min == back.first.bbox.max;
+      const bool done1 = back.second.recurse > precise || back.second.bbox.min == back.second.bbox.max;
+      if (done0 && done1) {
+        intersect_pair.push_back(back);
+        continue;
+      }
+
+      // 只细分较大的一段，大小悬殊的曲线才不会产生大量无用的组合
+      auto size = [](const rect& r) {
+        return (std::max)(r.max.x - r.min.x, r.max.y - r.min.y);
       };
+      const bool split0 = done1 || (!done0 && size(back.first.bbox) >= size(back.second.bbox));
 
-      check_func(p11, p21, precise, pairs, intersect_pair);
-      check_func(p11, p22, precise, pairs, intersect_pair);
-      check_func(p12, p21, precise, pairs, intersect_pair);
-      check_func(p12, p22, precise, pairs, intersect_pair);
+      data d1, d2;
+      (split0 ? back.first : back.second).subdive(d1, d2);
+      for (auto& d : { d1, d2 }) {
+        if (!d.bbox.intersect(split0 ? back.second.bbox : back.first.bbox)) continue;
+        pairs.push_back(split0 ? data_pair(d, back.second) : data_pair(back.first, d));
+      }
     }
 
     std::sort(intersect_pair.begin(), intersect_pair.end(),
-- 
2.43.0


From ef5c8c3ffa523aeeeed1bf0c8ac550ba7abe34ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:56 +0000
Subject: [PATCH 31/33] fix: intersect(cubic, cubic) stops when the larger
 curve has reached the precision instead of exploding on short curves

---
 src/src/rmath.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index b065a6d..55e9a3b 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -933,22 +933,21 @@ namespace rmath
       auto back = pairs.back();
       pairs.pop_back();
 
-      // 已经缩小到一个点的小段不需要再细分
-      const bool done0 = back.first.recurse > precise || back.first.bbox.min == back.first.bbox.max;
-      const bool done1 = back.second.recurse > precise || back.second.bbox.min == back.second.bbox.max;
-      if (done0 && done1) {
-        intersect_pair.push_back(back);
-        continue;
-      }
-
       // 只细分较大的一段，大小悬殊的曲线才不会产生大量无用的组合
       auto size = [](const rect& r) {
         return (std::max)(r.max.x - r.min.x, r.max.y - r.min.y);
       };
-      const bool split0 = done1 || (!done0 && size(back.first.bbox) >= size(back.second.bbox));
+      const bool split0 = size(back.first.bbox) >= size(back.second.bbox);
+
+      // 较大的一段已经达到精度，或者缩小到一个点时不需要再细分
+      const data& larger = split0 ? back.first : back.second;
+      if (larger.recurse > precise || larger.bbox.min == larger.bbox.max) {
+        intersect_pair.push_back(back);
+        continue;
+      }
 
       data d1, d2;
-      (split0 ? back.first : back.second).subdive(d1, d2);
+      larger.subdive(d1, d2);
       for (auto& d : { d1, d2 }) {
         if (!d.bbox.intersect(split0 ? back.second.bbox : back.first.bbox)) continue;
         pairs.push_back(split0 ? data_pair(d, back.second) : data_pair(back.first, d));
-- 
2.43.0


From ae7dbd18d6564d52fcc4761272cf6badf1a8ecdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:54 +0000
Subject: [PATCH 32/33] fix: break points that tie keep their order whatever
 the addresses of the vertices

---
 src/src/vatti.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 80a2e59..f8dd081 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -626,7 +626,7 @@ namespace vatti
     }
 #endif
 
-    std::sort(break_info_list.begin(), break_info_list.end(),
+    std::stable_sort(break_info_list.begin(), break_info_list.end(),
       [](break_info const& l, break_info const& r) {
         if (l.vert != r.vert) return l.vert < r.vert;
     return l.t < r.t;
-- 
2.43.0


From 3a151626691ac46a2ae8891a98fc6445acfce68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:54 +0000
Subject: [PATCH 33/33] fix: local minima at the same point keep their order
 when process() is called again

---
 src/src/vatti.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index f8dd081..13425c0 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -365,7 +365,7 @@ namespace vatti
     succeeded_ = true;
 
     // build init scan line list
-    std::sort(local_minima_list.begin(), local_minima_list.end(),
+    std::stable_sort(local_minima_list.begin(), local_minima_list.end(),
       [](local_minima* const& l, local_minima* const& r) {
         if (l->vert->pt.y != r->vert->pt.y) { return l->vert->pt.y < r->vert->pt.y; }
         else { return l->vert->pt.x < r->vert->pt.x; }
-- 
2.43.0

