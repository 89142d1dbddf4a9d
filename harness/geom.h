// Reference geometry for the oracles. Nothing here calls the library except
// to_river()/run(): evaluation, winding numbers, crossings and distances are
// computed independently of src/ (long double where it matters).
#pragma once
#include "driver.h"
#include "river.h"
#include <algorithm>
#include <cmath>

namespace geo {
using drv::Rng; using drv::fmt;

struct Pt { double x = 0, y = 0; };
inline bool operator==(Pt a, Pt b) { return a.x == b.x && a.y == b.y; }
inline bool operator!=(Pt a, Pt b) { return !(a == b); }
inline Pt operator+(Pt a, Pt b) { return {a.x + b.x, a.y + b.y}; }
inline Pt operator-(Pt a, Pt b) { return {a.x - b.x, a.y - b.y}; }
inline Pt operator*(Pt a, double k) { return {a.x * k, a.y * k}; }
inline double dot(Pt a, Pt b) { return a.x * b.x + a.y * b.y; }
inline double crs(Pt a, Pt b) { return a.x * b.y - a.y * b.x; }
inline double len(Pt a) { return std::hypot(a.x, a.y); }
inline Pt from(const river::point& p) { return {p.x, p.y}; }
inline river::point to(Pt p) { return river::point(p.x, p.y); }

struct Cmd { char k; Pt a, b, c; };                 // 'l': c ; 'c': a b c
struct Contour { Pt start; std::vector<Cmd> segs; };
typedef std::vector<Contour> Shape;

inline Pt bez(Pt p0, Pt p1, Pt p2, Pt p3, double t) { double s = 1 - t; return p0 * (s * s * s) + p1 * (3 * s * s * t) + p2 * (3 * s * t * t) + p3 * (t * t * t); }
inline Pt bezd(Pt p0, Pt p1, Pt p2, Pt p3, double t) { double s = 1 - t; return (p1 - p0) * (3 * s * s) + (p2 - p1) * (6 * s * t) + (p3 - p2) * (3 * t * t); }

// One boundary piece of an input or output, closing edges included.
struct Edge { Pt p0, p1, p2, p3; bool cubic = false; int contour = 0; int poly = 0;
  Pt at(double t) const { return cubic ? bez(p0, p1, p2, p3, t) : p0 + (p3 - p0) * t; }
  Pt d(double t) const { return cubic ? bezd(p0, p1, p2, p3, t) : p3 - p0; }
  double ctl() const { return cubic ? len(p1 - p0) + len(p2 - p1) + len(p3 - p2) : len(p3 - p0); } };

inline void edges_of(const Shape& s, int poly, std::vector<Edge>& out, bool keep_null = false) {
  int c = 0; for (auto& k : s) { Pt cur = k.start; auto push = [&](Edge e) { e.contour = c; e.poly = poly; if (!e.cubic && e.p0 == e.p3 && !keep_null) return; out.push_back(e); };
    for (auto& g : k.segs) { Edge e; e.p0 = cur; e.p3 = g.c; if (g.k == 'c') { e.cubic = true; e.p1 = g.a; e.p2 = g.b; } push(e); cur = g.c; }
    if (cur != k.start) { Edge e; e.p0 = cur; e.p3 = k.start; push(e); } ++c; } }

struct Seg { Pt a, b; };
// Flattened boundary: winding number and distance queries.
struct Region {
  std::vector<Seg> s; bool curves = false;
  void add(const std::vector<Edge>& es, int N) { for (auto& e : es) { if (!e.cubic) { s.push_back({e.p0, e.p3}); continue; } curves = true; Pt p = e.p0; for (int i = 1; i <= N; ++i) { Pt q = i == N ? e.p3 : e.at(i / (double)N); s.push_back({p, q}); p = q; } } }
  int wn(Pt q) const { int w = 0; for (auto& e : s) { if ((e.a.y <= q.y) != (e.b.y <= q.y)) { long double c = (long double)(e.b.x - e.a.x) * (q.y - e.a.y) - (long double)(q.x - e.a.x) * (e.b.y - e.a.y); if (e.b.y > e.a.y) { if (c > 0) ++w; } else if (c < 0) --w; } } return w; }
  double dist(Pt q) const { double d = 1e300; for (auto& e : s) { Pt v = e.b - e.a, w = q - e.a; double l = dot(v, v), t = l > 0 ? dot(w, v) / l : 0; t = t < 0 ? 0 : t > 1 ? 1 : t; Pt z = w - v * t; double k = dot(z, z); if (k < d) d = k; } return std::sqrt(d); }
};

struct Box { Pt lo{1e300, 1e300}, hi{-1e300, -1e300}; void add(Pt p) { lo.x = std::min(lo.x, p.x); lo.y = std::min(lo.y, p.y); hi.x = std::max(hi.x, p.x); hi.y = std::max(hi.y, p.y); } double D() const { return std::max(hi.x - lo.x, hi.y - lo.y); } bool ok() const { return lo.x <= hi.x; } };
inline Box box_of(const std::vector<Edge>& es) { Box b; for (auto& e : es) { b.add(e.p0); b.add(e.p3); if (e.cubic) { b.add(e.p1); b.add(e.p2); } } return b; }

inline bool in_rule(int w, river::fill_rule f) { switch (f) { case river::fill_rule::even_odd: return w & 1; case river::fill_rule::non_zero: return w != 0; case river::fill_rule::positive: return w > 0; default: return w < 0; } }
inline bool in_op(bool a, bool b, river::clip_type c) { switch (c) { case river::clip_type::intersection: return a && b; case river::clip_type::union_: return a || b; case river::clip_type::difference: return a && !b; case river::clip_type::xor_: return a != b; default: return false; } }
static const char* const op_name[] = {"none", "intersection", "union", "difference", "xor"};
static const char* const rule_name[] = {"even_odd", "non_zero", "positive", "negative"};

inline std::string str(const Shape& s) { std::string o; for (auto& c : s) { o += fmt("%sm %.17g %.17g", o.empty() ? "" : " ", c.start.x, c.start.y); for (auto& g : c.segs) { if (g.k == 'l') o += fmt(" l %.17g %.17g", g.c.x, g.c.y); else o += fmt(" c %.17g %.17g %.17g %.17g %.17g %.17g", g.a.x, g.a.y, g.b.x, g.b.y, g.c.x, g.c.y); } } return o; }
inline uint64_t hash(const Shape& s, uint64_t h = 1469598103934665603ull) { for (auto& c : s) { h = drv::hash_bytes(&c.start, sizeof c.start, h); for (auto& g : c.segs) { h = drv::hash_bytes(&g.k, 1, h); h = drv::hash_bytes(&g.c, sizeof g.c, h); if (g.k == 'c') { h = drv::hash_bytes(&g.a, sizeof g.a, h); h = drv::hash_bytes(&g.b, sizeof g.b, h); } } } return h; }

// ---- to and from the library -----------------------------------------
inline river::paths to_river(const Shape& s) { river::paths o; for (auto& c : s) { o.emplace_back(); auto& p = o.back(); p.moveto(c.start.x, c.start.y); for (auto& g : c.segs) { if (g.k == 'l') p.lineto(g.c.x, g.c.y); else p.cubicto(to(g.a), to(g.b), to(g.c)); } } return o; }
// a whole shape in a single path object, with interior moves
inline river::paths to_river_single(const Shape& s) { river::paths o; if (s.empty()) return o; o.emplace_back(); auto& p = o.back(); for (auto& c : s) { p.moveto(c.start.x, c.start.y); for (auto& g : c.segs) { if (g.k == 'l') p.lineto(g.c.x, g.c.y); else p.cubicto(to(g.a), to(g.b), to(g.c)); } } return o; }
inline void read_shape(read_path_func_para) { for (auto& c : *(const Shape*)paths) { river::point cur(0, 0), n = to(c.start); segment_funcs.move_to(cur, n, user); cur = n; for (auto& g : c.segs) { n = to(g.c); if (g.k == 'l') segment_funcs.line_to(cur, n, user); else segment_funcs.cubic_to(cur, to(g.a), to(g.b), n, user); cur = n; } } }

// Output events, recorded at the callback boundary.
struct Ev { char k; Pt from, a, b, to; };
struct Rec { std::vector<Ev> ev; };
inline river::path_traverse_funcs recorder() { river::path_traverse_funcs f;
  f.move_to = [](path_moveto_func_para) { ((Rec*)user)->ev.push_back({'m', geo::from(from), {}, {}, geo::from(to)}); };
  f.line_to = [](path_lineto_func_para) { ((Rec*)user)->ev.push_back({'l', geo::from(from), {}, {}, geo::from(to)}); };
  f.cubic_to = [](path_cubicto_func_para) { ((Rec*)user)->ev.push_back({'c', geo::from(from), geo::from(ctrl1), geo::from(ctrl2), geo::from(to)}); };
  return f; }
inline Shape shape_of(const Rec& r) { Shape s; for (auto& e : r.ev) { if (e.k == 'm') { s.emplace_back(); s.back().start = e.to; } else if (!s.empty()) s.back().segs.push_back({e.k, e.a, e.b, e.to}); } return s; }
inline Shape shape_of(const river::paths& ps) { Rec r; auto f = recorder(); for (auto& p : ps) p.traverse(f, &r); return shape_of(r); }
inline bool same_bits(const Rec& a, const Rec& b) { if (a.ev.size() != b.ev.size()) return false; for (size_t i = 0; i < a.ev.size(); ++i) { auto &x = a.ev[i], &y = b.ev[i]; if (x.k != y.k || memcmp(&x.to, &y.to, sizeof x.to) || (x.k == 'c' && (memcmp(&x.a, &y.a, sizeof x.a) || memcmp(&x.b, &y.b, sizeof x.b)))) return false; } return true; }

// ---- arrangement of the inputs ---------------------------------------
struct Cross { Pt p; int e0, e1; double t0, t1; bool yexact; };
struct Arr {
  std::vector<Edge> es; double D = 0; Box bx; bool curves = false;
  std::vector<Cross> xs;
  std::vector<std::vector<double>> cuts;  // per edge, sorted parameters
  bool generic = false; const char* why = ""; double f = 1;   // f: margins of the curve verdicts, 1 coarse, 0.1 fine
  int mixed = 0;   // crossings between subject and clip
};

inline double pt_seg(Pt q, Pt a, Pt b) { Pt v = b - a, w = q - a; double l = dot(v, v), t = l > 0 ? dot(w, v) / l : 0; t = t < 0 ? 0 : t > 1 ? 1 : t; return len(w - v * t); }
inline bool seg_x(Pt a, Pt b, Pt c, Pt d, long double& t, long double& u) { long double ax = (long double)b.x - a.x, ay = (long double)b.y - a.y, bx = (long double)d.x - c.x, by = (long double)d.y - c.y, cx = (long double)c.x - a.x, cy = (long double)c.y - a.y, den = ax * by - ay * bx; if (den == 0) return false; t = (cx * by - cy * bx) / den; u = (cx * ay - cy * ax) / den; return true; }
inline double seg_seg(Pt a, Pt b, Pt c, Pt d) { long double t, u; if (seg_x(a, b, c, d, t, u) && t >= 0 && t <= 1 && u >= 0 && u <= 1) return 0; return std::min(std::min(pt_seg(a, c, d), pt_seg(b, c, d)), std::min(pt_seg(c, a, b), pt_seg(d, a, b))); }

enum { ALLOW_HV_TOUCH = 1, ALLOW_COINCIDENT = 2, ALLOW_YTIES = 4 };

// Line-only arrangement with a general-position verdict: every contact between
// boundary pieces is either a clean interior crossing, a shared vertex (equal
// bits), or - when allowed - an exact contact on an axis-parallel edge or a
// fully coincident pair of edges.
inline void arrange_lines(Arr& A, int allow) {
  const double D = A.D, eps = 1e-6 * D; auto& es = A.es; A.cuts.assign(es.size(), {}); A.generic = true;
  auto bad = [&](const char* w) { if (A.generic) A.why = w; A.generic = false; };
  auto hv_on = [&](Pt q, const Edge& e) { if (e.p0.x == e.p3.x) return q.x == e.p0.x; if (e.p0.y == e.p3.y) return q.y == e.p0.y; return false; };
  for (auto& e : es) if (len(e.p3 - e.p0) < 10 * eps) bad("short edge");
  for (size_t i = 0; i < es.size(); ++i) for (size_t j = i + 1; j < es.size(); ++j) {
    auto &a = es[i], &b = es[j]; Pt da = a.p3 - a.p0, db = b.p3 - b.p0;
    if (std::max(a.p0.x, a.p3.x) + eps < std::min(b.p0.x, b.p3.x) || std::max(b.p0.x, b.p3.x) + eps < std::min(a.p0.x, a.p3.x) || std::max(a.p0.y, a.p3.y) + eps < std::min(b.p0.y, b.p3.y) || std::max(b.p0.y, b.p3.y) + eps < std::min(a.p0.y, a.p3.y)) continue;
    double la = len(da), lb = len(db); if (la == 0 || lb == 0) continue;
    double sn = std::fabs(crs(da, db)) / (la * lb);
    bool coincident = (a.p0 == b.p0 && a.p3 == b.p3) || (a.p0 == b.p3 && a.p3 == b.p0);
    if (coincident) { if (!(allow & ALLOW_COINCIDENT)) bad("coincident"); continue; }
    bool shared = a.p0 == b.p0 || a.p0 == b.p3 || a.p3 == b.p0 || a.p3 == b.p3;
    bool hva = a.p0.x == a.p3.x || a.p0.y == a.p3.y, hvb = b.p0.x == b.p3.x || b.p0.y == b.p3.y;
    if (sn < 1e-4) {
      if (hva && hvb && sn == 0 && (allow & ALLOW_HV_TOUCH)) { // collinear axis-parallel contact is exact
        if (seg_seg(a.p0, a.p3, b.p0, b.p3) == 0) { for (Pt q : {b.p0, b.p3}) { double t = dot(q - a.p0, da) / (la * la); if (t > 0 && t < 1) A.cuts[i].push_back(t); } for (Pt q : {a.p0, a.p3}) { double t = dot(q - b.p0, db) / (lb * lb); if (t > 0 && t < 1) A.cuts[j].push_back(t); } }
        else if (seg_seg(a.p0, a.p3, b.p0, b.p3) < eps) bad("close parallels");
        continue; }
      if (shared) { // folding back onto itself is degenerate, going straight on is not
        Pt s = (a.p0 == b.p0 || a.p0 == b.p3) ? a.p0 : a.p3; Pt oa = s == a.p0 ? a.p3 : a.p0, ob = s == b.p0 ? b.p3 : b.p0; if (dot(oa - s, ob - s) > 0) bad("fold back"); continue; }
      if (seg_seg(a.p0, a.p3, b.p0, b.p3) < 100 * eps) bad("close parallels");
      continue;
    }
    long double t, u; if (!seg_x(a.p0, a.p3, b.p0, b.p3, t, u)) continue;
    double mt = 1e-5, mu = 1e-5; // relative margins (the code under test merges parameters within 1e-6 of an end)
    if (t < -mt || t > 1 + mt || u < -mu || u > 1 + mu) { continue; }
    if (shared) continue;
    bool ta = t < mt || t > 1 - mt, tb = u < mu || u > 1 - mu;
    if (ta || tb) {
      bool ok = false;
      if (allow & ALLOW_HV_TOUCH) { // exact T-junction on an axis-parallel edge
        Pt va = t < 0.5L ? a.p0 : a.p3, vb = u < 0.5L ? b.p0 : b.p3;
        bool on_b = ta && hv_on(va, b) && u >= 0 && u <= 1, on_a = tb && hv_on(vb, a) && t >= 0 && t <= 1;
        if (ta && !tb && on_b) { ok = true; A.cuts[j].push_back((double)u); }
        else if (tb && !ta && on_a) { ok = true; A.cuts[i].push_back((double)t); }
        // strictly outside although near an end: no contact
        bool fa = hv_on(va, b) || hv_on(vb, a);
        if (!ok && fa && (t < 0 || t > 1 || u < 0 || u > 1) ) { double sep = seg_seg(a.p0, a.p3, b.p0, b.p3); if (sep > eps) ok = true; }
      }
      if (!ok) { double sep = seg_seg(a.p0, a.p3, b.p0, b.p3); if (sep > 1e-4 * D) ok = true; }
      if (!ok) bad("vertex near edge");
      continue;
    }
    Cross c; c.p = a.p0 + da * (double)t; c.e0 = i; c.e1 = j; c.t0 = (double)t; c.t1 = (double)u; c.yexact = a.p0.y == a.p3.y || b.p0.y == b.p3.y;
    if (a.p0.y == a.p3.y) c.p.y = a.p0.y; if (b.p0.y == b.p3.y) c.p.y = b.p0.y; if (a.p0.x == a.p3.x) c.p.x = a.p0.x; if (b.p0.x == b.p3.x) c.p.x = b.p0.x;
    A.xs.push_back(c); A.cuts[i].push_back((double)t); A.cuts[j].push_back((double)u); if (a.poly != b.poly) ++A.mixed;
  }
  // crossings may coincide only if they are the crossing of copies of the same two edges, or exact (axis-parallel edges)
  struct X { Pt p; double k[8]; bool hv; }; std::vector<X> px;
  for (auto& c : A.xs) { X x; x.p = c.p; double h[2][4]; x.hv = true; for (int w = 0; w < 2; ++w) { auto& e = es[w ? c.e1 : c.e0]; Pt a = e.p0, b = e.p3; if (b.y < a.y || (b.y == a.y && b.x < a.x)) std::swap(a, b); h[w][0] = a.x; h[w][1] = a.y; h[w][2] = b.x; h[w][3] = b.y; if (a.x != b.x && a.y != b.y) x.hv = false; }
    bool sw = std::lexicographical_compare(h[1], h[1] + 4, h[0], h[0] + 4); for (int w = 0; w < 2; ++w) for (int z = 0; z < 4; ++z) x.k[w * 4 + z] = h[w ^ (sw ? 1 : 0)][z]; px.push_back(x); }
  std::sort(px.begin(), px.end(), [](const X& a, const X& b) { return a.p.x < b.p.x; });
  for (size_t i = 0; i < px.size() && A.generic; ++i) for (size_t j = i + 1; j < px.size() && px[j].p.x - px[i].p.x < 10 * eps; ++j) if (std::fabs(px[i].p.y - px[j].p.y) < 10 * eps) { if ((allow & ALLOW_COINCIDENT) && std::equal(px[i].k, px[i].k + 8, px[j].k)) continue; if ((allow & ALLOW_HV_TOUCH) && px[i].hv && px[j].hv && px[i].p == px[j].p) continue; bad("crossings too close"); break; }
  for (auto& c : A.cuts) std::sort(c.begin(), c.end());
}

// whether the curve has a horizontal tangent within w of t
inline bool near_turn(const Edge& e, double t, double w) { if (!e.cubic) return false; double a = e.d(t - w).y, b = e.d(t + w).y, m = e.d(t).y; return (a <= 0) != (b <= 0) || (a <= 0) != (m <= 0); }
// Arrangement with curves, on chords. Verdict margins are coarse on purpose:
// transversal crossings away from vertices, no near-tangency, cusp or fold.
inline void arrange_curves(Arr& A, bool shared_vertices = false) {
  const double D = A.D, f = A.f; const int NC = f < 1 ? 128 : 40; auto& es = A.es; A.cuts.assign(es.size(), {}); A.generic = true; A.curves = true;
  auto bad = [&](const char* w) { if (A.generic) A.why = w; A.generic = false; };
  struct Ch { Pt a, b; int e; double t0, t1; }; std::vector<Ch> cs;
  struct Miss { int e0, e1; double a0, a1, b0, b1; }; std::vector<Miss> miss;   // chords that pass each other closer than they are to their arcs
  auto sag = [&](int k) { auto& e = es[k]; if (!e.cubic) return 0.; return std::max(len(e.p0 - e.p1 * 2 + e.p2), len(e.p1 - e.p2 * 2 + e.p3)) * 6 / (8. * NC * NC); };
  for (size_t i = 0; i < es.size(); ++i) { auto& e = es[i]; int N = e.cubic ? NC : 8; double L = e.ctl(); if (L < 0.01 * f * D) bad("short piece");
    if (e.cubic) { for (int k = 0; k <= 64; ++k) if (len(e.d(k / 64.0)) < (f < 1 ? 0.05 : 0.10) * L) { bad("near cusp"); break; } if (len(e.p3 - e.p0) < 0.02 * f * D) bad("closed cubic"); }
    Pt p = e.p0; for (int k = 1; k <= N; ++k) { Pt q = k == N ? e.p3 : e.at(k / (double)N); cs.push_back({p, q, (int)i, (k - 1) / (double)N, k / (double)N}); p = q; } }
  // joints
  for (size_t i = 0; i < es.size(); ++i) for (size_t j = 0; j < es.size(); ++j) if (i != j && es[i].contour == es[j].contour && es[i].poly == es[j].poly && es[i].p3 == es[j].p0) { Pt u = es[i].d(1), v = es[j].d(0); if (len(u) == 0 || len(v) == 0) { bad("null tangent"); continue; } double an = std::fabs(std::atan2(crs(u, v), -dot(u, v))); if (an < 0.15) bad("fold back"); }
  if (shared_vertices) for (size_t i = 0; i < es.size(); ++i) for (size_t j = 0; j < i; ++j) for (int k = 0; k < 4; ++k) { auto &a = es[i], &b = es[j]; if ((k & 1 ? a.p3 : a.p0) != (k & 2 ? b.p3 : b.p0)) continue; Pt u = k & 1 ? a.d(1) * -1 : a.d(0), v = k & 2 ? b.d(1) * -1 : b.d(0); if (std::fabs(std::atan2(crs(u, v), dot(u, v))) < 0.15) bad("tangent at a shared vertex"); }
  for (size_t i = 0; i < cs.size() && A.generic; ++i) for (size_t j = i + 1; j < cs.size(); ++j) {
    auto &a = cs[i], &b = cs[j]; const double m = 3e-3 * f * D;
    if (std::max(a.a.x, a.b.x) + m < std::min(b.a.x, b.b.x) || std::max(b.a.x, b.b.x) + m < std::min(a.a.x, a.b.x) || std::max(a.a.y, a.b.y) + m < std::min(b.a.y, b.b.y) || std::max(b.a.y, b.b.y) + m < std::min(a.a.y, a.b.y)) continue;
    if (a.e == b.e && std::fabs(a.t0 - b.t0) < 0.2) continue;             // same piece, neighbouring chords
    if (a.b == b.a || b.b == a.a || a.a == b.a || a.b == b.b) { if (a.e != b.e) { // joint: near-neighbour chords share the vertex
        bool adj = es[a.e].contour == es[b.e].contour && es[a.e].poly == es[b.e].poly; if (!adj && !shared_vertices) bad("shared vertex between contours"); } continue; }
    double d = seg_seg(a.a, a.b, b.a, b.b); if (d > m) continue;
    // chords next to a common joint are close without meaning anything
    bool nearj = false; for (Pt v : {es[a.e].p0, es[a.e].p3}) for (Pt w : {es[b.e].p0, es[b.e].p3}) if (v == w && a.e != b.e) { double r = 0.06 * std::min(es[a.e].ctl(), es[b.e].ctl()); if (pt_seg(v, a.a, a.b) < r && pt_seg(v, b.a, b.b) < r) nearj = true; }
    if (nearj) { if (d == 0) bad("crossing near joint"); continue; }
    Pt da = a.b - a.a, db = b.b - b.a; double sn = std::fabs(crs(da, db)) / (len(da) * len(db)); if (sn < (f < 1 ? 0.03 : 0.12)) { bad("near tangency"); break; }
    if (d > 0) { // a near miss at an end of the chord pair is judged with the neighbour; near a vertex it is ambiguous
      for (Pt v : {es[a.e].p0, es[a.e].p3}) if (pt_seg(v, b.a, b.b) < m) bad("vertex near edge"); for (Pt v : {es[b.e].p0, es[b.e].p3}) if (pt_seg(v, a.a, a.b) < m) bad("vertex near edge"); if (d < 1.5 * (sag(a.e) + sag(b.e))) miss.push_back({a.e, b.e, a.t0, a.t1, b.t0, b.t1}); continue; }
    long double t, u; if (!seg_x(a.a, a.b, b.a, b.b, t, u)) { bad("parallel"); break; }
    Cross c; c.p = a.a + da * (double)t; c.e0 = a.e; c.e1 = b.e; c.t0 = a.t0 + (double)t * (a.t1 - a.t0); c.t1 = b.t0 + (double)u * (b.t1 - b.t0); c.yexact = false;
    for (Pt v : {es[a.e].p0, es[a.e].p3, es[b.e].p0, es[b.e].p3}) if (len(v - c.p) < 4e-3 * f * D) bad("crossing near vertex");
    { // curves are cut at their horizontal tangents, and a crossing within 1e-6 of such a cut (in the parameter) moves onto it
      double p = c.t0, q = c.t1; auto &ea = es[a.e], &eb = es[b.e]; for (int k = 0; k < 6; ++k) { Pt r = eb.at(q) - ea.at(p), u = ea.d(p), v = eb.d(q); double den = crs(u, v); if (den == 0) break; p += crs(r, v) / den; q += crs(r, u) / den; }
      if (std::fabs(p - c.t0) < .05 && std::fabs(q - c.t1) < .05 && (near_turn(ea, p, 2e-5) || near_turn(eb, q, 2e-5))) bad("crossing near a horizontal tangent"); }
    A.xs.push_back(c); A.cuts[a.e].push_back(c.t0); A.cuts[b.e].push_back(c.t1); if (es[a.e].poly != es[b.e].poly) ++A.mixed;
  }
  for (auto& z : miss) { if (!A.generic) break; bool ok = false; double wa = z.a1 - z.a0, wb = z.b1 - z.b0; for (auto& c : A.xs) if (c.e0 == z.e0 && c.e1 == z.e1 && c.t0 > z.a0 - 1.5 * wa && c.t0 < z.a1 + 1.5 * wa && c.t1 > z.b0 - 1.5 * wb && c.t1 < z.b1 + 1.5 * wb) ok = true; if (!ok) bad("near miss"); }
  for (size_t i = 0; i < A.xs.size() && A.generic; ++i) for (size_t j = i + 1; j < A.xs.size(); ++j) if (len(A.xs[i].p - A.xs[j].p) < 3e-3 * f * D) { bad("crossings too close"); break; }
  for (auto& c : A.cuts) std::sort(c.begin(), c.end());
}

inline Arr arrange(const Shape& s, const Shape& c, int allow, double f = 1) {
  Arr A; A.f = f; edges_of(s, 0, A.es); edges_of(c, 1, A.es); A.bx = box_of(A.es); A.D = A.bx.ok() ? A.bx.D() : 1; bool cu = false; for (auto& e : A.es) cu |= e.cubic;
  if (cu) arrange_curves(A); else arrange_lines(A, allow); return A; }

struct Probe { Pt q; int ws, wc; };
// Two probes (one per side) for every edge of the arrangement, as close to the
// boundary as the flattening error of curves permits, plus random points.
inline std::vector<Probe> make_probes(const Arr& A, Rng& r, int randoms) {
  std::vector<Probe> out; Region S, C; std::vector<Edge> es[2]; for (auto& e : A.es) es[e.poly].push_back(e);
  const int N = A.f < 1 ? 1440 : 360; S.add(es[0], N); C.add(es[1], N); Region all = S; all.s.insert(all.s.end(), C.s.begin(), C.s.end());
  auto take = [&](Pt q) { out.push_back({q, S.wn(q), C.wn(q)}); };
  const double dl[] = {1e-3, 1e-4, 1e-5, 1e-6}; int nd = A.curves ? 0 : 4; const double dc[] = {3e-3, 1e-3, 3e-4};
  for (size_t i = 0; i < A.es.size(); ++i) { auto& e = A.es[i]; std::vector<double> c = A.cuts.empty() ? std::vector<double>{} : A.cuts[i]; c.insert(c.begin(), 0); c.push_back(1);
    for (size_t k = 1; k < c.size(); ++k) { if (c[k] - c[k - 1] < 1e-9) continue; double t = (c[k] + c[k - 1]) / 2; Pt m = e.at(t), d = e.d(t); double l = len(d); if (l == 0) continue; Pt n{-d.y / l, d.x / l};
      for (int side = -1; side <= 1; side += 2) { int cnt = A.curves ? 3 : nd; for (int z = 0; z < cnt; ++z) { double dd = (A.curves ? dc[z] * A.f : dl[z]) * A.D; Pt q = m + n * (dd * side); double ds = all.dist(q); if (ds >= 0.5 * dd && ds >= (A.curves ? 1.5e-4 * A.f : 4e-7) * A.D) { take(q); break; } } } } }
  double mar = (A.curves ? 1e-3 * A.f : 1e-5) * A.D; for (int k = 0; k < randoms; ++k) { Pt q{r.u(A.bx.lo.x - .05 * A.D, A.bx.hi.x + .05 * A.D), r.u(A.bx.lo.y - .05 * A.D, A.bx.hi.y + .05 * A.D)}; if (all.dist(q) >= mar) take(q); }
  return out; }

}
