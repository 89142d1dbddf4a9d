// Monitors for the rmath primitives the user can call directly:
// C13 intersections, C14 Bezier operations and equation solvers, C15 small geometry.
#include "clip.h"
#include "rmath.h"
using rmath::vec2; using rmath::bezier_cubic;
typedef long double LD;
static vec2 V(Pt p) { return vec2(p.x, p.y); }
static Pt P(const vec2& v) { return {v.x, v.y}; }
static std::string S(Pt p) { return fmt("(%.17g,%.17g)", p.x, p.y); }
static bezier_cubic B(const Pt* p) { return {V(p[0]), V(p[1]), V(p[2]), V(p[3])}; }
static Edge E(const Pt* p) { Edge e; e.p0 = p[0]; e.p1 = p[1]; e.p2 = p[2]; e.p3 = p[3]; e.cubic = true; return e; }
static std::string S4(const Pt* p) { return "[" + S(p[0]) + S(p[1]) + S(p[2]) + S(p[3]) + "]"; }

// exact positions to sample around: scale and offset shared by one case
struct Frame { double k; Pt o; Pt operator()(double x, double y) const { return {o.x + k * x, o.y + k * y}; } };
static Frame frame(drv::Rng& r) { Frame f{1, {0, 0}}; int q = r.i(0, 4); if (q == 1) f.k = std::pow(10, r.u(-8, 8)); if (q == 2) f.o = {r.u(-1000, 1000), r.u(-1000, 1000)}; if (q == 3) { f.k = std::pow(10, r.u(-3, 3)); f.o = {f.k * r.u(-50, 50), f.k * r.u(-50, 50)}; } return f; }

// ---------------------------------------------------------------- C13 line/line
struct Hit { Pt p; double t0, t1; };
static void ll_sound(Ctx& x, Pt a, Pt b, Pt c, Pt d, const std::vector<Hit>& h, double D, const std::string& what) {
  if (h.size() > 2) { x.fail("ll-count", what); return; }
  for (auto& q : h) { x.count("ll_points"); Pt u = a + (b - a) * q.t0, v = c + (d - c) * q.t1; double tol = 1e-9 * D;
    if (!(q.t0 >= -1e-12 && q.t0 <= 1 + 1e-12 && q.t1 >= -1e-12 && q.t1 <= 1 + 1e-12)) { x.fail("ll-range", fmt("t0 %.17g t1 %.17g ", q.t0, q.t1) + what); return; }
    if (!(len(u - q.p) <= tol) || pt_seg(q.p, c, d) > tol || pt_seg(q.p, a, b) > tol) { x.fail("ll-sound", "reported point " + S(q.p) + fmt(" t0 %.17g t1 %.17g is not on both segments ", q.t0, q.t1) + what); return; }
    if (len(v - q.p) > 1e-7 * D) { x.fail("ll-sound", "t1 does not give the reported point " + what); return; } } }
static std::vector<Hit> ll(Pt a, Pt b, Pt c, Pt d) { auto r = rmath::intersect(V(a), V(b), V(c), V(d)); std::vector<Hit> h; for (int i = 0; i < r.count && i < 2; ++i) h.push_back({P(r.data[i].p), r.data[i].t0, r.data[i].t1}); if (r.count > 2 || r.count < 0) h.resize(3); return h; }
static bool near_one(const std::vector<Hit>& h, Pt p, double tol) { for (auto& q : h) if (len(q.p - p) <= tol) return true; return false; }
static void c13_lines(Ctx& x) {
  auto& r = x.rng; bool grid = x.index & 8; int g = grid ? (r.coin() ? 6 : 40) : 0; Frame f = frame(r); double gk = std::ldexp(1, r.i(-30, 30)); auto pt = [&]() -> Pt { if (grid) return {gk * r.i(-g, g), gk * r.i(-g, g)}; return f(r.u(0, 100), r.u(0, 100)); };
  for (int n = 0; n < 60 && !x.failed; ++n) { Pt a = pt(), b = pt(), c = pt(), d = pt(); int sh = r.i(0, 5); if (sh == 1) b.y = a.y; if (sh == 2) b.x = a.x; if (sh >= 3 && r.coin()) { int q = r.i(0, 3); if (q == 0) d.y = c.y; if (q == 1) d.x = c.x; if (q == 2 && grid) { Pt v{gk * r.i(-3, 3), gk * r.i(-3, 3)}; b = a + v * r.i(-6, 6); c = a + v * r.i(-6, 6); d = a + v * r.i(-6, 6); } if (q == 3) (r.coin() ? c : d) = r.coin() ? a : b; } if (grid && r.chance(.1)) { Pt v = b - a; c = a + Pt{gk * r.i(-2, 2), gk * r.i(-2, 2)} + (r.coin() ? v : Pt{}); d = c + v * r.i(-2, 2); }   // parallel, close by
    if (a == b || c == d) continue; double D = std::max({std::fabs(a.x), std::fabs(a.y), std::fabs(b.x), std::fabs(b.y), std::fabs(c.x), std::fabs(c.y), std::fabs(d.x), std::fabs(d.y)}); Pt da = b - a, db = d - c;
    std::string what = "segments " + S(a) + S(b) + " and " + S(c) + S(d); if (x.verbose) { printf("%s\n", what.c_str()); fflush(stdout); }
    auto h = ll(a, b, c, d), h2 = ll(c, d, a, b), h3 = ll(b, a, d, c); x.count("ll_calls", 3); what += " reported:"; for (auto& q : h) what += S(q.p) + fmt("@%.17g,%.17g ", q.t0, q.t1);
    ll_sound(x, a, b, c, d, h, D, what); ll_sound(x, c, d, a, b, h2, D, what + " (swapped)"); ll_sound(x, b, a, d, c, h3, D, what + " (reversed)"); if (x.failed) return;
    LD den = (LD)da.x * db.y - (LD)da.y * db.x; double sn = std::fabs((double)den) / (len(da) * len(db));
    bool shared = a == c || a == d || b == c || b == d;
    if (grid && den == 0) { LD off = (LD)da.x * (c.y - a.y) - (LD)da.y * (c.x - a.x); if (off != 0) { x.count("ll_parallel"); if (!h.empty() || !h2.empty()) { x.fail("ll-parallel", "parallel lines reported as meeting " + what); return; } continue; }
      auto pr = [&](Pt p) { return dot(p - a, da) / dot(da, da); }; double lo = std::max(0., std::min(pr(c), pr(d))), hi = std::min(1., std::max(pr(c), pr(d)));
      if (hi < lo) { x.count("ll_collinear_apart"); if (!h.empty() || !h2.empty()) { x.fail("ll-collinear", "collinear disjoint segments reported as meeting " + what); return; } continue; }
      x.count("ll_collinear_overlap"); for (Pt e : {a, b, c, d}) { double t = pr(e); bool in1 = t > lo - 1e-9 && t < hi + 1e-9; bool endA = e == a || e == b, endC = e == c || e == d; if (in1 && !(endA && endC)) for (auto* hh : {&h, &h2, &h3}) if (!near_one(*hh, e, 1e-9 * D)) { x.fail("ll-collinear", "end of the common part " + S(e) + " not reported " + what); return; } }
      for (auto& q : h) { bool isend = false; for (Pt e : {a, b, c, d}) isend |= len(q.p - e) <= 1e-9 * D; if (!isend) { x.fail("ll-collinear", "a point that is no end of the common part is reported " + what); return; } }
      continue; }
    if (den == 0) continue;
    LD t, u; seg_x(a, b, c, d, t, u); Pt ref = {(double)(a.x + (LD)da.x * t), (double)(a.y + (LD)da.y * t)}; const LD m = grid ? 0 : 1e-9L;
    if (!grid && sn < 1e-5) { x.count("ll_skipped_near_parallel"); continue; }
    bool in = t >= m && t <= 1 - m && u >= m && u <= 1 - m, out = t < -m || t > 1 + m || u < -m || u > 1 + m;
    if (in) { x.count(shared ? "ll_shared_end" : (t == 0 || t == 1 || u == 0 || u == 1) ? "ll_touch" : "ll_cross"); for (auto* hh : {&h, &h2, &h3}) if (hh->size() != 1 || len((*hh)[0].p - ref) > 1e-9 * D) { x.fail("ll-missed", "meeting point " + S(ref) + fmt(" not reported once (%zu reported) ", hh->size()) + what); return; }
      for (auto* hh : {&h, &h2, &h3}) { Pt q = (*hh)[0].p; for (int w = 0; w < 2; ++w) { Pt s = w ? c : a, e = w ? d : b; if ((s.y == e.y && q.y != s.y) || (s.x == e.x && q.x != s.x)) { x.fail("ll-axis", "the point does not lie exactly on the axis-parallel segment " + what); return; } } } }
    else if (out) { x.count("ll_apart"); if (!h.empty() || !h2.empty() || !h3.empty()) { x.fail("ll-extra", "segments that do not meet reported as meeting " + what); return; } }
  }
}
// ---------------------------------------------------------------- roots by bisection
// all sign changes of a polynomial on [0,1]; amb: some extremum or end value is too close to zero to call
struct Poly3 { LD a, b, c, d; LD operator()(LD t) const { return ((a * t + b) * t + c) * t + d; } LD der(LD t) const { return (3 * a * t + 2 * b) * t + c; } };
static std::vector<LD> crit(const Poly3& f, LD lo, LD hi) { std::vector<LD> o; LD A = 3 * f.a, Bq = 2 * f.b, C = f.c; LD k = Bq * Bq - 4 * A * C; auto add = [&](LD t) { if (t > lo && t < hi) o.push_back(t); }; if (A == 0) { if (Bq != 0) add(-C / Bq); } else if (k >= 0) { LD s = std::sqrt(k), q = -(Bq + (Bq > 0 ? s : -s)) / 2; add(q / A); if (q != 0) add(C / q); } std::sort(o.begin(), o.end()); return o; }
static std::vector<LD> roots(const Poly3& f, LD lo, LD hi, LD tol, bool& amb) { std::vector<LD> c = crit(f, lo, hi), o; c.insert(c.begin(), lo); c.push_back(hi); amb = false; for (LD t : c) if (std::fabs(f(t)) <= tol) amb = true; for (size_t i = 1; i < c.size(); ++i) { LD a = c[i - 1], b = c[i]; LD fa = f(a), fb = f(b); if (fa == 0 || fb == 0 || (fa > 0) == (fb > 0)) continue; for (int k = 0; k < 100; ++k) { LD m = (a + b) / 2; if ((f(m) > 0) == (fa > 0)) a = m; else b = m; } o.push_back((a + b) / 2); } return o; }
static Poly3 pow_basis(LD p0, LD p1, LD p2, LD p3) { return {p3 - 3 * p2 + 3 * p1 - p0, 3 * p2 - 6 * p1 + 3 * p0, 3 * p1 - 3 * p0, p0}; }

// curves of every degree of degeneracy
static void gen_cubic(drv::Rng& r, const Frame& f, Pt* p, std::string& kind) {
  int q = r.i(0, 9); auto R = [&]() { return f(r.u(0, 100), r.u(0, 100)); }; for (int i = 0; i < 4; ++i) p[i] = R(); kind = "random";
  if (q == 1) { Pt m = R(); p[1] = p[0] + (m - p[0]) * (2 / 3.); p[2] = p[3] + (m - p[3]) * (2 / 3.); kind = "quadratic"; }
  if (q == 2) { p[1] = p[0] + (p[3] - p[0]) * (1 / 3.); p[2] = p[0] + (p[3] - p[0]) * (2 / 3.); kind = "straight"; }
  if (q == 3) { Pt m = R(); double e = std::pow(10, r.u(-12, -3)); p[1] = p[0] + (m - p[0]) * (2 / 3.) + (R() - p[0]) * e; p[2] = p[3] + (m - p[3]) * (2 / 3.) + (R() - p[3]) * e; kind = "near-quadratic"; }
  if (q == 4) { p[1] = p[0]; kind = "ctrl1=start"; } if (q == 5) { p[2] = p[3]; kind = "ctrl2=end"; }
  if (q == 6) { Contour c = gen::circle(f(50, 50), f.k * r.u(10, 40), f.k * r.u(10, 40), r.coin() ? 0 : r.u(0, 6), r.coin()); size_t i = r.i(0, 3); p[0] = i ? c.segs[i - 1].c : c.start; p[1] = c.segs[i].a; p[2] = c.segs[i].b; p[3] = c.segs[i].c; kind = "circle"; }
  if (q == 7) { auto I = [&]() { return f(r.i(0, 10) * 8, r.i(0, 10) * 8); }; for (int i = 0; i < 4; ++i) p[i] = I(); kind = "grid"; }
  if (q == 8) { p[1].y = p[0].y; p[2].y = p[3].y; if (r.coin()) { p[1].x = p[0].x + f.k * r.u(10, 30); } kind = "flat-ends"; } }

static void c13_line_cubic(Ctx& x) {
  auto& r = x.rng; Frame f = frame(r);
  for (int n = 0; n < 25 && !x.failed; ++n) { Pt p[4]; std::string kind; gen_cubic(r, f, p, kind); Pt a = f(r.u(-10, 110), r.u(-10, 110)), b = f(r.u(-10, 110), r.u(-10, 110)); int q = r.i(0, 4); if (q == 1) b.y = a.y; if (q == 2) b.x = a.x; if (q == 3) { Edge e = E(p); a = e.at(r.u()) + (b - a) * r.u(-.7, -.2); b = e.at(r.u(.3, .7)) + (b - a) * .3; } if (a == b) continue;
    double D = 0; for (Pt z : {p[0], p[1], p[2], p[3], a, b}) D = std::max({D, std::fabs(z.x), std::fabs(z.y)}); double L = len(b - a), ext = E(p).ctl() + L;
    std::string what = kind + " curve " + S4(p) + " segment " + S(a) + S(b); if (x.verbose) { printf("%s\n", what.c_str()); fflush(stdout); }
    auto res = rmath::intersect(rmath::line{V(a), V(b)}, B(p)); x.count("lc_calls"); if (res.count < 0 || res.count > 3) { x.fail("lc-count", what); return; } Edge e = E(p); Edge er = e; std::swap(er.p0, er.p3); std::swap(er.p1, er.p2);
    for (int i = 0; i < res.count; ++i) what += S(P(res.data[i].p)) + fmt("@%.17g,%.17g ", res.data[i].t0, res.data[i].t1);
    const double tol = 1e-8 * D + 1e-7 * ext;
    for (int i = 0; i < res.count; ++i) { auto& h = res.data[i]; x.count("lc_points"); if (!(h.t0 >= -1e-9 && h.t0 <= 1 + 1e-9 && h.t1 >= 0 && h.t1 <= 1)) { x.fail("lc-range", what); return; } if (!(len(e.at(h.t1) - P(h.p)) <= tol) || !(len(a + (b - a) * h.t0 - P(h.p)) <= 1e-6 * ext + 1e-8 * D)) { x.fail("lc-sound", "reported point is not on both " + what); return; }
      if ((a.y == b.y && h.p.y != a.y) || (a.x == b.x && h.p.x != a.x)) { x.fail("lc-axis", "the point does not lie exactly on the axis-parallel segment " + what); return; } }
    LD nx = -((LD)b.y - a.y), ny = (LD)b.x - a.x; auto dd = [&](Pt z) { return nx * ((LD)z.x - a.x) + ny * ((LD)z.y - a.y); }; Poly3 g = pow_basis(dd(p[0]), dd(p[1]), dd(p[2]), dd(p[3])); bool amb; auto rt = roots(g, 0, 1, 1e-6L * L * (ext + D * 1e-3), amb); std::vector<LD> want; for (LD t : rt) { Pt z = e.at((double)t); LD s = ((LD)z.x - a.x) * (b.x - a.x) + ((LD)z.y - a.y) * (b.y - a.y); s /= (LD)L * L; if (std::fabs(s) < 1e-6L || std::fabs(s - 1) < 1e-6L) amb = true; double sl = len(e.d((double)t)); if (std::fabs(g.der(t)) < 1e-2L * L * sl || sl < 1e-2 * ext) amb = true; if (s > 0 && s < 1) want.push_back(t); }
    if (amb) { x.count("lc_ambiguous"); continue; } x.count(fmt("lc_decided_%zu", want.size()).c_str()); x.count(("lc_" + kind).c_str());
    if ((int)want.size() != res.count) { x.fail("lc-missed", fmt("%zu crossings, %d reported: ", want.size(), res.count) + what); return; }
    for (LD t : want) { bool ok = false; for (int i = 0; i < res.count; ++i) ok |= std::fabs(res.data[i].t1 - (double)t) < 1e-6; if (!ok) { x.fail("lc-missed", fmt("crossing at curve parameter %.17g not reported ", (double)t) + what); return; } } }
}
static void c13_cubics(Ctx& x) {
  auto& r = x.rng; Frame f = frame(r);
  for (int n = 0; n < 6 && !x.failed; ++n) { Pt p[4], q[4]; std::string k1, k2; Shape s, c; Arr A; bool ok = false;
    for (int t = 0; t < 40 && !ok; ++t) { gen_cubic(r, f, p, k1); gen_cubic(r, f, q, k2); if (r.chance(.15)) { k1 = k2 = "humped"; gen::humps(r, 0, p); gen::humps(r, 1, q); double th = r.coin() ? 0 : r.u(0, 6.3); for (Pt* z : {p, q}) { for (int i = 0; i < 4; ++i) { Pt d = z[i] - Pt{50, 50}; z[i] = f(50 + d.x * cos(th) - d.y * sin(th), 50 + d.x * sin(th) + d.y * cos(th)); } if (r.coin()) { std::swap(z[0], z[3]); std::swap(z[1], z[2]); } } } s.assign(1, {}); s[0].start = p[0]; s[0].segs = {{'c', p[1], p[2], p[3]}}; std::vector<Edge> es{E(p), E(q)}; es[1].poly = 1; A = Arr(); A.es = es; A.bx = box_of(es); A.D = A.bx.D(); arrange_curves(A); ok = A.generic; x.count(ok ? "cc_decided" : "cc_rejected"); }
    // a small hook across a long gentle curve: exactly two crossings, close together
    if (r.chance(.12)) { k1 = "gentle"; k2 = "hook"; double L = r.u(30, 90), h = L * std::pow(10, -r.u(1, 3.5)), th = r.u(0, 6.3), t0 = r.u(.1, .9); Pt g[4], b[4]; for (int i = 0; i < 4; ++i) g[i] = {L * i / 3 + r.u(-.05, .05) * L * (i % 3 != 0), r.u(-.12, .12) * L}; Edge G = E(g); Pt m = G.at(t0), u = G.d(t0); u = u * (1 / len(u)); double up = r.coin() ? 1 : -1, sh = r.u(-.3, .3); const double hx[] = {-.5, -.4, .4, .5}, hy[] = {r.u(.5, 1), r.u(-1.5, -.8), r.u(-1.5, -.8), r.u(.5, 1)}; for (int i = 0; i < 4; ++i) b[i] = m + u * (h * (hx[i] + sh * hy[i])) + Pt{-u.y, u.x} * (h * up * hy[i]); if (r.coin()) { std::swap(b[0], b[3]); std::swap(b[1], b[2]); }
      for (int i = 0; i < 4; ++i) { auto ro = [&](Pt z) { Pt d = z - Pt{L / 2, 0}; return f(50 + d.x * cos(th) - d.y * sin(th), 50 + d.x * sin(th) + d.y * cos(th)); }; p[i] = ro(g[i]); q[i] = ro(b[i]); } std::vector<Edge> es{E(p), E(q)}; A = Arr(); A.es = es; A.bx = box_of(es); A.D = A.bx.D(); double ylast = 0, tl = 0; for (int k = 0; k <= 64; ++k) { double t = k / 64.; Pt z = E(b).at(t) - m; double y = -u.y * z.x + u.x * z.y; if (k && (y > 0) != (ylast > 0)) { Cross c; double w = tl + (t - tl) * ylast / (ylast - y); c.e0 = 0; c.e1 = 1; c.t1 = w; Pt zz = E(b).at(w) - m; c.t0 = t0 + dot(zz, u) / len(G.d(t0)); A.xs.push_back(c); } ylast = y; tl = t; }
      ok = A.xs.size() == 2; double mag = std::max(std::fabs(f.o.x), std::fabs(f.o.y)); if (h * 1e-7 < mag * 1e-15) ok = false; x.count(ok ? "cc_hooks" : "cc_hooks_rejected"); if (r.coin()) { for (int i = 0; i < 4; ++i) std::swap(p[i], q[i]); std::swap(k1, k2); for (auto& c : A.xs) std::swap(c.t0, c.t1); } }
    if (!ok) continue; std::string what = k1 + " curve " + S4(p) + " and " + k2 + " curve " + S4(q); if (x.verbose) { printf("%s\n", what.c_str()); fflush(stdout); }
    std::vector<Cross> want; Edge e1 = E(p), e2 = E(q); for (auto& z : A.xs) if (z.e0 != z.e1) { double a = z.e0 == 0 ? z.t0 : z.t1, b = z.e0 == 0 ? z.t1 : z.t0; for (int k = 0; k < 40; ++k) { Pt d = e1.at(a) - e2.at(b), u = e1.d(a), v = e2.d(b); double det = -u.x * v.y + u.y * v.x; if (det == 0) break; a -= (-d.x * v.y + d.y * v.x) / det; b -= (u.x * d.y - u.y * d.x) / det; } Cross w = z; w.t0 = a; w.t1 = b; w.p = e1.at(a); want.push_back(w); }
    for (int pass = 0; pass < 2; ++pass) { int prec = pass ? 40 : 25; drv::step_reset(BUDGET_CURVES); auto res = pass ? rmath::intersect(B(p), B(q), 40) : rmath::intersect(B(p), B(q)); x.maximum("cc_steps", (double)drv::step_count()); drv::step_off(); x.count("cc_calls"); if (res.count < 0 || res.count > 9) { x.fail("cc-count", what); return; }
      double tol = A.D * (pass ? 1e-9 : 1e-6) + 1e-13 * std::max(std::fabs(f.o.x), std::fabs(f.o.y)) * 10; std::string got; for (int i = 0; i < res.count; ++i) got += S(P(res.data[i].p)) + fmt("@%.17g,%.17g ", res.data[i].t0, res.data[i].t1);
      for (int i = 0; i < res.count; ++i) { auto& h = res.data[i]; x.count("cc_points"); bool near = false; for (auto& w : want) near |= len(w.p - P(h.p)) <= 20 * tol; if (!(h.t0 >= 0 && h.t0 <= 1 && h.t1 >= 0 && h.t1 <= 1) || !(len(e1.at(h.t0) - P(h.p)) <= 10 * tol) || !(len(e2.at(h.t1) - P(h.p)) <= 10 * tol)) { x.fail("cc-sound", fmt("precise %d: reported point is not on both curves ", prec) + what + " " + got); return; } if (!near) { x.fail("cc-extra", fmt("precise %d: reported point is no crossing ", prec) + what + " " + got); return; } }
      for (auto& w : want) { int hits = 0; for (int i = 0; i < res.count; ++i) hits += len(P(res.data[i].p) - w.p) <= 20 * tol; x.count("cc_crossings"); if (!hits) { x.fail("cc-missed", fmt("precise %d: crossing (%.17g,%.17g) not reported ", prec, w.p.x, w.p.y) + what + " " + got); return; } if (pass && hits > 1) { x.fail("cc-duplicate", fmt("crossing (%.17g,%.17g) reported %d times ", w.p.x, w.p.y, hits) + what + " " + got); return; } } }
    x.maximum("cc_max_crossings", (double)want.size()); if (want.empty()) x.count("cc_no_crossing"); }
}
static void c13(Ctx& x) { int k = x.index % 8; if (k < 3) c13_lines(x); else if (k < 6) c13_line_cubic(x); else c13_cubics(x); x.distinct(x.index * 31 + x.seed); x.count("nontrivial"); }

// ---------------------------------------------------------------- C14
static void at_ld(const Pt* p, LD t, LD& X, LD& Y) { LD s = 1 - t; LD b0 = s * s * s, b1 = 3 * s * s * t, b2 = 3 * s * t * t, b3 = t * t * t; X = b0 * p[0].x + b1 * p[1].x + b2 * p[2].x + b3 * p[3].x; Y = b0 * p[0].y + b1 * p[1].y + b2 * p[2].y + b3 * p[3].y; }
static void c14_bezier(Ctx& x) {
  auto& r = x.rng; Frame f = frame(r);
  for (int n = 0; n < 20 && !x.failed; ++n) { Pt p[4]; std::string kind; gen_cubic(r, f, p, kind); if (r.chance(.1)) p[3] = p[0]; if (r.chance(.05)) { for (int i = 1; i < 4; ++i) p[i].y = p[0].y; kind = "horizontal"; } bezier_cubic b = B(p); double D = 0; for (int i = 0; i < 4; ++i) D = std::max({D, std::fabs(p[i].x), std::fabs(p[i].y)}); double ext = E(p).ctl() + 1e-300; const double tol = 1e-13 * D + 1e-12 * ext;
    std::string what = kind + " curve " + S4(p); if (x.verbose) { printf("%s\n", what.c_str()); fflush(stdout); } x.count("curves"); x.count(("kind_" + kind).c_str());
    auto same = [&](Pt got, LD t, const char* op) { LD X, Y; at_ld(p, t, X, Y); if (std::fabs((double)(got.x - X)) <= tol && std::fabs((double)(got.y - Y)) <= tol) return true; x.fail(op, fmt("%s: got (%.17g,%.17g), the curve at t=%.17g is (%.17Lg,%.17Lg) ", op, got.x, got.y, (double)t, X, Y) + what); return false; };
    for (double t : {0., 1., .5, r.u(), r.u()}) { x.count("point_at"); if (!same(P(b.point_at(t)), t, "point_at")) return; }
    if (b.point_at(0) != V(p[0]) || b.point_at(1) != V(p[3])) { x.fail("point_at", "the ends are not the end points " + what); return; }
    { double t = r.chance(.2) ? (double)r.i(0, 1) : r.u(); bezier_cubic l, h; b.split(t, &l, &h); x.count("split"); if (l.p0 != b.p0 || h.p3 != b.p3 || l.p3 != h.p0) { x.fail("split", fmt("the halves at t=%.17g do not join exactly ", t) + what); return; } for (int k = 0; k <= 4; ++k) { double s = k / 4.; if (!same(P(l.point_at(s)), (LD)s * t, "split") || !same(P(h.point_at(s)), t + (LD)s * (1 - (LD)t), "split")) return; } }
    { size_t m = r.i(0, 6); std::vector<double> ts; for (size_t i = 0; i < m; ++i) ts.push_back(r.u(.01, .99)); std::sort(ts.begin(), ts.end()); bool sep = true; for (size_t i = 1; i < m; ++i) sep &= ts[i] - ts[i - 1] > 1e-3; if (sep && m) { std::vector<bezier_cubic> o(m + 1); b.split(ts.data(), o.data(), m); x.count("split_many"); if (o[0].p0 != b.p0 || o[m].p3 != b.p3) { x.fail("split-many", "outer ends moved " + what); return; } for (size_t i = 0; i <= m; ++i) { LD a = i ? ts[i - 1] : 0, c = i < m ? ts[i] : 1; if (i && o[i - 1].p3 != o[i].p0) { x.fail("split-many", "pieces do not join exactly " + what); return; } for (int k = 0; k <= 4; ++k) { LD t = a + (c - a) * k / 4; LD X, Y; at_ld(p, t, X, Y); Pt g = P(o[i].point_at(k / 4.)); if (std::fabs((double)(g.x - X)) > 100 * tol || std::fabs((double)(g.y - Y)) > 100 * tol) { x.fail("split-many", fmt("piece %zu at %d/4: got (%.17g,%.17g), the curve at t=%.17Lg is (%.17Lg,%.17Lg) ", i, k, g.x, g.y, t, X, Y) + what); return; } } } } }
    // extrema: bounding box is tight, split_y separates monotone parts
    Poly3 fx = pow_basis(p[0].x, p[1].x, p[2].x, p[3].x), fy = pow_basis(p[0].y, p[1].y, p[2].y, p[3].y); auto range = [&](const Poly3& g, LD& lo, LD& hi, LD e1) { lo = std::min(g(0), e1); hi = std::max(g(0), e1); for (LD t : crit(g, 0, 1)) { lo = std::min(lo, g(t)); hi = std::max(hi, g(t)); } };
    { LD lx, hx, ly, hy; range(fx, lx, hx, p[3].x); range(fy, ly, hy, p[3].y); auto bb = b.get_boundary(); x.count("get_boundary"); double bt = 1e-11 * D + 1e-9 * ext; if (!(std::fabs((double)(bb.min.x - lx)) <= bt && std::fabs((double)(bb.max.x - hx)) <= bt && std::fabs((double)(bb.min.y - ly)) <= bt && std::fabs((double)(bb.max.y - hy)) <= bt)) { x.fail("get_boundary", fmt("got [%.17g,%.17g]x[%.17g,%.17g], the curve spans [%.17Lg,%.17Lg]x[%.17Lg,%.17Lg] ", bb.min.x, bb.max.x, bb.min.y, bb.max.y, lx, hx, ly, hy) + what); return; } }
    { double t1 = -1, t2 = -1; int k = b.split_y(&t1, &t2); x.count(fmt("split_y_%d", k).c_str()); std::vector<double> ts; if (k >= 1) ts.push_back(t1); if (k == 2) ts.push_back(t2); bool ok = k >= 0 && k <= 2; for (double t : ts) ok &= t > 0 && t < 1; if (k == 2) ok &= t1 <= t2; if (!ok) { x.fail("split_y", fmt("count %d, t %.17g %.17g ", k, t1, t2) + what); return; } ts.insert(ts.begin(), 0); ts.push_back(1); LD slack = 1e-10L * ext + 1e-13L * D; for (size_t i = 1; i < ts.size(); ++i) { LD a = ts[i - 1], c = ts[i]; LD lo = fy(a), hi = fy(c); bool up = hi >= lo; LD prev = lo; for (int m = 1; m <= 40; ++m) { LD v = fy(a + (c - a) * m / 40); if (up ? v < prev - slack : v > prev + slack) { x.fail("split_y", fmt("part [%.17Lg,%.17Lg] is not monotone in y ", a, c) + what); return; } prev = v; } } }
    { LD lo, hi; range(fy, lo, hi, p[3].y); for (int z = 0; z < 4; ++z) { double y = (double)(lo + (hi - lo) * r.u(-.1, 1.1)); auto res = b.point_at_y(y); x.count("point_at_y"); if (res.count < 0 || res.count > 3) { x.fail("point_at_y", fmt("count %d ", res.count) + what); return; } for (int i = 0; i < res.count; ++i) { LD Y = fy(res.t[i]); if (!(res.t[i] >= 0 && res.t[i] <= 1) || std::fabs((double)(Y - y)) > 1e-9 * ext + 1e-12 * D) { x.fail("point_at_y", fmt("t=%.17g gives y %.17Lg, asked %.17g ", res.t[i], Y, y) + what); return; } } Poly3 g = fy; g.d -= y; bool amb; auto rt = roots(g, 0, 1, 1e-7L * ext + 1e-11L * D, amb); for (LD t : rt) if (std::fabs(g.der(t)) < 1e-3L * ext) amb = true; if (amb) { x.count("point_at_y_ambiguous"); continue; } x.count(fmt("point_at_y_roots_%zu", rt.size()).c_str()); if ((int)rt.size() != res.count) { x.fail("point_at_y", fmt("y=%.17g: %zu points on the curve, %d reported ", y, rt.size(), res.count) + what); return; } for (LD t : rt) { bool okk = false; for (int i = 0; i < res.count; ++i) okk |= std::fabs(res.t[i] - (double)t) < 1e-7; if (!okk) { x.fail("point_at_y", fmt("y=%.17g: t=%.17Lg not reported ", y, t) + what); return; } } } } }
  { Pt c = f(r.u(0, 100), r.u(0, 100)); double R = f.k * r.u(.1, 50); bezier_cubic o[4]; bezier_cubic::circle(V(c), R, o); x.count("circles"); double D = std::max({std::fabs(c.x), std::fabs(c.y), R}); for (int i = 0; i < 4; ++i) { if (len(P(o[i].p3) - P(o[(i + 1) % 4].p0)) > 1e-14 * D) { x.fail("circle", "quarters do not join"); return; } double prev = -1; for (int k = 0; k <= 16; ++k) { Pt q = P(o[i].point_at(k / 16.)) - c; double d = len(q) / R - 1; if (std::fabs(d) > 2.8e-4 + 1e-12 * D / R) { x.fail("circle", fmt("quarter %d at %d/16 is off the circle by %g R", i, k, d)); return; } double an = std::atan2(q.y, q.x) - i * M_PI / 2; while (an < -M_PI / 4) an += 2 * M_PI; while (an > M_PI * 1.75) an -= 2 * M_PI; if (an < prev || an > M_PI / 2 + 1e-9 || an < -1e-9) { x.fail("circle", fmt("quarter %d does not run counter-clockwise through its quadrant", i)); return; } prev = an; } } }
}
static void c14_equations(Ctx& x) {
  auto& r = x.rng;
  for (int n = 0; n < 80 && !x.failed; ++n) { bool cubic = r.coin(); int nr = cubic ? 3 : 2; double sc = std::pow(10, r.u(-14, 10)), rs = r.chance(.5) ? 1 : std::pow(10, r.u(-3, 3)); std::vector<double> want; bool integer = r.chance(.3);
    auto rootv = [&] { return integer ? (double)r.i(-6, 6) : rs * r.u(-1, 1); };
    bool complexp = r.chance(.35); double A3 = integer ? (double)r.i(1, 5) : sc * (r.coin() ? 1 : -1); if (integer && r.coin()) A3 = -A3;
    int deg = r.chance(.15) ? r.i(0, nr - 1) : nr; // leading coefficients exactly zero
    std::vector<LD> po{1}; auto mul = [&](std::vector<LD> q) { std::vector<LD> o(po.size() + q.size() - 1, 0); for (size_t i = 0; i < po.size(); ++i) for (size_t j = 0; j < q.size(); ++j) o[i + j] += po[i] * q[j]; po = o; };
    int left = deg; if (complexp && left >= 2) { double u = rootv(), v = integer ? (double)r.i(1, 5) : rs * r.u(.05, 1); mul({(LD)u * u + (LD)v * v, -2 * (LD)u, 1}); left -= 2; } else complexp = false;
    while (left-- > 0) { double z = rootv(); if (!want.empty() && r.chance(.12)) z = want[0]; want.push_back(z); mul({-(LD)z, 1}); }
    double co[4] = {0, 0, 0, 0}; for (size_t i = 0; i < po.size(); ++i) co[i] = (double)(po[i] * A3); if (deg == 0 && r.coin()) co[0] = 0;
    std::sort(want.begin(), want.end()); bool sep = true; double mag = 0; for (double z : want) mag = std::max(mag, std::fabs(z)); for (size_t i = 1; i < want.size(); ++i) if (want[i] - want[i - 1] < 1e-2 * std::max(mag, 1e-300)) sep = false; if (integer) { sep = true; for (size_t i = 1; i < want.size(); ++i) if (want[i] == want[i - 1]) sep = false; }
    std::string what = fmt("%.17g x^3 + %.17g x^2 + %.17g x + %.17g", co[3], co[2], co[1], co[0]); int cnt; double got[3]; if (cubic) { auto q = rmath::resolv_cubic_equa(co[3], co[2], co[1], co[0]); cnt = q.count; for (int i = 0; i < cnt && i < 3; ++i) got[i] = q.data[i]; } else { auto q = rmath::resolv_quad_equa(co[2], co[1], co[0]); cnt = q.count; for (int i = 0; i < cnt && i < 2; ++i) got[i] = q.data[i]; }
    x.count(cubic ? "cubic_equations" : "quadratic_equations"); if (cnt < 0 || cnt > nr) { x.fail("equation", fmt("count %d ", cnt) + what); return; } std::string g; for (int i = 0; i < cnt; ++i) g += fmt(" %.17g", got[i]); if (x.verbose) printf("%s ->%s\n", what.c_str(), g.c_str());
    if (deg == 0) { continue; } // constant: nothing to say about roots
    LD M = 0, S0 = 0; for (int i = 0; i < deg; ++i) M = std::max(M, std::pow(std::fabs((LD)co[i] / co[deg]), 1.0L / (deg - i))); for (int i = 0; i <= deg; ++i) S0 += std::fabs(co[i]) * std::pow(M, (LD)i); // size of the largest root, and of the terms there
    for (int i = 0; i < cnt; ++i) { LD z = got[i], v = ((co[3] * z + co[2]) * z + co[1]) * z + co[0], s = std::fabs(co[3] * z * z * z) + std::fabs(co[2] * z * z) + std::fabs(co[1] * z) + std::fabs(co[0]); x.count("roots"); if (!std::isfinite(got[i]) || std::fabs(v) > 1e-6L * s + 1e-13L * S0) { x.fail("equation", fmt("%.17g is no root (residual %.3Lg of %.3Lg) ", got[i], v, s) + what); return; } }
    if (!sep) { x.count("equations_with_close_roots"); for (size_t w = 0; w < want.size(); ++w) { double z = want[w], gap = 1e300; for (size_t v = 0; v < want.size(); ++v) if (v != w) gap = std::min(gap, std::fabs(want[v] - z)); if (gap < 1e-2 * mag) continue; // a multiple root may turn into none
        bool ok = false; for (int i = 0; i < cnt; ++i) ok |= std::fabs(got[i] - z) <= 1e-6 * mag; if (!ok) { x.fail("equation", fmt("root %.17g not found:", z) + g + " of " + what); return; } } continue; }
    if (complexp) { x.count("equations_with_complex_pair"); }
    for (double z : want) { bool ok = false; for (int i = 0; i < cnt; ++i) ok |= std::fabs(got[i] - z) <= 1e-6 * std::max(mag, std::fabs(z)) + 1e-300; if (!ok) { x.fail("equation", fmt("root %.17g not found:", z) + g + " of " + what); return; } }
    if (!complexp && cnt != (int)want.size()) { x.fail("equation", fmt("%zu roots, %d reported:", want.size(), cnt) + g + " of " + what); return; } }
}
static void c14(Ctx& x) { if (x.index % 2) c14_bezier(x); else c14_equations(x); x.distinct(x.index * 31 + x.seed); x.count("nontrivial"); }

// ---------------------------------------------------------------- C15
static double norm_angle(double a) { a = std::fmod(a, 2 * M_PI); if (a < 0) a += 2 * M_PI; return a; }
static bool angle_eq(double a, double b, double tol) { double d = std::fabs(norm_angle(a) - norm_angle(b)); return d <= tol || 2 * M_PI - d <= tol; }
static void c15(Ctx& x) {
  auto& r = x.rng; Frame f = frame(r); x.distinct(x.index * 31 + x.seed); x.count("nontrivial");
  for (int n = 0; n < 60 && !x.failed; ++n) {
    Pt a = f(r.u(-50, 50), r.u(-50, 50)), b = f(r.u(-50, 50), r.u(-50, 50)), c = f(r.u(-50, 50), r.u(-50, 50)); if (r.chance(.15)) b.y = a.y; if (r.chance(.15)) b.x = a.x; if (r.chance(.1)) c.y = a.y; if (r.chance(.1)) c.x = a.x; if (r.chance(.05)) c = b; double D = std::max({std::fabs(a.x), std::fabs(a.y), std::fabs(b.x), std::fabs(b.y), std::fabs(c.x), std::fabs(c.y)}); std::string what = S(a) + S(b) + S(c);
    { vec2 u = V(a), v = V(b); double k = r.u(-3, 3); x.count("vec2"); auto ok = [&](bool e, const char* w) { if (!e) x.fail("vec2", std::string(w) + " " + what + fmt(" k=%.17g", k)); return e; };
      if (!ok(P(u + v) == a + b && P(u - v) == a - b && P(u * k) == a * k && P(k * u) == a * k && P(-u) == Pt{-a.x, -a.y}, "arithmetic") || !ok(P(u / 4) == Pt{a.x / 4, a.y / 4} && P(u + k) == Pt{a.x + k, a.y + k} && P(u - k) == Pt{a.x - k, a.y - k}, "arithmetic")) return;
      if (!ok(std::fabs(u.dot(v) - dot(a, b)) <= 1e-12 * D * D && std::fabs(u.cross(v) - crs(a, b)) <= 1e-12 * D * D && std::fabs(u.dist2() - dot(a, a)) <= 1e-12 * D * D && std::fabs(u.dist() - len(a)) <= 1e-12 * D, "products")) return;
      double th = r.u(-10, 10); Pt ro = P(u.rotated(th)); if (!ok(len(ro - Pt{a.x * std::cos(th) - a.y * std::sin(th), a.x * std::sin(th) + a.y * std::cos(th)}) <= 1e-12 * D, "rotated")) return; vec2 w = u; w.rotate(th); if (!ok(P(w) == ro, "rotate")) return; Pt nn = P(u.normalization()); if (!ok(std::fabs(len(nn) - 1) < 1e-12 && len(nn * len(a) - a) <= 1e-11 * D, "normalization")) return; w = u; w.normalizate(); if (!ok(P(w) == nn, "normalizate")) return; if (!ok((u == v) == (a == b) && (u != v) == (a != b) && u == V(a), "equality")) return; }
    { rmath::rect q = rmath::rect::from({V(a), V(b), V(c)}); Pt lo{std::min({a.x, b.x, c.x}), std::min({a.y, b.y, c.y})}, hi{std::max({a.x, b.x, c.x}), std::max({a.y, b.y, c.y})}; x.count("rect"); if (P(q.min) != lo || P(q.max) != hi) { x.fail("rect", "from " + what); return; } if (q.width() != hi.x - lo.x || q.height() != hi.y - lo.y || len(P(q.center()) - (lo + hi) * .5) > 1e-12 * D) { x.fail("rect", "size or centre " + what); return; } double k = f.k * r.u(0, 5); auto i = q.inflated(k); if (P(i.min) != Pt{lo.x - k, lo.y - k} || P(i.max) != Pt{hi.x + k, hi.y + k}) { x.fail("rect", "inflated " + what); return; } rmath::rect s(V(a), k); if (P(s.min) != Pt{a.x - k, a.y - k} || P(s.max) != Pt{a.x + k, a.y + k}) { x.fail("rect", "point with offset " + what); return; }
      // overlap of closed boxes, with exact touching on a small grid
      auto G = [&] { return (double)r.i(0, 6); }; double v[8]; for (auto& z : v) z = G(); rmath::rect A(vec2(std::min(v[0], v[1]), std::min(v[2], v[3])), vec2(std::max(v[0], v[1]), std::max(v[2], v[3]))), C(vec2(std::min(v[4], v[5]), std::min(v[6], v[7])), vec2(std::max(v[4], v[5]), std::max(v[6], v[7]))); bool e = std::max(A.min.x, C.min.x) <= std::min(A.max.x, C.max.x) && std::max(A.min.y, C.min.y) <= std::min(A.max.y, C.max.y); x.count(e ? "rect_meet" : "rect_apart"); if (A.intersect(C) != e || C.intersect(A) != e) { x.fail("rect", fmt("intersect of [%g,%g]x[%g,%g] and [%g,%g]x[%g,%g] should be %d", A.min.x, A.max.x, A.min.y, A.max.y, C.min.x, C.max.x, C.min.y, C.max.y, e)); return; } }
    { rmath::rect one(V(a)), two = rmath::rect::from({V(a), V(b)}), solo = rmath::rect::from({V(c)}); if (P(one.min) != a || P(one.max) != a || P(solo.min) != c || P(solo.max) != c || P(two.min) != Pt{std::min(a.x, b.x), std::min(a.y, b.y)} || P(two.max) != Pt{std::max(a.x, b.x), std::max(a.y, b.y)}) { x.fail("rect", "of one or two points " + what); return; } double k = f.k * r.u(-1, 5); auto i = solo.inflated(k); if (P(i.min) != Pt{c.x - k, c.y - k} || P(i.max) != Pt{c.x + k, c.y + k}) { x.fail("rect", "inflated point " + what); return; }
      double g = rmath::dist2_point_line(V(c), V(a), V(a)), d = dot(c - a, c - a); x.count("dist2_to_a_point"); if (!(std::fabs(g - d) <= 1e-12 * D * D)) { x.fail("dist2_point_line", fmt("%.17g, expected %.17g, line without direction ", g, d) + what); return; } }
    { Pt u{(double)r.i(-50, 50), (double)r.i(-50, 50)}, v{(double)r.i(-50, 50), (double)r.i(-50, 50)}; if (u != v) for (Pt e : {u, v}) { Pt q = e + Pt{u.y - v.y, v.x - u.x} * (double)r.i(-3, 3); x.count("projects_on_an_end"); if (!rmath::point_project_in_segment(V(q), V(u), V(v))) { x.fail("point_project_in_segment", "a point that projects exactly on an end: " + S(q) + S(u) + S(v)); return; } } }
    if (a != b) { double L = len(b - a), d = std::fabs(crs(b - a, c - a)) / L, g = rmath::dist2_point_line(V(c), V(a), V(b)); x.count("dist2_point_line"); if (!(std::fabs(std::sqrt(g) - d) <= 1e-9 * D + 1e-12 * D * D / L)) { x.fail("dist2_point_line", fmt("%.17g, expected %.17g ", g, d * d) + what); return; } double t = dot(c - a, b - a) / (L * L); if (std::fabs(t) > 1e-9 && std::fabs(t - 1) > 1e-9) { x.count(t < 0 ? "projects_before" : t > 1 ? "projects_after" : "projects_inside"); if (rmath::point_project_in_segment(V(c), V(a), V(b)) != (t > 0 && t < 1)) { x.fail("point_project_in_segment", fmt("projection parameter %.17g ", t) + what); return; } }
      rmath::line l{V(a), V(b)}; double A, Bq, C; l.general_from(&A, &Bq, &C); x.count("general_from"); double nm = std::hypot(A, Bq); auto off = [&](Pt z) { return std::fabs((double)((LD)A * z.x + (LD)Bq * z.y + C)) / nm; }; if (!(nm > 0) || off(a) > 1e-9 * D + 1e-13 * D * D / L || off(b) > 1e-9 * D + 1e-13 * D * D / L) { x.fail("general_from", fmt("%.17g x + %.17g y + %.17g = 0 ", A, Bq, C) + what); return; } if (std::fabs(off(c) - d) > 1e-8 * D + 1e-12 * D * D / L) { x.fail("general_from", "distance of a third point " + what); return; } }
    { double v; switch (r.i(0, 5)) { case 0: v = r.u(-7, 7); break; case 1: v = r.u(-1000, 1000); break; case 2: v = r.i(-8, 8) * rmath::pi / 2; break; case 3: v = -std::pow(10, r.u(-30, -10)); break; case 4: v = r.i(-5, 5) * 2 * rmath::pi + (r.coin() ? 1 : -1) * std::pow(10, r.u(-20, -1)); break; default: v = -0.0; } double g = rmath::clamp_0_2pi(v); x.count("clamp_0_2pi"); if (!(g >= 0 && g < 2 * rmath::pi)) { x.fail("clamp_0_2pi", fmt("clamp_0_2pi(%.17g) = %.17g is outside [0,2pi)", v, g)); return; } double df = std::remainder(g - v, 2 * rmath::pi); if (std::fabs(df) > 1e-12 * (1 + std::fabs(v))) { x.fail("clamp_0_2pi", fmt("clamp_0_2pi(%.17g) = %.17g is a different angle", v, g)); return; } }
    { double sw; switch (r.i(0, 3)) { case 0: sw = r.u(-7, 7); break; case 1: sw = r.i(-4, 4) * rmath::pi / 2; break; case 2: sw = r.u(-1, 1); break; default: sw = r.u(-20, 20); } Pt ce = c, st = a; if (r.chance(.3)) { double R = f.k * r.u(1, 40); int q = r.i(0, 3); st = ce + Pt{q == 0 ? R : q == 1 ? -R : 0, q == 2 ? R : q == 3 ? -R : 0}; } double R = len(st - ce); if (R < 1e-6 * D) continue; rmath::arc k(V(st), V(ce), sw); std::string w = "arc start " + S(st) + " centre " + S(ce) + fmt(" sweep %.17g", sw); x.count("arcs"); double at = 1e-13 * D / R + 1e-12 + 1e-15 * std::fabs(sw);
      double s0 = std::atan2(st.y - ce.y, st.x - ce.x); Pt en{ce.x + R * std::cos(s0 + sw), ce.y + R * std::sin(s0 + sw)};
      auto chk = [&](const rmath::arc& q, Pt s, Pt e, double sweep, double sa, double ea, const char* nm) { if (len(P(q.start()) - s) > 1e-12 * D + R * at || len(P(q.end()) - e) > 1e-12 * D + R * at) { x.fail("arc", std::string(nm) + fmt(": ends (%.17g,%.17g) (%.17g,%.17g) ", q.start().x, q.start().y, q.end().x, q.end().y) + w); return false; } if (P(q.center()) != ce || std::fabs(q.radius() - R) > 1e-12 * R + 1e-15 * D || q.sweep_rad() != sweep) { x.fail("arc", std::string(nm) + ": centre, radius or sweep " + w); return false; } if (!(q.start_rad() >= 0 && q.start_rad() < 2 * rmath::pi && q.end_rad() >= 0 && q.end_rad() < 2 * rmath::pi) || !angle_eq(q.start_rad(), sa, 1e-9 + 10 * at) || !angle_eq(q.end_rad(), ea, 1e-9 + 10 * at)) { x.fail("arc", std::string(nm) + fmt(": start angle %.17g end angle %.17g ", q.start_rad(), q.end_rad()) + w); return false; } return true; };
      if (!chk(k, st, en, sw, s0, s0 + sw, "arc") || !chk(k.reverse(), en, st, -sw, s0 + sw, s0, "reverse") || !chk(k.reverse().reverse(), st, en, sw, s0, s0 + sw, "reverse twice")) return; }
  }
}
static drv::Reg r13("C13", c13), r14("C14", c14), r15("C15", c15);
