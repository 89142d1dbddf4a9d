// Oracles over processor::process(): region, well-formedness, provenance; and
// the case generators with their general-position verdicts.
#pragma once
#include "gen.h"
#include <cmath>
using namespace geo; using drv::Ctx; using drv::fmt;

static const uint64_t BUDGET_LINES = 400000000, BUDGET_CURVES = 200000000;

struct Mon { bool region = false, form = false, prov = false, seam = false; };

static std::string desc(const Shape& s, const Shape& c, int op, int fr) { return fmt("op=%s rule=%s ", op_name[op], rule_name[fr]) + "subject[" + str(s) + "] clip[" + str(c) + "]"; }

static Rec run_lib(const Shape& s, const Shape& c, int op, int fr, int style) {
  Rec rec; river::processor p;
  switch (style) {
    case 0: p.add_path(to_river(s), river::path_type::subject); p.add_path(to_river(c), river::path_type::clip); break;
    case 1: p.add_path(read_shape, &s, river::path_type::subject); p.add_path(read_shape, &c, river::path_type::clip); break;
    case 2: p.add_path(to_river_single(c), river::path_type::clip); p.add_path(to_river_single(s), river::path_type::subject); break;
    default: for (auto& k : c) { Shape z{k}; p.add_path(to_river(z), river::path_type::clip); } for (auto& k : s) { Shape z{k}; p.add_path(read_shape, &z, river::path_type::subject); } break; }
  if (style & 1) p.process((river::clip_type)op, (river::fill_rule)fr, recorder(), &rec);
  else { river::paths o; p.process((river::clip_type)op, (river::fill_rule)fr, o); auto f = recorder(); for (auto& q : o) { q.traverse(f, &rec); } }
  return rec; }

static bool finite(Pt p) { return std::isfinite(p.x) && std::isfinite(p.y); }

// C04: the event stream is a sequence of closed contours
static bool check_form(Ctx& x, const Rec& rec, const Arr& A, const std::vector<Probe>& pr, const Region& out, int op, int fr, const std::string& what, bool from_callbacks) {
  Pt start{}, cur{}; bool open = false; size_t n = 0; Box bx = A.bx; double tol = A.D * 1e-9;
  for (auto& e : rec.ev) { x.count("events");
    if (!finite(e.to) || (e.k == 'c' && (!finite(e.a) || !finite(e.b)))) { x.fail("nonfinite", what); return false; }
    if (e.k == 'm') { if (open && cur != start) { x.fail("not-closed", fmt("contour started at (%.17g,%.17g) ends at (%.17g,%.17g) ", start.x, start.y, cur.x, cur.y) + what); return false; } if (open && n < 2) { x.fail("short-contour", what); return false; } start = cur = e.to; open = true; n = 0; continue; }
    if (!open) { x.fail("no-move", "segment before the first move " + what); return false; }
    if (from_callbacks && e.from != cur) { x.fail("chain", fmt("segment starts at (%.17g,%.17g), the previous one ended at (%.17g,%.17g) ", e.from.x, e.from.y, cur.x, cur.y) + what); return false; }
    cur = e.to; ++n;
    for (Pt p : {e.to, e.k == 'c' ? e.a : e.to, e.k == 'c' ? e.b : e.to}) if (p.x < bx.lo.x - tol || p.x > bx.hi.x + tol || p.y < bx.lo.y - tol || p.y > bx.hi.y + tol) { x.fail("outside-bounds", fmt("(%.17g,%.17g) ", p.x, p.y) + what); return false; } }
  if (open && cur != start) { x.fail("not-closed", "last contour " + what); return false; }
  if (open && n < 2) { x.fail("short-contour", what); return false; }
  int sign = fr == (int)river::fill_rule::negative ? -1 : 1;
  for (auto& q : pr) { int w = out.wn(q.q); x.count("winding_probes"); if (w != 0 && w != sign) { x.fail("winding", fmt("winding number %d at (%.17g,%.17g) ", w, q.q.x, q.q.y) + what); return false; } }
  return true; }

// distance to a cubic: every local minimum of 96 samples is refined
static double dist_cubic(Pt q, const Edge& e) { const int N = 96; double d[N + 1], best = 1e300; for (int i = 0; i <= N; ++i) { d[i] = len(e.at(i / (double)N) - q); best = std::min(best, d[i]); }
  const double L = e.ctl() * 3.0 / N; double lim = best + L;
  for (int i = 0; i <= N; ++i) { if (d[i] > lim || (i > 0 && d[i - 1] < d[i]) || (i < N && d[i + 1] < d[i])) continue; double lo = std::max(0., (i - 1.) / N), hi = std::min(1., (i + 1.) / N); for (int k = 0; k < 45; ++k) { double m1 = lo + (hi - lo) * .382, m2 = lo + (hi - lo) * .618; if (len(e.at(m1) - q) < len(e.at(m2) - q)) hi = m2; else lo = m1; } best = std::min(best, len(e.at((lo + hi) / 2) - q)); }
  return best; }

// C05: output geometry is input geometry; curves stay the same curves
static bool check_prov(Ctx& x, const std::vector<Edge>& oes, const Arr& A, const std::string& what, const std::string& kp = "") {
  const double tl = 1e-9 * A.D, tc = 1e-9 * A.D; const double ts[] = {0, .13, .37, .5, .71, .92, 1};
  for (auto& o : oes) { x.count("output_pieces");
    if (!o.cubic) { bool ok = false; // on one input edge, or (axis-parallel overlaps) every sample on some input edge
      for (auto& e : A.es) { bool flat = e.cubic && e.p0.y == e.p1.y && e.p1.y == e.p2.y && e.p2.y == e.p3.y; if (e.cubic && !flat) continue; if (pt_seg(o.p0, e.p0, e.p3) <= tl && pt_seg(o.p3, e.p0, e.p3) <= tl) { ok = true; break; } }
      if (!ok) { ok = true; for (double t : ts) { Pt q = o.at(t); bool on = false; for (auto& e : A.es) if (!e.cubic && pt_seg(q, e.p0, e.p3) <= tl) { on = true; break; } if (!on) { ok = false; break; } } }
      if (!ok) { x.fail(kp + "line-provenance", fmt("output line (%.17g,%.17g)-(%.17g,%.17g) is not part of the input boundary ", o.p0.x, o.p0.y, o.p3.x, o.p3.y) + what); return false; } }
    else { x.count("output_curves"); bool ok = false; for (auto& e : A.es) { if (!e.cubic) continue; bool on = true; double w = 0; for (double t : ts) { double dd = dist_cubic(o.at(t), e); w = std::max(w, dd); if (dd > tc) { on = false; break; } } if (on) { ok = true; x.maximum("curve_deviation_rel", w / A.D); break; } }
      if (!ok) { x.fail(kp + "curve-provenance", fmt("output curve (%.17g,%.17g) (%.17g,%.17g) (%.17g,%.17g) (%.17g,%.17g) is not a sub-arc of an input curve ", o.p0.x, o.p0.y, o.p1.x, o.p1.y, o.p2.x, o.p2.y, o.p3.x, o.p3.y) + what); return false; } } }
  return true; }

// C18: every output piece has filled on one side and empty on the other
static bool check_seam(Ctx& x, const std::vector<Edge>& oes, const Region& R, const Arr& A, const std::string& what) {
  const double same = 1e-9 * A.D; // pieces closer than this are the same piece
  for (auto& o : oes) for (double t : {.4873, .1713, .8291}) { Pt m = o.at(t), d = o.d(t); double l = len(d); if (l == 0) continue; Pt u = d * (1 / l), n{-u.y, u.x}; double gap = 1e-3 * A.D;
    // distance along the normal to the nearest other piece; none where another piece runs through the point itself
    for (auto& e : oes) { const int N = e.cubic ? 48 : 1; auto side = [&](double v) { return dot(e.at(v) - m, u); }; double f0 = side(0);
      for (int i = 0; i < N; ++i) { double v0 = i / (double)N, v1 = (i + 1.) / N, f1 = side(v1); if ((f0 <= 0) != (f1 <= 0)) { double a = v0, b = v1, fa = f0; for (int k = 0; k < 60; ++k) { double q = (a + b) / 2, fq = side(q); if ((fq <= 0) == (fa <= 0)) { a = q; fa = fq; } else b = q; } double off = std::fabs(dot(e.at((a + b) / 2) - m, n)); if (off > same) gap = std::min(gap, off); else { Pt w = e.d((a + b) / 2); if (std::fabs(crs(u, w)) > 1e-3 * len(w)) gap = 0; } } f0 = f1; } }
    double dd = gap / 2, need = A.curves ? 2e-5 * A.f * A.D : 2 * same; if (dd < need) { x.count("sides_too_close"); continue; }
    int wa = R.wn(m + n * dd), wb = R.wn(m - n * dd); x.count("sides_compared"); if ((wa != 0) == (wb != 0)) { x.fail("seam", fmt("output piece at (%.17g,%.17g) has winding %d on one side and %d on the other (distance %g) ", m.x, m.y, wa, wb, dd) + what); return false; } }
  return true; }

// again: the windings of the probes are those of s and c, not of the drawing A was made from
static void check_case(Ctx& x, const Shape& s, const Shape& c, const Arr& A, Mon m, bool all_combos, bool again = false) {
  auto probes = make_probes(A, x.rng, 40);
  if (again) { Region S, C; std::vector<Edge> a, b; edges_of(s, 0, a); edges_of(c, 1, b); const int N = A.f < 1 ? 1440 : 360; S.add(a, N); C.add(b, N); for (auto& p : probes) { p.ws = S.wn(p.q); p.wc = C.wn(p.q); } } x.count("geometries"); x.count("crossings", A.xs.size());
  x.maximum("edges", A.es.size());
  bool nontriv = A.mixed > 0; uint64_t h = hash(c, hash(s) * 31 + 7);
  int first = x.rng.i(0, 15);
  for (int k = 0; k < 16 && !x.failed; ++k) { if (!all_combos && k >= 4) break; int kk = (first + k * 5) % 16; int op = 1 + kk % 4, fr = kk / 4; int style = x.rng.i(0, 3);
    std::string what = x.verbose ? "" : desc(s, c, op, fr) + fmt(" style=%d", style);
    if (x.verbose) { printf("%s style %d\n", desc(s, c, op, fr).c_str(), style); fflush(stdout); }
    drv::step_reset(A.curves ? BUDGET_CURVES : A.es.size() > 400 ? 10 * BUDGET_LINES : BUDGET_LINES);
    Rec rec = run_lib(s, c, op, fr, style);
    x.maximum(A.curves ? "steps_curves" : "steps_lines", (double)drv::step_count()); drv::step_off();
    x.count("process_calls"); Shape os = shape_of(rec); if (x.verbose) printf("  out: %s\n", str(os).c_str());
    std::vector<Edge> oes; edges_of(os, 0, oes); Region R; R.add(oes, A.f < 1 ? 960 : 240);
    int ins = 0, outs = 0;
    if (m.region) for (auto& p : probes) { bool e = in_op(in_rule(p.ws, (river::fill_rule)fr), in_rule(p.wc, (river::fill_rule)fr), (river::clip_type)op); int w = R.wn(p.q); bool g = in_rule(w, (river::fill_rule)fr); (e ? ins : outs)++; x.count("region_probes"); if (e != g) { x.fail("region", fmt("point (%.17g,%.17g): subject winding %d, clip winding %d, expected %s, output winding %d ", p.q.x, p.q.y, p.ws, p.wc, e ? "inside" : "outside", w) + what + " output[" + str(os) + "]"); break; } }
    if (m.region && ins && outs) x.count("calls_with_inside_and_outside");
    if (m.form) check_form(x, rec, A, probes, R, op, fr, what + " output[" + str(os) + "]", style & 1);
    // the boundary of the result is made of input boundary, much closer than probes can tell
    if (m.prov || m.region) { check_prov(x, oes, A, what + " output[" + str(os) + "]", m.prov ? "" : "boundary-"); if (m.prov && !oes.empty()) nontriv = true; }
    if (m.seam) { check_seam(x, oes, R, A, what + " output[" + str(os) + "]"); if (!oes.empty()) nontriv = true; }
  }
  if (nontriv) { x.count("nontrivial"); x.distinct(h); if (x.index % 97 == 3) x.sample("subject[" + str(s) + "] clip[" + str(c) + "]"); }
}

// place the nominal 0..100 drawing somewhere else in the plane
static void place(Ctx& x, Shape& s, Shape& c, bool pow2) { int k = x.rng.i(0, 5); double sc = 1; Pt off{0, 0}; if (k == 1) sc = pow2 ? std::ldexp(1, x.rng.i(-8, 14)) : std::pow(10, x.rng.u(-2, 4)); if (k == 2) off = pow2 ? Pt{(double)x.rng.i(-1000, 1000), (double)x.rng.i(-1000, 1000)} : Pt{x.rng.u(-1000, 1000), x.rng.u(-1000, 1000)}; if (k == 3) off = {-50, -50}; gen::affine(s, sc, off); gen::affine(c, sc, off); }

static bool gen_lines(Ctx& x, Shape& s, Shape& c, Arr& A, int fam = -1) { for (int t = 0; t < 50; ++t) { s.clear(); c.clear(); int f = fam >= 0 ? fam : (int)((x.index + t) % gen::N_POLY); gen::poly_family(x.rng, f, s, c); place(x, s, c, false); gen::present(x.rng, s); gen::present(x.rng, c); A = arrange(s, c, 0); if (A.es.empty()) continue; if (A.generic) { x.count(fmt("family_poly_%d", f).c_str()); return true; } x.count("rejected_not_general"); if (x.verbose) printf("reject fam %d: %s\n", f, A.why); } return false; }
static bool gen_deg(Ctx& x, Shape& s, Shape& c, Arr& A, int fam = -1) { for (int t = 0; t < 200; ++t) { s.clear(); c.clear(); int f = fam >= 0 ? fam : (int)(x.index % gen::N_DEG); gen::deg_family(x.rng, f, s, c); place(x, s, c, true); if (x.rng.coin()) { gen::present(x.rng, s); gen::present(x.rng, c); } int al = ALLOW_HV_TOUCH | ALLOW_COINCIDENT | ALLOW_YTIES; A = arrange(s, c, al); if (A.es.empty()) continue; if (A.generic) { x.count(fmt("family_deg_%d", f).c_str()); return true; } x.count("rejected_not_exact"); if (x.verbose) printf("reject fam %d: %s\n", f, A.why); } return false; }
static bool gen_curves(Ctx& x, Shape& s, Shape& c, Arr& A, int fam = -1, double fine = 1) { for (int t = 0; t < 60; ++t) { s.clear(); c.clear(); int f = fam >= 0 ? fam : (int)((x.index) % gen::N_CURVE); gen::curve_family(x.rng, f, s, c); int k = x.rng.i(0, 4); if (k == 1) { double sc = std::pow(10, x.rng.u(-4, 4)); gen::affine(s, sc, {0, 0}); gen::affine(c, sc, {0, 0}); } if (k == 2) { Pt o{x.rng.u(-300, 300), x.rng.u(-300, 300)}; gen::affine(s, 1, o); gen::affine(c, 1, o); } A = arrange(s, c, 0, fine); if (A.es.empty()) continue; if (A.generic) { x.count(fmt("family_curve_%d", f).c_str()); if (fine < 1) x.count("fine_margins"); return true; } x.count("rejected_not_general"); if (x.verbose) printf("reject fam %d: %s\n", f, A.why); } return false; }

// the same closed contour, started elsewhere, closed explicitly or not, with null segments
static Contour represent(Rng& r, Contour k) {
  Pt last = k.segs.empty() ? k.start : k.segs.back().c; if (k.segs.empty()) return k;
  if (last != k.start) k.segs.push_back({'l', {}, {}, k.start});
  size_t n = k.segs.size(); size_t sh = r.i(0, n - 1); if (sh) { k.start = k.segs[sh - 1].c; std::rotate(k.segs.begin(), k.segs.begin() + sh, k.segs.end()); }
  if (k.segs.back().k == 'l' && k.segs.size() > 1 && r.coin()) k.segs.pop_back();
  if (r.chance(.3)) { size_t i = r.i(0, k.segs.size() - 1); k.segs.insert(k.segs.begin() + i + 1, {'l', {}, {}, k.segs[i].c}); }
  return k; }

// Contours of a curved drawing in general position, each used any number of times, in either direction, by either operand.
static bool gen_copies(Ctx& x, Shape& s, Shape& c, Arr& A, int fam) { Shape a, b; if (!gen_curves(x, a, b, A, fam)) return false; for (auto& k : b) a.push_back(k); s.clear(); c.clear();
  for (auto& k : a) for (Shape* o : {&s, &c}) for (int n = x.rng.i(0, 5) - 2; n > 0; --n) { Contour z = x.rng.chance(.4) ? gen::reversed(k) : k; if (x.rng.coin()) z = represent(x.rng, z); o->push_back(z); }
  for (Shape* o : {&s, &c}) for (size_t i = o->size(); i > 1; --i) std::swap((*o)[i - 1], (*o)[x.rng.i(0, i - 1)]);
  A.mixed = !s.empty() && !c.empty(); x.count("curve_copies"); return true; }

// Adjacent cells with common curved (and some straight) borders, like a jigsaw or a map, and a free shape across them.
static bool gen_cells(Ctx& x, Shape& s, Shape& c, Arr& A) {
  for (int t = 0; t < 60; ++t) { Rng& r = x.rng; int n = r.i(1, 3), m = r.i(1, 3); if (n * m < 2) continue; double w = 100. / n, h = 100. / m, pc = r.coin() ? 1 : r.u(.3, 1), am = r.u(.05, .3), jit = r.coin() ? 0 : r.u(.02, .15);
    std::vector<std::vector<Pt>> g(n + 1, std::vector<Pt>(m + 1)); double sh = r.coin() ? 0 : r.u(-.3, .3); for (int i = 0; i <= n; ++i) for (int j = 0; j <= m; ++j) { g[i][j] = {w * i + sh * h * j + r.u(-jit, jit) * w, h * j - sh * w * i + r.u(-jit, jit) * h}; }
    Shape es; // every border once, as an open contour
    auto border = [&](Pt a, Pt b) { Contour k; k.start = a; if (!r.chance(pc)) k.segs.push_back({'l', {}, {}, b}); else { Pt v = b - a, q{-v.y, v.x}; double e = am * r.u(.6, 1) * (r.coin() ? 1 : -1), e2 = r.coin() ? e : -e; k.segs.push_back({'c', a + v * r.u(.2, .45) + q * e, b - v * r.u(.2, .45) + q * e2, b}); } es.push_back(k); return k; };
    std::vector<std::vector<Contour>> H(n, std::vector<Contour>(m + 1)), V(n + 1, std::vector<Contour>(m)); for (int i = 0; i < n; ++i) for (int j = 0; j <= m; ++j) H[i][j] = border(g[i][j], g[i + 1][j]); for (int i = 0; i <= n; ++i) for (int j = 0; j < m; ++j) V[i][j] = border(g[i][j], g[i][j + 1]);
    Shape free; if (r.chance(.6)) free.push_back(r.coin() ? gen::blob(r, r.i(3, 5)) : r.coin() ? gen::random_poly(r, r.i(3, 5)) : gen::circle({r.u(20, 80), r.u(20, 80)}, r.u(10, 40), r.u(10, 40), r.u(0, 6), r.coin()));
    int k = r.i(0, 3); double sc = k == 1 ? std::pow(10, r.u(-4, 4)) : 1; Pt off = k == 2 ? Pt{r.u(-300, 300), r.u(-300, 300)} : Pt{0, 0};
    A = Arr(); A.curves = true; int id = 0; Shape es2 = es, f2 = free; gen::affine(es2, sc, off); gen::affine(f2, sc, off);
    for (auto& q : es2) { Edge e; auto& z = q.segs[0]; e.cubic = z.k == 'c'; e.p0 = q.start; e.p1 = z.a; e.p2 = z.b; e.p3 = z.c; e.poly = 0; e.contour = 1000 + id++; A.es.push_back(e); } edges_of(f2, 1, A.es);
    A.bx = box_of(A.es); A.D = A.bx.D(); arrange_curves(A, true); if (!A.generic) { x.count("rejected_cells"); if (x.verbose) printf("reject cells: %s\n", A.why); continue; }
    s.clear(); c.clear(); auto app = [](Contour& o, Contour z, bool rev) { if (rev) z = gen::reversed(z); for (auto& q : z.segs) o.segs.push_back(q); };
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { Contour o; o.start = g[i][j]; app(o, H[i][j], false); app(o, V[i + 1][j], false); app(o, H[i][j + 1], true); app(o, V[i][j], true); int kk = r.i(0, 4); for (int z = 0; z < 2; ++z) if (kk == z || kk == 2 || (kk == 3 && z == 0)) { Contour q = r.coin() ? gen::reversed(o) : o; if (r.coin()) q = represent(r, q); (z ? c : s).push_back(q); } }
    for (auto& q : free) (r.coin() ? s : c).push_back(q); gen::affine(s, sc, off); gen::affine(c, sc, off); A.mixed = !s.empty() && !c.empty(); x.count("curved_cells"); return true; }
  return false; }

