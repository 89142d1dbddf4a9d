// C10: every call comes back, with an amount of work that the size of the
// drawing bounds. Work is counted in executed basic-block edges of the library.
#include "clip.h"

static uint64_t steps_of(Ctx& x, const Shape& s, const Shape& c, int op, int fr, int style, uint64_t limit) { drv::step_reset(limit); run_lib(s, c, op, fr, style); uint64_t n = drv::step_count(); drv::step_off(); x.count("process_calls"); x.count("steps", (long)n); return n; }
static double size_of(const Shape& s, const Shape& c) { std::vector<Edge> e; edges_of(s, 0, e); edges_of(c, 1, e); return (double)e.size(); }

// ---- families that grow: n edges, a known number of crossings ---------------
// line drawings; returns a nominal count of crossings
static const int N_GROW = 10;
static double grow(drv::Rng& r, int fam, int n, Shape& s, Shape& c) {
  auto ring = [&](int m, Pt o, double R, double ph) { std::vector<Pt> v; for (int i = 0; i < m; ++i) v.push_back({o.x + R * std::cos(ph + 2 * M_PI * i / m), o.y + R * std::sin(ph + 2 * M_PI * i / m)}); return gen::poly(v); };
  switch (fam) {
    case 0: s.push_back(ring(n, {50, 50}, 40, r.u(0, 6))); c.push_back(ring(n, {55, 52}, 40, r.u(0, 6))); return 4;                               // two many-sided discs
    case 1: { int m = std::max(1, n / 4); for (int i = 0; i < m; ++i) { s.push_back(gen::rect(i * 10, r.u(0, 3), i * 10 + 7, 20, false)); c.push_back(gen::rect(i * 10 + 3, 10, i * 10 + 9, 30 + r.u(0, 3), false)); } return 2. * m; } // a row of pairs
    case 2: { int m = std::max(1, n / 4); for (int i = 0; i < m; ++i) { s.push_back(gen::rect(r.u(0, 3), i * 10, 20, i * 10 + 7, false)); c.push_back(gen::rect(10, i * 10 + 3, 30 + r.u(0, 3), i * 10 + 9, false)); } return 2. * m; } // a column of pairs
    case 3: { int m = std::max(2, (int)std::sqrt((double)n)); for (int i = 0; i < m; ++i) { s.push_back(gen::rect(i * 10, 0, i * 10 + 5, 10. * m, false)); c.push_back(gen::rect(-1, i * 10 + 1, 10. * m, i * 10 + 6, false)); } return 4. * m * m; } // a weave
    case 4: { std::vector<Pt> v, w; int m = std::max(2, n / 2); for (int i = 0; i < m; ++i) { v.push_back({i * 10., 0}); v.push_back({i * 10. + 5 + r.u(0, 1), 50}); } v.push_back({10. * m, -20}); v.push_back({-5, -20}); s.push_back(gen::poly(v)); c.push_back(gen::rect(-20, 20, 10. * m + 20, 30, false)); return 4. * m; } // a comb under a bar
    case 5: { int m = n; std::vector<Pt> v; for (int i = 0; i < m; ++i) v.push_back({r.u(0, 100), 100. * i / m}); v.push_back({200, 100}); v.push_back({200, -1}); s.push_back(gen::poly(v)); c.push_back(gen::rect(40, -5, 60, 105, false)); return 2. * m; } // a tall zigzag
    case 6: { int m = std::max(1, n / 4); double R = 50; for (int i = 0; i < m; ++i) { s.push_back(gen::rect(-R, -R, R, R, i & 1)); R *= 1 - 1. / (m + 4); } c.push_back(gen::rect(0, -60, 60, 60, false)); return 2. * m; } // nested rings
    case 7: { int m = std::max(1, n / 4); for (int i = 0; i < m; ++i) { s.push_back(gen::rect(i, 0, i + 1, 1, false)); c.push_back(gen::rect(i, 1, i + 1, 2, false)); } return m; } // touching cells
    case 8: { int m = std::max(1, n / 8); for (int i = 0; i < m; ++i) { s.push_back(gen::rect(0, 0, 10, 10, i & 1)); c.push_back(gen::rect(5, 5, 15, 15, i % 3 == 0)); } return 2. * m * m; } // the same rectangles again and again
    default: { int m = std::max(1, n / 3); for (int i = 0; i < m; ++i) { Pt o{r.u(0, 40. * std::sqrt((double)m)), r.u(0, 40. * std::sqrt((double)m))}; std::vector<Pt> v; for (int k = 0; k < 3; ++k) v.push_back(o + Pt{r.u(-20, 20), r.u(-20, 20)}); (i & 1 ? c : s).push_back(gen::poly(v)); } return 1.5 * m; } // scattered triangles
  } }


// contacts between boundary pieces, counted pair by pair with a generous margin
static double contacts(const std::vector<Edge>& es, double D) { double k = 0, m = 1e-6 * D; for (size_t i = 0; i < es.size(); ++i) for (size_t j = i + 1; j < es.size(); ++j) { auto &a = es[i], &b = es[j]; if (std::max(a.p0.x, a.p3.x) + m < std::min(b.p0.x, b.p3.x) || std::max(b.p0.x, b.p3.x) + m < std::min(a.p0.x, a.p3.x) || std::max(a.p0.y, a.p3.y) + m < std::min(b.p0.y, b.p3.y) || std::max(b.p0.y, b.p3.y) + m < std::min(a.p0.y, a.p3.y)) continue; if (seg_seg(a.p0, a.p3, b.p0, b.p3) <= m) k += 1; } return k; }
// allowances: some ten times what is measured (see maxima in the evidence)
static double allow_lines(double N) { return 10000 * (N + 4) + 40 * N * N; }
static double allow_curves(double N) { return 30000 * (N + 4) + 400 * N * N; }
static void over(Ctx& x, const char* key, double steps, double allowed, const std::string& what) { x.fail(key, fmt("%.0f steps, allowed %.0f: ", steps, allowed) + what); }

static void c10_grow(Ctx& x) { int fam = x.index % N_GROW; int n = 64 << x.rng.i(0, x.thorough ? 6 : 4); Shape s, c; double k = grow(x.rng, fam, n, s, c); int op = x.rng.i(1, 4), fr = x.rng.i(0, 3); double N = size_of(s, c) + k;
  // [linear, quadratic] allowance of each family
  static const double al[N_GROW][2] = {{1500, 0}, {3000, 15}, {3000, 15}, {2000, 2}, {2500, 5}, {2500, 3}, {2500, 35}, {2500, 5}, {2500, 3}, {2500, 15}};
  double allowed = al[fam][0] * (N + 10) + al[fam][1] * N * N; std::string what = fmt("family %d with %g edges and about %g crossings ", fam, size_of(s, c), k) + (n <= 64 ? desc(s, c, op, fr) : ""); if (x.verbose) { printf("%s\n", what.c_str()); fflush(stdout); }
  double st = steps_of(x, s, c, op, fr, x.rng.i(0, 1), (uint64_t)allowed); x.maximum(fmt("family_%d_of_allowance", fam).c_str(), st / allowed); if (x.verbose) printf("%g of %g\n", st, allowed); x.count("growing_drawings"); x.maximum("edges", size_of(s, c)); x.count("nontrivial"); x.distinct(hash(c, hash(s) * 31 + op * 4 + fr)); }

static Shape rnd_grid(drv::Rng& r, int g, int maxn, int maxc) { Shape s; for (int n = r.i(1, maxc); n--;) { s.push_back(gen::int_poly(r, r.i(1, maxn), g)); if (r.chance(.2)) s.push_back(r.coin() ? s.back() : gen::reversed(s.back())); } return s; }
static void c10_any(Ctx& x) { Shape s, c; int k = x.index % 4; bool curves = false; std::string src; double kx = 0, N;
  if (k == 0) { gen::poly_family(x.rng, x.rng.i(0, gen::N_POLY - 1), s, c); if (x.rng.coin()) gen::deg_family(x.rng, x.rng.i(0, gen::N_DEG - 1), s, c); src = "families"; }
  else if (k == 1) { int g = x.rng.i(1, 12); s = rnd_grid(x.rng, g, x.rng.i(3, 16), 4); c = rnd_grid(x.rng, g, x.rng.i(3, 16), 4); src = "grid"; }
  else if (k == 2) { Arr A; int w = x.index / 8 % 4; if (!(w == 1 ? gen_copies(x, s, c, A, x.rng.i(0, gen::N_CURVE - 1)) : w == 2 ? gen_cells(x, s, c, A) : gen_curves(x, s, c, A))) return; curves = true; kx = A.xs.size(); src = w == 1 ? "copied_curves" : w == 2 ? "curved_cells" : "curves";
    // results of a first operation have pieces of all sizes
    if (w == 3) { Shape& q = s.size() >= c.size() ? s : c; Shape u(q.begin(), q.begin() + q.size() / 2), v(q.begin() + q.size() / 2, q.end()); q = shape_of(run_lib(u, v, x.rng.i(1, 4), x.rng.i(0, 3), 0)); src = "chained_curves"; kx += 4; } }
  else { gen::deg_family(x.rng, x.rng.i(0, gen::N_DEG - 1), s, c); Shape c2 = c; gen::affine(c2, 1, {x.rng.i(0, 2) * 10., 0}); for (auto& q : c2) (x.rng.coin() ? s : c).push_back(q); src = "piles"; }
  std::vector<Edge> es; edges_of(s, 0, es); edges_of(c, 1, es); if (es.empty()) return; if (!curves) kx = contacts(es, box_of(es).D()); N = es.size() + kx * (src == "copied_curves" ? 16 : 1); double allowed = curves ? allow_curves(N) : allow_lines(N);
  int op = x.rng.i(1, 4), fr = x.rng.i(0, 3), style = x.rng.i(0, 3); std::string what = desc(s, c, op, fr); if (x.verbose) { printf("%s\n", what.c_str()); fflush(stdout); }
  double st = steps_of(x, s, c, op, fr, style, (uint64_t)allowed); x.maximum((src + "_of_allowance").c_str(), st / allowed); x.count(("drawings_" + src).c_str()); x.count("nontrivial"); x.distinct(hash(c, hash(s)));
  // a processor that is used again does not get slower, and its output does not grow
  { river::processor p; p.add_path(to_river(s), river::path_type::subject); p.add_path(to_river(c), river::path_type::clip); double first = 0; size_t ev = 0; for (int i = 0; i < 6; ++i) { Rec rec; drv::step_reset((uint64_t)(i ? 4 * first + 20000 : allowed)); p.process((river::clip_type)op, (river::fill_rule)fr, recorder(), &rec); double z = drv::step_count(); drv::step_off(); x.count("repeated_calls"); if (x.verbose) printf("call %d: %g steps, %zu events\n", i, z, rec.ev.size()); if (!i) { first = z; ev = rec.ev.size(); } else x.maximum("repeat_over_first", z / (first + 5000)); (void)ev; x.maximum("events_per_edge_and_contact", rec.ev.size() / (N + 4)); if (rec.ev.size() > 8 * N + 16) { x.fail("output-size", fmt("%zu output elements for %g edges and contacts ", rec.ev.size(), N) + what); return; } } }
  if (x.index % 499 == 3) x.sample(what); }
// no cusp, fold or loop: the parts of the curve do not come close to each other again
static bool gentle(const rmath::bezier_cubic& b) { Edge e; e.cubic = true; e.p0 = from(b.p0); e.p1 = from(b.p1); e.p2 = from(b.p2); e.p3 = from(b.p3); double L = e.ctl(); Pt u = e.p3 - e.p0; if (len(u) < .2 * L) return false; for (int k = 0; k <= 32; ++k) { Pt d = e.d(k / 32.); if (dot(d, u) < .1 * len(u) * L) return false; } return true; }
static void c10_calls(Ctx& x) { auto& r = x.rng; x.count("nontrivial"); x.distinct(x.index * 31 + x.seed);
  // text: work grows with its length
  for (int n = 0; n < 4; ++n) { std::string t; int m = 1 << r.i(0, 9); bool junk = r.chance(.2); for (int i = 0; i < m; ++i) { int q = r.i(0, 3); if (i == 0) q = 0; t += q == 0 ? fmt("m %g %g ", r.u(-9, 9), r.u(-9, 9)) : q == 1 ? fmt("c %g %g %g %g %g %g", r.u(-9, 9), r.u(-9, 9), r.u(-9, 9), r.u(-9, 9), r.u(-9, 9), r.u(-9, 9)) : fmt("l%ld %ld\n", r.i(-9, 9), r.i(-9, 9)); if (junk && r.chance(.01)) t += "?"; } if (n == 3) t = std::string(m, ' ') + t; double al = 3000 + 60. * t.size(); drv::step_reset((uint64_t)al); auto p = river::make_path(t.c_str()); x.maximum("text_of_allowance", drv::step_count() / al); drv::step_off(); x.count("texts"); Rec rec; auto f = recorder(); drv::step_reset(1000 + 100 * (uint64_t)m); for (auto& q : p) q.traverse(f, &rec); x.maximum("traverse_steps_per_element", drv::step_count() / (double)m); drv::step_off(); }
  // the two parts of a curve cut anywhere, also next to an end or at its extreme height: the work stays small
  for (int n = 0; n < 40; ++n) { double e = r.u(-4, 4); auto pt = [&] { return rmath::vec2(r.u(-1, 1) * std::pow(10, e), r.u(-1, 1) * std::pow(10, e)); }; rmath::bezier_cubic b{pt(), pt(), pt(), pt()}, l, h, q; if (!gentle(b)) continue; double t = r.coin() ? std::pow(10, r.u(-10, -.1)) : 1 - std::pow(10, r.u(-10, -.1)), t1 = -1, t2 = -1; if (r.chance(.4)) { b.split_y(&t1, &t2); if (t1 > 0 && t1 < 1) t = t1; } b.split(t, &l, &h); if (r.coin()) { double u = std::pow(10, r.u(-9, -.5)); if (r.coin()) { h.split(u, &h, &q); h = rmath::bezier_cubic{h.p0, h.p1, h.p2, h.p3}; } else { l.split(1 - u, &q, &l); } } if (r.coin()) h = rmath::bezier_cubic{h.p3, h.p2, h.p1, h.p0}; drv::step_reset(100000); volatile int z = r.coin() ? rmath::intersect(l, h, 40).count : rmath::intersect(h, l, 40).count; (void)z; x.maximum("cut_curve_steps", drv::step_count()); drv::step_off(); x.count("cut_curves"); }
  // a long and a short curve that leave one common point in different directions
  for (int n = 0; n < 20; ++n) { double sc = std::pow(10, r.u(-3, 3)), q = sc * std::pow(10, -r.u(0, 8)), a = r.u(0, 6.283), d = r.u(.3, 2.8) * (r.coin() ? 1 : -1), f = std::pow(10, -r.u(0, 9)); rmath::vec2 o = r.coin() ? rmath::vec2(0, 0) : rmath::vec2(r.u(-9, 9), r.u(-9, 9)); if (r.chance(.4)) d = -a; auto ray = [&](double g, double l, double bend) { return rmath::vec2(o.x + l * std::cos(g) - bend * std::sin(g), o.y + l * std::sin(g) + bend * std::cos(g)); }; rmath::bezier_cubic u{o, ray(a, sc / 3, .02 * sc), ray(a, 2 * sc / 3, .05 * sc), ray(a, sc, r.u(-.1, .1) * sc)}, v{o, ray(a + d, q / 3, .02 * q * f), ray(a + d, 2 * q / 3, .05 * q * f), ray(a + d, q, r.u(-.1, .1) * q * f)}; if (std::fabs(std::sin(d)) < .2) continue; if (r.coin()) u = {u.p3, u.p2, u.p1, u.p0}; if (r.coin()) v = {v.p3, v.p2, v.p1, v.p0}; drv::step_reset(100000); volatile int z = r.coin() ? rmath::intersect(u, v, 40).count : rmath::intersect(v, u, 40).count; (void)z; x.maximum("short_curve_steps", drv::step_count()); drv::step_off(); x.count("short_curves"); }
  // rmath: constant work whatever the numbers are
  for (int n = 0; n < 100; ++n) { double e = r.chance(.3) ? r.u(-100, 100) : r.u(-4, 4); bool grid = r.chance(.3); auto co = [&] { return grid ? (double)r.i(-4, 4) : r.u(-1, 1) * std::pow(10, e); }; auto pt = [&] { return rmath::vec2(co(), co()); }; rmath::bezier_cubic b{pt(), pt(), pt(), pt()}; drv::step_reset(2000); double t1, t2; volatile int z = b.split_y(&t1, &t2) + b.point_at_y(co()).count + rmath::resolv_quad_equa(co(), co(), co()).count + rmath::resolv_cubic_equa(co(), co(), co(), co()).count + rmath::intersect(pt(), pt(), pt(), pt()).count + rmath::intersect(rmath::line{pt(), pt()}, b).count; (void)z; (void)b.get_boundary(); rmath::arc a(pt(), pt(), co()); a.reverse(); rmath::clamp_0_2pi(r.u(-1e6, 1e6)); x.maximum("rmath_steps_of_2000", drv::step_count()); drv::step_off(); x.count("rmath_rounds"); } }
static void c10(Ctx& x) { uint64_t k = x.index % 8; if (k == 7) c10_calls(x); else if (k == 6) { x.index /= 8; c10_grow(x); } else c10_any(x); }
// inputs recorded in known_findings.json, always the same
static void c10_known(Ctx& x) { struct K { const char *s, *c; int op, fr; }; static const K k[] = {
    {"m 5 7 l 18 14 c 16 7 13 12 0 13", "m 18 8 c 3 14 16 13 1 5 c 16 13 13 5 1 4 m 4 12 l 7 3 l 7 20", 3, 3},
    {"m 0 0 c 0 8 8 16 16 16 l 16 0", "m 0 0 c 0 4 2 8 5 11 l 20 -2", 2, 1} };
  auto& q = k[x.index % (sizeof k / sizeof k[0])]; Shape s = shape_of(river::make_path(q.s)), c = shape_of(river::make_path(q.c)); x.count("known_inputs"); x.distinct(x.index); steps_of(x, s, c, q.op, q.fr, 0, 5000000); x.count("known_inputs_finished"); }
static drv::Reg r1("C10", c10), r2("C10.known", c10_known);
