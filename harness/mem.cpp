// C09: memory safety, absence of undefined behaviour and of leaks, for every
// input with finite coordinates. Judged by the address and undefined-behaviour
// sanitizers (and valgrind); this file only supplies hostile work and the
// allocation balance.
#include "clip.h"
#include <memory>
#ifdef RV_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t live_bytes() { return __sanitizer_get_current_allocated_bytes(); }
#else
#include <malloc.h>
static size_t live_bytes() { return mallinfo2().uordblks; }
#endif

static const uint64_t SOFT = 2500000;

static double wild(drv::Rng& r, int mode) { switch (mode) {
  case 0: return (double)r.i(0, 4);
  case 1: return (double)r.i(-20, 20);
  case 2: return r.u(-100, 100);
  case 3: return r.u(-1, 1) * std::pow(10, r.u(-12, 12));
  case 4: return r.u(-1, 1) * std::pow(10, r.u(-300, 150));
  case 5: return 1e9 + r.i(0, 6);
  case 6: return r.i(0, 6) * 1e-9;
  case 7: { static const double v[] = {0., -0., 1, -1, 1e-308, 5e-324, 1e150, -1e150, .1, .2, .3, 1. / 3, 1e16, 1e16 + 2, -1e-16}; return v[r.i(0, 14)]; }
  default: return r.i(0, 8) * .5 + (r.chance(.2) ? 1e-9 * r.u(-1, 1) : 0); } }
static Shape wild_shape(drv::Rng& r, int mode, double curves, int maxc) { Shape s; for (int n = r.i(0, maxc); n--;) { Contour c; auto P = [&]() -> Pt { return {wild(r, mode), wild(r, mode)}; }; c.start = P(); Pt cur = c.start; for (int k = r.i(0, r.chance(.1) ? 24 : 7); k--;) { Pt t = P(); switch (r.i(0, 6)) { case 0: t.y = cur.y; break; case 1: t.x = cur.x; break; case 2: t = r.chance(.3) ? cur : t; break; case 3: if (r.chance(.3)) t = c.start; break; }
      if (r.chance(curves)) { Pt a = P(), b = P(); int q = r.i(0, 7); if (q == 0) a = cur; if (q == 1) b = t; if (q == 2) { a = cur; b = t; } if (q == 3) { a.y = cur.y; b.y = t.y = cur.y; } if (q == 4) { a = cur + (t - cur) * .25; b = cur + (t - cur) * .75; } c.segs.push_back({'c', a, b, t}); } else c.segs.push_back({'l', {}, {}, t}); cur = t; }
    if (r.chance(.2)) { c.segs.push_back({'l', {}, {}, c.start}); } s.push_back(c); if (r.chance(.15)) s.push_back(r.coin() ? c : gen::reversed(c)); } return s; }

static void clip_once(Ctx& x, const Shape& s, const Shape& c, int op, int fr, int style, bool twice) { Rec rec; river::processor p; if (style == 0) { p.add_path(to_river(s), river::path_type::subject); p.add_path(to_river(c), river::path_type::clip); } else if (style == 1) { p.add_path(read_shape, &s, river::path_type::subject); p.add_path(read_shape, &c, river::path_type::clip); } else { p.add_path(to_river_single(c), river::path_type::clip); for (auto& k : s) { Shape z{k}; p.add_path(to_river(z), river::path_type::subject); } }
  for (int k = 0; k < (twice ? 2 : 1); ++k) { if (style == 1) p.process((river::clip_type)op, (river::fill_rule)fr, recorder(), &rec); else { river::paths o; p.process((river::clip_type)op, (river::fill_rule)fr, o); auto f = recorder(); for (auto& q : o) q.traverse(f, &rec); } op = 1 + op % 4; } x.count("process_calls", twice ? 2 : 1); x.count("output_events", rec.ev.size()); }

static void c09_clip(Ctx& x) {
  auto& r = x.rng; int k = r.i(0, 3); Shape s, c; std::string src; bool curves = false;
  if (k == 0) { int f = r.i(0, 2); src = fmt("family %d", f); if (f == 0) gen::poly_family(r, r.i(0, gen::N_POLY - 1), s, c); else if (f == 1) gen::deg_family(r, r.i(0, gen::N_DEG - 1), s, c); else gen::curve_family(r, r.i(0, gen::N_CURVE - 1), s, c); }
  else if (k == 1) { int m = r.i(0, 8); src = fmt("lines mode %d", m); s = wild_shape(r, m, 0, 3); c = wild_shape(r, m, 0, 3); }
  else if (k == 2) { int m = r.i(0, 8); src = fmt("curves mode %d", m); s = wild_shape(r, m, .4, 2); c = wild_shape(r, m, .4, 2); }
  else { int m = r.i(0, 8); src = fmt("copies mode %d", m); s = wild_shape(r, m, r.chance(.3) ? .3 : 0, 3); c = s; for (auto& q : c) if (r.coin()) q = gen::reversed(q); if (r.coin()) gen::affine(c, 1, {wild(r, m), 0}); }
  for (Shape* z : {&s, &c}) for (auto& q : *z) { auto fix = [](Pt& p) { if (!std::isfinite(p.x)) p.x = 0; if (!std::isfinite(p.y)) p.y = 0; }; fix(q.start); for (auto& g : q.segs) { fix(g.a); fix(g.b); fix(g.c); if (g.k == 'c') curves = true; } }
  if (x.verbose) { printf("%s %s\n", src.c_str(), desc(s, c, 0, 0).c_str()); fflush(stdout); }
  x.count(("src_" + src).c_str()); x.count(curves ? "with_curves" : "lines_only"); x.distinct(hash(c, hash(s))); x.count("nontrivial"); if (x.index % 997 == 5) x.sample(desc(s, c, 1, 0));
  for (int n = 0; n < 3; ++n) { drv::step_reset_soft(SOFT); clip_once(x, s, c, r.i(0, 4), r.i(0, 3), r.i(0, 2), r.chance(.3)); drv::step_off(); }
  // allocation balance: after a warm-up, the same call leaves nothing behind
  { int op = r.i(1, 4), fr = r.i(0, 3), st = r.i(0, 2); bool tw = r.coin(); drv::step_reset_soft(SOFT); auto once = [&] { Ctx y; clip_once(y, s, c, op, fr, st, tw); }; once(); once(); size_t a = live_bytes(); once(); size_t b = live_bytes(); once(); size_t d = live_bytes(); drv::step_off(); x.count("allocation_balances"); if (b > a && d > b) x.fail("leak", fmt("every call leaves memory behind: %zu then %zu bytes; ", b - a, d - b) + desc(s, c, op, fr)); }
}
static void c09_life(Ctx& x) {
  auto& r = x.rng; x.distinct(x.index * 31 + x.seed); x.count("nontrivial"); x.count("lifecycles");
  auto work = [&](uint64_t seed) { drv::Rng q(seed); std::vector<std::unique_ptr<river::processor>> ps; std::vector<river::paths> outs; drv::step_reset_soft(SOFT * 4);
    for (int n = 0; n < 25; ++n) { switch (q.i(0, 6)) { case 0: ps.emplace_back(new river::processor); x.count("processors"); break; case 1: if (!ps.empty()) { ps.erase(ps.begin() + q.i(0, ps.size() - 1)); } break;
        case 2: if (!ps.empty()) { Shape s = wild_shape(q, q.i(0, 2), .2, 2); auto in = to_river(s); ps.back()->add_path(in, q.coin() ? river::path_type::clip : river::path_type::subject); } break;
        case 3: if (!ps.empty()) { river::paths none; ps.back()->add_path(none, river::path_type::subject); river::paths e; e.emplace_back(); e.emplace_back(); e[0].moveto(1, 2); ps.back()->add_path(e, river::path_type::clip); } break;
        case 4: if (!ps.empty()) { outs.emplace_back(); ps[q.i(0, ps.size() - 1)]->process((river::clip_type)q.i(0, 4), (river::fill_rule)q.i(0, 3), outs.back()); x.count("process_calls"); } break;
        case 5: if (!outs.empty() && !ps.empty()) { auto& o = outs[q.i(0, outs.size() - 1)]; ps[q.i(0, ps.size() - 1)]->add_path(o, river::path_type::subject); x.count("outputs_fed_back"); } break;
        default: if (outs.size() > 1) { std::swap(outs[0], outs.back()); outs.pop_back(); } river::path a; a.moveto(0, 0); a.lineto(1, 1); river::path b(std::move(a)); a.moveto(2, 2); river::paths v; v.push_back(std::move(b)); v.push_back(std::move(a)); outs.push_back(std::move(v)); } } drv::step_off(); };
  for (int n = 0; n < 3; ++n) { uint64_t s = r.next(); work(s); work(s); size_t a = live_bytes(); work(s); size_t b = live_bytes(); work(s); size_t d = live_bytes(); x.count("allocation_balances"); if (b > a && d > b) x.fail("leak", fmt("a closed history of processors leaves %zu, then %zu bytes behind (history seed %llu)", b - a, d - b, (unsigned long long)s)); }
}
static void c09_rmath(Ctx& x) {
  auto& r = x.rng; x.distinct(x.index * 31 + x.seed); x.count("nontrivial"); volatile double sink = 0;
  for (int n = 0; n < 200; ++n) { int m = r.i(0, 8); auto pt = [&] { return rmath::vec2(wild(r, m), wild(r, m)); }; rmath::bezier_cubic b{pt(), pt(), pt(), pt()}, c{pt(), pt(), pt(), pt()}; if (r.chance(.2)) { b.p1 = b.p0; b.p2 = b.p3; } if (r.chance(.1)) b.p3 = b.p2 = b.p1 = b.p0; if (r.chance(.1)) c = b; if (r.chance(.1)) c = {b.p3, b.p2, b.p1, b.p0}; x.count("rmath_rounds");
    auto in = [&](int k, int hi, const char* w) { if (k < 0 || k > hi) x.fail("count", fmt("%s reports %d results, at most %d fit", w, k, hi)); };
    double t1 = .5, t2 = .5; in(b.split_y(&t1, &t2), 2, "split_y"); auto y = b.point_at_y(wild(r, m)); in(y.count, 3, "point_at_y"); sink = sink + b.get_boundary().min.x; { size_t k = r.i(0, 8); std::vector<double> ts(k); for (auto& t : ts) t = r.u(); std::sort(ts.begin(), ts.end()); std::vector<rmath::bezier_cubic> o(k + 1); b.split(ts.data(), o.data(), k); } { rmath::bezier_cubic o1, o2; b.split(r.u(), &o1, &o2); }
    in(rmath::resolv_quad_equa(wild(r, m), wild(r, m), wild(r, m)).count, 2, "resolv_quad_equa"); in(rmath::resolv_cubic_equa(wild(r, m), wild(r, m), wild(r, m), wild(r, m)).count, 3, "resolv_cubic_equa"); in(rmath::intersect(pt(), pt(), pt(), pt()).count, 2, "intersect(line,line)"); in(rmath::intersect(rmath::line{pt(), pt()}, b).count, 3, "intersect(line,cubic)");
    rmath::arc a(pt(), pt(), wild(r, m)); sink = sink + a.end().x + a.reverse().end_rad() + rmath::clamp_0_2pi(std::fmod(wild(r, m), 1e6)); rmath::bezier_cubic o[4]; rmath::bezier_cubic::circle(pt(), wild(r, m), o); rmath::rect q = rmath::rect::from({pt(), pt()}); sink = sink + q.intersect(rmath::rect(pt(), pt())) + rmath::dist2_point_line(pt(), pt(), pt()) + rmath::point_project_in_segment(pt(), pt(), pt()); double A, B, C; rmath::line{pt(), pt()}.general_from(&A, &B, &C); sink = sink + A; if (x.failed) return; }
  // last, because pairs of curves that nearly coincide can take for ever
  for (int n = 0; n < 12; ++n) { int m = r.i(0, 8); auto pt = [&] { return rmath::vec2(wild(r, m), wild(r, m)); }; rmath::bezier_cubic b{pt(), pt(), pt(), pt()}, c{pt(), pt(), pt(), pt()}; if (r.chance(.2)) c.p0 = b.p3; if (r.chance(.1)) c = b; drv::step_reset_soft(SOFT); int k = r.chance(.8) ? rmath::intersect(b, c).count : rmath::intersect(b, c, (int)r.i(5, 45)).count; drv::step_off(); x.count("cubic_pairs"); if (k < 0 || k > 9) { x.fail("count", fmt("intersect(cubic,cubic) reports %d results, at most 9 fit", k)); return; } }
}
static void c09_text(Ctx& x) {
  auto& r = x.rng; x.distinct(x.index * 31 + x.seed); x.count("nontrivial");
  for (int n = 0; n < 60; ++n) { std::string t; int len = r.i(0, 200); bool ascii = r.chance(.7); for (int i = 0; i < len; ++i) t += ascii ? "mlca  0123456789.-+eE\n,zMinfa"[r.i(0, 29)] : (char)r.i(1, 255); if (r.chance(.3)) { t = "m 0 0 "; for (int i = r.i(0, 30); i--;) t += fmt("%c %ld %ld ", "mlac"[r.i(0, 3)], r.i(0, 9), r.i(0, 9)); }
    else if (r.chance(.5)) { t.clear(); for (int i = r.i(0, 12); i--;) { int q = r.i(0, 3); t += "mlac"[q]; for (int j = (const int[]){2, 2, 4, 6}[q] - r.chance(.03); j-- > 0;) t += fmt(" %g", r.chance(.05) ? wild(r, r.i(0, 8)) : (double)r.i(-9, 9)); t += ' '; } } /* whole commands in any order */ std::unique_ptr<char[]> h(new char[t.size() + 1]); memcpy(h.get(), t.c_str(), t.size() + 1); river::paths p = river::make_path(h.get()); h.reset(); Rec rec; auto f = recorder(); for (auto& q : p) q.traverse(f, &rec); river::path_traverse_funcs nil; for (auto& q : p) q.traverse(nil, nullptr); x.count("texts"); x.count("elements", rec.ev.size()); }
  auto once = [&](const char* s) { river::paths p = river::make_path(s); return p.size(); }; once("m 1 2 l 3 4 c 1 2 3 4 5 6"); size_t a = live_bytes(); once("m 1 2 l 3 4 c 1 2 3 4 5 6"); size_t b = live_bytes(); once("m 1 2 l 3 4 c 1 2 3 4 5 6"); size_t d = live_bytes(); x.count("allocation_balances"); if (b > a && d > b) x.fail("leak", "make_path leaves memory behind");
}
static void c09(Ctx& x) { int k = x.index % 8; if (k < 5) c09_clip(x); else if (k == 5) c09_life(x); else if (k == 6) c09_rmath(x); else c09_text(x); }
static drv::Reg r9("C09", c09);
