// C06 presentation invariance, C07 processor histories, C17 algebra and reuse.
#include "meta.h"

static bool gen_any(Ctx& x, Shape& s, Shape& c, Arr& A, int curves_every = 3) { int k = x.index % 3; uint64_t q = x.index / 3; return k == 0 ? gen_lines(x, s, c, A, q % gen::N_POLY) : k == 1 ? gen_deg(x, s, c, A, q % gen::N_DEG) : gen_curves(x, s, c, A, q % gen::N_CURVE); }
static Rec lib(const Shape& s, const Shape& c, int op, int fr, int style, Ctx& x, bool curves) { drv::step_reset(curves ? BUDGET_CURVES : 10 * BUDGET_LINES); Rec r = run_lib(s, c, op, fr, style); drv::step_off(); x.count("process_calls"); return r; }

static void c06(Ctx& x) {
  Shape s, c; Arr A; if (!gen_any(x, s, c, A)) return; auto probes = make_probes(A, x.rng, 30); Pt o = (A.bx.lo + A.bx.hi) * .5; bool big = false;
  x.count("geometries"); const double rel = A.curves ? 2e-6 : 1e-8;
  for (int round = 0; round < 4 && !x.failed; ++round) { int op = x.rng.i(1, 4), fr = x.rng.i(0, 3); std::string what = desc(s, c, op, fr);
    if (x.verbose) { printf("%s\n", what.c_str()); fflush(stdout); }
    // how the input is handed over does not matter, to the last bit
    Rec r0 = lib(s, c, op, fr, 0, x, A.curves); Shape o0 = shape_of(r0); Sig s0 = sig_of(o0, o); if (!r0.ev.empty()) big = true;
    { Rec r1 = lib(s, c, op, fr, 1, x, A.curves); if (!same_bits(r0, r1)) { x.fail("api-style", "callback and container interfaces differ: " + what + " containers[" + str(o0) + "] callbacks[" + str(shape_of(r1)) + "]"); return; } x.count("bit_identical_pairs"); }
    { // both interfaces mixed, one path object with interior moves
      Rec rec; river::processor p; p.add_path(to_river_single(s), river::path_type::subject); p.add_path(to_river(c), river::path_type::clip); drv::step_reset(A.curves ? BUDGET_CURVES : BUDGET_LINES); p.process((river::clip_type)op, (river::fill_rule)fr, recorder(), &rec); drv::step_off(); x.count("process_calls");
      if (!same_bits(r0, rec)) { x.fail("api-style", "one path with interior moves differs from separate paths: " + what + " separate[" + str(o0) + "] single[" + str(shape_of(rec)) + "]"); return; } x.count("bit_identical_pairs"); }
    auto compare = [&](const char* kind, const Shape& out, int map, double k) { Shape back = out; Pt oo = o; if (map == 5) back = map_shape(out, 5, 1 / k); else if (map == 4) { back = map_shape(map_shape(map_shape(out, 4), 4), 4); } else if (map) back = map_shape(out, map); Sig q = sig_of(back, oo); if (flips(map)) { q.area = -q.area; q.mx = -q.mx; q.my = -q.my; }
      bool neg = fr == 3; (void)neg; std::string why; x.count(kind);
      if (flips(map) && fr >= 2) { q.area = -q.area; q.mx = -q.mx; q.my = -q.my; } // positive and negative outputs run the other way round
      if (!sig_eq(s0, q, A.D, rel, why)) { x.fail(kind, why + " " + what + " original[" + str(o0) + "] transformed back[" + str(back) + "]"); return false; }
      Region R; std::vector<Edge> es; edges_of(back, 0, es); R.add(es, 120); for (auto& p : probes) { bool e = in_op(in_rule(p.ws, (river::fill_rule)fr), in_rule(p.wc, (river::fill_rule)fr), (river::clip_type)op); int w = R.wn(p.q); x.count("probes"); if (e != (w != 0)) { x.fail(kind, fmt("point (%.17g,%.17g) expected %s, winding %d ", p.q.x, p.q.y, e ? "inside" : "outside", w) + what + " transformed back[" + str(back) + "]"); return false; } }
      return true; };
    // same drawing, different presentation
    { Shape s2, c2; for (auto& k : s) s2.push_back(represent(x.rng, k)); for (auto& k : c) c2.push_back(represent(x.rng, k)); for (Shape* z : {&s2, &c2}) for (size_t i = z->size(); i > 1; --i) std::swap((*z)[i - 1], (*z)[x.rng.i(0, i - 1)]);
      if (!compare("presentation", shape_of(lib(s2, c2, op, fr, x.rng.i(0, 3), x, A.curves)), 0, 1)) return; }
    if (op != 3 && !compare("swap", shape_of(lib(c, s, op, fr, x.rng.i(0, 1), x, A.curves)), 0, 1)) return;
    { int m = 1 + (round + x.index / 7) % 4; if (A.curves && m >= 3) m -= 2; Shape s2 = map_shape(s, m), c2 = map_shape(c, m); int f2 = flips(m) ? flip_rule(fr) : fr; if (m >= 3 && !arrange(s2, c2, ALLOW_HV_TOUCH | ALLOW_COINCIDENT | ALLOW_YTIES).generic) x.count("turned_not_general"); else if (!compare(m == 1 ? "mirror-x" : m == 2 ? "mirror-y" : m == 3 ? "transpose" : "rotate90", shape_of(lib(s2, c2, op, f2, x.rng.i(0, 1), x, A.curves)), m, 1)) return; }
    { Shape s2, c2; for (auto& k : s) s2.push_back(gen::reversed(k)); for (auto& k : c) c2.push_back(gen::reversed(k)); Shape out = shape_of(lib(s2, c2, op, flip_rule(fr), 0, x, A.curves)); if (fr >= 2) for (auto& k : out) k = gen::reversed(k); if (!compare("reverse", out, 0, 1)) return; }
    if (fr == 0) { Shape s2, c2; for (auto& k : s) s2.push_back(x.rng.coin() ? gen::reversed(k) : k); for (auto& k : c) c2.push_back(x.rng.coin() ? gen::reversed(k) : k); if (!compare("reverse-some", shape_of(lib(s2, c2, op, 0, 0, x, A.curves)), 0, 1)) return; }
    { int e = x.rng.i(-20, 20); double k = std::ldexp(1, e); Rec r2 = lib(map_shape(s, 5, k), map_shape(c, 5, k), op, fr, 0, x, A.curves); what += fmt(" scale 2^%d", e); if (!compare("scale", shape_of(r2), 5, k)) return; }
    // the extra contours of an empty drawing change nothing
    { Shape s2 = s, c2 = c; double y = A.bx.lo.y + .37 * A.D; s2.push_back(gen::poly({{A.bx.lo.x, y}, {A.bx.hi.x, y}})); Contour pt; pt.start = {A.bx.lo.x, A.bx.hi.y}; c2.insert(c2.begin(), pt); pt.segs.push_back({'l', {}, {}, pt.start}); c2.push_back(pt); Rec r2; r2 = lib(s, c2, op, fr, x.rng.i(0, 1), x, A.curves); if (!compare("empty-contours", shape_of(r2), 0, 1)) return; }
  }
  if (big) { x.distinct(hash(c, hash(s) * 31 + 7)); x.count("nontrivial"); if (x.index % 211 == 3) x.sample("subject[" + str(s) + "] clip[" + str(c) + "]"); }
}

// ---- C07: histories of one processor, and of several at once ---------------
struct Step { int kind; Shape add; int poly, style, op, fr; };   // 0 add, 1 process into paths, 2 process into callbacks
struct Prog { Shape s, c; Arr A; std::vector<Step> st; };
static void scribble(river::paths& p) { for (auto& q : p) { for (auto& d : q.data) d = -1e9; q.element_types.assign(q.element_types.size(), 0); } p.clear(); }
struct Live { river::processor* p = nullptr; river::paths acc; std::vector<Rec> outs; Shape s, c;   // acc: one output container for the whole history
  // the container starts with odd little paths of the caller's own
  Live() : p(new river::processor) { acc.emplace_back(); acc.emplace_back(); acc.back().moveto(river::point(1, 2)); acc.emplace_back(); acc.back().moveto(river::point(3, 4)); acc.back().lineto(river::point(5, 6)); } ~Live() { delete p; }
  // runs one step; returns what this process() call produced
  bool run(const Step& t, bool curves, Rec& rec, std::string& bad) {
    if (t.kind == 0) { if (t.style == 0) { auto in = to_river(t.add); p->add_path(in, (river::path_type)t.poly); scribble(in); } else if (t.style == 1) { auto in = to_river_single(t.add); p->add_path(in, (river::path_type)t.poly); scribble(in); } else { Shape cp = t.add; p->add_path(read_shape, &cp, (river::path_type)t.poly); cp.clear(); } for (auto& k : t.add) (t.poly ? c : s).push_back(k); return false; }
    drv::step_reset(curves ? BUDGET_CURVES : BUDGET_LINES);
    if (t.kind == 2) p->process((river::clip_type)t.op, (river::fill_rule)t.fr, recorder(), &rec);
    else { if (acc.size() % 3 != 1) { acc.emplace_back(); if (acc.size() & 1) acc.back().moveto(river::point(7, 8)); if (acc.size() % 4 == 1) acc.back().lineto(river::point(9, 8)); }
      size_t n0 = acc.size(); std::vector<std::vector<double>> before; for (auto& q : acc) before.push_back(q.data); p->process((river::clip_type)t.op, (river::fill_rule)t.fr, acc);
      if (acc.size() < n0) { bad = fmt("process() shrank the output container from %zu to %zu", n0, acc.size()); return true; } for (size_t i = 0; i < n0; ++i) if (acc[i].data != before[i]) { bad = fmt("process() changed path %zu that was already in the output container", i); return true; }
      auto f = recorder(); for (size_t i = n0; i < acc.size(); ++i) acc[i].traverse(f, &rec); }
    drv::step_off(); return true; } };
static bool make_prog(Ctx& x, Prog& P, int k, uint64_t q) { if (!(k == 0 ? gen_lines(x, P.s, P.c, P.A, q % gen::N_POLY) : k == 1 ? gen_deg(x, P.s, P.c, P.A, (const int[]){0, 1, 9, 10}[q % 4]) : gen_curves(x, P.s, P.c, P.A, q % gen::N_CURVE))) return false;
  std::vector<std::pair<int, Contour>> L; for (auto& c : P.s) L.push_back({0, c}); for (auto& c : P.c) L.push_back({1, c}); for (size_t i = L.size(); i > 1; --i) std::swap(L[i - 1], L[x.rng.i(0, i - 1)]);
  size_t i = 0; int guard = 0; while ((i < L.size() || x.rng.coin()) && ++guard < 40) { if (i < L.size() && x.rng.chance(.55)) { Step t{0, {}, L[i].first, (int)x.rng.i(0, 2), 0, 0}; while (i < L.size() && L[i].first == t.poly && (t.add.empty() || x.rng.coin())) t.add.push_back(L[i++].second); P.st.push_back(t); } else P.st.push_back({(int)x.rng.i(1, 2), {}, 0, 0, x.rng.chance(.1) ? 0 : (int)x.rng.i(1, 4), (int)x.rng.i(0, 3)}); }
  while (i < L.size()) { P.st.push_back({0, {L[i].second}, L[i].first, 0, 0, 0}); ++i; }
  P.st.push_back({(int)x.rng.i(1, 2), {}, 0, 0, (int)x.rng.i(1, 4), (int)x.rng.i(0, 3)}); Step last = P.st.back(); P.st.push_back({(int)x.rng.i(1, 2), {}, 0, 0, (int)x.rng.i(1, 4), (int)x.rng.i(0, 3)}); if (x.rng.coin()) { last.kind = 3 - last.kind; P.st.push_back(last); } return true; }
static std::string hist(const Prog& P, size_t upto) { std::string o = "history:"; for (size_t i = 0; i <= upto && i < P.st.size(); ++i) { auto& t = P.st[i]; if (t.kind == 0) o += fmt(" add(%s,style %d)[", t.poly ? "clip" : "subject", t.style) + str(t.add) + "]"; else o += fmt(" process(%s,%s,%s)", op_name[t.op], rule_name[t.fr], t.kind == 1 ? "paths" : "callbacks"); } return o; }
// drawings with every kind of contact, on some of which the library gives up: whatever a call did, the next one behaves as on a fresh processor
static void c07_hostile(Ctx& x) { auto& r = x.rng; Shape s, c; int g = r.i(3, 10); for (Shape* o : {&s, &c}) for (int i = r.i(1, 3); i--;) o->push_back(gen::int_poly(r, r.i(3, 8), g)); if (r.chance(.2)) gen::deg_family(r, r.i(0, gen::N_DEG - 1), s, c); std::string what = "subject[" + str(s) + "] clip[" + str(c) + "]"; if (x.verbose) { printf("%s\n", what.c_str()); fflush(stdout); }
  river::processor p; p.add_path(to_river(s), river::path_type::subject); p.add_path(to_river(c), river::path_type::clip); std::string calls; x.count("hostile_histories"); bool some = false;
  for (int i = 0, n = r.i(3, 9); i < n; ++i) { int op = r.chance(.1) ? 0 : r.i(1, 4), fr = r.i(0, 3); calls += fmt(" %s/%s", op_name[op], rule_name[fr]); Rec rec; drv::step_reset(BUDGET_LINES); p.process((river::clip_type)op, (river::fill_rule)fr, recorder(), &rec); drv::step_off(); Rec f = lib(s, c, op, fr, 0, x, false); x.count("hostile_comparisons"); if (i && op && rec.ev.empty()) x.count("hostile_empty_results"); some |= !rec.ev.empty(); if (!same_bits(rec, f)) { x.fail("after-other-calls", "process() after" + calls + " gives [" + str(shape_of(rec)) + "], a fresh processor [" + str(shape_of(f)) + "] " + what); return; } }
  if (some) { x.count("nontrivial"); x.distinct(hash(c, hash(s) * 31 + 7)); } }
static void c07(Ctx& x) {
  if (x.index % 5 == 4) return c07_hostile(x);
  Prog P, Q; int k = x.index % 3; if (!make_prog(x, P, k, x.index / 3) || !make_prog(x, Q, x.rng.i(0, 2), x.rng.i(0, 40))) return;
  if (x.verbose) { printf("%s\n", hist(P, P.st.size()).c_str()); fflush(stdout); }
  auto probes = make_probes(P.A, x.rng, 40); std::vector<Rec> solo, soloQ; x.count("histories"); bool big = false; const double rel = P.A.curves ? 2e-6 : 1e-8; Pt o = (P.A.bx.lo + P.A.bx.hi) * .5;
  { Live L; int np = 0; std::map<int, Rec> before; for (size_t i = 0; i < P.st.size() && !x.failed; ++i) { auto& t = P.st[i]; Rec r; std::string bad; x.count(t.kind ? "process_steps" : "add_steps"); if (!L.run(t, P.A.curves, r, bad)) { before.clear(); continue; } if (!bad.empty()) { x.fail("output-container", bad + " " + hist(P, i)); return; }
      { auto it = before.find(t.op * 4 + t.fr); if (it == before.end()) before[t.op * 4 + t.fr] = r; else { x.count("asked_again"); if (!same_bits(r, it->second)) { x.fail("asked-again", "the same operation asked again, with nothing added in between, gives other output " + hist(P, i) + " first[" + str(shape_of(it->second)) + "] now[" + str(shape_of(r)) + "]"); return; } } }
      solo.push_back(r); if (++np > 1) x.count("process_after_process"); if (!r.ev.empty()) big = true; Shape os = shape_of(r);
      if (t.op == 0) { x.count("op_none"); if (!r.ev.empty()) { x.fail("none", "operation none produced output " + hist(P, i) + " output[" + str(os) + "]"); return; } continue; }
      Region R, S, C; std::vector<Edge> eo, es, ec; edges_of(os, 0, eo); edges_of(L.s, 0, es); edges_of(L.c, 1, ec); R.add(eo, 240); S.add(es, 360); C.add(ec, 360);
      for (auto& p : probes) { int ws = S.wn(p.q), wc = C.wn(p.q); bool e = in_op(in_rule(ws, (river::fill_rule)t.fr), in_rule(wc, (river::fill_rule)t.fr), (river::clip_type)t.op); int w = R.wn(p.q); x.count("probes"); if (e != (w != 0)) { x.fail("history-region", fmt("point (%.17g,%.17g): subject winding %d, clip winding %d, expected %s, output winding %d ", p.q.x, p.q.y, ws, wc, e ? "inside" : "outside", w) + hist(P, i) + " output[" + str(os) + "]"); return; } }
      // and the same as a fresh processor given everything at once
      Rec f = lib(L.s, L.c, t.op, t.fr, 0, x, P.A.curves); std::string why; Sig a = sig_of(os, o), b = sig_of(shape_of(f), o); x.count("fresh_comparisons"); if (!sig_eq(a, b, P.A.D, rel, why)) { x.fail("history-fresh", why + " (history vs fresh processor) " + hist(P, i) + " output[" + str(os) + "] fresh[" + str(shape_of(f)) + "]"); return; } } }
  // another processor working in between must not change a bit
  { Live L; for (auto& t : Q.st) { Rec r; std::string bad; if (L.run(t, Q.A.curves, r, bad)) soloQ.push_back(r); } }
  { Live* a = new Live; Live* b = new Live; size_t i = 0, j = 0, pi = 0, qj = 0; while (i < P.st.size() || j < Q.st.size()) { bool first = j >= Q.st.size() || (i < P.st.size() && x.rng.coin()); Rec r; std::string bad; x.count("interleaved_steps");
      if (first) { if (a->run(P.st[i], P.A.curves, r, bad)) { if (!same_bits(r, solo[pi])) { x.fail("interference", "another processor's calls in between change the result: " + hist(P, i) + " OTHER " + hist(Q, j)); return; } ++pi; } if (++i == P.st.size()) { delete a; a = nullptr; } }
      else { if (b->run(Q.st[j], Q.A.curves, r, bad)) { if (!same_bits(r, soloQ[qj])) { x.fail("interference", "another processor's calls in between change the result: " + hist(Q, j) + " OTHER " + hist(P, i)); return; } ++qj; } if (++j == Q.st.size()) { delete b; b = nullptr; } } } }
  if (big) { x.count("nontrivial"); x.distinct(hash(P.c, hash(P.s) * 31 + P.st.size())); if (x.index % 211 == 3) x.sample(hist(P, P.st.size())); }
}

// ---- C17: results are drawings again ----------------------------------------
static Shape apply(Ctx& x, const Shape& a, const Shape& b, int op, int fr, bool curves) { return shape_of(lib(a, b, op, fr, x.rng.i(0, 1), x, curves)); }
static void c17(Ctx& x) {
  Shape s, c; Arr A; int k = x.index % 4; uint64_t q = x.index / 4;
  // three drawings: subject, clip and a third one, in general position together
  if (k == 3 || k == 2) { bool curves = k == 3; for (int t = 0; t < 80; ++t) { Shape a, b, d, e; if (curves) { gen::curve_family(x.rng, q % gen::N_CURVE, a, b); gen::curve_family(x.rng, x.rng.i(0, gen::N_CURVE - 1), d, e); } else { gen::poly_family(x.rng, q % gen::N_POLY, a, b); gen::poly_family(x.rng, x.rng.i(0, gen::N_POLY - 1), d, e); } Shape all = a; for (auto& z : b) all.push_back(z); A = arrange(all, d, 0); if (A.es.empty() || !A.generic) { x.count("rejected_not_general"); continue; }
      int op1 = x.rng.i(1, 4), op2 = x.rng.i(1, 4), f1 = x.rng.i(0, 3); int f2 = x.rng.i(0, 2); if (f1 == 3) f2 = (const int[]){0, 1, 3}[x.rng.i(0, 2)]; // the fill rule has to fit the orientation of the first result
      bool swp = x.rng.coin(); Shape r1 = apply(x, a, b, op1, f1, A.curves), r2 = swp ? apply(x, d, r1, op2, f2, A.curves) : apply(x, r1, d, op2, f2, A.curves);
      std::string what = fmt("(A %s,%s B) %s,%s C%s ", op_name[op1], rule_name[f1], op_name[op2], rule_name[f2], swp ? " (operands swapped)" : "") + "A[" + str(a) + "] B[" + str(b) + "] C[" + str(d) + "] first[" + str(r1) + "] second[" + str(r2) + "]"; if (x.verbose) { printf("%s\n", what.c_str()); fflush(stdout); }
      auto pr = make_probes(A, x.rng, 40); Region R, Ra, Rb; std::vector<Edge> ea, eb, er; edges_of(a, 0, ea); edges_of(b, 0, eb); edges_of(r2, 0, er); Ra.add(ea, 360); Rb.add(eb, 360); R.add(er, 240); x.count("chains");
      for (auto& p : pr) { bool i1 = in_op(in_rule(Ra.wn(p.q), (river::fill_rule)f1), in_rule(Rb.wn(p.q), (river::fill_rule)f1), (river::clip_type)op1), i2 = in_rule(p.wc, (river::fill_rule)f2); bool e = swp ? in_op(i2, i1, (river::clip_type)op2) : in_op(i1, i2, (river::clip_type)op2); int w = R.wn(p.q); x.count("probes"); if (e != (w != 0)) { x.fail("chain", fmt("point (%.17g,%.17g) expected %s, winding %d ", p.q.x, p.q.y, e ? "inside" : "outside", w) + what); return; } }
      x.count("nontrivial"); x.distinct(hash(d, hash(b, hash(a)))); if (x.index % 211 == 3) x.sample(what); return; } return; }
  // curves: operands that share whole curves, in the same or the other direction
  if (k == 0 && q % 2) { if (!gen_curves(x, s, c, A, q / 2 % gen::N_CURVE)) return; auto probes = make_probes(A, x.rng, 40); x.count("curve_geometries"); int fr = x.rng.i(0, 3); std::string what = fmt("rule=%s ", rule_name[fr]) + "A[" + str(s) + "] B[" + str(c) + "]"; if (x.verbose) { printf("%s\n", what.c_str()); fflush(stdout); }
    auto chk = [&](const char* law, const Shape& r, int kind) { Region R; std::vector<Edge> e; edges_of(r, 0, e); R.add(e, 240); x.count(law); for (auto& p : probes) { bool a = in_rule(p.ws, (river::fill_rule)fr), b = in_rule(p.wc, (river::fill_rule)fr), v = kind == 0 ? a : kind == 3 ? a || b : kind == 5 ? a != b : false; int w = R.wn(p.q); x.count("probes"); if (v != (w != 0)) { x.fail(law, fmt("point (%.17g,%.17g) expected %s, winding %d ", p.q.x, p.q.y, v ? "inside" : "outside", w) + what + " result[" + str(r) + "]"); return false; } } return check_seam(x, e, R, A, std::string(law) + " " + what + " result[" + str(r) + "]"); };
    auto ap = [&](const Shape& a, const Shape& b, int op) { return apply(x, a, b, op, fr, true); }; const int I = 1, U = 2, D = 3, X = 4; Shape none, rev; for (auto& z : s) rev.push_back(gen::reversed(z)); Shape i = ap(s, c, I), d = ap(s, c, D), e = ap(c, s, D), xo = ap(s, c, X);
    if (!chk("curves:A|A=A", ap(s, s, U), 0) || !chk("curves:A&A=A", ap(s, s, I), 0) || !chk("curves:A-A=0", ap(s, s, D), 9) || !chk("curves:A^A=0", ap(s, s, X), 9) || !chk("curves:A|0=A", ap(s, none, U), 0)) return;
    if (fr < 2 && (!chk("curves:A|rev(A)=A", ap(s, rev, U), 0) || !chk("curves:A-rev(A)=0", ap(s, rev, D), 9) || !chk("curves:A^rev(A)=0", ap(rev, s, X), 9) || !chk("curves:A&rev(A)=A", ap(rev, s, I), 0))) return;
    if (!chk("curves:(A-B)|(A&B)=A", ap(d, i, U), 0) || !chk("curves:(A-B)|(B-A)=A^B", ap(d, e, U), 5) || !chk("curves:(A&B)^(A^B)=A|B", ap(i, xo, X), 3)) return;
    x.count("nontrivial"); x.distinct(hash(c, hash(s) * 31 + 9)); return; }
  if (!(k == 0 ? gen_lines(x, s, c, A, q % gen::N_POLY) : gen_deg(x, s, c, A, (const int[]){0, 1, 9, 10}[q % 4]))) return;
  auto probes = make_probes(A, x.rng, 40); x.count("geometries");
  for (int fr = 0; fr < 4 && !x.failed; ++fr) { std::string what = fmt("rule=%s ", rule_name[fr]) + "A[" + str(s) + "] B[" + str(c) + "]"; if (x.verbose) { printf("%s\n", what.c_str()); fflush(stdout); }
    auto chk = [&](const char* law, const Shape& r, int kind) { Region R; std::vector<Edge> e; edges_of(r, 0, e); R.add(e, 1); x.count(law); for (auto& p : probes) { bool a = in_rule(p.ws, (river::fill_rule)fr), b = in_rule(p.wc, (river::fill_rule)fr), v = kind == 0 ? a : kind == 1 ? b : kind == 2 ? a && b : kind == 3 ? a || b : kind == 4 ? a && !b : kind == 5 ? a != b : false; int w = R.wn(p.q); x.count("probes"); if (v != (w != 0)) { x.fail(law, fmt("point (%.17g,%.17g) expected %s, winding %d ", p.q.x, p.q.y, v ? "inside" : "outside", w) + what + " result[" + str(r) + "]"); return false; } } return true; };
    auto ap = [&](const Shape& a, const Shape& b, int op) { return apply(x, a, b, op, fr, false); }; const int I = 1, U = 2, D = 3, X = 4; Shape none;
    Shape i = ap(s, c, I), u = ap(s, c, U), d = ap(s, c, D), e = ap(c, s, D), xo = ap(s, c, X);
    if (!chk("(A-B)|(A&B)=A", ap(d, i, U), 0) || !chk("(A-B)&(A&B)=0", ap(d, i, I), 9) || !chk("(A-B)|(B-A)=A^B", ap(d, e, U), 5) || !chk("(A-B)&(B-A)=0", ap(d, e, I), 9) || !chk("(A-B)^(B-A)=A^B", ap(d, e, X), 5) || !chk("(A&B)^(A^B)=A|B", ap(i, xo, X), 3)) return;
    if (!chk("A|0=A", ap(s, none, U), 0) || !chk("A&0=0", ap(s, none, I), 9) || !chk("A-0=A", ap(s, none, D), 0) || !chk("0-A=0", ap(none, s, D), 9) || !chk("0^A=A", ap(none, s, X), 0)) return;
    if (!chk("A|A=A", ap(s, s, U), 0) || !chk("A&A=A", ap(s, s, I), 0) || !chk("A-A=0", ap(s, s, D), 9) || !chk("A^A=0", ap(s, s, X), 9)) return;
    if (!chk("norm(A|B)=A|B", ap(u, none, U), 3) || !chk("norm(A^B)=A^B", ap(xo, none, U), 5)) return;
    if (!chk("(A|B)-(A&B)=A^B", ap(u, i, D), 5)) return;
    // a slanted edge against a rounded part of itself is not an exact contact: these three for axis-parallel drawings
    if (k == 1 && (!chk("A-(A-B)=A&B", ap(s, d, D), 2) || !chk("(A|B)-B=A-B", ap(u, c, D), 4) || !chk("(A^B)^B=A", ap(xo, c, X), 0))) return;
  }
  x.count("nontrivial"); x.distinct(hash(c, hash(s) * 31 + 7)); if (x.index % 211 == 1) x.sample("A[" + str(s) + "] B[" + str(c) + "]");
}

static drv::Reg r6("C06", c06), r7("C07", c07), r17("C17", c17);
