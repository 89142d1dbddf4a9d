// Monitors C01..C05 over processor::process().
#include "clip.h"

static void c01(Ctx& x) { Shape s, c; Arr A; Mon m; m.region = true; if (gen_lines(x, s, c, A)) check_case(x, s, c, A, m, true); }
static void c02(Ctx& x) { Shape s, c; Arr A; Mon m; m.region = true; if (gen_curves(x, s, c, A, -1, x.index / gen::N_CURVE & 1 ? .1 : 1)) check_case(x, s, c, A, m, x.thorough); }
static void c03(Ctx& x) { Shape s, c; Arr A; Mon m; m.region = true; if (x.index % 4 == 3) { uint64_t q = x.index / 4; if (q & 1 ? gen_cells(x, s, c, A) : gen_copies(x, s, c, A, q / 2 % gen::N_CURVE)) { m.form = m.seam = true; check_case(x, s, c, A, m, x.thorough, true); } } else if (gen_deg(x, s, c, A, (x.index / 4 * 3 + x.index % 4) % gen::N_DEG)) check_case(x, s, c, A, m, true); }
static void any(Ctx& x, Mon m) { Shape s, c; Arr A; int k = x.index % 3; if (k == 1 && x.index / 3 % 5 == 4) { if (x.rng.coin() ? gen_cells(x, s, c, A) : gen_copies(x, s, c, A, x.rng.i(0, gen::N_CURVE - 1))) check_case(x, s, c, A, m, false, true); return; } if (k == 0 ? gen_lines(x, s, c, A, (x.index / 3) % gen::N_POLY) : k == 1 ? gen_deg(x, s, c, A, (x.index / 3) % gen::N_DEG) : gen_curves(x, s, c, A, (x.index / 3) % gen::N_CURVE, x.index / 3 / gen::N_CURVE & 1 ? .1 : 1)) check_case(x, s, c, A, m, k != 2); }
static void c04(Ctx& x) { Mon m; m.form = true; any(x, m); }
static void c05(Ctx& x) { Mon m; m.prov = true; any(x, m); }
static void c18(Ctx& x) { Mon m; m.seam = true; any(x, m); }
static drv::Reg r18("C18", c18);
// inputs recorded in known_findings.json, always the same: slanted edges that overlap in part or run through one point
static void c03_known(Ctx& x) { struct K { const char *s, *c; int op, fr; Pt q; }; static const K k[] = {
    {"m 2 5 l 6 3 l 6 1 l 2 6", "m 5 0 l 2 3 l 5 6 l 1 3", 2, 1, {2.06, 2.37}}, {"m 2 2 l 4 4 l 2 4 l 3 5 l 1 0", "m 3 1 l 3 3 l 0 0 l 2 3", 3, 0, {2.7, 3.59}}, {"m 2 3 l 0 5 l 3 2", "m 4 1 l 5 5 l 0 3 l 4 3", 2, 1, {2.63, 3.42}},
    {"m 35 1 l 46 5 l 46 22 l 60 26", "m 30 4 l 56 4 l 56 54 l 30 54", 4, 0, {48, 7}} }; // the crossing (56, 22) is computed an ulp above the vertex (46, 22)
  auto& q = k[x.index % (sizeof k / sizeof k[0])]; Shape s = shape_of(river::make_path(q.s)), c = shape_of(river::make_path(q.c)); x.count("known_inputs"); x.distinct(x.index); drv::step_reset(BUDGET_LINES); Shape os = shape_of(run_lib(s, c, q.op, q.fr, 0)); drv::step_off(); Region S, C, R; std::vector<Edge> a, b, o; edges_of(s, 0, a); edges_of(c, 1, b); edges_of(os, 0, o); S.add(a, 1); C.add(b, 1); R.add(o, 1);
  bool e = in_op(in_rule(S.wn(q.q), (river::fill_rule)q.fr), in_rule(C.wn(q.q), (river::fill_rule)q.fr), (river::clip_type)q.op); if (e != (R.wn(q.q) != 0)) x.fail("region", fmt("point (%g,%g) expected %s ", q.q.x, q.q.y, e ? "inside" : "outside") + desc(s, c, q.op, q.fr) + " output[" + str(os) + "]"); }
static drv::Reg r03k("C03.known", c03_known);
static drv::Reg r1("C01", c01), r2("C02", c02), r3("C03", c03), r4("C04", c04), r5("C05", c05);
