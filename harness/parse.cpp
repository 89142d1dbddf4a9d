// C11 the text form of paths, C12 the path container and traversal protocol.
#include "clip.h"
#include <cstdlib>

// ---- reference parser, written from the grammar --------------------------
//   text := *( 'm' P | 'l' P | 'a' P P | 'c' P P P )   P := number number
// white space is free between tokens; the first command that cannot be read
// ends the text; segments before the first m are dropped; a is accepted and ignored.
struct Tok { char k; double v[6]; };
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
struct Ref { const char* p; bool odd = false;
  void ws() { while (sp(*p)) ++p; }
  static bool ieq(const char* a, const char* lit) { for (; *lit; ++a, ++lit) if ((*a | 32) != *lit) return false; return true; }
  bool num(double& v) { ws(); const char* q = p; bool neg = false; if (*q == '+' || *q == '-') { neg = *q == '-'; ++q; }
    if (ieq(q, "inf") || ieq(q, "nan")) { odd = true; return false; }
    const char* d = q; int nd = 0; while (*q >= '0' && *q <= '9') ++q, ++nd; if (*q == '.') { const char* z = q + 1; int nf = 0; while (*z >= '0' && *z <= '9') ++z, ++nf; if (nd || nf) { q = z; nd += nf; } } if (!nd) return false; if (nd > 17) odd = true;
    if (*q == 'e' || *q == 'E') { const char* z = q + 1; if (*z == '+' || *z == '-') ++z; if (*z >= '0' && *z <= '9') { long e = 0; while (*z >= '0' && *z <= '9') { if (e < 100000) e = e * 10 + (*z - '0'); ++z; } if (e > 40) odd = true; q = z; } }
    std::string t(d, q); v = strtod(t.c_str(), nullptr); if (neg) v = -v; p = q; return true; }
  std::vector<Tok> parse() { std::vector<Tok> out; for (;;) { ws(); char c = *p; int n = c == 'm' || c == 'l' ? 2 : c == 'a' ? 4 : c == 'c' ? 6 : 0; if (!n) break; ++p; Tok t{c, {}}; bool ok = true; for (int i = 0; i < n && ok; ++i) ok = num(t.v[i]); if (!ok) break; out.push_back(t); } return out; } };
static Shape ref_shape(const std::vector<Tok>& t) { Shape s; for (auto& k : t) { if (k.k == 'm') { s.emplace_back(); s.back().start = {k.v[0], k.v[1]}; } else if (s.empty() || k.k == 'a') continue; else if (k.k == 'l') s.back().segs.push_back({'l', {}, {}, {k.v[0], k.v[1]}}); else s.back().segs.push_back({'c', {k.v[0], k.v[1]}, {k.v[2], k.v[3]}, {k.v[4], k.v[5]}}); } return s; }
static std::string num_text(drv::Rng& r) { switch (r.i(0, 9)) { case 0: return fmt("%ld", r.i(-1000, 1000)); case 1: return fmt("%.17g", r.u(-1000, 1000)); case 2: return fmt("%.3f", r.u(-100, 100)); case 3: return fmt("%.10e", r.u(-1, 1) * std::pow(10, r.u(-20, 20))); case 4: return fmt("+%g", r.u(0, 10)); case 5: return fmt(".%ld", r.i(0, 99999)); case 6: return fmt("%ld.", r.i(-99, 99)); case 7: return fmt("-.%ldE%+ld", r.i(0, 99), r.i(-9, 9)); case 8: return r.coin() ? "0" : "-0"; default: return fmt("%g", r.u(-1e6, 1e6)); } }
static std::string gap(drv::Rng& r, bool must) { static const char* w[] = {" ", "  ", "\t", "\n", " \r\n", "\v\f "}; if (!must && r.chance(.5)) return ""; return w[r.chance(.7) ? 0 : r.i(0, 5)]; }
static std::string valid_text(drv::Rng& r, bool with_arc) { std::string o = gap(r, false); int n = r.i(0, 14); bool lead = r.chance(.85); for (int i = 0; i < n; ++i) { char c = i == 0 && lead ? 'm' : "mlllccca"[r.i(0, with_arc ? 7 : 6)]; int k = c == 'm' || c == 'l' ? 2 : c == 'a' ? 4 : 6; o += c; for (int j = 0; j < k; ++j) o += gap(r, j > 0) + num_text(r); o += gap(r, r.coin()); } return o; }
static bool close(double a, double b) { return a == b || std::fabs(a - b) <= 1e-13 * std::max(std::fabs(a), std::fabs(b)); }
static bool close(Pt a, Pt b) { return close(a.x, b.x) && close(a.y, b.y); }
static std::string show(const std::string& s) { std::string o; for (unsigned char c : s) { if (c < 32 || c > 126) o += fmt("\\x%02x", c); else o += c; } return "\"" + o + "\""; }
static void c11(Ctx& x) {
  auto& r = x.rng; x.count("nontrivial"); x.distinct(x.index * 31 + x.seed);
  for (int n = 0; n < 40 && !x.failed; ++n) { std::string t; int kind = r.i(0, 5); 
    if (kind <= 2) t = valid_text(r, true);
    else if (kind <= 4) { t = valid_text(r, true); for (int m = r.i(1, 4); m-- && !t.empty();) { size_t i = r.i(0, t.size() - 1); switch (r.i(0, 4)) { case 0: t.erase(i, r.i(1, 3)); break; case 1: t.insert(i, 1, "mlcaMLCAzZ,.+-eE0123456789 \n"[r.i(0, 27)]); break; case 2: t[i] = (char)r.i(1, 255); break; case 3: t.resize(i); break; default: t.insert(i, num_text(r)); } } }
    else { int m = r.i(0, 60); for (int i = 0; i < m; ++i) t += r.chance(.7) ? "mlca 0123456789.-+e\n"[r.i(0, 19)] : (char)r.i(1, 255); }
    for (auto& c : t) if (!c) c = ' ';
    Ref R; std::string copy = t; R.p = t.c_str(); auto toks = R.parse(); if (R.odd) { x.count("texts_with_unchecked_numbers"); }
    if (x.verbose) { printf("%s\n", show(t).c_str()); fflush(stdout); }
    char* heap = (char*)malloc(t.size() + 1); memcpy(heap, t.c_str(), t.size() + 1); river::paths got = river::make_path(heap); bool intact = !memcmp(heap, t.c_str(), t.size() + 1); free(heap); x.count("texts"); if (!intact) { x.fail("modified", "make_path changed its input " + show(t)); return; }
    if (R.odd) continue; x.count("texts_decided"); x.count("tokens", toks.size()); bool whole = true; { const char* e = R.p; while (sp(*e)) ++e; whole = !*e; } x.count(whole ? "texts_read_to_the_end" : "texts_cut_short");
    Shape want = ref_shape(toks); Rec rec; auto f = recorder(); size_t np = got.size(); bool per = np == want.size(); for (auto& p : got) { size_t before = rec.ev.size(); p.traverse(f, &rec); for (size_t i = before; i < rec.ev.size(); ++i) if ((rec.ev[i].k == 'm') != (i == before)) per = false; } Shape g = shape_of(rec);
    auto bad = [&](const char* w) { x.fail("parse", std::string(w) + ": " + show(t) + " read as [" + str(g) + "], expected [" + str(want) + "]"); }; if (!per || g.size() != want.size()) { bad("paths"); return; }
    for (size_t i = 0; i < g.size(); ++i) { if (!close(g[i].start, want[i].start) || g[i].segs.size() != want[i].segs.size()) { bad("start or number of segments"); return; } for (size_t j = 0; j < g[i].segs.size(); ++j) { auto &a = g[i].segs[j], &b = want[i].segs[j]; x.count("segments"); if (a.k != b.k || !close(a.c, b.c) || (a.k == 'c' && (!close(a.a, b.a) || !close(a.b, b.b)))) { bad("segment"); return; } } }
    // printed and read again
    { std::string u = str(g); Shape h = shape_of(river::make_path(u.c_str())); bool same = h.size() == g.size(); for (size_t i = 0; same && i < h.size(); ++i) { same = close(h[i].start, g[i].start) && h[i].segs.size() == g[i].segs.size(); for (size_t j = 0; same && j < h[i].segs.size(); ++j) same = h[i].segs[j].k == g[i].segs[j].k && close(h[i].segs[j].c, g[i].segs[j].c) && close(h[i].segs[j].a, g[i].segs[j].a) && close(h[i].segs[j].b, g[i].segs[j].b); } x.count("round_trips"); if (!same) { x.fail("round-trip", "printed " + u + " read as " + str(h)); return; } }
    if (n == 0 && x.index % 311 == 3) x.sample(show(t)); }
}

// ---- C12 --------------------------------------------------------------------
static int g_reads; static const void* g_seen;
static void counting_reader(read_path_func_para) { ++g_reads; g_seen = paths; if (!segment_funcs.move_to || !segment_funcs.line_to || !segment_funcs.cubic_to) g_reads += 1000; read_shape(paths, segment_funcs, user); }
struct Tap { Rec rec; int magic = 77; };
static void c12(Ctx& x) {
  auto& r = x.rng; x.count("nontrivial"); x.distinct(x.index * 31 + x.seed);
  for (int n = 0; n < 40 && !x.failed; ++n) { river::path p; std::vector<Ev> want; Pt cur{0, 0}; int m = r.i(0, 30); bool wild = r.chance(.2); auto rp = [&]() -> Pt { double s = wild ? std::pow(10, r.u(-300, 300)) : 100; return {r.u(-1, 1) * s, r.u(-1, 1) * s}; };
    for (int i = 0; i < m; ++i) { Pt a = rp(), b = rp(), c = rp(); switch (r.i(0, 4)) { case 0: p.moveto(to(c)); want.push_back({'m', cur, {}, {}, c}); break; case 1: p.moveto(c.x, c.y); want.push_back({'m', cur, {}, {}, c}); break; case 2: p.lineto(to(c)); want.push_back({'l', cur, {}, {}, c}); break; case 3: p.lineto(c.x, c.y); want.push_back({'l', cur, {}, {}, c}); break; default: p.cubicto(to(a), to(b), to(c)); want.push_back({'c', cur, a, b, c}); } cur = c; }
    auto data0 = p.data; auto types0 = p.element_types; auto full = recorder();
    auto check = [&](const river::path& q, int mask, const char* how) { river::path_traverse_funcs f; if (mask & 1) f.move_to = full.move_to; if (mask & 2) f.line_to = full.line_to; if (mask & 4) f.cubic_to = full.cubic_to; Tap t; q.traverse(f, &t); std::vector<Ev> w; for (auto& e : want) if ((e.k == 'm' && (mask & 1)) || (e.k == 'l' && (mask & 2)) || (e.k == 'c' && (mask & 4))) w.push_back(e); x.count("traversals"); x.count("events", w.size()); bool ok = t.magic == 77 && t.rec.ev.size() == w.size(); for (size_t i = 0; ok && i < w.size(); ++i) { auto &a = t.rec.ev[i], &b = w[i]; ok = a.k == b.k && a.from == b.from && a.to == b.to && (a.k != 'c' || (a.a == b.a && a.b == b.b)); if (!ok) { x.fail("traverse", fmt("%s, callbacks %d, event %zu of %d: got %c from (%.17g,%.17g) to (%.17g,%.17g), expected %c from (%.17g,%.17g) to (%.17g,%.17g)", how, mask, i, m, a.k, a.from.x, a.from.y, a.to.x, a.to.y, b.k, b.from.x, b.from.y, b.to.x, b.to.y)); return false; } } if (!ok) { x.fail("traverse", fmt("%s, callbacks %d: %zu events, expected %zu", how, mask, t.rec.ev.size(), w.size())); return false; } return true; };
    for (int mask : {7, (int)r.i(0, 6), 7}) if (!check(p, mask, "built path")) return;
    if (p.data != data0 || p.element_types != types0) { x.fail("traverse", "traversal changed the path"); return; }
    river::path q(std::move(p)); x.count("moves"); if (!check(q, 7, "moved path")) return; { Rec e; p.traverse(full, &e); if (!e.ev.empty()) { x.fail("move", "the moved-from path still has elements"); return; } } river::paths v; v.push_back(std::move(q)); for (int i = 0; i < 5; ++i) v.emplace_back(); if (!check(v[0], 7, "path in a vector")) return;
    // appending goes on where the path stopped
    { Pt c = rp(); v[0].lineto(to(c)); want.push_back({'l', cur, {}, {}, c}); if (!check(v[0], 7, "extended path")) return; } }
  // add_path(read_func): called once, at once, with the caller's pointer
  { Shape s{gen::frect(r)}; river::processor p; g_reads = 0; g_seen = nullptr; p.add_path(counting_reader, &s, river::path_type::subject); x.count("read_functions"); if (g_reads != 1 || g_seen != &s) { x.fail("reader", fmt("read function called %d times", g_reads)); return; }
    // process() hands over the caller's pointer and reads nothing again; coordinates come back bit for bit
    Tap t; p.process(river::clip_type::union_, river::fill_rule::non_zero, recorder(), &t);
    if (g_reads != 1 || t.magic != 77) { x.fail("reader", "process() called the read function again"); return; } std::vector<Pt> in = gen::verts(s[0]); for (auto& e : t.rec.ev) { bool known = false; for (Pt z : in) known |= z == e.to; x.count("output_vertices"); if (!known) { x.fail("vertex-bits", fmt("output vertex (%.17g,%.17g) of an isolated rectangle is not an input vertex ", e.to.x, e.to.y) + str(s)); return; } } if (t.rec.ev.size() < 4) { x.fail("vertex-bits", "an isolated rectangle is lost " + str(s)); return; } }
}
static drv::Reg r11("C11", c11), r12("C12", c12);
