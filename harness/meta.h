// Comparisons between runs of the library: measures of an output and the
// transformations under which they have to agree.
#pragma once
#include "clip.h"

// Area, boundary length and first moments of an output, by Green's formula.
struct Sig { double area = 0, len = 0, mx = 0, my = 0; };
static Sig sig_of(const Shape& s, Pt o) {
  static const double gx[5] = {-.9061798459386640, -.5384693101056831, 0, .5384693101056831, .9061798459386640}, gw[5] = {.2369268850561891, .4786286704993665, .5688888888888889, .4786286704993665, .2369268850561891};
  std::vector<Edge> es; edges_of(s, 0, es); Sig r; long double A = 0, X = 0, Y = 0, L = 0;
  for (auto& e : es) { int n = e.cubic ? 24 : 1; if (!e.cubic) L += len(e.p3 - e.p0);
    for (int i = 0; i < n; ++i) for (int k = 0; k < 5; ++k) { double t = (i + .5 + .5 * gx[k]) / n, w = gw[k] * .5 / n; Pt p = e.at(t) - o, d = e.d(t); A += w * .5L * ((long double)p.x * d.y - (long double)p.y * d.x); X += w * .5L * (long double)p.x * p.x * d.y; Y -= w * .5L * (long double)p.y * p.y * d.x; if (e.cubic) L += w * len(d); } }
  r.area = A; r.mx = X; r.my = Y; r.len = L; return r; }
static bool sig_eq(const Sig& a, const Sig& b, double D, double rel, std::string& why) {
  if (std::fabs(a.area - b.area) > rel * D * D) { why = fmt("area %.12g vs %.12g", a.area, b.area); return false; }
  if (std::fabs(a.len - b.len) > rel * D * 20) { why = fmt("boundary length %.12g vs %.12g", a.len, b.len); return false; }
  if (std::fabs(a.mx - b.mx) > rel * D * D * D || std::fabs(a.my - b.my) > rel * D * D * D) { why = fmt("first moments (%.12g,%.12g) vs (%.12g,%.12g)", a.mx, a.my, b.mx, b.my); return false; }
  return true; }

static Pt map_pt(Pt p, int m, double k, Pt o) { switch (m) { case 1: return {-p.x, p.y}; case 2: return {p.x, -p.y}; case 3: return {p.y, p.x}; case 4: return {-p.y, p.x}; case 5: return {p.x * k, p.y * k}; default: return p; } }
static Shape map_shape(Shape s, int m, double k = 1) { for (auto& c : s) { c.start = map_pt(c.start, m, k, {}); for (auto& g : c.segs) { g.a = map_pt(g.a, m, k, {}); g.b = map_pt(g.b, m, k, {}); g.c = map_pt(g.c, m, k, {}); } } return s; }
static bool flips(int m) { return m == 1 || m == 2 || m == 3; }
static int flip_rule(int fr) { return fr == 2 ? 3 : fr == 3 ? 2 : fr; }
