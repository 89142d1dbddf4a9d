// Workload generators.
#pragma once
#include "geom.h"

namespace gen {
using namespace geo;

inline Contour poly(const std::vector<Pt>& v) { Contour c; c.start = v[0]; for (size_t i = 1; i < v.size(); ++i) c.segs.push_back({'l', {}, {}, v[i]}); return c; }
inline std::vector<Pt> verts(const Contour& c) { std::vector<Pt> v{c.start}; for (auto& s : c.segs) v.push_back(s.c); return v; }
inline Contour reversed(const Contour& c) { Contour o; std::vector<Pt> st{c.start}; for (auto& s : c.segs) st.push_back(s.c); o.start = st.back(); for (size_t i = c.segs.size(); i-- > 0;) { auto& s = c.segs[i]; o.segs.push_back({s.k, s.b, s.a, st[i]}); } return o; }
inline Contour rect(double x0, double y0, double x1, double y1, bool cw) { return cw ? poly({{x0, y0}, {x0, y1}, {x1, y1}, {x1, y0}}) : poly({{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}}); }

// ---- straight-edge contours (nominal extent 0..100) ---------------------
inline Contour random_poly(Rng& r, int n) { std::vector<Pt> v; for (int i = 0; i < n; ++i) v.push_back({r.u(0, 100), r.u(0, 100)}); return poly(v); }
inline Contour int_poly(Rng& r, int n, int g) { std::vector<Pt> v; for (int i = 0; i < n; ++i) v.push_back({(double)r.i(0, g), (double)r.i(0, g)}); return poly(v); }
inline Contour star_poly(Rng& r, int n, int step, bool jit) { std::vector<Pt> v; double cx = r.u(25, 75), cy = r.u(25, 75), R = r.u(10, 40), ph = r.u(0, 6.3); for (int i = 0; i < n; ++i) { double a = ph + 2 * M_PI * i * step / n, q = jit ? R * r.u(.4, 1) : R; v.push_back({cx + q * cos(a), cy + q * sin(a)}); } if (r.coin()) std::reverse(v.begin(), v.end()); return poly(v); }
inline Contour comb(Rng& r, int teeth) { std::vector<Pt> v; double x0 = r.u(0, 20), w = r.u(60, 80), y0 = r.u(10, 30), h = r.u(30, 60); v.push_back({x0, y0}); v.push_back({x0 + w, y0 + r.u(-3, 3)}); for (int i = teeth; i-- > 0;) { double a = x0 + w * (i + .8) / teeth, b = x0 + w * (i + .45) / teeth, c = x0 + w * (i + .1) / teeth; v.push_back({a, y0 + h * r.u(.8, 1.1)}); v.push_back({b, y0 + h * r.u(.1, .4)}); v.push_back({c, y0 + h * r.u(.6, .9)}); } double th = r.u(0, 6.3); for (auto& p : v) { Pt d = p - Pt{50, 50}; p = Pt{50 + d.x * cos(th) - d.y * sin(th), 50 + d.x * sin(th) + d.y * cos(th)}; } if (r.coin()) std::reverse(v.begin(), v.end()); return poly(v); }
inline Contour spiral(Rng& r, int n) { std::vector<Pt> v; double ph = r.u(0, 6.3), cx = r.u(40, 60), cy = r.u(40, 60), R = r.u(25, 40); for (int i = 0; i < n; ++i) { double a = ph + i * .7; double q = R * (i + 1) / n; v.push_back({cx + q * cos(a), cy + q * sin(a)}); } for (int i = n; i-- > 0;) { double a = ph + i * .7 + .08; double q = R * (i + 1) / n * .9; v.push_back({cx + q * cos(a), cy + q * sin(a)}); } if (r.coin()) std::reverse(v.begin(), v.end()); return poly(v); }
// random walk mixing horizontal, vertical and slanted steps
inline Contour mixed_walk(Rng& r, int n) { std::vector<Pt> v; Pt p{r.u(0, 100), r.u(0, 100)}; v.push_back(p); for (int i = 1; i < n; ++i) { int k = r.i(0, 2); if (k == 0) p.x = r.u(0, 100); else if (k == 1) p.y = r.u(0, 100); else p = {r.u(0, 100), r.u(0, 100)}; v.push_back(p); } return poly(v); }
inline Contour frect(Rng& r) { double x = r.u(0, 80), y = r.u(0, 80); return rect(x, y, x + r.u(5, 60), y + r.u(5, 60), r.coin()); }
inline Contour tri_small(Rng& r) { Pt c{r.u(5, 95), r.u(5, 95)}; std::vector<Pt> v; for (int i = 0; i < 3; ++i) v.push_back(c + Pt{r.u(-25, 25), r.u(-25, 25)}); return poly(v); }

// many contours around one spot, most of them in the same direction: winding numbers far beyond 1
inline Shape deep(Rng& r, int m) { Shape o; Pt cc{r.u(40, 60), r.u(40, 60)}; double R = 45; int n = r.i(3, 4); double ph = r.u(0, 6.3); bool cw = r.coin(), mix = r.chance(.3); double q = m > 200 ? .993 : m > 60 ? .985 : .95; for (int i = m; i--;) { std::vector<Pt> v; for (int k = 0; k < n; ++k) { double a = ph + 2 * M_PI * k / n; v.push_back({cc.x + R * cos(a), cc.y + R * sin(a)}); } if (cw != (mix && r.chance(.2))) std::reverse(v.begin(), v.end()); o.push_back(poly(v)); R *= q; } return o; }
static const int N_POLY = 17;
inline void poly_family(Rng& r, int fam, Shape& s, Shape& c) {
  for (int k = 0; k < 2; ++k) { Shape& o = k ? c : s; switch (fam) {
    case 0: o.push_back(random_poly(r, 3)); break;
    case 1: for (int i = r.i(1, 2); i--;) o.push_back(random_poly(r, r.i(3, 10))); break;
    case 2: for (int i = r.i(1, 2); i--;) o.push_back(int_poly(r, r.i(3, 7), 1000)); break;
    case 3: { int n = r.i(5, 11); o.push_back(star_poly(r, n, r.i(1, n / 2), r.coin())); break; }
    case 4: o.push_back(comb(r, r.i(2, 6))); break;
    case 5: o.push_back(k ? random_poly(r, r.i(3, 6)) : spiral(r, r.i(4, 9))); break;
    case 6: for (int i = r.i(1, 3); i--;) o.push_back(mixed_walk(r, r.i(3, 8))); break;
    case 7: for (int i = r.i(1, 3); i--;) o.push_back(frect(r)); break;
    case 8: for (int i = r.i(2, 9); i--;) o.push_back(tri_small(r)); break;
    case 9: { // nested rings of either orientation
      double cx = r.u(40, 60), cy = r.u(40, 60), R = 45; int n = r.i(3, 9); double ph = r.u(0, 6.3); for (int i = r.i(1, 4); i--;) { std::vector<Pt> v; for (int q = 0; q < n; ++q) v.push_back({cx + R * cos(ph + 2 * M_PI * q / n), cy + R * sin(ph + 2 * M_PI * q / n)}); if (r.coin()) std::reverse(v.begin(), v.end()); o.push_back(poly(v)); R *= r.u(.5, .85); } break; }
    case 10: o.push_back(k ? frect(r) : random_poly(r, r.i(3, 8))); break;
    case 11: o.push_back(k ? int_poly(r, r.i(3, 6), 200) : mixed_walk(r, r.i(4, 9))); break;
    case 12: // one operand empty, or made only of degenerate contours
      if ((k == 0) == (s.empty() && r.coin())) { int z = r.i(0, 3); if (z == 1) o.push_back(poly({{r.u(0, 100), r.u(0, 100)}})); if (z == 2) { Pt p{r.u(0, 100), r.u(0, 100)}; o.push_back(poly({p, p, p})); } if (z == 3) { double y = r.u(0, 100); o.push_back(poly({{r.u(0, 40), y}, {r.u(60, 100), y}})); } } else for (int i = r.i(1, 2); i--;) o.push_back(random_poly(r, r.i(3, 8))); break;
    case 13: o.push_back(random_poly(r, r.i(12, 26))); break;
    case 14: { // disjoint, contained or overlapping convex pieces of very different size
      Pt m{r.u(20, 80), r.u(20, 80)}; double R = pow(10, r.u(-1, 1.6)); int n = r.i(3, 8); double ph = r.u(0, 6.3); std::vector<Pt> v; for (int q = 0; q < n; ++q) v.push_back({m.x + R * cos(ph + 2 * M_PI * q / n), m.y + R * sin(ph + 2 * M_PI * q / n)}); if (r.coin()) std::reverse(v.begin(), v.end()); o.push_back(poly(v)); break; }
    case 16: if (k && r.chance(.8)) o.push_back(r.coin() ? frect(r) : random_poly(r, 3)); else { int z = k ? 99 : (int)r.i(0, 79); o = deep(r, z == 0 ? r.i(258, 275) : z < 10 ? r.i(18, 40) : r.i(3, 12)); } break;
    default: { // zigzags crossing each other many times
      std::vector<Pt> v; int n = r.i(4, 12); for (int i = 0; i < n; ++i) { double a = 100.0 * i / n, b = (i & 1) ? r.u(0, 45) : r.u(55, 100); v.push_back(k ? Pt{b, a + r.u(0, 4)} : Pt{a + r.u(0, 4), b}); } v.push_back(k ? Pt{-10 - r.u(0, 9), r.u(0, 100)} : Pt{r.u(0, 100), -10 - r.u(0, 9)}); o.push_back(poly(v)); break; }
  } }
}

// presentation noise: repeated points, explicit closing, rotation of the start
inline void present(Rng& r, Shape& s) { for (auto& c : s) { bool lines = true; for (auto& g : c.segs) lines &= g.k == 'l'; if (!lines || c.segs.size() < 2) { continue; } auto v = verts(c); if (r.chance(.5)) std::rotate(v.begin(), v.begin() + r.i(0, v.size() - 1), v.end()); if (r.chance(.2)) { size_t k = r.i(0, v.size() - 1); v.insert(v.begin() + k, v[k]); } if (r.chance(.3)) v.push_back(v[0]); c = poly(v); } }
inline void affine(Shape& s, double k, Pt off) { auto f = [&](Pt& p) { p = p * k + off; }; for (auto& c : s) { f(c.start); for (auto& g : c.segs) { f(g.c); if (g.k == 'c') { f(g.a); f(g.b); } } } }

// ---- degenerate but exactly representable contacts ----------------------
inline Contour orth_walk(Rng& r, int n, int g) { // rectilinear closed walk on the grid
  std::vector<Pt> v; double x = r.i(0, g), y = r.i(0, g), x0 = x; bool h = r.coin(); (void)x0; n &= ~1; if (n < 4) n = 4; Pt st{x, y}; v.push_back(st); for (int i = 1; i < n - 1; ++i) { double nx = x, ny = y; if (h) { do nx = r.i(0, g); while (nx == x); } else { do ny = r.i(0, g); while (ny == y); } x = nx; y = ny; h = !h; v.push_back({x, y}); }
  v.push_back(h ? Pt{st.x, y} : Pt{x, st.y}); return poly(v); }
static const int N_DEG = 12;
inline void deg_family(Rng& r, int fam, Shape& s, Shape& c) {
  switch (fam) {
    case 0: { int g = r.i(3, 12); for (Shape* o : {&s, &c}) for (int i = r.i(1, 4); i--;) { double x0 = r.i(0, g), x1 = r.i(0, g), y0 = r.i(0, g), y1 = r.i(0, g); if (x0 == x1) x1 += 1; if (y0 == y1) y1 += 1; o->push_back(rect(std::min(x0, x1), std::min(y0, y1), std::max(x0, x1), std::max(y0, y1), r.coin())); } break; }
    case 1: { int g = r.i(4, 12); for (Shape* o : {&s, &c}) for (int i = r.i(1, 2); i--;) o->push_back(orth_walk(r, r.i(4, 12), g)); break; }
    case 2: { Shape d; poly_family(r, r.i(0, 11), s, d); for (auto& k : s) c.push_back(r.coin() ? k : reversed(k)); if (r.coin()) std::reverse(c.begin(), c.end()); break; }       // the same contours as subject and clip
    case 3: { // triangulated grid, jittered: triangles share exact vertices and edges
      int n = r.i(2, 4); std::vector<std::vector<Pt>> g(n + 1, std::vector<Pt>(n + 1)); for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) g[i][j] = {100.0 * i / n + r.u(-8, 8), 100.0 * j / n + r.u(-8, 8)};
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int h = 0; h < 2; ++h) { std::vector<Pt> t = h ? std::vector<Pt>{g[i][j], g[i + 1][j + 1], g[i][j + 1]} : std::vector<Pt>{g[i][j], g[i + 1][j], g[i + 1][j + 1]}; if (r.coin()) std::reverse(t.begin(), t.end()); int k = r.i(0, 3); if (k == 0 || k == 2) s.push_back(poly(t)); if (k == 1 || k == 2) c.push_back(poly(t)); } break; }
    case 4: { s.push_back(int_poly(r, r.i(3, 6), 60)); double x = r.i(0, 40), y = r.i(0, 40); c.push_back(rect(x, y, x + r.i(3, 50), y + r.i(3, 50), r.coin())); break; }  // T-junctions on axis-parallel edges
    case 5: { // trapezoids resting on common horizontal lines
      int m = r.i(2, 4); std::vector<double> ys; for (int i = 0; i <= m; ++i) ys.push_back(r.i(0, 100)); for (Shape* o : {&s, &c}) for (int i = r.i(1, 3); i--;) { double a = ys[r.i(0, m)], b = ys[r.i(0, m)]; if (a == b) b = a + 13; double x0 = r.u(0, 60), x1 = r.u(0, 60); std::vector<Pt> v{{x0, a}, {x0 + r.u(5, 40), a}, {x1 + r.u(5, 40), b}, {x1, b}}; if (r.coin()) std::reverse(v.begin(), v.end()); o->push_back(poly(v)); } break; }
    case 6: { // polygons fanned around one common vertex
      Pt m{r.u(30, 70), r.u(30, 70)}; for (Shape* o : {&s, &c}) for (int i = r.i(1, 3); i--;) { double a = r.u(0, 6.3), w = r.u(.3, 1.5), R = r.u(15, 45); std::vector<Pt> v{m, {m.x + R * cos(a), m.y + R * sin(a)}, {m.x + R * cos(a + w), m.y + R * sin(a + w)}}; if (r.coin()) std::reverse(v.begin(), v.end()); o->push_back(poly(v)); } break; }
    case 7: { // two polygons on either side of a common slanted edge, crossed by a third
      Pt a{r.u(20, 45), r.u(20, 45)}, b{r.u(55, 80), r.u(55, 80)}; s.push_back(poly({a, b, {r.u(0, 20), r.u(80, 100)}})); (r.coin() ? s : c).push_back(poly({b, a, {r.u(80, 100), r.u(0, 20)}})); c.push_back(random_poly(r, 3)); break; }
    case 8: { Shape d; poly_family(r, r.i(0, 3), s, c); Contour f = poly({{r.u(0, 100), r.u(0, 100)}, {r.u(0, 100), r.u(0, 100)}}); (r.coin() ? s : c).push_back(f); break; } // a there-and-back contour of zero area
    case 9: { int g = r.i(2, 5); for (Shape* o : {&s, &c}) for (int i = 0; i < g; ++i) for (int j = 0; j < g; ++j) if (r.chance(.45)) o->push_back(rect(i * 10, j * 10, i * 10 + 10, j * 10 + 10, r.coin())); break; } // checkerboards of cells
    case 10: { // stairs and combs with aligned feet and tops
      for (Shape* o : {&s, &c}) { int t = r.i(2, 5); std::vector<Pt> v; double base = r.i(0, 3) * 10, top = base + r.i(2, 6) * 10, x = r.i(0, 4) * 5; v.push_back({x, base}); std::vector<Pt> back; for (int i = 0; i < t; ++i) { double h = r.coin() ? top : base + r.i(1, 2) * 10; v.push_back({x, h}); double w = r.i(1, 3) * 5; v.push_back({x + w, h}); x += w; if (r.coin() && i + 1 < t) { v.push_back({x, base + 5.0}); double w2 = r.i(1, 2) * 5; v.push_back({x + w2, base + 5.0}); x += w2; } } v.push_back({x, base}); if (r.coin()) std::reverse(v.begin(), v.end()); o->push_back(poly(v)); } break; }
    default: { // exact repeats of one contour inside one operand
      Shape d; poly_family(r, r.i(0, 2), s, c); Contour k = s[0]; int z = r.i(0, 39); double back = z < 4 ? .1 : .5; for (int i = z >= 4 ? r.i(1, 2) : k.segs.size() > 4 ? r.i(14, 24) : z ? r.i(14, 40) : r.i(120, 150); i--;) (z < 2 || r.coin() ? s : c).push_back(r.chance(back) ? reversed(k) : k); break; }
  }
}

// ---- curves ---------------------------------------------------------------
inline Contour circle(Pt m, double rx, double ry, double ph, bool cw) { const double k = 0.5522847498307936; Pt q[13] = {{1, 0}, {1, k}, {k, 1}, {0, 1}, {-k, 1}, {-1, k}, {-1, 0}, {-1, -k}, {-k, -1}, {0, -1}, {k, -1}, {1, -k}, {1, 0}}; for (auto& p : q) { double x = p.x * rx, y = p.y * ry; p = {m.x + x * cos(ph) - y * sin(ph), m.y + x * sin(ph) + y * cos(ph)}; } q[12] = q[0]; Contour c; c.start = q[0]; for (int i = 0; i < 4; ++i) c.segs.push_back({'c', q[3 * i + 1], q[3 * i + 2], q[3 * i + 3]}); return cw ? reversed(c) : c; }
inline Contour blob(Rng& r, int n) { std::vector<Pt> v; Pt m{r.u(30, 70), r.u(30, 70)}; double R = r.u(12, 40), ph = r.u(0, 6.3); for (int i = 0; i < n; ++i) { double a = ph + 2 * M_PI * i / n, q = R * r.u(.6, 1.1); v.push_back({m.x + q * cos(a), m.y + q * sin(a)}); } Contour c; c.start = v[0]; for (int i = 0; i < n; ++i) { Pt a = v[(i + n - 1) % n], b = v[i], d = v[(i + 1) % n], e = v[(i + 2) % n]; c.segs.push_back({'c', b + (d - a) * (1 / 6.), d - (e - b) * (1 / 6.), d}); } return r.coin() ? reversed(c) : c; }
inline Contour mixed_curve(Rng& r, int n, double pc) { Contour c; c.start = {r.u(0, 100), r.u(0, 100)}; for (int i = 1; i < n; ++i) { Pt t{r.u(0, 100), r.u(0, 100)}; if (r.chance(pc)) c.segs.push_back({'c', {r.u(0, 100), r.u(0, 100)}, {r.u(0, 100), r.u(0, 100)}, t}); else c.segs.push_back({'l', {}, {}, t}); } return c; }
inline Contour round_rect(Rng& r) { double x = r.u(0, 60), y = r.u(0, 60), w = r.u(15, 60), h = r.u(15, 60), q = std::min(w, h) * r.u(.1, .45), k = q * 0.4477152501692064; Contour c; c.start = {x + q, y}; auto L = [&](double a, double b) { c.segs.push_back({'l', {}, {}, {a, b}}); }; auto Cc = [&](Pt a, Pt b, Pt t) { c.segs.push_back({'c', a, b, t}); }; L(x + w - q, y); Cc({x + w - k, y}, {x + w, y + k}, {x + w, y + q}); L(x + w, y + h - q); Cc({x + w, y + h - k}, {x + w - k, y + h}, {x + w - q, y + h}); L(x + q, y + h); Cc({x + k, y + h}, {x, y + h - k}, {x, y + h - q}); L(x, y + q); Cc({x, y + k}, {x + k, y}, {x + q, y}); return r.coin() ? reversed(c) : c; }
// arches and other curves whose cubic term vanishes in x or y: symmetric control points, raised quadratics
inline Contour arch(Rng& r) { Contour c; double x = r.u(0, 60), y = r.u(0, 60), w = r.u(15, 60), h = r.u(10, 50) * (r.coin() ? 1 : -1); if (r.coin()) { x = std::floor(x); y = std::floor(y); w = std::floor(w); h = std::floor(h); } int kind = r.i(0, 3); auto P = [&](double a, double b) { return Pt{x + a, y + b}; };
  c.start = P(0, 0); if (kind == 0) c.segs.push_back({'c', P(0, h), P(w, h), P(w, 0)}); else if (kind == 1) c.segs.push_back({'c', P(w / 4, h), P(3 * w / 4, h), P(w, 0)}); else if (kind == 2) { double d = r.u(-20, 20); c.segs.push_back({'c', P(0, h), P(w, h + d), P(w, d)}); } else { Pt q{x + r.u(0, w), y + h}, e = P(w, r.u(-10, 10)); c.segs.push_back({'c', c.start + (q - c.start) * (2 / 3.), e + (q - e) * (2 / 3.), e}); }
  Pt e = c.segs.back().c; int back = r.i(0, 2); if (back == 0) c.segs.push_back({'l', {}, {}, P(w / 2, -h * r.u(.2, 1))}); else if (back == 1) c.segs.push_back({'c', {e.x, e.y - h}, P(0, -h), P(0, 0)});
  if (r.coin()) { auto sw = [](Pt& p) { std::swap(p.x, p.y); }; sw(c.start); for (auto& g : c.segs) { sw(g.a); sw(g.b); sw(g.c); } } return r.coin() ? reversed(c) : c; }
// a chain of two cubics that runs up the middle with hardly any slant, closed far left or right
inline Contour s_band(Rng& r, double x, double am, bool flat) { Contour c; c.start = {x + r.u(-3, 3), 0}; double y = 0; int n = r.i(1, 2); for (int i = 0; i < n; ++i) { double h = 100. / n; double y1 = y + h * (flat ? r.u(.5, .75) : r.u(.2, .5)), y2 = y + h * (flat ? r.u(.25, .5) : r.u(.5, .8)); double s = r.coin() ? 1 : -1; c.segs.push_back({'c', {x + s * am * r.u(.5, 1), y1}, {x - s * am * r.u(.5, 1), y2}, {x + r.u(-3, 3), y + h}}); y += h; } double f = r.coin() ? -40 : 140; c.segs.push_back({'l', {}, {}, {f, 100 + r.u(0, 9)}}); c.segs.push_back({'l', {}, {}, {f, -r.u(0, 9)}}); return r.coin() ? reversed(c) : c; }
// a cubic with two large humps, from one corner of its box to the other; with one lying across it up to nine crossings
inline void humps(Rng& r, bool across, Pt* p) { double a = r.u(.75, 1.05), j = r.coin() ? .12 : .02; auto n = [&] { return r.u(-j, j); }; Pt q[4] = {{-1, -a}, {-1 / 3., 5 * a}, {1 / 3., -5 * a}, {1, a}}; bool flip = r.coin(); for (int i = 0; i < 4; ++i) { Pt z{q[i].x * 1.02 + n(), (flip ? -q[i].y : q[i].y) + n()}; if (across) std::swap(z.x, z.y); p[i] = {50 + 40 * z.x, 50 + 40 * z.y}; } }
static const int N_CURVE = 17;
inline void curve_family(Rng& r, int fam, Shape& s, Shape& c) {
  for (int k = 0; k < 2; ++k) { Shape& o = k ? c : s; switch (fam) {
    case 0: for (int i = r.i(1, 2); i--;) { double R = r.u(8, 35); o.push_back(circle({r.u(30, 70), r.u(30, 70)}, R, R, 0, r.coin())); } break;
    case 1: o.push_back(circle({r.u(30, 70), r.u(30, 70)}, r.u(8, 35), r.u(8, 35), r.u(0, 6.3), r.coin())); break;
    case 2: o.push_back(blob(r, r.i(3, 7))); break;
    case 3: o.push_back(mixed_curve(r, r.i(3, 5), .5)); break;
    case 4: o.push_back(mixed_curve(r, 3, 1)); break;
    case 5: o.push_back(round_rect(r)); break;
    case 6: o.push_back(k ? random_poly(r, r.i(3, 6)) : mixed_curve(r, r.i(2, 4), .8)); break;
    case 7: o.push_back(k ? frect(r) : blob(r, r.i(3, 6))); break;
    case 8: { double R = r.u(8, 35); o.push_back(circle({r.u(30, 70), r.u(30, 70)}, R, R, 0, r.coin())); if (r.coin()) o.push_back(frect(r)); break; }
    case 9: o.push_back(arch(r)); if (r.chance(.3)) o.push_back(arch(r)); break;
    case 10: o.push_back(s_band(r, 50 + r.u(-6, 6), r.u(5, 40), r.coin())); break;   // two that wind around each other
    case 11: { // a shallow lens: two arcs over nearly the same chord
      Contour w; double b = r.u(10, 60), d = k ? r.u(-1, 1) * pow(10, r.u(-1, 1)) : 0, h = k ? b * r.u(.6, 1.4) : b; w.start = {10 + d, 30 + (k ? r.u(-4, 4) : 0)}; w.segs.push_back({'c', {30, 30 + h}, {70, 30 + h}, {90 - d, 30 + (k ? r.u(-4, 4) : 0)}}); w.segs.push_back({'l', {}, {}, {50 + r.u(-20, 20), -r.u(5, 40)}}); double th = (double)r.i(0, 3) * M_PI / 2 + (r.coin() ? .37 : 0); auto tr = [&](Pt& p) { Pt q = p - Pt{50, 50}; p = {50 + q.x * cos(th) - q.y * sin(th), 50 + q.x * sin(th) + q.y * cos(th)}; }; static thread_local double th0; if (!k) th0 = th; th = th0; tr(w.start); for (auto& g : w.segs) { tr(g.a); tr(g.b); tr(g.c); } o.push_back(w); break; }
    case 12: { Contour w = k ? random_poly(r, r.i(3, 6)) : s_band(r, 50, r.u(20, 120), true); o.push_back(w); break; }   // y turns back for a short stretch
    case 14: { // the same heights again and again, as in any regular drawing: extrema that tie up to rounding
      static thread_local double y[4]; static thread_local bool grid; if (!k) { grid = r.coin(); double b = r.u(20, 60); y[0] = b; y[1] = b + r.u(-45, 45); y[2] = b + r.u(-45, 45); y[3] = r.coin() ? b : b + r.u(-20, 20); if (grid) for (double& v : y) v = std::floor(v); }
      for (int i = r.i(1, 3); i--;) { double x = r.u(0, 70), w = r.u(15, 40); bool mir = r.coin(), up = r.coin(); if (grid) { x = std::floor(x); w = std::floor(w); } double x1 = x + w * r.u(0, 1), x2 = x + w * r.u(0, 1); if (grid) { x1 = std::floor(x1); x2 = std::floor(x2); } auto Y = [&](int q) { return y[mir ? 3 - q : q]; };
        Contour u; u.start = {x, Y(0)}; u.segs.push_back({'c', {x1, Y(1)}, {x2, Y(2)}, {x + w, Y(3)}}); double e = y[up ? 1 : 2] > y[0] ? -20 - r.i(0, 30) : 120 + r.i(0, 30); if (r.coin()) u.segs.push_back({'l', {}, {}, {x + w, e}}); u.segs.push_back({'l', {}, {}, {x, e + r.i(-2, 2)}}); o.push_back(r.coin() ? reversed(u) : u); } break; }
    case 16: { Pt p[4]; humps(r, k, p); Contour w; w.start = p[0]; w.segs.push_back({'c', p[1], p[2], p[3]}); double f = r.coin() ? -30 : 130; Pt a{p[3].x + r.u(-9, 9), f}, b{p[0].x + r.u(-9, 9), f + r.u(-5, 5)}; if (k) { a = {f, p[3].y + r.u(-9, 9)}; b = {f + r.u(-5, 5), p[0].y + r.u(-9, 9)}; } w.segs.push_back({'l', {}, {}, a}); w.segs.push_back({'l', {}, {}, b}); double th = r.coin() ? 0 : r.u(0, 6.3); static thread_local double th0; if (!k) th0 = th; th = th0; auto tr = [&](Pt& z) { Pt q = z - Pt{50, 50}; z = {50 + q.x * cos(th) - q.y * sin(th), 50 + q.x * sin(th) + q.y * cos(th)}; }; tr(w.start); for (auto& g : w.segs) { tr(g.a); tr(g.b); tr(g.c); } o.push_back(r.coin() ? reversed(w) : w); break; }
    case 13: { // nearly straight curves
      Contour p = r.chance(.3) ? frect(r) : random_poly(r, r.i(3, 5)), w; w.start = p.start; Pt cur = p.start; auto to = [&](Pt e) { Pt v = e - cur, n{-v.y, v.x}; double b = r.chance(.1) ? 0 : std::pow(10, r.u(-5, -.7)) * (r.coin() ? 1 : -1), b2 = r.coin() ? b : b * r.u(-1, 1), f1 = r.u(.1, .6), f2 = r.u(.4, .9); w.segs.push_back({'c', cur + v * f1 + n * b, cur + v * f2 + n * b2, e}); cur = e; };
      for (auto& g : p.segs) if (r.chance(.7)) to(g.c); else { w.segs.push_back(g); cur = g.c; } if (r.chance(.7)) to(w.start); o.push_back(w); break; }
    default: { // wavy bands: curve chains with many crossings
      Contour w; int n = r.i(2, 3); double y = r.u(30, 60); w.start = k ? Pt{y, 0} : Pt{0, y}; for (int i = 0; i < n; ++i) { double a = 100.0 * i / n, st = 100.0 / n, am = r.u(20, 60); Pt p1{a + st * .3, y + am}, p2{a + st * .7, y - am}, p3{a + st, y + r.u(-5, 5)}; if (k) { std::swap(p1.x, p1.y); std::swap(p2.x, p2.y); std::swap(p3.x, p3.y); } w.segs.push_back({'c', p1, p2, p3}); } w.segs.push_back({'l', {}, {}, k ? Pt{-20, 100} : Pt{100, -20}}); w.segs.push_back({'l', {}, {}, k ? Pt{-20, 0} : Pt{0, -20}}); o.push_back(w); break; }
  } }
}

}
