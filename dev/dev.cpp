// C16: the develop build. Compiled twice: against the normal library (only the
// results, to compare with) and, with RV_DEV, against the library built with
// its drawing calls plus debug_util, while this process plays the viewer.
#include "../harness/meta.h"
#ifdef RV_DEV
#include "debug_util.h"
#include "util.h"
#include <QBrush>
#include <QByteArray>
#include <QColor>
#include <QDataStream>
#include <QIODevice>
#include <QLineF>
#include <QPen>
#include <QPointF>
#include <QRectF>
#include <arpa/inet.h>
#include <atomic>
#include <csignal>
#include <array>
#include <mutex>
#include <set>
#include <netinet/in.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>

struct Msg { std::string method, path, name, file, body; int parts = 0; bool ok = false; };
enum { GOOD, ERROR_REPLY, HANG_UP, HALF_REPLY, ABSENT };
struct Viewer { int fd = -1; std::thread th; std::mutex mu; std::vector<Msg> got; std::atomic<int> mode{GOOD}; std::atomic<bool> stop{false}; std::atomic<long> conns{0};
  bool start() { signal(SIGPIPE, SIG_IGN); for (int t = 0; t < 200; ++t) { fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); int on = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(5569); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (!bind(fd, (sockaddr*)&a, sizeof a) && !listen(fd, 64)) { th = std::thread([this] { loop(); }); return true; } close(fd); usleep(50000); } return false; }
  void loop() { for (;;) { int c = accept4(fd, nullptr, nullptr, SOCK_CLOEXEC); if (c < 0 || stop) { if (c >= 0) close(c); break; } conns++; if (mode == HANG_UP) { char b[64]; if (conns & 1) (void)!read(c, b, sizeof b); else serve(c); close(c); continue; } serve(c); close(c); } }
  static size_t find(const std::string& s, const char* w, size_t from = 0) { return s.find(w, from); }
  void serve(int c) { std::string in; char b[16384]; size_t he; for (;;) { he = find(in, "\r\n\r\n"); if (he != std::string::npos) break; ssize_t n = read(c, b, sizeof b); if (n <= 0) return; in.append(b, n); } std::string head = in.substr(0, he); std::string low = head; for (auto& ch : low) ch = tolower(ch); Msg m; { size_t a = head.find(' '), e = head.find(' ', a + 1); m.method = head.substr(0, a); m.path = head.substr(a + 1, e - a - 1); }
    size_t cl = low.find("content-length:"); size_t len = cl == std::string::npos ? 0 : strtoul(low.c_str() + cl + 15, 0, 10); if (low.find("100-continue") != std::string::npos) { const char* k = "HTTP/1.1 100 Continue\r\n\r\n"; (void)!write(c, k, strlen(k)); }
    std::string body = in.substr(he + 4); while (body.size() < len) { ssize_t n = read(c, b, sizeof b); if (n <= 0) return; body.append(b, n); }
    size_t bd = head.find("boundary="); if (bd != std::string::npos) { std::string bo = head.substr(bd + 9); bo = bo.substr(0, bo.find_first_of("\r\n;")); std::string d = "--" + bo; size_t p = body.find(d); while (p != std::string::npos) { size_t q = body.find("\r\n" + d, p); if (q == std::string::npos) break; m.parts++; std::string part = body.substr(p + d.size() + 2, q - p - d.size() - 2); size_t ph = part.find("\r\n\r\n"); if (ph != std::string::npos) { std::string h = part.substr(0, ph); m.body = part.substr(ph + 4); auto val = [&](const char* k) { size_t z = h.find(k); if (z == std::string::npos) return std::string(); z += strlen(k); return h.substr(z, h.find('"', z) - z); }; m.name = val(" name=\""); m.file = val("filename=\""); m.ok = true; } p = q + 2; } }
    if (mode == HANG_UP) return;
    { std::lock_guard<std::mutex> g(mu); got.push_back(m); }
    int md = mode; const char* r = md == ERROR_REPLY ? "HTTP/1.1 500 Internal Server Error\r\nContent-Length: 3\r\nConnection: close\r\n\r\nno\n" : md == HALF_REPLY ? "HTTP/1.1 200 OK\r\nContent-Length: 800\r\n\r\npart" : "HTTP/1.1 200 OK\r\nContent-Length: 8\r\nConnection: close\r\n\r\nsuccess\n"; (void)!write(c, r, strlen(r)); shutdown(c, SHUT_WR); while (read(c, b, sizeof b) > 0) {} }
  void halt() { if (fd < 0) return; stop = true; shutdown(fd, SHUT_RDWR); th.join(); close(fd); fd = -1; stop = false; }
  std::vector<Msg> take() { std::lock_guard<std::mutex> g(mu); std::vector<Msg> o; o.swap(got); return o; } };
static Viewer V;

struct Drawn { char k; Pt p[4]; QRgb color; QPen pen; QBrush brush; };
// what a viewer reads from one message
static bool decode(const Msg& m, Drawn& d, std::string& bad) { if (m.method != "POST" || !m.ok || m.parts != 1 || m.file.empty()) { bad = fmt("not a POST with exactly one file: %s %s, %d parts", m.method.c_str(), m.path.c_str(), m.parts); return false; } static const char pre[] = "/debug_util/v1/user/"; if (m.path.compare(0, sizeof pre - 1, pre)) { bad = "path " + m.path; return false; } std::string t = m.path.substr(sizeof pre - 1);
  QByteArray a(m.body.data(), (int)m.body.size()); QDataStream s(&a, QIODevice::ReadOnly); if (t == "line") { QLineF l; s >> l >> d.pen; d.k = 'l'; d.p[0] = {l.x1(), l.y1()}; d.p[3] = {l.x2(), l.y2()}; } else if (t == "cubic") { QPointF q[4]; s >> q[0] >> q[1] >> q[2] >> q[3] >> d.pen; d.k = 'c'; for (int i = 0; i < 4; ++i) d.p[i] = {q[i].x(), q[i].y()}; } else if (t == "rect") { QRectF r; s >> r >> d.pen >> d.brush; d.k = 'r'; d.p[0] = {r.x(), r.y()}; d.p[3] = {r.width(), r.height()}; } else if (t == "point") { QPointF q; s >> q >> d.pen; d.k = 'p'; d.p[0] = {q.x(), q.y()}; } else { bad = "unknown shape " + t; return false; }
  if (s.status() != QDataStream::Ok || !s.atEnd()) { bad = fmt("the %s message has %zu bytes that do not decode", t.c_str(), m.body.size()); return false; } d.color = d.pen.color().rgb(); return true; }
static bool collect(Ctx& x, std::vector<Drawn>& out, const std::string& what) { for (auto& m : V.take()) { Drawn d; std::string bad; x.count("messages"); if (!decode(m, d, bad)) { x.fail("message", bad + " " + what); return false; } out.push_back(d); } return true; }
static double arc_len(const Edge& e) { double L = 0; for (int i = 0; i < 400; ++i) L += len(e.at((i + 1) / 400.) - e.at(i / 400.)); return L; }
// the drawn pieces are the pieces of these edges
static bool same_drawing(Ctx& x, const std::vector<Drawn>& dr, const Shape& s, const char* which, const std::string& what, double D) { std::vector<Edge> es; edges_of(s, 0, es); typedef std::array<double, 4> Q; std::multiset<Q> want; double lc = 0, gc = 0; for (auto& e : es) { if (!e.cubic) want.insert({e.p0.x, e.p0.y, e.p3.x, e.p3.y}); else lc += arc_len(e); }
  for (auto& d : dr) { x.count("drawn_pieces"); if (d.k == 'l') { if (d.p[0] == d.p[3]) continue; auto it = want.find({d.p[0].x, d.p[0].y, d.p[3].x, d.p[3].y}); if (it == want.end()) { x.fail("drawing", fmt("a line (%.17g,%.17g)-(%.17g,%.17g) is shown that the %s does not have ", d.p[0].x, d.p[0].y, d.p[3].x, d.p[3].y, which) + what); return false; } want.erase(it); }
    else if (d.k == 'c') { Edge o; o.cubic = true; o.p0 = d.p[0]; o.p1 = d.p[1]; o.p2 = d.p[2]; o.p3 = d.p[3]; gc += arc_len(o); bool ok = false; for (auto& e : es) { if (!e.cubic) continue; bool on = true; for (double t : {0., .3, .6, 1.}) if (dist_cubic(o.at(t), e) > 1e-7 * D) { on = false; break; } if (on) { ok = true; break; } } if (!ok) { x.fail("drawing", fmt("a curve from (%.17g,%.17g) is shown that the %s does not have ", d.p[0].x, d.p[0].y, which) + what); return false; } }
    else { x.fail("drawing", std::string("unexpected shape ") + d.k + " " + what); return false; } }
  if (!want.empty()) { auto q = *want.begin(); x.fail("drawing", fmt("line (%.17g,%.17g)-(%.17g,%.17g) of the %s is not shown ", q[0], q[1], q[2], q[3], which) + what); return false; } if (std::fabs(lc - gc) > 1e-5 * (lc + D)) { x.fail("drawing", fmt("curves of length %.9g of the %s are shown with length %.9g ", lc, which, gc) + what); return false; } return true; }
#endif

static void c16(Ctx& x) {
  Shape s, c; Arr A; int k = x.index % 3; uint64_t q = x.index / 3; static const int deg[] = {0, 1, 3, 4, 5, 6, 7, 9, 10};
  if (!(k == 0 ? gen_lines(x, s, c, A, (const int[]){0, 1, 2, 3, 4, 6, 7, 8, 9, 10, 11}[q % 11]) : k == 1 ? gen_deg(x, s, c, A, deg[q % 9]) : gen_curves(x, s, c, A, q % gen::N_CURVE))) return;
  // a curve that lies on a horizontal line may be drawn as the line it is; not used here
  for (Shape* z : {&s, &c}) for (auto& k0 : *z) { Pt cur = k0.start; for (auto& g : k0.segs) { if (g.k == 'c' && g.a.y == cur.y && g.b.y == cur.y && g.c.y == cur.y) g.k = 'l', g.a = g.b = {}; cur = g.c; } } { std::vector<Edge> es; edges_of(s, 0, es); edges_of(c, 1, es); A.es = es; }
  int op = x.rng.i(1, 4), fr = x.rng.i(0, 3), mode = x.rng.chance(.6) ? 0 : x.rng.i(1, 4), style = x.rng.i(0, 1); std::string what = desc(s, c, op, fr) + fmt(" viewer mode %d", mode); if (x.verbose) { printf("%s\n", what.c_str()); fflush(stdout); }
  Rec rec, rec2; river::processor p;
#ifdef RV_DEV
  if (mode == ABSENT) V.halt(); else if (V.fd < 0 && !V.start()) { fprintf(stderr, "port 5569 is taken\n"); _exit(98); } V.mode = mode; long conns0 = V.conns; (void)conns0; std::vector<Drawn> d1, d2, d3; V.take(); static const char* mn[] = {"viewer_listening", "viewer_answers_500", "viewer_hangs_up", "viewer_half_answers", "viewer_absent"}; x.count(mn[mode]);
#endif
  if (style) p.add_path(read_shape, &s, river::path_type::subject); else p.add_path(to_river(s), river::path_type::subject);
#ifdef RV_DEV
  if (!collect(x, d1, what)) return;
#endif
  if (style) p.add_path(read_shape, &c, river::path_type::clip); else p.add_path(to_river(c), river::path_type::clip);
#ifdef RV_DEV
  if (!collect(x, d2, what)) return;
#endif
  p.process((river::clip_type)op, (river::fill_rule)fr, recorder(), &rec);
#ifdef RV_DEV
  if (!collect(x, d3, what)) return;
#endif
  { river::paths o; p.process((river::clip_type)op, (river::fill_rule)fr, o); auto f = recorder(); for (auto& z : o) z.traverse(f, &rec2); } x.count("process_calls", 2);
  uint64_t h = 1469598103934665603ull; for (auto* r : {&rec, &rec2}) for (auto& e : r->ev) { h = drv::hash_bytes(&e.k, 1, h); h = drv::hash_bytes(&e.to, sizeof e.to, h); if (e.k == 'c') { h = drv::hash_bytes(&e.a, sizeof e.a, h); h = drv::hash_bytes(&e.b, sizeof e.b, h); } }
  x.distinct((h & ~0xffffffull) | (x.index & 0xffffff)); if (!rec.ev.empty()) x.count("nontrivial");
#ifdef RV_DEV
  if (mode == GOOD || mode == ERROR_REPLY || mode == HALF_REPLY) { x.count("drawings_checked"); const QRgb black = QColor(Qt::black).rgb(), blue = QColor(Qt::blue).rgb(), red = QColor(Qt::red).rgb(); struct { std::vector<Drawn>* d; QRgb c; const char* n; } W[] = {{&d1, black, "subject"}, {&d2, blue, "clip"}, {&d3, red, "result"}}; for (auto& w : W) for (auto& d : *w.d) if (d.color != w.c) { x.fail("colour", fmt("a piece of the %s is drawn in colour %08x ", w.n, d.color) + what); return; }
    if (!same_drawing(x, d1, s, "subject", what, A.D) || !same_drawing(x, d2, c, "clip", what, A.D) || !same_drawing(x, d3, shape_of(rec), "result", what, A.D)) return; }
  else if (mode == ABSENT && (d1.size() || d2.size() || d3.size())) { x.fail("absent", "messages although nobody listens " + what); return; }
  // the drawing functions themselves
  if (mode == GOOD) { auto& r = x.rng; if (r.chance(.3)) debug_util::connect(); double sc = std::pow(10, r.u(-3, 6)); auto v = [&] { return r.u(-1, 1) * sc; }; QPen pen(QColor((int)r.i(0, 255), (int)r.i(0, 255), (int)r.i(0, 255)), r.u(.1, 9)); QBrush br(QColor((int)r.i(0, 255), (int)r.i(0, 255), (int)r.i(0, 255))); V.take(); double z[8]; for (auto& t : z) t = v(); debug_util::show_line(QLineF(z[0], z[1], z[2], z[3]), pen); debug_util::show_rect(QRectF(z[0], z[1], z[2], z[3]), pen, br); debug_util::show_cubic({z[0], z[1]}, {z[2], z[3]}, {z[4], z[5]}, {z[6], z[7]}, pen); debug_util::show_point({z[4], z[5]}, pen); std::vector<Drawn> d; if (!collect(x, d, "direct call")) return; x.count("direct_calls", 4);
    auto eq = [&](Pt a, double u, double w) { return a.x == u && a.y == w; }; bool ok = d.size() == 4 && d[0].k == 'l' && d[1].k == 'r' && d[2].k == 'c' && d[3].k == 'p'; if (ok) { ok = eq(d[0].p[0], z[0], z[1]) && eq(d[0].p[3], z[2], z[3]) && eq(d[1].p[0], z[0], z[1]) && eq(d[1].p[3], z[2], z[3]) && eq(d[3].p[0], z[4], z[5]); for (int i = 0; i < 4; ++i) ok &= eq(d[2].p[i], z[2 * i], z[2 * i + 1]); for (auto& q : d) ok &= q.pen == pen; ok &= d[1].brush == br; } if (!ok) { x.fail("direct", "show_line/rect/cubic/point did not deliver what they were given"); return; } }
  // whole shapes, moved by an offset
  if (mode == GOOD) { auto& r = x.rng; double sc = std::pow(10, r.u(-2, 4)); auto v = [&] { return r.u(-1, 1) * sc; }; QPen pen(QColor((int)r.i(0, 255), (int)r.i(0, 255), (int)r.i(0, 255)), r.u(.1, 9)); Pt o{0, 0}; if (r.chance(.7)) o = {v(), v()}; double z[8]; for (auto& t : z) t = v(); auto pt = [&](int i) { return rmath::vec2(z[2 * i], z[2 * i + 1]); }; QPointF off(o.x, o.y); V.take();
    draw_path(rmath::line{pt(0), pt(1)}, pen, off); draw_path(rmath::bezier_cubic{pt(0), pt(1), pt(2), pt(3)}, pen, off);
    river::paths many; many.emplace_back(); many[0].moveto(pt(0)); many[0].lineto(pt(1)); many[0].cubicto(pt(2), pt(3), pt(0)); many.emplace_back(); many[1].moveto(pt(3)); many[1].lineto(pt(2)); draw_path(many[1], pen, off); draw_path(many, pen, off); std::vector<Drawn> d; if (!collect(x, d, "draw_path")) return; x.count("draw_path_calls", 4);
    struct W { char k; int i[4]; }; static const W want[] = {{'l', {0, 0, 0, 1}}, {'c', {0, 1, 2, 3}}, {'l', {3, 0, 0, 2}}, {'l', {0, 0, 0, 1}}, {'c', {1, 2, 3, 0}}, {'l', {3, 0, 0, 2}}}; bool ok = d.size() == 6; auto at = [&](Pt a, int i) { return a.x == z[2 * i] + o.x && a.y == z[2 * i + 1] + o.y; };
    for (int k = 0; ok && k < 6; ++k) { ok = d[k].k == want[k].k && d[k].pen == pen && at(d[k].p[0], want[k].i[0]) && at(d[k].p[3], want[k].i[3]); if (ok && d[k].k == 'c') ok = at(d[k].p[1], want[k].i[1]) && at(d[k].p[2], want[k].i[2]); if (!ok) { x.fail("draw_path", fmt("piece %d: from (%.17g,%.17g), expected (%.17g,%.17g)+(%.17g,%.17g)", k, d[k].p[0].x, d[k].p[0].y, z[2 * want[k].i[0]], z[2 * want[k].i[0] + 1], o.x, o.y)); return; } } if (!ok) { x.fail("draw_path", fmt("%zu pieces shown, expected 6", d.size())); return; } }
  // nobody is asked twice
  if (mode == HANG_UP) { size_t pieces = 0; std::vector<Edge> all; edges_of(s, 0, all); edges_of(c, 1, all); for (auto& e : all) pieces += e.cubic ? 3 : 1; for (auto* r : {&rec, &rec2}) for (auto& e : r->ev) pieces += e.k == 'm' ? 0 : 3; x.count("hang_ups_counted"); long n = V.conns - conns0; x.maximum("connections_per_piece_when_hung_up", n / (double)(pieces + 1)); if (n > (long)pieces + 2) { x.fail("hang-up", fmt("%ld connections for at most %zu pieces ", n, pieces) + what); return; } }
#endif
  if (x.index % 37 == 3) x.sample(what);
}
static drv::Reg r16("C16", c16);
#ifdef RV_DEV
struct AtEnd { ~AtEnd() { V.halt(); } } at_end;
#endif
