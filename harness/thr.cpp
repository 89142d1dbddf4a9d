// C08: no shared state between processors. Concurrent use of distinct
// processors (thread sanitizer build) and repeated use under a perturbed heap
// and stack (plain build) must give the bits the work gives on its own.
#include "clip.h"
#include <alloca.h>
#include <atomic>
#include <malloc.h>
#include <memory>
#include <mutex>
#include <set>
#include <thread>

// yields are injected at the callback boundary
static thread_local drv::Rng* t_rng = nullptr; static std::atomic<long> g_yields{0};
static void hiccup() { if (!t_rng) return; long k = t_rng->i(0, 15); if (k == 0) { std::this_thread::yield(); g_yields.fetch_add(1, std::memory_order_relaxed); } else if (k == 1) { struct timespec ts{0, 1000 * t_rng->i(1, 30)}; nanosleep(&ts, nullptr); g_yields.fetch_add(1, std::memory_order_relaxed); } }
static void read_slow(read_path_func_para) { for (auto& c : *(const Shape*)paths) { river::point cur(0, 0), n = to(c.start); hiccup(); segment_funcs.move_to(cur, n, user); cur = n; for (auto& g : c.segs) { hiccup(); n = to(g.c); if (g.k == 'l') segment_funcs.line_to(cur, n, user); else segment_funcs.cubic_to(cur, to(g.a), to(g.b), n, user); cur = n; } } }
static river::path_traverse_funcs slow_recorder() { static const river::path_traverse_funcs f0 = recorder(); river::path_traverse_funcs f;
  f.move_to = [](path_moveto_func_para) { hiccup(); f0.move_to(from, to, user); }; f.line_to = [](path_lineto_func_para) { hiccup(); f0.line_to(from, to, user); }; f.cubic_to = [](path_cubicto_func_para) { hiccup(); f0.cubic_to(from, ctrl1, ctrl2, to, user); }; return f; }

struct Shared { Shape s, c; river::paths ps, pc; std::string text; };   // read only while the threads run
struct Task { int kind, op, fr, style, which; uint64_t seed; };           // kind 0 clip, 1 text, 2 rmath, 3 traverse
static uint64_t hd(uint64_t h, double d) { return drv::hash_bytes(&d, sizeof d, h); }
static uint64_t rec_hash(const Rec& r) { uint64_t h = 1469598103934665603ull; for (auto& e : r.ev) { h = drv::hash_bytes(&e.k, 1, h); h = drv::hash_bytes(&e.to, sizeof e.to, h); if (e.k == 'c') { h = drv::hash_bytes(&e.a, sizeof e.a, h); h = drv::hash_bytes(&e.b, sizeof e.b, h); } } return h; }
static uint64_t rmath_mix(uint64_t seed) { drv::Rng r(seed); uint64_t h = seed; auto pt = [&] { return rmath::vec2(r.u(0, 100), r.u(0, 100)); };
  for (int n = 0; n < 6; ++n) { rmath::bezier_cubic b{pt(), pt(), pt(), pt()}; auto y = b.point_at_y(r.u(0, 100)); h = hd(h, y.count); for (int i = 0; i < y.count; ++i) h = hd(h, y.t[i]); double t1 = 0, t2 = 0; h = hd(h, b.split_y(&t1, &t2)); auto bb = b.get_boundary(); h = hd(hd(h, bb.min.x), bb.max.y); double ts[2] = {.3, .7}; rmath::bezier_cubic o[3]; b.split(ts, o, 2); h = hd(h, o[1].p1.x);
    auto l = rmath::intersect(pt(), pt(), pt(), pt()); h = hd(h, l.count); for (int i = 0; i < l.count; ++i) h = hd(hd(h, l.data[i].t0), l.data[i].p.x); auto lc = rmath::intersect(rmath::line{pt(), pt()}, b); h = hd(h, lc.count); for (int i = 0; i < lc.count; ++i) h = hd(h, lc.data[i].t1);
    auto q = rmath::resolv_cubic_equa(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)); h = hd(h, q.count); for (int i = 0; i < q.count; ++i) h = hd(h, q.data[i]); rmath::arc a(pt(), pt(), r.u(-3, 3)); h = hd(hd(h, a.end().x), a.reverse().end_rad()); h = hd(h, rmath::clamp_0_2pi(r.u(-20, 20))); }
  return h; }
static uint64_t run_task(const Task& t, const std::vector<std::unique_ptr<Shared>>& sh) { const Shared& S = *sh[t.which];
  if (t.kind == 1) { river::paths p = river::make_path(S.text.c_str()); Rec r; auto f = slow_recorder(); for (auto& q : p) q.traverse(f, &r); return rec_hash(r); }
  if (t.kind == 2) return rmath_mix(t.seed);
  if (t.kind == 3) { Rec r; auto f = slow_recorder(); for (auto& q : S.ps) q.traverse(f, &r); for (auto& q : S.pc) q.traverse(f, &r); return rec_hash(r); }
  Rec rec; river::processor p; if (t.style == 0) { p.add_path(S.ps, river::path_type::subject); p.add_path(S.pc, river::path_type::clip); } else if (t.style == 1) { p.add_path(read_slow, &S.s, river::path_type::subject); p.add_path(read_slow, &S.c, river::path_type::clip); } else { p.add_path(S.pc, river::path_type::clip); p.add_path(read_slow, &S.s, river::path_type::subject); }
  if (t.style == 2) { river::paths o; p.process((river::clip_type)t.op, (river::fill_rule)t.fr, o); auto f = slow_recorder(); for (auto& q : o) q.traverse(f, &rec); } else p.process((river::clip_type)t.op, (river::fill_rule)t.fr, slow_recorder(), &rec);
  if (t.seed & 1) { river::paths again; p.process((river::clip_type)t.op, (river::fill_rule)t.fr, again); auto f = recorder(); for (auto& q : again) q.traverse(f, &rec); }
  return rec_hash(rec); }
static std::string task_str(const Task& t, const Shared& S) { static const char* k[] = {"process", "make_path", "rmath calls", "traverse"}; return std::string(k[t.kind]) + (t.kind == 0 ? fmt(" style=%d ", t.style) + desc(S.s, S.c, t.op, t.fr) : t.kind == 1 ? " " + S.text : ""); }

static bool setup(Ctx& x, std::vector<std::unique_ptr<Shared>>& sh, int n) { for (int i = 0; i < n; ++i) { std::unique_ptr<Shared> S(new Shared); Arr A; int k = x.rng.i(0, 3); if (k == 3) { int g = x.rng.i(3, 10); for (Shape* o : {&S->s, &S->c}) for (int j = x.rng.i(1, 4); j--;) o->push_back(gen::int_poly(x.rng, x.rng.i(3, 9), g)); x.count("drawings_with_every_kind_of_contact"); } else if (!(k == 0 ? gen_lines(x, S->s, S->c, A, x.rng.i(0, gen::N_POLY - 1)) : k == 1 ? gen_deg(x, S->s, S->c, A, x.rng.i(0, gen::N_DEG - 1)) : gen_curves(x, S->s, S->c, A, x.rng.i(0, gen::N_CURVE - 1)))) return false; S->ps = to_river(S->s); S->pc = to_river_single(S->c); S->text = str(S->s); sh.push_back(std::move(S)); } return true; }
static Task rand_task(drv::Rng& r, int nsh) { Task t; int k = r.i(0, 9); t.kind = k <= 6 ? 0 : k - 6; t.op = r.i(1, 4); t.fr = r.i(0, 3); t.style = r.i(0, 2); t.which = r.i(0, nsh - 1); t.seed = r.next(); return t; }

// logged per task: order of starts and ends over all threads
static void c08_threads(Ctx& x) {
  std::vector<std::unique_ptr<Shared>> sh; if (!setup(x, sh, x.rng.i(1, 3))) return; int T = x.rng.i(2, 6); std::vector<std::vector<Task>> prog(T); std::vector<std::vector<uint64_t>> got(T); bool same = x.rng.chance(.3); // everybody does the same
  for (int i = 0; i < T; ++i) { if (same && i) { prog[i] = prog[0]; continue; } for (int n = x.rng.i(2, 5); n--;) prog[i].push_back(rand_task(x.rng, sh.size())); }
  std::atomic<int> ready{0}; std::atomic<bool> go{false}; std::atomic<int> inside{0}, peak{0}; std::atomic<uint64_t> order{1469598103934665603ull}; g_yields = 0;
  std::vector<std::thread> th; for (int i = 0; i < T; ++i) { uint64_t s = x.rng.next(); th.emplace_back([&, i, s] { drv::Rng r(s); t_rng = &r; ready.fetch_add(1, std::memory_order_relaxed); while (!go.load(std::memory_order_relaxed)) {}
      for (auto& t : prog[i]) { int c = inside.fetch_add(1, std::memory_order_relaxed) + 1; int p = peak.load(std::memory_order_relaxed); while (p < c && !peak.compare_exchange_weak(p, c, std::memory_order_relaxed)) {} uint64_t o = order.load(std::memory_order_relaxed); order.store((o ^ (i + 1)) * 1099511628211ull, std::memory_order_relaxed); got[i].push_back(run_task(t, sh)); o = order.load(std::memory_order_relaxed); order.store((o ^ (i + 101)) * 1099511628211ull, std::memory_order_relaxed); inside.fetch_sub(1, std::memory_order_relaxed); }
      t_rng = nullptr; }); }
  while (ready.load(std::memory_order_relaxed) < T) std::this_thread::yield(); go.store(true, std::memory_order_relaxed); for (auto& t : th) t.join();
  x.count("threads", T); x.count("yields_and_delays", g_yields.load()); x.maximum("tasks_at_once", peak.load()); if (peak.load() > 1) { x.count("overlapping_cases"); x.distinct(order.load() ^ (x.index << 1)); x.count("nontrivial"); }
  for (int i = 0; i < T; ++i) for (size_t j = 0; j < prog[i].size(); ++j) { uint64_t solo = run_task(prog[i][j], sh); x.count("results_compared"); x.count(prog[i][j].kind == 0 ? "process_tasks" : "other_tasks"); if (solo != got[i][j]) { x.fail("concurrent-result", fmt("thread %d of %d: ", i, T) + task_str(prog[i][j], *sh[prog[i][j].which]) + " gives another result while other threads work"); return; } }
  if (x.index % 29 == 3) x.sample(fmt("%d threads, first: ", T) + task_str(prog[0][0], *sh[prog[0][0].which]));
}

static __attribute__((noinline)) void paint_stack(unsigned char b) { volatile unsigned char* p = (volatile unsigned char*)alloca(160000); for (int i = 0; i < 160000; ++i) p[i] = b; }
static void c08_determinism(Ctx& x) {
  std::vector<std::unique_ptr<Shared>> sh; if (!setup(x, sh, 1)) return; bool any = false; std::vector<void*> junk;
  auto churn = [&] { { size_t z = 8 * x.rng.i(3, 16); std::vector<void*> b; for (int n = x.rng.i(50, 400); n--;) b.push_back(malloc(z)); for (size_t i = b.size(); i > 1; --i) std::swap(b[i - 1], b[x.rng.i(0, i - 1)]); for (void* p : b) if (x.rng.chance(.8)) free(p); else junk.push_back(p); } for (int n = x.rng.i(20, 300); n--;) { size_t z = x.rng.chance(.1) ? x.rng.i(2000, 300000) : x.rng.i(8, 600); void* p = malloc(z); memset(p, (int)x.rng.i(0, 255), z); junk.push_back(p); } for (int n = x.rng.i(0, junk.size()); n-- && !junk.empty();) { size_t i = x.rng.i(0, junk.size() - 1); free(junk[i]); junk[i] = junk.back(); junk.pop_back(); } };
  for (int n = 0; n < 4 && !x.failed; ++n) { Task t = rand_task(x.rng, 1); if (n) t.kind = 0; drv::step_reset(10 * BUDGET_LINES); uint64_t h0 = run_task(t, sh); std::string what = task_str(t, *sh[0]); if (x.verbose) { printf("%s\n", what.c_str()); fflush(stdout); }
    any = true;
    for (int rep = 0; rep < 4 && !x.failed; ++rep) { churn(); unsigned char b = x.rng.i(0, 255); mallopt(M_PERTURB, b); std::vector<std::unique_ptr<river::processor>> others; for (int k = x.rng.i(0, 3); k--;) { others.emplace_back(new river::processor); others.back()->add_path(sh[0]->ps, river::path_type::subject); }
      uint64_t h1; if (rep == 3) { std::thread w([&] { paint_stack(b); h1 = run_task(t, sh); }); w.join(); } else { paint_stack(b); h1 = run_task(t, sh); } mallopt(M_PERTURB, 0); x.count("repeats_compared"); if (h1 != h0) { x.fail("nondeterministic", "the same calls give another result when the heap and stack around them differ: " + what); break; } } }
  for (void* p : junk) free(p);
  if (any) { x.count("nontrivial"); x.distinct(hash(sh[0]->c, hash(sh[0]->s))); }
  drv::step_off();
}
static drv::Reg r1("C08", c08_threads), r2("C08.det", c08_determinism);
