#include "driver.h"
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace drv {

static std::map<std::string, case_fn>& registry() { static std::map<std::string, case_fn> r; return r; }
void register_prop(const char* name, case_fn fn) { registry()[name] = fn; }

std::string fmt(const char* f, ...) { va_list a; va_start(a, f); char b[4096]; vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

// ---- step counter -------------------------------------------------------
static uint64_t g_steps = 0, g_limit = ~0ull;
static unsigned char* g_hits = nullptr;         // shared with the parent
static uint32_t g_guards = 0;
static const uint32_t MAX_GUARDS = 1 << 16;
enum { EXIT_BUDGET = 77, EXIT_SOFT = 78 };
static int g_budget_exit = EXIT_BUDGET;
void step_reset(uint64_t b) { g_steps = 0; g_limit = b; g_budget_exit = EXIT_BUDGET; }
void step_reset_soft(uint64_t b) { g_steps = 0; g_limit = b; g_budget_exit = EXIT_SOFT; }
void step_off() { g_limit = ~0ull; }
uint64_t step_count() { return g_steps; }
}

#ifndef RV_NOCOV
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
  if (start == stop || *start) return;
  for (uint32_t* x = start; x < stop; ++x) *x = ++drv::g_guards;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* guard) {
  if (++drv::g_steps > drv::g_limit) _exit(drv::g_budget_exit);
  uint32_t g = *guard;
  if (drv::g_hits && g < drv::MAX_GUARDS) drv::g_hits[g] = 1;
}
#endif

namespace drv {

struct Viol { uint64_t idx; std::string key, msg; };
static std::string js(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }

static void flush_ctx(Ctx& c) {
  size_t off = 0; while (off < c.buf.size()) { ssize_t n = write(c.out_fd, c.buf.data() + off, c.buf.size() - off); if (n <= 0) _exit(99); off += n; }
  c.buf.clear();
}

static int g_wall = 150;
static void child(case_fn fn, uint64_t seed, uint64_t a, uint64_t b, bool thorough, bool verbose, int fd, uint64_t salt) {
  Ctx c; c.seed = seed; c.thorough = thorough; c.verbose = verbose; c.out_fd = fd;
  for (uint64_t i = a; i < b; ++i) {
    c.index = i; c.failed = false;
    c.rng = Rng((seed * 0x9e3779b97f4a7c15ull) ^ (i * 0xd1342543de82ef95ull) ^ salt);
    c.buf += fmt("B %llu\n", (unsigned long long)i); flush_ctx(c);
    itimerval tv{}; tv.it_value.tv_sec = g_wall; setitimer(ITIMER_REAL, &tv, nullptr);
    step_off();
    fn(c);
    step_off();
    for (auto& k : c.counters) c.buf += fmt("C %s %ld\n", k.first.c_str(), k.second);
    for (auto& k : c.maxima) c.buf += fmt("M %s %.17g\n", k.first.c_str(), k.second);
    c.counters.clear(); c.maxima.clear();
    c.buf += "E\n"; flush_ctx(c);
  }
}

static std::string slurp(const std::string& f, size_t cap = 6000) { std::string s; FILE* h = fopen(f.c_str(), "r"); if (!h) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0 && s.size() < cap) s.append(b, n); fclose(h); return s; }
}

int main(int argc, char** argv) {
  using namespace drv;
  std::string prop, out, tmp = "/tmp"; uint64_t seed = 1, a = 0, b = 1; long block = 100; bool thorough = false, verbose = false; size_t max_viol = 3;
  for (int i = 1; i < argc; ++i) { std::string k = argv[i]; auto v = [&] { return std::string(argv[++i]); };
    if (k == "--prop") prop = v(); else if (k == "--out") out = v(); else if (k == "--seed") seed = strtoull(v().c_str(), 0, 10); else if (k == "--from") a = strtoull(v().c_str(), 0, 10);
    else if (k == "--to") b = strtoull(v().c_str(), 0, 10); else if (k == "--block") block = atol(v().c_str()); else if (k == "--thorough") thorough = true; else if (k == "--verbose") verbose = true; else if (k == "--tmp") tmp = v(); else if (k == "--wall") g_wall = atoi(v().c_str());
    else { fprintf(stderr, "bad arg %s\n", k.c_str()); return 2; } }
  auto it = registry().find(prop); if (it == registry().end()) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
  uint64_t salt = hash_bytes(prop.data(), prop.size());
  if (verbose) { child(it->second, seed, a, b, thorough, true, 1, salt); return 0; }
  g_hits = (unsigned char*)mmap(0, MAX_GUARDS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::map<std::string, long> counters; std::map<std::string, double> maxima; std::set<uint64_t> hashes; std::vector<std::string> samples; std::vector<Viol> viols;
  uint64_t done = 0, inconclusive = 0; std::vector<uint64_t> inc;
  std::string errf = tmp + fmt("/err.%d", (int)getpid());
  uint64_t i = a; int retry = 0; uint64_t hashes_dropped = 0;
  while (i < b && viols.size() < max_viol) {
    uint64_t e = i + block < b ? i + block : b; if (retry) e = i + 1;
    int fd[2]; if (pipe(fd)) { perror("pipe"); return 2; }
    fflush(nullptr);
    pid_t p = fork(); if (p < 0) { perror("fork"); return 2; }
    if (!p) {
      close(fd[0]); int ef = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(ef, 2); int nf = open("/dev/null", O_WRONLY); dup2(nf, 1);
      rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
      child(it->second, seed, i, e, thorough, false, fd[1], salt);
      exit(0);   // runs the leak check in sanitizer builds
    }
    close(fd[1]);
    uint64_t cur = i, ended = i; bool begun = false; std::string line; char bb[65536]; ssize_t n;
    std::vector<std::pair<std::string, long>> cc;
    auto handle = [&](const std::string& l) {
      if (l.empty()) return; char t = l[0]; std::string r = l.size() > 2 ? l.substr(2) : "";
      if (t == 'B') { cur = strtoull(r.c_str(), 0, 10); begun = true; }
      else if (t == 'E') { ++done; ended = cur + 1; begun = false; }
      else if (t == 'H') { if (hashes.size() < 4000000) hashes.insert(strtoull(r.c_str(), 0, 16)); else ++hashes_dropped; }
      else if (t == 'S') { if (samples.size() < 4) samples.push_back(r); }
      else if (t == 'V') { auto sp = r.find(' '); viols.push_back({cur, r.substr(0, sp), r.substr(sp + 1)}); }
      else if (t == 'C') { auto sp = r.rfind(' '); counters[r.substr(0, sp)] += atol(r.c_str() + sp + 1); }
      else if (t == 'M') { auto sp = r.rfind(' '); double v = atof(r.c_str() + sp + 1); auto k = r.substr(0, sp); auto m = maxima.find(k); if (m == maxima.end() || m->second < v) maxima[k] = v; }
    };
    while ((n = read(fd[0], bb, sizeof bb)) > 0) { for (ssize_t k = 0; k < n; ++k) { if (bb[k] == '\n') { handle(line); line.clear(); } else line += bb[k]; } }
    close(fd[0]); int st = 0; waitpid(p, &st, 0);
    bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    if (ok) { i = e; retry = 0; continue; }
    if (!begun) { // died between/after cases: leak report or exit-time failure
      viols.push_back({ended ? ended - 1 : 0, "exit", fmt("abnormal end after cases %llu..%llu: %s%d; %s", (unsigned long long)i, (unsigned long long)e, WIFSIGNALED(st) ? "signal " : "exit ", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), slurp(errf).c_str())});
      i = e; retry = 0; continue;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 99) { fprintf(stderr, "harness pipe failure\n"); return 2; }
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL)) {
      if (!retry) { retry = 1; i = cur; continue; }
      ++inconclusive; inc.push_back(cur); retry = 0; i = cur + 1; continue;
    }
    retry = 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_SOFT) { ++counters["cases_cut_by_step_budget"]; ++done; i = cur + 1; continue; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_BUDGET) viols.push_back({cur, "budget", "the library exceeded the step budget of this input (no result)"});
    else viols.push_back({cur, "crash", fmt("%s %d: ", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) + slurp(errf)});
    i = cur + 1;
  }
  unlink(errf.c_str());
  std::string hex;
  for (uint32_t g = 1; g <= g_guards && g < MAX_GUARDS; g += 4) { int v = 0; for (int k = 0; k < 4; ++k) if (g + k <= g_guards && g_hits[g + k]) v |= 1 << k; hex += "0123456789abcdef"[v]; }
  FILE* f = fopen(out.c_str(), "w"); if (!f) { perror("out"); return 2; }
  fprintf(f, "{\"cases\":%llu,\"inconclusive\":%llu,\"guards\":%u,\"hits\":\"%s\",\n\"counters\":{", (unsigned long long)done, (unsigned long long)inconclusive, g_guards, hex.c_str());
  bool first = true; for (auto& c : counters) { fprintf(f, "%s%s:%ld", first ? "" : ",", js(c.first).c_str(), c.second); first = false; }
  fprintf(f, "},\n\"maxima\":{"); first = true; for (auto& c : maxima) { fprintf(f, "%s%s:%.17g", first ? "" : ",", js(c.first).c_str(), c.second); first = false; }
  fprintf(f, "},\n\"samples\":["); first = true; for (auto& s : samples) { fprintf(f, "%s%s", first ? "" : ",\n", js(s).c_str()); first = false; }
  fprintf(f, "],\n\"violations\":["); first = true; for (auto& v : viols) { fprintf(f, "%s{\"case\":%llu,\"key\":%s,\"msg\":%s}", first ? "" : ",\n", (unsigned long long)v.idx, js(v.key).c_str(), js(v.msg).c_str()); first = false; }
  fprintf(f, "],\n\"hashes\":["); first = true; for (auto h : hashes) { fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
  fprintf(f, "]}\n"); fclose(f);
  return 0;
}
