// Driver shared by every monitor binary: runs numbered cases in forked
// children, so that a crash, a sanitizer report or an exhausted step budget of
// the code under test is itself an observation, and streams what the monitors
// saw to the parent, which writes one JSON report per shard.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <map>
#include <string>
#include <vector>

namespace drv {

// xoshiro256** seeded with splitmix64; the only source of randomness.
struct Rng {
  uint64_t s[4];
  explicit Rng(uint64_t seed) { for (auto& x : s) { seed += 0x9e3779b97f4a7c15ull; uint64_t z = seed;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; x = z ^ (z >> 31); } }
  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t next() { uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r; }
  double u() { return (next() >> 11) * 0x1p-53; }
  double u(double a, double b) { return a + (b - a) * u(); }
  // inclusive
  long i(long a, long b) { return a + (long)(next() % (uint64_t)(b - a + 1)); }
  bool coin() { return next() & (1ull << 40); }
  bool chance(double p) { return u() < p; }
};

struct Ctx {
  uint64_t seed = 1;      // VERIF_SEED
  uint64_t index = 0;     // case number
  bool thorough = false;
  bool verbose = false;   // replay: dump everything
  Rng rng{0};
  int out_fd = -1;
  std::string buf;
  bool failed = false;
  // observations
  void count(const char* name, long n = 1) { counters[name] += n; }
  void maximum(const char* name, double v) { auto it = maxima.find(name); if (it == maxima.end() || it->second < v) maxima[name] = v; }
  void distinct(uint64_t h) { char b[40]; snprintf(b, sizeof b, "H %llx\n", (unsigned long long)h); buf += b; }
  void sample(const std::string& s) { buf += "S " + esc(s) + "\n"; }
  void fail(const std::string& key, const std::string& msg) { if (failed) return; failed = true; buf += "V " + key + " " + esc(msg) + "\n"; }
  static std::string esc(std::string s) { for (auto& c : s) if (c == '\n' || c == '\r') c = ' '; if (s.size() > 6000) s.resize(6000); return s; }
  std::map<std::string, long> counters;
  std::map<std::string, double> maxima;
};

typedef void (*case_fn)(Ctx&);
void register_prop(const char* name, case_fn fn);
struct Reg { Reg(const char* n, case_fn f) { register_prop(n, f); } };

// logical work of the instrumented library since step_reset()
void step_reset(uint64_t budget);
// running out of this one ends the case without a verdict (counted)
void step_reset_soft(uint64_t budget);
uint64_t step_count();
// remaining budget applies only between reset and off
void step_off();

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) { auto c = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; } return h; }

}
