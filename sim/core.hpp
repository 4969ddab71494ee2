// Core of the deterministic simulator: PRNG, traces, simulated allocator with
// fault schedule, event log, violation type, statistics.
#pragma once
#include <sanitizer/asan_interface.h>
#include <algorithm>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "shim.h"

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
using std::string;
using std::vector;

// ---------------------------------------------------------------- PRNG
inline u64 mix64(u64 z) {
  z += 0x9E3779B97F4A7C15ULL;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(mix64(seed ^ 0x5bd1e995)) {}
  u64 next() { s += 0x9E3779B97F4A7C15ULL; return mix64(s); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((u64)(hi - lo + 1)); }
  bool chance(int num, int den) { return below(den) < (u64)num; }
};

// ---------------------------------------------------------------- traces
enum FaultMode { F_NONE, F_ONE, F_FROM, F_RANDOM, F_SHRINK, F_ALL, F_MODES };
static const char *const fault_names[F_MODES] = {
  "none", "one_request", "all_from_kth", "random_half", "shrinks_only", "all_requests" };

struct Op {
  u32 client = 0, kind = 0, a = 0, b = 0, c = 0;
  u64 r = 0;
  u32 fmode = 0, fk = 0;
};
enum { NKNOB = 24 };
struct Trace {
  string prop;
  u64 seed = 0;
  u64 knob[NKNOB] = {0};
  vector<Op> ops;
};

// ---------------------------------------------------------------- violation
struct Violation {
  string cls;     // stable class, used for minimisation and replay comparison
  string detail;
};
[[noreturn]] void violate(const string &cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
inline string vformat(const char *fmt, va_list ap) {
  char buf[4096];
  vsnprintf(buf, sizeof buf, fmt, ap);
  return buf;
}
inline string format(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline string format(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); string s = vformat(fmt, ap); va_end(ap); return s;
}
inline void violate(const string &cls, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); string s = vformat(fmt, ap); va_end(ap);
  throw Violation{cls, s};
}
inline string hex(const void *p, size_t n, size_t max = 400) {
  string s; const u8 *d = (const u8 *)p; char b[4];
  for (size_t i = 0; i < n && i < max; i++) { snprintf(b, 4, "%02x", d[i]); s += b; }
  if (n > max) s += "..";
  return s;
}
inline string hex(const string &s) { return hex(s.data(), s.size()); }

// ---------------------------------------------------------------- statistics
// One fixed-size block in memory shared by all workers.
enum { NSTAT = 512, NAMELEN = 40 };
struct SharedStats {
  char name[NSTAT][NAMELEN];
  u64 count[NSTAT];
};
struct Stats {              // per-process, merged by the parent through shared memory
  std::map<string, u64> c;
  void add(const string &k, u64 n = 1) { c[k] += n; }
};

// ---------------------------------------------------------------- run context
struct Run;
extern Run *g_run;

struct FaultPlan {
  u32 mode = F_NONE, k = 0; u64 seed = 0;
  bool active = false;
  // measured while the operation runs
  u32 calls = 0;          // requests (allocate/resize) seen
  u32 frees = 0;
  u32 grows = 0;          // requests that need more memory
  u32 growOk = 0;         // growing requests granted
  u32 fired = 0;          // refused growing requests
  u32 shrinkFired = 0;    // refused shrinking requests
  bool firstRefused = false; // one of the first two requests (edit log, buffer) was refused
  void arm(const Op &op) {
    *this = FaultPlan();
    mode = op.fmode; k = op.fk; seed = op.r; active = true;
  }
  void disarm() { active = false; }
  bool decide(bool shrink) {
    u32 n = calls++;
    bool ref = false;
    if (active) switch (mode) {
      case F_ONE:    ref = n == k; break;
      case F_FROM:   ref = n >= k; break;
      case F_RANDOM: ref = mix64(seed * 31 + n) & 1; break;
      case F_SHRINK: ref = shrink; break;
      case F_ALL:    ref = true; break;
      default: break;
    }
    if (!shrink) {
      grows++;
      if (ref) { if (!fired && n <= 1 && !frees) firstRefused = true; fired++; } else growOk++;
    } else if (ref) shrinkFired++;
    return ref;
  }
};

// Simulated allocator with a ledger of all blocks. Blocks are exactly sized, so
// that the address sanitizer sees every access beyond them.
struct Ledger {
  pb_allocator_t api;
  string name;
  std::unordered_map<void *, size_t> live;
  std::unordered_map<void *, size_t> cap;    // blocks with room to grow in place
  std::unordered_map<void *, size_t> want;   // after a refused shrink: the size its owner goes on with
  FaultPlan *plan = nullptr;
  enum : size_t { LIMIT = (size_t)1 << 30 };  // no system grants more
  u64 calls = 0, frees = 0, moved = 0, huge = 0;
  int move = 0;           // 0: every resize moves, 1: shrinks stay in place
  string problem;         // first ledger violation, raised after the call
  Ledger();
  Ledger(const Ledger &) = delete;
  void *allocate(size_t n) {
    calls++;
    if (n == 0) note("zero-size allocate request");
    if (plan && plan->decide(false)) return nullptr;
    if (n > LIMIT) { huge++; return nullptr; }
    void *p = malloc(n ? n : 1);
    memset(p, 0xA5, n);
    live[p] = n;
    return p;
  }
  void *resize(void *b, size_t n) {
    calls++;
    size_t old = 0;
    if (b) {
      auto it = live.find(b);
      if (it == live.end()) { note("resize of a block this allocator does not own"); return nullptr; }
      old = it->second;
    }
    if (n == 0) note("zero-size resize request");
    size_t used = old; if (b) { auto x = want.find(b); if (x != want.end()) used = x->second; }
    bool shrink = b && n < used;
    if (plan && plan->decide(shrink)) { if (shrink) want[b] = n; return nullptr; }
    if (n > LIMIT) { huge++; return nullptr; }
    if (b) want.erase(b);
    if (b && n <= old && move == 1) {   // keeps its place, capacity stays
      live[b] = n; return b;
    }
    if (b && move == 2) {               // room to grow in place
      auto c = cap.find(b);
      if (c != cap.end() && n <= c->second) {
        if (n > old) { ASAN_UNPOISON_MEMORY_REGION(b, n); memset((char *)b + old, 0xA5, n - old); }
        ASAN_POISON_MEMORY_REGION((char *)b + n, c->second - n); live[b] = n; return b;
      }
    }
    size_t room = move == 2 ? n * 2 + 4096 : n ? n : 1;
    void *p = malloc(room);
    memset(p, 0xA5, n);
    if (move == 2) { cap[p] = room; ASAN_POISON_MEMORY_REGION((char *)p + n, room - n); }
    if (b) cap.erase(b);
    if (b) { memcpy(p, b, old < n ? old : n); live.erase(b); ::free(b); moved++; }
    live[p] = n;
    return p;
  }
  void release(void *b) {
    frees++;
    auto it = live.find(b);
    if (it == live.end()) { note(b ? "free of a block this allocator does not own" : "free of NULL"); return; }
    live.erase(it); want.erase(b); cap.erase(b); if (plan) plan->frees++;
    ::free(b);
  }
  void note(const char *s) { if (problem.empty()) problem = name + ": " + s; }
  size_t bytes() const { size_t n = 0; for (auto &x : live) n += x.second; return n; }
  void drop() { for (auto &x : live) ::free(x.first); live.clear(); }
  ~Ledger() { drop(); }
};
inline void *ledger_alloc(void *d, size_t n) { return ((Ledger *)d)->allocate(n); }
inline void *ledger_resize(void *d, void *b, size_t n) { return ((Ledger *)d)->resize(b, n); }
inline void ledger_free(void *d, void *b) { ((Ledger *)d)->release(b); }
inline Ledger::Ledger() {
  api.proc.allocate = ledger_alloc;
  api.proc.resize = ledger_resize;
  api.proc.free = ledger_free;
  api.data = this;
}

struct Run {
  const Trace *t = nullptr;
  bool verbose = false;       // keep the text log
  bool capture = false;
  string text;                // text event log (verbose only)
  u64 hash = 0x1234;          // hash of the event log
  u64 sched = 0x77;           // hash of the interleaving (client, kind) sequence
  u32 effective = 0;          // operations that did something
  u32 faultsFired = 0;
  u64 steps = 0;              // simulated time: events executed
  FaultPlan plan;
  Stats *stats = nullptr;
  std::function<void(u64)> onState;
  std::map<string, int> known;   // known-finding classes: hit during this run
  const std::unordered_set<string> *knownClasses = nullptr;
  Ledger sys;                 // system allocator seam (malloc of the library)
  bool sysOn = false;
  Run() { sys.name = "system"; sys.plan = &plan; }
  void ev(u64 v) { hash = mix64(hash ^ v) + v; }
  void evs(const string &s) { u64 h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } ev(h); }
  void log(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
    if (!verbose) return;
    va_list ap; va_start(ap, fmt); string s = vformat(fmt, ap); va_end(ap);
    text += s; text += "\n";
  }
  void count(const string &k, u64 n = 1) { if (stats) stats->add(k, n); }
  void state(u64 h) { if (onState) onState(h); }
  void checkLedger(Ledger &l) {
    if (!l.problem.empty()) { string p = l.problem; l.problem.clear(); violate("ledger", "%s", p.c_str()); }
  }
};
inline u64 hashstr(const string &s) { u64 h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return mix64(h); }

// ---------------------------------------------------------------- scenarios
struct Scenario {
  const char *id;
  const char *what;                        // short description for the evidence
  void (*gen)(u64 seed, Trace &t);         // seed -> trace
  void (*run)(const Trace &t, Run &r);     // executes a trace; throws Violation
  u64 quickRuns, thoroughRuns;
  const char *rule;                        // what makes a run non-trivial
  bool needsFault;                         // non-trivial runs need a fired fault
  vector<int> zeroKnobs;                   // knobs the minimiser may lower
};
extern vector<Scenario> scenarios;

static const char *const err_name[] = { "NONE", "ALLOC", "INVALID", "VARINT", "OFFSET", "ABSENT", "EOM" };
inline const char *ename(int e) { return e >= 0 && e <= 6 ? err_name[e] : "?"; }
