// Chunk allocators (P19) on the simulated system allocator: blocks of random
// sizes, resized and freed in any order, with refused system memory.
#include "core.hpp"

namespace {
enum { C_CREATE, C_DESTROY, C_ALLOC, C_RESIZE, C_FREE, C_HUGE, C_STALE, C_KINDS };
static const char *const c_name[] = { "create", "destroy", "allocate", "resize", "free", "huge", "use_destroyed" };
enum { K_SLOTS, K_MOVE, K_CAP, K_SIZE, K_MANY };
struct Block { u8 *p; size_t n; u64 seed; size_t most; };
struct Arena { bool made = false, valid = false; pb_allocator_t a; size_t cap = 0; vector<Block> b; vector<void *> stale; };

struct ChunkSim {
  const Trace &t; Run &r; vector<Arena> as; int step = 0; u64 nextSeed = 1;
  ChunkSim(const Trace &tt, Run &rr) : t(tt), r(rr) {}
  static u8 pat(u64 seed, size_t i) { return (u8)(mix64(seed + i / 8) >> (i % 8 * 8)); }
  static void fill(Block &b, size_t from) { for (size_t i = from; i < b.n; i++) b.p[i] = pat(b.seed, i); }
  void say(const Op &op, const string &s) { r.log("%3d client %u: %s %s%s", step, op.client, c_name[op.kind], s.c_str(), op.fmode ? format(" [fault %s k=%u]", fault_names[op.fmode], op.fk).c_str() : ""); }
  void fault(const Op &op) { if (r.plan.fired || r.plan.shrinkFired) { r.faultsFired++; r.count(string("fault.") + fault_names[op.fmode]); } }

  void checkAll(const char *what) {
    r.checkLedger(r.sys);
    vector<std::pair<const u8 *, size_t>> all, sys;
    for (auto &x : r.sys.live) sys.push_back({ (const u8 *)x.first, x.second });
    std::sort(sys.begin(), sys.end());
    for (auto &a : as) for (auto &b : a.b) {
      auto it = std::upper_bound(sys.begin(), sys.end(), std::make_pair((const u8 *)b.p, (size_t)-1));
      if (it == sys.begin()) violate("outside-system", "%s: a block lies outside the memory the system granted", what);
      --it;
      if (b.p + b.n > it->first + it->second || b.p + b.n < b.p) violate("too-small", "%s: a block of %zu bytes has only %zd", what, b.n, (ssize_t)(it->first + it->second - b.p));
      all.push_back({ b.p, b.n });
    }
    std::sort(all.begin(), all.end());
    for (size_t i = 1; i < all.size(); i++) if (all[i - 1].first + all[i - 1].second > all[i].first) violate("overlap", "%s: blocks of %zu and %zu bytes overlap", what, all[i - 1].second, all[i].second);
    for (auto &a : as) for (auto &b : a.b) for (size_t i = 0; i < b.n; i++) if (b.p[i] != pat(b.seed, i)) violate("content", "%s: byte %zu of a block of %zu bytes changed", what, i, b.n);
  }
  size_t pickSize(Rng &g, Arena &a) {
    size_t c = a.cap;
    switch (g.below(8)) {
      case 0: return c; case 1: return c + 1; case 2: return c > 1 ? c - 1 : 1; case 3: return c * g.range(1, 4);
      case 4: return c * g.range(1, 4) + 1; case 5: { size_t n = c * g.range(1, 4); return n > 1 ? n - 1 : 1; }
      default: return 1 + g.below(t.knob[K_SIZE] * (g.chance(1, 5) ? 20 : 1) + 1);
    }
  }
  void result(Arena &a, const Op &op, void *p, size_t n, const char *what, bool huge) {
    fault(op); r.effective++;
    r.log("    -> %s%s", p ? "granted" : "NULL", r.plan.fired ? " (refused by the system)" : ""); r.ev((p != nullptr) * 3 + r.plan.calls);
    if (!p) {
      r.count("outcome.refused");
      if (!r.plan.fired && !huge) violate("refused", "%s of %zu bytes fails although the system refused nothing", what, n);
    } else {
      r.count("outcome.granted");
      if (r.plan.fired && !r.plan.growOk && !r.plan.shrinkFired) { /* answered from memory it had */ r.count("outcome.granted_without_system"); }
    }
  }
  void close(Arena &a, bool twice) {
    for (auto &b : a.b) a.stale.push_back(b.p);
    a.b.clear();
    size_t before = r.sys.live.size(); (void)before;
    pb_chunk_allocator_destroy(&a.a); if (twice) pb_chunk_allocator_destroy(&a.a);
    a.valid = false;
  }
  void exec(const Op &op) {
    size_t i = op.a % as.size(); Arena &a = as[i]; Rng g(op.r);
    if (op.kind == C_CREATE || !a.made) {
      if (a.made) { close(a, g.chance(1, 3)); a.stale.clear(); }
      a.made = true; a.stale.clear();
      bool dflt = g.chance(1, 10); a.cap = dflt ? 4096 : g.chance(1, 2) ? t.knob[K_CAP] : 1 + g.below(t.knob[K_CAP] + 1);
      say(op, format("arena %zu, capacity %zu", i, a.cap));
      r.plan.arm(op); a.a = dflt ? pb_chunk_allocator_create() : pb_chunk_allocator_create_with_capacity(a.cap); r.plan.disarm(); fault(op);
      a.valid = !r.plan.fired; r.effective++;
      if (!a.valid) { r.count("outcome.create_refused"); if (a.a.proc.allocate(a.a.data, 1)) violate("refused-usable", "an allocator that was refused its memory hands out blocks"); }
      return;
    }
    if (op.kind == C_STALE || !a.valid) {
      if (a.valid) return;
      say(op, format("arena %zu", i)); u64 c = r.sys.calls, f = r.sys.frees;
      size_t n = 1 + g.below(100); void *s = a.stale.empty() ? nullptr : a.stale[op.b % a.stale.size()];
      if (a.a.proc.allocate(a.a.data, n) || a.a.proc.resize(a.a.data, nullptr, n) || (s && a.a.proc.resize(a.a.data, s, n))) violate("refused-usable", "a destroyed allocator hands out memory");
      if (s) a.a.proc.free(a.a.data, s);
      pb_chunk_allocator_destroy(&a.a);
      if (r.sys.calls != c || r.sys.frees != f) violate("refused-usable", "using a destroyed allocator reaches the system");
      r.count("outcome.use_destroyed"); r.effective++; return;
    }
    switch (op.kind) {
      case C_DESTROY: say(op, format("arena %zu with %zu blocks", i, a.b.size())); close(a, g.chance(1, 2)); r.effective++; break;
      case C_ALLOC: {
        if (a.b.size() > (t.knob[K_MANY] ? 1000 : 24)) return;
        size_t n = pickSize(g, a); say(op, format("arena %zu: %zu bytes", i, n));
        r.plan.arm(op); void *p = g.chance(1, 4) ? a.a.proc.resize(a.a.data, nullptr, n) : a.a.proc.allocate(a.a.data, n); r.plan.disarm();
        result(a, op, p, n, "allocating", false);
        if (p) { Block b{ (u8 *)p, n, mix64(nextSeed++ ^ t.seed), n }; a.b.push_back(b); checkBounds(b); fill(b, 0); }
        break;
      }
      case C_RESIZE: {
        if (a.b.empty()) return;
        Block &b = a.b[op.b % a.b.size()];
        size_t n = g.chance(1, 4) ? b.n + 1 + g.below(8) : g.chance(1, 4) ? 1 + g.below(b.n) : pickSize(g, a); bool stay = n <= std::max(a.cap, b.most); u8 *at = b.p; say(op, format("arena %zu: %zu -> %zu bytes", i, b.n, n));
        r.plan.arm(op); u8 *p = (u8 *)a.a.proc.resize(a.a.data, b.p, n); r.plan.disarm();
        result(a, op, p, n, "resizing", false);
        if (stay && p && p != at) violate("moved", "a block of %zu bytes moves when resized to %zu bytes, although its chunk has room for %zu", b.n, n, std::max(a.cap, b.most));
        if (stay && r.plan.calls) violate("moved", "resizing a block from %zu to %zu bytes asks the system for memory, although its chunk has room for %zu", b.n, n, std::max(a.cap, b.most));
        if (p) { b.most = std::max(b.most, n); size_t old = b.n; b.p = p; b.n = n; checkBounds(b); for (size_t k = 0; k < old && k < n; k++) if (p[k] != pat(b.seed, k)) violate("content", "resizing from %zu to %zu bytes lost byte %zu", old, n, k); if (n > old) fill(b, old); }
        break;
      }
      case C_FREE: {
        if (a.b.empty()) return;
        size_t k = op.b % a.b.size(); say(op, format("arena %zu: block of %zu bytes", i, a.b[k].n));
        r.plan.arm(op); a.a.proc.free(a.a.data, a.b[k].p); r.plan.disarm(); a.b.erase(a.b.begin() + k); r.effective++; break;
      }
      case C_HUGE: {
        static const size_t sizes[] = { SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 15, SIZE_MAX - 16, SIZE_MAX - 17, SIZE_MAX / 2, (SIZE_MAX >> 1) + 1, (size_t)1 << 62, (size_t)1 << 33 };
        size_t n = sizes[g.below(9)] - (g.chance(1, 3) ? g.below(2 * a.cap + 40) : 0); bool rs = !a.b.empty() && g.chance(1, 2); Block *b = rs ? &a.b[op.b % a.b.size()] : nullptr;
        say(op, format("arena %zu: %s %zu bytes", i, rs ? "resize to" : "allocate", n));
        r.plan.arm(op); void *p = b ? a.a.proc.resize(a.a.data, b->p, n) : a.a.proc.allocate(a.a.data, n); r.plan.disarm();
        result(a, op, p, n, "an impossible request", true);
        if (p) violate("too-small", "a request for %zu bytes was granted", n);
        r.count("outcome.huge"); break;
      }
    }
  }
  // before the block is written: it must lie inside one block of the system
  void checkBounds(Block &b) {
    for (auto &x : r.sys.live) if ((u8 *)x.first <= b.p && b.p + b.n <= (u8 *)x.first + x.second) return;
    violate("too-small", "a block of %zu bytes does not lie inside the memory the system granted", b.n);
  }
  void runAll() {
    r.sysOn = true; r.sys.move = (int)t.knob[K_MOVE];
    as.resize(t.knob[K_SLOTS] ? t.knob[K_SLOTS] : 1);
    for (auto &op : t.ops) {
      if (op.kind >= C_KINDS) continue;
      step++; r.steps++; r.sched = mix64(r.sched ^ (op.client * 64 + op.kind)); r.count(string("op.") + c_name[op.kind]);
      exec(op); checkAll(c_name[op.kind]);
      u64 h = 0; for (auto &a : as) { u64 x = a.made + a.valid * 2 + a.cap * 3; for (auto &b : a.b) x = mix64(x ^ b.n) ^ b.seed; h = mix64(h ^ x); } r.ev(h); r.state(h);
      bool any = false; for (auto &a : as) any |= a.valid;
      if (!any && !r.sys.live.empty()) violate("leak", "%zu blocks of the system are left over although every allocator was destroyed", r.sys.live.size());
    }
    for (auto &a : as) if (a.made) close(a, true);
    if (!r.sys.live.empty()) violate("leak", "%zu blocks of the system are left over", r.sys.live.size());
  }
};
void chunkGen(u64 seed, Trace &t) {
  Rng g(mix64(seed) ^ 19); t.seed = mix64(seed);
  t.knob[K_SLOTS] = g.range(1, 3); t.knob[K_MOVE] = g.chance(1, 3); t.knob[K_CAP] = g.chance(1, 5) ? g.range(1, 3) : g.range(4, 80); t.knob[K_SIZE] = g.range(4, 60);
  Rng q(mix64(seed) ^ 0x51de); bool big = q.chance(1, 400); if (big) { t.knob[K_CAP] = q.range(3000, 70000); t.knob[K_SIZE] = q.range(100, 10000); }
  int w[C_KINDS] = { 4, 3, 30, 30, 18, 4, 3 }; int sum = 0; for (int x : w) sum += x;
  bool many = !big && q.chance(1, 800); if (many) { t.knob[K_MANY] = 1; t.knob[K_CAP] = q.range(1, 16); t.knob[K_SIZE] = q.range(1, 16); w[C_CREATE] = w[C_DESTROY] = 0; w[C_ALLOC] = 60; sum = 0; for (int x : w) sum += x; }
  int pct = g.chance(1, 6) ? 0 : g.range(10, 50), n = many ? q.range(200, 900) : g.range(10, big ? 20 : 60);
  static const u32 modes[] = { F_ALL, F_ONE, F_FROM, F_RANDOM };
  for (int i = 0; i < n; i++) {
    Op op; op.client = (u32)g.below(3); int x = (int)g.below(sum); u32 k = 0; while (x >= w[k]) x -= w[k++];
    op.kind = k; op.a = (u32)g.below(1000); op.b = (u32)g.below(1000); op.r = g.next();
    if ((int)g.below(100) < pct) { op.fmode = modes[g.below(4)]; op.fk = (u32)g.below(2); }
    t.ops.push_back(op);
  }
}
void chunkRun(const Trace &t, Run &r) { ChunkSim s(t, r); s.runAll(); }
} // namespace
const char *chunk_kind(u32 k) { return k < C_KINDS ? c_name[k] : "?"; }
void chunk_scenarios(vector<Scenario> &v) {
  v.push_back({ "P19", "chunk allocators: seeded allocate, resize and free histories on a system that refuses memory", chunkGen, chunkRun, 400000, 14000000,
    "a run counts when at least 5 requests were checked and at least one system request was refused; distinct by the hash of its event log", true, { K_SLOTS, K_MOVE, K_CAP, K_SIZE } });
}
