// Storage layer: range edits of buffers and journals (P12) on every kind of
// allocator, with refused memory, against plain strings.
#include "core.hpp"

namespace {
enum { B_CREATE, B_DESTROY, B_WRITE, B_CLEAR, B_GROW, B_BAD, B_ALL, B_KINDS };
static const char *const b_name[] = { "create", "destroy", "write", "clear", "grow", "out_of_range", "clear_all" };
enum { K_SLOTS, K_MOVE, K_SIZE, K_MIX };
static const char *const mem_name[] = { "default", "custom", "caller-owned", "chunk" };

struct Obj {
  bool jrn = false, made = false, valid = false; int mem = 0;
  std::unique_ptr<Ledger> led; std::unique_ptr<pb_allocator_t> chunk;
  std::unique_ptr<pb_buffer_t> b; std::unique_ptr<pb_journal_t> j;
  u8 *z = nullptr; size_t zn = 0;
  string s;               // what it holds
  size_t ver = 0;
  string log;             // bytes of the edit log
};

struct BufSim {
  const Trace &t; Run &r; vector<Obj> os; int step = 0; size_t sysKeep = 0;
  BufSim(const Trace &tt, Run &rr) : t(tt), r(rr) {}
  ~BufSim() { for (auto &o : os) if (o.z) free(o.z); }
  const u8 *data(Obj &o) { return o.jrn ? pb_journal_data(o.j.get()) : pb_buffer_data(o.b.get()); }
  size_t size(Obj &o) { return o.jrn ? pb_journal_size(o.j.get()) : pb_buffer_size(o.b.get()); }
  bool valid(Obj &o) { return o.jrn ? pb_journal_valid(o.j.get()) : pb_buffer_valid(o.b.get()); }
  int err(Obj &o) { return o.jrn ? pb_journal_error(o.j.get()) : pb_buffer_error(o.b.get()); }
  Ledger &led(Obj &o) { return o.mem == 1 ? *o.led : r.sys; }
  string name(Obj &o, size_t i) { return format("%s%zu(%s)", o.jrn ? "journal" : "buffer", i, mem_name[o.mem]); }
  string bytes(size_t n, u64 seed) { Rng g(seed); string s; for (size_t i = 0; i < n; i++) s += (char)g.next(); return s; }
  static string log(Obj &o) { const void *p; size_t n = shim_journal_log(o.j.get(), &p); return n ? string((const char *)p, n) : string(); }

  void check(Obj &o, size_t i, const char *what) {
    if (!o.made) return;
    if (valid(o) != o.valid) violate("validity", "%s: %s is %s", what, name(o, i).c_str(), valid(o) ? "valid" : "invalid");
    if (!o.valid) { if (size(o)) violate("invalid-data", "%s: an invalid %s has %zu bytes", what, name(o, i).c_str(), size(o)); return; }
    if (err(o)) violate("validity", "%s: a valid %s reports %s", what, name(o, i).c_str(), ename(err(o)));
    if (size(o) != o.s.size()) violate("size", "%s: %s has %zu bytes, expected %zu", what, name(o, i).c_str(), size(o), o.s.size());
    if (o.s.size() && memcmp(data(o), o.s.data(), o.s.size())) violate("bytes", "%s: %s holds %s, expected %s", what, name(o, i).c_str(), hex(data(o), size(o)).c_str(), hex(o.s).c_str());
    if ((o.jrn ? pb_journal_empty(o.j.get()) : pb_buffer_empty(o.b.get())) != o.s.empty()) violate("size", "%s: emptiness of %s", what, name(o, i).c_str());
    if (o.mem == 2 && o.s.size() && data(o) != o.z) violate("zero-copy-moved", "%s: %s left the caller's memory", what, name(o, i).c_str());
    if (o.jrn) {
      if (shim_journal_version(o.j.get()) != o.ver) violate("edit-log", "%s: %s is at version %zu, expected %zu", what, name(o, i).c_str(), shim_journal_version(o.j.get()), o.ver);
      if (log(o) != o.log) violate("edit-log", "%s changed the edit log of %s", what, name(o, i).c_str());
    }
    r.checkLedger(r.sys); if (o.led) r.checkLedger(*o.led);
  }
  void checkAll(const char *what) { for (size_t i = 0; i < os.size(); i++) check(os[i], i, what); }

  void create(Obj &o, const Op &op, size_t i) {
    destroy(o, i, false);
    Rng g(op.r);
    o.jrn = g.chance(1, 2); o.mem = (int)g.below(4); o.made = true;
    o.led.reset(new Ledger()); o.led->name = format("allocator%zu", i); o.led->plan = &r.plan; o.led->move = (int)t.knob[K_MOVE];
    size_t n = g.chance(1, 4) && o.mem != 2 ? 0 : 1 + g.below(t.knob[K_SIZE] + 1);
    o.s = bytes(n, op.r); o.ver = 0; o.log.clear();
    if (o.mem == 3) { o.chunk.reset(new pb_allocator_t(pb_chunk_allocator_create_with_capacity(1 + g.below(64)))); if (!o.chunk->data) violate("refused", "creating a chunk allocator failed"); }
    pb_allocator_t *al = o.mem == 1 ? &o.led->api : o.mem == 3 ? o.chunk.get() : nullptr;
    u8 *x = (u8 *)malloc(n ? n : 1); memcpy(x, o.s.data(), n);
    r.plan.arm(op);
    if (o.jrn) o.j.reset(new pb_journal_t(o.mem == 2 ? pb_journal_create_zero_copy(x, n) : !n ? (al ? pb_journal_create_empty_with_allocator(al) : pb_journal_create_empty())
        : al ? pb_journal_create_with_allocator(al, x, n) : pb_journal_create(x, n)));
    else o.b.reset(new pb_buffer_t(o.mem == 2 ? pb_buffer_create_zero_copy(x, n) : !n ? (al ? pb_buffer_create_empty_with_allocator(al) : pb_buffer_create_empty())
        : al ? pb_buffer_create_with_allocator(al, x, n) : pb_buffer_create(x, n)));
    r.plan.disarm();
    if (o.mem == 2) { o.z = x; o.zn = n; } else { memset(x, 0xDD, n); free(x); }
    fault(op);
    o.valid = valid(o);
    if (!o.valid && !r.plan.fired) violate("refused", "creating %s failed although no memory was refused", name(o, i).c_str());
    if (o.valid && r.plan.fired) violate("false-success", "%s is valid although its memory was refused", name(o, i).c_str());
    if (!o.valid) { o.s.clear(); r.count("outcome.create_refused"); }
    r.log("    -> %s %s, %zu bytes", name(o, i).c_str(), o.valid ? "created" : "refused", o.s.size());
  }
  void destroy(Obj &o, size_t i, bool twice) {
    if (!o.made) return;
    string caller = o.z ? string((char *)o.z, o.zn) : "";
    for (int k = twice ? 2 : 1; k; k--) {
      if (o.jrn) pb_journal_destroy(o.j.get()); else pb_buffer_destroy(o.b.get());
      if (valid(o)) violate("destroyed-valid", "a destroyed %s still claims to be valid", name(o, i).c_str());
      o.valid = false; o.s.clear();
    }
    if (o.z) { if (string((char *)o.z, o.zn) != caller) violate("zero-copy-moved", "destroying %s changed the caller's memory", name(o, i).c_str()); }
    r.checkLedger(r.sys); r.checkLedger(*o.led);
    if (!o.led->live.empty()) violate("leak", "%zu blocks are left over after destroying %s", o.led->live.size(), name(o, i).c_str());
    if (o.chunk && twice) closeChunk(o);
  }
  void closeChunk(Obj &o) { pb_chunk_allocator_destroy(o.chunk.get()); o.chunk.reset(); }
  void drop(Obj &o) { if (o.chunk) closeChunk(o); free(o.z); o.z = nullptr; o.made = false; o.b.reset(); o.j.reset(); }
  void fault(const Op &op) { if (r.plan.fired || r.plan.shrinkFired) { r.faultsFired++; r.count(string("fault.") + fault_names[op.fmode]); } }

  // one edit; want: the content after success, grows/shrinks by its size
  void edit(Obj &o, size_t i, const Op &op, const char *what, const std::function<int()> &call, const string &want, bool inRange) {
    r.plan.arm(op); int e = call(); r.plan.disarm(); fault(op);
    r.log("    -> %s%s", ename(e), r.plan.fired ? " (refused memory)" : r.plan.shrinkFired ? " (refused to shrink)" : ""); r.ev(e * 7 + r.plan.calls); r.effective++;
    FaultPlan &f = r.plan; bool resizes = want.size() != o.s.size();
    if (e < 0 || e > 6) violate("error-code", "%s returned %d", what, e);
    if (!o.valid) { if (!e) violate("invalid-accepted", "%s on an invalid %s reports success", what, name(o, i).c_str()); return; }
    if (!inRange) {
      if (!e) violate("range-accepted", "%s outside of %s reports success", what, name(o, i).c_str());
      if (e != PB_ERROR_OFFSET && !f.fired && o.mem != 2) violate("range-error", "%s outside of %s reports %s", what, name(o, i).c_str(), ename(e));
      r.count("outcome.out_of_range"); return;
    }
    if (o.mem == 2 && resizes) { if (!e) violate("zero-copy-success", "%s resized caller-owned memory", what); r.count("outcome.caller_owned_kept"); return; }
    if (e) {
      if (!f.fired) violate(f.shrinkFired ? "shrink-refusal-fails" : "refused", "%s on %s failed with %s although no memory was refused", what, name(o, i).c_str(), ename(e));
      if (!resizes) violate("in-place-fails", "%s on %s failed with %s although its size does not change", what, name(o, i).c_str(), ename(e));
      if (want.size() < o.s.size() && !o.jrn) violate("shrink-refusal-fails", "%s on %s could not shrink", what, name(o, i).c_str());
      r.count("outcome.clean_failure"); return;
    }
    if (f.fired && want.size() > o.s.size() && !f.growOk && o.mem != 3) violate("false-success", "%s on %s reports success although it was given no memory", what, name(o, i).c_str());
    o.s = want; if (o.jrn && resizes) { o.ver++; string l = log(o); if (l.size() <= o.log.size() || l.compare(0, o.log.size(), o.log)) violate("edit-log", "%s rewrote the edit log", what); o.log = l; }
    r.count(resizes ? "outcome.resized" : "outcome.in_place");
  }
  void exec(const Op &op) {
    size_t i = op.a % os.size(); Obj &o = os[i]; Rng g(op.r ^ 99);
    if (op.kind == B_CREATE || !o.made) { say(op, format("slot %zu", i)); if (o.made) { destroy(o, i, true); drop(o); } create(o, op, i); r.effective++; return; }
    size_t n = o.s.size();
    switch (op.kind) {
      case B_DESTROY: say(op, name(o, i)); destroy(o, i, g.chance(1, 2)); r.effective++; break;
      case B_WRITE: {
        size_t a = g.below(n + 1), b = a + g.below(n - a + 1); if (g.chance(1, 4)) b = a; if (g.chance(1, 5)) { a = 0; b = n; } if (g.chance(1, 6)) a = b = n;
        size_t k = g.chance(1, 3) && b > a ? b - a : 1 + g.below(g.chance(1, 8) ? 300 : 16);
        string d = bytes(k, op.r); write(o, i, op, a, b, d, "write", true); break;
      }
      case B_CLEAR: {
        size_t a = g.below(n + 1), b = a + g.below(n - a + 1); if (g.chance(1, 8)) a = b;
        clear(o, i, op, a, b, true); break;
      }
      case B_ALL: clear(o, i, op, 0, n, true); break;
      case B_GROW: {
        size_t k = 1 + g.below(24); say(op, format("%s by %zu", name(o, i).c_str(), k));
        pb_buffer_t *b = o.jrn ? nullptr : o.b.get(); if (!b) break;     // growing is not journaled
        string d = bytes(k, op.r);
        edit(o, i, op, "grow", [&] { u8 *p = shim_buffer_grow(b, k); if (!p) return (int)PB_ERROR_ALLOC; if (p != data(o) + n) violate("grow", "grow returned the wrong place"); memcpy(p, d.data(), k); return 0; }, o.s + d, true);
        break;
      }
      case B_BAD: {
        size_t a = g.below(n + 3), b = g.below(n + 3);
        switch (g.below(5)) { case 0: b = n + 1 + g.below(40); break; case 1: a = n + 1 + g.below(3); b = a + g.below(5); break; case 2: b = SIZE_MAX - g.below(3); break; case 3: a = SIZE_MAX - g.below(3); break;
          default: if (a <= b) { if (a == b) a++; else std::swap(a, b); } }
        bool in = a <= b && b <= n; if (in) { b = n + 1; in = false; }
        if (g.chance(1, 2)) write(o, i, op, a, b, bytes(1 + g.below(8), op.r), "write", false); else clear(o, i, op, a, b, false);
        break;
      }
    }
  }
  void write(Obj &o, size_t i, const Op &op, size_t a, size_t b, const string &d, const char *what, bool in) {
    say(op, format("%s [%zu,%zu) of %zu <- %zu bytes", name(o, i).c_str(), a, b, o.s.size(), d.size()));
    u8 *x = (u8 *)malloc(d.size()); memcpy(x, d.data(), d.size());
    string want = o.s; if (in) want.replace(a, b - a, d);
    struct Free { u8 *p; ~Free() { free(p); } } fr{ x };
    edit(o, i, op, what, [&] { return (int)(o.jrn ? shim_journal_write(o.j.get(), in ? a : 0, a, b, x, d.size()) : shim_buffer_write(o.b.get(), a, b, x, d.size())); }, want, in);
    if (memcmp(x, d.data(), d.size())) violate("source-changed", "write changed its source");
  }
  void clear(Obj &o, size_t i, const Op &op, size_t a, size_t b, bool in) {
    say(op, format("%s [%zu,%zu) of %zu", name(o, i).c_str(), a, b, o.s.size()));
    string want = o.s; if (in) want.erase(a, b - a);
    edit(o, i, op, "clear", [&] { return (int)(o.jrn ? shim_journal_clear(o.j.get(), in ? a : 0, a, b) : shim_buffer_clear(o.b.get(), a, b)); }, want, in);
  }
  void say(const Op &op, const string &s) { r.log("%3d client %u: %s %s%s", step, op.client, b_name[op.kind], s.c_str(), op.fmode ? format(" [fault %s k=%u]", fault_names[op.fmode], op.fk).c_str() : ""); }
  void runAll() {
    r.sysOn = true; r.sys.move = (int)t.knob[K_MOVE];
    os.resize(t.knob[K_SLOTS] ? t.knob[K_SLOTS] : 1);
    for (auto &op : t.ops) {
      if (op.kind >= B_KINDS) continue;
      step++; r.steps++; r.sched = mix64(r.sched ^ (op.client * 64 + op.kind)); r.count(string("op.") + b_name[op.kind]);
      exec(op); checkAll(b_name[op.kind]);
      u64 h = 0; for (auto &o : os) { u64 x = o.made ? hashstr(o.s) + o.valid * 3 + o.mem * 5 + o.jrn + o.ver * 11 : 1; r.ev(x); h = mix64(h ^ x); } r.state(h);
    }
    for (size_t i = 0; i < os.size(); i++) if (os[i].made) { destroy(os[i], i, true); drop(os[i]); }
    if (!r.sys.live.empty()) violate("leak", "%zu blocks of the system allocator are left over", r.sys.live.size());
  }
};
void bufGen(u64 seed, Trace &t) {
  Rng g(mix64(seed) ^ 12); t.seed = mix64(seed);
  t.knob[K_SLOTS] = g.range(1, 4); t.knob[K_MOVE] = g.chance(1, 3); t.knob[K_SIZE] = g.chance(1, 5) ? 400 : g.range(1, 24);
  Rng q(mix64(seed) ^ 0x51de); bool big = q.chance(1, 400); if (big) t.knob[K_SIZE] = q.chance(1, 3) ? 70000 : 5000;
  int w[B_KINDS] = { 5, 2, 34, 18, 10, 9, 2 }; int sum = 0; for (int x : w) sum += x;
  int pct = g.chance(1, 6) ? 0 : g.range(15, 60), n = g.range(10, big ? 20 : 60);
  static const u32 modes[] = { F_ALL, F_ONE, F_FROM, F_RANDOM, F_SHRINK };
  for (int i = 0; i < n; i++) {
    Op op; op.client = (u32)g.below(3); int x = (int)g.below(sum); u32 k = 0; while (x >= w[k]) x -= w[k++];
    op.kind = k; op.a = (u32)g.below(1000); op.r = g.next();
    if ((int)g.below(100) < pct) { op.fmode = modes[g.below(5)]; op.fk = (u32)g.below(3); }
    t.ops.push_back(op);
  }
}
void bufRun(const Trace &t, Run &r) { BufSim s(t, r); s.runAll(); }
} // namespace
const char *buf_kind(u32 k) { return k < B_KINDS ? b_name[k] : "?"; }
void buf_scenarios(vector<Scenario> &v) {
  v.push_back({ "P12", "buffers and journals: seeded range edits on default, custom, caller-owned and chunk memory with refused requests", bufGen, bufRun, 400000, 14000000,
    "a run counts when at least 5 edits were checked against the reference strings and at least one memory request was refused; distinct by the hash of its event log", true, { K_SLOTS, K_MOVE, K_SIZE } });
}
