// Low level layer: decoder (P16), encoder (P17) and validator (P18), driven by
// seeded histories of messages, damage, aborts, re-entrance and refused memory.
#include "ref.hpp"

namespace {

enum { K_MSGS, K_FIELDS, K_OCC, K_DEPTH, K_EXT, K_UNKNOWN, K_ORDER, K_DUP, K_MIXED, K_BIG, K_SLOTS, K_FEATURES, K_ALLOC, K_MOVE, K_ENCODERS };
static const vector<int> lower{ K_MSGS, K_FIELDS, K_OCC, K_DEPTH, K_EXT, K_UNKNOWN, K_ORDER, K_DUP, K_MIXED, K_BIG, K_SLOTS, K_ALLOC, K_MOVE, K_ENCODERS };

static void genKnobs(Rng &g, Trace &t, bool ext) {
  t.knob[K_MSGS] = g.range(1, 3); t.knob[K_FIELDS] = g.range(1, g.chance(1, 3) ? 12 : 6);
  t.knob[K_OCC] = g.range(1, 9); t.knob[K_DEPTH] = g.range(0, 3); t.knob[K_EXT] = ext && g.chance(1, 2) ? g.range(1, 3) : 0;
  t.knob[K_UNKNOWN] = g.chance(1, 2); t.knob[K_ORDER] = g.chance(1, 2); t.knob[K_DUP] = g.chance(1, 2); t.knob[K_MIXED] = g.chance(2, 3); t.knob[K_BIG] = g.chance(1, 5);
  t.knob[K_SLOTS] = g.range(1, 3);
  u64 ft = 63; if (g.chance(1, 2)) for (int i = 0; i < 6; i++) if (g.chance(1, 4)) ft &= ~(1ull << i);
  t.knob[K_FEATURES] = ft;
  t.knob[K_ALLOC] = g.below(3); t.knob[K_MOVE] = g.chance(1, 3); t.knob[K_ENCODERS] = g.range(1, 4);
}
// rare extremes, each in a small share of the runs
static void extremes(u64 seed, Trace &t) {
  Rng q(mix64(seed) ^ 0x51de); auto most = [&](size_t k) { if (t.ops.size() > k) t.ops.resize(k); };
  if (q.chance(1, 3000)) { t.knob[K_BIG] = 3; t.knob[K_OCC] = std::min<u64>(t.knob[K_OCC], 4); t.knob[K_DEPTH] = std::min<u64>(t.knob[K_DEPTH], 1); most(10); }
  else if (q.chance(1, 200)) { t.knob[K_BIG] = 2; most(20); }
  if (t.knob[K_EXT] && q.chance(1, 20)) t.knob[K_EXT] = q.range(4, 8);
  if (t.knob[K_BIG] > 1) return;
  if (q.chance(1, 80)) { t.knob[K_FIELDS] = q.range(20, 300); t.knob[K_OCC] = q.range(5, 80); if (t.prop == "P18") t.knob[K_FEATURES] &= ~8ull; t.knob[K_DEPTH] = std::min<u64>(t.knob[K_DEPTH], 1); }
  else if (q.chance(1, 80)) { t.knob[K_DEPTH] = q.range(5, 30); t.knob[K_OCC] = q.range(1, 3); t.knob[K_FEATURES] |= 8; }
}

struct Base {
  const Trace &t; Run &r; Schema sc; GenKnobs gk; int step = 0, budget = 0;
  Base(const Trace &tt, Run &rr) : t(tt), r(rr) {}
  void setup() {
    Rng g(t.seed); SchemaKnobs k;
    k.maxMsgs = (int)t.knob[K_MSGS]; k.maxFields = (int)t.knob[K_FIELDS]; k.ext = (int)t.knob[K_EXT];
    u64 ft = t.knob[K_FEATURES];
    k.packed = ft & 1; k.oneof = ft & 2; k.strings = ft & 4; k.nested = ft & 8; k.repeated = ft & 16; k.bigTags = ft & 32; k.nestedHeavy = t.knob[K_DEPTH] > 4;
    sc.generate(g, k);
    gk.maxOcc = (int)t.knob[K_OCC]; gk.depth = (int)t.knob[K_DEPTH]; gk.unknown = t.knob[K_UNKNOWN]; gk.order = t.knob[K_ORDER];
    gk.dupSingular = t.knob[K_DUP]; gk.mixedPacked = t.knob[K_MIXED]; gk.big = t.knob[K_BIG]; gk.emptyPacked = t.knob[K_MIXED]; gk.budget = gk.depth > 4 ? &budget : nullptr;
  }
  void opRegister(const Op &op) {
    vector<MsgS *> c; for (auto &m : sc.m) if (m.nExt) c.push_back(&m);
    if (c.empty()) return;
    MsgS &m = *c[op.b % c.size()];
    if (m.registered && op.c % 3 == 0) { int e = 1 + (int)(op.a % m.registered); pb_descriptor_extend(m.d, m.ext[e - 1]); say(op, format("message %d extension %d again", m.index, e)); }
    else if (m.registered < m.nExt) { pb_descriptor_extend(m.d, m.ext[m.registered]); m.registered++; say(op, format("message %d extension %d", m.index, m.registered)); }
  }
  virtual const char *opName(u32 k) = 0;
  void say(const Op &op, const string &s) { r.log("%3d client %u: %s %s%s", step, op.client, opName(op.kind), s.c_str(), op.fmode ? format(" [fault %s k=%u]", fault_names[op.fmode], op.fk).c_str() : ""); }
};

// ============================================================ P16: decoder
enum { D_DECODE, D_ABORT, D_REGEN, D_DAMAGE, D_CUT, D_REGISTER, D_HUGE, D_KINDS };
static const char *const d_name[] = { "decode", "decode_abort", "new_message", "damage", "cut", "register_extension", "many_fields" };

struct DecSim : Base {
  struct Slot { int root = 0; string b; bool intact = true; };
  vector<Slot> slots;
  DecSim(const Trace &tt, Run &rr) : Base(tt, rr) {}
  const char *opName(u32 k) override { return d_name[k % D_KINDS]; }
  void regen(Slot &s, u64 seed) { Rng g(seed); budget = 60; s.root = (int)g.below(sc.m.size()); s.b = genMsg(g, sc, s.root, gk, gk.depth); s.intact = true; }

  // one decode of a slot; re-entrant: may decode another slot from inside a handler
  struct Ctx {
    DecSim *s; const u8 *base; const Ref *ref; size_t i = 0; int depth = 0; size_t abortAt; int abortCode; u64 salt; bool open; bool aborted = false;
    size_t limit; int level; const Op *op; string got; const MsgS *ms;
  };
  static bool wantRecurse(u64 salt, size_t i) { return mix64(salt + i * 7919) % 4 != 0; }
  static pb_error_t onField(const pb_field_descriptor_t *fd, const void *value, void *user) {
    Ctx &c = *(Ctx *)user;
    if (c.aborted) violate("after-abort", "the decoder went on after the handler had aborted");
    if (c.i >= c.limit) violate("unbounded", "more deliveries than the input has bytes");
    size_t i = c.i++;
    pb_tag_t tag = pb_field_descriptor_tag(fd);
    int type = pb_field_descriptor_type(fd);
    c.s->r.ev(tag * 31 + i);
    u64 v = 0; const u8 *p = nullptr; size_t n = 0;
    if (type == PB_TYPE_MESSAGE) { const pb_buffer_t *b = pb_decoder_buffer((const pb_decoder_t *)value); p = pb_buffer_data(b); n = pb_buffer_size(b); }
    else if (type == PB_TYPE_STRING || type == PB_TYPE_BYTES) { const pb_string_t *x = (const pb_string_t *)value; p = pb_string_data(x); n = pb_string_size(x); }
    else memcpy(&v, value, native_size((pb_type_t)type));
    if (i < c.ref->ev.size()) {
      const Event &e = c.ref->ev[i];
      if (e.depth != c.depth || e.tag != tag || e.type != type) violate("events", "delivery %zu is field %u (type %d, depth %d), expected field %u (type %d, depth %d)", i, tag, type, c.depth, e.tag, e.type, e.depth);
      if (e.str) { if (n != e.len || (n && p != c.base + e.off)) violate("events", "delivery %zu of field %u does not denote the %zu bytes at offset %zu", i, tag, e.len, e.off); }
      else if (v != e.val) violate("events", "delivery %zu of field %u is %llx, expected %llx", i, tag, (unsigned long long)v, (unsigned long long)e.val);
    } else if (!c.open) violate("events", "field %u (depth %d) delivered behind the %zu expected deliveries", tag, c.depth, c.ref->ev.size());
    else if (p && n) { // unspecified encodings: safety only
      volatile u8 x = 0; for (size_t k = 0; k < n; k += 16) x ^= p[k]; x ^= p[n - 1];
    }
    if (i == c.abortAt) { c.aborted = true; return (pb_error_t)c.abortCode; }
    if (c.level < 2 && mix64(c.salt * 3 + i) % (c.ref->ev.size() < 150 ? 16 : 2048) == 0 && c.s->slots.size() > 1) {   // another decode from inside
      Slot &o = c.s->slots[mix64(c.salt + i) % c.s->slots.size()];
      Op sub = *c.op; sub.r = mix64(c.salt ^ i); c.s->decode(o, sub, SIZE_MAX, 0, c.level + 1);
      c.s->r.count("outcome.reentrant_decode");
      bool same;   // what was delivered is the handler's own for as long as it runs
      if (type == PB_TYPE_MESSAGE) { const pb_buffer_t *b = pb_decoder_buffer((const pb_decoder_t *)value); same = p == pb_buffer_data(b) && n == pb_buffer_size(b); }
      else if (type == PB_TYPE_STRING || type == PB_TYPE_BYTES) { const pb_string_t *x = (const pb_string_t *)value; same = p == pb_string_data(x) && n == pb_string_size(x); }
      else same = !memcmp(&v, value, native_size((pb_type_t)type));
      if (!same) violate("events", "the value of field %u changed while its handler decoded something else", tag);
    }
    if (type == PB_TYPE_MESSAGE) {
      bool rec = wantRecurse(c.salt, i);
      if (rec && c.depth < 40) {
        c.depth++;
        pb_decoder_t d = *(const pb_decoder_t *)value;
        pb_error_t e = pb_decoder_decode(&d, onField, user);
        c.depth--;
        return e;
      }
    }
    return PB_ERROR_NONE;
  }
  void decode(Slot &s, const Op &op, size_t abortAt, int code, int level) {
    if (s.b.empty()) return;
    Exact x(s.b);
    Ref ref(s.b); u64 salt = op.r;
    Verdict v = ref.decode(&sc.m[s.root], sc, 0, s.b.size(), 0, [&](size_t i) { return wantRecurse(salt, i); });
    if (abortAt != SIZE_MAX && ref.ev.size()) abortAt %= ref.ev.size() + 1;
    u64 calls = r.sys.calls;
    FaultPlan keep = r.plan;
    Op all; all.fmode = F_ALL; r.plan.arm(all);                  // decoding needs no memory
    pb_buffer_t b = pb_buffer_create_zero_copy(x.p, x.n);
    pb_decoder_t d = pb_decoder_create(sc.m[s.root].d, &b);
    Ctx c{ this, x.p, &ref, 0, 0, abortAt, code, salt, v == V_AMBIG, false, x.n * 12 + 64, level, &op, "", &sc.m[s.root] };
    int e = pb_decoder_decode(&d, onField, &c);
    pb_decoder_destroy(&d); pb_buffer_destroy(&b);
    r.plan = keep;
    if (r.sys.calls != calls) violate("read-allocates", "decoding called the allocator");
    if (!x.same(s.b)) violate("read-changes-message", "decoding changed the data");
    r.log("    -> %s after %zu of %zu deliveries (%s)", ename(e), c.i, ref.ev.size(), v == V_OK ? "intact" : v == V_ERR ? "damaged" : "open encoding");
    r.ev(e * 77 + c.i);
    if (c.aborted) { r.count("outcome.aborted"); r.faultsFired++; if (e != code) violate("abort-code", "the handler aborted with %s, decoding returned %s", ename(code), ename(e)); return; }
    r.count(v == V_OK ? "outcome.intact" : v == V_ERR ? "outcome.damaged" : "outcome.open_encoding");
    if (v == V_AMBIG) { if (c.i < ref.ev.size()) violate("events", "only %zu of %zu fields in front of an open encoding were delivered (%s)", c.i, ref.ev.size(), ename(e)); return; }
    if (c.i != ref.ev.size()) violate("events", "%zu of %zu fields were delivered (%s)", c.i, ref.ev.size(), ename(e));
    if (v == V_OK && e) violate("refused", "decoding an intact message failed with %s", ename(e));
    if (v == V_ERR && !e) violate("false-success", "decoding a damaged message succeeded");
  }
  void exec(const Op &op) {
    Slot &s = slots[op.a % slots.size()];
    Rng g(op.r);
    switch (op.kind) {
      case D_DECODE: say(op, format("slot %zu (%zu bytes)", op.a % slots.size(), s.b.size())); decode(s, op, SIZE_MAX, 0, 0); r.effective++; break;
      case D_ABORT: { int code = 1 + op.c % 6; say(op, format("slot %zu at delivery %u with %s", op.a % slots.size(), op.b, ename(code))); decode(s, op, op.b, code, 0); r.effective++; break; }
      case D_REGEN: say(op, ""); regen(s, op.r); break;
      case D_DAMAGE: { s.intact = false; int k = damage(g, s.b); say(op, format("%s -> %s", damage_name[k], hex(s.b).c_str())); r.count(string("fault.damage_") + damage_name[k]); r.faultsFired++; break; }
      case D_CUT: if (s.b.size()) { s.intact = false; s.b.resize(g.below(s.b.size())); say(op, hex(s.b)); r.count("fault.damage_cut"); r.faultsFired++; } break;
      case D_REGISTER: opRegister(op); r.effective++; break;
      case D_HUGE: { // very many fields
        say(op, "");
        const MsgS &m = sc.m[s.root]; string one; int tries = 0; GenKnobs q = gk; q.big = 0;
        while (tries++ < 20 && (one.empty() || one.size() > 12)) { one.clear(); genOcc(one, g, sc, m.f[g.below(m.f.size())], q, 0); }
        if (one.size() > 12) break;
        string big; big.reserve(one.size() * 150000); for (int i = 0; i < 150000; i++) big += one;
        Slot x; x.root = s.root; x.b = big; Op sub = op; decode(x, sub, SIZE_MAX, 0, 2); r.effective++; r.count("outcome.huge_message"); break;
      }
    }
  }
  void runAll() {
    r.sysOn = true; setup();
    slots.resize(t.knob[K_SLOTS] ? t.knob[K_SLOTS] : 1);
    for (size_t i = 0; i < slots.size(); i++) regen(slots[i], mix64(t.seed + i));
    for (auto &op : t.ops) {
      step++; r.steps++; r.sched = mix64(r.sched ^ (op.client * 64 + op.kind)); r.count(string("op.") + d_name[op.kind]);
      exec(op);
      for (auto &s : slots) { r.ev(hashstr(s.b)); r.state(hashstr(s.b)); }
    }
  }
};

// ============================================================ P17: encoder
enum { E_ENCODE, E_MULTI, E_NESTED, E_DESTROY, E_CREATE, E_REGISTER, E_INVALID, E_KINDS };
static const char *const e_name[] = { "encode", "encode_many", "encode_nested", "destroy", "create", "register_extension", "use_invalid" };

struct EncSim : Base {
  struct Enc { int schema; pb_encoder_t e; bool valid = false; bool custom; string b; vector<std::pair<pb_tag_t, string>> items; };
  Ledger led; vector<std::unique_ptr<Enc>> es;
  EncSim(const Trace &tt, Run &rr) : Base(tt, rr) { led.name = "allocator"; led.plan = &rr.plan; }
  const char *opName(u32 k) override { return e_name[k % E_KINDS]; }
  string bytes(Enc &e) { const pb_buffer_t *b = pb_encoder_buffer(&e.e); size_t n = pb_buffer_size(b); return n ? string((const char *)pb_buffer_data(b), n) : string(); }
  void create(Enc &e, const Op &op) {
    Rng g(op.r ^ 5);
    e.schema = (int)g.below(sc.m.size()); e.custom = t.knob[K_ALLOC] == 0 || (t.knob[K_ALLOC] == 2 && g.chance(1, 2));
    r.plan.arm(op);
    e.e = e.custom ? pb_encoder_create_with_allocator(&led.api, sc.m[e.schema].d) : pb_encoder_create(sc.m[e.schema].d);
    r.plan.disarm();
    bool ok = pb_encoder_valid(&e.e);
    if (!ok && !r.plan.fired) violate("refused", "creating an encoder failed although no memory was refused");
    if (r.plan.fired) { r.faultsFired++; r.count(string("fault.") + fault_names[op.fmode]); }
    e.valid = ok; e.b.clear(); e.items.clear();
    if (ok && !bytes(e).empty()) violate("content", "a new encoder is not empty");
  }
  // canonical item: value bytes as raw little endian or content
  void verify(Enc &e, const char *what) {
    r.checkLedger(led); r.checkLedger(r.sys);
    if (!e.valid) return;
    string b = bytes(e);
    vector<std::pair<pb_tag_t, string>> got;
    Model mo(&sc, e.schema);
    if (!mo.parse(mo.root, (const u8 *)b.data(), b.size())) violate("malformed", "after %s the output does not parse: %s", what, hex(b).c_str());
    vector<Node *> a; Model::flat(mo.root, a, true);
    for (Node *n : a) got.push_back({ n->tag, n->k == N_SCALAR ? string((const char *)&n->val, 8) : n->k == N_STRING ? n->bytes : Model::content(n) });
    for (Node *n : mo.root->kids) if (n->k == N_UNKNOWN) violate("content", "after %s the output holds an unknown field", what);
    if (got.size() != e.items.size()) violate("content", "after %s the output holds %zu values, expected %zu: %s", what, got.size(), e.items.size(), hex(b).c_str());
    for (size_t i = 0; i < got.size(); i++) if (got[i] != e.items[i]) violate("content", "after %s value %zu is field %u %s, expected field %u %s", what, i, got[i].first, hex(got[i].second).c_str(), e.items[i].first, hex(e.items[i].second).c_str());
    r.state(hashstr(b));
  }
  void libCheck(Enc &e) {      // the library's own decoder agrees
    if (!e.valid || e.b.empty()) return;
    Exact x(e.b); Ref ref(e.b);
    Verdict v = ref.decode(&sc.m[e.schema], sc, 0, x.n, 0, [](size_t) { return false; });
    if (v != V_OK || ref.ev.size() != e.items.size()) violate("content", "the output is not intact");
    struct C { size_t n; } c{ 0 };
    pb_decoder_t d = pb_decoder_create(sc.m[e.schema].d, pb_encoder_buffer(&e.e));
    int err = pb_decoder_decode(&d, [](const pb_field_descriptor_t *, const void *, void *u) -> pb_error_t { ((C *)u)->n++; return PB_ERROR_NONE; }, &c);
    pb_decoder_destroy(&d);
    if (err || c.n != e.items.size()) violate("content", "the library's decoder delivers %zu of %zu encoded values (%s)", c.n, e.items.size(), ename(err));
  }
  void call(Enc &e, const Op &op, const char *what, bool valid, const std::function<int()> &f, const vector<std::pair<pb_tag_t, string>> &items) {
    string before = e.valid ? bytes(e) : string();
    vector<string> others; for (auto &o : es) if (o.get() != &e && o->valid) others.push_back(bytes(*o));
    r.plan.arm(op); int err = f(); r.plan.disarm();
    FaultPlan &p = r.plan;
    r.log("    -> %s%s", ename(err), p.fired || p.shrinkFired ? " (memory was refused)" : "");
    r.ev(err * 1003 + p.calls * 7 + p.fired); r.effective++;
    if (p.fired || p.shrinkFired) { r.faultsFired++; r.count(string("fault.") + fault_names[op.fmode]); }
    size_t i = 0; for (auto &o : es) if (o.get() != &e && o->valid) if (bytes(*o) != others[i++]) violate("other-encoder-changed", "%s changed another encoder", what);
    if (!valid) {
      if (!err) violate("invalid-accepted", "%s with an invalid encoder reported success", what);
      if (e.valid && bytes(e) != before) violate("stale-effect", "%s with an invalid argument changed the output", what);
      verify(e, what); return;
    }
    if (!pb_encoder_valid(&e.e)) violate("lost-encoder", "%s made the encoder invalid", what);
    if (err) {
      if (!p.fired && !p.shrinkFired) violate("refused", "%s failed with %s although no memory was refused", what, ename(err));
      if (bytes(e) != before) violate("partial-effect", "%s failed with %s and left %s behind %s", what, ename(err), hex(bytes(e)).c_str(), hex(before).c_str());
      r.count("outcome.clean_failure"); verify(e, what); return;
    }
    if (bytes(e).compare(0, before.size(), before)) violate("content", "%s changed what was encoded before", what);
    for (auto &x : items) e.items.push_back(x);
    e.b = bytes(e); verify(e, what);
  }
  const FD *pickFD(Enc &e, const Op &op, std::function<bool(const FD &)> ok) {
    vector<const FD *> c; const MsgS &m = sc.m[e.schema]; for (auto &f : m.f) if (f.ext <= m.registered && ok(f)) c.push_back(&f);
    return c.empty() ? nullptr : c[op.b % c.size()];
  }
  void exec(const Op &op) {
    Enc &e = *es[op.a % es.size()]; Rng g(op.r);
    switch (op.kind) {
      case E_ENCODE: case E_MULTI: {
        const FD *fd = pickFD(e, op, [&](const FD &f) { return !f.isMsg() && (op.kind == E_ENCODE || f.repeated()); }); if (!fd) return;
        int n = op.kind == E_MULTI ? g.range(1, g.chance(1, 6) ? 60 : 6) : 1;
        if (op.kind == E_MULTI && fd->packed && t.knob[K_BIG] > 1 && e.b.size() < 1 << 20 && g.chance(1, 3)) n = g.chance(1, 2) ? g.range(65500, 65600) : g.range(4000, 70000);
        say(op, format("encoder %zu field %u (%s%s) x%d", op.a % es.size(), fd->tag, type_name[fd->type], fd->packed ? ", packed" : "", n));
        vector<std::pair<pb_tag_t, string>> items; int sz = native_size(fd->type);
        u8 *arr = (u8 *)malloc(n * sz); vector<std::unique_ptr<Val>> vs;
        for (int i = 0; i < n; i++) {
          vs.emplace_back(new Val()); Val &v = *vs.back();
          if (fd->isStr()) { v.s = genStr(g, true, t.knob[K_BIG]); items.push_back({ fd->tag, v.s }); } else { v.n = genNum(g, fd->type); items.push_back({ fd->tag, string((const char *)&v.n, 8) }); }
          v.arm(*fd); memcpy(arr + i * sz, v.p, sz);
        }
        struct Fr { u8 *p; ~Fr() { free(p); } } fr{ arr };
        string was((char *)arr, n * sz);
        call(e, op, "encode", e.valid, [&] { return (int)pb_encoder_encode(&e.e, fd->tag, arr, n); }, items);
        bool same = !memcmp(arr, was.data(), was.size()); if (fd->isStr()) for (auto &v : vs) same &= !memcmp(((pb_string_t *)v->p)->data, v->s.data(), v->s.size());
        if (!same) violate("argument-changed", "encoding changed the values that the caller passed");
        break;
      }
      case E_NESTED: {
        const FD *fd = pickFD(e, op, [&](const FD &f) { return f.isMsg(); }); if (!fd) return;
        int n = fd->repeated() ? g.range(1, 4) : 1;
        vector<pb_encoder_t> arr; vector<std::pair<pb_tag_t, string>> items; bool ok = e.valid;
        for (int i = 0; i < n; i++) {
          vector<Enc *> c; for (auto &o : es) if (o.get() != &e && o->schema == fd->nested) c.push_back(o.get());
          if (c.empty()) return;
          Enc &o = *c[g.below(c.size())]; arr.push_back(o.e); ok = ok && o.valid; items.push_back({ fd->tag, o.b });
        }
        size_t total = e.b.size(); for (auto &x : items) total += x.second.size();
        if (total > (t.knob[K_BIG] >= 2 ? 4u << 20 : 128u << 10)) { say(op, "(too large)"); return; }   // nesting grows without bound
        say(op, format("encoder %zu field %u x%d%s", op.a % es.size(), fd->tag, n, ok ? "" : " (invalid)"));
        call(e, op, "encode nested", ok, [&] { return (int)pb_encoder_encode(&e.e, fd->tag, arr.data(), n); }, items);
        break;
      }
      case E_DESTROY: say(op, format("encoder %zu", op.a % es.size())); destroy(e); if (op.c % 2) destroy(e); r.effective++; break;
      case E_CREATE: say(op, format("encoder %zu", op.a % es.size())); destroy(e); create(e, op); r.effective++; break;
      case E_REGISTER: opRegister(op); break;
      case E_INVALID: { // an encoder that never got memory
        say(op, ""); Enc x; Op o = op; o.fmode = F_ALL; x.schema = 0;
        r.plan.arm(o); x.e = pb_encoder_create_with_allocator(&led.api, sc.m[0].d); r.plan.disarm();
        x.valid = pb_encoder_valid(&x.e); if (x.valid) { pb_encoder_destroy(&x.e); break; }   // needed none
        for (auto &f : sc.m[0].f) if (!f.ext && !f.isMsg()) { Val v; v.s = "x"; v.arm(f); if (!pb_encoder_encode(&x.e, f.tag, v.p, 1)) violate("invalid-accepted", "an invalid encoder encodes"); }
        pb_encoder_destroy(&x.e); pb_encoder_destroy(&x.e); break;
      }
    }
    if (op.c % 3 == 0) libCheck(e);
  }
  void destroy(Enc &e) {
    pb_encoder_destroy(&e.e);
    if (pb_encoder_valid(&e.e)) violate("destroyed-valid", "a destroyed encoder is valid");
    e.valid = false; e.b.clear(); e.items.clear(); r.checkLedger(led); r.checkLedger(r.sys);
  }
  void runAll() {
    r.sysOn = true; setup(); led.move = (int)t.knob[K_MOVE];
    Op none;
    for (u64 i = 0; i < std::max<u64>(1, t.knob[K_ENCODERS]); i++) { es.emplace_back(new Enc()); none.r = mix64(t.seed + i); create(*es.back(), none); }
    for (auto &op : t.ops) {
      step++; r.steps++; r.sched = mix64(r.sched ^ (op.client * 64 + op.kind)); r.count(string("op.") + e_name[op.kind]);
      exec(op);
      for (auto &e : es) r.ev(hashstr(e->b));
    }
    for (auto &e : es) { libCheck(*e); destroy(*e); destroy(*e); }
    if (!led.live.empty() || !r.sys.live.empty()) violate("leak", "%zu blocks are left over", led.live.size() + r.sys.live.size());
  }
};

// ============================================================ P18: validator
enum { V_CHECK, V_REGEN, V_DROP, V_DAMAGE, V_REGISTER, V_CUT, V_COMPLETE, V_KINDS };
static const char *const v_name[] = { "validate", "new_message", "drop_field", "damage", "register_extension", "cut", "new_complete_message" };

struct ValSim : Base {
  struct Slot { int root = 0; string b; };
  vector<Slot> slots; vector<pb_validator_t> vals;
  ValSim(const Trace &tt, Run &rr) : Base(tt, rr) {}
  const char *opName(u32 k) override { return v_name[k % V_KINDS]; }
  void regen(Slot &s, u64 seed, bool complete) { Rng g(seed); budget = 60; s.root = (int)g.below(sc.m.size()); GenKnobs q = gk; q.completeRequired = complete; s.b = genMsg(g, sc, s.root, q, gk.depth); }
  static void all(Node *m, vector<Node *> &o) { for (Node *x : m->kids) if (x->alive) { o.push_back(x); if (x->k == N_MSG) all(x, o); } }
  void exec(const Op &op) {
    Slot &s = slots[op.a % slots.size()]; Rng g(op.r);
    switch (op.kind) {
      case V_REGEN: say(op, ""); regen(s, op.r, false); break;
      case V_COMPLETE: say(op, ""); regen(s, op.r, true); break;
      case V_DROP: {
        Model mo(&sc, s.root); if (!mo.parse(mo.root, (const u8 *)s.b.data(), s.b.size())) break;
        vector<Node *> a; all(mo.root, a); if (a.empty()) break;
        Node *x = nullptr; for (int k = 0; k < 6 && (!x || !x->fd || x->fd->label != PB_LABEL_REQUIRED); k++) x = a[g.below(a.size())];
        Model::kill(x); s.b = Model::content(mo.root); say(op, format("field %u -> %s", x->tag, hex(s.b).c_str())); r.count("fault.field_dropped"); r.faultsFired++; break;
      }
      case V_DAMAGE: { int k = damage(g, s.b); say(op, format("%s -> %s", damage_name[k], hex(s.b).c_str())); r.count(string("fault.damage_") + damage_name[k]); r.faultsFired++; break; }
      case V_CUT: if (s.b.size()) { s.b.resize(g.below(s.b.size())); say(op, hex(s.b)); r.count("fault.damage_cut"); r.faultsFired++; } break;
      case V_REGISTER: opRegister(op); break;
      case V_CHECK: {
        Exact x(s.b); Ref ref(s.b); Verdict v = ref.decode(&sc.m[s.root], sc, 0, x.n, 0, [](size_t) { return true; });
        say(op, format("slot %zu (%zu bytes, %s%s)", op.a % slots.size(), s.b.size(), v == V_OK ? "intact" : v == V_ERR ? "damaged" : "open encoding", ref.missing ? ", incomplete" : ""));
        bool empty = !x.n;
        u64 calls = r.sys.calls; Op allf; allf.fmode = F_ALL;
        if (!empty) r.plan.arm(allf);
        pb_buffer_t b = empty ? pb_buffer_create_empty() : pb_buffer_create_zero_copy(x.p, x.n); calls = empty ? r.sys.calls : calls;
        int e = pb_validator_check(&vals[s.root], &b);
        if (r.sys.calls != calls) violate("read-allocates", "validation called the allocator");
        pb_buffer_destroy(&b); r.plan.disarm();
        if (!x.same(s.b)) violate("read-changes-message", "validation changed the data");
        r.log("    -> %s", ename(e)); r.ev(e); r.effective++;
        r.count(string("outcome.") + (v == V_AMBIG ? "open_encoding" : v == V_ERR ? "damaged" : ref.missing ? "incomplete" : "valid"));
        if (v == V_AMBIG) break;
        if (v == V_OK && !ref.missing && e) violate("refused", "a valid message is reported as %s", ename(e));
        if (v == V_OK && ref.missing && e != PB_ERROR_ABSENT) violate("incomplete-accepted", "a message without a required field is reported as %s, expected ABSENT", ename(e));
        if (v == V_ERR && !e) violate("damage-accepted", "a damaged message is reported as valid");
        if (v == V_ERR && e == PB_ERROR_ABSENT && !anyMissing(s)) violate("damage-as-absent", "damage is reported as an absent field");
        if (e < 0 || e > 6) violate("error-code", "validation returned %d", e);
        break;
      }
    }
  }
  // in a damaged message: could a required field be missing in any (partial) occurrence in front of the damage?
  bool anyMissing(Slot &s) { Ref ref(s.b); ref.decode(&sc.m[s.root], sc, 0, s.b.size(), 0, [](size_t) { return true; }); return ref.missing; }
  void runAll() {
    r.sysOn = true; setup();
    for (auto &m : sc.m) vals.push_back(pb_validator_create(m.d));
    slots.resize(t.knob[K_SLOTS] ? t.knob[K_SLOTS] : 1);
    for (size_t i = 0; i < slots.size(); i++) regen(slots[i], mix64(t.seed + i), i % 2);
    for (auto &op : t.ops) {
      step++; r.steps++; r.sched = mix64(r.sched ^ (op.client * 64 + op.kind)); r.count(string("op.") + v_name[op.kind]);
      exec(op);
      for (auto &s : slots) { r.ev(hashstr(s.b)); r.state(hashstr(s.b)); }
    }
    for (auto &v : vals) pb_validator_destroy(&v);
    if (!r.sys.live.empty()) violate("leak", "%zu blocks are left over", r.sys.live.size());
  }
};

static void fill(Rng &g, Trace &t, const vector<int> &w, int lo, int hi, int clients, int faultPct, const vector<int> &modes, int maxK) {
  int sum = 0; for (int x : w) sum += x;
  int n = g.range(lo, hi);
  for (int i = 0; i < n; i++) {
    Op op; op.client = (u32)g.below(clients); int x = (int)g.below(sum); u32 k = 0; while (x >= w[k]) x -= w[k++];
    op.kind = k; op.a = (u32)g.below(1000); op.b = (u32)g.below(1000); op.c = (u32)g.below(1000); op.r = g.next();
    if ((int)g.below(100) < faultPct) { op.fmode = modes[g.below(modes.size())]; op.fk = (u32)g.below(maxK + 1); }
    t.ops.push_back(op);
  }
}
void decGen(u64 seed, Trace &t) { Rng g(mix64(seed) ^ 16); t.seed = mix64(seed); genKnobs(g, t, true);
  vector<int> w(D_KINDS); w[D_DECODE] = 40; w[D_ABORT] = 25; w[D_REGEN] = 12; w[D_DAMAGE] = 12; w[D_CUT] = 8; w[D_REGISTER] = 4; w[D_HUGE] = 0;
  fill(g, t, w, 10, 40, 3, 0, { F_ALL }, 0);
  if (g.chance(1, 250)) t.ops[g.below(t.ops.size())].kind = D_HUGE;
  extremes(seed, t);
}
void encGen(u64 seed, Trace &t) { Rng g(mix64(seed) ^ 17); t.seed = mix64(seed); genKnobs(g, t, true);
  vector<int> w(E_KINDS); w[E_ENCODE] = 30; w[E_MULTI] = 25; w[E_NESTED] = 20; w[E_DESTROY] = 3; w[E_CREATE] = 5; w[E_REGISTER] = 3; w[E_INVALID] = 2;
  fill(g, t, w, 10, 50, 3, g.chance(1, 5) ? 0 : 35, { F_ALL, F_ONE, F_FROM, F_RANDOM }, 6);
  extremes(seed, t);
}
void valGen(u64 seed, Trace &t) { Rng g(mix64(seed) ^ 18); t.seed = mix64(seed); genKnobs(g, t, true);
  vector<int> w(V_KINDS); w[V_CHECK] = 40; w[V_REGEN] = 10; w[V_DROP] = 12; w[V_DAMAGE] = 8; w[V_REGISTER] = 4; w[V_CUT] = 6; w[V_COMPLETE] = 14;
  fill(g, t, w, 10, 50, 3, 0, { F_ALL }, 0);
  extremes(seed, t);
}
void decRun(const Trace &t, Run &r) { DecSim s(t, r); s.runAll(); }
void encRun(const Trace &t, Run &r) { EncSim s(t, r); s.runAll(); }
void valRun(const Trace &t, Run &r) { ValSim s(t, r); s.runAll(); }
} // namespace

const char *dec_kind(u32 k) { return k < D_KINDS ? d_name[k] : "?"; }
const char *enc_kind(u32 k) { return k < E_KINDS ? e_name[k] : "?"; }
const char *val_kind(u32 k) { return k < V_KINDS ? v_name[k] : "?"; }
void lite_scenarios(vector<Scenario> &v) {
  v.push_back({ "P16", "decoder: seeded histories of messages, damage, aborts and re-entrant decoding", decGen, decRun, 120000, 3000000, "a run counts when at least 5 decodes or registrations were checked against the reference decoder; distinct by the hash of its event log", false, lower });
  v.push_back({ "P17", "encoder: seeded histories of encode calls on several encoders with refused memory", encGen, encRun, 40000, 1500000, "a run counts when at least 5 encode calls were checked and at least one memory request was refused; distinct by the hash of its event log", true, lower });
  v.push_back({ "P18", "validator: seeded histories of messages, dropped fields, damage and extension registration", valGen, valRun, 200000, 5000000, "a run counts when at least 5 validations were checked against the reference verdict; distinct by the hash of its event log", false, lower });
}
