// Message layer simulator: several clients hold handles (messages, fields,
// cursors, oneofs) on one or more journals and issue operations in an order a
// seeded scheduler decides; every memory request is served by a simulated
// allocator that a seeded fault plan can make refuse; journals are persisted,
// destroyed and reopened at random points. The real library runs unmodified,
// the reference model of wire.hpp runs next to it.
#include "ref.hpp"
#include "bind.hpp"
extern u64 g_schemaSlot;
extern bool g_unbound;

namespace {

enum HT { H_MSG, H_FIELD, H_CURSOR, H_ONEOF };
static const char *const ht_name[] = { "msg", "field", "cursor", "oneof" };

enum OK {
  O_MSG_ROOT, O_MSG_WITHIN, O_MSG_FROM_CURSOR, O_MSG_NESTED, O_VIEW,
  O_FIELD_CREATE, O_FIELD_FROM_CURSOR, O_FIELD_NESTED,
  O_CURSOR_CREATE, O_CURSOR_NESTED, O_CURSOR_NEXT, O_CURSOR_REWIND, O_CURSOR_SEEK, O_CURSOR_MATCH,
  O_CURSOR_GET, O_CURSOR_PUT, O_CURSOR_ERASE,
  O_MSG_HAS, O_MSG_GET, O_MSG_MATCH, O_MSG_PUT, O_MSG_ERASE, O_MSG_CLEAR, O_MSG_PUTMSG,
  O_FIELD_GET, O_FIELD_MATCH, O_FIELD_PUT, O_FIELD_CLEAR,
  O_NESTED_HAS, O_NESTED_GET, O_NESTED_MATCH, O_NESTED_PUT, O_NESTED_ERASE,
  O_ONEOF_CREATE, O_ONEOF_CASE, O_ONEOF_CLEAR,
  O_DESTROY, O_RESTART, O_AUDIT, O_REGISTER, O_DECODE, O_PERSIST, O_CRASH, O_ITERATE, O_JDESTROY, O_ROT, O_DEEP, O_ENCODE, O_CHURN, O_DUMP, O_MISUSE, O_GHOST, O_KINDS
};
static const char *const ok_name[] = {
  "msg_root", "msg_within", "msg_from_cursor", "msg_nested", "view_bytes",
  "field_create", "field_from_cursor", "field_nested",
  "cursor_create", "cursor_nested", "cursor_next", "cursor_rewind", "cursor_seek", "cursor_match",
  "cursor_get", "cursor_put", "cursor_erase",
  "msg_has", "msg_get", "msg_match", "msg_put", "msg_erase", "msg_clear", "msg_put_message",
  "field_get", "field_match", "field_put", "field_clear",
  "nested_has", "nested_get", "nested_match", "nested_put", "nested_erase",
  "oneof_create", "oneof_case", "oneof_clear",
  "destroy", "restart", "audit", "register_extension", "decode", "persist", "crash", "iterate", "journal_destroy", "rot", "deep_edit", "encode", "churn", "dump", "misuse", "ghost" };

enum { K_OPS, K_WORLDS, K_CLIENTS, K_MSGS, K_FIELDS, K_OCC, K_DEPTH, K_AUDIT, K_EMPTY, K_ALLOC, K_MOVE, K_EXT, K_UNKNOWN,
       K_ORDER, K_DUP, K_MIXED, K_BIG, K_FEATURES, K_FOCUS, K_DEEP, K_SCHEMA, K_BOUND, K_FAR };

struct Profile {
  int w[O_KINDS];
  int faultPct = 8;             // operations with an armed fault plan, in percent
  vector<int> modes{ F_ALL, F_ONE, F_FROM, F_SHRINK };
  int maxK = 1;
  int zcPct = 0;                // runs with caller-owned memory
  int boundPct = 0;             // runs on bindings written by the generator
  bool exact = false, retry = false, views = false, ext = false, partialKnown = false, garble = false;
  bool dupSingular = true, order = true;
  int deadPct = 8;              // pick dead handles
  int worldsMax = 1;
  int auditEvery = 4;
  int opsLo = 12, opsHi = 60;
  bool oneofHeavy = false, nestedHeavy = false, packedHeavy = false, defaultsHeavy = false;
  Profile() { for (int &x : w) x = 0; }
};

static void set(Profile &p, std::initializer_list<std::pair<int, int>> l) { for (auto &x : l) p.w[x.first] = x.second; }

static Profile profile(const string &id) {
  Profile p;
  // a broad default mix
  set(p, { { O_MSG_ROOT, 2 }, { O_MSG_WITHIN, 6 }, { O_MSG_FROM_CURSOR, 3 }, { O_MSG_NESTED, 2 },
    { O_FIELD_CREATE, 5 }, { O_FIELD_FROM_CURSOR, 3 }, { O_FIELD_NESTED, 2 },
    { O_CURSOR_CREATE, 5 }, { O_CURSOR_NESTED, 1 }, { O_CURSOR_NEXT, 4 }, { O_CURSOR_REWIND, 1 }, { O_CURSOR_SEEK, 1 }, { O_CURSOR_MATCH, 1 },
    { O_CURSOR_GET, 3 }, { O_CURSOR_PUT, 3 }, { O_CURSOR_ERASE, 2 },
    { O_MSG_HAS, 2 }, { O_MSG_GET, 3 }, { O_MSG_MATCH, 2 }, { O_MSG_PUT, 8 }, { O_MSG_ERASE, 4 }, { O_MSG_CLEAR, 1 },
    { O_FIELD_GET, 3 }, { O_FIELD_MATCH, 1 }, { O_FIELD_PUT, 7 }, { O_FIELD_CLEAR, 2 },
    { O_NESTED_HAS, 1 }, { O_NESTED_GET, 1 }, { O_NESTED_MATCH, 1 }, { O_NESTED_PUT, 2 }, { O_NESTED_ERASE, 1 },
    { O_ONEOF_CREATE, 2 }, { O_ONEOF_CASE, 1 }, { O_ONEOF_CLEAR, 1 }, { O_DESTROY, 1 }, { O_RESTART, 1 }, { O_AUDIT, 3 } });
  if (id == "P01") { p.auditEvery = 2; set(p, { { O_MSG_WITHIN, 9 }, { O_FIELD_CREATE, 9 }, { O_FIELD_PUT, 12 }, { O_RESTART, 0 }, { O_MSG_CLEAR, 0 } }); }
  if (id == "P02") { p.worldsMax = 2; set(p, { { O_MSG_PUTMSG, 3 } }); }
  if (id == "P03") { p.deadPct = 45; set(p, { { O_MSG_ERASE, 9 }, { O_CURSOR_ERASE, 6 }, { O_FIELD_CLEAR, 6 }, { O_MSG_CLEAR, 3 }, { O_ONEOF_CLEAR, 3 }, { O_RESTART, 0 }, { O_MISUSE, 2 } }); }
  if (id == "P04") { p.worldsMax = 2; p.faultPct = 12; p.modes = { F_ALL, F_ONE, F_FROM, F_RANDOM, F_SHRINK }; p.maxK = 6; p.partialKnown = true;
    set(p, { { O_RESTART, 5 }, { O_PERSIST, 3 }, { O_CRASH, 3 }, { O_MSG_PUTMSG, 2 } }); }
  if (id == "P05") { set(p, { { O_CURSOR_CREATE, 14 }, { O_CURSOR_NEXT, 22 }, { O_CURSOR_REWIND, 4 }, { O_CURSOR_SEEK, 6 }, { O_CURSOR_MATCH, 4 },
    { O_CURSOR_GET, 6 }, { O_CURSOR_PUT, 8 }, { O_CURSOR_ERASE, 7 }, { O_ITERATE, 6 }, { O_RESTART, 0 } }); }
  if (id == "P06") { p.packedHeavy = true; set(p, { { O_CURSOR_CREATE, 10 }, { O_CURSOR_NEXT, 10 }, { O_CURSOR_PUT, 8 }, { O_CURSOR_ERASE, 7 }, { O_FIELD_CREATE, 8 },
    { O_FIELD_FROM_CURSOR, 8 }, { O_FIELD_CLEAR, 4 }, { O_MSG_PUT, 14 }, { O_ITERATE, 5 }, { O_MSG_NESTED, 0 }, { O_FIELD_NESTED, 0 }, { O_ONEOF_CREATE, 0 } }); }
  if (id == "P07") { p.boundPct = 10; p.oneofHeavy = true; p.modes = { F_ALL, F_ONE, F_FROM, F_SHRINK }; p.maxK = 3; set(p, { { O_ONEOF_CREATE, 8 }, { O_ONEOF_CASE, 10 }, { O_ONEOF_CLEAR, 5 }, { O_MSG_PUT, 14 }, { O_MSG_HAS, 8 }, { O_MSG_GET, 8 }, { O_MSG_ERASE, 6 } }); }
  if (id == "P08") { p.boundPct = 10; p.nestedHeavy = true; set(p, { { O_MSG_NESTED, 8 }, { O_FIELD_NESTED, 8 }, { O_CURSOR_NESTED, 4 }, { O_NESTED_HAS, 8 }, { O_NESTED_GET, 8 }, { O_NESTED_MATCH, 8 },
    { O_NESTED_PUT, 12 }, { O_NESTED_ERASE, 8 } }); }
  if (id == "P09") { p.auditEvery = 1; p.zcPct = 30; p.views = true; set(p, { { O_DECODE, 10 }, { O_ITERATE, 8 }, { O_CURSOR_NEXT, 10 }, { O_CURSOR_SEEK, 6 }, { O_CURSOR_MATCH, 6 }, { O_CURSOR_GET, 8 }, { O_MSG_HAS, 8 },
    { O_MSG_GET, 8 }, { O_MSG_MATCH, 8 }, { O_FIELD_GET, 8 }, { O_FIELD_MATCH, 8 }, { O_NESTED_GET, 5 }, { O_NESTED_HAS, 5 }, { O_NESTED_MATCH, 5 }, { O_ONEOF_CASE, 5 }, { O_VIEW, 3 }, { O_DUMP, 4 }, { O_MISUSE, 4 } }); }
  if (id == "P10") { p.faultPct = 50; p.modes = { F_ALL, F_ONE, F_FROM }; p.maxK = 1; p.retry = true; p.auditEvery = 1; p.views = true; p.worldsMax = 2; set(p, { { O_VIEW, 2 }, { O_MSG_PUTMSG, 2 } }); }
  if (id == "P11") { p.faultPct = 40; p.modes = { F_ALL, F_ONE, F_FROM, F_RANDOM, F_SHRINK }; p.maxK = 8; p.views = true; p.worldsMax = 2; set(p, { { O_VIEW, 2 }, { O_MSG_PUTMSG, 2 }, { O_RESTART, 4 }, { O_DECODE, 1 } }); }
  if (id == "P13") { p.zcPct = 100; p.views = true; p.auditEvery = 1; set(p, { { O_VIEW, 3 }, { O_FIELD_PUT, 16 }, { O_CURSOR_PUT, 10 }, { O_MSG_PUT, 16 }, { O_FIELD_FROM_CURSOR, 8 }, { O_RESTART, 0 } }); p.worldsMax = 2; p.w[O_MSG_PUTMSG] = 2; }
  if (id == "P20") { p.faultPct = 35; p.modes = { F_ALL, F_ONE, F_FROM, F_RANDOM, F_SHRINK }; p.maxK = 6; p.views = true; p.worldsMax = 3; set(p, { { O_VIEW, 1 }, { O_MSG_PUTMSG, 3 }, { O_RESTART, 8 }, { O_JDESTROY, 4 }, { O_DESTROY, 4 }, { O_DECODE, 1 } }); }
  if (id == "P21") { p.deadPct = 55; p.faultPct = 25; p.modes = { F_ALL, F_FROM }; p.maxK = 0; p.worldsMax = 2; set(p, { { O_DESTROY, 10 }, { O_VIEW, 2 }, { O_MISUSE, 3 }, { O_GHOST, 6 }, { O_JDESTROY, 3 }, { O_RESTART, 4 }, { O_MSG_PUTMSG, 3 }, { O_MSG_FROM_CURSOR, 6 }, { O_FIELD_FROM_CURSOR, 6 } }); p.views = true; }
  if (id == "P22") { p.worldsMax = 4; p.faultPct = 15; p.modes = { F_ALL, F_ONE, F_FROM, F_RANDOM, F_SHRINK }; p.maxK = 6; set(p, { { O_MSG_PUTMSG, 14 }, { O_CURSOR_PUT, 6 }, { O_RESTART, 3 }, { O_MSG_WITHIN, 9 } }); }
  if (id == "P23") { p.views = true; set(p, { { O_VIEW, 14 }, { O_FIELD_CREATE, 8 }, { O_FIELD_FROM_CURSOR, 6 } }); p.auditEvery = 2; }
  if (id == "P24") { p.exact = true; set(p, { { O_RESTART, 2 }, { O_MSG_PUT, 12 }, { O_MSG_PUTMSG, 2 } }); p.worldsMax = 2; }
  if (id == "P25") { p.boundPct = 15; p.defaultsHeavy = true; set(p, { { O_MSG_GET, 16 }, { O_FIELD_CREATE, 12 }, { O_FIELD_GET, 6 }, { O_NESTED_GET, 4 }, { O_FIELD_NESTED, 4 }, { O_MSG_ERASE, 8 } }); }
  if (id == "P26") { p.boundPct = 15; p.ext = true; set(p, { { O_REGISTER, 4 }, { O_ITERATE, 3 }, { O_DECODE, 3 }, { O_RESTART, 2 } }); }
  if (id == "P28") { p.boundPct = 100; p.worldsMax = 2; p.faultPct = 15; p.modes = { F_ALL, F_ONE, F_FROM, F_RANDOM, F_SHRINK }; p.maxK = 6; p.opsHi = 40;
    set(p, { { O_ENCODE, 8 }, { O_MSG_PUT, 12 }, { O_MSG_HAS, 8 }, { O_MSG_GET, 10 }, { O_MSG_MATCH, 8 }, { O_MSG_ERASE, 7 }, { O_MSG_NESTED, 5 }, { O_CURSOR_NESTED, 3 }, { O_NESTED_HAS, 6 }, { O_NESTED_GET, 6 }, { O_NESTED_MATCH, 6 },
      { O_NESTED_PUT, 8 }, { O_NESTED_ERASE, 5 }, { O_ONEOF_CREATE, 8 }, { O_ONEOF_CASE, 4 }, { O_DECODE, 5 }, { O_RESTART, 3 }, { O_MSG_PUTMSG, 2 } }); }
  if (id == "P14") { p.garble = true; p.views = true; p.zcPct = 40; p.worldsMax = 2; p.faultPct = 20; p.modes = { F_ALL }; p.deadPct = 0; p.auditEvery = 8;
    for (int &x : p.w) x = 0;
    set(p, { { O_MSG_ROOT, 3 }, { O_MSG_FROM_CURSOR, 8 }, { O_VIEW, 4 }, { O_FIELD_FROM_CURSOR, 8 }, { O_CURSOR_CREATE, 14 }, { O_CURSOR_NEXT, 10 }, { O_CURSOR_REWIND, 2 }, { O_CURSOR_SEEK, 4 },
      { O_CURSOR_MATCH, 3 }, { O_CURSOR_GET, 6 }, { O_MSG_HAS, 4 }, { O_MSG_GET, 8 }, { O_MSG_MATCH, 5 }, { O_FIELD_GET, 6 }, { O_FIELD_MATCH, 3 }, { O_NESTED_HAS, 4 }, { O_NESTED_GET, 4 },
      { O_NESTED_MATCH, 4 }, { O_ONEOF_CREATE, 3 }, { O_ONEOF_CASE, 3 }, { O_DESTROY, 1 }, { O_RESTART, 2 }, { O_DECODE, 6 }, { O_ITERATE, 10 }, { O_ROT, 4 }, { O_DUMP, 3 }, { O_MISUSE, 3 } }); }
  if (id == "P15") { p.garble = true; p.views = true; p.zcPct = 30; p.worldsMax = 3; p.faultPct = 20; p.modes = { F_ALL, F_ONE, F_FROM, F_RANDOM, F_SHRINK }; p.maxK = 6; p.deadPct = 5; p.auditEvery = 8;
    set(p, { { O_VIEW, 3 }, { O_MSG_PUTMSG, 3 }, { O_RESTART, 2 }, { O_ROT, 5 }, { O_DECODE, 1 }, { O_ITERATE, 2 }, { O_AUDIT, 0 } }); }
  return p;
}

SchemaKnobs knobsOf(const Trace &t, const Profile &p) {
  SchemaKnobs k;
  k.maxMsgs = (int)t.knob[K_MSGS]; k.maxFields = (int)t.knob[K_FIELDS];
  k.ext = (int)t.knob[K_EXT];
  k.bytesView = p.views;
  u64 ft = t.knob[K_FEATURES];
  k.packed = ft & 1; k.oneof = ft & 2; k.strings = ft & 4; k.nested = ft & 8; k.repeated = ft & 16; k.bigTags = ft & 32;
  k.oneofHeavy = p.oneofHeavy; k.packedHeavy = p.packedHeavy; k.nestedHeavy = p.nestedHeavy || (t.knob[K_DEPTH] > 4 && !t.knob[K_BOUND]); k.defaultsHeavy = p.defaultsHeavy;
  return k;
}

// what a property says about generated tables
int aspects(const string &id) {
  return id == "P28" ? bind::A_ALL : id == "P25" ? bind::A_DEFAULT : id == "P07" ? bind::A_ONEOF : id == "P26" ? bind::A_EXT : id == "P29" ? bind::A_ORDER | bind::A_FIELD | bind::A_ENUM | bind::A_ONEOF : 0;
}

struct World;
struct Handle {
  HT type; int id; int client; World *w;
  Node *node = nullptr;          // message, field: the occurrence; cursor, oneof: the message
  const MsgS *ms = nullptr;
  const FD *fd = nullptr;        // field, cursor
  pb_message_t m; pb_field_t f; pb_cursor_t c; pb_oneof_t o;
  Node *cur = nullptr;           // cursor: current occurrence (may be a tombstone)
  bool eom = false;
  bool bad = false;              // destroyed, cleared, or built from something invalid
  int oneof = -1;
};

struct World {
  int id; int root;              // schema index of the root message
  std::unique_ptr<Ledger> led;
  pb_allocator_t *alloc = nullptr;
  pb_allocator_t chunk; bool chunked = false, chunkOpen = false;   // the journal lives in a chunk allocator
  bool zc = false; u8 *zmem = nullptr;
  std::unique_ptr<pb_journal_t> j;
  std::unique_ptr<Model> model;
  bool lost = false;
  bool closed = false;
  string persisted; string persistedCanon; int persistedReg = 0;
  World() {}
  World(World &&) = default;
};

struct Snap { const u8 *ptr; size_t size; string bytes; size_t ver; u64 calls, frees; };

struct Sim {
  const Trace &t; Run &r; Profile p; Schema sc;
  vector<std::unique_ptr<World>> ws;
  vector<std::unique_ptr<Handle>> hs;
  vector<std::pair<std::unique_ptr<World>, int>> graveyard;
  int nextId = 1; int step = 0;
  bool lastClean = false;        // the last operation was refused memory and had no effect
  GenKnobs gk;
  vector<void *> scratch;
  string opText;

  Sim(const Trace &tt, Run &rr) : t(tt), r(rr), p(profile(tt.prop)) {}
  ~Sim() {
    // free all library memory that is still held (after a violation) through the ledgers
    for (auto &w : ws) if (w && w->zmem) free(w->zmem);
    for (void *x : scratch) free(x);
  }

  // -------------------------------------------------------------- set-up
  bool setup() {     // false: there are no bindings (P28 says why)
    Rng g(t.seed);
    SchemaKnobs k = knobsOf(t, p);
    if (t.knob[K_BOUND]) { bind::generate(sc, t.knob[K_SCHEMA], k); if (t.prop != "P28" && !bind::ready(sc)) return false; bind::load(sc); bind::verify(sc, g, aspects(t.prop)); }
    else sc.generate(g, k);
    gk.maxOcc = (int)t.knob[K_OCC]; gk.depth = (int)t.knob[K_DEPTH];
    gk.unknown = t.knob[K_UNKNOWN]; gk.order = t.knob[K_ORDER] && p.order; gk.dupSingular = t.knob[K_DUP] && p.dupSingular;
    gk.mixedPacked = t.knob[K_MIXED]; gk.big = t.knob[K_BIG]; gk.viewBytes = p.views;
    int budget = 0; if (gk.depth > 4) gk.budget = &budget;
    for (int i = 0; i < (int)t.knob[K_WORLDS]; i++) {
      ws.emplace_back(new World()); World &w = *ws.back();
      w.id = i; w.root = (int)g.below(sc.m.size());
      w.zc = t.knob[K_ALLOC] == 2 || (t.knob[K_ALLOC] == 3 && i == 0);
      w.led.reset(new Ledger()); w.led->name = format("allocator%d", i); w.led->plan = &r.plan; w.led->move = (int)t.knob[K_MOVE];
      w.alloc = t.knob[K_ALLOC] == 1 ? nullptr : &w.led->api;
      if (t.knob[K_ALLOC] == 4) { w.chunked = true; w.alloc = &w.chunk; }
      budget = 60; string init = t.knob[K_EMPTY] && !w.zc ? string() : genMsg(g, sc, w.root, gk, gk.depth);
      if (t.knob[K_FAR]) {                     // everything lies far from the start of the journal
        MsgS &m = sc.m[w.root]; pb_tag_t tag = 1; while (m.anyTag(tag)) tag++;
        string o; putVarint(o, (u64)tag << 3 | 2); putVarint(o, t.knob[K_FAR]); o.append(t.knob[K_FAR], 'u'); init = o + init;
      }
      if (w.zc && init.empty()) { w.zc = false; }
      bool hurt = p.garble && g.chance(3, 4);
      if (hurt) { init = wreck(g, init); if (init.empty()) w.zc = false; }
      if (t.knob[K_DEEP] && i == 0) { init = deep(w.root, t.knob[K_DEEP]); hurt = true; }
      fresh(w); open(w, init);
      w.model.reset(new Model(&sc, w.root));
      if (hurt) { w.lost = true; w.persisted = init; rootHandle(w, 0)->node = nullptr; continue; }
      if (!w.model->parse(w.model->root, (const u8 *)init.data(), init.size())) violate("harness", "generated message does not parse: %s", hex(init).c_str());
      w.persisted = init; w.persistedCanon = Model::canon(w.model->root); w.persistedReg = reg();
      rootHandle(w, 0);
    }    gk.budget = nullptr;
    return true;
  }
  string wreck(Rng &g, string b) { for (int k = g.range(1, 4); k; k--) r.count(string("damage.") + damage_name[damage(g, b)]); return b; }
  // messages nested into each other, n levels deep (needs a message field of its own type)
  string deep(int root, u64 n) {
    const FD *f = nullptr; for (auto &x : sc.m[root].f) if (x.isMsg() && x.nested == root && x.ext == 0) f = &x;
    if (!f) return "";
    string tag; putVarint(tag, f->tag << 3 | 2);
    vector<u64> len(n + 1); for (u64 i = n; i-- > 0;) { string l; putVarint(l, len[i + 1]); len[i] = tag.size() + l.size() + len[i + 1]; }
    string b; for (u64 i = 0; i < n; i++) { b += tag; putVarint(b, len[i + 1]); }
    return b;
  }
  int reg() { int n = 0; for (auto &m : sc.m) n += m.registered; return n; }
  void fresh(World &w) { if (!w.chunked) return; if (w.chunkOpen) pb_chunk_allocator_destroy(&w.chunk); w.chunk = pb_chunk_allocator_create(); w.chunkOpen = true; }
  void open(World &w, const string &init) {
    w.j.reset(new pb_journal_t());
    if (w.zc) {
      w.zmem = (u8 *)malloc(init.size()); memcpy(w.zmem, init.data(), init.size());
      *w.j = pb_journal_create_zero_copy(w.zmem, init.size());
    } else if (init.empty()) *w.j = w.alloc ? pb_journal_create_empty_with_allocator(w.alloc) : pb_journal_create_empty();
    else {
      // exact copy, so that reads beyond the caller's data are seen
      u8 *x = (u8 *)malloc(init.size()); memcpy(x, init.data(), init.size());
      *w.j = w.alloc ? pb_journal_create_with_allocator(w.alloc, x, init.size()) : pb_journal_create(x, init.size());
      free(x);
    }
  }
  Ledger &led(World &w) { return w.alloc && !w.chunked ? *w.led : r.sys; }
  Handle *add(HT ty, World &w, int client) {
    hs.emplace_back(new Handle()); Handle *h = hs.back().get();
    h->type = ty; h->id = nextId++; h->client = client; h->w = &w; return h;
  }
  void destroyHandle(Handle &h) {
    switch (h.type) {
      case H_MSG: if (sc.bound && !sc.lite && h.ms && pb_message_descriptor(&h.m) == h.ms->d) sc.bound->message[h.ms->index].destroy(&h.m); else pb_message_destroy(&h.m); break;
      case H_FIELD: pb_field_destroy(&h.f); break;
      case H_CURSOR: pb_cursor_destroy(&h.c); break;
      case H_ONEOF: pb_oneof_destroy(&h.o); break;
    }
    h.bad = true;
  }
  Handle *rootHandle(World &w, int client) {
    Handle *h = add(H_MSG, w, client);
    h->node = w.model->root; h->ms = &sc.m[w.root];
    h->m = sc.bound && !sc.lite ? sc.bound->message[w.root].create(w.j.get()) : pb_message_create(h->ms->d, w.j.get());
    return h;
  }

  // -------------------------------------------------------------- snapshots
  const u8 *data(World &w) { return pb_journal_data(w.j.get()); }
  size_t size(World &w) { return pb_journal_size(w.j.get()); }
  string bytes(World &w) { size_t n = size(w); return n ? string((const char *)data(w), n) : string(); }
  Snap snap(World &w) {
    Snap s; s.ptr = data(w); s.size = size(w); s.bytes = bytes(w); s.ver = shim_journal_version(w.j.get());
    s.calls = led(w).calls; s.frees = led(w).frees; return s;
  }
  void pure(World &w, const Snap &s, const char *what) {
    if (data(w) != s.ptr || size(w) != s.size) violate("read-changes-message", "%s moved or resized the message", what);
    if (bytes(w) != s.bytes) violate("read-changes-message", "%s changed bytes: %s -> %s", what, hex(s.bytes).c_str(), hex(bytes(w)).c_str());
    if (shim_journal_version(w.j.get()) != s.ver) violate("read-changes-journal", "%s added to the edit log", what);
    if (led(w).calls != s.calls || led(w).frees != s.frees) violate("read-allocates", "%s called the allocator", what);
  }
  vector<Snap> others(World &w) { vector<Snap> v; for (auto &x : ws) if (x.get() != &w && !x->closed) v.push_back(snap(*x)); return v; }
  void othersSame(World &w, const vector<Snap> &v, const char *what) {
    size_t i = 0;
    for (auto &x : ws) if (x.get() != &w && !x->closed) {
      const Snap &s = v[i++];
      if (data(*x) != s.ptr || size(*x) != s.size || bytes(*x) != s.bytes || shim_journal_version(x->j.get()) != s.ver)
        violate("other-journal-changed", "%s on journal %d changed journal %d", what, w.id, x->id);
    }
  }

  // -------------------------------------------------------------- verification of one journal against the model
  void verify(World &w, const char *what) {
    r.checkLedger(*w.led); r.checkLedger(r.sys);
    if (w.closed || w.lost) return;
    string b = bytes(w);
    Model tmp(&sc, w.root);
    if (!tmp.parse(tmp.root, (const u8 *)b.data(), b.size()))
      violate("malformed", "after %s the journal does not parse: %s (expected %s)", what, hex(b).c_str(), hex(Model::content(w.model->root)).c_str());
    if (Model::canon(tmp.root) != Model::canon(w.model->root))
      violate("content", "after %s the journal holds %s, expected the equivalent of %s", what, hex(b).c_str(), hex(Model::content(w.model->root)).c_str());
    if (p.exact && b != Model::content(w.model->root))
      violate("placement", "after %s the journal holds %s, expected exactly %s", what, hex(b).c_str(), hex(Model::content(w.model->root)).c_str());
    r.state(hashstr(b) ^ mix64(shim_journal_version(w.j.get()) * 8 + hs.size()));
  }

  // -------------------------------------------------------------- handle validity
  bool live(const Handle &h) { return !h.bad && !h.w->closed && h.node && h.node->alive; }
  bool usable(const Handle &h) { // a live message handle the model can follow
    return live(h) && (h.node->k == N_MSG || h.node->view);
  }
  Handle *pick(HT ty, const Op &op, std::function<bool(Handle &)> ok = nullptr) {
    vector<Handle *> own, any;
    bool dead = (op.r >> 8) % 100 < (u64)p.deadPct;
    for (int pass = 0; pass < 2 && any.empty(); pass++)
      for (auto &h : hs) {
        if (h->type != ty || h->w->closed) continue;
        if (ok && !ok(*h)) continue;
        if (pass == 0 && dead != !live(*h)) continue;
        any.push_back(h.get()); if (h->client == (int)op.client) own.push_back(h.get());
      }
    if (!own.empty() && (op.r >> 17) % 4) return own[op.a % own.size()];
    if (any.empty()) return nullptr;
    return any[op.a % any.size()];
  }
  Handle *pickMsg(const Op &op) {
    Handle *h = pick(H_MSG, op);
    if (h) return h;
    for (auto &w : ws) if (!w->closed) return rootHandle(*w, op.client);
    return nullptr;
  }
  const FD *pickField(const Op &op, const MsgS *ms, Node *node, std::function<bool(const FD &)> ok) {
    vector<const FD *> c;
    if (node && (op.r >> 24) % 2) for (auto *x : node->kids) if (x->alive && x->fd && ok(*x->fd)) c.push_back(x->fd);
    if (c.empty()) for (auto &f : ms->f) if (f.ext <= ms->registered && ok(f)) c.push_back(&f);
    if (c.empty()) return nullptr;
    return c[op.b % c.size()];
  }

  // -------------------------------------------------------------- values
  // what the caller passes stays the caller's: it is compared with a copy when it goes out of use
  inline static bool argsChanged;
  struct Val {
    u64 n = 0; string s; void *p = nullptr; pb_string_t str; vector<void *> mem; string was; pb_string_t strWas;
    ~Val() { if (mem.size()) { if (memcmp(mem.back(), was.data(), was.size()) || (p == &str && memcmp(&str, &strWas, sizeof str))) argsChanged = true; } for (void *x : mem) free(x); }
  };
  void arm(Val &v, const FD &fd) {        // exact-size copies, so that the sanitizer sees every access beyond them
    if (fd.isStr()) {
      u8 *d = (u8 *)malloc(v.s.size() ? v.s.size() : 1); memcpy(d, v.s.data(), v.s.size()); v.mem.push_back(d);
      v.str.data = d; v.str.size = v.s.size(); v.p = &v.str; v.was = v.s; memset(&v.strWas, 0, sizeof v.strWas); v.strWas = v.str;
    } else { u8 *d = (u8 *)malloc(native_size(fd.type)); memcpy(d, &v.n, native_size(fd.type)); v.mem.push_back(d); v.p = d; v.was.assign((char *)d, native_size(fd.type)); }
  }
  void value(Val &v, const Op &op, const FD &fd) {
    Rng g(op.r ^ 0x9e37);
    if (fd.isStr()) {
      if (p.views && fd.type == PB_TYPE_BYTES && g.chance(3, 4)) v.s = genMsg(g, sc, viewSchema(fd), gk, 1);
      else v.s = genStr(g, true, t.knob[K_BIG]);
    } else v.n = number(g, fd);
    arm(v, fd);
  }
  u64 number(Rng &g, const FD &fd) {
    if (fd.en >= 0) { auto &e = sc.enums[fd.en]; return (u32)e.v[g.below(e.v.size())].second; }   // legal values only
    return genNum(g, fd.type);
  }
  // the accessor generated for a field, in two of three cases
  // accessors assert the type of their message, which an invalid one may not have
  const bind_field_t *acc(const Handle *h, const pb_tag_t *tags, size_t n, const Op &op) { return sc.bound && pb_message_descriptor(&h->m) == h->ms->d && (op.r >> 58) % 3 ? bind::find(sc, h->ms, tags, n) : nullptr; }
  int viewSchema(const FD &fd) { return (int)(fd.tag % sc.m.size()); }
  // a value to look for: often one that exists, or a near miss
  void probe(Val &v, const Op &op, const FD &fd, Node *msg) {
    Rng g(op.r ^ 0x51ed);
    vector<Node *> o; if (msg) o = Model::occs(msg, fd.tag);
    if (!o.empty() && g.chance(3, 4)) {
      Node *x = o[g.below(o.size())];
      if (fd.isStr()) {
        v.s = Model::strBytes(x);
        size_t z = v.s.find('\0');
        switch (g.range(0, 6)) {
          case 0: if (v.s.size()) v.s.pop_back(); break;
          case 1: v.s += 'x'; break;
          case 2: if (v.s.size()) v.s[0] ^= 1; break;
          case 3: if (v.s.size()) v.s[g.below(v.s.size())] ^= (char)(1 << g.below(8)); break;
          case 4: if (z != string::npos && z + 1 < v.s.size()) v.s[g.range((int)z + 1, (int)v.s.size() - 1)] ^= 0x20; break;
        }
      } else { v.n = x->val; if (g.chance(1, 4)) v.n = fd.en >= 0 ? number(g, fd) : Schema::clampNum(fd.type, v.n ^ (g.chance(1, 2) ? 1 : 1ull << g.below(8 * native_size(fd.type)))); }
    } else if (fd.isStr()) v.s = genStr(g, true, false);
    else v.n = number(g, fd);
    arm(v, fd);
  }
  static bool same(const FD &fd, Node *x, const Val &v) { return fd.isStr() ? Model::strBytes(x) == v.s : x->val == v.n; }
  string show(const FD &fd, const Val &v) { return fd.isStr() ? "\"" + hex(v.s) + "\"" : format("%llu", (unsigned long long)v.n); }

  struct Out { const FD *fd; void *p; Out(const FD &f) : fd(&f) { p = malloc(native_size(f.type)); memset(p, 0xEE, native_size(f.type)); } ~Out() { free(p); } };
  // compare what a get delivered; the string must lie inside the journal
  void checkOut(World &w, const Out &o, Node *x, const char *what) {
    if (o.fd->isStr()) {
      pb_string_t s; memcpy(&s, o.p, sizeof s);
      bool inside = s.size == 0 || (!x && o.fd->hasDefault && s.size == o.fd->dstr.size() && !memcmp(s.data, o.fd->dstr.data(), s.size)) || (s.data >= data(w) && s.data + s.size <= data(w) + size(w));
      if (!inside) violate("outside", "%s delivered a string outside the message", what);
      string got((const char *)s.data, s.size); r.evs(got);
      if (x && got != Model::strBytes(x)) violate("value", "%s delivered %s, expected %s", what, hex(got).c_str(), hex(Model::strBytes(x)).c_str());
    } else {
      u64 v = 0; memcpy(&v, o.p, native_size(o.fd->type)); r.ev(v);
      if (x && v != x->val) violate("value", "%s delivered %llx, expected %llx", what, (unsigned long long)v, (unsigned long long)x->val);
    }
  }
  void checkDefault(const Out &o, const char *what) {
    const FD &fd = *o.fd;
    if (fd.isStr()) { pb_string_t s; memcpy(&s, o.p, sizeof s); if (string((const char *)s.data, s.size) != fd.dstr) violate("default", "%s delivered the wrong default", what); }
    else { u64 v = 0; memcpy(&v, o.p, native_size(fd.type)); if (v != fd.dnum) violate("default", "%s delivered %llx instead of the default %llx", what, (unsigned long long)v, (unsigned long long)fd.dnum); }
  }

  // -------------------------------------------------------------- one edit
  // call: performs the edit, returns 0 on success. valid: the handle and
  // arguments are alive. resizes: the edit changes the size of something.
  // commit: applies the edit to the model. Returns whether it was applied.
  bool edit(World &w, const Op &op, const char *what, bool valid, bool resizes, const std::function<int()> &call, const std::function<void()> &commit, bool lenient = false) {
    Snap s = snap(w); vector<Snap> o = others(w);
    r.plan.arm(op);
    int e = call();
    r.plan.disarm();
    FaultPlan &f = r.plan;
    r.log("    -> %s%s", ename(e), f.fired ? format(" (refused %u of %u growing requests)", f.fired, f.grows).c_str() : f.shrinkFired ? " (refused to shrink)" : "");
    r.ev(e * 1000003ull + f.calls * 7 + f.fired);
    if (f.fired || f.shrinkFired) { r.faultsFired++; r.count(string("fault.") + fault_names[op.fmode]); }
    r.checkLedger(*w.led); r.checkLedger(r.sys);
    othersSame(w, o, what);
    if (w.lost) { r.effective++; return false; }
    bool same = bytes(w) == s.bytes;
    if (!valid) {
      if (!same) violate("stale-effect", "%s through an invalid handle changed the message: %s -> %s", what, hex(s.bytes).c_str(), hex(bytes(w)).c_str());
      if (!e && !lenient) violate("stale-success", "%s through an invalid handle reported success", what);
      return false;
    }
    r.effective++;
    if (w.zc && resizes) {
      if (!same || data(w) != s.ptr || size(w) != s.size) violate("zero-copy-changed", "%s changed caller-owned memory although the size changes: %s -> %s", what, hex(s.bytes).c_str(), hex(bytes(w)).c_str());
      if (!e) violate("zero-copy-success", "%s reported success although it changes the size of caller-owned memory", what);
      if (led(w).calls != s.calls) violate("zero-copy-allocates", "%s called an allocator", what);
      return false;
    }
    if (!f.fired) {
      if (e) violate(f.shrinkFired ? "shrink-refusal-fails" : "refused", "%s failed with %s although no memory was refused", what, ename(e));
      commit(); verify(w, what); return true;
    }
    if (!e) {               // success although memory was refused: must be complete
      commit(); verify(w, what); return true;
    }
    if (same) {
      lastClean = true; r.count("outcome.clean_failure");
      return false;
    }
    if (f.firstRefused && !w.chunked) violate("unclean-failure", "%s was refused its first memory request but changed the message: %s -> %s", what, hex(s.bytes).c_str(), hex(bytes(w)).c_str());
    r.count("outcome.interrupted");
    {
      // not a message any more, or one that swallows or sheds neighbours by its wrong length prefixes
      string now = bytes(w); Model tmp(&sc, w.root);
      if (p.partialKnown && (!tmp.parse(tmp.root, (const u8 *)now.data(), now.size()) || rootUnknown(tmp.root) != rootUnknown(w.model->root)))
        report(string("partial-effect:") + ok_name[op.kind], format("%s was refused memory half-way, reported %s, and left %s", what, ename(e), hex(now).c_str()));
    }
    loseWorld(w);
    return false;
  }
  // A class that may be a listed known finding
  static string rootUnknown(Node *m) { string o; for (auto *x : m->kids) if (x->alive && x->k == N_UNKNOWN) o += x->bytes; return o; }
  void report(const string &cls, const string &detail) {
    if (r.knownClasses && r.knownClasses->count(cls)) { r.known[cls]++; return; }
    violate(cls, "%s", detail.c_str());
  }
  void loseWorld(World &w) { w.lost = true; for (auto &h : hs) if (h->w == &w) { h->node = nullptr; h->cur = nullptr; } }

  // -------------------------------------------------------------- reads
  template <class F> auto read(World &w, const Op &op, const char *what, F call) -> decltype(call()) {
    Snap s = snap(w); vector<Snap> o = others(w);
    r.plan.arm(op);
    auto e = call();
    r.plan.disarm();
    r.log("    -> %d", (int)e);
    r.ev((u64)e * 31 + 7);
    pure(w, s, what); othersSame(w, o, what);
    r.checkLedger(*w.led); r.checkLedger(r.sys);
    r.effective++;
    return e;
  }

  // ---- model helpers
  struct Touch { Node *node; bool creates; bool resizes; };
  Touch plan(Node *m, const FD *fd) {
    Touch x{ nullptr, true, true };
    if (!fd->repeated()) { auto o = Model::occs(m, fd->tag); if (!o.empty()) { x.node = o.back(); x.creates = false; x.resizes = !Model::laterMembers(m, fd).empty(); } }
    return x;
  }
  Node *touch(Model &mo, Node *m, const FD *fd) {
    if (!fd->repeated()) {
      auto o = Model::occs(m, fd->tag);
      if (!o.empty()) { for (Node *x : Model::laterMembers(m, fd)) Model::kill(x); return o.back(); }
    }
    return mo.insert(m, fd);
  }
  size_t lenOf(Node *x) { return x->k == N_STRING ? Model::strBytes(x).size() : x->k == N_MSG ? Model::content(x).size() : scalarLen(x->fd->type, x->val); }
  size_t lenOf(const FD &fd, const Val &v) { return fd.isStr() ? v.s.size() : scalarLen(fd.type, v.n); }
  void store(World &w, Node *x, const Val &v) {
    if (x->k == N_STRING) {
      if (x->view) {
        for (auto *k : x->kids) Model::undefRec(k);
        x->kids.clear(); x->bytes = v.s;
        Model *mo = w.model.get();
        size_t keep = 0;
        if (!mo->parse(x, (const u8 *)v.s.data(), v.s.size()) || Model::content(x) != v.s) { for (auto *k : x->kids) Model::undefRec(k); x->kids.clear(); x->view = false; }
        (void)keep;
      } else x->bytes = v.s;
    } else x->val = v.n;
  }
  void storeMsg(World &w, Node *x, const string &content) {
    for (auto *k : x->kids) Model::undefRec(k);
    x->kids.clear();
    if (!w.model->parse(x, (const u8 *)content.data(), content.size())) violate("harness", "copied content does not parse");
  }
  // drop the handles whose occurrence was overwritten as a whole
  void dropUndef() {
    for (size_t i = 0; i < hs.size();) {
      Handle &h = *hs[i];
      bool u = (h.node && h.node->undef) || (h.cur && h.cur->undef) || (h.type == H_MSG && h.node && h.node->k == N_STRING && !h.node->view && h.node->alive) ||
               ((h.type == H_CURSOR || h.type == H_ONEOF) && h.node && h.node->k == N_STRING && !h.node->view && h.node->alive);
      if (u) { destroyHandle(h); hs.erase(hs.begin() + i); } else i++;
    }
  }
  Node *nextOcc(Node *m, pb_tag_t tag, Node *cur) {
    vector<Node *> a; Model::flat(m, a, false);
    bool on = cur == nullptr;
    for (auto *x : a) { if (on && x->alive && x->tag == tag) return x; if (x == cur) on = true; }
    return nullptr;
  }
  Node *firstOcc(Node *m, pb_tag_t tag) { return nextOcc(m, tag, nullptr); }

  // -------------------------------------------------------------- operations
  string hn(Handle &h) { return format("%s#%d(j%d%s)", ht_name[h.type], h.id, h.w->id, h.w->lost ? ",damaged" : live(h) ? "" : ",stale"); }
  void say(const Op &op, const string &s) { r.log("%3d client %u: %s %s%s", step, op.client, ok_name[op.kind], s.c_str(), op.fmode ? format(" [fault %s k=%u]", fault_names[op.fmode], op.fk).c_str() : ""); }

  void exec(const Op &op) {
    lastClean = false;
    while (hs.size() >= 44) { destroyHandle(*hs[0]); hs.erase(hs.begin()); }  // bound the number of handles
    bool anyOpen = false; for (auto &w : ws) anyOpen |= !w->closed;
    if (!anyOpen) return;
    switch (op.kind) {
      case O_MSG_ROOT: { World &w = *ws[op.b % ws.size()]; if (w.closed) return; say(op, format("j%d", w.id));
        Handle *h = rootHandle(w, op.client); if (!pb_message_valid(&h->m)) violate("refused", "creating the root message failed"); if (w.lost) h->node = nullptr; break; }
      case O_MSG_WITHIN: case O_FIELD_CREATE: opWithin(op); break;
      case O_MSG_NESTED: case O_FIELD_NESTED: case O_CURSOR_NESTED: opNestedCreate(op); break;
      case O_MSG_FROM_CURSOR: case O_FIELD_FROM_CURSOR: opFromCursor(op); break;
      case O_VIEW: opView(op); break;
      case O_CURSOR_CREATE: opCursorCreate(op); break;
      case O_CURSOR_NEXT: case O_CURSOR_REWIND: case O_CURSOR_SEEK: case O_CURSOR_MATCH: case O_CURSOR_GET: opCursorRead(op); break;
      case O_CURSOR_PUT: case O_CURSOR_ERASE: opCursorEdit(op); break;
      case O_MSG_HAS: case O_MSG_GET: case O_MSG_MATCH: opMsgRead(op); break;
      case O_MSG_PUT: case O_MSG_PUTMSG: opMsgPut(op); break;
      case O_MSG_ERASE: opMsgErase(op); break;
      case O_MSG_CLEAR: opMsgClear(op); break;
      case O_FIELD_GET: case O_FIELD_MATCH: case O_FIELD_PUT: case O_FIELD_CLEAR: opField(op); break;
      case O_NESTED_HAS: case O_NESTED_GET: case O_NESTED_MATCH: case O_NESTED_PUT: case O_NESTED_ERASE: opNested(op); break;
      case O_ONEOF_CREATE: case O_ONEOF_CASE: case O_ONEOF_CLEAR: opOneof(op); break;
      case O_DESTROY: opDestroy(op); break;
      case O_RESTART: case O_CRASH: opRestart(op); break;
      case O_PERSIST: { World &w = *ws[op.b % ws.size()]; if (w.closed || w.lost) return; say(op, ""); w.persisted = bytes(w); w.persistedCanon = Model::canon(w.model->root); w.persistedReg = reg(); break; }
      case O_JDESTROY: opJDestroy(op); break;
      case O_AUDIT: say(op, ""); audit(false); break;
      case O_REGISTER: opRegister(op); break;
      case O_DECODE: opDecode(op); break;
      case O_ITERATE: opIterate(op); break;
      case O_ROT: opRot(op); break;
      case O_DEEP: opDeep(op); break;
      case O_ENCODE: opEncode(op); break;
      case O_CHURN: opChurn(op); break;
      case O_DUMP: opDump(op); break;
      case O_MISUSE: opMisuse(op); break;
      case O_GHOST: opGhost(op); break;
      default: break;
    }
    dropUndef();
  }

  void opWithin(const Op &op) {
    bool msg = op.kind == O_MSG_WITHIN;
    Handle *h = pickMsg(op); if (!h) return;
    World &w = *h->w;
    const FD *fd = pickField(op, h->ms, usable(*h) ? h->node : nullptr, [&](const FD &f) { return f.isMsg() == msg; });
    if (!fd) return;
    say(op, format("%s tag %u (%s%s)", hn(*h).c_str(), fd->tag, type_name[fd->type], fd->repeated() ? " repeated" : fd->oneof >= 0 ? " oneof" : ""));
    bool ok = usable(*h);
    Touch tc{ nullptr, true, true }; bool writesDefault = false;
    if (ok) tc = plan(h->node, fd);
    pb_message_t nm; pb_field_t nf; (void)writesDefault;
    Node *made = nullptr;
    bool done = edit(w, op, msg ? "create_within" : "create_field", ok, tc.resizes, [&]() -> int {
      if (msg) { auto *a = acc(h, &fd->tag, 1, op); nm = a && a->create ? a->create(&h->m) : pb_message_create_within(&h->m, fd->tag); return pb_message_error(&nm); }
      nf = pb_field_create(&h->m, fd->tag); return pb_field_error(&nf);
    }, [&] {
      made = touch(*w.model, h->node, fd);
      if (tc.creates && !msg) setDefault(made, fd);
    });
    Handle *n = add(msg ? H_MSG : H_FIELD, w, op.client);
    if (msg) { n->m = nm; n->ms = &sc.m[fd->nested]; } else n->f = nf;
    n->fd = fd; n->node = made; n->bad = !done && !w.lost;
    if (w.lost) n->node = nullptr;
  }
  void setDefault(Node *x, const FD *fd) {
    if (x->k == N_STRING) { if (fd->hasDefault) x->bytes = fd->dstr; }
    else x->val = fd->hasDefault ? fd->dnum : 0;
  }

  // A path of tags through non-repeated submessages, ending in a field
  bool path(const Op &op, Handle &h, vector<const FD *> &out, bool leafMsg, bool leafRep) {
    Rng g(op.r ^ 0x7a7a);
    const MsgS *ms = h.ms; Node *n = usable(h) ? h.node : nullptr;
    int depth = g.range(1, 3); Rng far(op.r ^ 0x9a7b); if (far.chance(1, 10)) depth = far.range(4, 10);
    for (int i = 0; i < depth; i++) {
      vector<const FD *> c; for (auto &f : ms->f) if (f.ext <= ms->registered && f.isMsg() && !f.repeated()) c.push_back(&f);
      if (c.empty()) break;
      const FD *f = c[g.below(c.size())];
      if (n && g.chance(1, 2)) for (auto *x : c) if (Model::visible(n, x)) { f = x; break; }
      out.push_back(f); ms = &sc.m[f->nested]; n = n ? Model::visible(n, f) : nullptr;
    }
    if (out.empty()) return false;
    vector<const FD *> c; for (auto &f : ms->f) if (f.ext <= ms->registered && f.isMsg() == leafMsg && (leafRep || !f.repeated())) c.push_back(&f);
    if (c.empty()) return false;
    out.push_back(c[g.below(c.size())]);
    return true;
  }
  static string pathText(const vector<const FD *> &v) { string s; for (auto *f : v) s += format("%s%u", s.empty() ? "" : ".", f->tag); return s; }
  // walk for reads: last visible submessages; null if one is missing
  Node *walk(Node *n, const vector<const FD *> &v, size_t k) { for (size_t i = 0; i < k && n; i++) n = Model::visible(n, v[i]); return n; }
  // would creating the first k messages of the path change anything?
  bool pathResizes(Node *n, const vector<const FD *> &v, size_t k) {
    for (size_t i = 0; i < k; i++) { Touch x = plan(n, v[i]); if (x.creates || x.resizes) return true; n = x.node; }
    return false;
  }
  Node *pathTouch(World &w, Node *n, const vector<const FD *> &v, size_t k) { for (size_t i = 0; i < k; i++) n = touch(*w.model, n, v[i]); return n; }
  Node *pathPeek(Node *n, const vector<const FD *> &v, size_t k) { for (size_t i = 0; i < k; i++) n = plan(n, v[i]).node; return n; }

  void opNestedCreate(const Op &op) {
    Handle *h = pickMsg(op); if (!h) return;
    World &w = *h->w; vector<const FD *> v;
    bool msg = op.kind == O_MSG_NESTED, cursor = op.kind == O_CURSOR_NESTED;
    if (!path(op, *h, v, msg, true)) return;
    if (cursor && v.size() < 2) return;
    vector<pb_tag_t> tags; for (auto *f : v) tags.push_back(f->tag);
    say(op, hn(*h) + " path " + pathText(v));
    bool ok = usable(*h); const FD *leaf = v.back();
    size_t mk = cursor ? v.size() - 1 : v.size();    // how many steps create
    bool resizes = true;
    if (ok) {
      resizes = pathResizes(h->node, v, v.size() - 1);
      if (!resizes && !cursor) { Touch x = plan(pathPeek(h->node, v, v.size() - 1), leaf); resizes = x.creates || x.resizes; }
    }
    pb_message_t nm; pb_field_t nf; pb_cursor_t nc; Node *made = nullptr;
    bool absent = false;
    bool done = edit(w, op, "create_nested", ok, resizes, [&]() -> int {
      auto *a = acc(h, tags.data(), tags.size(), op); if (a) r.count("outcome.nested_accessor");
      if (msg) { nm = a && a->create ? a->create(&h->m) : pb_message_create_nested(&h->m, tags.data(), tags.size()); return pb_message_error(&nm); }
      if (cursor) { nc = a && a->cursor ? a->cursor(&h->m) : pb_cursor_create_nested(&h->m, tags.data(), tags.size()); absent = pb_cursor_error(&nc) == PB_ERROR_EOM; return absent ? PB_ERROR_NONE : pb_cursor_error(&nc); }
      nf = pb_field_create_nested(&h->m, tags.data(), tags.size()); return pb_field_error(&nf);
    }, [&] {
      made = pathTouch(w, h->node, v, v.size() - 1);
      if (!cursor) { bool creates = plan(made, leaf).creates; made = touch(*w.model, made, leaf); if (creates && !msg) setDefault(made, leaf); }
    });
    (void)mk;
    Handle *n = add(msg ? H_MSG : cursor ? H_CURSOR : H_FIELD, w, op.client);
    n->fd = leaf; n->node = made; n->bad = !done && !w.lost;
    if (msg) { n->m = nm; n->ms = &sc.m[leaf->nested]; }
    else if (cursor) { n->c = nc; n->ms = ownerOf(v, h); if (done) cursorInit(*n, absent); }
    else n->f = nf;
    if (w.lost) n->node = nullptr;
  }
  const MsgS *ownerOf(const vector<const FD *> &v, Handle *h) { return v.size() > 1 ? &sc.m[v[v.size() - 2]->nested] : h->ms; }
  void cursorInit(Handle &n, bool absent) {
    Node *want = n.fd->repeated() ? firstOcc(n.node, n.fd->tag) : Model::visible(n.node, n.fd);
    n.cur = want; n.eom = !want;
    if (absent != !want) violate("presence", "cursor on tag %u %s although the field is %s", n.fd->tag, absent ? "is at the end" : "found something", want ? "present" : "absent");
    if (want) cursorValue(n, "a new cursor");
  }
  // the current occurrence of a live cursor reads as the model says
  void cursorValue(Handle &n, const char *what) {
    World &w = *n.w;
    pb_cursor_t c = n.c;
    if (n.fd->isMsg()) {
      pb_message_t m = pb_message_create_from_cursor(&c);
      if (!pb_message_valid(&m)) violate("lost-handle", "%s: no message at the position of a live cursor", what);
      auditMsg(w, m, n.cur, &sc.m[n.fd->nested], what);
      pb_message_destroy(&m);
    } else {
      Out o(*n.fd); int e = pb_cursor_get(&c, o.p);
      if (e) violate("lost-handle", "%s: reading at a live cursor fails with %s", what, ename(e));
      checkOut(w, o, n.cur, what);
    }
  }

  void opFromCursor(const Op &op) {
    bool msg = op.kind == O_MSG_FROM_CURSOR;
    Handle *h = pick(H_CURSOR, op, [&](Handle &x) { return x.fd->isMsg() == msg; });
    if (!h) { Op o = op; o.kind = O_CURSOR_CREATE; opCursorCreate(o); return; }
    World &w = *h->w; say(op, hn(*h));
    Snap s = snap(w);
    r.plan.arm(op);
    pb_message_t nm; pb_field_t nf; int e;
    if (msg) { nm = pb_message_create_from_cursor(&h->c); e = pb_message_error(&nm); } else { nf = pb_field_create_from_cursor(&h->c); e = pb_field_error(&nf); }
    r.plan.disarm(); r.effective++; r.ev(e);
    pure(w, s, "creating a handle from a cursor");
    bool ok = curLive(*h);
    if (!w.lost && ok && e) violate("lost-handle", "creating a handle from a live cursor failed");
    if (!w.lost && !ok && !e) violate("stale-success", "creating a handle from a cursor on erased content succeeded");
    Handle *n = add(msg ? H_MSG : H_FIELD, w, op.client);
    n->fd = h->fd; n->node = ok ? h->cur : nullptr; n->bad = !ok && !w.lost;
    if (msg) { n->m = nm; n->ms = &sc.m[h->fd->nested]; } else n->f = nf;
    if (w.lost) { n->node = nullptr; n->bad = false; }
  }
  bool curLive(Handle &h) { return live(h) && !h.eom && h.cur && h.cur->alive; }

  void opView(const Op &op) {
    Handle *h = pick(H_FIELD, op, [&](Handle &x) { return x.fd->type == PB_TYPE_BYTES; });
    if (!h) { Op o = op; o.kind = O_FIELD_CREATE; opWithin(o); return; }
    World &w = *h->w; const MsgS *ms = &sc.m[viewSchema(*h->fd)];
    bool ok = live(*h);
    if (ok && !h->node->view) {
      Node *x = h->node; x->ms = ms;
      Model probe(&sc, ms->index);
      if (!probe.parse(probe.root, (const u8 *)x->bytes.data(), x->bytes.size()) || Model::content(probe.root) != x->bytes) { return; }   // content is not a (minimally encoded) message
      x->kids.clear(); w.model->parse(x, (const u8 *)x->bytes.data(), x->bytes.size()); x->view = true;
    }
    say(op, hn(*h));
    Snap s = snap(w); r.plan.arm(op);
    pb_message_t m = pb_message_create_from_field(ms->d, &h->f);
    r.plan.disarm(); r.effective++;
    pure(w, s, "opening a message over a bytes field");
    int e = pb_message_error(&m); r.ev(e);
    if (!w.lost && ok && e) violate("lost-handle", "opening a message over a live bytes field failed");
    if (!w.lost && !ok && !e) violate("stale-success", "opening a message over an erased bytes field succeeded");
    Handle *n = add(H_MSG, w, op.client); n->m = m; n->ms = ms; n->fd = h->fd; n->node = ok ? h->node : nullptr; n->bad = !ok && !w.lost;
    if (ok && !w.lost) auditMsg(w, n->m, n->node, ms, "a new view");
  }

  void opCursorCreate(const Op &op) {
    Handle *h = pickMsg(op); if (!h) return; World &w = *h->w;
    const FD *fd = pickField(op, h->ms, usable(*h) ? h->node : nullptr, [&](const FD &f) { return f.repeated() || (op.r >> 40) % 3 == 0; });
    if (!fd) fd = pickField(op, h->ms, nullptr, [](const FD &) { return true; });
    if (!fd) return;
    say(op, format("%s tag %u (%s)", hn(*h).c_str(), fd->tag, type_name[fd->type]));
    Handle *n = add(H_CURSOR, w, op.client);
    n->fd = fd; n->ms = h->ms; n->node = h->node;
    int e = read(w, op, "cursor_create", [&] { auto *a = acc(h, &fd->tag, 1, op); n->c = a && a->cursor ? a->cursor(&h->m) : pb_cursor_create(&h->m, fd->tag); return (int)pb_cursor_error(&n->c); });
    if (w.lost) { n->node = nullptr; return; }
    if (!usable(*h)) { n->bad = true; if (!e) violate("stale-success", "creating a cursor on an invalid message succeeded"); return; }
    if (e && e != PB_ERROR_EOM) violate("refused", "creating a cursor failed with %s", ename(e));
    cursorInit(*n, e == PB_ERROR_EOM);
  }
  void opCursorRead(const Op &op) {
    Handle *h = pick(H_CURSOR, op, [&](Handle &x) { return !(x.fd->isMsg() && (op.kind == O_CURSOR_GET || op.kind == O_CURSOR_MATCH || op.kind == O_CURSOR_SEEK)); });
    if (!h) { Op o = op; o.kind = O_CURSOR_CREATE; opCursorCreate(o); return; }
    World &w = *h->w; say(op, hn(*h)); bool ok = live(*h) && !w.lost; const FD &fd = *h->fd;
    switch (op.kind) {
      case O_CURSOR_NEXT: {
        int e = read(w, op, "cursor_next", [&] { return pb_cursor_next(&h->c); });
        if (w.lost) return;
        if (!ok) { if (e) violate("stale-success", "advancing a cursor on erased content found something"); if (!h->w->closed && !pb_cursor_error(&h->c)) violate("stale-success", "a cursor on erased content that could not move claims to be valid"); return; }
        Node *n = h->eom ? nullptr : nextOcc(h->node, fd.tag, h->cur);
        cursorMoved(*h, e, n, "cursor_next"); break;
      }
      case O_CURSOR_REWIND: {
        int e = read(w, op, "cursor_rewind", [&] { return pb_cursor_rewind(&h->c); });
        if (w.lost) return;
        if (!ok) { if (e) violate("stale-success", "rewinding a cursor on erased content found something"); if (!h->w->closed && !pb_cursor_error(&h->c)) violate("stale-success", "a cursor on erased content that could not be rewound claims to be valid"); h->bad = true; return; }
        cursorMoved(*h, e, firstOcc(h->node, fd.tag), "cursor_rewind"); break;
      }
      case O_CURSOR_SEEK: {
        Val v; probe(v, op, fd, ok ? h->node : nullptr);
        int e = read(w, op, "cursor_seek", [&] { return pb_cursor_seek(&h->c, v.p); });
        if (w.lost) return;
        if (!ok) { if (e) violate("stale-success", "seeking with a cursor on erased content found something"); if (!h->w->closed && !pb_cursor_error(&h->c)) violate("stale-success", "a cursor on erased content that could not move claims to be valid"); return; }
        Node *n = h->eom ? nullptr : nextOcc(h->node, fd.tag, h->cur);
        while (n && !same(fd, n, v)) n = nextOcc(h->node, fd.tag, n);
        cursorMoved(*h, e, n, "cursor_seek"); break;
      }
      case O_CURSOR_MATCH: {
        Val v; probe(v, op, fd, ok ? h->node : nullptr);
        int e = read(w, op, "cursor_match", [&] { return pb_cursor_match(&h->c, v.p); });
        if (w.lost) return;
        bool want = ok && curLive(*h) && same(fd, h->cur, v);
        if (!!e != want) violate(want || curLive(*h) ? "match" : "stale-success", "cursor_match for %s is %d, expected %d", show(fd, v).c_str(), e, want);
        break;
      }
      default: {
        Out o(fd);
        int e = read(w, op, "cursor_get", [&] { return (int)pb_cursor_get(&h->c, o.p); });
        if (w.lost) { if (!e) checkOut(w, o, nullptr, "cursor_get"); return; }
        bool want = ok && curLive(*h);
        if (!want) { if (!e) violate("stale-success", "reading through a cursor on nothing succeeded"); return; }
        if (e) violate("lost-handle", "cursor_get failed with %s", ename(e));
        checkOut(w, o, h->cur, "cursor_get");
      }
    }
  }
  void cursorMoved(Handle &h, int e, Node *n, const char *what) {
    if (!!e != !!n) violate("iteration", "%s returned %d although %s occurrence remains", what, e, n ? "an" : "no");
    h.eom = !n; if (n) h.cur = n; else if (h.eom) h.cur = nullptr;
    int err = pb_cursor_error(&h.c);
    if (n ? err : err != PB_ERROR_EOM) violate("iteration", "%s left the cursor in state %s", what, ename(err));
    if (n) cursorValue(h, what);
  }
  // a whole iteration through a fresh cursor delivers exactly the occurrences
  static size_t countAll(Node *m, int depth) { vector<Node *> a; Model::flat(m, a, true); size_t n = a.size(); if (depth < 30) for (auto *x : a) if (x->k == N_MSG) n += countAll(x, depth + 1); return n; }
  void opIterate(const Op &op) {
    if (p.garble) { opWalk(op); }
    Handle *h = pickMsg(op); if (!h || !usable(*h) || h->w->lost) return; World &w = *h->w;
    const FD *fd = pickField(op, h->ms, h->node, [](const FD &f) { return f.repeated(); }); if (!fd) return;
    say(op, format("%s tag %u", hn(*h).c_str(), fd->tag));
    vector<Node *> o = Model::occs(h->node, fd->tag);
    Handle tmp; tmp.type = H_CURSOR; tmp.w = &w; tmp.node = h->node; tmp.ms = h->ms; tmp.fd = fd; tmp.client = 0; tmp.id = 0;
    Snap s = snap(w);
    tmp.c = pb_cursor_create(&h->m, fd->tag);
    size_t n = 0;
    if (pb_cursor_valid(&tmp.c)) do {
      if (n >= o.size()) violate("iteration", "a full iteration over tag %u visits more than the %zu occurrences", fd->tag, o.size());
      tmp.cur = o[n++]; cursorValue(tmp, "a full iteration");
    } while (pb_cursor_next(&tmp.c));
    if (n != o.size()) violate("iteration", "a full iteration over tag %u visits %zu of %zu occurrences", fd->tag, n, o.size());
    if (pb_cursor_error(&tmp.c) != PB_ERROR_EOM) violate("iteration", "a full iteration ends in state %s", ename(pb_cursor_error(&tmp.c)));
    pb_cursor_destroy(&tmp.c);
    pure(w, s, "iteration"); r.effective++; r.ev(n);
  }

  // a source message in another journal with the given schema
  Handle *source(const Op &op, World &w, int nested) {
    vector<Handle *> c;
    bool dead = (op.r >> 33) % 100 < (u64)p.deadPct / 2;
    for (auto &h : hs) if (h->type == H_MSG && h->w != &w && h->ms && h->ms->index == nested && !h->w->closed && (h->w->lost ? p.garble && w.lost : usable(*h) || dead)) c.push_back(h.get());
    if (c.empty()) return nullptr;
    return c[op.c % c.size()];
  }

  void opCursorEdit(const Op &op) {
    Handle *h = pick(H_CURSOR, op);
    if (!h) { Op o = op; o.kind = O_CURSOR_CREATE; opCursorCreate(o); return; }
    World &w = *h->w; bool ok = curLive(*h); const FD &fd = *h->fd;
    if (op.kind == O_CURSOR_ERASE) {
      say(op, hn(*h));
      Node *x = h->cur;
      edit(w, op, "cursor_erase", ok, true, [&] { return (int)pb_cursor_erase(&h->c); }, [&] { Model::kill(x); });
      return;
    }
    if (fd.isMsg()) {
      Handle *src = source(op, w, fd.nested); if (!src) return;
      bool sok = usable(*src); string content = sok ? Model::content(viewless(src->node)) : "";
      say(op, hn(*h) + " <- " + hn(*src));
      Node *x = h->cur;
      edit(w, op, "cursor_put message", ok && sok, ok && Model::content(x).size() != content.size(),
        [&] { return (int)pb_cursor_put(&h->c, &src->m); }, [&] { storeMsg(w, x, content); });
      return;
    }
    Val v; value(v, op, fd); say(op, hn(*h) + " = " + show(fd, v));
    Node *x = h->cur;
    edit(w, op, "cursor_put", ok, ok && lenOf(x) != lenOf(fd, v), [&] { return (int)pb_cursor_put(&h->c, v.p); }, [&] { store(w, x, v); });
  }
  Node *viewless(Node *n) { return n; }

  void opMsgRead(const Op &op) {
    Handle *h = pickMsg(op); if (!h) return; World &w = *h->w;
    bool ok = usable(*h) && !w.lost;
    const FD *fd = pickField(op, h->ms, ok ? h->node : nullptr, [&](const FD &f) {
      return op.kind == O_MSG_HAS || (!f.isMsg() && (op.kind == O_MSG_MATCH || !f.repeated())); });
    if (!fd) return;
    say(op, format("%s tag %u (%s)", hn(*h).c_str(), fd->tag, type_name[fd->type]));
    if (op.kind == O_MSG_HAS) {
      int e = read(w, op, "message_has", [&] { auto *a = acc(h, &fd->tag, 1, op); return a && a->has ? a->has(&h->m) : pb_message_has(&h->m, fd->tag); });
      if (w.lost) return;
      checkHas(ok, h->node, fd, e);
    } else if (op.kind == O_MSG_GET) {
      Out o(*fd);
      int e = read(w, op, "message_get", [&] { auto *a = acc(h, &fd->tag, 1, op); return (int)(a && a->get ? a->get(&h->m, o.p) : pb_message_get(&h->m, fd->tag, o.p)); });
      if (w.lost) { if (!e) checkOut(w, o, nullptr, "message_get"); return; }
      checkGet(w, ok, h->node, fd, o, e, "message_get");
    } else {
      Val v; probe(v, op, *fd, ok ? h->node : nullptr);
      int e = read(w, op, "message_match", [&] { auto *a = bind::value(acc(h, &fd->tag, 1, op), v.n); return a && a->has ? a->has(&h->m) : pb_message_match(&h->m, fd->tag, v.p); });
      if (w.lost) return;
      checkMatch(ok, h->node, fd, v, e, "message_match");
    }
  }
  void checkHas(bool ok, Node *m, const FD *fd, int e) {
    bool want = ok && (fd->repeated() ? firstOcc(m, fd->tag) : Model::visible(m, fd)) != nullptr;
    if (!!e != want) violate(ok ? "presence" : "stale-success", "has(%u) is %d, expected %d", fd->tag, e, want);
  }
  void checkGet(World &w, bool ok, Node *m, const FD *fd, Out &o, int e, const char *what) {
    if (!ok) { if (!e) violate("stale-success", "%s on an invalid message succeeded", what); return; }
    Node *x = Model::visible(m, fd);
    if (x) { if (e) violate("presence", "%s(%u) fails with %s although the field is present", what, fd->tag, ename(e)); checkOut(w, o, x, what); }
    else if (fd->hasDefault) { if (e) violate("default", "%s(%u) fails with %s instead of delivering the default", what, fd->tag, ename(e)); checkDefault(o, what); }
    else if (e != PB_ERROR_ABSENT) violate("presence", "%s(%u) answers %s although the field is absent", what, fd->tag, ename(e));
  }
  void checkMatch(bool ok, Node *m, const FD *fd, Val &v, int e, const char *what) {
    bool want = false;
    if (ok) {
      if (fd->repeated()) { for (auto *x : Model::occs(m, fd->tag)) want |= same(*fd, x, v); }
      else { Node *x = Model::visible(m, fd); want = x && same(*fd, x, v); }
    }
    if (!!e != want) violate(ok ? "match" : "stale-success", "%s(%u, %s) is %d, expected %d", what, fd->tag, show(*fd, v).c_str(), e, want);
  }

  void opMsgPut(const Op &op) {
    Handle *h = pickMsg(op); if (!h) return; World &w = *h->w; bool ok = usable(*h);
    bool msg = op.kind == O_MSG_PUTMSG;
    const FD *fd = pickField(op, h->ms, ok ? h->node : nullptr, [&](const FD &f) { return f.isMsg() == msg; });
    if (!fd) return;
    if (msg) {
      Handle *src = source(op, w, fd->nested); if (!src) return;
      bool sok = usable(*src); string content = sok ? Model::content(src->node) : "";
      Touch tc{ nullptr, true, true }; if (ok) tc = plan(h->node, fd);
      say(op, format("%s tag %u <- %s", hn(*h).c_str(), fd->tag, hn(*src).c_str()));
      edit(w, op, "put message", ok && sok, tc.creates || tc.resizes || Model::content(tc.node).size() != content.size(),
        [&] { return (int)pb_message_put(&h->m, fd->tag, &src->m); }, [&] { Node *x = touch(*w.model, h->node, fd); storeMsg(w, x, content); });
      return;
    }
    Val v; value(v, op, *fd);
    Touch tc{ nullptr, true, true }; if (ok) tc = plan(h->node, fd);
    say(op, format("%s tag %u (%s%s%s) = %s", hn(*h).c_str(), fd->tag, type_name[fd->type], fd->repeated() ? " repeated" : fd->oneof >= 0 ? " oneof" : "", fd->packed ? " packed" : "", show(*fd, v).c_str()));
    edit(w, op, "put", ok, tc.creates || tc.resizes || lenOf(tc.node) != lenOf(*fd, v),
      [&] { auto *a = acc(h, &fd->tag, 1, op); auto *x = (op.r >> 40) & 1 && fd->en >= 0 ? bind::value(a, v.n) : nullptr; return (int)(x && x->put ? x->put(&h->m) : a && a->put ? a->put(&h->m, v.p) : pb_message_put(&h->m, fd->tag, v.p)); }, [&] { Node *x = touch(*w.model, h->node, fd); store(w, x, v); });
  }
  void eraseModel(Node *m, const FD *fd) {
    if (fd->oneof >= 0) { for (auto &f : m->ms->f) if (f.oneof == fd->oneof) for (auto *x : Model::occs(m, f.tag)) Model::kill(x); }
    else for (auto *x : Model::occs(m, fd->tag)) Model::kill(x);
  }
  bool anyToErase(Node *m, const FD *fd) {
    if (fd->oneof >= 0) { for (auto &f : m->ms->f) if (f.oneof == fd->oneof && !Model::occs(m, f.tag).empty()) return true; return false; }
    return !Model::occs(m, fd->tag).empty();
  }
  void opMsgErase(const Op &op) {
    Handle *h = pickMsg(op); if (!h) return; World &w = *h->w; bool ok = usable(*h);
    const FD *fd = pickField(op, h->ms, ok ? h->node : nullptr, [&](const FD &) { return true; }); if (!fd) return;
    say(op, format("%s tag %u (%s)", hn(*h).c_str(), fd->tag, type_name[fd->type]));
    edit(w, op, "erase", ok, ok && anyToErase(h->node, fd), [&] { auto *a = acc(h, &fd->tag, 1, op); return (int)(a && a->erase ? a->erase(&h->m) : pb_message_erase(&h->m, fd->tag)); }, [&] { eraseModel(h->node, fd); });
  }
  void opMsgClear(const Op &op) {
    Handle *h = pickMsg(op); if (!h) return; World &w = *h->w; bool ok = usable(*h); say(op, hn(*h));
    bool root = ok && h->node == w.model->root;
    bool resizes = ok && !(root && Model::content(h->node).empty());
    bool done = edit(w, op, "clear", ok, resizes, [&] { return (int)pb_message_clear(&h->m); }, [&] {
      if (root) for (auto *x : h->node->kids) Model::kill(x);
      else Model::kill(h->node);
    });
    if (done) h->bad = true;
  }

  void opField(const Op &op) {
    Handle *h = pick(H_FIELD, op);
    if (!h) { Op o = op; o.kind = O_FIELD_CREATE; opWithin(o); return; }
    World &w = *h->w; bool ok = live(*h) && !w.lost; const FD &fd = *h->fd;
    switch (op.kind) {
      case O_FIELD_GET: {
        say(op, hn(*h)); Out o(fd);
        int e = read(w, op, "field_get", [&] { return (int)pb_field_get(&h->f, o.p); });
        if (w.lost) { if (!e) checkOut(w, o, nullptr, "field_get"); return; }
        if (!ok) { if (!e) violate("stale-success", "reading an erased field succeeded"); return; }
        if (e) violate("lost-handle", "field_get failed with %s", ename(e));
        checkOut(w, o, h->node, "field_get"); break;
      }
      case O_FIELD_MATCH: {
        Val v; probe(v, op, fd, ok && h->node->parent->k != N_PACKED ? h->node->parent : nullptr);
        say(op, hn(*h) + " ~ " + show(fd, v));
        int e = read(w, op, "field_match", [&] { return pb_field_match(&h->f, v.p); });
        if (w.lost) return;
        bool want = ok && same(fd, h->node, v);
        if (!!e != want) violate(ok ? "match" : "stale-success", "field_match for %s is %d, expected %d", show(fd, v).c_str(), e, want);
        break;
      }
      case O_FIELD_PUT: {
        Val v; value(v, op, fd); say(op, hn(*h) + " = " + show(fd, v));
        edit(w, op, "field_put", ok, ok && lenOf(h->node) != lenOf(fd, v), [&] { return (int)pb_field_put(&h->f, v.p); }, [&] { store(w, h->node, v); });
        break;
      }
      default: {
        say(op, hn(*h));
        bool done = edit(w, op, "field_clear", ok, true, [&] { return (int)pb_field_clear(&h->f); }, [&] { Model::kill(h->node); });
        if (done) h->bad = true;
      }
    }
  }

  void opNested(const Op &op) {
    Handle *h = pickMsg(op); if (!h) return; World &w = *h->w; bool ok = usable(*h); vector<const FD *> v;
    bool leafMsg = (op.kind == O_NESTED_HAS || op.kind == O_NESTED_ERASE) && (op.r >> 50) % 3 == 0;
    if (!path(op, *h, v, leafMsg, op.kind != O_NESTED_GET)) return;
    vector<pb_tag_t> tags; for (auto *f : v) tags.push_back(f->tag);
    const FD *leaf = v.back(); Node *m = ok && !w.lost ? walk(h->node, v, v.size() - 1) : nullptr;
    size_t n = tags.size(); const bind_field_t *a = acc(h, tags.data(), n, op); if (a) r.count("outcome.nested_accessor");
    say(op, hn(*h) + " path " + pathText(v));
    switch (op.kind) {
      case O_NESTED_HAS: {
        int e = read(w, op, "nested_has", [&] { return a && a->has ? a->has(&h->m) : pb_message_nested_has(&h->m, tags.data(), n); });
        if (w.lost) return;
        if (!m) { if (e) violate(ok ? "presence" : "stale-success", "nested_has below an absent submessage is %d", e); return; }
        checkHas(true, m, leaf, e); break;
      }
      case O_NESTED_GET: {
        Out o(*leaf);
        int e = read(w, op, "nested_get", [&] { return (int)(a && a->get ? a->get(&h->m, o.p) : pb_message_nested_get(&h->m, tags.data(), n, o.p)); });
        if (w.lost) { if (!e) checkOut(w, o, nullptr, "nested_get"); return; }
        if (!ok) { if (!e) violate("stale-success", "nested_get through an invalid message succeeded"); return; }
        if (!m) { if (e != PB_ERROR_ABSENT) violate("presence", "nested_get below an absent submessage answers %s", ename(e)); return; }
        checkGet(w, true, m, leaf, o, e, "nested_get"); break;
      }
      case O_NESTED_MATCH: {
        Val x; probe(x, op, *leaf, m);
        int e = read(w, op, "nested_match", [&] { auto *q = bind::value(a, x.n); return q && q->has ? q->has(&h->m) : pb_message_nested_match(&h->m, tags.data(), n, x.p); });
        if (w.lost) return;
        if (!m) { if (e) violate(ok ? "match" : "stale-success", "nested_match below an absent submessage is %d", e); return; }
        checkMatch(true, m, leaf, x, e, "nested_match"); break;
      }
      case O_NESTED_PUT: {
        Val x; value(x, op, *leaf);
        bool resizes = true;
        if (ok && !pathResizes(h->node, v, v.size() - 1)) { Touch tc = plan(pathPeek(h->node, v, v.size() - 1), leaf); resizes = tc.creates || tc.resizes || lenOf(tc.node) != lenOf(*leaf, x); }
        edit(w, op, "nested_put", ok, resizes, [&] { auto *q = (op.r >> 40) & 1 && leaf->en >= 0 ? bind::value(a, x.n) : nullptr; return (int)(q && q->put ? q->put(&h->m) : a && a->put ? a->put(&h->m, x.p) : pb_message_nested_put(&h->m, tags.data(), n, x.p)); }, [&] {
          Node *q = pathTouch(w, h->node, v, v.size() - 1); q = touch(*w.model, q, leaf); store(w, q, x); });
        break;
      }
      default:
        edit(w, op, "nested_erase", ok, m && anyToErase(m, leaf), [&] { return (int)(a && a->erase ? a->erase(&h->m) : pb_message_nested_erase(&h->m, tags.data(), n)); }, [&] { if (m) eraseModel(m, leaf); });
    }
  }

  void opOneof(const Op &op) {
    if (op.kind == O_ONEOF_CREATE) {
      Handle *h = pick(H_MSG, op, [&](Handle &x) { return x.ms->oneofs > 0; }); if (!h) return;
      World &w = *h->w; int i = op.b % h->ms->oneofs; say(op, format("%s oneof %d", hn(*h).c_str(), i));
      pb_oneof_t o; int e = read(w, op, "oneof_create", [&] { o = pb_oneof_create(h->ms->od[i], &h->m); return (int)pb_oneof_error(&o); });
      bool ok = usable(*h);
      if (!w.lost && ok && e) violate("refused", "creating a oneof handle failed with %s", ename(e));
      if (!w.lost && !ok && !e) violate("stale-success", "creating a oneof handle on an invalid message succeeded");
      const MsgS *ms = h->ms; Node *node = h->node;
      if (sc.bound && !sc.lite && pb_message_descriptor(&h->m) == ms->d) {
        pb_tag_t got = read(w, op, "oneof_case", [&] { return sc.bound->message[ms->index].oneof[i].which(&h->m); }), want = ok && !w.lost ? caseOf(h->node, i) : 0;
        if (!w.lost && got != want) violate(ok ? "oneof-case" : "stale-success", "the case of oneof %d is %u, expected %u", i, got, want);
      }
      Handle *n = add(H_ONEOF, w, op.client); n->o = o; n->oneof = i; n->ms = ms; n->node = node; n->bad = !ok && !w.lost;
      return;
    }
    Handle *h = pick(H_ONEOF, op);
    if (!h) { Op o = op; o.kind = O_ONEOF_CREATE; opOneof(o); return; }
    World &w = *h->w; bool ok = usable(*h) && !w.lost; say(op, hn(*h));
    if (op.kind == O_ONEOF_CASE) {
      pb_tag_t got = read(w, op, "oneof_case", [&] { return pb_oneof_case(&h->o); });
      if (w.lost) return;
      pb_tag_t want = ok ? caseOf(h->node, h->oneof) : 0;
      if (got != want) violate(ok ? "oneof-case" : "stale-success", "oneof case is %u, expected %u", got, want);
    } else {
      bool any = false;
      if (ok) for (auto &f : h->ms->f) if (f.oneof == h->oneof && !Model::occs(h->node, f.tag).empty()) any = true;
      edit(w, op, "oneof_clear", usable(*h), any, [&] { return (int)pb_oneof_clear(&h->o); }, [&] {
        for (auto &f : h->ms->f) if (f.oneof == h->oneof) for (auto *x : Model::occs(h->node, f.tag)) Model::kill(x); }, true);   // nothing to clear: documented by the unit tests
    }
  }
  static pb_tag_t caseOf(Node *m, int oneof) {
    vector<Node *> a; Model::flat(m, a, true); pb_tag_t r = 0;
    for (auto *x : a) if (x->fd->oneof == oneof) r = x->tag;
    return r;
  }

  void opDestroy(const Op &op) {
    if (hs.empty()) return;
    Handle &h = *hs[op.a % hs.size()]; if (h.w->closed) return; World &w = *h.w; say(op, hn(h));
    Snap s = snap(w); destroyHandle(h); if (op.b % 3 == 0) destroyHandle(h);
    pure(w, s, "destroying a handle"); r.effective++;
    int e = h.type == H_MSG ? pb_message_error(&h.m) : h.type == H_FIELD ? pb_field_error(&h.f) : h.type == H_CURSOR ? pb_cursor_error(&h.c) : pb_oneof_error(&h.o);
    if (!e) violate("destroyed-valid", "a destroyed %s still claims to be valid", ht_name[h.type]);
  }
  void forget(World &w) { for (size_t i = 0; i < hs.size();) if (hs[i]->w == &w) { destroyHandle(*hs[i]); hs.erase(hs.begin() + i); } else i++; }
  void closeJournal(World &w) {
    u64 live0 = led(w).live.size();
    pb_journal_destroy(w.j.get());
    if (pb_journal_valid(w.j.get())) violate("destroyed-valid", "a destroyed journal still claims to be valid");
    pb_journal_destroy(w.j.get());       // once more: no effect
    if (w.chunked) { pb_chunk_allocator_destroy(&w.chunk); w.chunkOpen = false; }
    r.checkLedger(*w.led); r.checkLedger(r.sys);
    if (!w.led->live.empty()) violate("leak", "%zu of %llu blocks (%zu bytes) are left over after destroying the journal", w.led->live.size(), (unsigned long long)live0, w.led->bytes());
    if (w.zmem) { free(w.zmem); w.zmem = nullptr; }
  }
  void opRestart(const Op &op) {
    World &w = *ws[op.b % ws.size()]; if (w.closed) return;
    bool crash = op.kind == O_CRASH;
    say(op, format("j%d", w.id));
    string b = crash ? w.persisted : bytes(w);
    string canon = crash ? w.persistedCanon : w.lost ? "" : Model::canon(w.model->root);
    bool wasLost = w.lost && !crash, zc = w.zc, hurt = false;
    if (p.garble) { Rng g(op.r ^ 0x2222); hurt = (crash ? w.persistedCanon.empty() && w.persisted.size() : w.lost); if (g.chance(2, 3)) { b = wreck(g, b); hurt = true; } wasLost = hurt; }
    if (crash && w.persistedReg != reg()) canon.clear();  // newly known fields change the canonical form
    vector<Snap> o = others(w);
    forget(w); closeJournal(w);
    if (zc && b.empty()) w.zc = false;
    // reopening may be refused memory
    fresh(w); r.plan.arm(op); open(w, b); r.plan.disarm();
    if (!pb_journal_valid(w.j.get())) {
      if (!r.plan.fired) violate("refused", "reopening the persisted bytes failed although no memory was refused");
      r.faultsFired++; r.count(string("fault.") + fault_names[op.fmode]); r.count("outcome.reopen_refused");
      invalidJournal(w);
      if (!w.led->live.empty()) violate("leak", "a refused journal left %zu blocks behind", w.led->live.size());
      fresh(w); open(w, b);
      if (!pb_journal_valid(w.j.get())) violate("refused", "reopening failed again with memory available");
    } else if (r.plan.fired) violate("false-success", "the journal claims to be valid although its memory was refused");
    othersSame(w, o, "restart");
    if (bytes(w) != b) violate("reopen", "a reopened journal holds %s instead of %s", hex(bytes(w)).c_str(), hex(b).c_str());
    w.model.reset(new Model(&sc, w.root)); w.lost = false;
    if (hurt) { w.lost = true; w.persisted = b; w.persistedCanon.clear(); rootHandle(w, op.client)->node = nullptr; r.effective++; r.ev(b.size()); return; }
    bool good = w.model->parse(w.model->root, (const u8 *)b.data(), b.size());
    // a value that runs into the next field may parse, but does not fit its type
    if (good && wasLost && Model::content(w.model->root) != b) good = false;
    if (!good) {
      if (!wasLost) violate("malformed", "the persisted bytes do not parse: %s", hex(b).c_str());
      // the damage of an interrupted edit: start over with an empty message
      closeJournal(w); w.zc = false; fresh(w); open(w, ""); w.model.reset(new Model(&sc, w.root));
      if (crash) { }
    } else if (!wasLost && canon.size() && Model::canon(w.model->root) != canon) violate("content", "the reopened message differs from the one that was persisted");
    w.persisted = bytes(w); w.persistedCanon = Model::canon(w.model->root); w.persistedReg = reg();
    rootHandle(w, op.client); r.effective++; r.ev(b.size());
    verify(w, "restart");
  }
  // everything built on a journal that could not be created is refused
  void invalidJournal(World &w) {
    const MsgS *ms = &sc.m[w.root];
    pb_message_t m = pb_message_create(ms->d, w.j.get());
    invalidMsg(m, ms);
    pb_journal_destroy(w.j.get());
  }
  void invalidMsg(pb_message_t m, const MsgS *ms) {
    if (pb_message_valid(&m)) violate("invalid-accepted", "a message on an invalid journal claims to be valid");
    for (auto &f : ms->f) {
      if (f.ext > ms->registered) continue;
      pb_message_t c = m;
      if (pb_message_has(&c, f.tag)) violate("invalid-accepted", "an invalid message has a field");
      pb_cursor_t cu = pb_cursor_create(&c, f.tag);
      if (pb_cursor_valid(&cu) || pb_cursor_next(&cu) || pb_cursor_rewind(&cu) || !pb_cursor_erase(&cu)) violate("invalid-accepted", "a cursor on an invalid message works");
      if (!pb_message_erase(&c, f.tag)) violate("invalid-accepted", "erasing from an invalid message succeeds");
      if (f.isMsg()) { pb_message_t s = pb_message_create_within(&c, f.tag); if (pb_message_valid(&s)) violate("invalid-accepted", "a message within an invalid message is valid");
        pb_message_t s2 = pb_message_create_from_cursor(&cu); if (pb_message_valid(&s2)) violate("invalid-accepted", "a message from an invalid cursor is valid"); }
      else {
        Out o(f); if (!f.repeated() && !pb_message_get(&c, f.tag, o.p)) violate("invalid-accepted", "reading from an invalid message succeeds");
        Val v; v.s = "x"; arm(v, f); if (!pb_message_put(&c, f.tag, v.p)) violate("invalid-accepted", "writing to an invalid message succeeds");
        pb_field_t fi = pb_field_create(&c, f.tag);
        if (pb_field_valid(&fi) || !pb_field_get(&fi, o.p) || !pb_field_put(&fi, v.p) || !pb_field_clear(&fi) || pb_field_match(&fi, v.p)) violate("invalid-accepted", "a field of an invalid message works");
        pb_field_t f2 = pb_field_create_from_cursor(&cu); if (pb_field_valid(&f2)) violate("invalid-accepted", "a field from an invalid cursor is valid");
        if (f.type == PB_TYPE_BYTES) { pb_message_t vm = pb_message_create_from_field(ms->d, &fi); if (pb_message_valid(&vm)) violate("invalid-accepted", "a message over an invalid field is valid"); }
        if (!pb_cursor_get(&cu, o.p) || !pb_cursor_put(&cu, v.p) || pb_cursor_seek(&cu, v.p) || pb_cursor_match(&cu, v.p)) violate("invalid-accepted", "an invalid cursor works");
      }
    }
    for (int i = 0; i < ms->oneofs; i++) {
      pb_message_t c = m; pb_oneof_t o = pb_oneof_create(ms->od[i], &c);
      if (pb_oneof_valid(&o) || pb_oneof_case(&o)) violate("invalid-accepted", "a oneof of an invalid message works");
      (void)!pb_oneof_clear(&o);   // nothing to clear
      pb_oneof_destroy(&o);
    }
    pb_message_t c = m; if (!pb_message_clear(&c)) violate("invalid-accepted", "clearing an invalid message succeeds");
    pb_message_destroy(&m); pb_message_destroy(&m);
    r.count("outcome.invalid_chain");
  }
  // destroy a journal, check that everything built on it is refused, and open it again
  void opJDestroy(const Op &op) {
    World &w = *ws[op.b % ws.size()]; if (w.closed) return; say(op, format("j%d", w.id));
    string b = bytes(w); bool wasLost = w.lost, zc = w.zc; vector<Snap> o = others(w);
    forget(w); closeJournal(w); invalidJournal(w);
    othersSame(w, o, "destroying a journal");
    if (zc && b.empty()) w.zc = false;
    Model *mo = new Model(&sc, w.root);
    if (wasLost && (!mo->parse(mo->root, (const u8 *)b.data(), b.size()) || Model::content(mo->root) != b)) { b.clear(); w.zc = false; }
    delete mo;
    fresh(w); open(w, b); w.lost = false; w.model.reset(new Model(&sc, w.root));
    if (!w.model->parse(w.model->root, (const u8 *)b.data(), b.size())) violate("malformed", "the bytes do not parse: %s", hex(b).c_str());
    rootHandle(w, op.client); r.effective++;
  }
  // walk down a deeply nested message and write a field of the innermost one
  void opDeep(const Op &op) {
    World &w = *ws[0]; if (w.closed) return; const MsgS *ms = &sc.m[w.root]; const FD *f = nullptr, *leaf = nullptr;
    for (auto &x : ms->f) { if (x.isMsg() && x.nested == w.root && !x.ext) f = &x; else if (!x.isMsg() && !x.ext && x.label == PB_LABEL_OPTIONAL) leaf = &x; }
    if (!f || !leaf) return;
    say(op, format("j%d", w.id));
    pb_message_t m = pb_message_create(ms->d, w.j.get()); u64 n = 0;
    for (; n < t.knob[K_DEEP]; n++) {
      pb_cursor_t c = pb_cursor_create(&m, f->tag); pb_message_t s = pb_message_create_from_cursor(&c);
      bool ok = pb_message_valid(&s); pb_cursor_destroy(&c); if (!ok) break;
      pb_message_destroy(&m); m = s;
    }
    Val v; value(v, op, *leaf);
    int e = pb_message_put(&m, leaf->tag, v.p); pb_message_destroy(&m);
    r.log("    -> %s at depth %llu", ename(e), (unsigned long long)n); r.ev(e); r.effective++;
    loseWorld(w);
  }
  // printing is a read, too
  void opDump(const Op &op) {
    bool field = op.b & 1; Handle *h = field ? pick(H_FIELD, op) : pick(H_MSG, op); if (!h || (!h->w->lost && !live(*h)) || h->bad) return; World &w = *h->w;
    if (field ? !pb_field_valid(&h->f) : !pb_message_valid(&h->m)) return;
    say(op, hn(*h)); char *text = nullptr; size_t len = 0; FILE *keep = stderr, *to = open_memstream(&text, &len);
    bool all = op.c % 4 == 0; string want = all ? bytes(w) : ""; size_t n = 0; bool known = !w.lost || all;
    if (all) n = want.size(); else if (!w.lost) { n = field ? (h->node->k == N_STRING ? Model::strBytes(h->node).size() : scalarLen(h->node->fd->type, h->node->val)) : h->node->k == N_MSG && !h->node->view ? Model::content(h->node).size() : Model::strBytes(h->node).size(); }
    Snap s = snap(w); vector<Snap> o = others(w);
    fflush(stderr); stderr = to;
    if (all) pb_journal_dump(w.j.get()); else if (field) pb_field_dump(&h->f); else pb_message_dump(&h->m);
    fflush(to); stderr = keep; fclose(to); string got(text, len); free(text);
    r.evs(got); r.effective++; pure(w, s, "a dump"); othersSame(w, o, "a dump");
    if (known && got.find(format(" % 4zd  length\n", n)) == string::npos) violate("lost-handle", "a dump of %s does not show %zu bytes: %s", hn(*h).c_str(), n, got.substr(0, 200).c_str());
  }
  // calls that make no sense for what the handle stands for are refused
  void opMisuse(const Op &op) {
    Handle *h = pick(H_CURSOR, op); if (!h) { Op o = op; o.kind = O_CURSOR_CREATE; opCursorCreate(o); return; } World &w = *h->w;
    if (!h->fd->isMsg()) {
      say(op, hn(*h)); int e = read(w, op, "a message of a scalar cursor", [&] { pb_message_t m = pb_message_create_from_cursor(&h->c); int x = pb_message_error(&m); pb_message_destroy(&m); return x; });
      if (!e) violate("stale-success", "creating a message from a cursor over scalars succeeded");
      return;
    }
    u64 room[4]; memset(room, 0x5a, sizeof room); const char *what[] = { "cursor_get", "cursor_match", "cursor_seek", "a field of a message cursor" }; int k = (int)(op.b % 4); say(op, hn(*h) + " " + what[k]);
    int e = read(w, op, what[k], [&] {
      if (k == 0) return (int)pb_cursor_get(&h->c, room); if (k == 1) return (int)!pb_cursor_match(&h->c, room); if (k == 2) return (int)!pb_cursor_seek(&h->c, room);
      pb_field_t f = pb_field_create_from_cursor(&h->c); int x = pb_field_error(&f); pb_field_destroy(&f); return x; });
    if (!e) violate("stale-success", "%s over messages succeeded", what[k]);
    for (u64 x : room) if (x != 0x5a5a5a5a5a5a5a5aull) violate("outside", "%s over messages wrote a value", what[k]);
    if (!w.lost && curLive(*h)) cursorValue(*h, what[k]);
  }
  // structures that never got memory, or were destroyed, and everything built on them
  static pb_error_t ghostHandler(const pb_field_descriptor_t *, const void *, void *user) { ++*(int *)user; return PB_ERROR_NONE; }
  void opGhost(const Op &op) {
    MsgS &ms = sc.m[op.a % sc.m.size()]; Rng g(op.r); Ledger &led = *ws[op.b % ws.size()]->led; bool custom = g.chance(1, 2);
    const char *how[] = { "refused", "destroyed", "destroyed twice", "caller-owned, destroyed" }; int k = (int)(op.c % 4); Op f = op; f.fmode = F_ALL;
    const char *what[] = { "buffer", "journal", "encoder" }; int obj = (int)(op.client % 3);
    say(op, format("%s %s of message %d%s", how[k], what[obj], ms.index, custom ? " (custom allocator)" : ""));
    size_t n = 2 + g.below(30); u8 *x = (u8 *)malloc(n); for (size_t i = 0; i < n; i++) x[i] = i & 1 ? 1 : 8; string caller((char *)x, n);
    struct Free { u8 *p; ~Free() { free(p); } } fr{ x };
    auto dead = [&](const char *s, bool valid) { if (valid) violate("ghost-valid", "a %s claims to be valid", s); };
    auto fails = [&](const char *s, int e) { if (!e) violate("ghost-success", "%s reports success", s); if (e < 0 || e > 6) violate("error-code", "%s returned %d", s, e); };
    auto arm = [&](bool on) { if (on) r.plan.arm(f); else r.plan.disarm(); };
    if (obj == 0) {
      arm(!k); pb_buffer_t b = k == 3 ? pb_buffer_create_zero_copy(x, n) : custom ? pb_buffer_create_with_allocator(&led.api, x, n) : pb_buffer_create(x, n); arm(false);
      for (int i = 0; i < (k == 2 ? 2 : k != 0); i++) pb_buffer_destroy(&b);
      dead("buffer without memory", pb_buffer_valid(&b)); fails("error of a buffer without memory", pb_buffer_error(&b));
      pb_decoder_t d = pb_decoder_create(ms.d, &b); int calls = 0;
      dead("decoder over a dead buffer", pb_decoder_valid(&d)); fails("error of a decoder over a dead buffer", pb_decoder_error(&d));
      fails("decoding a dead buffer", pb_decoder_decode(&d, ghostHandler, &calls)); if (calls) violate("ghost-success", "decoding a dead buffer reported a field");
      pb_decoder_destroy(&d); pb_decoder_destroy(&d); dead("destroyed decoder", pb_decoder_valid(&d)); fails("decoding a destroyed decoder", pb_decoder_decode(&d, ghostHandler, &calls)); if (calls) violate("ghost-success", "a destroyed decoder reported a field");
      pb_validator_t v = pb_validator_create(ms.d); fails("validating a dead buffer", pb_validator_check(&v, &b)); pb_validator_destroy(&v);
      u8 c[3] = { 8, 1, 8 }; fails("writing into a dead buffer", shim_buffer_write(&b, 0, 0, c, 3)); fails("clearing a dead buffer", shim_buffer_clear(&b, 0, 0)); fails("clearing a dead buffer", shim_buffer_clear(&b, 0, 1));
      if (shim_buffer_grow(&b, 3)) violate("ghost-success", "a dead buffer grew");
      pb_buffer_destroy(&b);
    } else if (obj == 1) {
      arm(!k); pb_journal_t j = k == 3 ? pb_journal_create_zero_copy(x, n) : custom ? pb_journal_create_with_allocator(&led.api, x, n) : pb_journal_create(x, n); arm(false);
      for (int i = 0; i < (k == 2 ? 2 : k != 0); i++) pb_journal_destroy(&j);
      dead("journal without memory", pb_journal_valid(&j)); fails("error of a journal without memory", pb_journal_error(&j));
      u8 c[3] = { 8, 1, 8 }; fails("writing into a dead journal", shim_journal_write(&j, 0, 0, 0, c, 3)); fails("clearing a dead journal", shim_journal_clear(&j, 0, 0, 1));
      pb_message_t m = pb_message_create(ms.d, &j); dead("message in a dead journal", pb_message_valid(&m)); fails("error of a message in a dead journal", pb_message_error(&m));
      fails("clearing a message in a dead journal", pb_message_clear(&m));
      u64 room[4]; memset(room, 0x5a, sizeof room);
      for (auto &fd : ms.f) {
        if (!ms.byTag(fd.tag) || g.chance(1, 2)) continue;
        Val v; v.s = "x"; this->arm(v, fd);
        pb_cursor_t cu = pb_cursor_create(&m, fd.tag); dead("cursor in a dead journal", pb_cursor_valid(&cu)); if (pb_cursor_next(&cu) || pb_cursor_rewind(&cu)) violate("ghost-success", "a cursor in a dead journal moves"); fails("erasing through a cursor in a dead journal", pb_cursor_erase(&cu));
        pb_message_t mc = pb_message_create_from_cursor(&cu); dead("message of a dead cursor", pb_message_valid(&mc)); pb_message_destroy(&mc);
        pb_field_t fc = pb_field_create_from_cursor(&cu); dead("field of a dead cursor", pb_field_valid(&fc)); fails("clearing the field of a dead cursor", pb_field_clear(&fc)); pb_field_destroy(&fc);
        pb_cursor_destroy(&cu); dead("destroyed cursor", pb_cursor_valid(&cu));
        if (pb_message_has(&m, fd.tag)) violate("ghost-success", "a message in a dead journal has a field");
        fails("erasing in a dead journal", pb_message_erase(&m, fd.tag));
        if (fd.isMsg()) {
          pb_message_t s = pb_message_create_within(&m, fd.tag); dead("submessage in a dead journal", pb_message_valid(&s)); fails("clearing it", pb_message_clear(&s)); pb_message_destroy(&s); dead("destroyed message", pb_message_valid(&s));
          fails("putting a message in a dead journal", pb_message_put(&m, fd.tag, &m));
        } else {
          pb_field_t q = pb_field_create(&m, fd.tag); dead("field in a dead journal", pb_field_valid(&q)); fails("putting a field in a dead journal", pb_field_put(&q, v.p)); pb_field_destroy(&q); dead("destroyed field", pb_field_valid(&q));
          fails("putting in a dead journal", pb_message_put(&m, fd.tag, v.p));
          if (!fd.repeated()) { fails("reading from a dead journal", pb_message_get(&m, fd.tag, room)); if (pb_message_match(&m, fd.tag, v.p)) violate("ghost-success", "a message in a dead journal matches"); }
        }
      }
      for (u64 q : room) if (q != 0x5a5a5a5a5a5a5a5aull) violate("outside", "reading from a dead journal wrote a value");
      pb_message_destroy(&m); dead("destroyed message", pb_message_valid(&m)); pb_journal_destroy(&j);
    } else {
      arm(!k); pb_encoder_t e = custom ? pb_encoder_create_with_allocator(&led.api, ms.d) : pb_encoder_create(ms.d); bool refused = r.plan.fired; arm(false);
      if (k || !refused) for (int i = 0; i < (k == 2 ? 2 : 1); i++) pb_encoder_destroy(&e);
      dead("encoder without memory", pb_encoder_valid(&e)); fails("error of an encoder without memory", pb_encoder_error(&e));
      for (auto &fd : ms.f) if (!fd.isMsg() && ms.byTag(fd.tag) && g.chance(1, 2)) { Val v; v.s = "x"; this->arm(v, fd); fails("encoding with a dead encoder", pb_encoder_encode(&e, fd.tag, v.p, 1)); }
      for (auto &o : sc.m) for (auto &fd : o.f) if (fd.isMsg() && fd.nested == ms.index && o.byTag(fd.tag) && g.chance(1, 3)) { // a dead encoder as the value of a live one
        pb_encoder_t live = custom ? pb_encoder_create_with_allocator(&led.api, o.d) : pb_encoder_create(o.d); if (!pb_encoder_valid(&live)) { pb_encoder_destroy(&live); continue; }
        fails("encoding a dead encoder", pb_encoder_encode(&live, fd.tag, &e, 1)); fails("encoding a live encoder with a dead one", pb_encoder_encode(&e, fd.tag, &live, 1));
        if (!pb_encoder_valid(&live)) violate("lost-encoder", "encoding a dead encoder made the encoder invalid");
        if (pb_buffer_size(pb_encoder_buffer(&live))) violate("partial-effect", "encoding a dead encoder left %zu bytes behind", pb_buffer_size(pb_encoder_buffer(&live)));
        pb_encoder_destroy(&live);
      }
      pb_encoder_destroy(&e);
    }
    if (string((char *)x, n) != caller) violate("ghost-effect", "using a %s changed the caller's memory", what[obj]);
    r.checkLedger(r.sys); r.checkLedger(led); r.effective++;
  }
  // very many edits of one field, under live handles
  void opChurn(const Op &op) {
    Handle *h = pickMsg(op); if (!h || !usable(*h)) return; World &w = *h->w; if (w.zc || w.lost) return;
    const FD *fd = pickField(op, h->ms, h->node, [&](const FD &f) { return !f.isMsg() && !f.repeated() && f.en < 0 && (f.isStr() || wiretype_of(f.type) == 0) && f.type != PB_TYPE_BOOL; }); if (!fd) return;
    Val v, x, y; value(v, op, *fd); if (fd->isStr()) { x.s = "x"; y.s = "yy"; } else { x.n = Schema::clampNum(fd->type, 1); y.n = Schema::clampNum(fd->type, 5000); if (fd->type == PB_TYPE_ENUM) y.n = 70000; }
    arm(x, *fd); arm(y, *fd);
    int n = op.c % 8 == 0 ? 70000 : op.c % 8 == 1 ? 33000 : op.c % 8 == 2 ? 2000 : 300; Op quiet = op; quiet.fmode = F_NONE;
    say(op, format("%s tag %u (%s%s): %d edits", hn(*h).c_str(), fd->tag, type_name[fd->type], fd->oneof >= 0 ? " oneof" : "", n));
    int m0 = w.led->move, m1 = r.sys.move; w.led->move = r.sys.move = 2; Val *last = &v;
    edit(w, quiet, "a series of puts", true, true,
      [&] {
        int e = 0; size_t before = shim_journal_version(w.j.get()), past = n >= 33000 ? 65536 : 256;
        for (int i = 0; i < n && !e; i++) e = (int)pb_message_put(&h->m, fd->tag, (i & 1 ? y : x).p);
        if (!e) e = (int)pb_message_put(&h->m, fd->tag, v.p);
        // the log has grown by a round number of entries
        if (op.r & 1 << 13) for (int i = 0; (size_t)i < 2 * past && !e && (shim_journal_version(w.j.get()) - before) % past; i++) { last = i & 1 ? &y : &x; e = (int)pb_message_put(&h->m, fd->tag, last->p); }
        return e;
      },
      [&] { Node *q = touch(*w.model, h->node, fd); store(w, q, *last); });
    w.led->move = m0; r.sys.move = m1;
    audit(true); audit(false);
  }
  // stored bytes change behind the library's back, under live handles
  void opRot(const Op &op) {
    World &w = *ws[op.b % ws.size()]; if (w.closed || !size(w)) return; say(op, format("j%d", w.id));
    Rng g(op.r); u8 *d = (u8 *)data(w); size_t n = size(w);
    static const u8 nasty[] = { 0x00, 0x01, 0x7f, 0x80, 0xff, 0x0a, 0x0b, 0x0f, 0x08, 0x12, 0xfe };
    for (int k = g.range(1, 4); k; k--) { size_t i = g.below(n); if (g.chance(1, 2)) d[i] ^= (u8)(1 << g.below(8)); else d[i] = g.chance(1, 2) ? nasty[g.below(sizeof nasty)] : (u8)g.next(); }
    r.count("damage.in_place"); r.effective++;
    loseWorld(w);
  }
  void opRegister(const Op &op) {
    vector<MsgS *> c; for (auto &m : sc.m) if (m.nExt) c.push_back(&m);
    if (c.empty()) return;
    MsgS &m = *c[op.b % c.size()];
    if (m.registered && (op.r >> 20) % 3 == 0) { // again: no effect
      int e = 1 + (int)((op.r >> 30) % m.registered); say(op, format("message %d extension %d again", m.index, e));
      pb_descriptor_t *x = m.ext.empty() ? m.d : m.ext[e - 1];
      if (m.ext.empty()) { while (e-- && pb_descriptor_extension(x)) x = const_cast<pb_descriptor_t *>(pb_descriptor_extension(x)); if (x == m.d) return; }   // registered by the bindings
      pb_descriptor_extend(m.d, x);
    } else if (m.registered < m.nExt) {
      say(op, format("message %d extension %d", m.index, m.registered + 1));
      pb_descriptor_extend(m.d, m.ext[m.registered]);
      m.registered++;
      for (auto &w : ws) if (!w->closed && !w->lost) learn(*w->model, w->model->root);
    }
    r.effective++;
    for (auto &w : ws) verify(*w, "registering an extension");
  }
  // occurrences that were unknown become known
  void learn(Model &mo, Node *m) {
    if (m->k != N_MSG && !m->view) return;
    for (size_t i = 0; i < m->kids.size(); i++) {
      Node *x = m->kids[i];
      if (x->k == N_UNKNOWN && x->alive && m->ms->byTag(x->tag)) {
        Node tmp; tmp.k = N_MSG; tmp.ms = m->ms;
        if (!mo.parse(&tmp, (const u8 *)x->bytes.data(), x->bytes.size()) || tmp.kids.size() != 1) violate("harness", "unknown occurrence does not parse");
        m->kids[i] = tmp.kids[0]; tmp.kids[0]->parent = m;
      } else if (x->alive) learn(mo, x);
    }
  }
  // decoding and validating the journal's bytes never changes anything
  struct DC { Sim *s; size_t n = 0, limit = 0; int depth = 0; const u8 *lo = nullptr, *hi = nullptr; };
  static pb_error_t onField(const pb_field_descriptor_t *fd, const void *v, void *u) {
    DC &c = *(DC *)u; c.n++;
    if (c.n > c.limit) violate("endless", "decoding delivers more fields than the message has bytes");
    if (pb_field_descriptor_type(fd) == PB_TYPE_MESSAGE && c.depth < 30) { c.depth++; pb_decoder_t d = *(const pb_decoder_t *)v; pb_error_t e = pb_decoder_decode(&d, onField, u); c.depth--; return e; }
    if (pb_field_descriptor_type(fd) == PB_TYPE_STRING || pb_field_descriptor_type(fd) == PB_TYPE_BYTES) {
      const pb_string_t *x = (const pb_string_t *)v;
      if (x->size && !(x->data >= c.lo && x->data + x->size <= c.hi && x->data + x->size >= x->data)) violate("outside", "decoding delivers a string outside the message");
    }
    return PB_ERROR_NONE;
  }
  // full walk over a damaged message, against the reference decoder
  void walkDamaged(World &w, pb_message_t &m, const MsgS *ms, const string &b, size_t off, size_t len, int depth) {
    for (auto &f : ms->f) {
      if (f.ext > ms->registered) continue;
      Ref ref(b); ref.only = &f; Verdict v = ref.decode(ms, sc, off, len, 0, [](size_t) { return false; });
      r.count(string("outcome.walk_") + (v == V_OK ? "intact" : v == V_ERR ? "damaged" : "open_encoding"));
      vector<const Event *> ev; const Event *vis = nullptr;
      for (auto &e : ref.ev) {
        if (e.tag == f.tag) { ev.push_back(&e); vis = &e; }
        else if (f.oneof >= 0) { const FD *o = ms->byTag(e.tag); if (o && o->oneof == f.oneof) vis = nullptr; }
      }
      auto equal = [&](const Event *e, const Out &o) {
        if (f.isStr()) { pb_string_t s; memcpy(&s, o.p, sizeof s); return s.size == e->len && (!s.size || s.data == data(w) + e->off); }
        u64 x = 0; memcpy(&x, o.p, native_size(f.type)); return x == e->val;
      };
      auto sub = [&](pb_cursor_t &c, const Event *e) {
        pb_message_t s = pb_message_create_from_cursor(&c);
        if (!pb_message_valid(&s)) violate("lost-handle", "no message at the position of a cursor on field %u", f.tag);
        if (depth < 3) walkDamaged(w, s, &sc.m[f.nested], b, e ? e->off : 0, e ? e->len : 0, e ? depth + 1 : 99);
        pb_message_destroy(&s);
      };
      if (depth == 99) {           // the place is not known to the reference: safety only
        pb_cursor_t c = pb_cursor_create(&m, f.tag); size_t k = 0;
        if (pb_cursor_valid(&c)) do { if (!f.isMsg()) { Out o(f); if (!pb_cursor_get(&c, o.p)) checkOut(w, o, nullptr, "a walk"); } if (k++ > b.size()) violate("endless", "a cursor does not come to an end"); } while (pb_cursor_next(&c));
        pb_cursor_destroy(&c); continue;
      }
      if (f.repeated()) {
        pb_cursor_t c = pb_cursor_create(&m, f.tag); size_t k = 0;
        if (pb_cursor_valid(&c)) do {
          const Event *e = k < ev.size() ? ev[k] : nullptr; k++;
          if (!e && v != V_AMBIG) violate("phantom", "an iteration over field %u (%s) of the message at [%zu,%zu) delivers more than the %zu values in front of the damage", f.tag, type_name[f.type], off, off + len, ev.size());
          if (k > len + 1) violate("endless", "a cursor does not come to an end");
          if (f.isMsg()) { if (k <= 3) sub(c, e); continue; }
          Out o(f); int er = pb_cursor_get(&c, o.p);
          if (!er) checkOut(w, o, nullptr, "a walk");
          if (e && er) violate("lost-handle", "reading value %zu of field %u fails with %s", k - 1, f.tag, ename(er));
          if (e && !equal(e, o)) violate("value", "value %zu of field %u is not the one in the message", k - 1, f.tag);
        } while (pb_cursor_next(&c));
        if (v == V_OK && k != ev.size()) violate("iteration", "an iteration over field %u delivers %zu of %zu values", f.tag, k, ev.size());
        if (v == V_OK && pb_cursor_error(&c) != PB_ERROR_EOM) violate("iteration", "an iteration over an intact message ends in state %s", ename(pb_cursor_error(&c)));
        if (!pb_cursor_error(&c)) violate("iteration", "a cursor that found nothing claims to be valid");
        pb_cursor_destroy(&c);
      } else {
        int has = pb_message_has(&m, f.tag);
        if (v == V_OK && !!has != !!vis) violate("presence", "has(%u) is %d in an intact message", f.tag, has);
        if (has && ev.empty() && v == V_ERR) violate("phantom", "field %u is present although the message is damaged in front of it", f.tag);
        if (f.isMsg()) {
          pb_cursor_t c = pb_cursor_create(&m, f.tag);
          if (v == V_OK && !!pb_cursor_valid(&c) != !!vis) violate("presence", "a cursor on field %u of an intact message", f.tag);
          if (pb_cursor_valid(&c)) sub(c, v == V_OK ? vis : nullptr);
          pb_cursor_destroy(&c);
        } else {
          Out o(f); int e = pb_message_get(&m, f.tag, o.p);
          if (!e) checkOut(w, o, nullptr, "a walk");
          if (v == V_OK) {
            if (vis ? e : f.hasDefault ? e : e != PB_ERROR_ABSENT) violate("presence", "get(%u) of an intact message answers %s", f.tag, ename(e));
            if (vis ? !equal(vis, o) : f.hasDefault && (checkDefault(o, "a walk"), false)) violate("value", "get(%u) of an intact message", f.tag);
          } else if (v == V_ERR && !e) {
            bool any = f.hasDefault; for (auto *x : ev) any |= equal(x, o);
            if (!any) violate("phantom", "get(%u) delivers a value that is not in the message", f.tag);
          }
        }
      }
    }
  }
  void opWalk(const Op &op) {
    vector<World *> c; for (auto &w : ws) if (!w->closed && w->lost) c.push_back(w.get());
    if (c.empty()) return;
    World &w = *c[op.b % c.size()]; string b = bytes(w);
    r.log("%3d client %u: iterate j%d (%zu bytes: %s)", step, op.client, w.id, b.size(), hex(b).c_str());
    Snap s = snap(w); vector<Snap> o = others(w);
    pb_message_t m = pb_message_create(sc.m[w.root].d, w.j.get());
    if (!pb_message_valid(&m)) violate("refused", "creating the root message failed");
    walkDamaged(w, m, &sc.m[w.root], b, 0, b.size(), 0);
    pb_message_destroy(&m);
    pure(w, s, "a walk"); othersSame(w, o, "a walk"); r.checkLedger(*w.led); r.checkLedger(r.sys); r.effective++;
  }
  void opDecode(const Op &op) {
    World &w = *ws[op.b % ws.size()]; if (w.closed || !size(w)) return; say(op, format("j%d", w.id));
    DC d{ this }; d.limit = size(w); d.lo = data(w); d.hi = d.lo + d.limit;
    if (w.lost) {
      int e = read(w, op, "validate", [&] { pb_validator_t v = pb_validator_create(sc.m[w.root].d); int e = pb_validator_check(&v, pb_journal_buffer(w.j.get())); pb_validator_destroy(&v); return e; });
      if (e < 0 || e > 6) violate("error-code", "validation returned %d", e);
    }
    int e = read(w, op, "decode", [&] {
      if (sc.bound) { auto &b = sc.bound->message[w.root]; pb_decoder_t dec = b.decoder(pb_journal_buffer(w.j.get())); int e = b.decode(&dec, onField, &d); b.decoder_destroy(&dec); return e; }
      pb_decoder_t dec = pb_decoder_create(sc.m[w.root].d, pb_journal_buffer(w.j.get()));
      int e = pb_decoder_decode(&dec, onField, &d); pb_decoder_destroy(&dec); return e; });
    if (w.lost) return;
    if (e) violate("decode", "decoding a well-formed message failed with %s", ename(e));
    size_t want = countAll(w.model->root, 0);
    if (d.n != want) violate("decode", "decoding delivers %zu of %zu fields", d.n, want);
    r.ev(d.n);
  }

  // A new message is written through the generated encoders, field by field.
  // Returns 0, or the error of the first call that was refused memory.
  int encodeTree(pb_encoder_t &e, const MsgS *ms, Rng &g, Ledger &l, int depth, string &want) {
    for (auto &f : ms->f) {
      if (f.label != PB_LABEL_REQUIRED && !g.chance(2, 3)) continue;
      bool required = f.label == PB_LABEL_REQUIRED;
      if (f.isMsg() && depth >= 3 && !required) continue;
      if (depth > 6) return -1;
      pb_tag_t tag = f.tag; const bind_field_t *a = nullptr; const bind_message_t &b = sc.bound->message[ms->index];
      for (size_t i = 0; i < b.fields; i++) if (b.field[i].depth == 1 && b.field[i].path[0] == tag) a = &b.field[i];
      size_t n = f.repeated() ? (size_t)g.range(1, 4) : 1;
      auto write = [&](const void *p, size_t n) { return (int)(a && a->encode ? a->encode(&e, p, n) : pb_encoder_encode(&e, tag, p, n)); };
      int er = 0; string piece;
      if (f.isMsg()) {
        vector<pb_encoder_t> sub; const bind_message_t &nb = sc.bound->message[f.nested];
        for (size_t i = 0; i < n && !er; i++) { pb_encoder_t x = nb.encoder_with_allocator(&l.api); string c; er = encodeTree(x, &sc.m[f.nested], g, l, depth + 1, c); sub.push_back(x); putVarint(piece, (u64)tag << 3 | 2); putVarint(piece, c.size()); piece += c; }
        if (!er) er = write(sub.data(), n);
        for (auto &x : sub) nb.encoder_destroy(&x);
      } else if (f.isStr()) {
        vector<Val> v(n); vector<pb_string_t> s;
        for (auto &x : v) { x.s = genStr(g, true, false); arm(x, f); s.push_back(x.str); putVarint(piece, (u64)tag << 3 | 2); putVarint(piece, x.s.size()); piece += x.s; }
        er = write(s.data(), n);
      } else {
        int sz = native_size(f.type); u8 *p = (u8 *)malloc(n * sz); string run; const bind_value_t *bv = nullptr;
        for (size_t i = 0; i < n; i++) { u64 x = number(g, f); memcpy(p + i * sz, &x, sz); if (f.en >= 0) bv = bind::value(a, x); if (f.packed) putScalar(run, f.type, x); else { putVarint(piece, (u64)tag << 3 | wiretype_of(f.type)); putScalar(piece, f.type, x); } }
        if (f.packed) { putVarint(piece, (u64)tag << 3 | 2); putVarint(piece, run.size()); piece += run; }
        er = n == 1 && bv && bv->encode && g.chance(1, 2) ? bv->encode(&e) : write(p, n);
        free(p);
      }
      if (er) return er;
      want += piece;
    }
    return 0;
  }
  void opEncode(const Op &op) {
    if (!sc.bound) return;
    const MsgS *ms = &sc.m[op.b % sc.m.size()]; Rng g(op.r); say(op, ms->full);
    vector<Snap> o; for (auto &x : ws) if (!x->closed) o.push_back(snap(*x));
    Ledger l; l.plan = &r.plan; l.name = "encoder"; auto &b = sc.bound->message[ms->index]; string want;
    bool own = op.a % 2 || t.knob[K_ALLOC] == 1 || t.knob[K_ALLOC] == 4; r.plan.arm(op);
    pb_encoder_t e = own ? b.encoder_with_allocator(&l.api) : b.encoder();
    int er = encodeTree(e, ms, g, l, 0, want);
    r.plan.disarm();
    r.ev(er + 77); r.evs(want); r.log("    -> %s, %zu bytes", er < 0 ? "too deep" : ename(er), want.size());
    if (r.plan.fired) { r.faultsFired++; r.count(string("fault.") + fault_names[op.fmode]); }
    if (er > 0 && !r.plan.fired) violate("refused", "encoding %s failed with %s although no memory was refused", ms->full.c_str(), ename(er));
    if (!er) {
      const pb_buffer_t *x = pb_encoder_buffer(&e); string got((const char *)pb_buffer_data(x), pb_buffer_size(x));
      Model mg(&sc, ms->index), mw(&sc, ms->index);
      if (!mw.parse(mw.root, (const u8 *)want.data(), want.size())) violate("harness", "expected bytes do not parse");
      if (!mg.parse(mg.root, (const u8 *)got.data(), got.size()) || Model::canon(mg.root) != Model::canon(mw.root)) violate("encoding", "encoding %s delivers %s instead of the equivalent of %s", ms->full.c_str(), hex(got).c_str(), hex(want).c_str());
      r.state(hashstr(got));
    }
    b.encoder_destroy(&e); r.checkLedger(l); r.checkLedger(r.sys); r.effective++;
    if (!l.live.empty()) violate("leak", "%zu blocks are left over after destroying an encoder", l.live.size());
    size_t i = 0; for (auto &x : ws) if (!x->closed) pure(*x, o[i++], "encoding");
  }

  // -------------------------------------------------------------- audit of all handles
  void auditMsg(World &w, pb_message_t &h, Node *n, const MsgS *ms, const char *what) {
    for (auto &f : ms->f) {
      if (f.ext > ms->registered) continue;
      bool want = (f.repeated() ? firstOcc(n, f.tag) : Model::visible(n, &f)) != nullptr;
      int got = pb_message_has(&h, f.tag);
      if (!!got != want) violate("lost-handle", "%s: has(%u) is %d, expected %d", what, f.tag, got, want);
      if (!f.isMsg() && !f.repeated()) { Out o(f); int e = pb_message_get(&h, f.tag, o.p); checkGet(w, true, n, &f, o, e, what); }
    }
  }
  void audit(bool copies) {
    vector<Snap> s; for (auto &w : ws) if (!w->closed) s.push_back(snap(*w));
    Rng g(t.seed ^ (u64)step * 77);
    for (auto &hp : hs) {
      Handle &h = *hp; World &w = *h.w; if (w.closed || w.lost) continue;
      if (!copies && !g.chance(1, 2)) continue;          // leave some handles behind the edits
      string what = "audit of " + hn(h);
      switch (h.type) {
        case H_MSG: {
          pb_message_t c = h.m; pb_message_t &m = copies ? c : h.m;
          if (usable(h) && pb_message_descriptor(&m) != h.ms->d) violate("lost-handle", "%s: another descriptor", what.c_str());
          if (usable(h)) auditMsg(w, m, h.node, h.ms, what.c_str());
          else if (!live(h)) { for (auto &f : h.ms->f) if (f.ext <= h.ms->registered && pb_message_has(&m, f.tag)) violate("stale-success", "%s: a stale message has field %u", what.c_str(), f.tag); }
          break;
        }
        case H_FIELD: {
          pb_field_t c = h.f; pb_field_t &f = copies ? c : h.f; Out o(*h.fd); int e = pb_field_get(&f, o.p);
          if (live(h)) { if (e) violate("lost-handle", "%s: reading fails with %s", what.c_str(), ename(e)); checkOut(w, o, h.node, what.c_str()); }
          else if (!e) violate("stale-success", "%s: reading an erased field succeeds", what.c_str());
          break;
        }
        case H_CURSOR: {
          if (copies && usable(h) && g.chance(1, 3)) { pb_message_t c = *pb_cursor_message(&h.c); auditMsg(w, c, h.node, h.ms, what.c_str()); }
          if (curLive(h) && pb_field_descriptor_tag(pb_cursor_descriptor(&h.c)) != h.fd->tag) violate("lost-handle", "%s: another field", what.c_str());
          if (curLive(h)) { cursorValue(h, what.c_str()); if (!copies && !h.fd->isMsg()) { Out o(*h.fd); int e = pb_cursor_get(&h.c, o.p); if (e) violate("lost-handle", "%s fails", what.c_str()); checkOut(w, o, h.cur, what.c_str()); } }
          else if (!h.fd->isMsg()) { pb_cursor_t c = h.c; Out o(*h.fd); if (!pb_cursor_get(copies ? &c : &h.c, o.p)) violate("stale-success", "%s: reading at nothing succeeds", what.c_str()); }
          break;
        }
        case H_ONEOF: {
          pb_oneof_t c = h.o; pb_tag_t got = pb_oneof_case(copies ? &c : &h.o), want = usable(h) ? caseOf(h.node, h.oneof) : 0;
          if (got != want) violate(usable(h) ? "oneof-case" : "stale-success", "%s: case is %u, expected %u", what.c_str(), got, want);
        }
      }
    }
    size_t i = 0; for (auto &w : ws) if (!w->closed) pure(*w, s[i++], "reading through handles");
    r.count("audits");
  }

  void runAll() {
    r.sysOn = true;
    if (!setup()) { r.log("the bindings of the schema cannot be built"); r.count("outcome.no_bindings"); return; }
    for (auto &op : t.ops) {
      step++; r.steps++;
      r.sched = mix64(r.sched ^ (op.client * 64 + op.kind));
      r.count(string("op.") + ok_name[op.kind]);
      exec(op); if (argsChanged) { argsChanged = false; violate("argument-changed", "what the caller passed was changed"); }
      if (p.retry && lastClean) {        // memory is available again
        Op again = op; again.fmode = F_NONE; r.log("    retry with memory available"); r.count("outcome.retried");
        if (t.knob[K_AUDIT]) audit(true);
        exec(again);
      }
      for (auto &w : ws) r.ev(w->closed ? 0 : hashstr(bytes(*w)));
      if (t.knob[K_AUDIT] && step % t.knob[K_AUDIT] == 0) audit(true);
    }
    step++; audit(true); audit(false); audit(false);
    for (auto &w : ws) if (!w->closed) {
      verify(*w, "the last operation");
      forget(*w); closeJournal(*w); w->closed = true;
    }
    if (!r.sys.live.empty()) violate("leak", "%zu blocks of the system allocator are left over", r.sys.live.size());
  }
};

// size and features of a schema that goes through the generator: shared by many runs
void schemaKnobs(Rng &q, Trace &t, const Profile &p) {
  t.knob[K_MSGS] = q.range(1, 5); t.knob[K_FIELDS] = q.range(1, q.chance(1, 3) ? 14 : 7); t.knob[K_EXT] = q.chance(1, 2) ? q.range(1, 3) : 0;
  u64 ft = 63; if (q.chance(1, 2)) for (int i = 0; i < 6; i++) if (q.chance(1, 5)) ft &= ~(1ull << i);
  if (p.ext && !t.knob[K_EXT]) t.knob[K_EXT] = 1;
  if (p.oneofHeavy) ft |= 2;
  if (p.nestedHeavy) ft |= 8;
  t.knob[K_FEATURES] = ft;
}
void jgen(u64 seed, Trace &t) {
  Profile p = profile(t.prop);
  bool bound = !g_unbound && (int)Rng(mix64(seed) ^ 0xb0d).below(100) < p.boundPct; t.knob[K_BOUND] = bound;
  Rng g(mix64(seed) ^ 0xabcdef);
  t.seed = mix64(seed);
  t.knob[K_WORLDS] = g.range(p.worldsMax > 1 ? 2 : 1, p.worldsMax);
  t.knob[K_CLIENTS] = g.range(1, 4);
  t.knob[K_MSGS] = g.range(1, 3); t.knob[K_FIELDS] = g.range(1, g.chance(1, 3) ? 12 : 6);
  if (bound) {
    Rng q(g_schemaSlot); t.knob[K_SCHEMA] = g_schemaSlot; schemaKnobs(q, t, p);
  }
  t.knob[K_OCC] = g.range(1, 9); t.knob[K_DEPTH] = g.range(0, 3);
  t.knob[K_AUDIT] = g.chance(1, 4) ? 0 : g.range(1, p.auditEvery * 2);
  t.knob[K_EMPTY] = g.chance(1, 5);
  t.knob[K_ALLOC] = (int)g.below(100) < p.zcPct ? (t.knob[K_WORLDS] > 1 && g.chance(1, 2) ? 3 : 2) : g.chance(1, 4) ? 1 : 0;
  t.knob[K_MOVE] = g.chance(1, 3);
  if (!bound) t.knob[K_EXT] = p.ext ? g.range(1, 3) : 0;
  t.knob[K_UNKNOWN] = g.chance(1, 2); t.knob[K_ORDER] = g.chance(1, 2); t.knob[K_DUP] = g.chance(1, 2); t.knob[K_MIXED] = g.chance(1, 2);
  t.knob[K_BIG] = g.chance(1, 5);
  // switch features off at random, so that each one meets few others in some runs
  u64 ft = 63; if (g.chance(1, 2)) for (int i = 0; i < 6; i++) if (g.chance(1, 4)) ft &= ~(1ull << i);
  if (p.packedHeavy) ft |= 1 | 16;
  if (p.oneofHeavy) ft |= 2;
  if (p.views) ft |= 4;
  if (p.nestedHeavy || p.worldsMax > 1) ft |= 8;
  if (!bound) t.knob[K_FEATURES] = ft;
  int n = g.range(p.opsLo, p.opsHi);
  t.knob[K_OPS] = n;
  int w[O_KINDS]; int sum = 0;
  for (int i = 0; i < O_KINDS; i++) { w[i] = p.w[i] * 4; if (w[i] && g.chance(1, 4)) w[i] *= 4; else if (w[i] > 3 && g.chance(1, 4)) w[i] /= 4; sum += w[i]; }
  for (int i = 0; i < n; i++) {
    Op op; op.client = (u32)g.below(t.knob[K_CLIENTS]);
    int x = (int)g.below(sum); u32 k = 0; while (x >= w[k]) x -= w[k++];
    op.kind = k; op.a = (u32)g.below(1000); op.b = (u32)g.below(1000); op.c = (u32)g.below(1000); op.r = g.next();
    if ((int)g.below(100) < p.faultPct) { op.fmode = p.modes[g.below(p.modes.size())]; op.fk = (u32)g.below(p.maxK + 1); }
    t.ops.push_back(op);
  }
  // rare extremes, each in a small share of the runs
  Rng q(mix64(seed) ^ 0x51de); auto most = [&](size_t k) { if (t.ops.size() > k) t.ops.resize(k); };
  if (q.chance(1, 4000)) { t.knob[K_BIG] = 3; t.knob[K_OCC] = std::min<u64>(t.knob[K_OCC], 4); t.knob[K_DEPTH] = std::min<u64>(t.knob[K_DEPTH], 1); most(10); }
  else if (q.chance(1, 300)) { t.knob[K_BIG] = 2; most(20); }
  if (t.knob[K_BIG] > 1) ;
  else if (q.chance(1, 150) && !bound) { t.knob[K_FIELDS] = q.range(20, 250); t.knob[K_OCC] = q.range(5, 60); t.knob[K_DEPTH] = std::min<u64>(t.knob[K_DEPTH], 1); }
  else if (q.chance(1, 100)) { t.knob[K_DEPTH] = q.range(5, 30); t.knob[K_OCC] = q.range(1, 3); if (!bound) t.knob[K_FEATURES] |= 8; }
  if (t.knob[K_ALLOC] == 0 && q.chance(1, 12)) t.knob[K_ALLOC] = 4;
  if (q.chance(1, 300)) { t.knob[K_FAR] = q.chance(1, 2) ? q.range(65000, 66000) : q.range(66000, 140000); most(40); }
  if (p.ext && !bound && q.chance(1, 10)) t.knob[K_EXT] = q.range(4, 8);
  if (!p.garble && p.w[O_MSG_PUT] && q.chance(1, 60)) {
    Op op; op.client = (u32)q.below(t.knob[K_CLIENTS]); op.kind = O_CHURN; op.a = (u32)q.below(1000); op.b = (u32)q.below(1000); op.c = q.chance(1, 20) ? (u32)q.below(2) : 2 + (u32)q.below(6); op.r = q.next();
    if (op.c < 2) most(25);
    t.ops.insert(t.ops.begin() + (t.ops.empty() ? 0 : q.below(t.ops.size())), op);
  }
}
void jrun(const Trace &t, Run &r) { Sim s(t, r); s.runAll(); }

} // namespace

// Bindings of the schemas that the runs of a property share: a schema depends on its slot
// and the property only.
static Schema *slotSchema(const string &id, u64 slot) {
  Trace t; t.prop = id; Profile p = profile(id); Rng q(slot); schemaKnobs(q, t, p); Schema *sc = new Schema(); bind::generate(*sc, slot, knobsOf(t, p)); return sc;
}
bool jsim_bound(const string &id) { return id == "P29" || profile(id).boundPct; }
void jsim_prepare(const string &id, u64 slot) { std::unique_ptr<Schema> sc(slotSchema(id, slot)); bind::build(*sc); }
// P29: what the generated tables of a schema say, and how they are found
void jsim_tables(u64 slot, u64 seed, Run &r) {
  std::unique_ptr<Schema> sc(slotSchema("P29", slot)); if (!bind::ready(*sc)) { r.count("outcome.no_bindings"); return; }
  Rng g(seed); bind::load(*sc); bind::verify(*sc, g, aspects("P29")); r.count("outcome.generated_tables"); r.effective += 5;
  r.log("%zu messages and %zu enums of the generator are found as declared", sc->m.size(), sc->enums.size()); for (auto &s : sc->m) r.evs(s.full);
}

const char *jsim_kind(u32 k) { return k < O_KINDS ? ok_name[k] : "?"; }
#define JS(id, what, q, th, rule, nf) { id, what, jgen, jrun, q, th, rule, nf, { K_WORLDS, K_CLIENTS, K_MSGS, K_FIELDS, K_OCC, K_DEPTH, K_AUDIT, K_EMPTY, K_ALLOC, K_MOVE, K_EXT, K_UNKNOWN, K_ORDER, K_DUP, K_MIXED, K_BIG } }
void jsim_scenarios(vector<Scenario> &v) {
  const char *plain = "a run counts when at least 5 operations took effect or were checked against the model; distinct by the hash of its event log";
  const char *faulty = "a run counts when at least 5 operations were checked and at least one memory request was refused; distinct by the hash of its event log";
  for (const char *id : { "P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P13", "P14", "P15", "P20", "P21", "P22", "P23", "P24", "P25", "P26", "P28" }) {
    string s = id; bool nf = s == "P10" || s == "P11" || s == "P20";
    v.push_back(JS(id, "message layer: seeded interleaving of clients' operations on shared journals", 120000, 6000000, nf ? faulty : plain, nf));
  }
}
