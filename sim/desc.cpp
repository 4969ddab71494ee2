// Descriptor registry (P29): modules of a program register their extensions of
// shared messages at any time, more than once and in any order, while others
// look up fields and values and walk the tables with iterators they keep.
#include "core.hpp"

extern u64 g_schemaSlot;
extern bool g_unbound;
void jsim_tables(u64 slot, u64 seed, Run &r);

namespace {
enum { D_EXTEND, D_TAG, D_NAME, D_SIZE, D_BEGIN, D_END, D_NEXT, D_PREV, D_NUMBER, D_VALUE_NAME, D_EBEGIN, D_EEND, D_ENEXT, D_EPREV, D_OBEGIN, D_OEND, D_ONEXT, D_OPREV, D_AUDIT, D_KINDS };
static const char *const d_name[] = { "extend", "field_by_tag", "field_by_name", "size", "iter_begin", "iter_end", "iter_next", "iter_prev", "value_by_number", "value_by_name", "enum_begin", "enum_end", "enum_next", "enum_prev", "oneof_begin", "oneof_end", "oneof_next", "oneof_prev", "audit" };
enum { K_MSGS, K_FIELDS, K_EXTS, K_VALUES, K_STYLE, K_SEED, K_SCHEMA };

struct Table { pb_descriptor_t *d = nullptr; vector<pb_tag_t> tags; vector<string> names; int base = 0; };
struct Enum { pb_enum_descriptor_t *d = nullptr; vector<int> numbers; vector<string> names; };
struct Oneof { pb_oneof_descriptor_t *d = nullptr; int table = 0; vector<size_t> index; };
template <class I> struct Iter { bool made = false, placed = false; int table = 0; size_t pos = 0; std::unique_ptr<I> it; };

struct DescSim {
  const Trace &t; Run &r; int step = 0; vector<void *> mem; vector<std::pair<void *, size_t>> frozen; vector<string> image;
  vector<Table> tables; vector<vector<int>> chain; vector<Enum> enums; vector<Oneof> oneofs;    // chain: tables of a message in order
  vector<Iter<pb_descriptor_iter_t>> its; vector<Iter<pb_enum_descriptor_iter_t>> eits; vector<Iter<pb_oneof_descriptor_iter_t>> oits;
  DescSim(const Trace &tt, Run &rr) : t(tt), r(rr) {}
  ~DescSim() { for (void *p : mem) free(p); }
  void *take(size_t n) { void *p = malloc(n ? n : 1); mem.push_back(p); return p; }
  const char *str(const string &s) { char *p = (char *)take(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
  string pickName(Rng &g) {
    static const char *const parts[] = { "a", "ab", "abc", "b", "A", "a_b", "name", "name1", "name10", "", "\xc3\xa9", "a.b" };
    string s = parts[g.below(12)]; if (g.chance(1, 2)) s += format("%u", (unsigned)g.below(12)); return s;
  }
  void build() {
    Rng g(t.knob[K_SEED]); int n = (int)t.knob[K_MSGS]; if (n < 1) n = 1;
    for (int m = 0; m < n; m++) {
      chain.push_back({ (int)tables.size() }); int ne = (int)g.below(t.knob[K_EXTS] + 1), style = (int)t.knob[K_STYLE]; pb_tag_t tag = 0;
      std::vector<pb_tag_t> pool; int total = 0; vector<int> sizes;
      for (int e = 0; e <= ne; e++) { sizes.push_back(e || !g.chance(1, 12) ? 1 + (int)g.below(t.knob[K_FIELDS] + 1) : 0); total += sizes.back(); }
      for (int i = 0; i < total; i++) { tag += style == 0 ? 1 : style == 1 ? 1 + g.below(4) : style == 2 ? 1 + g.below(300) : g.chance(1, 4) ? 1 + g.below(500000) : 1; pool.push_back(tag); }
      if (style == 3 && total && g.chance(1, 2)) pool.back() = (1u << 29) - 1;
      // the tags of a message are dealt to its tables in any way
      if (g.chance(2, 3)) for (size_t i = pool.size(); i > 1; i--) std::swap(pool[i - 1], pool[g.below(i)]);
      size_t at = 0;
      for (int e = 0; e <= ne; e++) {
        Table x; x.base = m; x.tags.assign(pool.begin() + at, pool.begin() + at + sizes[e]); at += sizes[e]; std::sort(x.tags.begin(), x.tags.end());
        size_t bytes = sizeof(pb_field_descriptor_t) * x.tags.size(); char *arr = (char *)take(bytes);
        for (size_t i = 0; i < x.tags.size(); i++) {
          x.names.push_back(pickName(g)); pb_type_t ty = (pb_type_t)(1 + g.below(16));
          pb_field_descriptor_t f = { x.tags[i], str(x.names[i]), ty, g.chance(1, 2) ? PB_LABEL_OPTIONAL : PB_LABEL_REPEATED, nullptr, nullptr, (uint8_t)0 };
          memcpy(arr + i * sizeof f, (const void *)&f, sizeof f);
        }
        pb_descriptor_t d = { { (const pb_field_descriptor_t *)arr, x.tags.size() }, nullptr };
        x.d = (pb_descriptor_t *)take(sizeof d); memcpy((void *)x.d, (const void *)&d, sizeof d); frozen.push_back({ arr, bytes });
          if (x.tags.size() && g.chance(1, 2)) {
            Oneof o; o.table = (int)tables.size(); for (size_t i = 0; i < x.tags.size(); i++) if (g.chance(1, 2)) o.index.push_back(i);
            size_t *ix = (size_t *)take(o.index.size() * sizeof(size_t)); for (size_t i = 0; i < o.index.size(); i++) ix[i] = o.index[i];
            pb_oneof_descriptor_t od = { x.d, { ix, o.index.size() } }; o.d = (pb_oneof_descriptor_t *)take(sizeof od); memcpy((void *)o.d, (const void *)&od, sizeof od);
            frozen.push_back({ ix, o.index.size() * sizeof(size_t) }); frozen.push_back({ o.d, sizeof od }); oneofs.push_back(o);
          }
          tables.push_back(x);
      }
    }
    int ne = 1 + (int)g.below(3);
    for (int e = 0; e < ne; e++) {
      Enum x; int nv = g.chance(1, 12) ? 0 : 1 + (int)g.below(t.knob[K_VALUES] + 1); int style = (int)g.below(4);
      static const int special[] = { 0, 1, -1, 127, 128, 70000, INT32_MAX, INT32_MIN, -128, 2 };
      for (int v = 0; v < nv; v++) x.numbers.push_back(style == 0 ? v : style == 1 ? (int)g.below(nv) - nv / 2 : style == 2 ? special[g.below(10)] : (int)g.next());
      std::stable_sort(x.numbers.begin(), x.numbers.end());
      size_t bytes = sizeof(pb_enum_value_descriptor_t) * x.numbers.size(); char *arr = (char *)take(bytes);
      for (size_t i = 0; i < x.numbers.size(); i++) { x.names.push_back(pickName(g)); pb_enum_value_descriptor_t v = { x.numbers[i], str(x.names[i]) }; memcpy(arr + i * sizeof v, (const void *)&v, sizeof v); }
      pb_enum_descriptor_t d = { { (const pb_enum_value_descriptor_t *)arr, x.numbers.size() } }; x.d = (pb_enum_descriptor_t *)take(sizeof d); memcpy((void *)x.d, (const void *)&d, sizeof d);
      frozen.push_back({ arr, bytes }); frozen.push_back({ x.d, sizeof d }); enums.push_back(x);
    }
    for (auto &f : frozen) image.push_back(string((const char *)f.first, f.second));
    its.resize(4); eits.resize(3); oits.resize(2);
  }
  // where a table stands among those registered for its message, -1: not registered
  int place(int k) { auto &c = chain[tables[k].base]; for (size_t i = 0; i < c.size(); i++) if (c[i] == k) return (int)i; return -1; }
  // the tables a lookup through table k sees
  vector<int> seen(int k) { int p = place(k); if (p < 0) return { k }; auto &c = chain[tables[k].base]; return vector<int>(c.begin() + p, c.end()); }
  void wantTag(int k, pb_tag_t tag) {
    const pb_field_descriptor_t *want = nullptr, *got = pb_descriptor_field_by_tag(tables[k].d, tag);
    for (int q : seen(k)) { auto &x = tables[q]; for (size_t i = 0; i < x.tags.size() && !want; i++) if (x.tags[i] == tag) want = &x.d->field.data[i]; if (want) break; }
    if (got != want) violate("field-by-tag", "tag %u in table %d: %s", tag, k, !want ? "found although nothing registered declares it" : !got ? "not found" : "another entry is found");
  }
  void wantName(int k, const string &n) {
    const pb_field_descriptor_t *want = nullptr, *got = pb_descriptor_field_by_name(tables[k].d, n.c_str());
    for (int q : seen(k)) { auto &x = tables[q]; for (size_t i = 0; i < x.names.size() && !want; i++) if (x.names[i] == n) want = &x.d->field.data[i]; if (want) break; }
    if (got != want && !(got && want && n == pb_field_descriptor_name(got))) violate("field-by-name", "'%s' in table %d: %s", n.c_str(), k, !want ? "found although nothing registered declares it" : !got ? "not found" : "another entry is found");
    if (got) { bool own = false; for (int q : seen(k)) { auto &x = tables[q]; own |= got >= x.d->field.data && got < x.d->field.data + x.tags.size(); } if (!own) violate("field-by-name", "'%s' in table %d is found outside its tables", n.c_str(), k); }
  }
  void wantNumber(Enum &e, int v) {
    const pb_enum_value_descriptor_t *got = pb_enum_descriptor_value_by_number(e.d, v); bool want = std::find(e.numbers.begin(), e.numbers.end(), v) != e.numbers.end();
    if (!!got != want) violate("value-by-number", "value %d is%s found", v, want ? " not" : "");
    if (got && (got < e.d->value.data || got >= e.d->value.data + e.numbers.size() || pb_enum_value_descriptor_number(got) != v)) violate("value-by-number", "another value than %d is found", v);
  }
  void wantValueName(Enum &e, const string &n) {
    const pb_enum_value_descriptor_t *got = pb_enum_descriptor_value_by_name(e.d, n.c_str()); bool want = std::find(e.names.begin(), e.names.end(), n) != e.names.end();
    if (!!got != want) violate("value-by-name", "value '%s' is%s found", n.c_str(), want ? " not" : "");
    if (got && (got < e.d->value.data || got >= e.d->value.data + e.numbers.size() || n != pb_enum_value_descriptor_name(got))) violate("value-by-name", "another value than '%s' is found", n.c_str());
  }
  void audit() {
    for (size_t k = 0; k < tables.size(); k++) {
      auto &x = tables[k]; vector<int> s = seen((int)k);
      for (int q : s) { for (pb_tag_t tag : tables[q].tags) { wantTag((int)k, tag); if (tag > 1) wantTag((int)k, tag - 1); wantTag((int)k, tag + 1); } for (auto &n : tables[q].names) wantName((int)k, n); }
      for (size_t q = 0; q < tables.size(); q++) if (tables[q].base == x.base) for (pb_tag_t tag : tables[q].tags) wantTag((int)k, tag);
      if (pb_descriptor_size(x.d) != x.tags.size() || !!pb_descriptor_empty(x.d) != x.tags.empty()) violate("size", "table %zu has %zu fields, %zu are declared", k, pb_descriptor_size(x.d), x.tags.size());
      const pb_descriptor_t *e = pb_descriptor_extension(x.d), *w = s.size() > 1 ? tables[s[1]].d : nullptr; if (e != w) violate("chain", "the wrong table follows table %zu", k);
    }
    for (auto &e : enums) { for (int v : e.numbers) { wantNumber(e, v); if (v > INT32_MIN) wantNumber(e, v - 1); if (v < INT32_MAX) wantNumber(e, v + 1); } for (auto &n : e.names) wantValueName(e, n);
      if (pb_enum_descriptor_size(e.d) != e.numbers.size() || !!pb_enum_descriptor_empty(e.d) != e.numbers.empty()) violate("size", "an enum has %zu values, %zu are declared", pb_enum_descriptor_size(e.d), e.numbers.size()); }
  }
  void frozenTables() {
    for (size_t i = 0; i < frozen.size(); i++) if (memcmp(frozen[i].first, image[i].data(), frozen[i].second)) violate("table-changed", "a table changed");
    if (r.sys.calls) violate("memory", "memory was requested");
  }
  template <class I> void move(I &x, size_t size, u32 how, std::function<int(int)> call, std::function<size_t()> pos, std::function<bool(size_t)> current) {
    // how: 0 begin, 1 end, 2 next, 3 prev
    if (how >= 2 && (!x.placed || !size)) return;
    int got = call(how); bool want = how < 2 ? size > 0 : how == 2 ? x.pos + 1 < size : x.pos > 0;
    if (!!got != want) violate("iterator", "moving to %s of %zu entries reports %d", how == 0 ? "the first" : how == 1 ? "the last" : how == 2 ? "the next" : "the previous", size, got);
    if (want) { x.pos = how == 0 ? 0 : how == 1 ? size - 1 : how == 2 ? x.pos + 1 : x.pos - 1; x.placed = true; }
    if (x.placed) { if (pos() != x.pos) violate("iterator", "position %zu instead of %zu", pos(), x.pos); if (!current(x.pos)) violate("iterator", "the current entry is not entry %zu", x.pos); }
    r.ev(got * 64 + x.pos); r.effective++;
  }
  void exec(const Op &op) {
    Rng g(op.r); int k = (int)(op.a % tables.size()); auto &en = enums[op.a % enums.size()];
    switch (op.kind) {
      case D_EXTEND: {
        auto &c = chain[tables[k].base]; if (k == c[0]) return;                    // native tables are extended, they extend nothing
        int via = op.b % 3 ? 0 : (int)(g.below(c.size())); int p = place(k); if (p >= 0 && via >= p) via = p - 1;   // through the message or one of its extensions
        pb_descriptor_extend(tables[c[via]].d, tables[k].d); if (p < 0) c.push_back(k);
        r.log(" %2d client %u: register table %d for message %d through table %d%s", step, op.client, k, tables[k].base, c[via], p < 0 ? "" : " again");
        r.count(p < 0 ? "outcome.registered" : "outcome.registered_again"); r.effective++; if (op.b & 8) audit(); break;
      }
      case D_TAG: { auto &x = tables[g.below(tables.size())]; pb_tag_t tag = g.chance(3, 4) && x.tags.size() ? x.tags[g.below(x.tags.size())] : 1 + (pb_tag_t)g.below((1u << 29) - 1);
        if (g.chance(1, 4)) tag += g.chance(1, 2) || tag < 2 ? 1 : -1; r.log(" %2d client %u: tag %u in table %d", step, op.client, tag, k); wantTag(k, tag); r.ev(tag); r.effective++; break; }
      case D_NAME: { auto &x = tables[g.below(tables.size())]; string n = g.chance(3, 4) && x.names.size() ? x.names[g.below(x.names.size())] : pickName(g); r.log(" %2d client %u: name '%s' in table %d", step, op.client, n.c_str(), k); wantName(k, n); r.evs(n); r.effective++; break; }
      case D_NUMBER: { int v = g.chance(3, 4) && en.numbers.size() ? en.numbers[g.below(en.numbers.size())] : (int)g.next(); if (g.chance(1, 4) && v < INT32_MAX) v++; r.log(" %2d client %u: value %d", step, op.client, v); wantNumber(en, v); r.ev((u32)v); r.effective++; break; }
      case D_VALUE_NAME: { string n = g.chance(3, 4) && en.names.size() ? en.names[g.below(en.names.size())] : pickName(g); r.log(" %2d client %u: value '%s'", step, op.client, n.c_str()); wantValueName(en, n); r.evs(n); r.effective++; break; }
      case D_SIZE: case D_AUDIT: audit(); r.log(" %2d client %u: audit", step, op.client); r.effective++; break;
      case D_BEGIN: case D_END: case D_NEXT: case D_PREV: {
        auto &x = its[op.b % its.size()]; if (!x.made || (op.kind <= D_END && g.chance(1, 2))) { x.it.reset(new pb_descriptor_iter_t(pb_descriptor_iter_create(tables[k].d))); x.table = k; x.made = true; x.placed = false; }
        auto *it = x.it.get(); const pb_descriptor_t *d = tables[x.table].d;
        r.log(" %2d client %u: %s in table %d (%zu fields)", step, op.client, d_name[op.kind], x.table, tables[x.table].tags.size());
        move(x, tables[x.table].tags.size(), op.kind - D_BEGIN, [&](int h) { return h == 0 ? pb_descriptor_iter_begin(it) : h == 1 ? pb_descriptor_iter_end(it) : h == 2 ? pb_descriptor_iter_next(it) : pb_descriptor_iter_prev(it); },
          [&] { return pb_descriptor_iter_pos(it); }, [&](size_t p) { return pb_descriptor_iter_current(it) == &d->field.data[p]; });
        break;
      }
      case D_EBEGIN: case D_EEND: case D_ENEXT: case D_EPREV: {
        auto &x = eits[op.b % eits.size()]; int e = (int)(op.a % enums.size()); if (!x.made || (op.kind <= D_EEND && g.chance(1, 2))) { x.it.reset(new pb_enum_descriptor_iter_t(pb_enum_descriptor_iter_create(enums[e].d))); x.table = e; x.made = true; x.placed = false; }
        auto *it = x.it.get(); const pb_enum_descriptor_t *d = enums[x.table].d;
        r.log(" %2d client %u: %s in enum %d (%zu values)", step, op.client, d_name[op.kind], x.table, enums[x.table].numbers.size());
        move(x, enums[x.table].numbers.size(), op.kind - D_EBEGIN, [&](int h) { return h == 0 ? pb_enum_descriptor_iter_begin(it) : h == 1 ? pb_enum_descriptor_iter_end(it) : h == 2 ? pb_enum_descriptor_iter_next(it) : pb_enum_descriptor_iter_prev(it); },
          [&] { return pb_enum_descriptor_iter_pos(it); }, [&](size_t p) { return pb_enum_descriptor_iter_current(it) == &d->value.data[p]; });
        break;
      }
      case D_OBEGIN: case D_OEND: case D_ONEXT: case D_OPREV: {
        if (oneofs.empty()) return;
        auto &x = oits[op.b % oits.size()]; int o = (int)(op.a % oneofs.size()); if (!x.made || (op.kind <= D_OEND && g.chance(1, 2))) { x.it.reset(new pb_oneof_descriptor_iter_t(pb_oneof_descriptor_iter_create(oneofs[o].d))); x.table = o; x.made = true; x.placed = false; }
        auto *it = x.it.get(); auto &on = oneofs[x.table];
        if (pb_oneof_descriptor_size(on.d) != on.index.size() || !!pb_oneof_descriptor_empty(on.d) != on.index.empty()) violate("size", "a oneof has %zu members, %zu are declared", pb_oneof_descriptor_size(on.d), on.index.size());
        r.log(" %2d client %u: %s in oneof %d (%zu members)", step, op.client, d_name[op.kind], x.table, on.index.size());
        move(x, on.index.size(), op.kind - D_OBEGIN, [&](int h) { return h == 0 ? pb_oneof_descriptor_iter_begin(it) : h == 1 ? pb_oneof_descriptor_iter_end(it) : h == 2 ? pb_oneof_descriptor_iter_next(it) : pb_oneof_descriptor_iter_prev(it); },
          [&] { return pb_oneof_descriptor_iter_pos(it); }, [&](size_t p) { return pb_oneof_descriptor_iter_current(it) == &tables[on.table].d->field.data[on.index[p]]; });
        break;
      }
    }
  }
  void runAll() {
    r.sysOn = true;
    if (t.knob[K_SCHEMA]) { r.log("the tables of the generator"); jsim_tables(t.knob[K_SCHEMA], t.knob[K_SEED], r); }
    build();
    for (auto &op : t.ops) {
      if (op.kind >= D_KINDS) continue;
      step++; r.steps++; r.sched = mix64(r.sched ^ (op.client * 64 + op.kind)); r.count(string("op.") + d_name[op.kind]);
      exec(op); frozenTables();
      u64 h = mix64(t.knob[K_SEED]); for (auto &c : chain) for (int k : c) h = mix64(h ^ (u64)k); r.ev(h); r.state(h);
    }
    audit(); frozenTables();
  }
};
void descGen(u64 seed, Trace &t) {
  Rng g(mix64(seed) ^ 29); t.seed = mix64(seed);
  t.knob[K_MSGS] = g.range(1, 3); t.knob[K_FIELDS] = g.chance(1, 20) ? 300 : g.chance(1, 2) ? 3 : 12; t.knob[K_EXTS] = g.range(0, 5); t.knob[K_VALUES] = g.chance(1, 20) ? (g.chance(1, 2) ? 200 : 700) : g.range(0, 9); t.knob[K_STYLE] = g.range(0, 3); t.knob[K_SEED] = g.next() >> 1;
  if (!g_unbound && Rng(mix64(seed) ^ 0xb0d).chance(1, 100)) t.knob[K_SCHEMA] = g_schemaSlot;
  int w[D_KINDS]; for (int &x : w) x = g.chance(1, 6) ? 0 : g.range(1, 10); w[D_EXTEND] += 8; w[D_AUDIT] = 1; w[D_SIZE] = 0; int sum = 0; for (int x : w) sum += x;
  int n = g.range(5, 60);
  for (int i = 0; i < n; i++) { Op op; op.client = (u32)g.below(4); int x = (int)g.below(sum); u32 k = 0; while (x >= w[k]) x -= w[k++]; op.kind = k; op.a = (u32)g.below(1000); op.b = (u32)g.below(1000); op.r = g.next(); t.ops.push_back(op); }
}
void descRun(const Trace &t, Run &r) { DescSim s(t, r); s.runAll(); }
} // namespace
const char *desc_kind(u32 k) { return k < D_KINDS ? d_name[k] : "?"; }
void desc_scenarios(vector<Scenario> &v) {
  v.push_back({ "P29", "descriptor registry: modules register extensions at any time, others look up and iterate", descGen, descRun, 150000, 16000000,
    "a run counts when at least 5 registrations, lookups or iterator moves were checked; distinct by the hash of its event log", false, { K_MSGS, K_FIELDS, K_EXTS, K_VALUES, K_STYLE } });
}
