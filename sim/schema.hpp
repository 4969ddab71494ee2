// Random message schemas, built as real library descriptors at run time.
#pragma once
#include "core.hpp"
#include "bind.h"
#include <set>

struct MsgS;
struct FD {
  pb_tag_t tag = 0;
  pb_type_t type = PB_TYPE_UINT32;
  pb_label_t label = PB_LABEL_OPTIONAL;
  bool packed = false;
  int nested = -1;          // schema index for messages
  int oneof = -1;           // oneof index
  bool hasDefault = false;
  u64 dnum = 0; string dstr;
  int ext = 0;              // 0: native, k: k-th chained extension
  bool isMsg() const { return type == PB_TYPE_MESSAGE; }
  bool isStr() const { return type == PB_TYPE_STRING || type == PB_TYPE_BYTES; }
  bool isScalar() const { return !isMsg() && !isStr(); }
  bool repeated() const { return label == PB_LABEL_REPEATED; }
  // schemas that go through the code generator (bind.hpp)
  string name, symbol;      // name in the schema file, name in the accessors
  int en = -1;              // enum
  string dtext;             // default as written in the schema file
  bool deprecated = false;
  // filled when built
  void *dval = nullptr;
};
inline int wiretype_of(pb_type_t t) {
  switch (t) {
    case PB_TYPE_FIXED32: case PB_TYPE_SFIXED32: case PB_TYPE_FLOAT: return 5;
    case PB_TYPE_FIXED64: case PB_TYPE_SFIXED64: case PB_TYPE_DOUBLE: return 1;
    case PB_TYPE_STRING: case PB_TYPE_BYTES: case PB_TYPE_MESSAGE: return 2;
    default: return 0;
  }
}
inline int native_size(pb_type_t t) {
  switch (t) {
    case PB_TYPE_INT64: case PB_TYPE_UINT64: case PB_TYPE_SINT64:
    case PB_TYPE_FIXED64: case PB_TYPE_SFIXED64: case PB_TYPE_DOUBLE: return 8;
    case PB_TYPE_BOOL: return 1;
    case PB_TYPE_STRING: case PB_TYPE_BYTES: case PB_TYPE_MESSAGE: return sizeof(pb_string_t);
    default: return 4;
  }
}
static const char *const type_name[] = { "undef", "int32", "int64", "uint32", "uint64", "sint32", "sint64",
  "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "enum", "float", "double", "string", "bytes", "message" };

struct MsgS {
  int index = 0;
  vector<FD> f;                         // native first, then extensions; pointers stable after build
  int oneofs = 0;
  int nExt = 0, registered = 0;         // chained extensions and how many are registered
  pb_descriptor_t *d = nullptr;
  vector<pb_descriptor_t *> ext;
  vector<pb_oneof_descriptor_t *> od;
  vector<vector<size_t>> oidx;
  // schemas that go through the code generator (bind.hpp)
  string name, full, symbol; int parent = -1, file = 0;
  vector<int> order;                    // order of declaration of the native fields
  vector<std::pair<int, int>> place;    // of the extensions: file, scope
  bool anyTag(pb_tag_t tag) const { for (auto &x : f) if (x.tag == tag) return true; return false; }
  const FD *byTag(pb_tag_t tag) const {
    for (auto &x : f) if (x.tag == tag) return x.ext <= registered ? &x : nullptr;
    return nullptr;
  }
};

struct SchemaKnobs {
  int maxMsgs = 3, maxFields = 7;
  bool packed = true, oneof = true, nested = true, strings = true, defaults = true, required = true, repeated = true;
  int ext = 0;              // max chained extensions per message
  bool bigTags = true;
  bool bytesView = false;   // prefer bytes fields
  bool oneofHeavy = false, packedHeavy = false, nestedHeavy = false, defaultsHeavy = false;
};

struct Schema {
  vector<MsgS> m;
  vector<void *> mem;
  // schemas that go through the code generator (bind.hpp)
  struct EnumS { string name, full, symbol; int parent = -1, file = 0; vector<std::pair<string, int>> v; };
  struct ExtAt { int msg, field; bool split; };
  vector<ExtAt> extOrder;
  vector<EnumS> enums; bool checked = false;   // the bindings are compiled with their assertions
  bool lite = false; string pkg[3], file[3]; vector<int> files; int base = 0; u64 decor = 0;
  const bind_table_t *bound = nullptr;
  Schema() {}
  Schema(const Schema &) = delete;
  ~Schema() { for (void *p : mem) free(p); }
  void *take(size_t n) { void *p = calloc(1, n ? n : 1); mem.push_back(p); return p; }

  void generate(Rng &g, const SchemaKnobs &k) {
    int n = g.range(1, k.maxMsgs);
    m.resize(n);
    for (int i = 0; i < n; i++) genMsg(g, k, m[i], i, n);
    build();
  }
  void genMsg(Rng &g, const SchemaKnobs &k, MsgS &s, int index, int n) {
    s.index = index;
    int nf = g.range(1, k.maxFields);
    int tag = 0;
    int style = g.range(0, 3);
    s.oneofs = k.oneof && nf >= 2 && (k.oneofHeavy || g.chance(1, 2)) ? g.range(1, 2) : 0;
    for (int i = 0; i < nf; i++) {
      FD d;
      if (style == 0) tag += 1;
      else if (style == 1) tag += g.range(1, 3);
      else if (style == 2) tag += g.range(1, 12);
      else tag += k.bigTags ? (g.chance(1, 3) ? g.range(100, 5000) : g.chance(1, 8) ? g.range(100000, 30000000) : 1) : 1;
      if (tag > (1 << 29) - 8192) tag = s.f.back().tag + 1;  // the last tag a field may have is 2^29 - 1
      if (tag >= 19000 && tag < 20000) tag += 1000;          // reserved in schema files
      d.tag = tag;
      genField(g, k, d, index, n, s.oneofs > 0);
      if (d.label == PB_LABEL_ONEOF) d.oneof = g.range(0, s.oneofs - 1);
      s.f.push_back(d);
    }
    // tags that differ in the higher bits only
    u64 id = index; for (auto &x : s.f) id = id * 1000003 + x.tag * 32 + x.type;
    Rng far(id ^ 0xa1); if (nf > 1 && far.chance(1, 8)) {
      static const int bit[] = { 8, 16, 16, 24, 28 }; int i = far.range(nf > 3 ? nf - 3 : 1, nf - 1), up = 1 << bit[far.below(5)];
      pb_tag_t low = s.f[far.range(0, i - 1)].tag; up += low - s.f[i].tag;
      if (up > 0 && s.f.back().tag + (u64)up < (1u << 29) - 4096) { bool ok = true; for (int j = i; j < nf; j++) { pb_tag_t t = s.f[j].tag + up; ok &= t < 19000 || t >= 20000; } if (ok) { for (int j = i; j < nf; j++) s.f[j].tag += up; tag = s.f.back().tag; } }
    }
    if (k.ext) s.nExt = g.range(0, k.ext);
    // tags of extensions follow the own ones, or lie between and below them
    bool between = s.nExt && g.chance(1, 2);
    std::set<int> used; for (auto &x : s.f) used.insert(x.tag);
    for (int e = 1; e <= s.nExt; e++) {
      int ne = g.range(1, 3); std::set<int> tags;
      for (int i = 0; i < ne; i++) {
        int t = tag + g.range(1, 40), low = g.range(1, tag + 3);
        if (between && !used.count(low)) t = low;
        while (used.count(t) || (t >= 19000 && t < 20000)) t++;
        used.insert(t); tags.insert(t); tag = std::max(tag, t);
      }
      for (int t : tags) {
        FD d; d.tag = t; d.ext = e;
        genField(g, k, d, index, n, false);
        if (d.label == PB_LABEL_REQUIRED) d.label = PB_LABEL_OPTIONAL;
        s.f.push_back(d);
      }
    }
  }
  void genField(Rng &g, const SchemaKnobs &k, FD &d, int index, int n, bool oneof) {
    int w = g.range(0, 99);
    if (k.packedHeavy) w = w < 10 ? w : w < 15 ? 35 : 80;
    if (k.nested && w < (k.nestedHeavy ? 55 : 30)) d.type = PB_TYPE_MESSAGE;
    else if (k.strings && w < (k.nestedHeavy ? 65 : k.bytesView ? 60 : 50)) d.type = (k.bytesView ? g.chance(4, 5) : g.chance(1, 2)) ? PB_TYPE_BYTES : PB_TYPE_STRING;
    else d.type = (pb_type_t)g.range(PB_TYPE_INT32, PB_TYPE_DOUBLE);
    if (d.type == PB_TYPE_MESSAGE) d.nested = g.range(0, n - 1);
    int l = g.range(0, 9);
    if (k.packedHeavy && l >= 7) l = g.range(0, 9);
    if (k.nestedHeavy && d.type == PB_TYPE_MESSAGE && l < 7) l = g.range(0, 9);
    if (k.defaultsHeavy && l < 7) l = 4 + g.range(0, 5);
    if (oneof && l < (k.oneofHeavy ? 6 : 4)) d.label = PB_LABEL_ONEOF;
    else if (k.repeated && l < 7) d.label = PB_LABEL_REPEATED;
    else d.label = k.required && g.chance(1, 3) ? PB_LABEL_REQUIRED : PB_LABEL_OPTIONAL;
    if (d.label == PB_LABEL_REPEATED && d.isScalar()) d.packed = k.packed && g.chance(2, 3);
    if (k.defaults && !d.isMsg() && d.label != PB_LABEL_ONEOF && d.label != PB_LABEL_REPEATED && g.chance(1, 2)) {
      d.hasDefault = true;
      d.dnum = g.next();
      if (d.isStr()) d.dstr = string(g.range(0, 5), 'd');
    }
  }
  void build() {
    for (auto &s : m) {
      s.d = (pb_descriptor_t *)take(sizeof(pb_descriptor_t));
      for (int e = 1; e <= s.nExt; e++) s.ext.push_back((pb_descriptor_t *)take(sizeof(pb_descriptor_t)));
      for (int o = 0; o < s.oneofs; o++) {
        s.od.push_back((pb_oneof_descriptor_t *)take(sizeof(pb_oneof_descriptor_t)));
        s.oidx.emplace_back();
      }
    }
    // enum descriptor shared by all enum fields
    for (auto &s : m) {
      for (int e = 0; e <= s.nExt; e++) {
        vector<FD *> fs;
        for (auto &x : s.f) if (x.ext == e) fs.push_back(&x);
        char *arr = (char *)take(sizeof(pb_field_descriptor_t) * fs.size());
        for (size_t i = 0; i < fs.size(); i++) {
          FD &x = *fs[i];
          const void *refer = nullptr, *value = nullptr;
          if (x.isMsg()) refer = m[x.nested].d;
          else if (x.type == PB_TYPE_ENUM) refer = enumDesc();
          if (x.label == PB_LABEL_ONEOF) { value = s.od[x.oneof]; s.oidx[x.oneof].push_back(i); }
          else if (x.hasDefault) value = defval(x);
          char *name = (char *)take(24); snprintf(name, 24, "f%u", x.tag);
          pb_field_descriptor_t tmp = { x.tag, name, x.type, x.label, refer, value, (uint8_t)(x.packed ? PB_FLAG_PACKED : 0) };
          memcpy(arr + i * sizeof tmp, (const void *)&tmp, sizeof tmp);
        }
        pb_descriptor_t tmp = { { (const pb_field_descriptor_t *)arr, fs.size() }, nullptr };
        memcpy((void *)(e == 0 ? s.d : s.ext[e - 1]), (const void *)&tmp, sizeof tmp);
      }
      for (int o = 0; o < s.oneofs; o++) {
        size_t *ix = (size_t *)take(sizeof(size_t) * s.oidx[o].size());
        for (size_t i = 0; i < s.oidx[o].size(); i++) ix[i] = s.oidx[o][i];
        pb_oneof_descriptor_t tmp = { s.d, { ix, s.oidx[o].size() } };
        memcpy((void *)s.od[o], (const void *)&tmp, sizeof tmp);
      }
    }
  }
  pb_enum_descriptor_t *ed = nullptr;
  pb_enum_descriptor_t *enumDesc() {
    if (!ed) {
      static const struct { int n; const char *s; } e[8] = { { (int)0x80000000, "F" }, { -1, "E" }, { 0, "A" }, { 1, "B" }, { 127, "G" }, { 150, "C" }, { 70000, "D" }, { 0x7fffffff, "H" } };
      pb_enum_value_descriptor_t *v = (pb_enum_value_descriptor_t *)take(8 * sizeof(pb_enum_value_descriptor_t));
      for (int i = 0; i < 8; i++) { pb_enum_value_descriptor_t x = { e[i].n, e[i].s }; memcpy((void *)&v[i], (const void *)&x, sizeof x); }
      pb_enum_descriptor_t tmp = { { v, 8 } };
      ed = (pb_enum_descriptor_t *)take(sizeof tmp);
      memcpy((void *)ed, (const void *)&tmp, sizeof tmp);
    }
    return ed;
  }
  void *defval(FD &x) {
    if (x.dval) return x.dval;
    if (x.isStr()) {
      char *b = (char *)take(x.dstr.size() + 1);
      memcpy(b, x.dstr.data(), x.dstr.size());
      pb_string_t *s = (pb_string_t *)take(sizeof(pb_string_t));
      s->data = (uint8_t *)b; s->size = x.dstr.size();
      return x.dval = s;
    }
    void *p = take(8);
    x.dnum = clampNum(x.type, x.dnum);
    memcpy(p, &x.dnum, native_size(x.type));
    return x.dval = p;
  }
  // Normalised scalar: the native little-endian bytes of the type in the low bits.
  static u64 clampNum(pb_type_t t, u64 v) {
    if (t == PB_TYPE_BOOL) return v & 1;
    if (t == PB_TYPE_ENUM) { static const u64 e[8] = { 0, 1, 150, 70000, 0xffffffff, 0x80000000, 127, 0x7fffffff }; return e[v & 7]; }
    if (native_size(t) == 4) return (u32)v;
    return v;
  }
};

inline u64 genNum(Rng &g, pb_type_t t) {
  u64 v;
  switch (g.range(0, 6)) {
    case 0: v = g.below(4); break;
    case 1: v = g.below(300); break;
    case 2: v = (u64)-(int64_t)g.below(200); break;
    case 3: { int s = 7 * g.range(1, 9); v = (1ULL << s) - g.below(2); break; }
    case 4: v = g.below(70000); break;
    case 5: v = 1ULL << g.range(0, 63); break;
    default: v = g.next(); break;
  }
  return Schema::clampNum(t, v);
}
inline string genStr(Rng &g, bool allowEmpty, int big) {
  int n;
  int w = g.range(0, 19);
  if (w == 0 && allowEmpty) n = 0;
  else if (w < 14 && !(big > 1 && w > 11)) n = g.range(1, 9);
  else if (w < 17 && big < 2) n = g.range(20, 60);
  else if (w < 19 && big < 2) n = g.range(110, 135);
  else if (big > 1 && g.chance(1, 2)) { static const int at[] = { 16384, 16384, 32768, 65536, 2097152 }; n = (big > 2 ? at[4] : at[g.below(4)]) - (int)g.below(16); }
  else n = big ? (g.chance(1, 6) ? g.range(16350, 16400) : g.range(200, 400)) : g.range(1, 30);
  string s; s.resize(n);
  u64 x = g.next();
  for (int i = 0; i < n; i++) { if ((i & 7) == 0) x = mix64(x); s[i] = (char)(x >> (8 * (i & 7))); }
  if (n > 1 && x % 8 == 0) s[x / 8 % n] = 0;
  return s;
}
