// Schemas that go through the code generator of /repo: a random schema is
// written as .proto files, the real generator (bindgen, running against
// libprotoc) writes the bindings, the C compiler compiles them together with a
// table of what the header must offer (bind.h), and the simulation works on
// the generated descriptors and through the generated functions.
#pragma once
#include <cmath>
#include <dlfcn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "wire.hpp"

extern string g_bindDir, g_bindRepo, g_bindSim;   // where bindings are built, /repo, the simulator's sources

namespace bind {

inline string lower(string s) { for (char &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
inline string upper(string s) { for (char &c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
inline string under(string s) { for (char &c : s) if (c == '.') c = '_'; return s; }

inline string quoteProto(const string &s) {
  string o = "\""; char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { snprintf(b, 8, "\\%03o", c); o += b; } else o += c;
  }
  return o + "\"";
}
inline string genDefaultStr(Rng &g, bool bytes) {
  static const char *const parts[] = { "", "a", "hello", "\"", "\\", "\n", "\t", "'", "?\?=", "%s", "`", "`name`", "0", "7f", "\r", "//", "/*", "*/", "\\n", "{", "\x7f", "\x01", "$" };
  string s; int n = g.range(0, 4);
  for (int i = 0; i < n; i++) s += parts[g.below(sizeof parts / sizeof *parts)];
  if (bytes) for (int i = g.range(0, 3); i > 0; i--) s.insert(s.begin() + g.below(s.size() + 1), (char)g.below(256));
  else if (g.chance(1, 4)) s += "\xc3\xa9";
  if (!bytes && g.chance(1, 8)) s += string(1, '\0') + "x";
  return s;
}
// a default of a scalar: bits and text
inline void genDefault(Rng &g, FD &d) {
  d.hasDefault = true; char b[64];
  switch (d.type) {
    case PB_TYPE_FLOAT: {
      static const float e[] = { 0.f, -0.f, 1.f, -1.5f, 3.4028235e38f, 1.17549435e-38f, 1e-45f, 0.1f, 16777216.f, 1e10f, 123456.789f, INFINITY, -INFINITY, NAN };
      float v = g.chance(1, 2) ? e[g.below(14)] : (float)(int32_t)g.next() / 1000.f; u32 x; if (g.chance(2, 5)) { x = (u32)g.next(); if ((x >> 23 & 255) == 255) x ^= 1u << 30; memcpy(&v, &x, 4); } memcpy(&x, &v, 4); if (v != v) x = 0x7fc00000; d.dnum = x;
      if (v != v) d.dtext = "nan"; else if (std::isinf(v)) d.dtext = v > 0 ? "inf" : "-inf"; else { snprintf(b, 64, "%.9g", v); d.dtext = b; } break; }
    case PB_TYPE_DOUBLE: {
      static const double e[] = { 0., -0., 1., -1.5, 1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, 0.1, 9007199254740993., 1e22, 123456.789, INFINITY, -INFINITY, NAN };
      double v = g.chance(1, 2) ? e[g.below(14)] : (double)(int64_t)g.next() / 1000.; if (g.chance(1, 4)) { u64 y = g.next(); if ((y >> 52 & 2047) == 2047) y ^= 1ull << 62; memcpy(&v, &y, 8); } memcpy(&d.dnum, &v, 8); if (v != v) d.dnum = 0x7ff8000000000000ull;
      if (v != v) d.dtext = "nan"; else if (std::isinf(v)) d.dtext = v > 0 ? "inf" : "-inf"; else { snprintf(b, 64, "%.17g", v); d.dtext = b; } break; }
    case PB_TYPE_BOOL: d.dnum = g.below(2); d.dtext = d.dnum ? "true" : "false"; break;
    case PB_TYPE_INT32: case PB_TYPE_SINT32: case PB_TYPE_SFIXED32: {
      static const int32_t e[] = { 0, 1, -1, INT32_MIN, INT32_MAX }; int32_t v = g.chance(1, 2) ? e[g.below(5)] : (int32_t)g.next(); d.dnum = (u32)v; d.dtext = format("%d", v); break; }
    case PB_TYPE_INT64: case PB_TYPE_SINT64: case PB_TYPE_SFIXED64: {
      static const int64_t e[] = { 0, 1, -1, INT64_MIN, INT64_MAX, INT32_MIN, 1ll << 32 }; int64_t v = g.chance(1, 2) ? e[g.below(7)] : (int64_t)g.next(); d.dnum = (u64)v; d.dtext = format("%lld", (long long)v); break; }
    case PB_TYPE_UINT32: case PB_TYPE_FIXED32: { u32 v = g.chance(1, 4) ? UINT32_MAX : (u32)g.next(); d.dnum = v; d.dtext = format("%u", v); break; }
    case PB_TYPE_UINT64: case PB_TYPE_FIXED64: { u64 v = g.chance(1, 4) ? UINT64_MAX : g.next(); d.dnum = v; d.dtext = format("%llu", (unsigned long long)v); break; }
    case PB_TYPE_STRING: case PB_TYPE_BYTES: d.dstr = genDefaultStr(g, d.type == PB_TYPE_BYTES); d.dtext = quoteProto(d.dstr); break;
    default: break;
  }
}

inline void generate(Schema &sc, u64 seed, const SchemaKnobs &k) {
  Rng g(seed);
  int n = g.range(1, k.maxMsgs); sc.m.resize(n);
  static const char *const names[] = { "Item", "ItemList", "ItemListEntry", "Box", "BoxTop", "Deep" };
  static const char *const odd[] = { "Item2", "HTTPServer", "lowercase", "With_Under_Score", "X", "X1y2Z3" };
  static const char *const pkgs[] = { "", "pk", "pk.sub", "org.Example" };
  for (auto &p : sc.pkg) p = &p != sc.pkg && g.chance(1, 2) ? sc.pkg[0] : pkgs[g.below(4)];
  static const char *const files[][3] = { { "main.proto", "other.proto", "base.proto" }, { "dir/main.proto", "dir/other.proto", "base.proto" }, { "a-b/main-1.proto", "a-b/other.x.proto", "a-b/main-2.proto" },
    { "dir/Main.proto", "main.proto", "a-b/main.proto" }, { "1st.proto", "2nd.proto", "dir/3rd.proto" } };
  int fi = g.range(0, 4); for (int i = 0; i < 3; i++) sc.file[i] = files[fi][i];
  // messages below base are declared in a file of their own, which the main file imports
  sc.base = n > 1 && g.chance(1, 2) ? g.range(1, n - 1) : 0; if (sc.base) sc.files.push_back(2);
  sc.files.push_back(0); if (k.ext > 0) sc.files.push_back(1);
  sc.lite = g.chance(1, 10);
  bool rec = g.chance(2, 3); Rng h(seed ^ 0x72696368); sc.checked = h.chance(1, 2); bool rich = h.chance(1, 3), twins = h.chance(1, 3); { Rng dg(seed ^ 0x6465636f72); sc.decor = dg.chance(1, 2) ? dg.next() | 1 : 0; }   // rich in defaults
  for (int i = 0; i < n; i++) {
    MsgS &s = sc.m[i]; bool inBase = i < sc.base; int first = inBase ? 0 : sc.base; s.file = inBase ? 2 : 0; sc.genMsg(g, k, s, i, inBase ? sc.base : n);
    s.name = (sc.decor && !(sc.decor & 2) ? odd : names)[i % 6]; s.parent = i > first && g.chance(2, 3) ? g.range(first, i - 1) : -1;
    // messages with different parents may have the same name
    if (twins) for (int t = 0; t < 8; t++) { string c = (sc.decor && !(sc.decor & 2) ? odd : names)[h.below(3)]; bool used = false; for (int j = 0; j < i; j++) used |= sc.m[j].parent == s.parent && sc.m[j].name == c; if (!used) { s.name = c; break; } }
    s.full = (s.parent >= 0 ? sc.m[s.parent].full : sc.pkg[s.file]); s.full += (s.full.empty() ? "" : ".") + s.name; s.symbol = lower(under(s.full));
  }
  (void)rec;
  // enums
  int ne = g.range(1, 3);
  for (int i = 0; i < ne; i++) {
    Schema::EnumS e; e.name = format(g.chance(1, 2) ? "Kind%d" : "kinds%d", i); e.file = sc.base && i == 0 ? 2 : 0; e.parent = g.chance(1, 2) ? e.file ? g.range(0, sc.base - 1) : g.range(sc.base, n - 1) : -1;
    e.full = e.parent >= 0 ? sc.m[e.parent].full : sc.pkg[e.file]; e.full += (e.full.empty() ? "" : ".") + e.name; e.symbol = lower(under(e.full));
    static const int num[] = { 0, 1, 2, 3, 5, 127, 128, 150, 70000, 2147483647, -1, -2, -128, -2147483647 - 1 };
    int nv = g.range(1, 6); vector<int> used; bool dense = g.chance(1, 3);
    for (int v = 0; v < nv; v++) {
      int x = dense ? v : num[g.below(sizeof num / sizeof *num)];
      if (std::find(used.begin(), used.end(), x) != used.end() && !g.chance(1, 6)) continue;
      used.push_back(x); e.v.push_back({ format(g.chance(1, 2) ? "K%d_V%d" : "k%d_val%d", i, v), x });
    }
    sc.enums.push_back(e);
  }
  for (auto &s : sc.m) {
    // oneofs without members do not exist in a schema file
    vector<int> map(s.oneofs, -1); int no = 0;
    for (auto &f : s.f) if (f.oneof >= 0) { if (map[f.oneof] < 0) map[f.oneof] = no++; f.oneof = map[f.oneof]; }
    s.oneofs = no;
    for (int e = 1; e <= s.nExt; e++) {
      int file = g.range(0, s.file ? 2 : 1), scope = -1;
      if (g.chance(1, 2)) scope = file == 0 ? g.range(sc.base, n - 1) : file == 1 ? 1000 : g.range(0, sc.base - 1);
      s.place.push_back({ file, scope });
    }
    // groups of extensions in the same place are one group to the generator; that makes no difference here
    for (auto &f : s.f) {
      static const char *const fn[] = { "name%u", "Name_%u", "a_b_%u", "camelCase%u", "x%u", "UPPER_%u" };
      f.name = format(fn[g.below(6)], f.tag);
      if (f.ext) f.name = "e" + lower(s.symbol) + "_" + f.name;
      f.symbol = lower(f.name);
      if (f.ext) { auto pl = s.place[f.ext - 1]; f.symbol = "X_" + (pl.second < 0 ? string() : (pl.second == 1000 ? string("scope") : [&] { string q = sc.m[pl.second].full, p = sc.pkg[sc.m[pl.second].file]; if (!p.empty()) q = q.substr(p.size() + 1); return lower(under(q)); }()) + "_") + f.symbol; }
      f.hasDefault = false; f.dnum = 0; f.dstr.clear();
      bool opt = f.label == PB_LABEL_OPTIONAL || f.label == PB_LABEL_REQUIRED;
      if (f.type == PB_TYPE_ENUM) {
        f.en = s.file == 2 ? 0 : g.range(0, (int)sc.enums.size() - 1);
        if (f.label == PB_LABEL_OPTIONAL) { f.hasDefault = true; f.dnum = (u32)sc.enums[f.en].v[0].second; }
        if (opt && g.chance(1, 3)) { f.hasDefault = true; auto &v = sc.enums[f.en].v[g.below(sc.enums[f.en].v.size())]; f.dnum = (u32)v.second; f.dtext = v.first; }
      } else if (opt && !f.isMsg() && k.defaults && (g.chance(1, 2) || rich)) {
        if (rich && !f.isStr() && h.chance(2, 5)) f.type = h.chance(2, 3) ? PB_TYPE_FLOAT : PB_TYPE_DOUBLE;
        genDefault(rich ? h : g, f);
      }
      f.deprecated = g.chance(1, 12);
    }
    for (size_t i = 0; i < s.f.size(); i++) if (!s.f[i].ext) s.order.push_back((int)i);
    if (g.chance(2, 3)) for (size_t i = s.order.size(); i > 1; i--) std::swap(s.order[i - 1], s.order[g.below(i)]);
  }
  // extensions are declared in any order, in one block or in several
  for (auto &s : sc.m) for (int e = 1; e <= s.nExt; e++) for (size_t i = 0; i < s.f.size(); i++) if (s.f[i].ext == e) sc.extOrder.push_back({ s.index, (int)i, false });
  Rng q(seed ^ 0x65787473); auto &x = sc.extOrder;
  if (q.chance(3, 4)) { for (size_t i = x.size(); i > 1; i--) std::swap(x[i - 1], x[q.below(i)]); for (auto &y : x) y.split = q.chance(1, 4); }
}

// What a schema file may contain besides: comments, reserved tags and names, options,
// services, messages without fields. The generator must not be disturbed by any of it.
inline string decor(const Schema &sc, u64 place, const string &in, int kind) {
  if (!sc.decor) return "";
  Rng g(sc.decor ^ place * 0x9e3779b97f4a7c15ull); if (g.chance(1, 2)) return "";
  static const char *const comments[] = { "// plain", "// ends with a backslash \\", "/* block */", "// closes */ and opens /*", "// $name$ $$ %s `x`", "/* two\n * lines ?\?/\n */", "// \"quoted", "//", "/** @{ */", "// #include <x.h>\n// #define NULL 1" };
  string o = in + comments[g.below(10)] + "\n"; if (g.chance(1, 4)) o += "\n"; if (g.chance(1, 3)) o += in + comments[g.below(10)] + "\n";
  if (kind == 1) {    // within a message
    if (g.chance(1, 3)) o += in + "reserved 19001, 19005 to 19010;\n"; if (g.chance(1, 3)) o += in + "reserved \"gone\", \"lost\";\n";
    if (g.chance(1, 4)) o += in + "option deprecated = true;\n"; if (g.chance(1, 3)) o += in + "message Nothing {}\n"; if (g.chance(1, 4)) o += in + "message Shell { extensions 7, 100 to max; enum Alone { ALONE = 0; } }\n";
  } else if (kind == 2) {    // on the level of the file
    string n = format("%d", (int)place);
    if (g.chance(1, 3)) o += "message Void" + n + " {}\n"; if (g.chance(1, 3)) o += "message Ask" + n + " { message Ask" + n + " { optional Ask" + n + " ask = 536870911; } optional Ask" + n + " ask = 1; repeated Ask" + n + " more = 2; }\nservice Serve" + n + " { rpc Do(Ask" + n + ") returns (Ask" + n + "); }\n";
    if (g.chance(1, 4)) o += "option java_package = \"x.y\";\n";
  }
  return o;
}
inline string typeText(const Schema &sc, const FD &f) {
  if (f.isMsg()) return "." + sc.m[f.nested].full;
  if (f.type == PB_TYPE_ENUM) return "." + sc.enums[f.en].full;
  return type_name[f.type];
}
inline string fieldText(const Schema &sc, const FD &f, bool label) {
  string o = label ? f.label == PB_LABEL_REQUIRED ? "required " : f.label == PB_LABEL_REPEATED ? "repeated " : "optional " : "";
  o += typeText(sc, f) + " " + f.name + " = " + format("%u", f.tag); u64 id = f.tag * 64ull + (int)f.type;
  vector<string> opt; if (!f.dtext.empty()) opt.push_back("default = " + f.dtext); if (f.packed) opt.push_back("packed = true"); if (f.deprecated) opt.push_back("deprecated = true");
  for (size_t i = 0; i < opt.size(); i++) o += (i ? ", " : " [") + opt[i];
  string c = decor(sc, id * 2 + 1, "", 0); c = c.substr(0, c.find('\n'));   // behind the field, on the same line
  return decor(sc, id * 2, "", 0) + o + (opt.empty() ? ";" : "];") + (c.size() > 1 && c[1] == '*' && c.find("*/") == string::npos ? "" : c) + "\n";
}
inline string extText(const Schema &sc, int file, int scope, const string &in) {
  string o; int open = -1;
  for (auto &x : sc.extOrder) {
    const MsgS &s = sc.m[x.msg]; const FD &f = s.f[x.field];
    if (s.place[f.ext - 1] != std::make_pair(file, scope)) continue;
    if (open >= 0 && (open != x.msg || x.split)) { o += in + "}\n"; open = -1; }
    if (open < 0) { o += in + "extend ." + s.full + " {\n"; open = x.msg; }
    o += in + "  " + fieldText(sc, f, true);
  }
  return open >= 0 ? o + in + "}\n" : o;
}
inline string enumText(const Schema &sc, int file, int parent, const string &in) {
  string o;
  for (auto &e : sc.enums) if (e.parent == parent && (parent >= 0 || e.file == file)) {
    bool alias = false; for (size_t i = 0; i < e.v.size(); i++) for (size_t j = 0; j < i; j++) alias |= e.v[i].second == e.v[j].second;
    o += in + "enum " + e.name + " {\n"; if (alias) o += in + "  option allow_alias = true;\n";
    for (auto &v : e.v) o += in + "  " + v.first + format(" = %d;\n", v.second); o += in + "}\n";
  }
  return o;
}
inline string msgText(const Schema &sc, int i, const string &in) {
  const MsgS &s = sc.m[i]; string o = in + "message " + s.name + " {\n", in2 = in + "  ";
  vector<bool> done(s.oneofs);
  bool late = s.index % 2;      // nested types before or behind the fields
  string types = enumText(sc, s.file, i, in2); for (auto &x : sc.m) if (x.parent == i) types += msgText(sc, x.index, in2);
  types += extText(sc, s.file, i, in2);
  o += decor(sc, (s.index + 1) * 1000003ull, in2, 1);
  if (!late) o += types;
  for (int j : s.order) {
    const FD &f = s.f[j];
    if (f.oneof < 0) { o += in2 + fieldText(sc, f, true); continue; }
    if (done[f.oneof]) continue; done[f.oneof] = true;
    o += in2 + format("oneof choice%d {\n", f.oneof); for (int q : s.order) if (s.f[q].oneof == f.oneof) o += in2 + "  " + fieldText(sc, s.f[q], false); o += in2 + "}\n";
  }
  if (late) o += types;
  for (auto &f : s.f) if (f.ext) o += in2 + format("extensions %u;\n", f.tag);
  return o + in + "}\n";
}
inline string protoText(const Schema &sc, int file) {
  string o = "syntax = \"proto2\";\n"; if (!sc.pkg[file].empty()) o += "package " + sc.pkg[file] + ";\n";
  const char *import = sc.decor % 3 == 1 ? "import public \"" : "import \""; if (file == 1) o += import + sc.file[0] + "\";\n"; if (file < 2 && sc.base) o += import + sc.file[2] + "\";\n";
  if (sc.lite) o += "option optimize_for = LITE_RUNTIME;\n";
  o += decor(sc, file + 1, "", 2);
  if (file != 1) { o += enumText(sc, file, -1, ""); for (auto &s : sc.m) if (s.parent < 0 && s.file == file) o += msgText(sc, s.index, ""); o += extText(sc, file, -1, ""); }
  else {
    string x = extText(sc, 1, 1000, "  "); o += "message Scope {\n  optional ." + sc.m[0].full + " other = 1;\n" + x + "}\n"; o += extText(sc, 1, -1, "");
  }
  return o;
}
inline string stem(const string &f) { return f.substr(0, f.size() - 6); }

// Nested accessors: through message fields that are not repeated, whose type is
// defined within the message that contains the field, and that do not lead back.
inline bool traced(const Schema &sc, int owner, const FD &f) {
  if (!f.isMsg() || f.repeated() || f.ext) return false;
  for (int p = owner; p >= 0; p = sc.m[p].parent) if (p == f.nested) return false;
  for (int p = sc.m[f.nested].parent; p >= 0; p = sc.m[p].parent) if (p == owner) return true;
  return false;
}
struct Emit {
  const Schema &sc; string fn, tab; int serial = 0;
  Emit(const Schema &s) : sc(s) {}
  string w(const string &ret, const string &args, const string &call) {
    string n = format("w%d", serial++); fn += "static " + ret + " " + n + "(" + args + ") { " + (ret == "void" ? "" : "return ") + call + "; }\n"; return n;
  }
  static string ctype(const FD &f) {
    switch (f.type) {
      case PB_TYPE_INT32: case PB_TYPE_SINT32: case PB_TYPE_SFIXED32: return "int32_t";
      case PB_TYPE_INT64: case PB_TYPE_SINT64: case PB_TYPE_SFIXED64: return "int64_t";
      case PB_TYPE_UINT32: case PB_TYPE_FIXED32: return "uint32_t";
      case PB_TYPE_UINT64: case PB_TYPE_FIXED64: return "uint64_t";
      case PB_TYPE_BOOL: return "uint8_t";
      case PB_TYPE_ENUM: return "pb_enum_t";
      case PB_TYPE_FLOAT: return "float";
      case PB_TYPE_DOUBLE: return "double";
      case PB_TYPE_MESSAGE: return "pb_encoder_t";
      default: return "pb_string_t";
    }
  }
  // the field at the end of a path, seen from message root
  string field(const MsgS &root, const vector<const FD *> &path, const MsgS &owner) {
    const FD &f = *path.back(); string sym; for (auto *x : path) sym += (sym.empty() ? "" : "_") + x->symbol;
    string m = root.symbol, p = format("p%d", serial++), vals = "0"; size_t nv = 0;
    fn += "static const pb_tag_t " + p + "[] = {"; for (auto *x : path) fn += format(" %u,", x->tag); fn += " };\n";
    bool acc = !sc.lite, top = path.size() == 1;
    string ct = ctype(f);     // the accessors have to take pointers to the type the field has in C
    string has = "0", get = "0", put = "0", erase = "0", create = "0", cursor = "0", enc = "0";
    if (acc && f.label != PB_LABEL_REQUIRED) has = w("int", "pb_message_t *m", m + "_has_" + sym + "(m)");
    if (acc && f.isMsg()) { create = w("pb_message_t", "pb_message_t *m", m + "_create_" + sym + "(m)"); if (f.repeated()) cursor = w("pb_cursor_t", "pb_message_t *m", m + "_create_" + sym + "_cursor(m)"); }
    if (acc && !f.isMsg()) { if (!f.repeated()) get = w("pb_error_t", "pb_message_t *m, void *v", m + "_get_" + sym + "(m, (" + ct + " *)v)"); put = w("pb_error_t", "pb_message_t *m, const void *v", m + "_put_" + sym + "(m, (const " + ct + " *)v)"); }
    if (acc && (f.label == PB_LABEL_OPTIONAL || f.label == PB_LABEL_ONEOF)) erase = w("pb_error_t", "pb_message_t *m", m + "_erase_" + sym + "(m)");
    bool e = top && !f.ext;
    if (e) enc = w("pb_error_t", "pb_encoder_t *e, const void *v, size_t n", f.repeated() ? m + "_encode_" + sym + "(e, (const " + ct + " *)v, n)" : "n == 1 ? " + m + "_encode_" + sym + "(e, (const " + ct + " *)v) : PB_ERROR_INVALID");
    if (f.type == PB_TYPE_ENUM) {
      vals = format("v%d", serial++); string t = "static const bind_value_t " + vals + "[] = {\n";
      for (auto &v : sc.enums[f.en].v) {
        string s2 = sym + "_" + lower(v.first), scope = sc.enums[f.en].parent >= 0 ? sc.m[sc.enums[f.en].parent].full : sc.pkg[sc.enums[f.en].file];
        string h = acc ? w("int", "pb_message_t *m", m + "_has_" + s2 + "(m)") : "0", pu = acc ? w("pb_error_t", "pb_message_t *m", m + "_put_" + s2 + "(m)") : "0";
        string en = e ? w("pb_error_t", "pb_encoder_t *e", m + "_encode_" + s2 + "(e)") : "0";
        t += format("  { %d, %s, ", v.second == INT32_MIN ? INT32_MIN + 1 : v.second, upper(under(scope.empty() ? v.first : scope + "." + v.first) + "_V").c_str()) + h + ", " + pu + ", " + en + " },\n"; nv++;
        if (v.second == INT32_MIN) { size_t q = t.rfind("-2147483647,"); t.replace(q, 12, "-2147483647 - 1,"); }
      }
      fn += t + "};\n";
    }
    string cons = top && !f.ext ? upper(under(owner.full + "." + f.name)) + "_T" : "0";
    return "  { " + p + format(", %zu, ", path.size()) + cons + ", " + has + ", " + get + ", " + put + ", " + erase + ", " + create + ", " + cursor + ", " + enc + ", " + vals + format(", %zu },\n", nv);
  }
  int follow(const MsgS &root, vector<const FD *> &path, int owner, string &out) {
    int n = 0;
    for (auto &f : sc.m[owner].f) {
      if (f.ext) continue;
      path.push_back(&f); out += field(root, path, sc.m[owner]); n++;
      if (traced(sc, owner, f) && path.size() < 6) n += follow(root, path, f.nested, out);
      path.pop_back();
    }
    return n;
  }
  string run() {
    string msgs;
    for (auto &s : sc.m) {
      string fields, oneofs; vector<const FD *> path; int n = 0;
      n = follow(s, path, s.index, fields);
      for (auto &f : s.f) if (f.ext) { path.assign(1, &f); fields += field(s, path, s); n++; }
      for (int o = 0; o < s.oneofs; o++) {
        string c = sc.lite ? string("0") : w("pb_tag_t", "pb_message_t *m", s.symbol + format("_case_choice%d(m)", o));
        oneofs += "  { &" + s.symbol + format("_choice%d_descriptor, ", o) + c + " },\n";
      }
      fn += format("static const bind_field_t f_%d[] = {\n", s.index) + fields + "  { 0 } };\n" + format("static const bind_oneof_t o_%d[] = {\n", s.index) + oneofs + "  { 0 } };\n";
      const string &m = s.symbol;
      msgs += "  { &" + m + "_descriptor, ";
      msgs += (sc.lite ? string("0") : w("pb_message_t", "pb_journal_t *j", m + "_create(j)")) + ", " + (sc.lite ? string("0") : w("void", "pb_message_t *m", m + "_destroy(m)")) + ", ";
      msgs += w("pb_decoder_t", "const pb_buffer_t *b", m + "_decoder_create(b)") + ", " + w("pb_error_t", "pb_decoder_t *d, pb_decoder_handler_f h, void *u", m + "_decode(d, h, u)") + ", " + w("void", "pb_decoder_t *d", m + "_decoder_destroy(d)") + ", ";
      msgs += w("pb_encoder_t", "void", m + "_encoder_create()") + ", " + w("pb_encoder_t", "pb_allocator_t *a", m + "_encoder_create_with_allocator(a)") + ", " + w("void", "pb_encoder_t *e", m + "_encoder_destroy(e)") + ", ";
      msgs += format("f_%d, %d, o_%d, %d },\n", s.index, n, s.index, s.oneofs);
    }
    string en; for (auto &e : sc.enums) en += "  { &" + e.symbol + "_descriptor },\n";
    string inc; for (int i : sc.files) inc += "#include \"" + stem(sc.file[i]) + ".pb.h\"\n";
    return inc + "#include \"bind.h\"\n" + fn + "static const bind_message_t messages[] = {\n" + msgs + "};\nstatic const bind_enum_t enumerations[] = {\n" + en + "};\n" +
      format("const bind_table_t sim_bind_table = { messages, %zu, enumerations, %zu };\n", sc.m.size(), sc.enums.size());
  }
};

inline void writeFile(const string &p, const string &s) { FILE *f = fopen(p.c_str(), "w"); if (!f) return; fwrite(s.data(), 1, s.size(), f); fclose(f); }
inline string readFile(const string &p) { string s; FILE *f = fopen(p.c_str(), "r"); if (!f) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
inline int shell(const string &c) { int st = system(c.c_str()); return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); }
inline string withoutDate(const string &s) { string o; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == string::npos) e = s.size(); string l = s.substr(i, e - i); if (l.compare(0, 8, " * Date:")) o += l + "\n"; i = e + 1; } return o; }
inline string firstLines(const string &s, int n) { size_t i = 0; while (n-- && i < s.size()) { size_t e = s.find('\n', i); if (e == string::npos) return s; i = e + 1; } return s.substr(0, i); }

// Builds the bindings of a schema into dir; the result is a file "status":
// "ok", or the class and description of what went wrong.
inline void buildAt(const Schema &sc, const string &dir) {
  auto fail = [&](const string &cls, const string &what) { writeFile(dir + "/status", cls + "\n" + what); };
  string names, out[3];
  shell("mkdir -p '" + dir + "/a-b' '" + dir + "/dir'");
  for (int i : sc.files) { writeFile(dir + "/" + sc.file[i], protoText(sc, i)); names += " '" + sc.file[i] + "'"; }
  for (int mode = 2; mode >= 0; mode--) {     // the layout of memory differs between the modes
    int st = shell(format("cd '%s' && '%s/bindgen' %d", dir.c_str(), g_bindDir.c_str(), mode) + names + " > gen.out 2>&1");
    string err = firstLines(readFile(dir + "/gen.out"), 12);
    if (st == 3) return fail("harness", "the schema file is not accepted: " + err);
    if (st) return fail("generator", format("the generator ends with status %d: ", st) + err);
    for (int i : sc.files) for (const char *e : { ".pb.h", ".pb.c" }) out[mode] += withoutDate(readFile(dir + "/" + stem(sc.file[i]) + e));
  }
  if (out[0] != out[1] || out[0] != out[2]) return fail("generator-unstable", "the bindings of one schema depend on the layout of memory");
  writeFile(dir + "/table.c", Emit(sc).run());
  string src = " table.c"; for (int i : sc.files) src += " '" + stem(sc.file[i]) + ".pb.c'";
  int st = shell("cd '" + dir + "' && gcc -std=gnu99" + (sc.checked ? " -UNDEBUG" : " -DNDEBUG") + " -O0 -g1 -Wno-all -Wno-deprecated-declarations -Werror=incompatible-pointer-types -Werror=pointer-sign -Werror=implicit-function-declaration -Werror=int-conversion -fPIC -shared -fsanitize=address -Wl,-Bsymbolic -I. -I'" + g_bindRepo + "/include' -I'" + g_bindSim + "'" + src + " -o bindings.so > cc.out 2>&1");
  if (st) {
    string err = readFile(dir + "/cc.out");
    return fail("bindings-compile", "the bindings do not compile, or do not offer what the schema calls for: " + firstLines(err, 8));
  }
  writeFile(dir + "/status", "ok");
}
inline string keyOf(const Schema &sc) { string s = Emit(sc).run(); s += sc.checked ? "1" : "0"; for (int i : sc.files) s += protoText(sc, i) + sc.file[i]; return format("%016llx", (unsigned long long)hashstr(s)); }
inline void build(const Schema &sc) {
  string dir = g_bindDir + "/" + keyOf(sc); struct stat st;
  if (!stat((dir + "/status").c_str(), &st)) return;
  string tmp = g_bindDir + format("/tmp-%d-", getpid()) + keyOf(sc);
  mkdir(tmp.c_str(), 0755); buildAt(sc, tmp);
  if (rename(tmp.c_str(), dir.c_str())) shell("rm -rf '" + tmp + "'");
}
inline bool ready(const Schema &sc) { build(sc); return readFile(g_bindDir + "/" + keyOf(sc) + "/status") == "ok"; }
inline void load(Schema &sc) {
  static std::map<string, const bind_table_t *> loaded;
  string key = keyOf(sc);
  auto it = loaded.find(key);
  if (it == loaded.end()) {
    build(sc);
    string dir = g_bindDir + "/" + key, status = readFile(dir + "/status");
    if (status != "ok") { size_t e = status.find('\n'); string cls = status.substr(0, e), what = e == string::npos ? "no bindings" : status.substr(e + 1);
      string text; for (int i : sc.files) text += "// " + sc.file[i] + "\n" + protoText(sc, i); violate(cls.empty() ? "harness" : cls, "%s\n%s", what.c_str(), text.c_str()); }
    void *h = dlopen((dir + "/bindings.so").c_str(), RTLD_NOW | RTLD_LOCAL);
    const bind_table_t *t = h ? (const bind_table_t *)dlsym(h, "sim_bind_table") : nullptr;
    if (!t) violate("bindings-load", "the bindings cannot be loaded: %s", dlerror());
    it = loaded.emplace(key, t).first;
  }
  sc.bound = it->second;
  for (auto &s : sc.m) {
    const bind_message_t &b = sc.bound->message[s.index];
    s.d = b.descriptor; s.registered = s.nExt;
    for (int o = 0; o < s.oneofs; o++) s.od.push_back(const_cast<pb_oneof_descriptor_t *>(b.oneof[o].descriptor));
  }
}
inline const bind_field_t *find(const Schema &sc, const MsgS *ms, const pb_tag_t *tags, size_t n) {
  if (!sc.bound || sc.lite) return nullptr;
  const bind_message_t &b = sc.bound->message[ms->index];
  for (size_t i = 0; i < b.fields; i++) if (b.field[i].depth == n && std::equal(tags, tags + n, b.field[i].path)) return &b.field[i];
  return nullptr;
}
inline const bind_value_t *value(const bind_field_t *f, u64 v) { if (f) for (size_t i = 0; i < f->count; i++) if ((u32)f->values[i].number == (u32)v) return &f->values[i]; return nullptr; }

// The generated tables say what the schema says.
// of: the aspects that are checked
enum { A_ORDER = 1, A_FIELD = 2, A_DEFAULT = 4, A_ONEOF = 8, A_ENUM = 16, A_EXT = 32, A_CONST = 64, A_ALL = 127 };
inline void verify(const Schema &sc, Rng &g, int of = A_ALL) {
  for (auto &s : sc.m) {
    const bind_message_t &b = sc.bound->message[s.index]; const pb_descriptor_t *d = b.descriptor; size_t seen = 0;
    for (const pb_descriptor_t *x = d; x; x = pb_descriptor_extension(x)) {
      pb_tag_t last = 0;
      for (size_t i = 0; i < x->field.size; i++) { pb_tag_t t = x->field.data[i].tag; if (t <= last && (of & A_ORDER || (of & A_EXT && x != d))) violate("binding-table", "the fields of %s are not in the order of their tags", s.full.c_str()); last = t; seen++; }
    }
    if (seen != s.f.size() && of & (A_FIELD | A_EXT)) violate("binding-table", "%s has %zu fields, %zu are declared", s.full.c_str(), seen, s.f.size());
    for (auto &f : s.f) {
      const pb_field_descriptor_t *x = pb_descriptor_field_by_tag(d, f.tag);
      string n = s.full + "." + f.name; bool some = of & A_FIELD || (of & A_EXT && f.ext);
      if (!x) { if (some) violate("binding-table", "%s is not found by its tag", n.c_str()); continue; }
      if (some) {
      if (pb_field_descriptor_tag(x) != f.tag || pb_field_descriptor_type(x) != f.type || pb_field_descriptor_label(x) != f.label) violate("binding-table", "tag, type or label of %s differ from the schema", n.c_str());
      if (!!pb_field_descriptor_packed(x) != f.packed) violate("binding-table", "%s is%s packed", n.c_str(), f.packed ? " not" : "");
      if (!f.ext && f.name != pb_field_descriptor_name(x)) violate("binding-table", "%s is called %s", n.c_str(), pb_field_descriptor_name(x));
      if (f.isMsg() && pb_field_descriptor_nested(x) != sc.m[f.nested].d) violate("binding-table", "%s refers to the wrong message", n.c_str());
      if (f.type == PB_TYPE_ENUM && pb_field_descriptor_enum(x) != sc.bound->enumeration[f.en].descriptor) violate("binding-table", "%s refers to the wrong enum", n.c_str());
      }
      if (f.oneof >= 0 && of & A_ONEOF && pb_field_descriptor_oneof(x) != s.od[f.oneof]) violate("binding-table", "%s belongs to the wrong oneof", n.c_str());
      if (!(of & A_DEFAULT)) continue;
      const void *v = pb_field_descriptor_default(x);
      if (f.oneof < 0 && !!v != f.hasDefault) violate("binding-table", "%s has %s default", n.c_str(), v ? "a" : "no");
      if (v && f.oneof < 0) {
        if (f.isStr()) { const pb_string_t *p = (const pb_string_t *)v; if (string((const char *)p->data, p->size) != f.dstr) violate("binding-table", "the default of %s is %s instead of %s", n.c_str(), hex(p->data, p->size).c_str(), hex(f.dstr).c_str()); }
        else { u64 y = 0; memcpy(&y, v, native_size(f.type)); if (y != f.dnum) violate("binding-table", "the default of %s is %llx instead of %llx", n.c_str(), (unsigned long long)y, (unsigned long long)f.dnum); }
      }
    }
    for (int k = 0; k < 4; k++) { pb_tag_t t = g.chance(1, 2) ? (pb_tag_t)g.range(1, 40) : (pb_tag_t)(1 + g.below((1u << 29) - 1)); bool want = false; for (auto &f : s.f) want |= f.tag == t; if (!!pb_descriptor_field_by_tag(d, t) != want && of & A_FIELD) violate("binding-table", "tag %u of %s is%s found", t, s.full.c_str(), want ? " not" : ""); }
    if (of & A_ONEOF) for (int o = 0; o < s.oneofs; o++) {
      const pb_oneof_descriptor_t *x = s.od[o]; vector<pb_tag_t> want, got;
      if (x->descriptor != d) violate("binding-table", "oneof %d of %s belongs to the wrong message", o, s.full.c_str());
      for (auto &f : s.f) if (f.oneof == o) want.push_back(f.tag);
      for (size_t i = 0; i < x->index.size; i++) { if (x->index.data[i] >= d->field.size) violate("binding-table", "oneof %d of %s has a member beyond the table", o, s.full.c_str()); got.push_back(d->field.data[x->index.data[i]].tag); }
      if (want != got) violate("binding-table", "oneof %d of %s has the wrong members", o, s.full.c_str());
    }
    if (of & A_CONST) for (size_t i = 0; i < b.fields; i++) {
      const bind_field_t &f = b.field[i];
      if (f.constant && f.constant != f.path[f.depth - 1]) violate("binding-table", "the tag constant of field %u of %s is %u", f.path[0], s.full.c_str(), f.constant);
      for (size_t v = 0; v < f.count; v++) if (f.values[v].constant != f.values[v].number) violate("binding-table", "a value constant is %lld instead of %d", f.values[v].constant, f.values[v].number);
    }
  }
  if (of & A_ENUM) for (size_t i = 0; i < sc.enums.size(); i++) {
    auto &e = sc.enums[i]; const pb_enum_descriptor_t *d = sc.bound->enumeration[i].descriptor;
    if (d->value.size != e.v.size()) violate("binding-table", "enum %s has %zu values instead of %zu", e.full.c_str(), d->value.size, e.v.size());
    for (size_t k = 1; k < d->value.size; k++) if (d->value.data[k].number < d->value.data[k - 1].number) violate("binding-table", "the values of enum %s are not in the order of their numbers", e.full.c_str());
    for (auto &v : e.v) {
      bool there = false; for (size_t k = 0; k < d->value.size; k++) there |= d->value.data[k].number == v.second && v.first == d->value.data[k].name;
      if (!there) violate("binding-table", "enum %s lacks %s", e.full.c_str(), v.first.c_str());
      const pb_enum_value_descriptor_t *x = pb_enum_descriptor_value_by_number(d, v.second);
      if (!x || x->number != v.second) violate("binding-table", "value %d of enum %s is not found", v.second, e.full.c_str());
      const pb_enum_value_descriptor_t *y = pb_enum_descriptor_value_by_name(d, v.first.c_str());
      if (!y || y->number != v.second || v.first != y->name) violate("binding-table", "value %s of enum %s is not found", v.first.c_str(), e.full.c_str());
    }
  }
}
} // namespace bind
