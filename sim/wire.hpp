// Independent wire-format writer and parser, and the reference model: a tree of
// field occurrences. Nothing in here calls the library.
#pragma once
#include "schema.hpp"

inline void putVarint(string &o, u64 v) { while (v >= 0x80) { o.push_back((char)(v | 0x80)); v >>= 7; } o.push_back((char)v); }
inline size_t varintLen(u64 v) { size_t n = 1; while (v >= 0x80) { v >>= 7; n++; } return n; }
// Value as it appears on the wire for varint types
inline u64 toWire(pb_type_t t, u64 v) {
  switch (t) {
    case PB_TYPE_INT32: case PB_TYPE_ENUM: return (u64)(int64_t)(int32_t)v;
    case PB_TYPE_SINT32: { int32_t x = (int32_t)v; return (u32)(((u32)x << 1) ^ (u32)(x < 0 ? -1 : 0)); }
    case PB_TYPE_SINT64: { int64_t x = (int64_t)v; return ((u64)x << 1) ^ (u64)(x < 0 ? -1 : 0); }
    default: return v;
  }
}
inline u64 fromWire(pb_type_t t, u64 w) {
  switch (t) {
    case PB_TYPE_INT32: case PB_TYPE_ENUM: case PB_TYPE_UINT32: return (u32)w;
    case PB_TYPE_SINT32: { u32 x = (u32)w; return (u32)((x >> 1) ^ (u32)(0 - (x & 1))); }
    case PB_TYPE_SINT64: return (w >> 1) ^ (0 - (w & 1));
    case PB_TYPE_BOOL: return (u8)w;
    default: return w;
  }
}
inline void putScalar(string &o, pb_type_t t, u64 v) {
  switch (wiretype_of(t)) {
    case 0: putVarint(o, toWire(t, v)); break;
    case 1: o.append((const char *)&v, 8); break;
    case 5: { u32 x = (u32)v; o.append((const char *)&x, 4); break; }
  }
}
inline size_t scalarLen(pb_type_t t, u64 v) {
  switch (wiretype_of(t)) { case 0: return varintLen(toWire(t, v)); case 1: return 8; default: return 4; }
}

struct Rd {       // bounds-checked reader
  const u8 *p; size_t n, o = 0; bool bad = false;
  bool overlong = false;
  Rd(const u8 *d, size_t s) : p(d), n(s) {}
  bool more() const { return !bad && o < n; }
  u64 varint(int maxBytes = 10) {
    u64 v = 0;
    for (int i = 0; i < maxBytes; i++) {
      if (o >= n) { bad = true; return 0; }
      u8 b = p[o++];
      v |= (u64)(b & 0x7F) << (7 * i);
      if (!(b & 0x80)) { if (i && !b) overlong = true; return v; }
    }
    bad = true; return 0;
  }
  const u8 *bytes(u64 k) { if (k > n - o) { bad = true; return p; } const u8 *q = p + o; o += k; return q; }
};

enum NK { N_SCALAR, N_STRING, N_MSG, N_PACKED, N_UNKNOWN };
struct Node {
  NK k = N_UNKNOWN;
  Node *parent = nullptr;
  pb_tag_t tag = 0;
  const FD *fd = nullptr;
  const MsgS *ms = nullptr;     // N_MSG (and opened bytes views)
  u64 val = 0;
  string bytes;                 // N_STRING content, N_UNKNOWN raw occurrence
  vector<Node *> kids;          // N_MSG, N_PACKED; keeps tombstones
  bool alive = true;
  bool undef = false;           // content was overwritten as a whole: handles on it are unspecified
  bool view = false;            // N_STRING whose content is opened as a message (kids valid)
  int id = 0;
};

struct Model {
  Schema *sc;
  vector<std::unique_ptr<Node>> pool;
  Node *root;
  explicit Model(Schema *s, int rootSchema) : sc(s) {
    root = mk(N_MSG, nullptr); root->ms = &s->m[rootSchema];
  }
  Node *mk(NK k, Node *parent) {
    pool.emplace_back(new Node()); Node *n = pool.back().get();
    n->k = k; n->parent = parent; n->id = (int)pool.size(); return n;
  }
  static bool skip(Rd &r, int wt) {
    switch (wt) {
      case 0: r.varint(); break;
      case 1: r.bytes(8); break;
      case 2: { u64 l = r.varint(5); if (!r.bad) r.bytes(l); break; }
      case 5: r.bytes(4); break;
      default: return false;
    }
    return !r.bad;
  }
  // ---- parse bytes as message content into `msg` (appends). false: malformed
  bool parse(Node *msg, const u8 *p, size_t n, int depth = 0) {
    if (depth > 60) return false;
    Rd r(p, n);
    while (r.more()) {
      size_t start = r.o;
      u64 t = r.varint(5); if (r.bad || t > 0xFFFFFFFFu) return false;
      int wt = t & 7; pb_tag_t tag = (pb_tag_t)(t >> 3);
      if (!tag) return false;
      const FD *fd = msg->ms->byTag(tag);
      if (!fd) {
        if (!skip(r, wt)) return false;
        Node *u = mk(N_UNKNOWN, msg); u->tag = tag; u->bytes.assign((const char *)p + start, r.o - start);
        msg->kids.push_back(u);
        continue;
      }
      int fw = wiretype_of(fd->type);
      if (wt != fw && (wt != 2 || fw == 2)) {   // unexpected wiretype: skipped like an unknown field
        if (!skip(r, wt)) return false;
        Node *u = mk(N_UNKNOWN, msg); u->tag = tag; u->bytes.assign((const char *)p + start, r.o - start);
        msg->kids.push_back(u);
      } else if (wt == 2 && fw == 2) {
        u64 l = r.varint(5); if (r.bad) return false;
        const u8 *q = r.bytes(l); if (r.bad) return false;
        Node *x = mk(fd->isMsg() ? N_MSG : N_STRING, msg); x->tag = tag; x->fd = fd;
        if (fd->isMsg()) { x->ms = &sc->m[fd->nested]; if (!parse(x, q, l, depth + 1)) return false; }
        else x->bytes.assign((const char *)q, l);
        msg->kids.push_back(x);
      } else if (wt == 2) {
        u64 l = r.varint(5); if (r.bad) return false;
        const u8 *q = r.bytes(l); if (r.bad) return false;
        Node *c = mk(N_PACKED, msg); c->tag = tag; c->fd = fd;
        Rd e(q, l);
        while (e.more()) { u64 v; if (!scalar(e, fd->type, v)) return false; elem(c, v); }
        if (e.bad) return false;
        msg->kids.push_back(c);
      } else {
        u64 v; if (!scalar(r, fd->type, v)) return false;
        Node *x = mk(N_SCALAR, msg); x->tag = tag; x->fd = fd; x->val = v; msg->kids.push_back(x);
      }
    }
    return !r.bad;
  }
  Node *elem(Node *c, u64 v) { Node *x = mk(N_SCALAR, c); x->tag = c->tag; x->fd = c->fd; x->val = v; c->kids.push_back(x); return x; }
  static bool scalar(Rd &e, pb_type_t t, u64 &v) {
    switch (wiretype_of(t)) {
      case 0: v = e.varint(); if (!e.bad) v = fromWire(t, v); break;
      case 1: { const u8 *q = e.bytes(8); if (!e.bad) memcpy(&v, q, 8); break; }
      default: { const u8 *q = e.bytes(4); u32 x = 0; if (!e.bad) memcpy(&x, q, 4); v = x; break; }
    }
    return !e.bad;
  }
  // ---- serialise
  static void putNode(string &o, const Node *x) {
    if (!x->alive) return;
    switch (x->k) {
      case N_UNKNOWN: o += x->bytes; break;
      case N_SCALAR: putVarint(o, ((u64)x->tag << 3) | wiretype_of(x->fd->type)); putScalar(o, x->fd->type, x->val); break;
      case N_STRING: { putVarint(o, ((u64)x->tag << 3) | 2); string b = x->view ? content(x) : x->bytes; putVarint(o, b.size()); o += b; break; }
      case N_MSG: { putVarint(o, ((u64)x->tag << 3) | 2); string b = content(x); putVarint(o, b.size()); o += b; break; }
      case N_PACKED: {
        string b; for (auto *e : x->kids) if (e->alive) putScalar(b, x->fd->type, e->val);
        putVarint(o, ((u64)x->tag << 3) | 2); putVarint(o, b.size()); o += b; break;
      }
    }
  }
  static string content(const Node *m) { string o; for (auto *x : m->kids) putNode(o, x); return o; }
  static string strBytes(const Node *x) { return x->view ? content(x) : x->bytes; }
  // ---- canonical form: what a reader can observe (independent of the relative
  // order of different fields, except among members of a oneof)
  static void canon(string &o, const Node *m) {
    o += '{';
    for (auto &fd : m->ms->f) {
      bool any = false;
      for (auto *x : m->kids) if (x->alive && x->tag == fd.tag && x->k != N_UNKNOWN) {
        if (x->k == N_PACKED) { for (auto *e : x->kids) if (e->alive) { hdr(o, fd, any); num(o, e->val); } }
        else { hdr(o, fd, any);
          if (x->k == N_SCALAR) num(o, x->val);
          else if (x->k == N_STRING) { string b = strBytes(x); num(o, b.size()); o += b; }
          else canon(o, x); }
      }
    }
    for (int i = 0; i < m->ms->oneofs; i++) {
      pb_tag_t vis = 0;
      for (auto *x : m->kids) if (x->alive && x->fd && x->fd->oneof == i && x->k != N_UNKNOWN) vis = x->tag;
      o += '|'; num(o, vis);
    }
    for (auto *x : m->kids) if (x->alive && x->k == N_UNKNOWN) { o += '?'; num(o, x->bytes.size()); o += x->bytes; }
    o += '}';
  }
  static void hdr(string &o, const FD &fd, bool &any) { if (!any) { o += '#'; num(o, fd.tag); any = true; } o += ','; }
  static void num(string &o, u64 v) { o.append((const char *)&v, 8); }
  static string canon(const Node *m) { string o; canon(o, m); return o; }
  // ---- occurrences
  static void flat(Node *m, vector<Node *> &out, bool aliveOnly) {
    for (auto *x : m->kids) {
      if (x->k == N_UNKNOWN) continue;
      if (x->k == N_PACKED) { for (auto *e : x->kids) if (!aliveOnly || e->alive) out.push_back(e); }
      else if (!aliveOnly || x->alive) out.push_back(x);
    }
  }
  static vector<Node *> occs(Node *m, pb_tag_t tag) {
    vector<Node *> a, r; flat(m, a, true); for (auto *x : a) if (x->tag == tag) r.push_back(x); return r;
  }
  // last occurrence, or null if absent or hidden by a later member of its oneof
  static Node *visible(Node *m, const FD *fd) {
    vector<Node *> a; flat(m, a, true);
    Node *r = nullptr;
    for (auto *x : a) {
      if (x->tag == fd->tag) r = x;
      else if (fd->oneof >= 0 && x->fd->oneof == fd->oneof) r = nullptr;
    }
    return r;
  }
  static void kill(Node *x) {
    x->alive = false;
    for (auto *k : x->kids) killRec(k);
    Node *p = x->parent;
    if (p && p->k == N_PACKED && p->alive) {
      bool any = false; for (auto *e : p->kids) any |= e->alive;
      if (!any) p->alive = false;
    }
  }
  static void killRec(Node *x) { x->alive = false; for (auto *k : x->kids) killRec(k); }
  static void undefRec(Node *x) { x->alive = false; x->undef = true; for (auto *k : x->kids) undefRec(k); }
  // ---- documented placement: behind the last occurrence of the tag, else behind
  // the last known occurrence with a smaller tag, else at the start.
  struct Place { Node *at = nullptr; bool same = false; };
  static Place place(Node *m, pb_tag_t tag) {
    vector<Node *> a; flat(m, a, true); Place p;
    for (auto *x : a) {
      if (x->tag == tag) { p.at = x; p.same = true; }
      else if (!p.same && x->tag < tag) p.at = x;
    }
    return p;
  }
  // members of the oneof of fd (other tags) that writing fd erases
  static vector<Node *> laterMembers(Node *m, const FD *fd) {
    vector<Node *> r; if (fd->oneof < 0) return r;
    Place p = place(m, fd->tag);
    vector<Node *> a; flat(m, a, true);
    bool on = p.at == nullptr;
    for (auto *x : a) {
      if (x == p.at) on = true;
      if (on && x->fd->oneof == fd->oneof && x->tag != fd->tag) r.push_back(x);
    }
    return r;
  }
  // Create a new occurrence (value filled by the caller)
  Node *insert(Node *m, const FD *fd) {
    Place p = place(m, fd->tag);
    for (Node *x : laterMembers(m, fd)) kill(x);
    Node *top = p.at;
    if (top && top->parent->k == N_PACKED) top = top->parent;
    if (fd->packed && p.same && p.at->parent->k == N_PACKED && top->alive) return elem(top, 0);
    size_t i = 0;
    if (top) { while (m->kids[i] != top) i++; i++; }
    while (i < m->kids.size() && !m->kids[i]->alive) i++;   // behind tombstones at the same place
    Node *x;
    if (fd->packed) { Node *c = mk(N_PACKED, m); c->tag = fd->tag; c->fd = fd; m->kids.insert(m->kids.begin() + i, c); x = elem(c, 0); }
    else {
      x = mk(fd->isMsg() ? N_MSG : fd->isStr() ? N_STRING : N_SCALAR, m); x->tag = fd->tag; x->fd = fd;
      if (fd->isMsg()) x->ms = &sc->m[fd->nested];
      m->kids.insert(m->kids.begin() + i, x);
    }
    return x;
  }
};

// ---- random message content as wire bytes (legal for the schema)
struct GenKnobs {
  int maxOcc = 8, depth = 3;
  bool order = true;          // out-of-order fields allowed
  bool unknown = true, mixedPacked = true, dupSingular = true, emptyStr = true; int big = 0, *budget = nullptr;   // budget: occurrences left
  bool viewBytes = false;     // bytes fields hold messages
  bool completeRequired = false;
  bool emptyPacked = false;
};
inline string genMsg(Rng &g, Schema &sc, int mi, const GenKnobs &k, int depth);
inline void genOcc(string &o, Rng &g, Schema &sc, const FD &fd, const GenKnobs &k, int depth) {
  if (fd.isMsg()) {
    string b = depth > 0 ? genMsg(g, sc, fd.nested, k, depth - 1) : (k.completeRequired ? genMsg(g, sc, fd.nested, k, -1) : string());
    putVarint(o, ((u64)fd.tag << 3) | 2); putVarint(o, b.size()); o += b;
  } else if (fd.isStr()) {
    string b = k.viewBytes && fd.type == PB_TYPE_BYTES && g.chance(3, 4) && depth > 0
      ? genMsg(g, sc, (int)(fd.tag % sc.m.size()), k, depth - 1) : genStr(g, k.emptyStr, k.big);
    putVarint(o, ((u64)fd.tag << 3) | 2); putVarint(o, b.size()); o += b;
  } else {
    bool pk = fd.repeated() && (k.mixedPacked ? g.chance(1, 2) : fd.packed);
    if (pk) {
      string b; int n = g.range(k.emptyPacked && g.chance(1, 6) ? 0 : 1, 4); if (k.emptyPacked && g.chance(1, 10)) n = 0;
      if (k.big > 1 && g.chance(1, 3)) n = g.chance(1, 3) ? g.range(1000, 9000) : g.range(60, 140);
      for (int i = 0; i < n; i++) putScalar(b, fd.type, genNum(g, fd.type));
      putVarint(o, ((u64)fd.tag << 3) | 2); putVarint(o, b.size()); o += b;
    } else { putVarint(o, ((u64)fd.tag << 3) | wiretype_of(fd.type)); putScalar(o, fd.type, genNum(g, fd.type)); }
  }
}
inline void genUnknown(string &o, Rng &g, const MsgS &s) {
  pb_tag_t t; do t = 1 + (pb_tag_t)g.below(g.chance(1, 4) ? 60000 : 60); while ([&] { for (auto &x : s.f) if (x.tag == t) return true; return false; }());
  // tags that differ from a known one in the higher bits only
  if (t >= 100 && t % 5 == 0 && s.f.size()) { static const int far[] = { 8, 16, 24, 28 }; pb_tag_t a = s.f[t / 5 % s.f.size()].tag + (1u << far[t / 5 / s.f.size() % 4]); if (a < 1u << 29 && !s.anyTag(a) && (a < 19000 || a >= 20000)) t = a; }
  static const int wts[4] = { 0, 1, 2, 5 }; int wt = wts[g.range(0, 3)];
  putVarint(o, ((u64)t << 3) | wt);
  if (wt == 0) putVarint(o, g.chance(1, 2) ? g.below(1000) : g.next());
  else if (wt == 1) { u64 v = g.next(); o.append((const char *)&v, 8); }
  else if (wt == 5) { u32 v = (u32)g.next(); o.append((const char *)&v, 4); }
  else { string b = genStr(g, true, false); putVarint(o, b.size()); o += b; }
}
inline string genMsg(Rng &g, Schema &sc, int mi, const GenKnobs &k, int depth) {
  const MsgS &s = sc.m[mi];
  vector<string> parts;
  vector<pb_tag_t> tags;
  int n = depth < 0 ? 0 : g.range(k.budget ? 1 : 0, k.maxOcc);
  if (k.budget) { n = std::min(n, *k.budget); *k.budget -= n; }
  std::unordered_set<u32> seen;
  for (int i = 0; i < n; i++) {
    if (k.unknown && g.chance(1, 8)) { string o; genUnknown(o, g, s); parts.push_back(o); tags.push_back(0); continue; }
    const FD &fd = s.f[g.below(s.f.size())];
    if (!fd.repeated() && !k.dupSingular && seen.count(fd.tag)) continue;
    seen.insert(fd.tag);
    string o; genOcc(o, g, sc, fd, k, depth); parts.push_back(o); tags.push_back(fd.tag);
  }
  if (k.completeRequired && depth > -6) for (auto &fd : s.f) if (fd.label == PB_LABEL_REQUIRED && !seen.count(fd.tag)) {
    if (fd.isMsg() && depth <= -4) continue;
    string o;
    if (fd.isMsg()) { string b = genMsg(g, sc, fd.nested, k, depth > 0 ? 0 : depth - 1); putVarint(o, ((u64)fd.tag << 3) | 2); putVarint(o, b.size()); o += b; }
    else genOcc(o, g, sc, fd, k, 0);
    parts.push_back(o); tags.push_back(fd.tag);
  }
  bool sorted = !k.order || g.chance(1, 3);
  vector<size_t> ix(parts.size()); for (size_t i = 0; i < ix.size(); i++) ix[i] = i;
  if (sorted) std::stable_sort(ix.begin(), ix.end(), [&](size_t a, size_t b) { return tags[a] < tags[b]; });
  else for (size_t i = ix.size(); i > 1; i--) std::swap(ix[i - 1], ix[g.below(i)]);
  string o; for (size_t i : ix) o += parts[i];
  return o;
}
