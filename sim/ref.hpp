// Reference decoder: what any reader of the wire format delivers.
#pragma once
#include "values.hpp"

// ============================================================ reference decoder
enum Verdict { V_OK, V_ERR, V_AMBIG };
struct Event { int depth; pb_tag_t tag; int type; bool str; u64 val; size_t off; size_t len; };
// Reads what a decoder that follows the wire format delivers. Encodings whose
// meaning the format leaves open (tag 0, integers that do not fit their type,
// lengths and tags of more than 32 bits) end the comparison: V_AMBIG.
struct Ref {
  const string &b; vector<Event> ev; bool missing = false; size_t maxEvents;
  // when set: packed runs of other fields are skipped without looking inside (what a cursor does)
  const FD *only = nullptr;
  explicit Ref(const string &s, size_t mx = 3000000) : b(s), maxEvents(mx) {}
  // 1 ok, 0 malformed, -1 open
  static int varint(const u8 *p, size_t n, size_t &o, u64 &v) {
    v = 0;
    for (int i = 0; i < 10; i++) {
      if (o >= n) return 0;
      u8 c = p[o++];
      if (i == 9 && c > 1) return c & 0x80 ? 0 : -1;
      v |= (u64)(c & 0x7F) << (7 * i);
      if (!(c & 0x80)) { if (i && !c) return -1; return 1; }
    }
    return 0;
  }
  static int u32v(const u8 *p, size_t n, size_t &o, u64 &v) { size_t s = o; int k = varint(p, n, o, v); if (k == 1 && v > 0xFFFFFFFFull) k = -1; if (k != 1 && o - s > 5) k = -1; return k; }
  static int scalar(pb_type_t t, const u8 *p, size_t n, size_t &o, u64 &v) {
    v = 0;
    switch (wiretype_of(t)) {
      case 1: if (n - o < 8) return 0; memcpy(&v, p + o, 8); o += 8; return 1;
      case 5: { if (n - o < 4) return 0; u32 x; memcpy(&x, p + o, 4); o += 4; v = x; return 1; }
    }
    size_t s = o; int k = varint(p, n, o, v);
    switch (t) {
      case PB_TYPE_UINT32: case PB_TYPE_SINT32: if (k == 1 ? v > 0xFFFFFFFFull : o - s > 5) k = -1; break;
      case PB_TYPE_INT32: case PB_TYPE_ENUM: if (k == 1 && (int64_t)v != (int64_t)(int32_t)v) k = -1; if (k != 1 && o - s > 5) k = k == 1 ? 1 : (o >= n && o - s < 10 ? k : -1); break;
      case PB_TYPE_BOOL: if (k == 1 ? v > 1 : o - s > 1) k = -1; break;
      default: break;
    }
    if (k == 1) v = fromWire(t, v);
    return k;
  }
  static int skip(int wt, const u8 *p, size_t n, size_t &o) {
    u64 v;
    switch (wt) {
      case 0: return varint(p, n, o, v);
      case 1: if (n - o < 8) return 0; o += 8; return 1;
      case 5: if (n - o < 4) return 0; o += 4; return 1;
      case 2: { int k = u32v(p, n, o, v); if (k != 1) return k; if (n - o < v) return 0; o += v; return 1; }
    }
    return 0;
  }
  // recurse(event index): whether the handler decodes the nested message
  Verdict decode(const MsgS *ms, Schema &sc, size_t off, size_t len, int depth, const std::function<bool(size_t)> &recurse) {
    const u8 *p = (const u8 *)b.data() + off; size_t o = 0;
    std::unordered_set<u32> seen;
    while (o < len) {
      if (ev.size() > maxEvents) return V_AMBIG;
      u64 t; int k = u32v(p, len, o, t); if (k != 1) return k ? V_AMBIG : V_ERR;
      int wt = t & 7; pb_tag_t tag = (pb_tag_t)(t >> 3); if (!tag) return V_AMBIG;
      const FD *fd = ms->byTag(tag);
      int fw = fd ? wiretype_of(fd->type) : -1;
      if (!fd || (wt != fw && wt != 2)) { k = skip(wt, p, len, o); if (k != 1) return k ? V_AMBIG : V_ERR; continue; }
      if (wt == 2) {
        u64 l; k = u32v(p, len, o, l); if (k != 1) return k ? V_AMBIG : V_ERR;
        if (len - o < l) return V_ERR;
        size_t q = o; o += l;
        if (fw != 2 && only && only->tag != tag) {
          // a member of a oneof is looked for among all fields, so that a damaged run of any of them may end the search
          if (only->oneof >= 0) { if (fd->oneof == only->oneof) return V_AMBIG; size_t e = 0; while (e < l) { u64 v; if (scalar(fd->type, p + q, l, e, v) != 1) return V_AMBIG; } }
        } else if (fw != 2) {
          size_t e = 0;
          while (e < l) { u64 v; k = scalar(fd->type, p + q, l, e, v); if (k != 1) return k ? V_AMBIG : V_ERR; ev.push_back({ depth, tag, fd->type, false, v, 0, 0 }); seen.insert(tag); }
        } else {
          ev.push_back({ depth, tag, fd->type, true, 0, off + q, (size_t)l }); seen.insert(tag);
          if (fd->isMsg() && recurse(ev.size() - 1)) { Verdict s = decode(&sc.m[fd->nested], sc, off + q, l, depth + 1, recurse); if (s != V_OK) return s; }
        }
      } else {
        u64 v; k = scalar(fd->type, p, len, o, v); if (k != 1) return k ? V_AMBIG : V_ERR;
        ev.push_back({ depth, tag, fd->type, false, v, 0, 0 }); seen.insert(tag);
      }
    }
    for (auto &f : ms->f) if (f.ext <= ms->registered && f.label == PB_LABEL_REQUIRED && !seen.count(f.tag)) missing = true;
    return V_OK;
  }
};
