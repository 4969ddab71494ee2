// Argument values, exactly sized, and damage of byte strings.
#pragma once
#include "wire.hpp"

struct Val {
  u64 n = 0; string s; void *p = nullptr; pb_string_t str; vector<void *> mem;
  Val() {}
  Val(const Val &) = delete;
  ~Val() { for (void *x : mem) free(x); }
  // exact-size copies, so that the sanitizer sees every access beyond them
  void arm(const FD &fd) {
    if (fd.isStr()) {
      u8 *d = (u8 *)malloc(s.size() ? s.size() : 1); memcpy(d, s.data(), s.size()); mem.push_back(d);
      str.data = d; str.size = s.size(); p = &str;
    } else { u8 *d = (u8 *)malloc(native_size(fd.type)); memcpy(d, &n, native_size(fd.type)); mem.push_back(d); p = d; }
  }
};
struct Exact {           // exactly sized copy of bytes
  u8 *p; size_t n;
  explicit Exact(const string &s) : n(s.size()) { p = (u8 *)malloc(n ? n : 1); memcpy(p, s.data(), n); }
  Exact(const Exact &) = delete;
  ~Exact() { free(p); }
  bool same(const string &s) const { return n == s.size() && !memcmp(p, s.data(), n); }
};

enum { DAMAGES = 10 };
static const char *const damage_name[DAMAGES] = { "cut", "bit_flip", "byte_set", "insert", "delete", "duplicate_range", "swap_ranges", "varint_run", "random_bytes", "hostile_length" };
// positions of everything that reads as a length prefix
inline void lengthAt(const string &b, size_t o, size_t end, int depth, vector<std::pair<size_t, size_t>> &out) {
  auto rd = [&](u64 &v) { v = 0; for (int i = 0; i < 10; i++) { if (o >= end) return false; u8 c = (u8)b[o++]; v |= (u64)(c & 0x7f) << (7 * i); if (!(c & 0x80)) return true; } return false; };
  while (o < end) {
    u64 t, v; if (!rd(t)) return;
    switch (t & 7) {
      case 0: if (!rd(v)) return; break;
      case 1: o += 8; break;
      case 5: o += 4; break;
      case 2: { size_t at = o; if (!rd(v)) return; out.push_back({ at, o - at }); if (v > end - o) return; if (depth) lengthAt(b, o, o + v, depth - 1, out); o += v; break; }
      default: return;
    }
  }
}
inline int damage(Rng &g, string &b) {
  int k = g.range(0, DAMAGES - 1);
  if (b.empty() && k != 3 && k != 8) k = 3;
  vector<std::pair<size_t, size_t>> lens;
  if (k == 9) { lengthAt(b, 0, b.size(), 3, lens); if (lens.empty()) k = 1; }
  size_t n = b.size(), i = n ? g.below(n) : 0;
  static const u8 nasty[] = { 0x00, 0x01, 0x7f, 0x80, 0xff, 0x0a, 0x0b, 0x0f, 0x08, 0x12, 0xfe };
  auto byte = [&]() -> char { return (char)(g.chance(1, 2) ? nasty[g.below(sizeof nasty)] : g.next()); };
  switch (k) {
    case 0: b.resize(i); break;
    case 1: b[i] ^= (char)(1 << g.below(8)); break;
    case 2: b[i] = byte(); break;
    case 3: { string x; for (int j = g.range(1, 4); j; j--) x += byte(); b.insert(g.below(n + 1), x); break; }
    case 4: b.erase(i, g.range(1, 3)); break;
    case 5: { string x = b.substr(i, g.range(1, 12)); b.insert(g.below(n + 1), x); break; }
    case 6: { size_t j = g.below(n), l = g.range(1, 6); string x = b.substr(i, l), y = b.substr(j, l); b.replace(i, x.size(), y); if (j < b.size()) b.replace(j, std::min(y.size(), b.size() - j), x); break; }
    case 7: for (int j = g.range(1, 12); j && i < b.size(); j--, i++) b[i] |= (char)0x80; break;
    case 9: {
      auto l = lens[g.below(lens.size())]; u64 left = b.size() - l.first - l.second, v;
      switch (g.below(6)) {
        case 0: v = 0xFFFFFFFFull - g.below(8); break;
        case 1: v = 0x80000000ull + g.below(3) - 1; break;
        case 2: v = left + g.below(3) - 1; break;
        case 3: v = 0xFFFFFFFFull - g.below(b.size() + 16); break;
        case 4: v = g.below(left + 2); break;
        default: v = 0x7FFFFFFFull - g.below(b.size() + 8); break;
      }
      string x; v &= 0xFFFFFFFFull; do { x += (char)((v & 0x7f) | (v > 127 ? 0x80 : 0)); v >>= 7; } while (v);
      b.replace(l.first, l.second, x); break;
    }
    default: { b.clear(); for (int j = g.range(0, 40); j; j--) b += byte(); break; }
  }
  return k;
}
