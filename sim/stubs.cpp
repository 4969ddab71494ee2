#include "core.hpp"
const char *jsim_kind(u32 k); const char *dec_kind(u32 k); const char *enc_kind(u32 k); const char *val_kind(u32 k); const char *buf_kind(u32 k); const char *desc_kind(u32 k); const char *chunk_kind(u32 k);
const char *op_name(const string &p, u32 k) {
  if (p == "P16") return dec_kind(k);
  if (p == "P17") return enc_kind(k);
  if (p == "P18") return val_kind(k);
  if (p == "P12") return buf_kind(k);
  if (p == "P29") return desc_kind(k);
  if (p == "P19") return chunk_kind(k);
  return jsim_kind(k);
}
