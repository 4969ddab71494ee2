/* Table of everything a generated header offers for one schema. The table is
 * written by the simulator from its own schema (bind.hpp) and compiled
 * together with the generated bindings; it only names what a user of the
 * schema would write. */
#ifndef SIM_BIND_H
#define SIM_BIND_H
#include <protobluff.h>
typedef struct {
  int number; long long constant;
  int (*has)(pb_message_t *);
  pb_error_t (*put)(pb_message_t *);
  pb_error_t (*encode)(pb_encoder_t *);
} bind_value_t;
typedef struct {
  const pb_tag_t *path; size_t depth;      /* depth 1: a field of the message itself */
  pb_tag_t constant;
  int (*has)(pb_message_t *);
  pb_error_t (*get)(pb_message_t *, void *);
  pb_error_t (*put)(pb_message_t *, const void *);
  pb_error_t (*erase)(pb_message_t *);
  pb_message_t (*create)(pb_message_t *);
  pb_cursor_t (*cursor)(pb_message_t *);
  pb_error_t (*encode)(pb_encoder_t *, const void *, size_t);
  const bind_value_t *values; size_t count;
} bind_field_t;
typedef struct {
  const pb_oneof_descriptor_t *descriptor;
  pb_tag_t (*which)(pb_message_t *);
} bind_oneof_t;
typedef struct { const pb_enum_descriptor_t *descriptor; } bind_enum_t;
typedef struct {
  pb_descriptor_t *descriptor;
  pb_message_t (*create)(pb_journal_t *);
  void (*destroy)(pb_message_t *);
  pb_decoder_t (*decoder)(const pb_buffer_t *);
  pb_error_t (*decode)(pb_decoder_t *, pb_decoder_handler_f, void *);
  void (*decoder_destroy)(pb_decoder_t *);
  pb_encoder_t (*encoder)(void);
  pb_encoder_t (*encoder_with_allocator)(pb_allocator_t *);
  void (*encoder_destroy)(pb_encoder_t *);
  const bind_field_t *field; size_t fields;
  const bind_oneof_t *oneof; size_t oneofs;
} bind_message_t;
typedef struct {
  const bind_message_t *message; size_t messages;
  const bind_enum_t *enumeration; size_t enumerations;
} bind_table_t;
#endif
