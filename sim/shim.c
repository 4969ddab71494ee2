#include <stdlib.h>
#include "core/allocator.h"
#include "core/buffer.h"
#include "message/buffer.h"
#include "message/journal.h"
#include "shim.h"
size_t shim_journal_version(const pb_journal_t *j) { return pb_journal_version(j); }
pb_error_t shim_journal_write(pb_journal_t *j, size_t o, size_t s, size_t e, const uint8_t *d, size_t n) { return pb_journal_write(j, o, s, e, d, n); }
pb_error_t shim_journal_clear(pb_journal_t *j, size_t o, size_t s, size_t e) { return pb_journal_clear(j, o, s, e); }
pb_error_t shim_buffer_write(pb_buffer_t *b, size_t s, size_t e, const uint8_t *d, size_t n) { return pb_buffer_write(b, s, e, d, n); }
pb_error_t shim_buffer_clear(pb_buffer_t *b, size_t s, size_t e) { return pb_buffer_clear(b, s, e); }
uint8_t *shim_buffer_grow(pb_buffer_t *b, size_t n) { return pb_buffer_grow(b, n); }
pb_allocator_t *shim_default_allocator(void) { return &allocator_default; }
size_t shim_journal_log(const pb_journal_t *j, const void **d) { *d = j->entry.data; return j->entry.size * sizeof(pb_journal_entry_t); }
