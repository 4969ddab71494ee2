/* C access to the functions of the library that its public headers do not
 * declare. Compiled as C against /repo/src, called from the C++ simulator. */
#ifndef SIM_SHIM_H
#define SIM_SHIM_H
#include <stddef.h>
#include <stdint.h>
#include <protobluff.h>
#ifdef __cplusplus
extern "C" {
#endif
size_t     shim_journal_version(const pb_journal_t *j);
pb_error_t shim_journal_write(pb_journal_t *j, size_t origin, size_t start, size_t end, const uint8_t *d, size_t n);
pb_error_t shim_journal_clear(pb_journal_t *j, size_t origin, size_t start, size_t end);
pb_error_t shim_buffer_write(pb_buffer_t *b, size_t start, size_t end, const uint8_t *d, size_t n);
pb_error_t shim_buffer_clear(pb_buffer_t *b, size_t start, size_t end);
size_t     shim_journal_log(const pb_journal_t *j, const void **d);   /* the bytes of the edit log */
uint8_t   *shim_buffer_grow(pb_buffer_t *b, size_t n);
pb_allocator_t *shim_default_allocator(void);

/* Seam for the system allocator: the library objects call these instead of
 * malloc/calloc/realloc/free (objcopy --redefine-sym). */
void *sim_malloc(size_t n);
void *sim_calloc(size_t n, size_t m);
void *sim_realloc(void *p, size_t n);
void  sim_free(void *p);
#ifdef __cplusplus
}
#endif
#endif
