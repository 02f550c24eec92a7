/* forced include of the library: memory requests, diagnostics to stdout and instruction cache flushes go to the explorer */
extern void *verif_malloc(unsigned long size);
extern void verif_free(void *ptr);
extern int verif_printf(const char *fmt, ...);
extern void verif_flush(void *from, void *to);
#include <stdio.h>
#include <stdlib.h>
#ifdef VERIF_ALD /* the data of the caller's allocators is observed as well */
extern void verif_data(void *data, int exec);
#define SLJIT_MALLOC(size, allocator_data) (verif_data((void *)(allocator_data), 0), verif_malloc(size))
#define SLJIT_FREE(ptr, allocator_data) (verif_data((void *)(allocator_data), 0), verif_free(ptr))
#define SLJIT_MALLOC_EXEC(size, exec_allocator_data) (verif_data((void *)(exec_allocator_data), 1), SLJIT_BUILTIN_MALLOC_EXEC((size), (exec_allocator_data)))
#define SLJIT_FREE_EXEC(ptr, exec_allocator_data) (verif_data((void *)(exec_allocator_data), 1), SLJIT_BUILTIN_FREE_EXEC((ptr), (exec_allocator_data)))
#else
#define SLJIT_MALLOC(size, allocator_data) ((void)(allocator_data), verif_malloc(size))
#define SLJIT_FREE(ptr, allocator_data) ((void)(allocator_data), verif_free(ptr))
#endif
#define SLJIT_CACHE_FLUSH(from, to) verif_flush((void *)(from), (void *)(to))
#define printf(...) verif_printf(__VA_ARGS__)
