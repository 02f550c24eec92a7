/* forced include of the library: memory and mapping requests of the utility stack go to the explorer */
extern void *verif_malloc2(unsigned long size, void *data);
extern void verif_free2(void *ptr, void *data);
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
#define SLJIT_MALLOC(size, allocator_data) verif_malloc2((unsigned long)(size), (allocator_data))
#define SLJIT_FREE(ptr, allocator_data) verif_free2((ptr), (allocator_data))
extern void *verif_mmap(void *a, unsigned long len, int prot, int flags, int fd, long off);
extern int verif_munmap(void *a, unsigned long len);
extern int verif_madvise(void *a, unsigned long len, int advice);
extern long verif_sysconf(int name);
#define mmap(a, l, p, f, d, o) verif_mmap((a), (l), (p), (f), (d), (long)(o))
#define munmap(a, l) verif_munmap((a), (l))
#define madvise(a, l, v) verif_madvise((a), (l), (v))
#define posix_madvise(a, l, v) verif_madvise((a), (l), (v))
#define sysconf(n) verif_sysconf(n)
