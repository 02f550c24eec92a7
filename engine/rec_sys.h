/* forced include of the library: the system calls of the memory managers go to the explorer */
#include "rec_mem.h"
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/mman.h>
extern void *verif_mmap(void *a, unsigned long len, int prot, int flags, int fd, long off);
extern int verif_munmap(void *a, unsigned long len);
extern int verif_mprotect(void *a, unsigned long len, int prot);
extern int verif_open(const char *path, int flags, int mode);
extern int verif_mkostemp(char *t, int flags);
extern int verif_ftruncate(int fd, long len);
extern int verif_close(int fd);
extern int verif_unlink(const char *path);
#define mmap(a, l, p, f, d, o) verif_mmap((a), (l), (p), (f), (d), (long)(o))
#define munmap(a, l) verif_munmap((a), (l))
#define mprotect(a, l, p) verif_mprotect((a), (l), (p))
#define open(p, f, ...) verif_open((p), (f), 0)
#define mkostemp verif_mkostemp
#define ftruncate(d, l) verif_ftruncate((d), (long)(l))
#define close(d) verif_close(d)
#define unlink(p) verif_unlink(p)
