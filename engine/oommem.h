/* memory and system requests which can be denied one by one; every block has canaries and is counted */
#ifndef OOMMEM_H
#define OOMMEM_H
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
typedef struct blk { struct blk *next, *prev; unsigned long size; u64 magic; } blk_t;
static blk_t g_blk = { &g_blk, &g_blk, 0, 0 };
static long g_live, g_maps, g_fds;          /* blocks, mapped bytes, descriptors in use */
static u64 g_req, g_deny = ~(u64)0; static int g_forever, g_denied, g_deniedk, g_kinds[8]; /* kind of the first denied request */
enum { K_MALLOC = 1, K_MAP, K_OPEN, K_TRUNC };
static const char *g_memerr;
static void *g_ald[2]; /* what the caller gave as data of his allocators */
void verif_data(void *d, int exec) { if (d != g_ald[exec]) g_memerr = exec ? "the executable allocator does not get the caller's data" : "the allocator does not get the caller's data"; }
static int denied(int kind)
{
	u64 k = g_req++; g_kinds[kind]++;
	if (!(g_forever ? k >= g_deny : k == g_deny)) return 0;
	if (!g_denied++) g_deniedk = kind;
	return 1;
}
#define CAN(b) ((u8 *)((b) + 1) + (b)->size)
static int blk_ok(blk_t *b) { int i; if (b->magic != 0x5a5ac3c3a5a53c3cull) return 0; for (i = 0; i < 32; i++) if (CAN(b)[i] != 0xc7) return 0; return 1; }
void *verif_malloc(unsigned long size)
{
	blk_t *b; if (denied(K_MALLOC)) return NULL;
	b = malloc(sizeof(blk_t) + size + 32); if (!b) die("malloc");
	b->size = size; b->magic = 0x5a5ac3c3a5a53c3cull; memset(b + 1, 0xa5, size); memset(CAN(b), 0xc7, 32); g_live++;
	b->next = g_blk.next; b->prev = &g_blk; g_blk.next->prev = b; g_blk.next = b;
	return b + 1;
}
void verif_free(void *p)
{
	blk_t *b = (blk_t *)p - 1, *x; if (!p) return;
	for (x = g_blk.next; x != &g_blk && x != b; x = x->next);
	if (x != b) { g_memerr = "a block which is not allocated is freed"; return; }
	if (!blk_ok(b)) g_memerr = "memory after a block is overwritten";
	b->next->prev = b->prev; b->prev->next = b->next; g_live--; memset(b, 0xdd, sizeof(blk_t) + b->size); free(b);
}
static void blk_check(void) { blk_t *x; for (x = g_blk.next; x != &g_blk; x = x->next) if (!blk_ok(x)) g_memerr = "memory around a block is overwritten"; }
int verif_printf(const char *fmt, ...) { return (int)strlen(fmt); }
void verif_flush(void *a, void *b) { if (a < b) __builtin___clear_cache((char *)a, (char *)b); }
void *verif_mmap(void *a, unsigned long len, int prot, int flags, int fd, long off)
{
	void *p; if (denied(K_MAP)) { errno = ENOMEM; return MAP_FAILED; }
	p = mmap(a, len, prot, flags, fd, off); if (p == MAP_FAILED) die("mmap"); g_maps += (long)((len + 4095) & ~4095ul); return p;
}
int verif_munmap(void *a, unsigned long len) { g_maps -= (long)((len + 4095) & ~4095ul); if (munmap(a, len)) { g_memerr = "munmap fails"; return -1; } return 0; }
int verif_mprotect(void *a, unsigned long len, int prot) { return mprotect(a, len, prot); }
static int tmpfd(void) { char t[] = "/tmp/verifXXXXXX"; int fd = mkstemp(t); if (fd < 0) die("mkstemp"); unlink(t); g_fds++; return fd; }
int verif_open(const char *path, int flags, int mode) { if (denied(K_OPEN)) { errno = ENFILE; return -1; } return tmpfd(); }
int verif_mkostemp(char *t, int flags) { if (denied(K_OPEN)) { errno = ENFILE; return -1; } return tmpfd(); }
int verif_ftruncate(int fd, long len) { if (denied(K_TRUNC)) { errno = ENOSPC; return -1; } return ftruncate(fd, len); }
int verif_close(int fd) { g_fds--; return close(fd); }
int verif_unlink(const char *p) { return 0; }
#endif
