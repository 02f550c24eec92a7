/* memory regions at chosen places, with an optional second (executable) mapping of the same memory */
#ifndef MAPS_H
#define MAPS_H
#include <sys/syscall.h>
static sw g_execoff; static u8 *g_reg; static uw g_regsz, g_pos;
static int g_fd = -1;
/* qemu does not notice writes through another mapping of the same page: its translations are dropped by changing the protection */
static void remap_flush(uw at, uw size)
{
	static uw pg; uw base = (uw)g_reg + (uw)g_execoff, s, e;
	if (!pg) pg = (uw)sysconf(_SC_PAGESIZE);
	s = base + ((at - base) & ~(pg - 1)); e = base + ((at + size - base + pg - 1) & ~(pg - 1));
	munmap((void *)s, e - s);
	if (mmap((void *)s, e - s, PROT_READ | PROT_EXEC, MAP_SHARED | MAP_FIXED, g_fd, (off_t)(s - base)) == MAP_FAILED) die("remap");
}
/* region with the requested place; off: distance of a second, executable mapping of the same memory */
static int region(uw at, uw size, sw off)
{
	void *m, *x; int fd;
	if (g_reg) { munmap(g_reg, g_regsz); if (g_execoff) munmap(g_reg + g_execoff, g_regsz); g_reg = NULL; }
	g_pos = 0; g_regsz = size; g_execoff = 0;
	if (!off) {
		m = mmap((void *)at, size, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
		if (m == MAP_FAILED) return 0; if (at && m != (void *)at) { munmap(m, size); return 0; }
		g_reg = m; return 1;
	}
	fd = (int)syscall(SYS_memfd_create, "v", 0); if (fd < 0) return 0; if (ftruncate(fd, (off_t)size)) { close(fd); return 0; }
	m = mmap((void *)at, size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED_NOREPLACE, fd, 0); x = mmap((void *)(at + (uw)off), size, PROT_READ | PROT_EXEC, MAP_SHARED | MAP_FIXED_NOREPLACE, fd, 0);
	if (g_fd >= 0) close(g_fd); g_fd = fd;
	if (m != (void *)at || x != (void *)(at + (uw)off)) { if (m != MAP_FAILED) munmap(m, size); if (x != MAP_FAILED) munmap(x, size); return 0; }
	g_reg = m; g_execoff = off; return 1;
}
static u8 *map_at(u64 a, uw size)
{
	void *m; if (WB == 4 && (a < 0x10000 || a + size > 0xf0000000ull)) return NULL; if (a < 0x10000) return NULL;
	m = mmap((void *)(uw)a, size, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (m == MAP_FAILED) return NULL; if (m != (void *)(uw)a) { munmap(m, size); return NULL; }
	return m;
}
#endif
