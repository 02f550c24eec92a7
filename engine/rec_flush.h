/* forced include of the library: instruction cache flushes are recorded (and obeyed) by the explorer */
extern void verif_flush(void *from, void *to);
#define SLJIT_CACHE_FLUSH(from, to) verif_flush((void *)(from), (void *)(to))
