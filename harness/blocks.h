/* live blocks of an allocator: slots 1..NSLOT, each filled by its owner with one repeated byte */
#include "drv.h"
#define NSLOT 12
static struct { uint8_t *p; size_t n; } S[NSLOT + 1];
static inline bool slot_ok(int64_t s) { return s >= 1 && s <= NSLOT; }
/* the byte a range consists of, or -1 */
static inline int uniform(uint8_t const *p, size_t n) {
	if( n==0 ) return 0;
	for( size_t i=1; i < n; i++ ) if( p[i] != p[0] ) return -1;
	return p[0];
}
static inline void put_vals(void) {
	J_open("val", '[');
	for( int s=1; s <= NSLOT; s++ ) { J_elem(); drv_first = false; fprintf(drv_out, "%d", S[s].p? uniform(S[s].p, S[s].n) : 0); }
	J_close(']');
	J_bool("oom", drv_failed);
}
/* a store provided by the caller, exactly n bytes, from the interposed malloc (the allocators release it on clear) */
void *__wrap_malloc(size_t);
static inline void *store(size_t n) { long f = drv_fail_at; drv_fail_at = 0; void *b = n > 100000000? NULL : __wrap_malloc(n); drv_fail_at = f; if( b ) memset(b, 0xA5, n); return b; }
