/* drives allocators/mempool */
#include "blocks.h"
#include "allocators/mempool/mempool.h"
static struct HarbolMemPool M; static bool ok; static uint8_t *low; static size_t total;
static void drop(void) { if( ok ) harbol_mempool_clear(&M); ok = false; memset(S, 0, sizeof S); }
static void project(void) { J_sz("rem", ok? harbol_mempool_mem_remaining(&M) : 0); put_vals(); J_int("heap", drv_live); }
static void drv_dispatch(void) {
	char const *op = t_word(0); int64_t s = t_int(1);
	if( t_is(0, "reset") || (t_is(0, "clear") && ok) ) { drop(); ev_begin(op); project(); ev_end(); return; }
	if( t_is(0, "dead") && !ok ) {               /* without a store: cleared, never made, or not made for want of memory */
		static uint64_t other[8]; void *q = other + 5; other[2] = 32;
		harbol_mempool_clear(&M);
		ev_begin(op); J_int("got", (harbol_mempool_mem_remaining(&M) != 0) + 2 * (harbol_mempool_alloc(&M, 1) != NULL) + 4 * harbol_mempool_free(&M, other + 5)
			+ 8 * harbol_mempool_cleanup(&M, &q) + 16 * (harbol_mempool_realloc(&M, NULL, 8) != NULL) + 32 * (harbol_mempool_realloc(&M, other + 5, 8) != NULL)); project(); ev_end(); return;
	}
	bool none = t_is(0, "clear") || t_is(0, "dead") || (t_is(0, "make")? ok : !ok) || (t_is(0, "alloc") && (!slot_ok(s) || S[s].p)) || (t_is(0, "realloc") && !slot_ok(s))
		|| ((t_is(0, "write") || t_is(0, "free") || t_is(0, "cleanup")) && (!slot_ok(s) || !S[s].p));
	ev_begin(none? "none" : op);
	if( none ) ;
	else if( t_is(0, "make") ) {                 /* make BUF SIZE */
		size_t n = t_sz(2); void *b = NULL; bool r = false, buf = t_int(1) && n && n < 1000000;
		memset(&M, 0, sizeof M);
		if( buf ) { b = store(n); if( n & 8 ) r = harbol_mempool_init_from_buffer(&M, b, n); else M = harbol_mempool_make_from_buffer(b, n, &r); if( !r ) free(b); }
		else if( n % 2 ) r = harbol_mempool_init(&M, n);
		else M = harbol_mempool_make(n, &r);
		ok = r; low = M.stack.mem; total = n; J_sz("n", n); J_bool("buf", buf); J_bool("r", r);
	} else if( t_is(0, "alloc") || t_is(0, "realloc") ) {
		size_t n = t_sz(2); bool re = t_is(0, "realloc"); size_t was = S[s].p? S[s].n : 0; int val = S[s].p? S[s].p[0] : 0;
		uint8_t *p = re? harbol_mempool_realloc(&M, S[s].p, n) : harbol_mempool_alloc(&M, n);
		J_int("s", s); J_sz("n", n); J_bool("r", p != NULL); J_int("off", p? p - low : 0);
		if( p ) {
			if( re && was ) { size_t k = was < n? was : n; J_int("pre", uniform(p, k)); memset(p, val, n); }
			S[s].p = p; S[s].n = n;
		}
	} else if( t_is(0, "write") ) { memset(S[s].p, (int)t_int(2), S[s].n); J_int("s", s); J_int("v", t_int(2));
	} else if( t_is(0, "free") ) { bool r = harbol_mempool_free(&M, S[s].p); S[s].p = NULL; J_int("s", s); J_bool("r", r);
	} else if( t_is(0, "cleanup") ) { void *p = S[s].p; bool r = harbol_mempool_cleanup(&M, &p); S[s].p = NULL; J_int("s", s); J_bool("r", r); J_bool("null", p==NULL);
	} else if( t_is(0, "foreign") ) {
		static uint64_t other[64]; void *p = NULL; int64_t k = t_int(1);
		switch( k ) {
			case 0: p = NULL; break;
			case 1: memset(other, 64, sizeof other); p = other + 32; break;
			case 2: p = low; break;
			case 3: p = low + total + 4096; break;
			case 4: p = low + 16; break;
			default: other[29] = 48; p = other + 32;
		}
		bool done = harbol_mempool_free(&M, p);
		void *q = p; done = done || harbol_mempool_cleanup(&M, &q);
		if( p ) done = done || harbol_mempool_realloc(&M, p, 8) != NULL;
		J_int("k", k); J_bool("refused", !done);
	}
	project(); ev_end();
}
