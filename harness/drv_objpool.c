/* drives allocators/objpool */
#include "blocks.h"
#include "allocators/objpool/objpool.h"
static struct HarbolObjPool P; static bool ok; static size_t osize; static uint8_t *low;
static void drop(void) { if( ok ) harbol_objpool_clear(&P); ok = false; memset(S, 0, sizeof S); }
static void project(void) { J_sz("avail", ok? P.free_blocks : 0); put_vals(); J_int("heap", drv_live); }
static void drv_dispatch(void) {
	char const *op = t_word(0); int64_t s = t_int(1);
	if( t_is(0, "reset") || (t_is(0, "clear") && ok) ) { drop(); ev_begin(op); project(); ev_end(); return; }
	if( t_is(0, "dead") && !ok ) {               /* without a store: cleared, never made, or not made for want of memory */
		static uint64_t other[4]; void *q = other + 1;
		harbol_objpool_clear(&P); harbol_objpool_free(&P, other); harbol_objpool_cleanup(&P, &q); harbol_objpool_free(&P, low);
		ev_begin(op); J_int("got", (harbol_objpool_alloc(&P) != NULL) + 2 * (harbol_objpool_alloc(&P) != NULL)); project(); ev_end(); return;
	}
	bool none = t_is(0, "clear") || t_is(0, "dead") || (t_is(0, "make")? ok : !ok) || (t_is(0, "alloc") && (!slot_ok(s) || S[s].p))
		|| ((t_is(0, "write") || t_is(0, "free") || t_is(0, "cleanup")) && (!slot_ok(s) || !S[s].p));
	ev_begin(none? "none" : op);
	if( none ) ;
	else if( t_is(0, "make") ) {                 /* make BUF COUNT OBJSIZE */
		size_t n = t_sz(2), m = t_sz(3); void *b = NULL; bool r = false, buf = t_int(1) && n && m && n < 1000 && m < 1000;
		memset(&P, 0, sizeof P);
		if( buf ) { b = store(n * m); if( m & 16 ) r = harbol_objpool_init_from_buffer(&P, b, m, n); else P = harbol_objpool_from_buffer(b, m, n, &r); if( !r ) free(b); }
		else if( n % 2 ) r = harbol_objpool_init(&P, m, n);
		else P = harbol_objpool_make(m, n, &r);
		ok = r; osize = m; low = (uint8_t*)P.mem; J_sz("n", n); J_sz("m", m); J_bool("buf", buf); J_bool("r", r);
	} else if( t_is(0, "alloc") ) {
		uint8_t *p = harbol_objpool_alloc(&P);
		J_int("s", s); J_bool("r", p != NULL); J_int("off", p? p - low : 0);
		if( p ) { S[s].p = p; S[s].n = osize; }
	} else if( t_is(0, "write") ) { memset(S[s].p, (int)t_int(2), S[s].n); J_int("s", s); J_int("v", t_int(2));
	} else if( t_is(0, "free") ) { harbol_objpool_free(&P, S[s].p); S[s].p = NULL; J_int("s", s);
	} else if( t_is(0, "cleanup") ) { void *p = S[s].p; harbol_objpool_cleanup(&P, &p); S[s].p = NULL; J_int("s", s); J_bool("null", p==NULL);
	} else if( t_is(0, "foreign") ) {            /* free what is not a cell */
		static uint64_t other[64]; size_t total = P.size * P.objsize; void *p = NULL; int64_t k = t_int(1);
		switch( k ) {
			case 0: p = NULL; break;
			case 1: p = other; break;
			case 2: p = low - 8; break;
			case 3: p = low + total; break;
			case 4: p = low + total + 8 * P.objsize; break;
			default: {                          /* inside a live cell */
				int t = 1; while( t <= NSLOT && !S[t].p ) t++;
				p = t <= NSLOT? S[t].p + (k==5? 1 : P.objsize > 8? 8 : 4) : NULL;
			}
		}
		if( k & 1 && p ) { void *q = p; harbol_objpool_cleanup(&P, &q); } else harbol_objpool_free(&P, p);
		J_int("k", k);
	}
	project(); ev_end();
}
