/* drives allocators/region */
#include "blocks.h"
#include "allocators/region/region.h"
static struct HarbolRegion R; static bool ok;
static void drop(void) { if( ok ) harbol_region_clear(&R); ok = false; memset(S, 0, sizeof S); }
static void project(void) {
	J_bool("exists", ok && R.mem != NULL); J_sz("rem", ok? harbol_region_remaining(&R) : 0); put_vals(); J_int("heap", drv_live);
}
static void drv_dispatch(void) {
	char const *op = t_word(0); int64_t s = t_int(1);
	if( t_is(0, "reset") || (t_is(0, "clear") && ok) ) { drop(); ev_begin(op); project(); ev_end(); return; }
	if( t_is(0, "dead") && !ok ) {               /* a region without a store: cleared, never made, or not made for want of memory */
		harbol_region_clear(&R); ev_begin(op); J_int("got", (harbol_region_remaining(&R) != 0) + 2 * (harbol_region_alloc(&R, 1) != NULL) + 4 * (harbol_region_alloc(&R, 0) != NULL)); project(); ev_end(); return;
	}
	bool none = t_is(0, "clear") || t_is(0, "dead") || (t_is(0, "make")? ok : !ok) || (t_is(0, "alloc") && (!slot_ok(s) || S[s].p)) || (t_is(0, "write") && (!slot_ok(s) || !S[s].p));
	ev_begin(none? "none" : op);
	if( none ) ;
	else if( t_is(0, "make") ) {                 /* make BUF SIZE */
		size_t n = t_sz(2); void *b = NULL;
		static uint64_t nothing[2];
		if( t_int(1) && n && (b = store(n)) ) R = harbol_region_make_from_buffer(b, n);
		else if( t_int(1) && n==0 ) { R = harbol_region_make_from_buffer(nothing, 0); if( R.mem==(uint8_t*)nothing ) R.mem = NULL; }
		else R = harbol_region_make(n);
		ok = R.mem != NULL; J_sz("n", n);
	} else if( t_is(0, "alloc") ) {              /* alloc SLOT N */
		size_t n = t_sz(2); uint8_t *p = harbol_region_alloc(&R, n);
		J_int("s", s); J_sz("n", n); J_bool("r", p != NULL); J_int("off", p? p - R.mem : 0);
		if( p ) { S[s].p = p; S[s].n = n; if( (uintptr_t)p % 8 ) J_bool("misaligned", true); }
	} else if( t_is(0, "write") ) { memset(S[s].p, (int)t_int(2), S[s].n); J_int("s", s); J_int("v", t_int(2)); }
	project(); ev_end();
}
