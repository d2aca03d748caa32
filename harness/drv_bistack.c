/* drives allocators/bistack */
#include "blocks.h"
#include "allocators/bistack/bistack.h"
static struct HarbolBiStack B; static bool ok; static char side[NSLOT + 1];
static void drop(void) { if( ok ) harbol_bistack_clear(&B); ok = false; memset(S, 0, sizeof S); }
static void project(void) { J_sz("margin", ok? harbol_bistack_get_margins(B) : 0); put_vals(); J_int("heap", drv_live); }
static void giveup(char c) { for( int s=1; s <= NSLOT; s++ ) if( S[s].p && (c=='a' || side[s]==c) ) S[s].p = NULL; }
static void drv_dispatch(void) {
	char const *op = t_word(0);
	if( t_is(0, "reset") || (t_is(0, "clear") && ok) ) { drop(); ev_begin(op); project(); ev_end(); return; }
	int64_t s = t_int(t_is(0, "alloc")? 2 : 1);
	if( t_is(0, "dead") && !ok ) {               /* without a store: cleared, never made, or not made for want of memory */
		harbol_bistack_clear(&B); harbol_bistack_reset_front(&B); harbol_bistack_reset_back(&B); harbol_bistack_reset_all(&B);
		ev_begin(op); J_int("got", (harbol_bistack_get_margins(B) != 0) + 2 * (harbol_bistack_alloc_front(&B, 1) != NULL) + 4 * (harbol_bistack_alloc_back(&B, 8) != NULL)); project(); ev_end(); return;
	}
	bool none = t_is(0, "clear") || t_is(0, "dead") || (t_is(0, "make")? ok : !ok) || (t_is(0, "alloc") && (!slot_ok(s) || S[s].p)) || (t_is(0, "write") && (!slot_ok(s) || !S[s].p));
	ev_begin(none? "none" : op);
	if( none ) ;
	else if( t_is(0, "make") ) {                 /* make BUF SIZE */
		size_t n = t_sz(2); void *b = NULL; bool r;
		if( t_int(1) && n && (b = store(n)) ) { B = harbol_bistack_make_from_buffer(b, n); r = true; }
		else if( n % 2 ) { memset(&B, 0, sizeof B); r = harbol_bistack_init(&B, n); }
		else B = harbol_bistack_make(n, &r);
		ok = r; J_sz("n", n); J_bool("r", r);
	} else if( t_is(0, "alloc") ) {              /* alloc SIDE SLOT N */
		size_t n = t_sz(3); bool front = t_is(1, "front");
		uint8_t *p = front? harbol_bistack_alloc_front(&B, n) : harbol_bistack_alloc_back(&B, n);
		J_str("side", t_word(1)); J_int("s", s); J_sz("n", n); J_bool("r", p != NULL); J_int("off", p? p - B.mem : 0);
		if( p && n ) { S[s].p = p; S[s].n = n; side[s] = *t_word(1); }
	} else if( t_is(0, "write") ) { memset(S[s].p, (int)t_int(2), S[s].n); J_int("s", s); J_int("v", t_int(2));
	} else if( t_is(0, "giveup") ) {
		J_str("side", t_word(1));
		if( t_is(1, "front") ) harbol_bistack_reset_front(&B); else if( t_is(1, "back") ) harbol_bistack_reset_back(&B); else harbol_bistack_reset_all(&B);
		giveup(*t_word(1));
	} else if( t_is(0, "resize") ) {
		size_t n = t_sz(1); if( n==0 ) n = 8;
		bool r = harbol_bistack_resize(&B, n); J_sz("n", n); J_bool("r", r);
		if( r ) giveup('a');
	}
	project(); ev_end();
}
