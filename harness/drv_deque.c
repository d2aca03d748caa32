/* drives deque/deque.c: one deque of items of `ds` bytes */
#include "drv.h"
#include "deque/deque.h"
static struct HarbolDeque A, *D;
static bool heap_obj;
static size_t ds = 1;
/* a value is spread over all bytes, or held by one byte only (the last, first or middle one) */
static size_t at = SIZE_MAX;
static uint8_t byte_of(size_t k, int v) { return (uint8_t)((at==SIZE_MAX || at==k? v : 0x5A) + k*37); }
static void enc(uint8_t *b, int v) { for( size_t k=0; k < ds; k++ ) b[k] = byte_of(k, v); }
static int dec(uint8_t const *b) {
	if( b==NULL ) return -998;
	size_t const p = at==SIZE_MAX? 0 : at; int const v = (uint8_t)(b[p] - p*37);
	for( size_t k=0; k < ds; k++ ) if( b[k] != byte_of(k, v) ) return -999;
	return v;
}
static void place(int mode) { at = mode==1? ds - 1 : mode==2? 0 : mode==3? ds / 2 : SIZE_MAX; }
static void project(void) {
	size_t n = D? harbol_deque_count(D) : 0;
	J_bool("exists", D != NULL);
	J_sz("count", n);
	J_bool("empty", D? harbol_deque_empty(D) : true);
	size_t bound = n > 5000? 0 : n + 3, k = 0;
	/* forward walk: handles and values; backward walk: handles */
	J_key("fh"); fputc('[', drv_out);
	size_t h = D? harbol_deque_head(D) : SIZE_MAX;
	for( k=0; h != SIZE_MAX && k < bound; k++, h = harbol_deque_next(D, h) ) fprintf(drv_out, "%s%zu", k? "," : "", h);
	fputc(']', drv_out);
	J_key("fv"); fputc('[', drv_out);
	h = D? harbol_deque_head(D) : SIZE_MAX;
	for( k=0; h != SIZE_MAX && k < bound; k++, h = harbol_deque_next(D, h) ) fprintf(drv_out, "%s%d", k? "," : "", dec(harbol_deque_get_data(D, h)));
	fputc(']', drv_out);
	J_key("bh"); fputc('[', drv_out);
	h = D? harbol_deque_tail(D) : SIZE_MAX;
	for( k=0; h != SIZE_MAX && k < bound; k++, h = harbol_deque_prev(D, h) ) fprintf(drv_out, "%s%zu", k? "," : "", h);
	fputc(']', drv_out);
	uint8_t *f = D? harbol_deque_get_front(D) : NULL, *b = D? harbol_deque_get_back(D) : NULL;
	J_int("front", f? dec(f) : -1); J_int("back", b? dec(b) : -1);
	J_bool("oom", drv_failed); J_int("heap", drv_live);
}
static void release(void) {
	if( D==NULL ) return;
	if( heap_obj ) harbol_deque_free(&D); else harbol_deque_clear(D);
	D = NULL;
}
static void drv_dispatch(void) {
	char const *op = t_word(0);
	if( t_is(0, "reset") ) { release(); memset(&A, 0, sizeof A); ds = t_sz(1); place((int)t_int(2)); ev_begin("reset"); project(); ev_end(); return; }
	bool none = D==NULL && !t_is(0, "new") && !t_is(0, "release");
	uint8_t *val = __real_calloc(ds, 1);
	ev_begin(none? "none" : op);
	if( none ) { ;
	} else if( t_is(0, "new") ) {                    /* new KIND N */
		bool r = false; size_t n = t_sz(2); J_sz("n", n);
		if( D==NULL ) {
			if( t_int(1)==0 ) { A = harbol_deque_make(n, &r); if( r ) D = &A; heap_obj = false; }
			else { D = harbol_deque_new(n); r = D != NULL; heap_obj = true; }
		}
		J_bool("r", r);
	} else if( t_is(0, "release") ) { release(); J_bool("r", true);
	} else if( t_is(0, "clear") ) { harbol_deque_clear(D); J_bool("r", true);
	} else if( t_is(0, "rst") ) { harbol_deque_reset(D); J_bool("r", true);
	} else if( t_is(0, "append") || t_is(0, "prepend") ) {
		enc(val, (int)t_int(1)); J_int("v", t_int(1));
		size_t r = op[0]=='a'? harbol_deque_append(D, val, ds) : harbol_deque_prepend(D, val, ds);
		memset(val, 0xEE, ds);
		J_sz("r", r);
	} else if( t_is(0, "pop_front") || t_is(0, "pop_back") ) {
		bool r = op[4]=='f'? harbol_deque_pop_front(D, val, ds) : harbol_deque_pop_back(D, val, ds);
		J_bool("r", r); J_int("v", r? dec(val) : -1);
	} else if( t_is(0, "probe") ) {                  /* a handle that was never given out */
		size_t h = t_sz(1), live = 0;
		if( t_is(1, "-3") ) h = D->cap;          /* the first handle that cannot exist yet */
		for( size_t k=0; k < D->cap + 2; k++ ) live += harbol_deque_get_data(D, k) != NULL;
		J_sz("live", live);
		J_bool("data", harbol_deque_get_data(D, h) != NULL);
		J_sz("next", harbol_deque_next(D, h)); J_sz("prev", harbol_deque_prev(D, h));
	} else J_str("unknown", op);
	project(); ev_end(); __real_free(val);
}
