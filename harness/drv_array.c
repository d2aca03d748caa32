/* drives array/array.c: two arrays (objects 1 and 2), item values 0..255 expanded over `ds` bytes */
#include "drv.h"
#include "array/array.h"

static struct HarbolArray A[2], *P[2];    /* P[i]: the object in use (static or heap) or NULL */
static bool   heap_obj[2];
static size_t ds = 1;

/* a value is spread over all bytes, or held by one byte only (the last, first or middle one) */
static size_t at = SIZE_MAX;
static uint8_t byte_of(size_t k, int v) { return (uint8_t)((at==SIZE_MAX || at==k? v : 0x5A) + k*37); }
static void enc(uint8_t *b, int v) { for( size_t k=0; k < ds; k++ ) b[k] = byte_of(k, v); }
static int dec(uint8_t const *b) {
	if( b==NULL ) return -998;
	size_t const p = at==SIZE_MAX? 0 : at; int const v = (uint8_t)(b[p] - p*37);
	for( size_t k=0; k < ds; k++ ) if( b[k] != byte_of(k, v) ) return -999;
	return v;
}
static void place(int mode) { at = mode==1? ds - 1 : mode==2? 0 : mode==3? ds / 2 : SIZE_MAX; }

static void project(void) {
	J_open("st", '[');
	for( int i=0; i < 2; i++ ) {
		J_elem(); J_close('{'); drv_first = true;
		struct HarbolArray *a = P[i];
		uint8_t const *data = a? *harbol_array_data(a) : NULL;
		size_t len = a? harbol_array_len(a) : 0, cap = a? harbol_array_cap(a) : 0;
		J_bool("live", data != NULL);
		J_sz("len", len); J_sz("cap", cap);
		J_key("items"); fputc('[', drv_out);
		if( data != NULL && len <= 4096 ) for( size_t k=0; k < len; k++ ) {
			uint8_t const *it = harbol_array_get(a, k, ds);
			fprintf(drv_out, "%s%d", k? "," : "", it? dec(it) : -998);
		}
		fputc(']', drv_out);
		J_bool("empty", a? harbol_array_empty(a) : true);
		J_bool("full", a? harbol_array_full(a) : true);
		J_close('}');
	}
	J_close(']');
	J_sz("lendiff", P[0] && P[1]? harbol_array_len_diff(P[0], P[1]) : 0);
	J_sz("capdiff", P[0] && P[1]? harbol_array_cap_diff(P[0], P[1]) : 0);
	J_bool("oom", drv_failed);
	J_int("heap", drv_live);
}
static void release(int i) {
	if( P[i]==NULL ) return;
	if( heap_obj[i] ) harbol_array_cleanup(&P[i]); else { harbol_array_clear(P[i]); }
	P[i] = NULL;
}

static void drv_dispatch(void) {
	if( t_is(0, "reset") ) {                         /* reset DS [PLACE] */
		release(0); release(1); ds = t_sz(1); place((int)t_int(2));
		memset(A, 0, sizeof A);
		ev_begin("reset"); project(); ev_end();
		return;
	}
	char const *op = t_word(0);
	int o = (int)t_int(1) - 1;
	struct HarbolArray *a = P[o], *b = P[1 - o];
	uint8_t *val = __real_calloc(ds, 1), *out = __real_calloc(ds, 1);
	bool self = t_int(2) != 0, pair = t_is(0, "add") || t_is(0, "copy");
	bool none = !t_is(0, "new") && !t_is(0, "release") && (a==NULL || (pair && !self && b==NULL));
	/* keep the arrays small enough to project */
	none = none || (a && t_is(0, "fill") && harbol_array_cap(a) > 2100) || (a && t_is(0, "grow") && harbol_array_cap(a) > 512);
	ev_begin(none? "none" : op); J_int("o", o + 1);     /* none: no such object, not a call */
	if( none ) { ;
	} else if( t_is(0, "new") ) {                           /* new O KIND N */
		int kind = (int)t_int(2); size_t n = t_sz(3); bool r = false;
		J_int("n", (int64_t)n); J_int("kind", kind);
		if( P[o]==NULL ) {
			if( kind==0 ) { A[o] = harbol_array_make(ds, n, &r); P[o] = r? &A[o] : NULL; heap_obj[o] = false; }
			else if( kind==1 ) { P[o] = harbol_array_new(ds, n); r = P[o] != NULL; heap_obj[o] = true; }
			else {
				uint8_t *buf = calloc(n + 1, ds);
				if( buf != NULL ) {
					size_t half = n / 2;
					for( size_t k=0; k < half; k++ ) enc(&buf[k*ds], (int)(k + 1));
					if( kind==2 ) { A[o] = harbol_array_make_from_array(buf, n, half); P[o] = &A[o]; heap_obj[o] = false; r = true; }
					else { P[o] = harbol_array_new_from_array(buf, n, half); heap_obj[o] = true; r = P[o] != NULL; if( !r ) free(buf); }
				}
			}
		}
		J_bool("r", r);
	} else if( t_is(0, "release") ) { release(o); J_bool("r", true);
	} else if( t_is(0, "clear") ) { harbol_array_clear(a); J_bool("r", true);
	} else if( t_is(0, "grow") ) { bool r = harbol_array_grow(a, ds); J_bool("r", r);
	} else if( t_is(0, "resize") ) { J_int("n", t_int(2)); bool r = harbol_array_resize(a, ds, t_sz(2)); J_bool("r", r);
	} else if( t_is(0, "shrink") ) { bool e = t_int(2); J_bool("exact", e); bool r = harbol_array_shrink(a, ds, e); J_bool("r", r);
	} else if( t_is(0, "wipe") ) { harbol_array_wipe(a, ds); J_bool("r", true);
	} else if( t_is(0, "add") ) { J_bool("self", self); bool r = harbol_array_add(a, self? a : b, ds); J_bool("r", r);
	} else if( t_is(0, "copy") ) { J_bool("self", self); bool r = harbol_array_copy(a, self? a : b, ds); J_bool("r", r);
	} else if( t_is(0, "insert") ) { enc(val, (int)t_int(2)); J_int("v", t_int(2)); bool r = harbol_array_insert(a, val, ds); J_bool("r", r);
	} else if( t_is(0, "append") ) { enc(val, (int)t_int(2)); J_int("v", t_int(2)); size_t r = harbol_array_append(a, val, ds); J_sz("r", r);
	} else if( t_is(0, "fill") ) { enc(val, (int)t_int(2)); J_int("v", t_int(2)); bool r = harbol_array_fill(a, val, ds); J_bool("r", r);
	} else if( t_is(0, "pop") ) { uint8_t *p = harbol_array_pop(a, ds); J_bool("r", p != NULL); J_int("v", p? dec(p) : -1);
	} else if( t_is(0, "pop_ex") ) { bool r = harbol_array_pop_ex(a, out, ds); J_bool("r", r); J_int("v", r? dec(out) : -1);
	} else if( t_is(0, "peek") ) { uint8_t *p = harbol_array_peek(a, ds); J_bool("r", p != NULL); J_int("v", p? dec(p) : -1);
	} else if( t_is(0, "peek_ex") ) { bool r = harbol_array_peek_ex(a, out, ds); J_bool("r", r); J_int("v", r? dec(out) : -1);
	} else if( t_is(0, "get") ) { J_int("i", t_int(2)); uint8_t *p = harbol_array_get(a, t_sz(2), ds); J_bool("r", p != NULL); J_int("v", p? dec(p) : -1);
	} else if( t_is(0, "get_ex") ) { J_int("i", t_int(2)); bool r = harbol_array_get_ex(a, t_sz(2), out, ds); J_bool("r", r); J_int("v", r? dec(out) : -1);
	} else if( t_is(0, "set") ) { J_int("i", t_int(2)); enc(val, (int)t_int(3)); J_int("v", t_int(3)); bool r = harbol_array_set(a, t_sz(2), val, ds); J_bool("r", r);
	} else if( t_is(0, "swap") ) { bool r = harbol_array_swap(a, ds); J_bool("r", r);
	} else if( t_is(0, "shift_up") ) { J_int("i", t_int(2)); J_int("n", t_int(3)); bool r = harbol_array_shift_up(a, t_sz(2), ds, t_sz(3)); J_bool("r", r);
	} else if( t_is(0, "count") ) { enc(val, (int)t_int(2)); J_int("v", t_int(2)); size_t r = harbol_array_item_count(a, val, ds); J_sz("r", r);
	} else if( t_is(0, "index_of") ) { enc(val, (int)t_int(2)); J_int("v", t_int(2)); J_int("i", t_int(3)); size_t r = harbol_array_index_of(a, val, ds, t_sz(3)); J_sz("r", r);
	} else if( t_is(0, "del_index") ) { J_int("i", t_int(2)); bool r = harbol_array_del_by_index(a, t_sz(2), ds); J_bool("r", r);
	} else if( t_is(0, "del_range") ) { J_int("i", t_int(2)); J_int("n", t_int(3)); bool r = harbol_array_del_by_range(a, t_sz(2), ds, t_sz(3)); J_bool("r", r);
	} else if( t_is(0, "del_val") ) { enc(val, (int)t_int(2)); J_int("v", t_int(2)); bool r = harbol_array_del_by_val(a, val, ds); J_bool("r", r);
	} else { J_str("unknown", op); }
	project(); ev_end();
	__real_free(val); __real_free(out);
}
