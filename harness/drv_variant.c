/* drives variant/variant.c: NV variants */
#include "drv.h"
#include "variant/variant.h"
enum { NV = 3 };
static struct HarbolVariant A[NV], *V[NV]; static bool hp[NV];
static void rel(int i) { if( V[i]==NULL ) return; if( hp[i] ) harbol_variant_free(&V[i]); else { harbol_variant_clear(V[i]); V[i] = NULL; } }
static void project(void) {
	J_key("vs"); fputc('[', drv_out);
	for( int i=1; i < NV; i++ ) {
		uint8_t *d = V[i]? harbol_variant_data(V[i]) : NULL; size_t n = V[i]? harbol_variant_size(V[i]) : 0;
		fprintf(drv_out, "%s{\"ex\":%s,\"d\":%s,\"t\":%ld,\"v\":", i > 1? "," : "", V[i]? "true" : "false", d? "true" : "false", V[i]? drv_clamp(harbol_variant_tag(V[i])) : 0L);
		if( d ) J_raw_bytes(d, n < 5000? n : 0); else fputs(n? "[-1]" : "[]", drv_out);
		fputc('}', drv_out);
	}
	fputc(']', drv_out); J_bool("oom", drv_failed); J_int("heap", drv_live);
}
static void drv_dispatch(void) {
	char const *op = t_word(0);
	if( t_is(0, "reset") ) { for( int i=1; i < NV; i++ ) rel(i); ev_begin("reset"); project(); ev_end(); return; }
	int i = (int)t_int(1), j = (int)t_int(2); if( i < 1 || i >= NV ) i = 1;
	bool ok = t_is(0, "new")? V[i]==NULL : V[i] != NULL;
	if( t_is(0, "share") ) ok = ok && j >= 1 && j < NV && V[j] && harbol_variant_data(V[j]);
	ev_begin(ok? op : "none");
	if( ok ) {
		size_t n = 0; uint8_t *v = t_word(2)[0]=='x'? t_bytes(2, &n, 0) : NULL; bool r = true;
		J_int("i", i); if( v ) J_bytes("v", v, n);
		if( t_is(0, "new") ) {                 /* new I V TAG HEAP */
			int32_t t = (int32_t)t_int(3); J_int("t", t); hp[i] = t_int(4) != 0;
			if( hp[i] ) { V[i] = harbol_variant_new(v, n, t); r = V[i] != NULL; } else { A[i] = harbol_variant_make(v, n, t, &r); V[i] = r? &A[i] : NULL; }
		} else if( t_is(0, "set") ) r = harbol_variant_set(V[i], v, n);
		else if( t_is(0, "share") ) { J_int("j", j); r = harbol_variant_set(V[i], harbol_variant_data(V[j]), harbol_variant_size(V[j])); }
		else if( t_is(0, "clear") ) harbol_variant_clear(V[i]);
		else if( t_is(0, "free") ) { rel(i); J_bool("null", V[i]==NULL); }
		else J_str("unknown", op);
		if( v ) memset(v, 0xEE, n);
		J_bool("r", r); __real_free(v);
	}
	project(); ev_end();
}
