/* drives tuple/tuple.c: one tuple */
#include "drv.h"
#include "tuple/tuple.h"
static struct HarbolTuple A, *D; static bool heap_obj;
static size_t SS[64], NSS; 
static void fields(void) {
	size_t n = harbol_tuple_fields(D);
	J_sz("n", n); J_sz("len", harbol_tuple_len(D)); J_bool("packed", harbol_tuple_packed(D));
	uint8_t *base = D->datum;
	if( n > 64 ) n = 64;
	J_key("sizes"); fputc('[', drv_out);
	for( size_t i=0; i < n; i++ ) { if( i ) fputc(',', drv_out); J_raw_int(harbol_tuple_len(D)==0? 0 : (int64_t)harbol_tuple_field_size(D, i)); }
	fputc(']', drv_out); J_key("offs"); fputc('[', drv_out);
	for( size_t i=0; i < n; i++ ) { uint8_t *p = harbol_tuple_get(D, i); if( i ) fputc(',', drv_out); J_raw_int(p? p - base : -1); }
	fputc(']', drv_out); J_key("fields"); fputc('[', drv_out);
	for( size_t i=0; i < n; i++ ) { uint8_t *p = harbol_tuple_get(D, i); size_t z = i < NSS? SS[i] : 0; if( i ) fputc(',', drv_out);
		if( p && p + z > base + harbol_tuple_len(D) ) z = 0; 
		J_raw_bytes(p, p? z : 0); }
	fputc(']', drv_out);
	size_t L = harbol_tuple_len(D);
	J_bytes("mem", base, L <= 5000? L : 0);
	uint8_t *s = __real_malloc(L + 1); memset(s, 0xA5, L + 1);
	bool ok = harbol_tuple_to_struct(D, s);
	J_bool("copy", (ok? !memcmp(s, base, L) : L==0) && s[L]==0xA5 && (ok || L==0)); __real_free(s);
	uint8_t junk[8] = {0};
	J_bool("past", harbol_tuple_get(D, harbol_tuple_fields(D)) || harbol_tuple_get(D, SIZE_MAX) || harbol_tuple_field_size(D, harbol_tuple_fields(D)) || harbol_tuple_set(D, harbol_tuple_fields(D), junk) || harbol_tuple_set(D, SIZE_MAX, junk));
}
static void project(void) {
	J_bool("exists", D != NULL);
	if( D ) fields();
	J_bool("oom", drv_failed); J_int("heap", drv_live);
}
static void release(void) { if( D==NULL ) return; if( heap_obj ) harbol_tuple_free(&D); else harbol_tuple_clear(D); D = NULL; }
static void drv_dispatch(void) {
	char const *op = t_word(0);
	if( t_is(0, "reset") ) { release(); memset(&A, 0, sizeof A); ev_begin("reset"); project(); ev_end(); return; }
	if( t_is(0, "huge") && D==NULL ) {           /* huge HEAP PACKED SIZE...: enormous fields; a tuple that is made has room for each */
		size_t ss[16], n = 0, sum = 0; bool wrap = false, r = false; for( int i=3; i < drv_ntok && n < 16; i++ ) { ss[n] = t_sz(i); wrap = wrap || ss[n] > SIZE_MAX - sum; sum += ss[n]; n++; }
		ev_begin(op);
		if( t_int(1) ) { D = harbol_tuple_new(n, ss, t_int(2) != 0); r = D != NULL; heap_obj = true; }
		else { A = harbol_tuple_create(n, ss, t_int(2) != 0, &r); heap_obj = false; D = r? &A : NULL; }
		bool fits = r && !wrap && harbol_tuple_fields(D)==n && harbol_tuple_len(D) >= sum;
		for( size_t i=0; fits && i < n; i++ ) {
			uint8_t *p = harbol_tuple_get(D, i); size_t left = p? (size_t)(D->datum + harbol_tuple_len(D) - p) : 0;
			fits = harbol_tuple_field_size(D, i)==ss[i] && (ss[i]==0 || (p && p >= D->datum && left >= ss[i] && left <= harbol_tuple_len(D)));
		}
		release(); if( !r ) memset(&A, 0, sizeof A);
		J_bool("r", r); J_bool("fits", fits); project(); ev_end(); return;
	}
	if( (D==NULL) != t_is(0, "new") ) op = "none";
	ev_begin(op);
	if( !strcmp(op, "none") ) { ;
	} else if( t_is(0, "new") ) {               /* new HEAP PACKED SIZE... */
		NSS = 0; for( int i=3; i < drv_ntok && NSS < 64; i++ ) SS[NSS++] = t_sz(i);
		size_t *ss = __real_calloc(NSS + 1, sizeof *ss); memcpy(ss, SS, NSS * sizeof *ss);
		bool r = false, pk = t_int(2) != 0; 
		if( t_int(1) ) { D = harbol_tuple_new(NSS, ss, pk); r = D != NULL; heap_obj = true; }
		else { A = harbol_tuple_create(NSS, ss, pk, &r); heap_obj = false; D = r? &A : NULL; }
		__real_free(ss);
		J_bool("pk", pk); J_bool("r", r);
		J_key("ss"); fputc('[', drv_out); for( size_t i=0; i < NSS; i++ ) { if( i ) fputc(',', drv_out); J_raw_int((int64_t)SS[i]); } fputc(']', drv_out);
	} else if( t_is(0, "release") ) { release(); J_bool("r", true);
	} else if( t_is(0, "cleared") ) {           /* clear, look at the cleared tuple, release */
		harbol_tuple_clear(D); uint8_t junk[8] = {0}, *s = junk;
		J_sz("n", harbol_tuple_fields(D)); J_bool("past", harbol_tuple_get(D, 0) || harbol_tuple_set(D, 0, junk) || harbol_tuple_to_struct(D, s) || harbol_tuple_len(D) || harbol_tuple_field_size(D, 0));
		release();
	} else if( t_is(0, "set") ) {               /* set I BYTE: fills the field with BYTE, BYTE*3+1, ... */
		size_t i = t_sz(1), z = i < NSS? SS[i] : 8; uint8_t *v = __real_calloc(z + (z==0), 1); 
		for( size_t k=0; k < z; k++ ) v[k] = (uint8_t)t_int(2);
		if( drv_ntok > 3 ) for( size_t k=0; k < z; k++ ) v[k] = (uint8_t)(t_int(2) + (int64_t)k * t_int(3));
		J_sz("i", i); J_bytes("v", v, z);
		void *p = harbol_tuple_set(D, i, v);
		J_bool("r", p != NULL); memset(v, 0xEE, z); __real_free(v);
	} else J_str("unknown", op);
	project(); ev_end();
}
