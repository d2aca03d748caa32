/* drives map/map.c: one map; rand() is interposed so that the seed of every map is chosen by the script */
#include "drv.h"
#include "map/map.h"
static struct HarbolMap A, *M;
static bool heap_obj;
static unsigned seed_val;
int __wrap_rand(void) { return (int)(seed_val & 0x7FFFFFFF); }
void __wrap_srand(unsigned s) { (void)s; }

static void project(void) {
	J_bool("exists", M != NULL);
	size_t n = M? M->len : 0;
	J_sz("len", n);
	/* values at the positions 0.. until the first absent one (bounded), with the key's own view of them */
	J_key("vals"); fputc('[', drv_out);
	size_t k = 0;
	for( ; M && k < n && k < 4096; k++ ) {
		void *v = harbol_map_idx_get(M, k);
		if( v==NULL ) break;
		if( k ) fputc(',', drv_out);
		J_raw_bytes(v, M->datalens[k] < 20000? M->datalens[k] : 0);
	}
	fputc(']', drv_out);
	J_key("keys"); fputc('[', drv_out);
	for( size_t i=0; M && i < n && i < 4096; i++ ) {
		if( i ) fputc(',', drv_out);
		if( M->keys[i]==NULL ) fputs("[-1]", drv_out); else J_raw_bytes(M->keys[i], M->keylens[i] < 20000? M->keylens[i] : 0);
	}
	fputc(']', drv_out);
	/* lookup by key of every stored key: position, presence, and agreement of the value pointers */
	J_key("pos"); fputc('[', drv_out);
	for( size_t i=0; M && i < n && i < 4096; i++ ) {
		size_t p = M->keys[i]? harbol_map_get_entry_index(M, M->keys[i], M->keylens[i]) : SIZE_MAX;
		bool agree = M->keys[i] && harbol_map_has_key(M, M->keys[i], M->keylens[i]) && harbol_map_key_get(M, M->keys[i], M->keylens[i])==harbol_map_idx_get(M, i);
		fprintf(drv_out, "%s%ld", i? "," : "", agree? drv_clamp((int64_t)p) : -7L);
	}
	fputc(']', drv_out);
	J_bool("past", M? harbol_map_idx_get(M, n) != NULL || harbol_map_idx_get(M, SIZE_MAX) != NULL : false);
	J_bool("oom", drv_failed); J_int("heap", drv_live);
}
static void release(void) {
	if( M==NULL ) return;
	if( heap_obj ) harbol_map_free(&M); else harbol_map_clear(M);
	M = NULL;
}
static void drv_dispatch(void) {
	char const *op = t_word(0);
	if( t_is(0, "reset") ) {      /* reset SEED SIZE */
		release(); memset(&A, 0, sizeof A); seed_val = (unsigned)t_int(1);
		ev_begin("reset"); project(); ev_end();
		if( drv_ntok > 2 ) { static char w1[] = "new", w2[32], w3[32]; snprintf(w2, sizeof w2, "0"); snprintf(w3, sizeof w3, "%s", t_word(2)); drv_tok[0] = w1; drv_tok[1] = w2; drv_tok[2] = w3; drv_ntok = 3; drv_dispatch(); }
		return;
	}
	bool none = M==NULL && !t_is(0, "new") && !t_is(0, "release");
	ev_begin(none? "none" : op);
	size_t kn = 0, vn = 0; uint8_t *k = NULL, *v = NULL;
	if( none ) { ;
	} else if( t_is(0, "new") ) {                 /* new KIND SIZE */
		bool r = false; size_t n = t_sz(2); J_sz("n", n);
		if( M==NULL ) {
			if( t_int(1)==0 ) { A = harbol_map_make(n, &r); if( r ) M = &A; heap_obj = false; }
			else { M = harbol_map_new(n); r = M != NULL; heap_obj = true; }
		}
		J_bool("r", r);
	} else if( t_is(0, "release") ) { release(); J_bool("r", true);
	} else if( t_is(0, "clear") ) { harbol_map_clear(M); J_bool("r", true);
	} else if( t_is(0, "rehash") ) { size_t n = t_sz(1); J_sz("n", n); bool r = harbol_map_rehash(M, n); J_bool("r", r);
	} else if( t_is(0, "insert") || t_is(0, "key_set") ) {
		k = t_bytes(1, &kn, 0); v = t_bytes(2, &vn, 0); J_bytes("k", k, kn); J_bytes("v", v, vn);
		bool r = op[0]=='i'? harbol_map_insert(M, k, kn, v, vn) : harbol_map_key_set(M, k, kn, v, vn);
		memset(k, 0xEE, kn); memset(v, 0xEE, vn);
		J_bool("r", r);
	} else if( t_is(0, "get") ) {                 /* get K: all lookups by key */
		k = t_bytes(1, &kn, 0); J_bytes("k", k, kn);
		bool has = harbol_map_has_key(M, k, kn); size_t p = harbol_map_get_entry_index(M, k, kn); uint8_t *d = harbol_map_key_get(M, k, kn);
		J_bool("r", has); J_sz("i", p); J_bool("got", d != NULL);
		J_bytes("v", d, d && p != SIZE_MAX && p < M->len? M->datalens[p] : 0);
	} else if( t_is(0, "find_val") ) {            /* find_val V: first entry with this value */
		v = t_bytes(1, &vn, 0); J_bytes("v", v, vn);
		size_t kl = 0, p = harbol_map_idx_val(M, v, vn); uint8_t *d = harbol_map_key_val(M, v, vn, &kl);
		J_sz("i", p); J_bool("r", d != NULL); J_bytes("k", d, d? kl : 0);
	} else if( t_is(0, "idx_set") ) {
		v = t_bytes(2, &vn, 0); J_int("i", t_int(1)); J_bytes("v", v, vn); bool r = harbol_map_idx_set(M, t_sz(1), v, vn); memset(v, 0xEE, vn); J_bool("r", r);
	} else if( t_is(0, "key_rm") ) { k = t_bytes(1, &kn, 0); J_bytes("k", k, kn); bool r = harbol_map_key_rm(M, k, kn); J_bool("r", r);
	} else if( t_is(0, "idx_rm") ) { J_int("i", t_int(1)); bool r = harbol_map_idx_rm(M, t_sz(1)); J_bool("r", r);
	} else J_str("unknown", op);
	project(); ev_end(); __real_free(k); __real_free(v);
}
