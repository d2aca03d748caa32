/* drives the integer helpers of harbol_common_includes.h; words are given as h<hex> and logged as 8 bytes */
#include "drv.h"
#include "harbol_common_defines.h"
#include "harbol_common_includes.h"
static void J_word(char const *k, size_t v) { J_bytes(k, &v, sizeof v); }
static size_t t_w(int i) { if( t_word(i)[0]=='x' ) { size_t n, w = 0; uint8_t *b = t_bytes(i, &n, 8); memcpy(&w, b, 8); __real_free(b); return w; } return t_sz(i); }
static size_t table[MAX_LOG_TABLE_SIZE], *powers;
static void *dupx(void const *p, size_t n) { void *r = __real_calloc(n + 1, 1); memcpy(r, p, n); return r; }
static void drv_dispatch(void) {
	char const *op = t_word(0); size_t const x = t_is(0, "hash")? 0 : t_w(1);
	if( t_is(0, "reset") ) { free(powers); powers = NULL; ev_begin("reset"); J_int("heap", drv_live); ev_end(); return; }
	ev_begin(op);
	if( t_is(0, "word") ) {
		J_word("x", x);
		J_sz("lg2", int_log2(x)); J_sz("lg10", int_log10(x)); J_sz("d2", base_2_digits(x)); J_sz("c2", base_2_num_chars(x));
		J_sz("d10", base_10_digits(x)); J_sz("c10", base_10_num_chars_uint(x)); J_sz("c10i", base_10_num_chars_int((ssize_t)x));
		J_word("ceil", bitwise_ceil(x)); J_word("next", next_pow_of_2(x));
	} else if( t_is(0, "align") ) {
		size_t const a = t_w(2); J_word("x", x); J_word("a", a);
		J_word("al", harbol_align_size(x, a)); J_word("pad", a==0? 0 : harbol_pad_size(x, a));
	} else if( t_is(0, "bounds") ) {
		size_t const hi = t_w(2), lo = t_w(3); J_word("x", x); J_word("hi", hi); J_word("lo", lo);
		J_bool("u", is_uint_in_bounds(x, hi, lo)); J_bool("p", is_uintptr_in_bounds(x, hi, lo)); J_bool("s", is_int_in_bounds((ssize_t)x, (ssize_t)hi, (ssize_t)lo));
	} else if( t_is(0, "mask") ) { J_sz("n", x); J_word("m", bytes_bitmask(x)); }
	else if( t_is(0, "ptr") ) { J_word("x", x); J_word("a", t_w(2)); J_bool("r", is_ptr_aligned((void*)x, t_w(2))); }
	else if( t_is(0, "base") ) {
		size_t *p = NULL;
		size_t const n = make_int_log_tables(x, &table, &p);
		J_word("x", x); J_sz("num", n); J_bool("oom", drv_failed);
		J_open("pow", '['); for( size_t i=0; i < n && p != NULL; i++ ) { J_elem(); J_raw_bytes(&p[i], 8); drv_first = false; } J_close(']');
		if( n > 0 ) { free(powers); powers = p; }
	} else if( t_is(0, "logn") ) {
		J_word("x", x); J_bool("none", powers==NULL);
		if( powers != NULL ) {
			J_sz("lg", int_log(x, (void*)&table, powers)); J_sz("d", base_N_digits(x, (void*)&table, powers));
			J_sz("c", base_N_num_chars_uint(x, (void*)&table, powers)); J_sz("ci", base_N_num_chars_int((ssize_t)x, (void*)&table, powers));
		}
	} else if( t_is(0, "hash") ) {
		size_t n; uint8_t *b = t_bytes(1, &n, 1), *c = dupx(b, n); size_t const seed = (size_t)t_int(2), v = (size_t)t_int(3);
		double f; memcpy(&f, &v, sizeof f);
		J_bytes("d", b, n); J_bytes("seed", &seed, 8); J_bytes("v", &v, 8);
		J_open("h", '['); for( int k=0; k < 4; k++ ) { uint8_t *t = k % 2? c : b; size_t const h = k==0? string_hash((char*)t, seed) : k==1? array_hash(t, n, seed) : k==2? int_hash(v, seed) : float_hash(f, seed); J_elem(); J_raw_bytes(&h, 8); drv_first = false; } J_close(']');
		size_t const p1 = ptr_hash(&table, seed), p2 = ptr_hash((char*)&table, seed); J_bool("ptr", p1==p2);
		__real_free(b); __real_free(c);
	}
	J_int("heap", drv_live);
	ev_end();
}
