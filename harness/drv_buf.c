/* drives the raw buffer helpers of harbol_common_includes.h.
 * up to six parallel buffers (items of 1, 4, 7, 2, 3 and 8 bytes, or other sizes chosen when they are made); an item's bytes are derived from its serial number,
 * the projection recovers the number from each buffer and requires them to agree. */
#include "drv.h"
#include "harbol_common_defines.h"
#include "harbol_common_includes.h"
#define NB 6
static size_t const SIZES[][NB] = { { 1, 4, 7, 2, 3, 8 }, { 12, 1, 24, 1, 5, 6 }, { 16, 9, 2, 10, 31, 1 }, { 33, 64, 8, 4, 4, 20 }, { 300, 5, 257, 1, 2, 65 } };
#define REFS &buf[0], SZ[0], &buf[1], SZ[1], &buf[2], SZ[2], &buf[3], SZ[3], &buf[4], SZ[4], &buf[5], SZ[5]
static size_t const *SZ = SIZES[0];
static uint8_t *buf[NB]; static size_t len, cap; static int nb;
static bool left(void) { for( int b=0; b < NB; b++ ) if( buf[b] ) return true; return false; }
static void put(int b, size_t i, unsigned v) { for( size_t k=0; k < SZ[b]; k++ ) buf[b][i*SZ[b] + k] = (uint8_t)(v==0? 0 : v + 31*k + 5*b*k); }
static int get(int b, size_t i) { unsigned const v = buf[b][i*SZ[b]]; for( size_t k=0; k < SZ[b]; k++ ) if( buf[b][i*SZ[b] + k] != (uint8_t)(v==0? 0 : v + 31*k + 5*b*k) ) return -1; return (int)v; }
static void finish(void) {
	bool zero = true;
	J_open("st", '{'); J_int("n", nb); J_sz("cap", cap); J_open("items", '[');
	for( size_t i=0; i < len; i++ ) { int v = get(0, i); for( int b=1; b < nb; b++ ) if( get(b, i) != v ) v = -2; J_elem(); J_raw_int(v); drv_first = false; }
	J_close(']');
	for( size_t i=len; i < cap; i++ ) for( int b=0; b < nb; b++ ) if( get(b, i) != 0 ) zero = false;
	J_bool("zero", zero); J_close('}');
	J_int("heap", drv_live); ev_end();
}
static void release(void) {
	void *end = NULL; (void)end;
	if( nb==1 ) harbol_cleanup(&buf[0]);
	else if( nb ) harbol_multi_cleanup((size_t)(nb < NB? nb : NB), &buf[0], &buf[1], &buf[2], &buf[3], &buf[4], &buf[5]);
	nb = left()? 9 : 0; len = cap = 0;
}
static void drv_dispatch(void) {
	char const *op = t_word(0);
	if( t_is(0, "reset") ) { release(); ev_begin(op); finish(); return; }
	if( t_is(0, "calloc") ) {
		int const n = (int)t_int(1); size_t const c = t_sz(2);
		if( nb > 0 ) { ev_begin("none"); finish(); return; }
		SZ = SIZES[t_int(3) % 5];
		bool const r = harbol_multi_calloc(c, (size_t)n, REFS);
		if( r ) { nb = n; cap = c; len = 0; } else if( left() ) nb = 9;
		ev_begin(op); J_int("n", n); J_sz("cap", c); J_bool("oom", drv_failed || c > 100000000); J_bool("r", r); finish(); return;
	}
	if( t_is(0, "fill") || t_is(0, "recalloc") || t_is(0, "shift") || t_is(0, "cleanup") ) {
		if( nb==0 ) { ev_begin("none"); finish(); return; }
		if( t_is(0, "fill") ) {
			size_t n = t_sz(1); if( n > cap ) n = cap;
			for( int b=0; b < nb; b++ ) for( size_t i=0; i < cap; i++ ) put(b, i, i < n? (unsigned)(i % 250 + 1) : 0);
			len = n; ev_begin(op);
		} else if( t_is(0, "recalloc") ) {
			size_t const c = t_sz(1), o = cap; bool r;
			if( nb==1 && t_is(2, "single") ) { void *p = harbol_recalloc(buf[0], c, SZ[0], o); r = p != NULL; if( r ) buf[0] = p; }
			else r = harbol_multi_recalloc(c, o, (size_t)nb, REFS);
			if( r ) { cap = c; if( len > c ) len = c; }
			ev_begin(op); J_sz("cap", c); J_bool("oom", drv_failed || c > 100000000); J_bool("r", r);
		} else if( t_is(0, "shift") ) {
			size_t const i = t_sz(1), k = t_sz(2); bool r;
			if( nb==1 ) r = t_is(3, "multi")? multi_array_shift_up(&len, i, k, 1, buf[0], SZ[0]) : array_shift_up(buf[0], &len, i, SZ[0], k);
			else r = multi_array_shift_up(&len, i, k, (size_t)nb, buf[0], SZ[0], buf[1], SZ[1], buf[2], SZ[2], buf[3], SZ[3], buf[4], SZ[4], buf[5], SZ[5]);
			if( len > cap ) len = 0;
			ev_begin(op); J_sz("i", i); J_sz("k", k); J_bool("r", r);
		} else { release(); ev_begin(op); }
		finish(); return;
	}
	size_t n = 0; uint8_t *d = NULL;
	if( t_is(0, "dup") || t_is(0, "duptext") ) {
		bool const text = op[3] != 0; d = t_bytes(1, &n, text? 1 + t_sz(2) : 0);
		size_t const room = n + (text? t_sz(2) : 0);                 /* duptext TEXT [MORE]: room for more than the text */
		uint8_t *r = text? (uint8_t*)dup_cstr(room, (char*)d) : dup_data(d, n);
		ev_begin(op); J_bytes("d", d, n); J_bool("oom", drv_failed); J_bool("null", r==NULL); J_sz("len", n); J_bytes("b", r, r? n : 0); if( text ) { bool z = true; if( r ) for( size_t i=n; i <= room; i++ ) z &= r[i]==0; J_bool("term", z); }
		free(r);
	} else if( t_is(0, "switch") ) {
		d = t_bytes(1, &n, 1); char *a[6] = {0}; size_t m; for( int i=0; i < 5; i++ ) if( t_word(2 + i)[0]=='x' ) a[i] = t_cstr(2 + i); else break;
		size_t const r = cstr_switch((char*)d, a[0], a[1], a[2], a[3], a[4], NULL); (void)m;
		ev_begin(op); J_bytes("d", d, n); J_open("alts", '['); for( int i=0; a[i]; i++ ) { J_elem(); J_raw_bytes(a[i], strlen(a[i])); drv_first = false; __real_free(a[i]); } J_close(']'); J_sz("r", r);
	} else if( t_is(0, "sprintf") ) {
		d = t_bytes(2, &n, 1); int const v = (int)t_int(1);
		char *r = sprintf_alloc("[%s:%d]", d, v);
		ev_begin(op); J_bytes("d", d, n); J_int("v", v); J_bool("oom", drv_failed); J_bool("null", r==NULL); J_bytes("b", r, r? strlen(r) : 0); free(r);
	} else if( t_is(0, "mempcpy") || t_is(0, "memccpy") ) {
		bool const cc = t_is(0, "memccpy"); d = t_bytes(cc? 2 : 1, &n, 0);
		uint8_t *to = __real_calloc(n + 1, 1); uint8_t *e = cc? harbol_memccpy(to, d, (int)t_int(1), n) : harbol_mempcpy(to, d, n);
		ev_begin(op); J_bytes("d", d, n); if( cc ) J_int("c", t_int(1)); long const end = e==NULL? -1 : (long)(e - to); J_int("end", end); J_bytes("b", to, end >= 0 && (size_t)end <= n? (size_t)end : n); __real_free(to);
	} else if( t_is(0, "load") || t_is(0, "size") ) {
		bool exists = t_word(1)[0]=='x'; d = t_bytes(1, &n, 0);
		unlink("load.bin"); if( exists ) { FILE *f = fopen("load.bin", "wb"); fwrite(d, 1, n, f); fclose(f); }
		char const *name = exists? drv_file(d, n) : "load.bin";
		if( t_is(0, "size") ) { FILE *f = fopen("load.bin", "rb"); if( f ) fseek(f, (long)t_int(2), SEEK_SET); ev_begin(op); J_bytes("d", d, n); J_int("r", f? (long)get_file_size(f) : -1); if( f ) fclose(f); }
		else {
			size_t sz = 777; drv_call_begin(); void *r;
			if( t_is(2, "file") && exists ) { drv_counting = false; FILE *f = fopen("load.bin", "rb"); fseek(f, (long)t_int(3), SEEK_SET); drv_counting = true; r = make_buffer_from_file(f, &sz); drv_counting = false; fclose(f); drv_counting = true; }
			else if( t_is(2, "unreadable") && exists ) {          /* nothing can be read: no buffer, or one of no bytes */
				drv_counting = false; FILE *f = fopen("load.bin", "ab"); drv_counting = true; r = make_buffer_from_file(f, &sz); drv_counting = false; fclose(f); drv_counting = true;
				if( r != NULL && sz==0 ) { free(r); r = NULL; }
				if( r==NULL ) exists = false;
			}
			else if( t_is(2, "dir") ) { r = t_int(3)? (void*)make_buffer_from_text(".", &sz) : make_buffer_from_binary(".", &sz); exists = false; if( r==NULL ) drv_failed = false; }
			else r = t_is(2, "text")? (void*)make_buffer_from_text(name, &sz) : make_buffer_from_binary(name, &sz);
			ev_begin(op); J_bool("exists", exists); J_bytes("d", d, n); J_bool("oom", drv_failed); J_bool("null", r==NULL); J_sz("size", sz); J_bytes("b", r, r && sz <= n? sz : 0);
			J_bool("term", r==NULL || sz > n || ((char*)r)[sz]==0); free(r);
		}
	} else { fprintf(stderr, "unknown op %s\n", op); exit(3); }
	__real_free(d); finish();
}
