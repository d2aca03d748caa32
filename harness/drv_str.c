/* drives str/str.c: two strings */
#include "drv.h"
#include "str/str.h"

static struct HarbolString A[2], *P[2];
static bool heap_obj[2];
static size_t limit = 900;      /* texts longer than this are left alone: keeps the traces small */

static void project(void) {
	J_open("st", '[');
	for( int i=0; i < 2; i++ ) {
		J_elem(); J_close('{'); drv_first = true;
		struct HarbolString *s = P[i];
		J_bool("exists", s != NULL);
		char const *c = s? harbol_string_cstr(s) : NULL;
		size_t len = s? harbol_string_len(s) : 0;
		J_sz("len", len); J_bool("null", c==NULL);
		J_bytes("s", c? c : "", c && len < 1000000? len : 0);
		J_bool("end", c==NULL || (len < 1000000 && c[len]==0));
		J_close('}');
	}
	J_close(']'); J_bool("oom", drv_failed); J_int("heap", drv_live);
}
static void release(int i) {
	if( P[i]==NULL ) return;
	if( heap_obj[i] ) harbol_string_free(&P[i]); else harbol_string_clear(P[i]);
	P[i] = NULL;
}
static void put_file(char const *name, void const *p, size_t n) { FILE *f = fopen(name, "wb"); if( f ) { fwrite(p, 1, n, f); fclose(f); } }
/* an exactly sized copy of a text argument, so that over-reads are seen */
static char *arg(int i) { return t_cstr(i); }

static void drv_dispatch(void) {
	char const *op = t_word(0);
	int o = (int)t_int(1) - 1;
	if( t_is(0, "reset") ) { limit = t_int(1)? (size_t)t_int(1) : 900; release(0); release(1); memset(A, 0, sizeof A); ev_begin("reset"); project(); ev_end(); return; }
	struct HarbolString *s = P[o], *c = P[1 - o];
	bool pair = t_is(0, "add_str") || t_is(0, "copy_str") || t_is(0, "cmp_str"), self = t_int(2) != 0;
	bool none = !t_is(0, "new") && !t_is(0, "release") && (s==NULL || (pair && !self && c==NULL));
	none = none || (s && harbol_string_len(s) > limit && !t_is(0, "rm_char") && !t_is(0, "clear") && !t_is(0, "release") && !t_is(0, "copy_cstr"));
	ev_begin(none? "none" : op); J_int("o", o + 1);
	if( none ) { ;
	} else if( t_is(0, "new") ) {                 /* new O KIND HEX */
		bool r = false, obj = false; char *v = arg(3);
		if( s==NULL ) {
			heap_obj[o] = t_int(2)==2;
			if( t_int(2)==2 ) { P[o] = harbol_string_new(v); r = P[o] && P[o]->cstr; }
			else if( t_int(2)==1 ) { memset(&A[o], 0, sizeof A[o]); r = harbol_string_init(&A[o], v); P[o] = &A[o]; }
			else { A[o] = harbol_string_make(v, &r); P[o] = &A[o]; }
			obj = P[o] != NULL;
		}
		J_bytes("v", v, strlen(v)); J_bool("obj", obj); J_bool("r", r); memset(v, 0x55, strlen(v)); __real_free(v);
	} else if( t_is(0, "release") ) { release(o);
	} else if( t_is(0, "clear") ) { harbol_string_clear(s);
	} else if( t_is(0, "add_char") ) { J_int("c", t_int(2)); J_bool("r", harbol_string_add_char(s, (char)t_int(2)));
	} else if( t_is(0, "add_rep") ) { J_int("c", t_int(2)); J_sz("n", t_sz(3)); J_bool("r", harbol_string_add_char_rep(s, (char)t_int(2), t_sz(3)));
	} else if( t_is(0, "add_cstr") || t_is(0, "copy_cstr") ) {
		char *v = arg(2); J_bytes("v", v, strlen(v));
		J_bool("r", t_is(0, "add_cstr")? harbol_string_add_cstr(s, v) : harbol_string_copy_cstr(s, v));
		memset(v, 0x55, strlen(v)); __real_free(v);
	} else if( t_is(0, "add_str") ) { J_bool("self", self); J_bool("r", harbol_string_add_str(s, self? s : c));
	} else if( t_is(0, "copy_str") ) { J_bool("self", self); J_bool("r", harbol_string_copy_str(s, self? s : c));
	} else if( t_is(0, "format") ) {              /* format O FRESH KIND HEX N */
		bool fresh = t_int(2) != 0; int k = (int)t_int(3), n = (int)t_int(5), n1 = -2; char *v = arg(4);
		switch( k ) {
			case 0: n1 = harbol_string_format(s, fresh, "%s", v); break;
			case 1: n1 = harbol_string_format(s, fresh, "%d", n); break;
			case 2: n1 = harbol_string_format(s, fresh, "[%s:%i]", v, n); break;
			case 3: n1 = harbol_string_format(s, fresh, "%%%s%s", v, v); break;
			default: n1 = harbol_string_format(s, fresh, "");
		}
		J_bool("fresh", fresh); J_int("k", k); J_bytes("v", v, strlen(v)); J_int("n", n); J_int("n1", n1); __real_free(v);
	} else if( t_is(0, "read") ) {                /* read O KIND HEX */
		char *v = arg(3); bool r; size_t n = strlen(v);
		J_str("k", t_word(2)); J_bytes("v", v, n); char const *name = drv_file(v, n);
		if( t_is(2, "file") ) { FILE *f = fopen(name, "r"); if( n > 1 ) fgetc(f); r = harbol_string_read_from_file(s, f); fclose(f); }
		else if( t_is(2, "unreadable") ) { FILE *f = fopen(name, "a"); r = harbol_string_read_from_file(s, f); fclose(f); }
		else r = harbol_string_read_file(s, t_is(2, "nofile")? "no-such-file" : t_is(2, "dir")? "." : name);
		J_bool("r", r); __real_free(v);
	} else if( t_is(0, "rep_char") ) { J_int("a", t_int(2)); J_int("b", t_int(3)); J_bool("r", harbol_string_replace_char(s, (char)t_int(2), (char)t_int(3)));
	} else if( t_is(0, "rep_cstr") ) {            /* rep_cstr O NEEDLE WITH AMOUNT */
		char *v = arg(2), *w = arg(3); J_bytes("v", v, strlen(v)); J_bytes("w", w, strlen(w)); J_sz("n", t_sz(4));
		J_bool("r", harbol_string_replace_cstr(s, v, w, t_sz(4))); __real_free(v); __real_free(w);
	} else if( t_is(0, "rep_range") ) {           /* rep_range O LO HI WITH */
		char *w = arg(4); J_sz("lo", t_sz(2)); J_sz("hi", t_sz(3)); J_bytes("w", w, strlen(w));
		J_bool("r", harbol_string_replace_range(s, t_sz(2), t_sz(3), w)); __real_free(w);
	} else if( t_is(0, "upper") ) { J_bool("r", harbol_string_upper(s));
	} else if( t_is(0, "lower") ) { J_bool("r", harbol_string_lower(s));
	} else if( t_is(0, "reverse") ) { J_bool("r", harbol_string_reverse(s));
	} else if( t_is(0, "rm_char") ) { J_int("c", t_int(2)); J_sz("r", harbol_string_rm_char(s, (char)t_int(2)));
	} else if( t_is(0, "trim") ) { J_sz("r", harbol_string_trim_spaces(s));
	} else if( t_is(0, "count_char") ) { J_int("c", t_int(2)); J_sz("r", harbol_string_count_char(s, (char)t_int(2)));
	} else if( t_is(0, "find_char") ) { J_int("c", t_int(2)); J_sz("r", harbol_string_find_char(s, (char)t_int(2)));
	} else if( t_is(0, "count_cstr") ) { char *v = arg(2); J_bytes("v", v, strlen(v)); J_sz("r", harbol_string_count_cstr(s, v)); __real_free(v);
	} else if( t_is(0, "offsets") ) {             /* offsets O NEEDLE M */
		char *v = arg(2); size_t m = t_sz(3); if( m > 64 ) m = 64;
		size_t *at = __real_malloc(sizeof *at * (m? m : 1)); for( size_t i=0; i < m; i++ ) at[i] = 777777;
		bool r = harbol_string_cstr_offsets(s, v, at, m);
		J_bytes("v", v, strlen(v)); J_sz("n", m); J_bool("r", r); J_open("at", '[');
		for( size_t i=0; i < m; i++ ) { J_elem(); drv_first = false; J_raw_int((int64_t)at[i]); }
		J_close(']'); __real_free(at); __real_free(v);
	} else if( t_is(0, "empty") ) { J_bool("r", harbol_string_empty(s));
	} else if( t_is(0, "palindrome") ) { J_bool("r", harbol_string_is_palindrome(s));
	} else if( t_is(0, "cmp_str") ) { int r = harbol_string_cmpstr(s, self? s : c); J_bool("self", self); J_int("r", (r > 0) - (r < 0));
	} else if( t_is(0, "cmp_cstr") ) { char *v = arg(2); int r = harbol_string_cmpcstr(s, v); J_bytes("v", v, strlen(v)); J_int("r", (r > 0) - (r < 0)); __real_free(v);
	} else if( t_is(0, "scan_chars") ) {
		char b[2] = {0}; int n = harbol_string_scan(s, "%c%c", &b[0], &b[1]); J_int("r", n); J_bytes("v", b, n > 0? (size_t)n : 0);
	} else if( t_is(0, "scan_int") ) { int x = 0, n = harbol_string_scan(s, "%d", &x); J_int("r", n); J_int("x", x);
	} else J_str("unknown", op);
	project(); ev_end();
}
