/* drives the expression evaluator; names are supplied by a dictionary set up from the script */
#include "drv.h"
#include <math.h>
#include "math/math_parser.h"
#define MAXB 64
static struct { char *name; char fn[12]; floatmax_t v; } bind[MAXB]; static int nbind;
static floatmax_t f_dbl(floatmax_t x) { return 2 * x; }
static floatmax_t f_half(floatmax_t x) { return x / 2; }
static floatmax_t f_inc(floatmax_t x) { return x + 1; }
static floatmax_t f_sq(floatmax_t x) { return x * x; }
static floatmax_t f_id(floatmax_t x) { return x; }
static void J_value(floatmax_t v) {
	unsigned char z[16] = {0}; memcpy(z, &v, 10);
	static unsigned char const bad[10] = {255,255,255,255,255,255,255,255,0,0};
	char const *k = "other"; int64_t n = 0, d = 0, micro = 0;
	if( !memcmp(z, bad, 10) ) k = "err";
	else if( v==v && fabsl(v) < 1e18L ) {
		if( fabsl(v) < 1000 ) micro = (int64_t)floorl(v * 1000000);
		for( d=0; d <= 20; d++ ) { floatmax_t s = v * (floatmax_t)(1 << d); if( s==floorl(s) && fabsl(s) < 1000000000.0L ) { k = "num"; n = (int64_t)s; break; } }
		if( d > 20 ) d = 0;
	}
	drv_first = true; fputc('{', drv_out); J_str("k", k); J_int("n", n); J_int("d", d); J_int("micro", micro); fputc('}', drv_out); drv_first = false;
}
static struct { char *name; bool call; floatmax_t arg; } ask[8192]; static int nask; static bool data_ok, logging; static int magic;
static int pend[8192]; static int npend;
static void logit(char const *name, bool call, floatmax_t arg) { if( logging && nask < 8192 ) { ask[nask].name = __real_malloc(strlen(name) + 1); strcpy(ask[nask].name, name); ask[nask].call = call; ask[nask].arg = arg; nask++; } }
/* one C function per dictionary slot, so that the call tells which name was meant */
static floatmax_t slot_call(int i, floatmax_t x) {
	logit(bind[i].name, true, x);
	char const *f = bind[i].fn;
	return !strcmp(f, "dbl")? f_dbl(x) : !strcmp(f, "half")? f_half(x) : !strcmp(f, "inc")? f_inc(x) : !strcmp(f, "sq")? f_sq(x) : f_id(x);
}
#define S(i) static floatmax_t slot##i(floatmax_t x) { return slot_call(i, x); }
S(0) S(1) S(2) S(3) S(4) S(5) S(6) S(7) S(8) S(9) S(10) S(11) S(12) S(13) S(14) S(15)
static HarbolMathFunc *const slots[16] = { slot0, slot1, slot2, slot3, slot4, slot5, slot6, slot7, slot8, slot9, slot10, slot11, slot12, slot13, slot14, slot15 };
static void own(char const name[], size_t len, floatmax_t *value, HarbolMathFunc **fn, void *data, size_t data_len, bool *is_func) {
	if( data != &magic || data_len != 12345 || len != strlen(name) || *fn != NULL || *is_func ) data_ok = false;
	logit(name, false, 0);
	for( int i=0; i < nbind; i++ ) if( !strcmp(bind[i].name, name) ) {
		if( bind[i].fn[0] ) { *fn = slots[i]; *is_func = true; } else *value = bind[i].v;
		return;
	}
}
static int find(char const *n) { for( int i=0; i < nbind; i++ ) if( !strcmp(bind[i].name, n) ) return i; return -1; }
static void drop(int i) { __real_free(bind[i].name); bind[i] = bind[--nbind]; }
static void drv_dispatch(void) {
	char const *op = t_word(0);
	if( t_is(0, "reset") ) { while( nbind ) drop(0); ev_begin("reset"); ev_end(); return; }
	if( t_is(0, "bind") ) {                   /* bind NAME FUNCTION|- N D */
		char *n = t_cstr(1); int i = find(n); if( i >= 0 ) drop(i);
		if( nbind >= 16 ) { __real_free(n); return; }
		bool const var = t_is(2, "-");
		bind[nbind].name = n; snprintf(bind[nbind].fn, 12, "%s", var? "" : t_word(2)); bind[nbind].v = (floatmax_t)t_int(3) / (floatmax_t)(1 << t_int(4)); nbind++;
		ev_begin(op); J_bytes("name", n, strlen(n)); J_str("f", var? "" : t_word(2)); J_int("n", var? t_int(3) : 0); J_int("d", var? t_int(4) : 0); ev_end();
	} else if( t_is(0, "unbind") ) {
		char *n = t_cstr(1); int i = find(n); if( i >= 0 ) drop(i);
		ev_begin(op); J_bytes("name", n, strlen(n)); ev_end(); __real_free(n);
	} else if( t_is(0, "sum") ) {             /* sum own|default|none FIRST UNIT K: FIRST followed by K times UNIT */
		size_t n, m, k = t_sz(4); char *a = (char*)t_bytes(2, &n, 1), *u = (char*)t_bytes(3, &m, 1), *s = __real_malloc(n + m * k + 1);
		memcpy(s, a, n); for( size_t i=0; i < k; i++ ) memcpy(s + n + i * m, u, m);
		s[n + m * k] = 0;
		floatmax_t v = harbol_math_parse_expr(s, t_is(1, "own")? own : t_is(1, "default")? harbol_math_default_var_func : NULL, &magic, 12345);
		ev_begin(op); J_bytes("s", a, n); J_bytes("u", u, m); J_sz("n", k); J_str("mode", t_word(1)); J_key("res"); J_value(v); J_int("heap", drv_live); ev_end();
		__real_free(a); __real_free(u); __real_free(s);
	} else if( t_is(0, "eval") ) {            /* eval own|default|none TEXT */
		size_t n; char *s = (char*)t_bytes(2, &n, 1), *copy = __real_malloc(n + 1); memcpy(copy, s, n + 1);
		HarbolMathVarFunc *vf = t_is(1, "own")? own : t_is(1, "default")? harbol_math_default_var_func : NULL;
		nask = 0; data_ok = true; logging = true;
		floatmax_t a = harbol_math_parse_expr(s, vf, &magic, 12345);
		logging = false;
		floatmax_t b = harbol_math_parse_expr(s, vf, &magic, 12345);
		ev_begin(op); J_bytes("s", copy, n); J_str("mode", t_word(1));
		J_key("res"); J_value(a);
		J_open("asked", '['); for( int i=0; i < nask; i++ ) {
			J_elem(); fputc('{', drv_out); drv_first = true;
			J_bytes("name", ask[i].name, strlen(ask[i].name)); J_bool("call", ask[i].call); J_key("arg"); J_value(ask[i].arg);
			fputc('}', drv_out); drv_first = false; __real_free(ask[i].name);
		}
		J_close(']');
		J_bool("again", !memcmp(&a, &b, 10) || (a != a && b != b)); J_bool("same", !memcmp(s, copy, n + 1)); J_bool("data", data_ok); J_int("heap", drv_live);
		ev_end(); __real_free(s); __real_free(copy);
	}
}
