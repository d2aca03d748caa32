/* drives msg_sys/msg_sys.c and msg_span/msg_span.c (span operations only if MSG_SPAN is defined) */
#include "drv.h"
static FILE *outs[3]; static long total[3];
static size_t cnt[3], base[3];
/* "from C N": counter C stands at N already; what is reported is how far it went since */
static bool from(void) { if( !t_is(0, "from") ) return false; int const c = (int)t_int(1); cnt[c] = base[c] = t_sz(2); ev_begin("from"); J_int("c", c); return true; }
static void opt_bytes(char const *k, char const *s) { J_open(k, '['); if( s ) { J_elem(); J_raw_bytes(s, strlen(s)); drv_first = false; } J_close(']'); }
static void opt_num(char const *k, uint32_t const *p) { char b[20] = ""; if( p ) sprintf(b, "%u", *p); opt_bytes(k, p? b : NULL); }
static char *opt_cstr(int i) { return t_word(i)[0]=='x'? t_cstr(i) : NULL; }
/* what was written to stream s since the last look */
static char *grown(int s, size_t *n) {
	fflush(outs[s]); long const end = ftell(outs[s]); *n = (size_t)(end - total[s]);
	char *b = __real_calloc(*n + 1, 1); fseek(outs[s], total[s], SEEK_SET); size_t g = fread(b, 1, *n, outs[s]); (void)g; fseek(outs[s], 0, SEEK_END);
	total[s] = end; return b;
}
static void streams(void) {
	drv_counting = false;
	for( int s=1; s < 3; s++ ) { if( outs[s] ) fclose(outs[s]); char nm[20]; sprintf(nm, "out%d.txt", s); outs[s] = fopen(nm, "w+"); total[s] = 0; cnt[s] = base[s] = 0; }
	drv_counting = true;
}
#ifndef MSG_SPAN
#include "msg_sys/msg_sys.h"
static void drv_dispatch(void) {
	if( t_is(0, "reset") ) { streams(); ev_begin("reset"); }
	else if( from() ) ;
	else if( t_is(0, "msg") ) {
		int const s = (int)t_int(1), c = (int)t_int(2);
		char *file = opt_cstr(3), *type = t_cstr(6), *color = t_cstr(7), *text = t_cstr(8); int const form = (int)t_int(9);
		if( file && !*file ) { __real_free(file); file = NULL; }
		uint32_t line = (uint32_t)t_int(4), col = (uint32_t)t_int(5), *pl = t_int(4)==-1? NULL : &line, *pc = t_int(5)==-1? NULL : &col;
		char *expect = text;
		size_t *pcnt = c? &cnt[c] : NULL;
		if( form==0 ) harbol_write_msg(pcnt, outs[s], file, type, color, pl, pc, "%s", text);
		else if( form==1 ) { harbol_write_msg(pcnt, outs[s], file, type, color, pl, pc, "%d/%s/%c", form - 8, text, 'x'); expect = __real_malloc(strlen(text) + 20); sprintf(expect, "%d/%s/%c", form - 8, text, 'x'); }
		else { harbol_write_msg(pcnt, outs[s], file, type, color, pl, pc, "literal 100%%"); expect = strcpy(__real_malloc(20), "literal 100%"); }
		size_t n; char *o = grown(s, &n);
		ev_begin("msg"); J_int("s", s); J_int("c", c); opt_bytes("file", file); opt_num("line", pl); opt_num("col", pc);
		J_bytes("type", type, strlen(type)); J_bytes("color", color, strlen(color)); J_bytes("text", expect, strlen(expect)); J_bytes("out", o, n);
		if( expect != text ) __real_free(expect);
		__real_free(o); __real_free(file); __real_free(type); __real_free(color); __real_free(text);
	} else { fprintf(stderr, "unknown op\n"); exit(3); }
	J_open("total", '['); for( int s=1; s < 3; s++ ) { fflush(outs[s]); J_elem(); J_raw_int(ftell(outs[s])); drv_first = false; } J_close(']');
	J_open("cnt", '['); for( int c=1; c < 3; c++ ) { J_elem(); J_raw_int((int64_t)(cnt[c] - base[c])); drv_first = false; } J_close(']');
	J_int("heap", drv_live);
	ev_end();
}
#else
#include "msg_span/msg_span.h"
static struct HarbolMsgSpan ms; static bool exists; static char *keepc[1024]; static int nkeep;
static void finish(void) {
	J_open("lines", '[');
	for( size_t i=0; i < harbol_msg_span_get_num_lines(&ms); i++ ) { struct HarbolString const *x = harbol_msg_span_get_line(&ms, i); J_elem(); if( x==NULL ) J_raw_bytes("?", 1); else J_raw_bytes(x->cstr? x->cstr : "", x->len); drv_first = false; }
	J_close(']');
	struct HarbolString const *c = harbol_msg_span_get_code(&ms); J_bytes("code", c->cstr, c->cstr? c->len : 0);
	J_bytes("fname", ms.src.filename.cstr, ms.src.filename.cstr? ms.src.filename.len : 0);
	J_sz("nlab", ms.labels.len); J_sz("nnote", ms.notes.len); J_sz("count", cnt[1] - base[1]); J_int("heap", drv_live);
	ev_end();
}
static char *keep(char *s) { if( s ) keepc[nkeep++] = s; return s; }
static void wipe(void) { harbol_msg_span_clear(&ms); exists = false; for( int i=0; i < nkeep; i++ ) __real_free(keepc[i]); nkeep = 0; }
static void load(bool file, bool kp, int tok, bool made) {
	bool const have = t_word(tok)[0]=='x'; size_t n; char *t = (char*)t_bytes(tok, &n, 1); bool r;
	if( file ) { drv_counting = false; unlink("s.t"); if( have ) { FILE *f = fopen("s.t", "w"); fwrite(t, 1, n, f); fclose(f); } drv_counting = true; }
	if( made ) ms = harbol_msg_span_make(file? "s.t" : t, file, !kp, &r); else r = harbol_msg_span_init(&ms, file? "s.t" : t, file, !kp);
	exists = r;
	ev_begin(file? "file" : "text"); if( file ) { J_bytes("name", "s.t", 3); J_bool("exists", have); }
	J_bytes("t", t, n); J_bool("keep", kp); J_bool("r", r); finish(); __real_free(t);
}
static void span_of(int i, uint32_t v[4]) { for( int k=0; k < 4; k++ ) v[k] = (uint32_t)t_int(i + k); }
static void J_span(char const *k, uint32_t const v[4]) { J_open(k, '['); for( int i=0; i < 4; i++ ) { J_elem(); J_raw_int(v[i]); drv_first = false; } J_close(']'); }
static void drv_dispatch(void) {
	char const *op = t_word(0);
	if( t_is(0, "reset") ) { wipe(); streams(); ev_begin("reset"); finish(); return; }
	if( from() ) { finish(); return; }
	if( t_is(0, "try") ) { if( exists ) { ev_begin("none"); finish(); return; } load(t_is(1, "file"), true, 2, true); wipe(); ev_begin("clear"); finish(); load(t_is(1, "file"), false, 2, false); wipe(); ev_begin("clear"); finish(); return; }
	if( t_is(0, "text") || t_is(0, "file") ) { if( exists ) { ev_begin("none"); finish(); return; } load(op[0]=='f', t_int(1), 2, false); return; }
	if( t_is(0, "clear") ) { wipe(); if( t_int(1) ) wipe(); ev_begin("clear"); finish(); return; }
	if( t_is(0, "line") ) {
		struct HarbolString const *x = harbol_msg_span_get_line(&ms, t_sz(1));
		ev_begin(op); J_sz("i", t_sz(1)); J_bool("null", x==NULL); J_bytes("t", x? x->cstr : NULL, x && x->cstr? x->len : 0); finish(); return;
	}
	if( t_is(0, "merge") ) {
		uint32_t a[4], b[4]; span_of(1, a); span_of(5, b);
		struct HarbolTokenSpan const r = harbol_token_span_merge((struct HarbolTokenSpan){a[0], a[1], a[2], a[3]}, (struct HarbolTokenSpan){b[0], b[1], b[2], b[3]});
		uint32_t const c[4] = { r.line_start, r.line_end, r.colm_start, r.colm_end };
		ev_begin(op); J_span("a", a); J_span("b", b); J_span("c", c); finish(); return;
	}
	if( t_is(0, "label") ) {
		uint32_t v[4]; span_of(1, v);
		if( v[0] < 1 || v[0] > v[1] || v[1] > ms.src.len || v[2] > v[3] || nkeep > 1000 ) { ev_begin("none"); finish(); return; }
		char *sc = keep(opt_cstr(5)), *mc = opt_cstr(7), *t = t_cstr(8);
		struct HarbolTokenSpan const sp = { v[0], v[1], v[2], v[3] };
		bool const r = harbol_msg_span_add_label(&ms, sp, sc, (int32_t)t_int(6), mc, "%s", t);
		ev_begin(op); J_span("span", v); opt_bytes("symcolor", sc); J_int("sym", t_int(6)); opt_bytes("color", mc); J_bytes("t", t, strlen(t)); J_bool("r", r); finish();
		__real_free(mc); __real_free(t); return;
	}
	if( t_is(0, "note") ) {
		char *mc = t_cstr(1), *t = t_cstr(2); bool const r = harbol_msg_span_add_note(&ms, mc, "%s", t);
		ev_begin(op); opt_bytes("color", mc); J_bytes("t", t, strlen(t)); J_bool("r", r); finish(); __real_free(mc); __real_free(t); return;
	}
	if( t_is(0, "emit") ) {
		char *file = opt_cstr(2), *type = opt_cstr(3), *num = opt_cstr(4), *color = t_cstr(5), *t = t_cstr(8);
		uint32_t line = (uint32_t)t_int(6), col = (uint32_t)t_int(7), *pl = t_int(6)==-1? NULL : &line, *pc = t_int(7)==-1? NULL : &col;
		harbol_msg_span_emit_to_stream(&ms, t_int(1)? &cnt[1] : NULL, outs[1], file, type, num, color, pl, pc, "%s", t);
		size_t n; char *o = grown(1, &n);
		ev_begin(op); J_bool("counted", t_int(1)); opt_bytes("file", file); opt_bytes("type", type); opt_bytes("num", num); J_bytes("color", color, strlen(color));
		opt_num("line", pl); opt_num("col", pc); J_bytes("t", t, strlen(t)); J_bytes("out", o, n); finish();
		__real_free(o); __real_free(file); __real_free(type); __real_free(num); __real_free(color); __real_free(t); return;
	}
	fprintf(stderr, "unknown op %s\n", op); exit(3);
}
#endif
