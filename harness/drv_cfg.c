/* drives the configuration module: parsing, access by path, writing */
#include "drv.h"
#include <math.h>
#include "cfg/cfg.h"
static struct HarbolMap *cfg;
static void J_value(floatmax_t v, bool wide) {
	unsigned char z[16] = {0}; memcpy(z, &v, 10);
	static unsigned char const bad[10] = {255,255,255,255,255,255,255,255,0,0};
	char const *k = "other"; int64_t n = 0, d = 0, micro = 0;
	if( !memcmp(z, bad, 10) ) k = "err";
	else if( v != v || fabsl(v) > 1e4900L ) k = "nonfinite";
	else if( fabsl(v) < 1e18L ) {
		if( fabsl(v) < 1000 ) micro = llroundl(v * 1000000);
		for( d=0; d <= 20; d++ ) { floatmax_t s = v * (floatmax_t)(1 << d); if( s==floorl(s) && fabsl(s) < 1000000000.0L ) { k = "num"; n = (int64_t)s; break; } }
		if( d > 20 ) d = 0;
	}
	if( !wide && v==v && fabsl(v) > 1e38L * 4 ) k = "nonfinite";
	drv_first = true; fputc('{', drv_out); J_str("k", k); J_int("n", n); J_int("d", d); J_int("micro", micro); J_bytes("raw", z, 10); fputc('}', drv_out); drv_first = false;
}
static char const *tag_name(int t) {
	switch( t ) {
		case HarbolCfgType_Null: return "null"; case HarbolCfgType_Map: return "map"; case HarbolCfgType_String: return "str"; case HarbolCfgType_Float: return "float";
		case HarbolCfgType_Int: return "int"; case HarbolCfgType_Bool: return "bool"; case HarbolCfgType_Color: return "color"; case HarbolCfgType_Vec4D: return "vec"; case HarbolCfgType_Invalid: return "none";
	}
	return "?";
}
static void dump(struct HarbolMap const *m);
static void J_entry_value(int tag, void const *data) {
	switch( tag ) {
		case HarbolCfgType_Map: dump(*(struct HarbolMap *const*)data); break;
		case HarbolCfgType_String: { struct HarbolString const *s = *(struct HarbolString *const*)data; size_t n = s->cstr? strlen(s->cstr) : 0; if( n != s->len ) fputs("[0,0,0]", drv_out); else J_raw_bytes(s->cstr? s->cstr : "", n); break; }
		case HarbolCfgType_Float: J_value(*(floatmax_t const*)data, true); break;
		case HarbolCfgType_Int: J_raw_limbs((uint64_t)*(intmax_t const*)data); break;
		case HarbolCfgType_Bool: fputs(*(bool const*)data? "true" : "false", drv_out); break;
		case HarbolCfgType_Color: J_raw_bytes(data, 4); break;
		case HarbolCfgType_Vec4D: { struct HarbolVec4D const *v = data; fputc('[', drv_out); J_value(v->x, false); fputc(',', drv_out); J_value(v->y, false); fputc(',', drv_out); J_value(v->z, false); fputc(',', drv_out); J_value(v->w, false); fputc(']', drv_out); break; }
		default: fputc('0', drv_out);
	}
}
static void dump(struct HarbolMap const *m) {
	static int depth; depth++;             /* very deep trees (not specified) are cut off */
	fputc('[', drv_out);
	for( size_t i=0; m != NULL && i < m->len && depth < 110; i++ ) {
		struct HarbolVariant const *v = (void const*)m->datum[i];
		char const *k = (char const*)m->keys[i];
		fprintf(drv_out, i? ",{" : "{"); drv_first = true;
		J_bytes("k", k, strlen(k)); J_str("t", tag_name(v->tag)); J_key("v"); J_entry_value(v->tag, v->data);
		fputc('}', drv_out); drv_first = false;
	}
	fputc(']', drv_out); drv_first = false; depth--;
}
static void J_tree(char const *k, struct HarbolMap const *m) { J_key(k); dump(m); }
static struct { char name[64]; } names[64]; static int nnames;
static void note_name(char const *n) { for( int i=0; i < nnames; i++ ) if( !strcmp(names[i].name, n) ) return; if( nnames < 64 ) snprintf(names[nnames++].name, 64, "%s", n); }
static bool safe(char const *n) { return *n && strlen(n) < 60 && !strchr(n, '/') && n[0] != '.'; }
static uint8_t *slurp(char const *n, size_t *len) { static uint8_t buf[1 << 20]; FILE *f = fopen(n, "rb"); *len = f? fread(buf, 1, sizeof buf, f) : 0; if( f ) fclose(f); return buf; }
static floatmax_t frac(int i) { char const *s = t_word(i), *p = strchr(s, '/'); long n = strtol(s, NULL, 10), d = p? strtol(p + 1, NULL, 10) : 0; return (floatmax_t)n / (floatmax_t)(1L << d); }
static void J_frac(int i) { char const *s = t_word(i), *p = strchr(s, '/'); fprintf(drv_out, "[%ld,%ld]", strtol(s, NULL, 10), p? strtol(p + 1, NULL, 10) : 0L); }
static void drv_dispatch(void) {
	char const *op = t_word(0);
	if( t_is(0, "reset") ) {
		if( cfg ) harbol_cfg_free(&cfg);
		while( nnames > 0 ) unlink(names[--nnames].name);
		ev_begin("reset"); J_int("heap", drv_live); ev_end();
	} else if( t_is(0, "file") ) {            /* file NAME CONTENT */
		char *n = t_cstr(1); size_t len; uint8_t *c = t_bytes(2, &len, 1);
		if( safe(n) ) { FILE *f = fopen(n, "wb"); fwrite(c, 1, len, f); fclose(f); note_name(n); ev_begin(op); J_bytes("n", n, strlen(n)); J_bytes("c", c, len); ev_end(); }
		__real_free(n); __real_free(c);
	} else if( t_is(0, "parse") || t_is(0, "load") ) {
		size_t n; char *s = (char*)t_bytes(1, &n, 1), *copy = __real_malloc(n + 1); memcpy(copy, s, n + 1);
		if( cfg ) harbol_cfg_free(&cfg);
		long const heap = drv_live;
		cfg = t_is(0, "load")? harbol_cfg_parse_file(s) : harbol_cfg_parse_cstr(s);
		ev_begin(op); J_bytes(t_is(0, "load")? "n" : "s", copy, n); J_bool("ok", cfg != NULL); J_tree("tree", cfg); J_bool("same", !memcmp(s, copy, n + 1)); J_int("heap", heap + (cfg==NULL? drv_live : 0)); ev_end();
		__real_free(s); __real_free(copy);
	} else if( cfg==NULL ) return;
	else if( t_is(0, "free") ) { harbol_cfg_free(&cfg); ev_begin(op); J_bool("null", cfg==NULL); J_int("heap", drv_live); ev_end(); cfg = NULL; }
	else if( t_is(0, "get") ) {
		char *p = t_cstr(1); int const typ = harbol_cfg_get_type(cfg, p); size_t cl = 987654321; void const *v = NULL; int vt = -1;
		ev_begin(op); J_bytes("p", p, strlen(p)); J_str("typ", tag_name(typ)); J_open("got", '[');
		struct HarbolMap *m = harbol_cfg_get_section(cfg, p); struct HarbolString *s = harbol_cfg_get_str(cfg, p); char *c = harbol_cfg_get_cstr(cfg, p, &cl);
		#define GOT(x, name, tg, ptr) if( (x) != NULL ) { J_elem(); fputs("\"" name "\"", drv_out); drv_first = false; v = (ptr); vt = (tg); }
		GOT(m, "map", HarbolCfgType_Map, &m) GOT(s, "str", HarbolCfgType_String, &s)
		if( c != NULL || (s != NULL && s->cstr==NULL) ) { J_elem(); fputs(s != NULL && c==s->cstr && cl==s->len? "\"cstr\"" : "\"badcstr\"", drv_out); drv_first = false; }
		void *x;
		GOT(x = harbol_cfg_get_float(cfg, p), "float", HarbolCfgType_Float, x) GOT(x = harbol_cfg_get_int(cfg, p), "int", HarbolCfgType_Int, x) GOT(x = harbol_cfg_get_bool(cfg, p), "bool", HarbolCfgType_Bool, x)
		GOT(x = harbol_cfg_get_color(cfg, p), "color", HarbolCfgType_Color, x) GOT(x = harbol_cfg_get_vec4D(cfg, p), "vec", HarbolCfgType_Vec4D, x)
		J_close(']'); J_key("v"); J_entry_value(vt, v); drv_first = false; ev_end(); __real_free(p);
	} else if( t_is(0, "set") ) {             /* set PATH TYPE CONVERT VALUE... */
		char *p = t_cstr(1); bool const conv = t_int(3) != 0; bool r = false; char const *t = t_word(2);
		ev_begin(op); J_bytes("p", p, strlen(p)); J_str("t", !strcmp(t, "hstr")? "str" : t); J_bool("conv", conv); J_key("v");
		if( !strcmp(t, "int") ) { r = harbol_cfg_set_int(cfg, p, t_int(4), conv); J_raw_limbs((uint64_t)t_int(4)); }
		else if( !strcmp(t, "bool") ) { r = harbol_cfg_set_bool(cfg, p, t_int(4) != 0, conv); fputs(t_int(4)? "true" : "false", drv_out); }
		else if( !strcmp(t, "float") ) { r = harbol_cfg_set_float(cfg, p, frac(4), conv); J_frac(4); }
		else if( !strcmp(t, "str") ) { char *v = t_cstr(4); r = harbol_cfg_set_cstr(cfg, p, v, conv); J_raw_bytes(v, strlen(v)); memset(v, '!', strlen(v)); __real_free(v); }
		else if( !strcmp(t, "hstr") ) { char *v = t_cstr(4); struct HarbolString h = {0}; if( *v ) h = harbol_string_make(v, &(bool){0}); r = harbol_cfg_set_str(cfg, p, h, conv); J_raw_bytes(v, strlen(v)); harbol_string_clear(&h); __real_free(v); }
		else if( !strcmp(t, "color") ) { union HarbolColor c; for( int i=0; i < 4; i++ ) c.array[i] = (uint8_t)t_int(4 + i); r = harbol_cfg_set_color(cfg, p, c, conv); J_raw_bytes(c.array, 4); }
		else if( !strcmp(t, "vec") ) { struct HarbolVec4D c = { frac(4), frac(5), frac(6), frac(7) }; r = harbol_cfg_set_vec4D(cfg, p, c, conv); fputc('[', drv_out); for( int i=0; i < 4; i++ ) { if( i ) fputc(',', drv_out); J_frac(4 + i); } fputc(']', drv_out); }
		else { r = harbol_cfg_set_to_null(cfg, p); fputc('0', drv_out); }
		drv_first = false; J_bool("r", r); J_tree("tree", cfg); ev_end(); __real_free(p);
	} else if( t_is(0, "render") ) {
		struct HarbolString s = harbol_cfg_to_str(cfg);
		struct HarbolMap *again = harbol_cfg_parse_cstr(s.cstr? s.cstr : "");
		ev_begin(op); J_bytes("text", s.cstr? s.cstr : "", s.cstr? strlen(s.cstr) : 0); J_tree("tree", again); ev_end();
		harbol_string_clear(&s); harbol_cfg_free(&again);
	} else if( t_is(0, "build") ) {           /* build NAME OVERWRITE */
		char *n = t_cstr(1); bool over = t_int(2) != 0; size_t before; slurp(n, &before);
		if( safe(n) ) {
			note_name(n); if( before > 1000 ) over = true;       /* keeps the files small */
			bool const r = harbol_cfg_build_file(cfg, n, over);
			struct HarbolMap *again = harbol_cfg_parse_file(n); size_t len; uint8_t *c = slurp(n, &len);
			ev_begin(op); J_bytes("n", n, strlen(n)); J_bool("over", over); J_bool("r", r); J_bytes("c", c, len); J_bool("ok", again != NULL); J_tree("tree", again); ev_end();
			if( again ) harbol_cfg_free(&again);
		}
		__real_free(n);
	} else if( t_is(0, "buildlim") ) {        /* buildlim NAME ROOM: only ROOM bytes can be written */
		char *n = t_cstr(1); long const room = (long)t_int(2);
		if( safe(n) ) {
			note_name(n); fflush(drv_out); drv_fsize(room);
			bool const r = harbol_cfg_build_file(cfg, n, true);
			drv_fsize(-1);
			struct HarbolMap *again = harbol_cfg_parse_file(n); size_t len; uint8_t *c = slurp(n, &len);
			ev_begin(op); J_bytes("n", n, strlen(n)); J_int("room", room); J_bool("r", r); J_bytes("c", c, len); J_bool("ok", again != NULL); J_tree("tree", again); ev_end();
			if( again ) harbol_cfg_free(&again);
		}
		__real_free(n);
	} else if( t_is(0, "builddir") ) {        /* a file that cannot be opened */
		bool const r = harbol_cfg_build_file(cfg, ".", t_int(1) != 0); ev_begin(op); J_bool("r", r); ev_end();
	} else if( t_is(0, "calc") ) {
		char *p = t_cstr(1); floatmax_t const v = harbol_cfg_calc_math(cfg, p, NULL, NULL, 0);
		ev_begin(op); J_bytes("p", p, strlen(p)); J_key("res"); J_value(v, true); ev_end(); __real_free(p);
	}
}
