/* drives lex/lex.c: a text, a cursor and a line counter.
 * Most operations take the fresh text as an optional last token x<hex>; otherwise they read at the cursor. */
#include "drv.h"
#include "lex/lex.h"

static char *text; static size_t len, pos; static uint32_t line;
static bool fresh;
static void set_text(int tok) { size_t n; __real_free(text); text = (char*)t_bytes(tok, &n, 1); len = n; pos = 0; line = 0; }
static bool is_wide(int32_t c) { return c != ';'; }
static bool is_solid(int32_t c) { return c > 32; }
static bool is_far(int32_t c) { return c >= 128; }
typedef bool Checker(int32_t);
static Checker *cls(char const *k) {
	return !strcmp(k, "alpha")? is_alphabetic : !strcmp(k, "id")? is_possible_id : !strcmp(k, "dec")? is_decimal : !strcmp(k, "oct")? is_octal
		: !strcmp(k, "hex")? is_hex : !strcmp(k, "bin")? is_binary : !strcmp(k, "ws")? is_whitespace : !strcmp(k, "solid")? is_solid : !strcmp(k, "far")? is_far : is_wide;
}
static struct HarbolString buf;
static char const *end;
static char const NOWHERE[1];
static void J_buf(void) { J_bytes("b", buf.cstr? buf.cstr : "", buf.cstr? buf.len : 0); }
static void J_end(void) { long e = end==NULL || end==NOWHERE? -1 : (long)(end - text); J_int("e", e); if( e >= 0 && (size_t)e <= len ) pos = (size_t)e; }
static void J_runes(char const *k, int32_t const *r, size_t n) {
	J_key(k); fputc('[', drv_out);
	for( size_t i=0; i < n; i++ ) fprintf(drv_out, i? ",%d" : "%d", (int)r[i]);
	fputc(']', drv_out);
}
static int32_t *t_runes(int i, size_t *n) {          /* bytes token -> runes */
	size_t m; uint8_t *b = t_bytes(i, &m, 0); int32_t *r = __real_calloc(m + 1, sizeof *r);
	for( size_t k=0; k < m; k++ ) r[k] = b[k];
	__real_free(b); *n = m; return r;
}
enum { NUM, IDENT, SKIP, SKIPLINE, WHILE, UNTIL, RUNES, QUOTE, CSKIP, CLEX, CCLR, BSKIP, BLEX, BCLR, MSKIP, MLEX, STR, ESC, NOPS };
static char const *const NAMES[NOPS] = { "num","ident","skip","skipline","while","until","whilerunes","skipquote","cskip","clex","cclear","bskip","blex","bclear","mskip","mlex","str","esc" };
static int const NARGS[NOPS] = { 1,0,1,1,1,1,1,1,0,0,0,1,1,1,2,1,1,1 };

static void drv_dispatch(void) {
	char const *op = t_word(0);
	if( t_is(0, "reset") ) { __real_free(text); text = __real_calloc(1, 1); len = pos = 0; line = 0; ev_begin("reset"); J_int("heap", drv_live); ev_end(); return; }
	memset(&buf, 0, sizeof buf); end = NOWHERE;
	int which = -1;
	for( int i=0; i < NOPS; i++ ) if( t_is(0, NAMES[i]) ) which = i;
	if( which >= 0 ) {
		int a = 1 + NARGS[which];
		if( drv_ntok > a ) set_text(a);
		fresh = drv_ntok > a;
		bool needs = which==QUOTE || which==STR;
		if( needs && pos >= len ) { ev_begin("none"); J_int("heap", drv_live); ev_end(); return; }
		size_t at = pos; char *s = text + pos; uint32_t before = line;
		ev_begin(op);
		J_bool("fresh", fresh); if( fresh ) J_bytes("t", text, len);
		char const *k = t_word(1);
		if( which != ESC && NARGS[which] > 0 && k[0] != 'x' ) J_str("k", k);
		size_t n = 0; uint8_t *tok = NARGS[which] > 0 && k[0]=='x'? t_bytes(1, &n, 1) : NULL;
		if( tok ) J_bytes("k", tok, n);
		switch( which ) {
			case NUM: {
				bool flt = false; int r = 0;
				if( t_is(1, "c") ) r = lex_c_style_number(s, &end, &buf, &flt);
				else if( t_is(1, "go") ) r = lex_go_style_number(s, &end, &buf, &flt);
				else if( t_is(1, "chex") ) r = lex_c_style_hex(s, &end, &buf, &flt);
				else if( t_is(1, "gohex") ) r = lex_go_style_hex(s, &end, &buf, &flt);
				else if( t_is(1, "cbin") ) r = lex_c_style_binary(s, &end, &buf);
				else if( t_is(1, "gobin") ) r = lex_go_style_binary(s, &end, &buf);
				else if( t_is(1, "coct") ) r = lex_c_style_octal(s, &end, &buf, &flt);
				else if( t_is(1, "gooct") ) r = lex_go_style_octal(s, &end, &buf);
				else if( t_is(1, "cdec") ) r = lex_c_style_decimal(s, &end, &buf, &flt);
				else r = lex_go_style_decimal(s, &end, &buf, &flt);
				J_int("r", r); J_bool("f", flt); J_bool("msg", lex_get_err(r) != NULL && strcmp(lex_get_err(r), "Unknown Lex error."));
				break; }
			case IDENT: J_bool("r", lex_c_style_identifier(s, &end, &buf)); break;
			case SKIP: end = skip_chars(s, cls(k), &line); break;
			case SKIPLINE: end = skip_chars_until_newline(s, cls(k)); break;
			case WHILE: J_bool("r", lex_until_false(s, &end, &buf, cls(k))); break;
			case UNTIL: J_bool("r", lex_until(s, &end, &buf, (char)t_int(1))); J_int("c", t_int(1)); break;
			case RUNES: J_bool("r", lex_until_false_utf8(s, &end, &buf, cls(k))); break;
			case QUOTE: J_int("c", t_int(1)); end = skip_string_literal(s, (char)t_int(1)); break;
			case CSKIP: end = skip_single_line_comment(s, &line); break;
			case CLEX: J_bool("r", lex_single_line_comment(s, &end, &buf, &line)); break;
			case CCLR: end = clear_single_line_comment(s); break;
			case BSKIP: end = skip_multi_line_comment(s, (char*)tok, n, &line); break;
			case BLEX: J_bool("r", lex_multi_line_comment(s, &end, (char*)tok, n, &buf, &line)); break;
			case BCLR: end = clear_multi_line_comment(s, (char*)tok, n); break;
			case MSKIP: J_int("c", t_int(2)); end = skip_multiquote_string(s, (char*)tok, n, (char)t_int(2)); break;
			case MLEX: { size_t ln = line; J_bool("r", lex_multiquote_string(s, &end, (char*)tok, n, &buf, &ln)); line = (uint32_t)ln; break; }
			case STR: { int r = t_is(1, "go")? lex_go_style_str(s, &end, &buf) : lex_c_style_str(s, &end, &buf); J_int("r", r); break; }
			case ESC: {
				J_str("k", k); int32_t v = !strcmp(k, "hex")? lex_hex_escape_char(s, &end) : !strcmp(k, "oct")? lex_octal_escape_char(s, &end) : lex_unicode_char(s, &end, !strcmp(k, "u")? 2 : 4);
				J_int("r", v); if( end==NOWHERE ) end = s; break; }
		}
		__real_free(tok);
		J_end(); J_buf(); J_int("n", line);
		if( which==CCLR || which==BCLR ) J_bytes("t2", text, len);
		J_bool("nul", text[len]==0 && (buf.cstr==NULL || buf.cstr[buf.len]==0));
		(void)at; (void)before;
		harbol_string_clear(&buf);
	} else if( t_is(0, "cursor") ) {
		pos = t_sz(1) <= len? t_sz(1) : len; ev_begin(op); J_int("e", pos);
	} else if( t_is(0, "fixnl") ) {                  /* fixnl TABS TEXT */
		set_text(2); ev_begin(op); J_bytes("t", text, len); J_bool("tabs", t_int(1) != 0);
		harbol_string_copy_cstr(&buf, text); lex_fix_newlines(&buf, t_int(1) != 0); J_buf();
		size_t m = buf.len; char *x = __real_calloc(m + 1, 1); if( m ) memcpy(x, buf.cstr, m); __real_free(text); text = x; len = m; pos = 0; line = 0;
		harbol_string_clear(&buf);
	} else if( t_is(0, "enc") ) {                    /* enc RUNE */
		int32_t r = (int32_t)t_int(1); char m[8]; memset(m, 0x55, 8);
		ev_begin(op); J_int("v", r); J_sz("len", rune_byte_len(r));
		size_t k = write_utf8_cstr(m, 8, r); J_bytes("b", m, k);
		bool ok = write_utf8_str(&buf, r); J_bytes("b2", buf.cstr? buf.cstr : "", buf.cstr? buf.len : 0); J_bool("ok", ok); harbol_string_clear(&buf);
	} else if( t_is(0, "encin") ) {                  /* encin RUNE ROOM */
		int32_t r = (int32_t)t_int(1); size_t room = t_sz(2); char *m = __real_malloc(room + (room==0));
		ev_begin(op); J_int("v", r); J_int("room", room); size_t k = write_utf8_cstr(m, room, r); J_sz("k", k); J_bytes("b", m, k <= room? k : 0); __real_free(m);
	} else if( t_is(0, "encrange") ) {
		int32_t lo = (int32_t)t_int(1), hi = (int32_t)t_int(2);
		ev_begin(op); J_int("lo", lo); J_int("hi", hi);
		int32_t *rs = __real_calloc((size_t)(hi - lo) + 2, sizeof *rs); size_t back = 0;
		for( int32_t r = lo; r <= hi; r++ ) { char m[4]; size_t k = write_utf8_cstr(m, 4, r); for( size_t j=0; j < k; j++ ) harbol_string_add_char(&buf, m[j]); rs[r - lo] = r; }
		J_buf();
		for( size_t i=0; i < buf.len; ) { int32_t v; size_t k = read_utf8(buf.cstr + i, buf.len - i, &v); if( k==0 || back > (size_t)(hi - lo) || v != rs[back] ) break; back++; i += k; }
		J_sz("back", back); __real_free(rs); harbol_string_clear(&buf);
	} else if( t_is(0, "dec") ) {                    /* dec AVAIL [TEXT]: decode at the cursor, AVAIL bytes are the text */
		fresh = drv_ntok > 2; if( fresh ) set_text(2);
		size_t av = t_sz(1) <= len - pos? t_sz(1) : len - pos;
		char *m = __real_malloc(av + (av==0)); memcpy(m, text + pos, av + (av==0));   /* exactly the available bytes */
		ev_begin(op); J_bool("fresh", fresh); if( fresh ) J_bytes("t", text, len);
		J_sz("avail", av); int32_t v = -7; size_t k = read_utf8(m, av, &v); int32_t v2 = read_utf8_rune(m, av);
		J_sz("m", k); J_int("v", v); J_int("v2", v2); __real_free(m);
	} else if( t_is(0, "next") ) {                   /* utf8_to_rune_iter at the cursor */
		fresh = drv_ntok > 1; if( fresh ) set_text(1);
		char *m = __real_malloc(len + (len==0)); memcpy(m, text, len);
		ev_begin(op); J_bool("fresh", fresh); if( fresh ) J_bytes("t", text, len);
		size_t i = pos; int32_t v = utf8_to_rune_iter(m, len, &i); J_int("v", v); J_sz("e", i); if( i <= len ) pos = i; __real_free(m);
	} else if( t_is(0, "runes") ) {                  /* runes HOW TEXT */
		set_text(2); ev_begin(op); J_bytes("t", text, len);
		size_t n = 77; int32_t *rs = NULL;
		if( t_is(1, "str") ) { harbol_string_copy_cstr(&buf, text); if( buf.cstr ) rs = utf8_str_to_rune(&buf, &n); else rs = utf8_cstr_to_rune(text, len, &n); harbol_string_clear(&buf); }
		else if( t_is(1, "file") && len > 0 ) { FILE *f = fopen("in.txt", "wb"); fwrite(text, 1, len, f); fclose(f); f = fopen("in.txt", "rb"); rs = runes_from_stream(f, &n); fclose(f); }
		else rs = utf8_cstr_to_rune(text, len, &n);
		J_runes("rs", rs, rs && n < 100000? n : 0); J_sz("len", n); J_bool("zero", rs != NULL && n < 100000 && rs[n]==0);
		size_t bl = 0; char *back = rs? rune_to_utf8_cstr(rs, &bl) : NULL; J_bytes("back", back? back : "", back? bl : 0);
		J_sz("count", get_str_rune_len(text));
		free(back); free(rs);
	} else if( t_is(0, "runeclass") ) {              /* runeclass LO HI: where each predicate changes, along the runes LO..HI */
		static struct { char const *k; bool (*f)(int32_t); } const preds[] = { {"valid", is_valid_unicode}, {"alpha", is_alphabetic}, {"id", is_possible_id}, {"dec", is_decimal}, {"oct", is_octal}, {"hex", is_hex}, {"bin", is_binary}, {"ws", is_whitespace} };
		int32_t lo = (int32_t)t_int(1), hi = (int32_t)t_int(2);
		ev_begin(op); J_int("lo", lo); J_int("hi", hi); J_open("r", '{');
		for( size_t p=0; p < sizeof preds / sizeof *preds; p++ ) {
			bool was = false; J_open(preds[p].k, '[');
			for( int32_t c = lo; c <= hi; c++ ) { bool is = preds[p].f(c); if( is != was ) { J_elem(); fprintf(drv_out, "%d", (int)c); drv_first = false; } was = is; }
			J_close(']');
		}
		J_close('}');
	} else if( t_is(0, "classify") ) {
		int32_t c = (char)t_int(1); ev_begin(op); J_int("c", t_int(1)); J_open("r", '{');
		J_bool("alpha", is_alphabetic(c)); J_bool("id", is_possible_id(c)); J_bool("dec", is_decimal(c)); J_bool("oct", is_octal(c)); J_bool("hex", is_hex(c)); J_bool("bin", is_binary(c)); J_bool("ws", is_whitespace(c));
		J_close('}'); J_sz("lead", get_utf8_len((char)t_int(1)));
	} else if( t_is(0, "checkis") ) {                /* checkis IDX C LEN TEXT (text of 7-bit characters) */
		set_text(4); size_t n; int32_t *rs = t_runes(4, &n);
		ev_begin(op); J_bytes("t", text, len); J_int("i", t_int(1)); J_int("c", t_int(2)); J_int("len", t_int(3));
		J_bool("r", check_is_char(text, t_sz(3), t_sz(1), (int32_t)t_int(2))); J_bool("r2", check_is_rune(rs, t_sz(3), t_sz(1), (int32_t)t_int(2))); __real_free(rs);
	} else if( t_is(0, "findrune") ) {               /* findrune C TEXT */
		set_text(2); size_t n; int32_t *rs = t_runes(2, &n); ev_begin(op); J_bytes("t", text, len); J_int("c", t_int(1));
		J_sz("r", find_rune_in_runes(rs, (int32_t)t_int(1))); J_bool("has", has_rune_in_runes(rs, (int32_t)t_int(1))); __real_free(rs);
	} else if( t_is(0, "toint") ) {                  /* toint c|go TEXT */
		set_text(2); ev_begin(op); J_bytes("t", text, len); J_bool("go", t_is(1, "go"));
		harbol_string_copy_cstr(&buf, text); char *e1 = NULL, *e2 = NULL; bool go = t_is(1, "go");
		if( buf.cstr==NULL ) harbol_string_add_char(&buf, 'z');
		int64_t i = go? lex_go_string_to_int(&buf, &e1) : lex_c_string_to_int(&buf, &e1);
		uint64_t u = go? lex_go_string_to_uint(&buf, &e2) : lex_c_string_to_uint(&buf, &e2);
		int64_t i2 = go? lex_go_string_to_int(&buf, NULL) : lex_c_string_to_int(&buf, NULL);
		J_limbs("i", (uint64_t)i); J_limbs("u", u); J_int("ie", e1? e1 - buf.cstr : -1); J_int("ue", e2? e2 - buf.cstr : -1); J_bool("same", i==i2);
		harbol_string_clear(&buf);
	} else if( t_is(0, "tobase") ) {                 /* tobase cstr|runes BASE NUMERALS TEXT */
		set_text(4); size_t m; uint8_t *num = t_bytes(3, &m, 1); size_t rn, nn; int32_t *rs = t_runes(4, &rn), *ns = t_runes(3, &nn);
		ev_begin(op); J_bytes("t", text, len); J_int("base", t_int(2)); J_bytes("num", num, m); J_str("k", t_word(1));
		bool ir = false, ur = false; int64_t i; uint64_t u; uint_fast8_t b = (uint_fast8_t)t_int(2);
		if( t_is(1, "cstr") ) { i = convert_cstr_to_base_int(text, b, (char*)num, &ir); u = convert_cstr_to_base_uint(text, b, (char*)num, &ur); }
		else { i = convert_runes_to_base_int(rs, b, ns, &ir); u = convert_runes_to_base_uint(rs, b, ns, &ur); }
		J_bool("ir", ir); J_bool("ur", ur); J_limbs("i", (uint64_t)i); J_limbs("u", u);
		__real_free(num); __real_free(rs); __real_free(ns);
	} else if( t_is(0, "tofloat") ) {
		set_text(1); ev_begin(op); J_bytes("t", text, len); harbol_string_copy_cstr(&buf, text); floatmax_t f = lex_string_to_float(&buf);
		J_int("x1000", f > -1e6 && f < 1e6? (long)(f * 1000 + (f < 0? -.5L : .5L)) : -1); J_int("x16", f > -1e6 && f < 1e6? (long)(f * 16 + .5L) : -1);
		harbol_string_clear(&buf);
	} else { ev_begin(op); J_str("unknown", op); }
	J_int("heap", drv_live); ev_end();
}
