/* drives mtwister/mtwister.h */
#include "drv.h"
#include "mtwister/mtwister.h"
static struct MTRand gen[4]; static bool has[4];
static void J_word32(uint64_t v) { fprintf(drv_out, "[%u,%lu]", (unsigned)(v & 0xFFFF), (unsigned long)(v >> 16)); }
static void drv_dispatch(void) {
	int const g = (int)t_int(1);
	if( t_is(0, "reset") ) { memset(gen, 0, sizeof gen); memset(has, 0, sizeof has); ev_begin("reset"); ev_end(); return; }
	if( t_is(0, "seed") ) { size_t const v = t_sz(2); gen[g] = MT_SeedRand(v); has[g] = true; ev_begin("seed"); J_int("g", g); J_key("v"); J_word32((uint32_t)v); ev_end(); return; }
	if( t_is(0, "fill") ) { size_t const v = t_sz(2) & 0xFFFFFFFFu; for( int i=0; i < STATE_VECTOR_LENGTH; i++ ) gen[g].mt[i] = v; gen[g].index = STATE_VECTOR_LENGTH; has[g] = true; ev_begin("fill"); J_int("g", g); J_key("v"); J_word32(v); ev_end(); return; }
	if( (t_is(0, "word") || t_is(0, "index")) && has[g] ) {   /* word G I V: one state word; index G N: where the generator stands */
		char const *op = t_word(0);
		if( t_is(0, "word") ) { int const i = (int)t_int(2); size_t const v = t_sz(3) & 0xFFFFFFFFu; gen[g].mt[i] = v; ev_begin(op); J_int("g", g); J_int("i", i); J_key("v"); J_word32(v); }
		else { size_t const n = t_sz(2); gen[g].index = n; ev_begin(op); J_int("g", g); J_int("n", n > 100000? 100000 : (int64_t)n); }
		ev_end(); return;
	}
	if( t_is(0, "copy") ) {
		int const h = (int)t_int(2);
		if( !has[h] ) { ev_begin("none"); J_int("g", h); ev_end(); return; }
		gen[g] = gen[h]; has[g] = true; ev_begin("copy"); J_int("g", g); J_int("h", h); ev_end(); return;
	}
	if( !has[g] ) { ev_begin("none"); J_int("g", g); ev_end(); return; }
	bool const f = t_is(0, "drawf"); int const n = (int)t_int(2); bool unit = true;
	ev_begin(f? "drawf" : "draw"); J_int("g", g); J_int("n", n); J_open("out", '[');
	for( int i=0; i < n; i++ ) {
		J_elem();
		if( f ) { double const d = MT_GenRand_F64(&gen[g]); if( !(d >= 0.0 && d <= 1.0) ) unit = false; J_word32((uint64_t)(d * 4294967295.0 + 0.5)); }
		else J_word32(MT_GenRand_UInt(&gen[g]));
		drv_first = false;
	}
	J_close(']'); if( f ) J_bool("unit", unit);
	ev_end();
}
