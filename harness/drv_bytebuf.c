/* drives bytebuffer/bytebuffer.c: two buffers */
#include "drv.h"
#include "bytebuffer/bytebuffer.h"

static struct HarbolByteBuf A[2], *P[2];
static bool heap_obj[2];
static size_t limit = 600;      /* longer buffers are left alone: keeps the traces small */

static void project(void) {
	J_open("st", '[');
	for( int i=0; i < 2; i++ ) {
		J_elem(); J_close('{'); drv_first = true;
		struct HarbolByteBuf *b = P[i];
		J_bool("exists", b != NULL);
		uint8_t *d = b? harbol_bytebuffer_get_buffer(b) : NULL;
		size_t len = b? harbol_bytebuffer_len(b) : 0;
		J_sz("len", len);
		J_sz("cap", b? harbol_bytebuffer_cap(b) : 0);
		J_bytes("bytes", d? d : (uint8_t*)"", d && len < 1000000? len : 0);
		J_close('}');
	}
	J_close(']');
	J_bool("oom", drv_failed);
	J_int("heap", drv_live);
}
static void release(int i) {
	if( P[i]==NULL ) return;
	if( heap_obj[i] ) harbol_bytebuffer_free(&P[i]); else harbol_bytebuffer_clear(P[i]);
	P[i] = NULL;
}
static void put_file(char const *name, void const *p, size_t n) { FILE *f = fopen(name, "wb"); if( f ) { fwrite(p, 1, n, f); fclose(f); } }

static void drv_dispatch(void) {
	char const *op = t_word(0);
	int o = (int)t_int(1) - 1;
	if( t_is(0, "reset") ) { limit = t_int(1)? (size_t)t_int(1) : 600; release(0); release(1); memset(A, 0, sizeof A); ev_begin("reset"); project(); ev_end(); return; }
	struct HarbolByteBuf *b = P[o], *c = P[1 - o];
	bool pair = t_is(0, "append") || t_is(0, "copy"), self = t_int(2) != 0;
	bool none = !t_is(0, "new") && !t_is(0, "release") && (b==NULL || (pair && !self && c==NULL));
	none = none || (b && harbol_bytebuffer_len(b) > limit && !t_is(0, "del") && !t_is(0, "clear") && !t_is(0, "release"));
	ev_begin(none? "none" : op); J_int("o", o + 1);
	if( none ) { ;
	} else if( t_is(0, "new") ) {
		bool r = false;
		if( b==NULL ) {
			if( t_int(2) ) { P[o] = harbol_bytebuffer_new(); heap_obj[o] = true; r = P[o] != NULL; }
			else { A[o] = harbol_bytebuffer_make(); P[o] = &A[o]; heap_obj[o] = false; r = true; }
		}
		J_bool("r", r);
	} else if( t_is(0, "release") ) { release(o); J_bool("r", true);
	} else if( t_is(0, "clear") ) { harbol_bytebuffer_clear(b); J_bool("r", true);
	} else if( t_is(0, "insert") ) {                  /* insert O KIND HEX */
		size_t n; uint8_t *v = t_bytes(3, &n, 32); bool r = false;
		uint8_t *full = __real_calloc(n + 64, 1); memcpy(full, v, n); size_t m = n;
		char const *k = t_word(2);
		J_str("kind", k);
		if( !strcmp(k, "byte") ) { r = harbol_bytebuffer_insert_byte(b, v[0]); m = 1; }
		else if( !strcmp(k, "i16") ) { uint16_t x; memcpy(&x, v, 2); r = harbol_bytebuffer_insert_int16(b, x); m = 2; }
		else if( !strcmp(k, "i32") ) { uint32_t x; memcpy(&x, v, 4); r = harbol_bytebuffer_insert_int32(b, x); m = 4; }
		else if( !strcmp(k, "i64") ) { uint64_t x; memcpy(&x, v, 8); r = harbol_bytebuffer_insert_int64(b, x); m = 8; }
		else if( !strcmp(k, "ptr") ) { uintptr_t x; memcpy(&x, v, sizeof x); r = harbol_bytebuffer_insert_ptr(b, x); m = sizeof x; }
		else if( !strcmp(k, "f32") ) { float x; memcpy(&x, v, 4); r = harbol_bytebuffer_insert_float32(b, x); m = 4; }
		else if( !strcmp(k, "f64") ) { double x; memcpy(&x, v, 8); r = harbol_bytebuffer_insert_float64(b, x); m = 8; }
		else if( !strcmp(k, "fmax") ) {
			floatmax_t x = 0; double d; memcpy(&d, v, 8); x = d; memset(full, 0, 64);
			r = harbol_bytebuffer_insert_floatmax(b, x); m = sizeof x; memcpy(full, &x, 10);
			/* the padding bytes of a long double are indeterminate: take them from the buffer */
			size_t len = harbol_bytebuffer_len(b);
			if( r && len >= m ) memcpy(full + 10, harbol_bytebuffer_get_buffer(b) + len - m + 10, m - 10);
		}
		else if( !strcmp(k, "cstr") ) { uint8_t *s = __real_calloc(n + 1, 1); memcpy(s, v, n); r = harbol_bytebuffer_insert_cstr(b, (char*)s); __real_free(s); m = strlen((char*)v) + 1; full[m - 1] = 0; }
		else if( !strcmp(k, "obj") ) { uint8_t *s = __real_calloc(n + (n==0), 1); memcpy(s, v, n); r = harbol_bytebuffer_insert_obj(b, s, n); memset(s, 0xEE, n); __real_free(s); }
		else if( !strcmp(k, "file") ) {
			put_file("in.bin", v, n);
			FILE *f = fopen("in.bin", "rb"); r = harbol_bytebuffer_insert_from_file(b, f); fclose(f);
		}
		else if( !strcmp(k, "filename") ) r = harbol_bytebuffer_insert_from_filename(b, drv_file(v, n));
		else if( !strcmp(k, "nofile") ) { r = harbol_bytebuffer_insert_from_filename(b, "no-such-file"); }
		else if( !strcmp(k, "dir") ) { r = harbol_bytebuffer_insert_from_filename(b, "."); }
		else if( !strcmp(k, "unreadable") ) { put_file("in.bin", v, n); FILE *f = fopen("in.bin", "ab"); r = harbol_bytebuffer_insert_from_file(b, f); fclose(f); }
		J_bytes("v", full, m); J_bool("r", r);
		__real_free(v); __real_free(full);
	} else if( t_is(0, "zeros") ) { J_int("n", t_int(2)); bool r = harbol_bytebuffer_insert_zeros(b, t_sz(2)); J_bool("r", r);
	} else if( t_is(0, "del") ) { J_int("i", t_int(2)); J_int("n", t_int(3)); bool r = harbol_bytebuffer_del(b, t_sz(2), t_sz(3)); J_bool("r", r);
	} else if( t_is(0, "append") ) { J_bool("self", self); bool r = harbol_bytebuffer_append(b, self? b : c); J_bool("r", r);
	} else if( t_is(0, "copy") ) { J_bool("self", self); bool r = harbol_bytebuffer_copy(b, self? b : c); J_bool("r", r);
	} else if( t_is(0, "to_file") ) {
		long const room = drv_ntok > 2? (long)t_int(2) : -1;         /* to_file O [ROOM]: only ROOM bytes can be written */
		FILE *f = fopen("out.bin", "wb"); if( room >= 0 ) { setvbuf(f, NULL, _IONBF, 0); drv_fsize(room); }
		bool r = harbol_bytebuffer_to_file(b, f); fclose(f); if( room >= 0 ) drv_fsize(-1);
		J_int("room", room);
		static uint8_t buf[1 << 20]; f = fopen("out.bin", "rb"); size_t n = fread(buf, 1, sizeof buf, f); fclose(f);
		J_bool("r", r); J_bytes("file", buf, n);
	} else J_str("unknown", op);
	project(); ev_end();
}
