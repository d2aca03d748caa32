/* drives very long containers, one kind per build (-DKIND=...): see spec/Big.tla */
#include "drv.h"
#define ARRAY 1
#define BUF 2
#define STR 3
#define DEQUE 4
#define MAP 5
#define TREE 6
#if KIND==ARRAY
#	include "array/array.h"
static struct HarbolArray C;
#elif KIND==BUF
#	include "bytebuffer/bytebuffer.h"
static struct HarbolByteBuf C;
#elif KIND==STR
#	include "str/str.h"
static struct HarbolString C;
#elif KIND==DEQUE
#	include "deque/deque.h"
static struct HarbolDeque C;
#elif KIND==MAP
#	include "map/map.h"
static struct HarbolMap C;
#elif KIND==TREE
#	include "tree/tree.h"
static struct HarbolTree C;
#endif
static bool made; static int doubles;
static void make(void) {
	if( made ) return;
	bool r = true;
#if KIND==ARRAY
	C = harbol_array_make(4, 4, &r);
#elif KIND==BUF
	C = harbol_bytebuffer_make();
#elif KIND==STR
	C = (struct HarbolString){0};
#elif KIND==DEQUE
	C = harbol_deque_make(4, &r);
#elif KIND==MAP
	C = harbol_map_make(4, &r);
#elif KIND==TREE
	r = harbol_tree_init(&C, &(int){-1}, 4);
#endif
	made = r;
}
static void drop(void) {
	doubles = 0;
#if KIND==ARRAY
	harbol_array_clear(&C);
#elif KIND==BUF
	harbol_bytebuffer_clear(&C);
#elif KIND==STR
	harbol_string_clear(&C);
#elif KIND==DEQUE
	harbol_deque_clear(&C);
#elif KIND==MAP
	harbol_map_clear(&C);
#elif KIND==TREE
	harbol_tree_clear(&C);
#endif
	made = false;
}
static size_t length(void) {
#if KIND==ARRAY
	return harbol_array_len(&C);
#elif KIND==BUF
	return harbol_bytebuffer_len(&C);
#elif KIND==STR
	return harbol_string_len(&C);
#elif KIND==DEQUE
	return harbol_deque_count(&C);
#elif KIND==MAP
	return C.len;
#elif KIND==TREE
	size_t n = 0; while( harbol_tree_get_node_by_index(&C, n) != NULL ) n++;
	return n;
#endif
}
#if KIND==BUF
#	define IMG(id) ((id) % 251)
#elif KIND==STR
#	define IMG(id) (97 + (id) % 26)
#else
#	define IMG(id) (id)
#endif
static size_t walk_pos, walk_node;     /* of the deque: items are reached one after the other */
static long item(size_t p) {
#if KIND==ARRAY
	int *v = harbol_array_get(&C, p, 4); return v? *v : -1;
#elif KIND==BUF
	return harbol_bytebuffer_get_buffer(&C)[p];
#elif KIND==STR
	return (unsigned char)harbol_string_cstr(&C)[p];
#elif KIND==DEQUE
	if( p==0 ) { walk_pos = 0; walk_node = harbol_deque_head(&C); }
	while( walk_pos < p && walk_node != SIZE_MAX ) { walk_node = harbol_deque_next(&C, walk_node); walk_pos++; }
	int *v = walk_node==SIZE_MAX? NULL : harbol_deque_get_data(&C, walk_node); return v? *v : -1;
#elif KIND==MAP
	int *v = harbol_map_idx_get(&C, p); return v? *v : -1;
#elif KIND==TREE
	struct HarbolTree *t = harbol_tree_get_node_by_index(&C, p); int *v = t? harbol_tree_get(t) : NULL; return v? *v : -1;
#endif
}
static int cmp(void const *a, void const *b) { long x = *(long const*)a, y = *(long const*)b; return (x > y) - (x < y); }
static void project(long p, long n) {
	size_t const len = made? length() : 0;
	long sum = 0, sum2 = 0;
	static long pos[64]; int np = 0;
	long const want[] = { 0, 1, 7, 8, 127, 128, 254, 255, 256, 257, 1023, 1024, 4095, 4096, 16383, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 131071, 131072, (long)len / 2, (long)len / 3, (long)len - 3, (long)len - 2, (long)len - 1, p - 1, p, p + 1, p + n - 1, p + n };
	for( size_t k=0; k < sizeof want / sizeof *want; k++ ) if( want[k] >= 0 && (size_t)want[k] < len ) pos[np++] = want[k];
	static unsigned x = 1; for( int k=0; k < 12 && len > 0; k++ ) { x = x * 1103515245u + 12345u; pos[np++] = (long)((x >> 8) % len); }
	qsort(pos, (size_t)np, sizeof *pos, cmp);
	J_sz("len", len); J_open("at", '['); int k = 0;
	for( size_t i=0; i < len && i < 1000000; i++ ) {
		long const v = item(i); sum = (sum + v + 9973) % 9973;
		if( k < np && pos[k]==(long)i ) { J_elem(); fprintf(drv_out, "[%zu,%ld]", i, v); drv_first = false; while( k < np && pos[k]==(long)i ) k++; }
#if KIND==MAP
		int const id = (int)v; int *w = harbol_map_key_get(&C, &id, sizeof id); sum2 = (sum2 + (w? *w : 0) + 9973) % 9973;
#endif
	}
	J_close(']');
#if KIND==DEQUE
	size_t m = 0; for( size_t h = made? harbol_deque_tail(&C) : SIZE_MAX; h != SIZE_MAX && m <= len; h = harbol_deque_prev(&C, h), m++ ) { int *v = harbol_deque_get_data(&C, h); sum2 = (sum2 + (v? *v : 0)) % 9973; }
	if( m != len ) sum2 = -1;
#elif KIND==STR
	sum2 = made && len > 0 && harbol_string_cstr(&C)[len] != 0? -1 : sum;
#elif KIND!=MAP
	sum2 = sum;
#endif
	J_int("sum", sum); J_int("sum2", sum2); J_int("heap", drv_live);
}
static long push(int id) {
#if KIND==ARRAY
	if( harbol_array_full(&C) && !harbol_array_grow(&C, 4) ) return 0;
	return harbol_array_insert(&C, &id, 4);
#elif KIND==BUF
	return harbol_bytebuffer_insert_byte(&C, (uint8_t)IMG(id));
#elif KIND==STR
	return harbol_string_add_char(&C, (char)IMG(id));
#elif KIND==DEQUE
	return harbol_deque_append(&C, &id, sizeof id) != SIZE_MAX;
#elif KIND==MAP
	return harbol_map_insert(&C, &id, sizeof id, &id, sizeof id);
#elif KIND==TREE
	return harbol_tree_insert_val(&C, &id, sizeof id);
#endif
}
static void drv_dispatch(void) {
	char const *op = t_word(0);
	if( t_is(0, "reset") ) { if( made ) drop(); ev_begin("reset"); project(0, 0); ev_end(); return; }
	make();
	size_t const len = length();
	long a = (long)t_int(1), b = (long)t_int(2), r = -2, p = -9, n = 0, f = 0;
	if( a < 0 ) a = 0;
	if( b < 0 ) b = 0;
	if( t_is(0, "push") && len + (size_t)b < 300000 ) { f = a; n = b; p = (long)len; r = 0; for( long k=0; k < n; k++ ) r += push((int)(f + k)); }
#if KIND==BUF || KIND==STR
	else if( t_is(0, "bulk") && len + (size_t)b < 300000 ) {
		f = a; n = b; p = (long)len; char *t = __real_calloc((size_t)n + 1, 1); for( long k=0; k < n; k++ ) t[k] = (char)IMG(f + k);
#	if KIND==BUF
		r = harbol_bytebuffer_insert_obj(&C, t, (size_t)n)? n : -1;
#	else
		r = harbol_string_add_cstr(&C, t)? n : -1;
#	endif
		__real_free(t);
	}
	else if( t_is(0, "double") && len > 0 && len < 150000 && doubles < 4 ) {
		doubles++;
#	if KIND==BUF
		r = harbol_bytebuffer_append(&C, &C);
#	else
		r = harbol_string_add_str(&C, &C);
#	endif
	}
#endif
#if KIND==DEQUE
	else if( t_is(0, "front") && len + (size_t)b < 300000 ) { f = a; n = b; p = n; r = 0; for( long k = n - 1; k >= 0; k-- ) { int const id = (int)(f + k); r += harbol_deque_prepend(&C, &id, sizeof id) != SIZE_MAX; } }
	else if( t_is(0, "pop") && (size_t)a <= len ) { n = a; r = 0; for( long k=0; k < n; k++ ) { int v = -1; r += harbol_deque_pop_back(&C, &v, sizeof v); } }
	else if( t_is(0, "popf") && (size_t)a <= len ) { n = a; r = 0; for( long k=0; k < n; k++ ) { int v = -1; r += harbol_deque_pop_front(&C, &v, sizeof v); } }
#elif KIND==ARRAY
	else if( t_is(0, "pop") && (size_t)a <= len ) { n = a; r = 0; for( long k=0; k < n; k++ ) r += harbol_array_pop(&C, 4) != NULL; }
	else if( t_is(0, "del") && b > 0 && (size_t)(a + b) <= len ) { p = a; n = b; r = (n==1? harbol_array_del_by_index(&C, (size_t)p, 4) : harbol_array_del_by_range(&C, (size_t)p, 4, (size_t)n))? n : -1; }
	else if( t_is(0, "set") && (size_t)a < len ) { p = a; n = 1; f = b; int const id = (int)f; r = harbol_array_set(&C, (size_t)p, &id, 4); }
	else if( t_is(0, "find") ) { f = a; int const id = (int)f; r = (long)harbol_array_index_of(&C, &id, 4, 0); }
	else if( t_is(0, "same") ) { r = 0; if( a > (long)len ) harbol_array_resize(&C, 4, (size_t)a); else harbol_array_shrink(&C, 4, a & 1); }
#elif KIND==BUF
	else if( t_is(0, "del") && b > 0 && (size_t)(a + b) <= len ) { p = a; n = b; r = harbol_bytebuffer_del(&C, (size_t)p, (size_t)n)? n : -1; }
	else if( t_is(0, "same") && len > 0 ) {
		struct HarbolByteBuf D = harbol_bytebuffer_make(); r = 0;
		if( a==0 ) harbol_bytebuffer_copy(&D, &C);
		else if( a==1 ) harbol_bytebuffer_append(&D, &C);
		else { FILE *o = fopen("big.bin", "wb"); harbol_bytebuffer_to_file(&C, o); fclose(o); harbol_bytebuffer_insert_from_filename(&D, "big.bin"); }
		harbol_bytebuffer_clear(&C); C = D;
	}
#elif KIND==STR
	else if( t_is(0, "del") && b > 0 && (size_t)(a + b) <= len ) { p = a; n = b; r = harbol_string_replace_range(&C, (size_t)p, (size_t)(p + n - 1), "")? n : -1; }
	else if( t_is(0, "rev") && len > 0 ) {        /* a reversed copy: what it shows at some positions */
		struct HarbolString D = {0}; r = -1; harbol_string_copy_str(&D, &C); bool const ok = harbol_string_reverse(&D) || len < 2;
		ev_begin("rev"); J_bool("ok", ok && harbol_string_len(&D)==len); J_open("rev", '[');
		for( size_t i=0; i < len; i += i < 300 || i + 300 > len || (i % 65536 > 65500)? 1 : 37 ) { J_elem(); fprintf(drv_out, "[%zu,%u]", i, (unsigned char)harbol_string_cstr(&D)[i]); drv_first = false; }
		J_close(']'); project(0, 0); ev_end(); harbol_string_clear(&D); return;
	}
	else if( t_is(0, "same") && len > 0 ) {
		struct HarbolString D = {0}; r = 0; char *t = __real_calloc(len + 1, 1); memcpy(t, harbol_string_cstr(&C), len);
		if( a==0 ) harbol_string_copy_str(&D, &C);
		else if( a==1 ) harbol_string_add_str(&D, &C);
		else if( a==2 ) harbol_string_format(&D, true, "%s", t);
		else if( a==3 ) { FILE *o = fopen("big.txt", "wb"); fwrite(t, 1, len, o); fclose(o); harbol_string_read_file(&D, "big.txt"); }
		else if( a==4 ) { harbol_string_copy_cstr(&D, t); harbol_string_reverse(&D); harbol_string_reverse(&D); }
		else if( a==5 ) { harbol_string_copy_cstr(&D, t); harbol_string_upper(&D); if( strpbrk(harbol_string_cstr(&D), "abcdefghijklmnopqrstuvwxyz") ) harbol_string_add_char(&D, '!'); harbol_string_lower(&D); }
		else if( a==6 ) { harbol_string_add_char_rep(&D, ' ', 300); harbol_string_add_cstr(&D, t); harbol_string_add_char_rep(&D, '\n', 70000); if( harbol_string_trim_spaces(&D) != 70300 ) harbol_string_add_char(&D, '!'); }
		else if( a==7 ) { harbol_string_copy_cstr(&D, t); size_t const m = harbol_string_count_char(&D, 'a'), q = harbol_string_count_cstr(&D, "a"); harbol_string_replace_cstr(&D, "a", "AAA", (size_t)-1); size_t const w = harbol_string_count_cstr(&D, "AAA"); if( m != q || m != w || harbol_string_len(&D) != len + 2*m ) harbol_string_add_char(&D, '!'); harbol_string_replace_cstr(&D, "AAA", "a", (size_t)-1); }
		else { harbol_string_copy_cstr(&D, t); harbol_string_replace_char(&D, 'b', 'B'); size_t const m = harbol_string_count_char(&D, 'B'); harbol_string_replace_char(&D, 'B', 'b'); if( m != harbol_string_count_char(&C, 'b') || harbol_string_cmpstr(&C, &D) != 0 || harbol_string_cmpcstr(&D, t) != 0 ) harbol_string_add_char(&D, '!'); }
		__real_free(t); harbol_string_clear(&C); C = D;
	}
#elif KIND==MAP
	else if( t_is(0, "del") && b > 0 && b < 40 && (size_t)(a + b) <= len ) {
		p = a; n = b; r = 0;
		for( long k=0; k < n; k++ ) { int *v = harbol_map_idx_get(&C, (size_t)p), id = v? *v : -1; r += k % 2? harbol_map_key_rm(&C, &id, sizeof id) : harbol_map_idx_rm(&C, (size_t)p); }
	}
	else if( t_is(0, "find") ) { f = a; int const id = (int)f; size_t const i = harbol_map_get_entry_index(&C, &id, sizeof id); r = (i != SIZE_MAX) != harbol_map_has_key(&C, &id, sizeof id)? -3 : (long)i; }
	else if( t_is(0, "same") && (size_t)a >= len && a > 0 ) { r = harbol_map_rehash(&C, (size_t)a); }
#elif KIND==TREE
	else if( t_is(0, "del") && b > 0 && b < 40 && (size_t)(a + b) <= len ) { p = a; n = b; r = 0; for( long k=0; k < n; k++ ) {
		struct HarbolTree *t = harbol_tree_get_node_by_index(&C, (size_t)p); int const id = t? *(int*)harbol_tree_get(t) : -1;
		r += k % 3==0? harbol_tree_rm_index(&C, (size_t)p) : k % 3==1? harbol_tree_rm_val(&C, &id, sizeof id) : harbol_tree_rm_node(&C, &t); } }
	else if( t_is(0, "set") && (size_t)a < len ) { p = a; n = 1; f = b; int const id = (int)f; struct HarbolTree *t = harbol_tree_get_node_by_index(&C, (size_t)p); r = t != NULL && harbol_tree_set(t, &id, sizeof id); }
	else if( t_is(0, "find") ) { f = a; int const id = (int)f; struct HarbolTree *t = harbol_tree_get_node_by_val(&C, &id, sizeof id); r = -1; if( t ) for( size_t i=0; i < len && r==-1; i++ ) if( harbol_tree_get_node_by_index(&C, i)==t ) r = (long)i; }
#endif
	else if( t_is(0, "clear") ) { drop(); make(); r = 0; }
	ev_begin(r==-2? "none" : op); J_int("f", f); J_int("p", p); J_int("n", n); J_int("r", r); project(p, n); ev_end();
}
