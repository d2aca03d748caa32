/* Ownership: objects of every kind in slots, any mixture of operations, allocation failures; per call the change in live heap blocks. */
#include "drv.h"
#include "harbol.h"
#include "allocators/bistack/bistack.h"
#include "plugins/plugins.h"
#include <sys/stat.h>
#define NS 5
enum { STR = 1, ARR, BUF, DEQ, MAP, TREE, TUP, VAR, SPAN, CFG, REG, BIS, POOL, MEM, PLUG };
static int kind[NS]; static bool onheap[NS]; static void *O[NS];
static union { struct HarbolString s; struct HarbolArray a; struct HarbolByteBuf b; struct HarbolDeque d; struct HarbolMap m; struct HarbolTree t; struct HarbolTuple u; struct HarbolVariant v;
	struct HarbolMsgSpan sp; struct HarbolRegion r; struct HarbolBiStack bi; struct HarbolObjPool op; struct HarbolMemPool mp; struct HarbolPlugin pl; } U[NS];
void *__real_dlopen(char const *, int); int __real_dlclose(void *);      /* an open library counts as a block */
void *__wrap_dlopen(char const *p, int f) { bool c = drv_counting; drv_counting = false; void *d = __real_dlopen(p, f); drv_counting = c; if( d ) drv_live++; return d; }
int __wrap_dlclose(void *d) { drv_live--; bool c = drv_counting; drv_counting = false; int r = __real_dlclose(d); drv_counting = c; return r; }
static void put_lib(void) { char b[4096]; size_t n; FILE *i = fopen("lib/v1.so", "rb"), *o = fopen("own.tmp", "wb"); if( !i || !o ) { fprintf(stderr, "setup: no library\n"); _exit(3); } while( (n = fread(b, 1, sizeof b, i)) > 0 ) fwrite(b, 1, n, o); fclose(i); fclose(o); rename("own.tmp", "own.so"); }
static int told; static void on_event(struct HarbolPlugin *p, void *u, bool re) { told++; } static void on_file(char const *p, char const *n, void *u) { told++; }
static int files0;
static int open_files(void) { int n = 0; for( int fd=0; fd < 200; fd++ ) n += fcntl(fd, F_GETFD) != -1; return n; }
static void *held[NS][8];               /* blocks obtained from pools */
static char text[2048]; static FILE *sink;
static char const *T(int n) { static int k; n = n < 0? 0 : n > 2000? 2000 : n; for( int i=0; i < n; i++ ) text[i] = "ab c"[(i + k) % 4]; k++; text[n] = 0; return text; }
static bool make(int s, int k, bool heap, int n) {
	bool r = false; void *u = &U[s]; memset(u, 0, sizeof U[s]); memset(held[s], 0, sizeof held[s]);
	size_t sizes[3] = { n + 1, 4, 2 };
	void *o = u;
	if( heap ) switch( k ) {
		case STR: o = harbol_string_new(n? T(n) : NULL); break;
		case ARR: o = harbol_array_new(3, n); break;
		case BUF: o = harbol_bytebuffer_new(); break;
		case DEQ: o = harbol_deque_new(n); break;
		case MAP: o = harbol_map_new(n); break;
		case TREE: o = harbol_tree_new(T(n + 1), n + 1); break;
		case TUP: o = harbol_tuple_new(3, sizes, n & 1); break;
		case VAR: o = harbol_variant_new(T(n + 1), n + 1, 1); break;
		case CFG: o = harbol_cfg_parse_cstr(n==0? "" : n==1? "'a': 'x', 'b': 3, 's': { 'f': 1.5, 'c': c[1,2,3,4], 'v': v[1,2,3,4], 't': { 'n': null, 'b': true } }" : n==2? "'m': '1 + 2', 'e': <enum X=4>, 'a' : 1, 'a': 2" : n==3? "'s': { 'k': 'v', 'bad' }" : n==4? "'k': 'unfinished" : n==5? "'<include>': 'own.inc', 'z': { '<include>' 'own.inc' }" : n==6? "'q': 1, '<include>' 'gone.inc', 'own.inc': 3, '<include>': 'own.inc'" : "'<include>': 'own.bad', 'y': 2");
			if( n==7 || n==8 ) { if( o ) harbol_cfg_free(( struct HarbolMap** )&o); o = harbol_cfg_parse_file(n==7? "own.inc" : "own.bad"); } break;
		default: return false;
	} else switch( k ) {
		case STR: U[s].s = harbol_string_make(T(n), &r); break;
		case ARR: U[s].a = harbol_array_make(3, n, &r); break;
		case BUF: U[s].b = harbol_bytebuffer_make(); r = true; break;
		case DEQ: U[s].d = harbol_deque_make(n, &r); break;
		case MAP: U[s].m = harbol_map_make(n, &r); break;
		case TREE: r = harbol_tree_init(&U[s].t, T(n + 1), n + 1); break;
		case TUP: U[s].u = harbol_tuple_create(3, sizes, n & 1, &r); break;
		case VAR: U[s].v = harbol_variant_make(T(n + 1), n + 1, 1, &r); break;
		case SPAN: U[s].sp = harbol_msg_span_make(n==0? "" : n==1? "one line" : n==9? "missing.file" : n==8 || n==5? "own.txt" : "a\nb\n\nlast", n==9 || n==8 || n==5, false, &r); break;
		case REG: U[s].r = harbol_region_make(n * 16); r = U[s].r.mem != NULL; break;
		case BIS: U[s].bi = harbol_bistack_make(n * 16, &r); break;
		case POOL: U[s].op = harbol_objpool_make(n + 1, n + 1, &r); break;
		case MEM: U[s].mp = harbol_mempool_make(64 + n * 64, &r); break;
		case PLUG: put_lib(); r = harbol_plugin_load(&U[s].pl, n==3? "./gone.so" : n==4? "own.txt" : n==1 || n==9? "own.d/in/deep.so" : "./own.so", n & 2? on_event : NULL, NULL); break;
		default: return false;
	}
	if( heap ) r = o != NULL;
	if( r ) { O[s] = o; kind[s] = k; onheap[s] = heap; }
	else if( !heap && o ) { U[s] = U[s]; }
	return r;
}
static bool use(int s, int w, int n) {
	bool r = true; unsigned char item[4096]; memset(item, n, sizeof item); int key = n;
	switch( kind[s] ) {
	case STR: { struct HarbolString *x = O[s];
		switch( w % 9 ) { case 0: return harbol_string_add_cstr(x, T(n)); case 1: return harbol_string_add_char_rep(x, 'q', n); case 2: return harbol_string_copy_cstr(x, T(n + 1)); case 3: return harbol_string_format(x, n & 1, "%d %s", n, "more") >= 0;
			case 4: return harbol_string_replace_cstr(x, "a", n & 1? "longer" : "", n); case 5: harbol_string_trim_spaces(x); harbol_string_rm_char(x, 'b'); return true; case 6: return harbol_string_read_file(x, n & 1? "own.txt" : "missing.txt");
			case 7: return harbol_string_add_str(x, x); default: return harbol_string_replace_range(x, n, n + 1, "++"); } }
	case ARR: { struct HarbolArray *x = O[s];
		switch( w % 9 ) { case 0: return harbol_array_insert(x, item, 3); case 1: return harbol_array_grow(x, 3); case 2: return n > 0? harbol_array_resize(x, 3, n) : true; case 3: return harbol_array_shrink(x, 3, n & 1); case 4: harbol_array_wipe(x, 3); return true;
			case 5: return harbol_array_del_by_index(x, n, 3); case 6: return harbol_array_del_by_range(x, n, 2, 3); case 7: return harbol_array_append(x, item, 3) != SIZE_MAX; default: return harbol_array_pop(x, 3) != NULL; } }
	case BUF: { struct HarbolByteBuf *x = O[s];
		switch( w % 6 ) { case 0: return harbol_bytebuffer_insert_obj(x, item, n + 1); case 1: return harbol_bytebuffer_insert_zeros(x, n + 1); case 2: return harbol_bytebuffer_insert_cstr(x, T(n)); case 3: return harbol_bytebuffer_del(x, 0, n);
			case 4: return harbol_bytebuffer_insert_from_filename(x, n & 1? "own.txt" : "missing.txt"); default: return harbol_bytebuffer_insert_int64(x, n); } }
	case DEQ: { struct HarbolDeque *x = O[s];
		switch( w % 6 ) { case 0: return harbol_deque_append(x, item, n + 1) != SIZE_MAX; case 1: return harbol_deque_prepend(x, item, n + 1) != SIZE_MAX; case 2: return harbol_deque_pop_front(x, item, 1); case 3: return harbol_deque_pop_back(x, item, 1);
			case 4: if( w==10 ) harbol_deque_reset(x); return true; default: return harbol_deque_append(x, item, 1) != SIZE_MAX; } }
	case MAP: { struct HarbolMap *x = O[s];
		switch( w % 7 ) { case 0: return harbol_map_insert(x, &key, sizeof key, item, n + 1); case 1: return harbol_map_key_set(x, &key, sizeof key, item, n * 3 + 1); case 2: return harbol_map_idx_set(x, n, item, n + 9); case 3: return harbol_map_key_rm(x, &key, sizeof key);
			case 4: return harbol_map_idx_rm(x, n); case 5: return harbol_map_rehash(x, x->len + n + 1); default: key += w; return harbol_map_insert(x, &key, sizeof key, item, 5); } }
	case TREE: { struct HarbolTree *x = O[s], *kid = NULL;
		switch( w % 6 ) { case 0: return harbol_tree_set(x, T(n + 1), n + 1); case 1: return harbol_tree_insert_val(x, T(n + 1), n + 1); case 2: return harbol_tree_rm_index(x, n); case 3: return harbol_tree_rm_val(x, T(n + 1), n + 1);
			case 4: kid = harbol_tree_get_node_by_index(x, n % 3); return kid? harbol_tree_insert_val(kid, T(n + 2), n + 2) : true; default: kid = harbol_tree_get_node_by_index(x, n); if( kid ) { r = harbol_tree_rm_node(x, &kid); return r && kid==NULL; } return true; } }
	case TUP: { struct HarbolTuple *x = O[s]; harbol_tuple_set(x, 1, item); harbol_tuple_get(x, n); return true; }
	case VAR: return harbol_variant_set(O[s], item, n + 1);
	case SPAN: { struct HarbolMsgSpan *x = O[s]; struct HarbolTokenSpan sp = { 1, 1, 0, 1 };
		switch( w % 3 ) { case 0: return harbol_msg_span_add_label(x, sp, "", '^', "", "label %d", n); case 1: return harbol_msg_span_add_note(x, "", "note %s", T(n)); default: if( x->src.lines==NULL ) return true; harbol_msg_span_emit_to_stream(x, NULL, sink, "f", "error", NULL, "", NULL, NULL, "message %d", n); return true; } }
	case CFG: { struct HarbolMap *x = O[s]; static char const *paths[] = { "a", "s.f", "s.t.b", "new", "s.new", "s", "x.y" }; char const *p = paths[n % 7]; union HarbolColor c = { 7 }; struct HarbolVec4D v = { 1, 2, 3, 4 };
		switch( w % 10 ) { case 0: return harbol_cfg_set_cstr(x, p, T(n), true); case 1: return harbol_cfg_set_int(x, p, n, true); case 2: return harbol_cfg_set_float(x, p, n, true); case 3: return harbol_cfg_set_bool(x, p, n & 1, true);
			case 4: return harbol_cfg_set_color(x, p, c, true); case 5: return harbol_cfg_set_vec4D(x, p, v, n & 1); case 6: return harbol_cfg_set_to_null(x, p); case 7: { struct HarbolString t = harbol_cfg_to_str(x); harbol_string_clear(&t); return true; }
			case 8: harbol_cfg_calc_math(x, n & 1? "m" : p, NULL, NULL, 0); return true; default: return harbol_cfg_build_file(x, "own.cfg", true); } }
	case PLUG: { struct HarbolPlugin *x = O[s];
		switch( w % 7 ) { case 0: case 1: return harbol_plugin_reload(x, w & 2? on_event : NULL, w & 4? on_event : NULL, NULL); case 2: harbol_plugin_changed(x); return true; case 3: harbol_plugin_get_obj(x, n & 1? "plugin_id" : "none"); return true;
			case 4: return harbol_plugin_dir_open(n & 1? "own.d" : n & 2? "own.gone" : "own.d/in", on_file, NULL, n & 4? "txt" : NULL); case 5: if( n & 1 ) unlink("own.so"); else put_lib(); return true;
			default: return x->path || x->dll? true : harbol_plugin_load(x, "./own.so", on_event, NULL); } }
	case REG: harbol_region_alloc(O[s], n + 1); return true;
	case BIS: switch( w % 4 ) { case 0: harbol_bistack_alloc_front(O[s], n + 1); return true; case 1: harbol_bistack_alloc_back(O[s], n + 1); return true; case 2: harbol_bistack_reset_all(O[s]); return true; default: return harbol_bistack_resize(O[s], n * 32 + 64); }
	case POOL: case MEM: { void **h = &held[s][n % 8];
		if( *h ) { if( kind[s]==POOL ) harbol_objpool_cleanup(O[s], h); else harbol_mempool_cleanup(O[s], h); return *h==NULL; }
		*h = kind[s]==POOL? harbol_objpool_alloc(O[s]) : harbol_mempool_alloc(O[s], n * 5 + 1); return true; }
	}
	return false;
}
static bool empty(int s) {
	switch( kind[s] ) {
		case STR: { struct HarbolString *x = O[s]; return x->cstr==NULL && x->len==0; }
		case ARR: { struct HarbolArray *x = O[s]; return x->table==NULL && harbol_array_empty(x) && harbol_array_cap(x)==0; }
		case BUF: { struct HarbolByteBuf *x = O[s]; return x->table==NULL && x->len==0 && x->cap==0; }
		case DEQ: { struct HarbolDeque *x = O[s]; return harbol_deque_count(x)==0 && harbol_deque_empty(x) && x->datum==NULL; }
		case MAP: { struct HarbolMap *x = O[s]; return x->len==0 && x->datum==NULL && x->keys==NULL; }
		case TREE: { struct HarbolTree *x = O[s]; return x->data==NULL && harbol_array_empty(&x->kids); }
		case TUP: { struct HarbolTuple *x = O[s]; return x->datum==NULL && harbol_tuple_fields(x)==0; }
		case VAR: { struct HarbolVariant *x = O[s]; return x->data==NULL; }
		case SPAN: { struct HarbolMsgSpan *x = O[s]; return harbol_msg_span_get_num_lines(x)==0 && harbol_array_empty(&x->labels) && harbol_array_empty(&x->notes); }
		case REG: return harbol_region_remaining(O[s])==0 && harbol_region_alloc(O[s], 1)==NULL;
		case BIS: return harbol_bistack_alloc_front(O[s], 1)==NULL && harbol_bistack_alloc_back(O[s], 1)==NULL;
		case POOL: return harbol_objpool_alloc(O[s])==NULL;
		case PLUG: { struct HarbolPlugin *x = O[s]; return x->path==NULL && x->dll==NULL && harbol_plugin_get_obj(x, "plugin_id")==NULL; }
		case MEM: return harbol_mempool_mem_remaining(O[s])==0 && harbol_mempool_alloc(O[s], 1)==NULL;
	}
	return true;
}
static void clear(int s) {
	memset(held[s], 0, sizeof held[s]);
	switch( kind[s] ) {
		case STR: harbol_string_clear(O[s]); break; case ARR: harbol_array_clear(O[s]); break; case BUF: harbol_bytebuffer_clear(O[s]); break; case DEQ: harbol_deque_clear(O[s]); break;
		case MAP: harbol_map_clear(O[s]); break; case TREE: harbol_tree_clear(O[s]); break; case TUP: harbol_tuple_clear(O[s]); break; case VAR: harbol_variant_clear(O[s]); break;
		case SPAN: harbol_msg_span_clear(O[s]); break; case REG: harbol_region_clear(O[s]); break; case BIS: harbol_bistack_clear(O[s]); break; case POOL: harbol_objpool_clear(O[s]); break; case MEM: harbol_mempool_clear(O[s]); break;
		case PLUG: harbol_plugin_clear(O[s], s & 1? on_event : NULL, NULL); break;
	}
}
static bool release(int s) {       /* true: the reference was taken away */
	if( !onheap[s] ) { clear(s); O[s] = NULL; kind[s] = 0; return true; }
	switch( kind[s] ) {
		case STR: harbol_string_free(( struct HarbolString** )&O[s]); break; case ARR: harbol_array_cleanup(( struct HarbolArray** )&O[s]); break; case BUF: harbol_bytebuffer_free(( struct HarbolByteBuf** )&O[s]); break;
		case DEQ: harbol_deque_free(( struct HarbolDeque** )&O[s]); break; case MAP: harbol_map_free(( struct HarbolMap** )&O[s]); break; case TREE: harbol_tree_free(( struct HarbolTree** )&O[s]); break;
		case TUP: harbol_tuple_free(( struct HarbolTuple** )&O[s]); break; case VAR: harbol_variant_free(( struct HarbolVariant** )&O[s]); break; case CFG: harbol_cfg_free(( struct HarbolMap** )&O[s]); break;
	}
	bool n = O[s]==NULL; O[s] = NULL; kind[s] = 0; return n;
}
static void drv_dispatch(void) {
	int s = t_int(1), c = t_int(2); long before = drv_live; bool ret = true, null = true, emp = true; int k;
	if( t_is(0, "reset") ) {
		if( !sink ) { sink = fopen("/dev/null", "w"); FILE *f = fopen("own.txt", "w"); fputs("contents of a file\n", f); fclose(f); f = fopen("own.inc", "w"); fputs("'i': 1, 'j': { 'k': 'text' }\n", f); fclose(f); f = fopen("own.bad", "w"); fputs("'i': 1, 'j': { 'k' 'text' }\n", f); fclose(f); mkdir("own.d", 0700); mkdir("own.d/in", 0700); put_lib(); rename("own.so", "own.d/in/deep.so"); f = fopen("own.d/x.txt", "w"); fclose(f); symlink("nowhere", "own.d/in/l.so"); symlink("..", "own.d/in/up"); stderr = fopen("/dev/null", "w"); files0 = open_files(); }
		for( int i=0; i < NS; i++ ) if( kind[i] ) release(i);
		put_lib();
		drv_live = 0; drv_live_bytes = 0; memset(drv_pt, 0, sizeof drv_pt);
		ev_begin("reset"); ev_end(); return;
	}
	if( t_is(0, "new")? kind[s] != 0 : kind[s]==0 ) return;
	if( t_is(0, "two") && (kind[c] != kind[s] || c==s) ) return;
	if( t_is(0, "clear") && kind[s]==CFG ) return;
	if( t_is(0, "use") && (kind[s]==STR || kind[s]==BUF) && drv_live_bytes > 200000 ) return;
	k = t_is(0, "new")? t_int(2) : kind[s];
	bool hdr = t_is(0, "new")? t_int(3) : onheap[s];
	drv_call_begin();
	if( t_is(0, "new") ) ret = make(s, k, hdr, t_int(4));
	else if( t_is(0, "use") ) ret = use(s, t_int(2), t_int(3));
	else if( t_is(0, "two") ) {
		int w = t_int(3);
		switch( k ) {
			case STR: ret = w? harbol_string_copy_str(O[s], O[c]) : harbol_string_add_str(O[s], O[c]); break;
			case ARR: ret = w? harbol_array_copy(O[s], O[c], 3) : harbol_array_add(O[s], O[c], 3); break;
			case BUF: ret = w? harbol_bytebuffer_copy(O[s], O[c]) : harbol_bytebuffer_append(O[s], O[c]); break;
			case VAR: { struct HarbolVariant *x = O[c]; ret = x->data? harbol_variant_set(O[s], harbol_variant_data(x), harbol_variant_size(x)) : true; break; }
			case TREE: if( !onheap[c] ) return; ret = harbol_tree_insert_node(O[s], ( struct HarbolTree** )&O[c]); null = O[c]==NULL; if( ret ) { O[c] = NULL; kind[c] = 0; } break;
			default: return;
		}
	} else if( t_is(0, "clear") ) { clear(s); drv_fault_off(); emp = empty(s); }
	else if( t_is(0, "free") ) null = release(s);
	else _exit(2);
	ev_begin(t_word(0)); J_int("s", s); if( t_is(0, "two") ) J_int("c", c); J_int("k", k); J_bool("hdr", hdr); J_bool("ret", ret); J_bool("null", null); J_bool("empty", emp);
	J_int("delta", drv_live - before); J_int("total", drv_live); J_bool("oom", drv_failed); J_int("files", open_files() - files0); ev_end();
}
