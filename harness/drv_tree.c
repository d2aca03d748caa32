/* drives tree/tree.c: NS root slots; nodes are addressed by slot and path "/ i j .. /" (taken modulo the number of children) */
#include "drv.h"
#include "tree/tree.h"
enum { NS = 4, MAXP = 12 };
static struct HarbolTree *T[NS];
static void dump(struct HarbolTree const *t, int depth) {
	uint8_t *d = harbol_tree_get(t); size_t n = harbol_tree_len(t);
	fprintf(drv_out, "{\"d\":%s,\"v\":", d? "true" : "false"); J_raw_bytes(d, d && n < 5000? n : 0);
	fputs(",\"k\":[", drv_out);
	for( size_t i=0; i < 700 && depth < 60; i++ ) {
		struct HarbolTree *c = harbol_tree_get_node_by_index(t, i);
		if( c==NULL ) break;
		if( i ) fputc(',', drv_out);
		dump(c, depth + 1);
	}
	fputs("]}", drv_out);
}
static void project(int ns) {
	J_key("slots"); fputc('[', drv_out);
	for( int s=1; s < ns; s++ ) { if( s > 1 ) fputc(',', drv_out); fputc('[', drv_out); if( T[s] ) dump(T[s], 0); fputc(']', drv_out); }
	fputc(']', drv_out);
	J_bool("oom", drv_failed); J_int("heap", drv_live);
}
static struct HarbolTree *locate(int s, int tok, int *path, int *np) {
	struct HarbolTree *t = T[s]; *np = 0;
	if( t==NULL ) return NULL;
	if( !t_is(tok, "/") ) return t;
	for( int i = tok + 1; i < drv_ntok && !t_is(i, "/") && *np < MAXP; i++ ) {
		int nk = 0; while( harbol_tree_get_node_by_index(t, (size_t)nk) ) nk++;
		if( nk==0 ) break;
		int k = (int)(((t_int(i) % nk) + nk) % nk);
		path[(*np)++] = k; t = harbol_tree_get_node_by_index(t, (size_t)k);
	}
	return t;
}
static void drv_dispatch(void) {
	char const *op = t_word(0); enum { NSL = 3 };
	if( t_is(0, "reset") ) { for( int s=0; s < NS; s++ ) if( T[s] ) harbol_tree_free(&T[s]); ev_begin("reset"); J_bool("r", true); project(NSL); ev_end(); return; }
	int s = (int)t_int(1), path[MAXP], np = 0; 
	if( s < 1 || s >= NSL ) s = 1;
	struct HarbolTree *t = locate(s, 3, path, &np);
	if( t_is(0, "clear") ) t = locate(s, 2, path, &np);
	bool isnew = t_is(0, "new"), ok = isnew? T[s]==NULL : T[s] != NULL;
	int c = (int)t_int(2); 
	if( t_is(0, "insert_node") || t_is(0, "rm_foreign") ) ok = ok && c >= 1 && c < NSL && c != s && T[c];
	size_t ix = t_sz(2);
	struct HarbolTree *kid = t && t_is(0, "rm_node")? harbol_tree_get_node_by_index(t, ix) : NULL;
	if( t_is(0, "rm_node") && kid==NULL ) ok = false;
	if( !ok ) op = "none";
	size_t vn = 0; uint8_t *v = t_word(2)[0]=='x'? t_bytes(2, &vn, 0) : NULL;
	bool r = true; char const *name = op;
	ev_begin(name);
	if( ok ) {
		J_int("s", s); J_key("p"); fputc('[', drv_out); for( int i=0; i < np; i++ ) fprintf(drv_out, i? ",%d" : "%d", path[i]); fputc(']', drv_out);
		if( v ) J_bytes("v", v, vn);
		if( isnew ) { T[s] = harbol_tree_new(v, vn); r = T[s] != NULL;
		} else if( t_is(0, "free") ) { harbol_tree_free(&T[s]); J_bool("null", T[s]==NULL);
		} else if( t_is(0, "clear") ) { harbol_tree_clear(t);
		} else if( t_is(0, "set") ) { r = harbol_tree_set(t, v, vn);
		} else if( t_is(0, "insert_val") ) { r = harbol_tree_insert_val(t, v, vn);
		} else if( t_is(0, "insert_node") ) { J_int("c", c); r = harbol_tree_insert_node(t, &T[c]); if( r ) T[c] = NULL;
		} else if( t_is(0, "rm_index") ) { J_sz("i", ix); r = harbol_tree_rm_index(t, ix);
		} else if( t_is(0, "rm_node") ) { J_sz("i", ix); r = harbol_tree_rm_node(t, &kid); J_bool("null", kid==NULL);
		} else if( t_is(0, "rm_foreign") ) { J_int("c", c); r = harbol_tree_rm_node(t, &T[c]); J_bool("null", T[c]==NULL);
		} else if( t_is(0, "rm_val") ) { r = harbol_tree_rm_val(t, v, vn);
		} else if( t_is(0, "find_val") ) {
			struct HarbolTree *f = harbol_tree_get_node_by_val(t, v, vn); long i = -1;
			for( long k=0; f; k++ ) { struct HarbolTree *q = harbol_tree_get_node_by_index(t, (size_t)k); if( q==f ) { i = k; break; } if( q==NULL ) { i = -9; break; } }
			J_int("i", i);
		} else if( t_is(0, "get_idx") ) { J_sz("i", ix); r = harbol_tree_get_node_by_index(t, ix) != NULL;
		} else J_str("unknown", op);
		if( v ) memset(v, 0xEE, vn);
	}
	J_bool("r", r); project(NSL); ev_end(); __real_free(v);
}
