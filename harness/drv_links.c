/* drives the intrusive link helpers of harbol_common_includes.h */
#include "drv.h"
#include "harbol_common_defines.h"
#include "harbol_common_includes.h"
enum { NN = 300 };
struct Node1 { struct HarbolLink l; int id; };
struct Node2 { struct HarbolBiLink l; int id; };
struct Node3 { struct HarbolTriLink l; int id; };
static struct Node1 n1[NN]; static struct Node2 n2[NN]; static struct Node3 n3[NN];
static int kind; static bool tailed; static void *head, *tail; static unsigned rs = 1;
static void *node(int i) { return kind==1? (void*)&n1[i] : kind==2? (void*)&n2[i] : (void*)&n3[i]; }
static int idof(void *p) {
	if( p==NULL ) return 0;
	for( int i=1; i < NN; i++ ) if( p==node(i) ) return i;
	return -1;
}
static bool in_list(int i) { int k = 0; for( void *p = head; p && k < NN + 2; p = harbol_link_get_a(p), k++ ) if( p==node(i) ) return true; return false; }
static void project(void) {
	int k = 0;
	J_key("fwd"); fputc('[', drv_out);
	for( void *p = head; kind && p && k < NN + 2; p = harbol_link_get_a(p), k++ ) { int id = idof(p); fprintf(drv_out, k? ",%d" : "%d", id); if( id < 0 ) break; }
	fputc(']', drv_out);
	J_key("bwd"); fputc('[', drv_out); k = 0;
	void *last = NULL; int m = 0;
	if( kind ) for( void *p = head; p && m < NN + 2; p = harbol_link_get_a(p), m++ ) last = p;
	if( kind >= 2 ) for( void *p = tailed? tail : last; p && k < NN + 2; p = harbol_bilink_get_b(p), k++ ) { int id = idof(p); fprintf(drv_out, k? ",%d" : "%d", id); if( id < 0 ) break; }
	fputc(']', drv_out);
	J_int("tail", kind? idof(tail) : 0);
}
/* a node that is not in the list carries stale links */
static void dirty(int i) {
	rs = rs * 1103515245u + 12345u;
	void *s = node(1 + (rs >> 16) % (NN - 1)), *t = node(1 + (rs >> 20) % (NN - 1));
	if( kind==1 ) { n1[i].l.a = s; } else if( kind==2 ) { n2[i].l.a = s; n2[i].l.b = t; } else { n3[i].l.a = s; n3[i].l.b = t; n3[i].l.c = s; }
}
static void drv_dispatch(void) {
	if( t_is(0, "reset") ) { kind = 0; head = tail = NULL; ev_begin("reset"); project(); ev_end(); return; }
	int a = (int)t_int(1), b = (int)t_int(2);
	if( t_is(0, "mode") ) { kind = a; tailed = b; head = tail = NULL; for( int i=1; i < NN; i++ ) dirty(i); ev_begin("mode"); J_int("k", kind); J_bool("t", tailed); project(); ev_end(); return; }
	char const *op = t_word(0); bool ok = kind != 0;
	if( ok && !strncmp(op, "add", 3) ) { int n = t_is(0, "add_after")? b : a; ok = n >= 1 && n < NN && !in_list(n); if( ok ) dirty(n); }
	if( ok && t_is(0, "add_tail") ) ok = tailed;
	if( ok && t_is(0, "add_after") ) ok = in_list(a);
	if( ok && t_is(0, "remove") ) ok = kind >= 2 && tailed && in_list(a);
	if( ok && t_is(0, "pop_head") ) ok = kind==1 && head != NULL;
	if( !ok ) op = "none";
	ev_begin(op);
	if( !ok ) { ;
	} else if( !strcmp(op, "add_head") ) {
		J_int("n", a);
		if( kind==1 ) harbol_link_add_to_head(&head, node(a), tailed? &tail : NULL);
		else harbol_bilink_add_to_head(&head, node(a), tailed? &tail : NULL);
	} else if( !strcmp(op, "add_tail") ) {
		J_int("n", a);
		if( kind==1 ) harbol_link_add_to_tail(&head, node(a), &tail); else harbol_bilink_add_to_tail(&head, node(a), &tail);
	} else if( !strcmp(op, "add_after") ) {
		J_int("m", a); J_int("n", b);
		if( kind==1 ) harbol_link_add_after(node(a), node(b)); else harbol_bilink_add_after(node(a), node(b));
		if( tailed && tail==node(a) ) tail = node(b);          /* the caller's part */
	} else if( !strcmp(op, "remove") ) { J_int("n", a); harbol_bilink_remove(&head, node(a), &tail);
	} else if( !strcmp(op, "pop_head") ) {
		void *h = head; head = harbol_link_get_a(h); harbol_link_set_a(h, NULL); if( head==NULL ) tail = NULL;
	} else if( !strcmp(op, "links") ) {                        /* links A B C: node references, 0 = NULL */
		struct HarbolTriLink x = {0}, p[NN]; void *w[3]; int r[3], rr[3];
		for( int i=0; i < 3; i++ ) { int v = (int)t_int(1 + i) % NN; w[i] = v? &p[v] : NULL; }
		harbol_link_set_a(&x, w[0]); harbol_bilink_set_b(&x, w[1]); harbol_trilink_set_c(&x, w[2]);
		void *g[3] = { harbol_link_get_a(&x), harbol_bilink_get_b(&x), harbol_trilink_get_c(&x) };
		void **q[3] = { harbol_link_get_a_ref(&x), harbol_bilink_get_b_ref(&x), harbol_trilink_get_c_ref(&x) };
		for( int i=0; i < 3; i++ ) { r[i] = g[i]? (int)((struct HarbolTriLink*)g[i] - p) : 0; rr[i] = *q[i]? (int)((struct HarbolTriLink*)*q[i] - p) : 0; }
		fprintf(drv_out, ",\"w\":[%d,%d,%d],\"r\":[%d,%d,%d],\"rr\":[%d,%d,%d]", (int)t_int(1) % NN, (int)t_int(2) % NN, (int)t_int(3) % NN, r[0], r[1], r[2], rr[0], rr[1], rr[2]);
	}
	project(); ev_end();
}
