/* Plugin handles: load, reload, change detection, symbols, clear - with library files that are missing, broken,
 * replaced at any time (also while they are being opened).  Library versions are built in lib/ by comps/plugin.py. */
#include "drv.h"
#include <dlfcn.h>
#include <sys/stat.h>
#include "plugins/plugins.h"
#define NH 3
static struct HarbolPlugin pl[NH];
static int cbdata[NH];
static int opened;                     /* library handles obtained and not yet given back */
static char race_path[64]; static int race_ver, race_mtime;
void *__real_dlopen(char const *, int); int __real_dlclose(void *);
static int64_t epoch = 100000;         /* modification times are counted from here */
static void set_time(char const *path, int m) { struct timeval tv[2] = { {epoch + m, 0}, {epoch + m, 0} }; utimes(path, tv); }
static void install(char const *path, int ver, int mtime) {
	char src[32] = "broken"; if( ver > 0 ) sprintf(src, "lib/v%d.so", ver);
	FILE *in = fopen(src, "rb"), *out = fopen("tmp.new", "wb");
	if( in==NULL || out==NULL ) { fprintf(stderr, "setup: cannot install %s\n", src); _exit(3); }
	char b[4096]; size_t n; while( (n = fread(b, 1, sizeof b, in)) > 0 ) fwrite(b, 1, n, out);
	fclose(in); fclose(out);
	set_time("tmp.new", mtime); rename("tmp.new", path);
}
void *__wrap_dlopen(char const *p, int f) {
	bool c = drv_counting; drv_counting = false; void *d = __real_dlopen(p, f); drv_counting = c;
	if( d != NULL ) opened++;
	if( race_path[0] ) { install(race_path, race_ver, race_mtime); race_path[0] = 0; }
	return d;
}
int __wrap_dlclose(void *d) { opened--; bool c = drv_counting; drv_counting = false; int r = __real_dlclose(d); drv_counting = c; return r; }
static struct { int what, re, ud, id, path; } cb[16]; static int ncb;
static char expect[64];
static void on(int what, struct HarbolPlugin *p, void *ud, bool re) {
	if( ncb >= 16 ) return;
	int *id = p->dll? harbol_plugin_get_obj(p, "plugin_id") : NULL;
	cb[ncb].what = what; cb[ncb].re = re; cb[ncb].ud = ud==&cbdata[p - pl]; cb[ncb].id = id? *id : 0; cb[ncb].path = p->path && !strcmp(p->path, expect); ncb++;
}
static void on_load(struct HarbolPlugin *p, void *ud, bool re) { on(1, p, ud, re); }
static void on_unload(struct HarbolPlugin *p, void *ud, bool re) { on(2, p, ud, re); }
static char const *path_of(int p) {
	static char b[32];
	switch( p ) { case 0: return "libm.so.6"; case -1: return "./none.so"; case -2: return ""; case -3: return "./lib"; case -4: return "pl1.so"; }
	sprintf(b, "./pl%d.so", p); return b;
}
static int hpath[NH];
static void finish(int h) {
	J_open("log", '[');
	for( int i=0; i < ncb; i++ ) { J_elem(); fprintf(drv_out, "[%d,%d,%d,%d,%d]", cb[i].what, cb[i].re, cb[i].ud, cb[i].id, cb[i].path); drv_first = false; }
	J_close(']');
	if( h >= 0 ) {
		J_bool("lib", pl[h].dll != NULL); J_bool("set", pl[h].path != NULL); J_bool("same", pl[h].path && !strcmp(pl[h].path, path_of(hpath[h])));
		J_int("base", pl[h].last_write==0? 0 : pl[h].last_write - epoch); J_int("err", pl[h].err);
	}
	J_int("opened", opened); J_int("heap", drv_live); J_bool("oom", drv_failed); ev_end();
}
static void drv_dispatch(void) {
	int h = t_int(1); ncb = 0;
	if( t_is(0, "reset") ) {
		for( int i=0; i < NH; i++ ) { if( pl[i].path || pl[i].dll ) harbol_plugin_clear(&pl[i], NULL, NULL); pl[i] = (struct HarbolPlugin){0}; }
		for( int i=1; i < 5; i++ ) unlink(path_of(i));
		FILE *f = fopen("broken", "wb"); fputs("this is no library\n", f); fclose(f);
		/* reset [EPOCH]: whatever times the file system can hold */
		static int64_t const epochs[] = { 100000, 0, -10, 2147483645, 4294967293, 1700000000, 9999999999, 256 };
		epoch = epochs[(drv_ntok > 1? t_int(1) : 0) & 7]; struct stat st;
		set_time("broken", 4); if( stat("broken", &st) || st.st_mtime != epoch + 4 ) epoch = 100000;
		int same = 0; char *t[7];
		for( int i=0; i < 7; i++ ) { pl[0].err = i; t[i] = strdup(harbol_plugin_get_err(&pl[0])); same += t[i][0]==0; for( int j=0; j < i; j++ ) same += !strcmp(t[i], t[j]); }
		pl[0].err = 0; for( int i=0; i < 7; i++ ) __real_free(t[i]);
		drv_live = 0; drv_live_bytes = 0; memset(drv_pt, 0, sizeof drv_pt);
		ev_begin("reset"); J_int("texts", same); finish(-1);
	} else if( t_is(0, "install") ) {
		install(path_of(h), t_int(2), t_int(3)); ev_begin("install"); J_int("p", h); J_int("ver", t_int(2)); J_int("mtime", t_int(3)); finish(-1);
	} else if( t_is(0, "remove") ) {
		unlink(path_of(h)); ev_begin("remove"); J_int("p", h); finish(-1);
	} else if( t_is(0, "touch") ) {
		set_time(path_of(h), t_int(2)); ev_begin("touch"); J_int("p", h); J_int("mtime", t_int(2)); finish(-1);
	} else if( t_is(0, "load") ) {    /* load HANDLE PATH CALLBACK? [VERSION MTIME put in place while the library is opened] */
		if( pl[h].path || pl[h].dll ) return;   /* only handles not in use are loaded into */
		int p = t_int(2); strcpy(expect, path_of(p)); hpath[h] = p;
		ev_begin("load"); J_int("h", h); J_int("p", p); J_bool("cb", t_int(3)); J_bool("race", drv_ntok > 4); J_int("ver", t_int(4)); J_int("mtime", t_int(5));
		if( drv_ntok > 4 ) { strcpy(race_path, expect); race_ver = t_int(4); race_mtime = t_int(5); }
		char *arg = strdup(expect);
		drv_call_begin();
		bool r = harbol_plugin_load(&pl[h], arg, t_int(3)? on_load : NULL, &cbdata[h]);
		memset(arg, 'z', strlen(arg)); __real_free(arg); race_path[0] = 0;
		J_bool("ret", r); finish(h);
	} else if( t_is(0, "reload") ) {  /* reload HANDLE LOAD-CALLBACK? UNLOAD-CALLBACK? [VERSION MTIME] */
		ev_begin("reload"); J_int("h", h); J_bool("cbl", t_int(2)); J_bool("cbu", t_int(3)); J_bool("race", drv_ntok > 4); J_int("ver", t_int(4)); J_int("mtime", t_int(5));
		strcpy(expect, path_of(hpath[h]));
		if( drv_ntok > 4 && pl[h].path ) { strcpy(race_path, pl[h].path); race_ver = t_int(4); race_mtime = t_int(5); }
		bool r = harbol_plugin_reload(&pl[h], t_int(2)? on_load : NULL, t_int(3)? on_unload : NULL, &cbdata[h]);
		race_path[0] = 0;
		J_bool("ret", r); finish(h);
	} else if( t_is(0, "changed") ) {
		bool r = harbol_plugin_changed(&pl[h]); ev_begin("changed"); J_int("h", h); J_bool("ret", r); finish(h);
	} else if( t_is(0, "get") ) {
		static char const *names[] = { "plugin_id", "plugin_extra", "plugin_none" };
		int *o = harbol_plugin_get_obj(&pl[h], names[t_int(2)]); ev_begin("get"); J_int("h", h); J_int("name", t_int(2)); J_bool("null", o==NULL); J_int("val", o? *o : 0); finish(h);
	} else if( t_is(0, "clear") ) {
		strcpy(expect, path_of(hpath[h]));
		harbol_plugin_clear(&pl[h], t_int(2)? on_unload : NULL, &cbdata[h]); ev_begin("clear"); J_int("h", h); J_bool("cb", t_int(2)); finish(h);
	} else _exit(2);
}
