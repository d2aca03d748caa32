/* Common part of the conformance drivers: a driver reads a script (one call per line) from a file,
 * performs each call on the real harbol code and writes one JSON event per call: arguments, results
 * and the projected abstract state.  TLC then decides whether the events are a behaviour of the spec.
 *
 *   driver SCRIPT TRACE
 *
 * Script tokens: integers (decimal, '-1' == SIZE_MAX, 'h<hex>' = raw 64-bit), bytes 'x<hex>', words.
 * Integers are logged as signed values; beyond +-1e9 they are clamped (TLC integers are 32 bit), so a
 * negative number in a trace is an enormous size_t.
 * malloc & co. are interposed with -Wl,--wrap: live block count, fault injection, allocation cap.
 */
#ifndef DRV_H
#define DRV_H
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <signal.h>
#include <unistd.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <fcntl.h>

/* ---- allocation interposer ------------------------------------------------------------------- */
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t); void __real_free(void *);

#define DRV_PT (1u << 20)
static void  *drv_pt[DRV_PT];        /* live pointers (open addressing, tombstone = (void*)1) */
static size_t drv_ps[DRV_PT];
static long   drv_live = 0;          /* live blocks obtained by the code under test */
static size_t drv_live_bytes = 0;
static long   drv_allocs = 0;        /* allocations since the last drv_alloc_reset */
static long   drv_fail_at = 0;       /* fail the n-th allocation of the current call (0 = never) */
static long   drv_fail_upto = 0;     /* ... and all following ones up to this index */
static bool   drv_failed = false;    /* an injected failure happened in the current call */
static bool   drv_counting = true;

static size_t drv_ph(void const *p) { uintptr_t u = (uintptr_t)p; u ^= u >> 17; u *= 0x9E3779B97F4A7C15ull; return (size_t)(u >> 40) & (DRV_PT - 1); }
static void drv_padd(void *p, size_t n) {
	if( p==NULL || !drv_counting ) return;
	size_t i = drv_ph(p);
	while( drv_pt[i] != NULL && drv_pt[i] != (void*)1 ) i = (i + 1) & (DRV_PT - 1);
	drv_pt[i] = p; drv_ps[i] = n; drv_live++; drv_live_bytes += n;
}
static bool drv_pdel(void *p) {
	if( p==NULL ) return false;
	size_t i = drv_ph(p);
	while( drv_pt[i] != NULL ) {
		if( drv_pt[i]==p ) { drv_pt[i] = (void*)1; drv_live--; drv_live_bytes -= drv_ps[i]; return true; }
		i = (i + 1) & (DRV_PT - 1);
	}
	return false;
}
/* size of a live block, or SIZE_MAX */
static inline size_t drv_psize(void const *p) {
	if( p==NULL ) return SIZE_MAX;
	size_t i = drv_ph(p);
	while( drv_pt[i] != NULL ) { if( drv_pt[i]==p ) return drv_ps[i]; i = (i + 1) & (DRV_PT - 1); }
	return SIZE_MAX;
}
static bool drv_refuse(size_t n) {
	if( !drv_counting ) return false;
	drv_allocs++;
	if( drv_fail_at > 0 && drv_allocs >= drv_fail_at && drv_allocs <= drv_fail_upto ) { drv_failed = true; return true; }
	return n > ((size_t)64 << 20) || drv_live_bytes + n > ((size_t)768 << 20);
}
void *__wrap_malloc(size_t n) { if( drv_refuse(n) ) return NULL; void *p = __real_malloc(n); drv_padd(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) {
	size_t n; if( __builtin_mul_overflow(a, b, &n) ) n = SIZE_MAX;
	if( drv_refuse(n) ) return NULL;
	void *p = __real_calloc(a, b); drv_padd(p, n); return p;
}
void *__wrap_realloc(void *o, size_t n) {
	if( drv_refuse(n) ) return NULL;
	bool k = drv_pdel(o); (void)k;
	void *p = __real_realloc(o, n);
	drv_padd(p, n); return p;
}
void __wrap_free(void *p) { drv_pdel(p); __real_free(p); }

/* ---- output ---------------------------------------------------------------------------------- */
static FILE *drv_out;
static bool drv_first;
static inline void J_key(char const *k) { fprintf(drv_out, drv_first? "\"%s\":" : ",\"%s\":", k); drv_first = false; }
static inline long drv_clamp(int64_t v) { return v > 1000000000? 1000000000 : v < -1000000000? -1000000000 : (long)v; }
static inline void J_raw_int(int64_t v) { fprintf(drv_out, "%ld", drv_clamp(v)); }
static inline void J_int(char const *k, int64_t v) { J_key(k); J_raw_int(v); }
static inline void J_sz(char const *k, size_t v) { J_key(k); J_raw_int((int64_t)v); }
static inline void J_bool(char const *k, bool v) { J_key(k); fputs(v? "true" : "false", drv_out); }
static inline void J_str(char const *k, char const *s) {
	J_key(k); fputc('"', drv_out);
	for( ; *s; s++ ) { if( *s=='"' || *s=='\\' ) fputc('\\', drv_out); if( (unsigned char)*s >= 32 && (unsigned char)*s < 127 ) fputc(*s, drv_out); }
	fputc('"', drv_out);
}
static inline void J_raw_bytes(void const *p, size_t n) {
	unsigned char const *b = p; fputc('[', drv_out);
	for( size_t i=0; i < n; i++ ) fprintf(drv_out, i? ",%u" : "%u", b[i]);
	fputc(']', drv_out);
}
static inline void J_bytes(char const *k, void const *p, size_t n) { J_key(k); J_raw_bytes(p, n); }
/* a 64-bit word as four 16-bit limbs, least significant first */
static inline void J_raw_limbs(uint64_t v) { fprintf(drv_out, "[%u,%u,%u,%u]", (unsigned)(v & 0xFFFF), (unsigned)(v >> 16 & 0xFFFF), (unsigned)(v >> 32 & 0xFFFF), (unsigned)(v >> 48)); }
static inline void J_limbs(char const *k, uint64_t v) { J_key(k); J_raw_limbs(v); }
static inline void J_open(char const *k, char c) { J_key(k); fputc(c, drv_out); drv_first = true; }
static inline void J_elem(void) { if( !drv_first ) fputc(',', drv_out); drv_first = true; }
static inline void J_close(char c) { fputc(c, drv_out); drv_first = false; }
static inline void ev_begin(char const *op) { fputc('{', drv_out); drv_first = true; J_str("op", op); }
static inline void ev_end(void) { fputs("}\n", drv_out); fflush(drv_out); }

/* ---- names for files to read: all kinds in turn; a decoy lies under the plain one ---- */
static inline char const *drv_file(void const *p, size_t n) {
	static char longname[256]; static unsigned turn;
	static char const *const names[] = { "in.txt", " in.txt", "in.txt ", "in txt", "\t", "IN.TXT", "..in", ".in.txt", "%s%n", "\xc3\xa9.txt", "\\in.txt", "~", "-", "in.txt.txt", "'in'", "./in.txt", "*", NULL };
	static char const *last; if( last ) unlink(last);
	turn = (turn + 1) % (sizeof names / sizeof *names);
	if( !*longname ) { memset(longname, 'n', 254); memcpy(longname + 240, " x", 2); }
	last = names[turn]? names[turn] : longname;
	FILE *f = fopen("in.txt", "wb"); if( f ) { fputs("decoy", f); fclose(f); }
	f = fopen(last, "wb"); if( f ) { fwrite(p, 1, n, f); fclose(f); }
	return last;
}

/* ---- files whose writing fails: nothing can be written beyond the first n bytes (n < 0: as before) ---- */
#include <sys/resource.h>
#include <signal.h>
static inline void drv_fsize(long n) {
	static struct rlimit old; struct rlimit now;
	if( n >= 0 ) { signal(SIGXFSZ, SIG_IGN); getrlimit(RLIMIT_FSIZE, &old); now = old; now.rlim_cur = (rlim_t)n; setrlimit(RLIMIT_FSIZE, &now); }
	else setrlimit(RLIMIT_FSIZE, &old);
}
/* ---- script ---------------------------------------------------------------------------------- */
#define MAXTOK 4096
static char  *drv_tok[MAXTOK];
static int    drv_ntok;
static inline char const *t_word(int i) { return i < drv_ntok? drv_tok[i] : ""; }
static inline bool t_is(int i, char const *s) { return !strcmp(t_word(i), s); }
static inline int64_t t_int(int i) {
	char const *s = t_word(i);
	if( *s=='h' ) return (int64_t)strtoull(s + 1, NULL, 16);
	return (int64_t)strtoll(s, NULL, 10);
}
static inline size_t t_sz(int i) { return (size_t)t_int(i); }
static inline int drv_hexv(char c) { return c >= '0' && c <= '9'? c - '0' : c >= 'a' && c <= 'f'? c - 'a' + 10 : 0; }
/* decodes x<hex> into an exactly sized fresh block (so that ASan sees any over-read); +extra zero bytes */
static inline uint8_t *t_bytes(int i, size_t *n, size_t extra) {
	char const *s = t_word(i);
	size_t len = *s=='x'? (strlen(s) - 1) / 2 : 0;
	uint8_t *b = __real_calloc(len + extra + (len + extra==0), 1);
	for( size_t k=0; k < len; k++ ) b[k] = (uint8_t)(drv_hexv(s[1 + 2*k]) << 4 | drv_hexv(s[2 + 2*k]));
	*n = len;
	return b;
}
static inline char *t_cstr(int i) { size_t n; return (char*)t_bytes(i, &n, 1); }

static void drv_on_prof(int sig) { (void)sig; fputs("{\"op\":\"hang\"}\n", drv_out); fflush(drv_out); _exit(4); }
static void drv_arm(int secs) { struct itimerval t = { {0,0}, {secs,0} }; setitimer(ITIMER_PROF, &t, NULL); }

static void drv_dispatch(void);   /* provided by the driver: drv_tok[0] is the operation */
static inline void drv_call_begin(void) { drv_allocs = 0; drv_failed = false; }
static inline void drv_fault_off(void) { drv_fail_at = drv_fail_upto = 0; }

int main(int argc, char **argv) {
	if( argc < 3 ) return 2;
	FILE *in = fopen(argv[1], "r");
	drv_out = fopen(argv[2], "w");
	if( in==NULL || drv_out==NULL ) return 2;
	signal(SIGPROF, drv_on_prof);
	static char line[1 << 20];
	while( fgets(line, sizeof line, in) ) {
		drv_ntok = 0;
		for( char *p = strtok(line, " \n"); p && drv_ntok < MAXTOK; p = strtok(NULL, " \n") ) drv_tok[drv_ntok++] = p;
		if( drv_ntok==0 ) continue;
		drv_arm(20);
		if( t_is(0, "fail") ) {           /* fail N [M]: the N-th..M-th allocations of the next call fail */
			drv_fail_at = t_int(1);
			drv_fail_upto = drv_ntok > 2? t_int(2) : drv_fail_at;
			continue;
		}
		drv_call_begin();
		drv_dispatch();
		drv_fault_off();
	}
	drv_arm(0);
	fclose(drv_out); fclose(in);
	return 0;
}
#endif
