/* Directory walks: trees of directories, files and links are built below ./root (removed at every reset), then walked. */
#include "drv.h"
#include <dirent.h>
#include <errno.h>
#include <sys/stat.h>
#include "plugins/plugins.h"
#define MAXF 4096
static char *files[MAXF]; static int nfiles;          /* regular files made in this scenario */
static char start[4096];
static int nfds(void) { int n = 0; for( int i=0; i < 2000; i++ ) n += fcntl(i, F_GETFD) != -1; return n; }
static bool gone(int fd, char const *name) {          /* removes name below fd; false: not empty */
	return unlinkat(fd, name, 0)==0 || unlinkat(fd, name, AT_REMOVEDIR)==0 || errno==ENOENT;
}
static void purge(char const *top) {                   /* flattens: sub directories move up before they are emptied */
	static int serial;
	for( ;; ) {
		if( gone(AT_FDCWD, top) ) return;
		DIR *d = opendir(top); if( d==NULL ) return;
		int fd = dirfd(d); struct dirent *e; int moved = 0;
		while( (e = readdir(d)) != NULL ) {
			if( !strcmp(e->d_name, ".") || !strcmp(e->d_name, "..") || gone(fd, e->d_name) ) continue;
			DIR *s = fdopendir(openat(fd, e->d_name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW)); if( s==NULL ) continue;
			int sfd = dirfd(s); struct dirent *x;
			while( (x = readdir(s)) != NULL ) {
				char to[32]; if( !strcmp(x->d_name, ".") || !strcmp(x->d_name, "..") || gone(sfd, x->d_name) ) continue;
				sprintf(to, "_%d", serial++); if( renameat(sfd, x->d_name, fd, to)==0 ) moved = 1;
			}
			closedir(s); gone(fd, e->d_name); moved = 1;
		}
		closedir(d);
		if( !moved && !gone(AT_FDCWD, top) ) return;
	}
}
static struct { char *path, *name; } rep[20000]; static int nrep, ud_ok; static int tag; static bool rm_others;
static void on_file(char const *path, char const *name, void *ud) {
	ud_ok += ud==&tag;
	if( nrep < 20000 ) { rep[nrep].path = strdup(path); rep[nrep].name = strdup(name); }
	nrep++;
	if( rm_others && nrep==1 ) {
		struct stat a, b; stat(path, &a);
		for( int i=0; i < nfiles; i++ ) if( stat(files[i], &b)==0 && (a.st_ino != b.st_ino || a.st_dev != b.st_dev) ) unlink(files[i]);
	}
}
static void made(char const *op, char const *dir, char const *name) { ev_begin(op); J_bytes("dir", dir, strlen(dir)); J_bytes("name", name, strlen(name)); }
static char *join(char const *a, char const *b) { char *p = malloc(strlen(a) + strlen(b) + 2); sprintf(p, "%s%s%s", a, *a? "/" : "", b); return p; }
static void drv_dispatch(void) {
	drv_counting = false;
	if( !start[0] && getcwd(start, sizeof start)==NULL ) _exit(3);
	if( t_is(0, "reset") ) {
		if( chdir(start) ) _exit(3);
		purge("root"); mkdir("root", 0755); if( chdir("root") ) _exit(3);
		for( int i=0; i < nfiles; i++ ) free(files[i]);
		nfiles = 0; drv_live = 0; drv_live_bytes = 0; memset(drv_pt, 0, sizeof drv_pt);
		ev_begin("reset"); ev_end(); return;
	}
	if( t_is(0, "deep") ) {            /* deep NAME N COMPONENT: a chain of directories too long to be looked at as one path */
		char *top = t_cstr(1), *c = t_cstr(3); int n = t_int(2);
		int fd = AT_FDCWD; mkdir(top, 0755); fd = open(top, O_RDONLY | O_DIRECTORY);
		for( int i=0; i < n && fd >= 0; i++ ) { mkdirat(fd, c, 0755); int f = openat(fd, "deep.so", O_CREAT | O_WRONLY, 0644); if( f >= 0 ) close(f); int g = openat(fd, c, O_RDONLY | O_DIRECTORY); close(fd); fd = g; }
		if( fd >= 0 ) close(fd);
		ev_begin("deep"); J_bytes("name", top, strlen(top)); ev_end(); free(top); free(c); return;
	}
	char *a = t_cstr(1), *b = t_cstr(2);
	if( t_is(0, "dir") ) { char *p = join(a, b); mkdir(p, 0755); free(p); made("dir", a, b); ev_end(); }
	else if( t_is(0, "file") ) { char *p = join(a, b); close(open(p, O_CREAT | O_WRONLY, 0644)); if( nfiles < MAXF ) files[nfiles++] = p; made("file", a, b); ev_end(); }
	else if( t_is(0, "pipe") ) { char *p = join(a, b); mkfifo(p, 0644); free(p); made("pipe", a, b); ev_end(); }
	else if( t_is(0, "link") ) {       /* link DIR NAME TARGET (from the root of the tree) */
		char *p = join(a, b), *to = t_cstr(3), *abs = malloc(strlen(start) + strlen(to) + 16); sprintf(abs, "%s/root/%s", start, to);
		if( symlink(abs, p) ) perror(p);
		made("link", a, b); J_bytes("to", to, strlen(to)); ev_end(); free(p); free(to); free(abs);
	} else if( t_is(0, "walk") || t_is(0, "walkrm") ) {   /* walk DIR EXT|none ; walkrm: the first report removes all other files */
		char cwd[4096]; if( getcwd(cwd, sizeof cwd)==NULL ) _exit(3);
		size_t cl = strlen(cwd), al = strlen(a), bl = strlen(b);
		char *ga = realloc(memcpy(malloc(al + 1), a, al + 1), al + 1), *gb = t_is(2, "none")? NULL : memcpy(malloc(bl + 1), b, bl + 1);
		nrep = ud_ok = 0; rm_others = t_is(0, "walkrm"); int fds = nfds(); long heap = drv_live;
		drv_counting = true; drv_call_begin();
		FILE *keep = stderr; stderr = fopen("/dev/null", "w");
		bool r = harbol_plugin_dir_open(ga, on_file, &tag, gb);
		fclose(stderr); stderr = keep;
		drv_counting = false;
		if( rm_others ) { int k = 0; for( int i=0; i < nfiles; i++ ) if( access(files[i], F_OK)==0 ) files[k++] = files[i]; nfiles = k; }
		ev_begin(t_word(0)); J_bytes("dir", a, al); J_open("ext", '['); if( gb ) { J_elem(); J_raw_bytes(gb, bl); } J_close(']');
		J_bool("ret", r); J_int("cwd", cl); J_int("fds", nfds() - fds); J_bool("heap", drv_live==heap); J_bool("ud", ud_ok==nrep); J_bool("oom", drv_failed);
		J_open("found", '[');
		for( int i=0; i < nrep && i < 20000; i++ ) {
			J_elem(); fputc('[', drv_out); bool in = !strncmp(rep[i].path, cwd, cl) && rep[i].path[cl]=='/';
			fprintf(drv_out, in? "1," : "0,"); J_raw_bytes(rep[i].path + (in? cl + 1 : 0), strlen(rep[i].path) - (in? cl + 1 : 0)); fputc(',', drv_out);
			J_raw_bytes(rep[i].name, strlen(rep[i].name)); fputc(']', drv_out); drv_first = false; free(rep[i].path); free(rep[i].name);
		}
		J_close(']'); J_int("n", nrep); ev_end(); free(ga); free(gb);
	} else _exit(2);
	free(a); free(b); drv_counting = true;
}
