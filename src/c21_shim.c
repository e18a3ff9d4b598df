// Preloaded into the installer, the tools it calls and the installed daemon (C21): absolute names of the
// system are looked up below $VPROOT/root instead, so that nothing real is touched. What only serves to run
// programs is left alone. $VPFAIL names a directory below which nothing can be changed (EROFS).
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#define R(ret, name, ...) static ret (*r)(__VA_ARGS__); if (!r) r = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)
static const char *base; static size_t baselen;
__attribute__((constructor)) static void init(void) { base = getenv("VPROOT"); baselen = base ? strlen(base) : 0; }
static int under(const char *p, const char *d) { size_t n = strlen(d); return !strncmp(p, d, n) && (p[n] == 0 || p[n] == '/'); }
// how: 0 look, 1 change, 2 write into
static const char *at(const char *p, char *buf, int how) {
  static const char *keep[] = {"/proc", "/dev", "/bin", "/sbin", "/lib", "/lib64", "/usr/bin", "/usr/lib", "/usr/share", 0};
  if (!p || !base || p[0] != '/') return p;
  while (p[0] == '/' && p[1] == '/') p++;
  if (!strncmp(p, base, baselen) && (p[baselen] == 0 || p[baselen] == '/')) return p;
  if (!(under(p, "/usr/lib/systemd") || under(p, "/lib/systemd"))) for (int i = 0; keep[i]; i++) if (under(p, keep[i])) { if (how && strncmp(p, "/dev/", 5)) { errno = EROFS; return 0; } return p; }
  const char *f = getenv("VPFAIL"); if (how && f && under(p, f)) { errno = EROFS; return 0; }
  if (how && !strcmp(p, "/usr/local/sbin/preload")) {   // changed while the service runs?
    static int (*o)(const char *, int, ...); static int (*acc)(const char *, int); if (!o) { o = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open"); acc = (int (*)(const char *, int))dlsym(RTLD_NEXT, "access"); }
    char m[4096]; snprintf(m, sizeof m, "%s/svc/active", base); if (!acc(m, F_OK)) { snprintf(m, sizeof m, "%s/svc/while-running", base); int e = errno, d = o(m, O_CREAT | O_WRONLY, 0666); if (d >= 0) close(d); errno = e; if (how == 2) { errno = ETXTBSY; return 0; } }
  }
  if (snprintf(buf, 4096, "%s/root%s", base, p) >= 4096) { errno = ENAMETOOLONG; return 0; }
  return buf;
}
#define AT(q, p, how) char q##_b[4096]; const char *q = at(p, q##_b, how); if (!q && p) return -1
#define ATP(q, p, how) char q##_b[4096]; const char *q = at(p, q##_b, how); if (!q && p) return 0
#define WR(fl) (((fl) & O_ACCMODE) != O_RDONLY || ((fl) & (O_CREAT | O_TRUNC)))
#define MODE(fl) mode_t m = 0; if (((fl) & O_CREAT) || ((fl) & O_TMPFILE) == O_TMPFILE) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int fl, ...) { MODE(fl) R(int, "open", const char *, int, ...); AT(q, p, WR(fl) ? 2 : 0); return r(q, fl, m); }
int open64(const char *p, int fl, ...) { MODE(fl) R(int, "open64", const char *, int, ...); AT(q, p, WR(fl) ? 2 : 0); return r(q, fl, m); }
int openat(int d, const char *p, int fl, ...) { MODE(fl) R(int, "openat", int, const char *, int, ...); AT(q, p, WR(fl) ? 2 : 0); return r(d, q, fl, m); }
int openat64(int d, const char *p, int fl, ...) { MODE(fl) R(int, "openat64", int, const char *, int, ...); AT(q, p, WR(fl) ? 2 : 0); return r(d, q, fl, m); }
int __open_2(const char *p, int fl) { return open(p, fl); }
int __open64_2(const char *p, int fl) { return open64(p, fl); }
int __openat_2(int d, const char *p, int fl) { return openat(d, p, fl); }
int __openat64_2(int d, const char *p, int fl) { return openat64(d, p, fl); }
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return open64(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
FILE *fopen(const char *p, const char *m) { R(FILE *, "fopen", const char *, const char *); ATP(q, p, m[0] != 'r' || strchr(m, '+') ? 2 : 0); return r(q, m); }
FILE *fopen64(const char *p, const char *m) { R(FILE *, "fopen64", const char *, const char *); ATP(q, p, m[0] != 'r' || strchr(m, '+') ? 2 : 0); return r(q, m); }
FILE *freopen(const char *p, const char *m, FILE *f) { R(FILE *, "freopen", const char *, const char *, FILE *); ATP(q, p, m[0] != 'r' || strchr(m, '+') ? 2 : 0); return r(q, m, f); }
DIR *opendir(const char *p) { R(DIR *, "opendir", const char *); ATP(q, p, 0); return r(q); }
char *realpath(const char *p, char *o) { R(char *, "realpath", const char *, char *); ATP(q, p, 0); return r(q, o); }
char *canonicalize_file_name(const char *p) { return realpath(p, 0); }
#define ST(name, T) int name(const char *p, struct T *s) { R(int, #name, const char *, struct T *); AT(q, p, 0); return r(q, s); }
ST(stat, stat) ST(lstat, stat) ST(stat64, stat64) ST(lstat64, stat64)
int fstatat(int d, const char *p, struct stat *s, int f) { R(int, "fstatat", int, const char *, struct stat *, int); AT(q, p, 0); return r(d, q, s, f); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { R(int, "fstatat64", int, const char *, struct stat64 *, int); AT(q, p, 0); return r(d, q, s, f); }
int statx(int d, const char *p, int f, unsigned m, struct statx *s) { R(int, "statx", int, const char *, int, unsigned, struct statx *); AT(q, p, 0); return r(d, q, f, m, s); }
int access(const char *p, int m) { R(int, "access", const char *, int); AT(q, p, 0); return r(q, m); }
int eaccess(const char *p, int m) { R(int, "eaccess", const char *, int); AT(q, p, 0); return r(q, m); }
int euidaccess(const char *p, int m) { R(int, "euidaccess", const char *, int); AT(q, p, 0); return r(q, m); }
int faccessat(int d, const char *p, int m, int f) { R(int, "faccessat", int, const char *, int, int); AT(q, p, 0); return r(d, q, m, f); }
ssize_t readlink(const char *p, char *b, size_t n) { R(ssize_t, "readlink", const char *, char *, size_t); AT(q, p, 0); return r(q, b, n); }
ssize_t readlinkat(int d, const char *p, char *b, size_t n) { R(ssize_t, "readlinkat", int, const char *, char *, size_t); AT(q, p, 0); return r(d, q, b, n); }
int chdir(const char *p) { R(int, "chdir", const char *); AT(q, p, 0); return r(q); }
int mkdir(const char *p, mode_t m) { R(int, "mkdir", const char *, mode_t); AT(q, p, 1); return r(q, m); }
int mkdirat(int d, const char *p, mode_t m) { R(int, "mkdirat", int, const char *, mode_t); AT(q, p, 1); return r(d, q, m); }
int rmdir(const char *p) { R(int, "rmdir", const char *); AT(q, p, 1); return r(q); }
int unlink(const char *p) { R(int, "unlink", const char *); AT(q, p, 1); return r(q); }
int remove(const char *p) { R(int, "remove", const char *); AT(q, p, 1); return r(q); }
// below the failing directory also what is reached step by step
static int failing(int d, const char *p) {
  const char *f = getenv("VPFAIL"); char a[64], b[4096], c[4096]; ssize_t n; if (!f || p[0] == '/' || d == AT_FDCWD) return 0;
  snprintf(a, sizeof a, "/proc/self/fd/%d", d); R(ssize_t, "readlink", const char *, char *, size_t); if ((n = r(a, b, sizeof b - 1)) < 0) return 0;
  b[n] = 0; snprintf(c, sizeof c, "%s/root%s", base, f); if (!under(b, c)) return 0; errno = EROFS; return 1;
}
int unlinkat(int d, const char *p, int f) { R(int, "unlinkat", int, const char *, int); AT(q, p, 1); if (failing(d, p)) return -1; return r(d, q, f); }
int rename(const char *p, const char *t) { R(int, "rename", const char *, const char *); AT(q, p, 1); AT(u, t, 1); return r(q, u); }
int renameat(int d, const char *p, int e, const char *t) { R(int, "renameat", int, const char *, int, const char *); AT(q, p, 1); AT(u, t, 1); return r(d, q, e, u); }
int renameat2(int d, const char *p, int e, const char *t, unsigned f) { R(int, "renameat2", int, const char *, int, const char *, unsigned); AT(q, p, 1); AT(u, t, 1); return r(d, q, e, u, f); }
int link(const char *p, const char *t) { R(int, "link", const char *, const char *); AT(q, p, 0); AT(u, t, 1); return r(q, u); }
int linkat(int d, const char *p, int e, const char *t, int f) { R(int, "linkat", int, const char *, int, const char *, int); AT(q, p, 0); AT(u, t, 1); return r(d, q, e, u, f); }
int symlink(const char *p, const char *t) { R(int, "symlink", const char *, const char *); AT(u, t, 1); return r(p, u); }
int symlinkat(const char *p, int e, const char *t) { R(int, "symlinkat", const char *, int, const char *); AT(u, t, 1); return r(p, e, u); }
int chmod(const char *p, mode_t m) { R(int, "chmod", const char *, mode_t); AT(q, p, 1); return r(q, m); }
int fchmodat(int d, const char *p, mode_t m, int f) { R(int, "fchmodat", int, const char *, mode_t, int); AT(q, p, 1); if (failing(d, p)) return -1; return r(d, q, m, f); }
int chown(const char *p, uid_t a, gid_t b) { R(int, "chown", const char *, uid_t, gid_t); AT(q, p, 1); return r(q, a, b); }
int lchown(const char *p, uid_t a, gid_t b) { R(int, "lchown", const char *, uid_t, gid_t); AT(q, p, 1); return r(q, a, b); }
int fchownat(int d, const char *p, uid_t a, gid_t b, int f) { R(int, "fchownat", int, const char *, uid_t, gid_t, int); AT(q, p, 1); return r(d, q, a, b, f); }
int truncate(const char *p, off_t n) { R(int, "truncate", const char *, off_t); AT(q, p, 1); return r(q, n); }
int truncate64(const char *p, off64_t n) { R(int, "truncate64", const char *, off64_t); AT(q, p, 1); return r(q, n); }
int utimensat(int d, const char *p, const struct timespec t[2], int f) { R(int, "utimensat", int, const char *, const struct timespec *, int); AT(q, p, 1); return r(d, q, t, f); }
int mkfifo(const char *p, mode_t m) { R(int, "mkfifo", const char *, mode_t); AT(q, p, 1); return r(q, m); }
int mknod(const char *p, mode_t m, dev_t d) { R(int, "mknod", const char *, mode_t, dev_t); AT(q, p, 1); return r(q, m, d); }
int execve(const char *p, char *const v[], char *const e[]) { R(int, "execve", const char *, char *const *, char *const *); AT(q, p, 0); return r(q, v, e); }
