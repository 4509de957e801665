// LD_PRELOAD fault / crash injector for the command line tools.
// Counts every file operation on the scratch directory (VF_DIR, also the current directory, so relative
// paths count as well) and applies the plan: VF_PLAN = "<mode>:<index>[:<errno>],..." with
//   C kill before the operation, T kill in the middle of a write, E fail, S short write, P writes fail from here on (disk full),
//   H run VF_HOOK (a shell command, without this shim) before the operation.
// Every operation is logged to VF_LOG as "<index> <op> <name>".
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
static char dir[PATH_MAX]; static size_t dirlen; static int logfd = -1, count, full, inside;
struct plan { char mode; int index, err, done; } plans[8]; static int nplans;
static unsigned char tracked[4096];
#define REAL(name) static __typeof__(name) *real; if (!real) real = (__typeof__(name)*)dlsym(RTLD_NEXT, #name)
__attribute__((constructor)) static void init(void) {
  const char* d = getenv("VF_DIR"); if (d) { strncpy(dir, d, sizeof dir - 1); dirlen = strlen(dir); }
  const char* l = getenv("VF_LOG"); if (l && *l) { logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_TRUNC, 0600); int n = syscall(SYS_fcntl, logfd, F_DUPFD_CLOEXEC, 900); if (n >= 0) { syscall(SYS_close, logfd); logfd = n; } }
  const char* p = getenv("VF_PLAN");
  while (p && *p && nplans < 8) { struct plan q = { *p, 0, 0, 0 }; char* e; if (p[1] != ':') break; q.index = strtol(p + 2, &e, 10); if (*e == ':') q.err = strtol(e + 1, &e, 10); plans[nplans++] = q; p = *e == ',' ? e + 1 : e; if (!*e) break; }
}
static int ours(int dfd, const char* path) {
  if (!dirlen || !path) return 0;
  if (path[0] == '/') { char r[PATH_MAX]; strncpy(r, path, sizeof r - 1); r[sizeof r - 1] = 0; return strncmp(r, dir, dirlen) == 0 && (r[dirlen] == '/' || r[dirlen] == 0); }
  return 1;
}
static void die(void) { syscall(SYS_kill, (int)syscall(SYS_getpid), SIGKILL); for (;;) ; }
// returns 0: go on, 1: fail (errno set), 2: half a write, 3: half a write, then die
static int point(const char* op, const char* name, int is_write, int deferr) {
  if (inside) return 0;
  int n = count++;
  if (logfd >= 0) { char b[PATH_MAX + 64]; int k = snprintf(b, sizeof b, "%d %s %s\n", n, op, name ? name : ""); syscall(SYS_write, logfd, b, k); }
  for (int i = 0; i < nplans; i++) {
    struct plan* q = &plans[i]; if (q->index != n) continue;
    switch (q->mode) {
    case 'C': die(); break;
    case 'T': if (is_write) return 3; die(); break;
    case 'E': errno = q->err ? q->err : deferr; return 1;
    case 'S': if (is_write) return 2; break;
    case 'P': full = 1; break;
    case 'H': { const char* h = getenv("VF_HOOK"); if (h) { inside = 1; char* s = strdup(h); pid_t c = fork(); if (c == 0) { unsetenv("LD_PRELOAD"); unsetenv("VF_PLAN"); execl("/bin/sh", "sh", "-c", s, (char*)0); _exit(127); } int st; if (c > 0) while (waitpid(c, &st, 0) < 0 && errno == EINTR) ; free(s); inside = 0; } break; }
    }
  }
  if (full && is_write) { errno = ENOSPC; return 1; }
  return 0;
}
static void track(int fd, int on) { if (fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = on; }
static int isin(int fd) { return fd >= 0 && fd < (int)sizeof tracked && tracked[fd]; }
// opening
FILE* fopen(const char* p, const char* m) { REAL(fopen); if (!ours(AT_FDCWD, p)) return real(p, m); if (point(*m == 'r' && !strchr(m, '+') ? "openr" : "openw", p, 0, EACCES)) return 0; FILE* f = real(p, m); if (f) track(fileno(f), 1); return f; }
FILE* fopen64(const char* p, const char* m) { REAL(fopen64); if (!ours(AT_FDCWD, p)) return real(p, m); if (point(*m == 'r' && !strchr(m, '+') ? "openr" : "openw", p, 0, EACCES)) return 0; FILE* f = real(p, m); if (f) track(fileno(f), 1); return f; }
static int do_open(int dfd, const char* p, int fl, mode_t mode) { if (!ours(dfd, p)) return syscall(SYS_openat, dfd, p, fl, mode); if (point((fl & O_ACCMODE) == O_RDONLY ? "openr" : "openw", p, 0, EACCES)) return -1; int f = syscall(SYS_openat, dfd, p, fl, mode); track(f, 1); return f; }
#define MODE(fl) mode_t mode = 0; if ((fl) & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); mode = va_arg(a, int); va_end(a); }
int open(const char* p, int fl, ...) { MODE(fl) return do_open(AT_FDCWD, p, fl, mode); }
int open64(const char* p, int fl, ...) { MODE(fl) return do_open(AT_FDCWD, p, fl, mode); }
int openat(int d, const char* p, int fl, ...) { MODE(fl) return do_open(d, p, fl, mode); }
int openat64(int d, const char* p, int fl, ...) { MODE(fl) return do_open(d, p, fl, mode); }
int creat(const char* p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int mkstemp(char* t) { REAL(mkstemp); if (ours(AT_FDCWD, t) && point("openw", t, 0, EACCES)) return -1; int f = real(t); if (ours(AT_FDCWD, t)) track(f, 1); return f; }
// closing
int close(int fd) { REAL(close); int t = isin(fd), r = 0, e = 0; if (t) { r = point("close", "", 0, EIO); e = errno; track(fd, 0); } int c = real(fd); if (r == 1) { errno = e; return -1; } return c; }
int fclose(FILE* f) { REAL(fclose); int fd = f ? fileno(f) : -1; int t = isin(fd), r = 0, e = 0; if (t) { r = point("close", "", 0, EIO); e = errno; track(fd, 0); } int c = real(f); if (r == 1) { errno = e; return EOF; } return c; }
// reading
ssize_t read(int fd, void* b, size_t n) { REAL(read); if (isin(fd) && point("read", "", 0, EIO)) return -1; return real(fd, b, n); }
ssize_t readv(int fd, const struct iovec* v, int n) { REAL(readv); if (isin(fd) && point("read", "", 0, EIO)) return -1; return real(fd, v, n); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { REAL(pread); if (isin(fd) && point("read", "", 0, EIO)) return -1; return real(fd, b, n, o); }
size_t fread(void* b, size_t s, size_t n, FILE* f) { REAL(fread); if (f && isin(fileno(f)) && point("read", "", 0, EIO)) return 0; return real(b, s, n, f); }
// writing
ssize_t write(int fd, const void* b, size_t n) { REAL(write); if (!isin(fd)) return real(fd, b, n); int r = point("write", "", 1, ENOSPC); if (r == 1) return -1; if (r == 2) return real(fd, b, n > 1 ? n / 2 : n); if (r == 3) { real(fd, b, n / 2); die(); } return real(fd, b, n); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { REAL(pwrite); if (!isin(fd)) return real(fd, b, n, o); int r = point("write", "", 1, ENOSPC); if (r == 1) return -1; if (r == 2) return real(fd, b, n > 1 ? n / 2 : n, o); if (r == 3) { real(fd, b, n / 2, o); die(); } return real(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec* v, int n) { REAL(writev); if (!isin(fd)) return real(fd, v, n); int r = point("write", "", 1, ENOSPC); if (r == 1) return -1;
  if (r == 2 || r == 3) { REAL(write); ssize_t k = 0; for (int i = 0; i < n; i++) if (v[i].iov_len) { k = write(fd, v[i].iov_base, (v[i].iov_len + 1) / 2); break; } if (r == 3) die(); return k; }
  return real(fd, v, n); }
size_t fwrite(const void* b, size_t s, size_t n, FILE* f) { REAL(fwrite); if (!f || !isin(fileno(f))) return real(b, s, n, f); int r = point("write", "", 1, ENOSPC); if (r == 1) return 0; if (r == 2) return real(b, s, n / 2, f); if (r == 3) { real(b, s, n / 2, f); fflush(f); die(); } return real(b, s, n, f); }
int fflush(FILE* f) { REAL(fflush); if (!f || !isin(fileno(f))) return real(f); if (point("flush", "", 0, ENOSPC)) return EOF; return real(f); }
int fsync(int fd) { REAL(fsync); if (isin(fd) && point("sync", "", 0, EIO)) return -1; return real(fd); }
int ftruncate(int fd, off_t l) { REAL(ftruncate); if (isin(fd) && point("truncate", "", 0, EIO)) return -1; return real(fd, l); }
int truncate(const char* p, off_t l) { REAL(truncate); if (ours(AT_FDCWD, p) && point("truncate", p, 0, EIO)) return -1; return real(p, l); }
ssize_t sendfile(int o, int i, off_t* p, size_t n) { REAL(sendfile); if (isin(o)) { int r = point("write", "", 1, ENOSPC); if (r == 1) return -1; if (r) { ssize_t k = real(o, i, p, n / 2); if (r == 3) die(); return k; } } return real(o, i, p, n); }
ssize_t copy_file_range(int i, off_t* pi, int o, off_t* po, size_t n, unsigned fl) { REAL(copy_file_range); if (isin(o)) { int r = point("write", "", 1, ENOSPC); if (r == 1) return -1; if (r) { ssize_t k = real(i, pi, o, po, n / 2, fl); if (r == 3) die(); return k; } } return real(i, pi, o, po, n, fl); }
// names
int rename(const char* a, const char* b) { REAL(rename); if ((ours(AT_FDCWD, a) || ours(AT_FDCWD, b)) && point("rename", b, 0, EACCES)) return -1; return real(a, b); }
int renameat(int x, const char* a, int y, const char* b) { REAL(renameat); if (ours(x, a) && point("rename", b, 0, EACCES)) return -1; return real(x, a, y, b); }
int renameat2(int x, const char* a, int y, const char* b, unsigned f) { REAL(renameat2); if (ours(x, a) && point("rename", b, 0, EACCES)) return -1; return real(x, a, y, b, f); }
int remove(const char* p) { REAL(remove); if (ours(AT_FDCWD, p) && point("remove", p, 0, EACCES)) return -1; return real(p); }
int unlink(const char* p) { REAL(unlink); if (ours(AT_FDCWD, p) && point("remove", p, 0, EACCES)) return -1; return real(p); }
int unlinkat(int d, const char* p, int f) { REAL(unlinkat); if (ours(d, p) && point("remove", p, 0, EACCES)) return -1; return real(d, p, f); }
int link(const char* a, const char* b) { REAL(link); if (ours(AT_FDCWD, b) && point("link", b, 0, EACCES)) return -1; return real(a, b); }
int symlink(const char* a, const char* b) { REAL(symlink); if (ours(AT_FDCWD, b) && point("link", b, 0, EACCES)) return -1; return real(a, b); }
