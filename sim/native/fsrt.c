/* Simulated disk and directory layer: interposes the file system calls of the process (preloaded), counts those that
   touch the armed directory tree, and lets a plan fail, shorten or precede them. Inert until armed. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_OPEN = 0, OP_WRITE, OP_CLOSE, OP_MKDIR, OP_UNLINK, OP_RENAME, OP_SYNC, OP_READ, NOP };
enum { A_ERR = 0, A_STICKY, A_SHORT, A_PRE, A_NOTE };
typedef struct {
  int op, nth, act, err;
  long arg;
} Fault;

static int armed, owner;
static char prefix[4096];
static size_t plen;
static Fault plan[64];
static int nplan, fired, count[NOP];
static long budget = -1, written;
static unsigned char track[4096];
static char fdname[4096][128];
static char *logbuf;
static size_t loglen, logcap;

#define REAL(name, type, ...)                                  \
  static type (*r)(__VA_ARGS__);                               \
  if (!r)                                                      \
    r = dlsym(RTLD_NEXT, name);

static const char *rel(const char *p, char *buf, size_t n) {
  if (p[0] != '/') {
    char cwd[4096];
    if (!getcwd(cwd, sizeof cwd)) return NULL;
    snprintf(buf, n, "%s/%s", cwd, p);
  } else
    snprintf(buf, n, "%s", p);
  if (strncmp(buf, prefix, plen) || (buf[plen] && buf[plen] != '/')) return NULL;
  return buf + plen;
}

static void note(const char *op, const char *what, long res, int err) {
  char b[512];
  int k = snprintf(b, sizeof b, "%s %s %ld %d\n", op, what, res, err);
  if (k >= (int)sizeof b) k = sizeof b - 1;
  if (loglen + k + 1 > logcap) {
    logcap = (logcap + k + 1) * 2 + 4096;
    logbuf = realloc(logbuf, logcap);
  }
  memcpy(logbuf + loglen, b, k + 1);
  loglen += k;
}

/* returns the fault that applies to this call, or NULL */
static Fault *step(int op) {
  int n = count[op]++;
  for (int i = 0; i < nplan; i++) {
    Fault *f = &plan[i];
    if (f->op == op && (f->nth == n || (f->act == A_STICKY && n >= f->nth))) {
      fired++;
      return f;
    }
  }
  return NULL;
}

static int on(void) { return armed && getpid() == owner; }

void fs_arm(const char *pfx, const Fault *p, int n, long bud) {
  snprintf(prefix, sizeof prefix, "%s", pfx);
  plen = strlen(prefix);
  nplan = n > 64 ? 64 : n;
  memcpy(plan, p, sizeof(Fault) * nplan);
  memset(count, 0, sizeof count);
  memset(track, 0, sizeof track);
  fired = 0;
  budget = bud;
  written = 0;
  loglen = 0;
  owner = getpid();
  armed = 1;
}
int fs_disarm(void) {
  armed = 0;
  return fired;
}
int fs_fired(void) { return fired; }
const char *fs_log(void) { return loglen ? logbuf : ""; }
int fs_count(int op) { return count[op]; }
long fs_written(void) { return written; }

static int opened(int fd, const char *r) {
  if (fd >= 0 && fd < 4096) {
    track[fd] = 1;
    snprintf(fdname[fd], sizeof fdname[fd], "%s", r);
  }
  return fd;
}

/* what somebody else does just before the call */
static void before(Fault *f, const char *p) {
  static int (*mk)(const char *, mode_t);
  if (!mk) mk = dlsym(RTLD_NEXT, "mkdir");
  if (f->act == A_PRE && f->op == OP_MKDIR) mk(p, 0777);
}

#define OPENBODY(CALL)                                                          \
  mode_t mode = 0;                                                              \
  if (flags & (O_CREAT | __O_TMPFILE)) {                                        \
    va_list ap;                                                                 \
    va_start(ap, flags);                                                        \
    mode = va_arg(ap, mode_t);                                                  \
    va_end(ap);                                                                 \
  }                                                                             \
  char b[8192];                                                                 \
  const char *q = on() && (flags & (O_WRONLY | O_RDWR)) ? rel(path, b, sizeof b) : NULL; \
  if (!q) {                                                                     \
    const char *q2 = on() ? rel(path, b, sizeof b) : NULL;                      \
    if (q2 && !(flags & O_DIRECTORY)) {                                         \
      Fault *f = step(OP_READ);                                                 \
      if (f && (f->act == A_ERR || f->act == A_STICKY)) {                       \
        note("openr", q2, -1, f->err);                                          \
        errno = f->err;                                                         \
        return -1;                                                              \
      }                                                                         \
    }                                                                           \
    return CALL;                                                                \
  }                                                                             \
  Fault *f = step(OP_OPEN);                                                     \
  if (f && (f->act == A_ERR || f->act == A_STICKY)) {                           \
    note("open", q, -1, f->err);                                                \
    errno = f->err;                                                             \
    return -1;                                                                  \
  }                                                                             \
  int fd = CALL;                                                                \
  int e = errno;                                                                \
  note("open", q, fd < 0 ? -1 : 0, fd < 0 ? e : 0);                             \
  if (fd >= 0) opened(fd, q);                                                   \
  errno = e;                                                                    \
  return fd;

int open(const char *path, int flags, ...) {
  REAL("open", int, const char *, int, ...)
  OPENBODY(r(path, flags, mode))
}
int open64(const char *path, int flags, ...) {
  REAL("open64", int, const char *, int, ...)
  OPENBODY(r(path, flags, mode))
}
int openat(int dfd, const char *path, int flags, ...) {
  REAL("openat", int, int, const char *, int, ...)
  OPENBODY(r(dfd, path, flags, mode))
}
int openat64(int dfd, const char *path, int flags, ...) {
  REAL("openat64", int, int, const char *, int, ...)
  OPENBODY(r(dfd, path, flags, mode))
}

static int tracked(int fd) { return on() && fd >= 0 && fd < 4096 && track[fd]; }

ssize_t write(int fd, const void *buf, size_t n) {
  REAL("write", ssize_t, int, const void *, size_t)
  if (!tracked(fd)) return r(fd, buf, n);
  Fault *f = step(OP_WRITE);
  if (f && (f->act == A_ERR || f->act == A_STICKY)) {
    note("write", fdname[fd], -1, f->err);
    errno = f->err;
    return -1;
  }
  if (f && f->act == A_SHORT && n > 1) n = f->arg < (long)n ? (size_t)(f->arg > 0 ? f->arg : 1) : n - 1;
  if (budget >= 0 && written + (long)n > budget) {
    fired++;
    if (budget > written)
      n = budget - written;
    else {
      note("write", fdname[fd], -1, ENOSPC);
      errno = ENOSPC;
      return -1;
    }
  }
  ssize_t k = r(fd, buf, n);
  if (k > 0) written += k;
  note("write", fdname[fd], k, 0);
  return k;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL("writev", ssize_t, int, const struct iovec *, int)
  if (!tracked(fd)) return r(fd, v, c);
  ssize_t tot = 0;
  for (int i = 0; i < c; i++) {
    ssize_t k = write(fd, v[i].iov_base, v[i].iov_len);
    if (k < 0) return tot ? tot : -1;
    tot += k;
    if ((size_t)k < v[i].iov_len) break;
  }
  return tot;
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t o) {
  REAL("pwrite64", ssize_t, int, const void *, size_t, off_t)
  if (!tracked(fd)) return r(fd, buf, n, o);
  Fault *f = step(OP_WRITE);
  if (f && (f->act == A_ERR || f->act == A_STICKY)) {
    errno = f->err;
    return -1;
  }
  return r(fd, buf, n, o);
}
ssize_t sendfile64(int fd, int in, off_t *o, size_t n) {
  REAL("sendfile64", ssize_t, int, int, off_t *, size_t)
  if (!tracked(fd)) return r(fd, in, o, n);
  errno = EINVAL; /* makes the caller fall back to read and write */
  return -1;
}
int close(int fd) {
  REAL("close", int, int)
  if (!tracked(fd)) return r(fd);
  Fault *f = step(OP_CLOSE);
  track[fd] = 0;
  if (f && (f->act == A_ERR || f->act == A_STICKY)) {
    /* delayed allocation that fails at close: the tail of the file is lost */
    struct stat s;
    if (!fstat(fd, &s) && s.st_size > 0) {
      int x = ftruncate(fd, s.st_size / 2);
      (void)x;
    }
    r(fd);
    note("close", fdname[fd], -1, f->err);
    errno = f->err;
    return -1;
  }
  note("close", fdname[fd], 0, 0);
  return r(fd);
}

#define PATHBODY(OP, NAME, P, CALL)                       \
  char b[8192];                                           \
  const char *q = on() ? rel(P, b, sizeof b) : NULL;      \
  if (!q) return CALL;                                    \
  Fault *f = step(OP);                                    \
  if (f && (f->act == A_ERR || f->act == A_STICKY)) {     \
    note(NAME, q, -1, f->err);                            \
    errno = f->err;                                       \
    return -1;                                            \
  }                                                       \
  if (f) before(f, P);                                    \
  int k = CALL, e = errno;                                \
  note(NAME, q, k, k < 0 ? e : 0);                        \
  errno = e;                                              \
  return k;

int mkdir(const char *p, mode_t m) {
  REAL("mkdir", int, const char *, mode_t)
  PATHBODY(OP_MKDIR, "mkdir", p, r(p, m))
}
int mkdirat(int d, const char *p, mode_t m) {
  REAL("mkdirat", int, int, const char *, mode_t)
  PATHBODY(OP_MKDIR, "mkdir", p, r(d, p, m))
}
int unlink(const char *p) {
  REAL("unlink", int, const char *)
  PATHBODY(OP_UNLINK, "unlink", p, r(p))
}
int unlinkat(int d, const char *p, int fl) {
  REAL("unlinkat", int, int, const char *, int)
  PATHBODY(OP_UNLINK, "unlink", p, r(d, p, fl))
}
int rename(const char *p, const char *t) {
  REAL("rename", int, const char *, const char *)
  PATHBODY(OP_RENAME, "rename", t, r(p, t))
}
int renameat(int d, const char *p, int d2, const char *t) {
  REAL("renameat", int, int, const char *, int, const char *)
  PATHBODY(OP_RENAME, "rename", t, r(d, p, d2, t))
}
int fsync(int fd) {
  REAL("fsync", int, int)
  if (!tracked(fd)) return r(fd);
  Fault *f = step(OP_SYNC);
  if (f) {
    errno = f->err;
    return -1;
  }
  return r(fd);
}
