/* Preloaded into the harness: the system calls that registered participants
 * (threads or processes) make on paths below a root are
 *  - scheduling points: one participant runs at a time, and which one is
 *    decided by a schedule (so that interleavings can be enumerated);
 *  - crash points: the process ends at the n-th change it makes;
 *  - fault points: the n-th call fails.
 * Locks are taken without blocking and waited for by the scheduler, which
 * therefore knows when all participants wait for each other.
 * Nothing is judged here.  */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <linux/futex.h>
#include <time.h>
#include <unistd.h>

/* The system call itself: the function is replaced below. */
static long rawcall(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
  long r;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
#define A_(x) ((long)(x))
#define SC(n, a, b, c, d, e, f, ...) rawcall(A_(n), A_(a), A_(b), A_(c), A_(d), A_(e), A_(f))
#define syscall(...) SC(__VA_ARGS__, 0, 0, 0, 0, 0, 0, 0)

#define MAXP 8
#define MAXD 16384
#define MAXL (1 << 20)

/* BLOCKED: for a lock on a file; ASLEEP: for something within the process */
enum { NONE, WAIT, RUN, BLOCKED, ASLEEP, DONE, LOST };
enum { K_OPEN = 1, K_READ = 2, K_WRITE = 4, K_TRUNC = 8, K_LOCK = 16, K_UNLINK = 32,
       K_RMDIR = 64, K_MKDIR = 128, K_STAT = 256, K_DIR = 512, K_CLOSE = 1024, K_RENAME = 2048,
       K_CREATE = 4096, K_SYNC = 8192 };
#define K_CHANGE (K_WRITE | K_TRUNC | K_UNLINK | K_RMDIR | K_MKDIR | K_RENAME | K_CREATE)

struct shared {
  pthread_mutex_t m;
  pthread_cond_t c[MAXP];
  int active;            /* scheduling */
  int n, arrived, turn, nodead;
  int st[MAXP];
  uint64_t steps;
  uint64_t clock;
  /* schedule */
  int nprefix, ndec;
  uint8_t prefix[MAXD];
  uint8_t mask[MAXD], chosen[MAXD], cur[MAXD];
  uint64_t rng;          /* 0: deterministic continuation */
  int rate;              /* random: one in `rate` points changes participant */
  int deadlock, overflow, stolen;
  double since;          /* when nothing was left that could run, or 0 */
  /* crash and fault */
  int mode;              /* 0 none, 1 crash, 2 fault */
  int at, part, err, persist, kinds;
  int count, fired, firedkind;
  int full;              /* device full: -1 off, otherwise bytes left */
  int piece;             /* bytes per read or write */
  /* log */
  int log_on, nlog;
  char log[MAXL];
  char root[PATH_MAX];
};

static struct shared *S;
static __thread int me = -1;
static __thread int quiet;
static unsigned char fds[65536];    /* 1: below the root */

/* ---- control, called by the harness ---------------------------------- */

int vp_init(int unused) {
  if (S) return 0;
  S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (S == MAP_FAILED) abort();
  pthread_mutexattr_t a;
  pthread_mutexattr_init(&a);
  pthread_mutexattr_setpshared(&a, PTHREAD_PROCESS_SHARED);
  pthread_mutex_init(&S->m, &a);
  pthread_condattr_t ca;
  pthread_condattr_init(&ca);
  pthread_condattr_setpshared(&ca, PTHREAD_PROCESS_SHARED);
  pthread_condattr_setclock(&ca, CLOCK_MONOTONIC);
  for (int i = 0; i < MAXP; i++) pthread_cond_init(&S->c[i], &ca);
  S->full = -1;
  return 1;
}

void vp_root(const char *p) { snprintf(S->root, sizeof S->root, "%s", p); }

/* a schedule: choices at the first decisions, then deterministic or random */
void vp_sched(const uint8_t *prefix, int n, uint64_t rng, int rate) {
  S->nprefix = n > MAXD ? MAXD : n;
  memcpy(S->prefix, prefix, S->nprefix);
  S->rng = rng;
  S->rate = rate;
}

void vp_piece(int piece) { S->piece = piece; }
void vp_log(int on) { S->log_on = on; S->nlog = 0; S->log[0] = 0; }
const char *vp_log_text(void) { return S->log; }
int vp_quiet(int on) { int o = quiet; quiet = on; return o; }

int vp_begin(int n) {
  S->n = n;
  S->arrived = 0;
  S->turn = -1;
  S->ndec = 0;
  S->clock = 0;
  S->deadlock = S->overflow = S->stolen = 0;
  S->since = 0;
  for (int i = 0; i < MAXP; i++) S->st[i] = NONE;
  S->active = 1;
  return 0;
}

int vp_end(int unused) { S->active = 0; return S->deadlock ? 2 : S->stolen ? 1 : 0; }
int vp_decisions(uint8_t *mask, uint8_t *chosen, uint8_t *cur) {
  memcpy(mask, S->mask, S->ndec);
  memcpy(chosen, S->chosen, S->ndec);
  memcpy(cur, S->cur, S->ndec);
  return S->ndec;
}

/* crash (mode 1) or fail (mode 2) the at-th of the calls of the given kinds */
void vp_disturb(int mode, int at, int part, int err, int persist, int kinds, int full) {
  S->mode = mode; S->at = at; S->part = part; S->err = err; S->persist = persist;
  S->kinds = kinds; S->full = full; S->count = 0; S->fired = 0; S->firedkind = 0;
}
int vp_fired(int unused) { return S->fired; }
int vp_count(int unused) { return S->count; }
int vp_me(int i) { me = i; return 0; }

/* ---- scheduling ------------------------------------------------------- */

static uint64_t rnd(void) {
  S->rng ^= S->rng << 13; S->rng ^= S->rng >> 7; S->rng ^= S->rng << 17;
  return S->rng;
}

static void freerun(void) {
  /* everybody runs on, unscheduled */
  S->active = 0;
  for (int i = 0; i < S->n; i++) pthread_cond_signal(&S->c[i]);
}

/* choose who runs next; `cur` is the one who ran last */
static void pick(int cur) {
  int mask = 0, n = 0, blocked = 0, running = 0;
  for (int i = 0; i < S->n; i++) {
    if (S->st[i] == WAIT) { mask |= 1 << i; n++; }
    if (S->st[i] == BLOCKED) blocked++;
    if (S->st[i] == LOST || S->st[i] == RUN || S->st[i] == ASLEEP) running++;
  }
  if (!n) {
    S->turn = -1;
    if (blocked && !running) { S->deadlock = 1; freerun(); }
    return;
  }
  int pickd = -1;
  int curok = cur >= 0 && (mask >> cur & 1);
  if (n == 1) {
    pickd = __builtin_ctz(mask);
  } else {
    if (S->ndec >= MAXD) { S->overflow = 1; pickd = __builtin_ctz(mask); }
    else {
      if (S->ndec < S->nprefix && (mask >> S->prefix[S->ndec] & 1)) pickd = S->prefix[S->ndec];
      else if (S->ndec >= S->nprefix && S->rng && (!curok || rnd() % S->rate == 0)) {
        int k = rnd() % n;
        for (int i = 0; i < S->n; i++) if (mask >> i & 1 && k-- == 0) pickd = i;
      } else pickd = curok ? cur : __builtin_ctz(mask);
      S->mask[S->ndec] = mask;
      S->chosen[S->ndec] = pickd;
      S->cur[S->ndec] = curok ? cur : 255;
      S->ndec++;
    }
  }
  S->turn = pickd;
  pthread_cond_signal(&S->c[pickd]);
}

static double seconds(void) {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

#define STUCK 4.0
/* wait for one's turn; S->m is held */
static void await_turn(void) {
  while (S->active && S->turn != me) {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    ts.tv_nsec += 400 * 1000000L;
    if (ts.tv_nsec >= 1000000000L) { ts.tv_sec++; ts.tv_nsec -= 1000000000L; }
    uint64_t s = S->steps;
    if (pthread_cond_timedwait(&S->c[me], &S->m, &ts) == ETIMEDOUT && S->active && s == S->steps) {
      /* whoever should run is waiting for something we do not see */
      int t = S->turn;
      if (t >= 0 && t != me && S->st[t] == RUN) { S->st[t] = LOST; S->stolen = 1; S->steps++; pick(-1); }
      else if (t < 0 && S->st[me] == WAIT) { S->steps++; pick(-1); }
      else if (t < 0) {
        /* nobody can run, as far as we see: waits within the process, for
         * something that participants hold, do not end either */
        if (!S->since) S->since = seconds();
        else if (seconds() - S->since > STUCK) { S->deadlock = 1; freerun(); }
        continue;
      }
    }
    if (S->since && s != S->steps) S->since = 0;
  }
  S->steps++;
}

static int sched(void) { return S && me >= 0 && !quiet && S->active; }

static void point(void) {
  if (!sched()) return;
  pthread_mutex_lock(&S->m);
  if (S->active) {
    int was = S->st[me];
    S->st[me] = WAIT;
    S->steps++;
    if (was != LOST || S->turn < 0) pick(me);
    await_turn();
    S->st[me] = RUN;
  }
  pthread_mutex_unlock(&S->m);
}

/* something was released: who waits for a lock may try again */
static void released(void) {
  if (!S || !S->active) return;
  pthread_mutex_lock(&S->m);
  S->steps++;
  for (int i = 0; i < S->n; i++) if (S->st[i] == BLOCKED || S->st[i] == ASLEEP) S->st[i] = WAIT;
  if (S->turn < 0 && S->active) pick(-1);
  pthread_mutex_unlock(&S->m);
}

int vp_thread_start(int i) {
  me = i;
  quiet = 0;
  pthread_mutex_lock(&S->m);
  S->st[me] = WAIT;
  if (++S->arrived == S->n) pick(-1);
  await_turn();
  S->st[me] = RUN;
  pthread_mutex_unlock(&S->m);
  return 0;
}

int vp_thread_end(int i) {
  pthread_mutex_lock(&S->m);
  int was = S->st[me];
  S->st[me] = DONE;
  /* its files may have been closed unseen */
  for (int j = 0; j < S->n; j++) if (S->st[j] == BLOCKED || S->st[j] == ASLEEP) S->st[j] = WAIT;
  if (S->active && (was != LOST || S->turn < 0)) pick(-1);
  pthread_mutex_unlock(&S->m);
  me = -1;
  return 0;
}

/* wait until something is released, or a participant ends */
static void sleepon(int how) {
  int was = S->st[me];
  S->st[me] = how;
  S->steps++;
  if (was != LOST || S->turn < 0) pick(me);
  await_turn();
  S->st[me] = RUN;
}

/* wait for the end of a participant */
int vp_await(int i) {
  if (!S || me < 0 || i < 0 || i >= S->n) return 0;
  pthread_mutex_lock(&S->m);
  while (S->active && S->st[i] != DONE) sleepon(BLOCKED);
  pthread_mutex_unlock(&S->m);
  return 0;
}

int vp_op_begin(int i) { point(); return (int)__sync_add_and_fetch(&S->clock, 1); }
int vp_op_end(int i) { return (int)__sync_add_and_fetch(&S->clock, 1); }

/* ---- which paths --------------------------------------------------------- */

static int below(const char *p) {
  if (!S || me < 0 || quiet || !p) return 0;
  size_t n = strlen(S->root);
  return n && !strncmp(p, S->root, n) && (p[n] == '/' || !p[n]);
}
static int ours(int fd) { return S && me >= 0 && !quiet && fd >= 0 && fd < 65536 && fds[fd]; }
static int at_ours(int d, const char *p) {
  if (!S || me < 0 || quiet || !p) return 0;
  return p[0] == '/' ? below(p) : d == AT_FDCWD ? 0 : ours(d);
}

static void note(const char *what, const char *path, long a, long r) {
  if (!S->log_on || S->nlog > MAXL - 600) return;
  const char *p = path ? path : "";
  if (path && below(path)) p = path + strlen(S->root);
  int n = snprintf(S->log + S->nlog, MAXL - S->nlog, "%d %s %.200s %ld %ld\n", me, what, p, a, r);
  if (n > 0) S->nlog += n;
}

/* Before a call of the given kind.  -1: it is to fail, with errno set. */
static int gate(int kind, const char *name, const char *path) {
  point();
  if (!S->mode || !(S->kinds & kind)) return 0;
  if (S->mode == 1) {
    if (S->count++ == S->at && S->part == 0) {
      S->fired = 1; S->firedkind = kind;
      note(name, path, -1, -1);
      _exit(99);
    }
    return 0;
  }
  if (S->fired && S->persist) { errno = S->err; return -1; }
  if (S->count++ == S->at && !(kind == K_WRITE && S->part)) {
    S->fired = 1; S->firedkind = kind;
    note(name, path, -1, -S->err);
    errno = S->err;
    return -1;
  }
  return 0;
}

static void track(int fd, int on) { if (fd >= 0 && fd < 65536) fds[fd] = on; }

/* ---- calls ------------------------------------------------------------- */

static int do_open(int dir, const char *p, int flags, mode_t mode) {
  int o = at_ours(dir, p);
  if (!o) {
    int r = syscall(SYS_openat, dir, p, flags, mode);
    /* opened beforehand, used by a participant */
    if (r >= 0 && S) track(r, 0);
    return r;
  }
  int kind = K_OPEN | (flags & (O_CREAT | O_TRUNC) ? K_CREATE : 0) | (flags & O_DIRECTORY ? K_DIR : 0);
  if (gate(kind, flags & O_CREAT ? "create" : "open", p)) return -1;
  if (S->mode == 2 && S->full == 0 && flags & O_CREAT && syscall(SYS_faccessat, dir, p, F_OK)) {
    errno = ENOSPC; S->fired = 1; return -1;
  }
  int r = syscall(SYS_openat, dir, p, flags, mode);
  if (r >= 0) track(r, 1);
  note(flags & O_CREAT ? "create" : "open", p, flags, r >= 0 ? 0 : -errno);
  return r;
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, flags); mode = va_arg(v, mode_t); va_end(v); }
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, mode); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
  int o = ours(fd);
  if (o) point();
  if (fd >= 0 && fd < 65536) track(fd, 0);
  int r = syscall(SYS_close, fd);
  if (o) { note("close", 0, fd, r); released(); }
  return r;
}

int dup(int fd) { int r = syscall(SYS_dup, fd); if (ours(fd)) track(r, 1); return r; }
static int do_fcntl(int fd, int cmd, void *arg) {
  int r = syscall(SYS_fcntl, fd, cmd, arg);
  if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0) track(r, ours(fd));
  return r;
}
int fcntl(int fd, int cmd, ...) { va_list v; va_start(v, cmd); void *a = va_arg(v, void *); va_end(v); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list v; va_start(v, cmd); void *a = va_arg(v, void *); va_end(v); return do_fcntl(fd, cmd, a); }

static ssize_t do_read(int fd, void *b, size_t n, off_t at, int p) {
  if (ours(fd)) {
    if (gate(K_READ, "read", 0)) return -1;
    if (S->piece && n > (size_t)S->piece) n = S->piece;
    ssize_t r = p ? syscall(SYS_pread64, fd, b, n, at) : syscall(SYS_read, fd, b, n);
    note("read", 0, n, r);
    return r;
  }
  return p ? syscall(SYS_pread64, fd, b, n, at) : syscall(SYS_read, fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t at) { return do_read(fd, b, n, at, 1); }
ssize_t pread64(int fd, void *b, size_t n, off64_t at) { return do_read(fd, b, n, at, 1); }
ssize_t readv(int fd, const struct iovec *v, int k) {
  if (ours(fd)) { for (int i = 0; i < k; i++) if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, 0, 0); return 0; }
  return syscall(SYS_readv, fd, v, k);
}

static ssize_t do_write(int fd, const void *b, size_t n, off_t at, int p) {
  if (!ours(fd)) return p ? syscall(SYS_pwrite64, fd, b, n, at) : syscall(SYS_write, fd, b, n);
  int hit = S->mode && S->kinds & K_WRITE && S->count == S->at && S->part;
  if (gate(K_WRITE, "write", 0)) return -1;
  if (S->piece && n > (size_t)S->piece) n = S->piece;
  if (hit) {
    /* part of it arrives: 1 one byte, 2 half, 3 all but one byte, 4 all */
    size_t k = S->part == 1 ? 1 : S->part == 2 ? n / 2 : S->part == 3 ? n - 1 : n;
    if (k > n) k = n;
    ssize_t r = k ? (p ? syscall(SYS_pwrite64, fd, b, k, at) : syscall(SYS_write, fd, b, k)) : 0;
    S->fired = 1; S->firedkind = K_WRITE;
    note("write part", 0, n, r);
    if (S->mode == 1) _exit(99);
    if (r <= 0) { errno = S->err; return -1; }
    S->at = S->count;     /* the next one fails */
    S->part = 0;
    return r;
  }
  if (S->mode == 2 && S->full >= 0) {
    if (S->full == 0 && n) { errno = ENOSPC; S->fired = 1; note("write full", 0, n, -1); return -1; }
    if (n > (size_t)S->full) n = S->full;
    S->full -= n;
  }
  ssize_t r = p ? syscall(SYS_pwrite64, fd, b, n, at) : syscall(SYS_write, fd, b, n);
  note("write", 0, n, r);
  return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t at) { return do_write(fd, b, n, at, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t at) { return do_write(fd, b, n, at, 1); }
ssize_t writev(int fd, const struct iovec *v, int k) {
  if (ours(fd)) { for (int i = 0; i < k; i++) if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0); return 0; }
  return syscall(SYS_writev, fd, v, k);
}
/* these have replacements in their callers */
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
  if (ours(a) || ours(b)) { errno = EXDEV; return -1; }
  return syscall(SYS_copy_file_range, a, x, b, y, n, f);
}
ssize_t sendfile64(int a, int b, off64_t *x, size_t n) {
  if (ours(a) || ours(b)) { errno = EINVAL; return -1; }
  return syscall(SYS_sendfile, a, b, x, n);
}
ssize_t sendfile(int a, int b, off_t *x, size_t n) { return sendfile64(a, b, x, n); }

static int simple(int kind, const char *name, const char *p, int o, long nr, long a, long b, long c, long d) {
  if (o && gate(kind, name, p)) return -1;
  if (o && S->mode == 2 && S->full == 0 && kind == K_MKDIR) { errno = ENOSPC; S->fired = 1; return -1; }
  int r = syscall(nr, a, b, c, d);
  if (o) { int e = errno; note(name, p, 0, r ? -e : 0); errno = e; }
  return r;
}
#define L(x) ((long)(x))
int ftruncate(int fd, off_t n) { return simple(K_TRUNC, "ftruncate", 0, ours(fd), SYS_ftruncate, fd, n, 0, 0); }
int ftruncate64(int fd, off64_t n) { return simple(K_TRUNC, "ftruncate", 0, ours(fd), SYS_ftruncate, fd, n, 0, 0); }
int truncate(const char *p, off_t n) { return simple(K_TRUNC, "truncate", p, below(p), SYS_truncate, L(p), n, 0, 0); }
int truncate64(const char *p, off64_t n) { return simple(K_TRUNC, "truncate", p, below(p), SYS_truncate, L(p), n, 0, 0); }
int posix_fallocate(int fd, off_t a, off_t n) { int r = simple(K_WRITE, "fallocate", 0, ours(fd), SYS_fallocate, fd, 0, a, n); return r ? errno : 0; }
int unlink(const char *p) { return simple(K_UNLINK, "unlink", p, below(p), SYS_unlink, L(p), 0, 0, 0); }
int unlinkat(int d, const char *p, int f) {
  return simple(f & AT_REMOVEDIR ? K_RMDIR : K_UNLINK, f & AT_REMOVEDIR ? "rmdir" : "unlink", p, at_ours(d, p), SYS_unlinkat, d, L(p), f, 0);
}
int rmdir(const char *p) { return simple(K_RMDIR, "rmdir", p, below(p), SYS_rmdir, L(p), 0, 0, 0); }
int remove(const char *p) {
  struct stat s;
  if (!syscall(SYS_newfstatat, AT_FDCWD, p, &s, AT_SYMLINK_NOFOLLOW) && S_ISDIR(s.st_mode)) return rmdir(p);
  return unlink(p);
}
int mkdir(const char *p, mode_t m) { return simple(K_MKDIR, "mkdir", p, below(p), SYS_mkdir, L(p), m, 0, 0); }
int mkdirat(int d, const char *p, mode_t m) { return simple(K_MKDIR, "mkdir", p, at_ours(d, p), SYS_mkdirat, d, L(p), m, 0); }
int rename(const char *a, const char *b) { return simple(K_RENAME, "rename", b, below(a) || below(b), SYS_rename, L(a), L(b), 0, 0); }
int renameat(int d, const char *a, int e, const char *b) { return simple(K_RENAME, "rename", b, at_ours(d, a) || at_ours(e, b), SYS_renameat, d, L(a), e, L(b)); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) {
  if (at_ours(d, a) && gate(K_RENAME, "rename", b)) return -1;
  return syscall(SYS_renameat2, d, a, e, b, f);
}
int link(const char *a, const char *b) { return simple(K_RENAME, "link", b, below(b), SYS_link, L(a), L(b), 0, 0); }
int linkat(int d, const char *a, int e, const char *b, int f) {
  if (at_ours(e, b) && gate(K_RENAME, "link", b)) return -1;
  return syscall(SYS_linkat, d, a, e, b, f);
}
int symlink(const char *a, const char *b) { return simple(K_RENAME, "symlink", b, below(b), SYS_symlink, L(a), L(b), 0, 0); }
int fsync(int fd) { return simple(K_SYNC, "fsync", 0, ours(fd), SYS_fsync, fd, 0, 0, 0); }
int fdatasync(int fd) { return simple(K_SYNC, "fsync", 0, ours(fd), SYS_fdatasync, fd, 0, 0, 0); }

/* looking at a path */
int access(const char *p, int m) { return simple(K_STAT, "access", p, below(p), SYS_access, L(p), m, 0, 0); }
int faccessat(int d, const char *p, int m, int f) { return simple(K_STAT, "access", p, at_ours(d, p), SYS_faccessat, d, L(p), m, 0); }
int statx(int d, const char *restrict p, int f, unsigned mask, struct statx *restrict b) {
  const char *volatile q = p;    /* may be null after all */
  int o = q && *q && at_ours(d, q);
  if (o && gate(K_STAT, "stat", p)) return -1;
  int r = syscall(SYS_statx, d, p, f, mask, b);
  if (o) { int e = errno; note("stat", p, 0, r ? -e : 0); errno = e; }
  return r;
}
int stat(const char *restrict p, struct stat *restrict b) { return simple(K_STAT, "stat", p, below(p), SYS_stat, L(p), L(b), 0, 0); }
int stat64(const char *restrict p, struct stat64 *restrict b) { return simple(K_STAT, "stat", p, below(p), SYS_stat, L(p), L(b), 0, 0); }
int lstat(const char *restrict p, struct stat *restrict b) { return simple(K_STAT, "stat", p, below(p), SYS_lstat, L(p), L(b), 0, 0); }
int lstat64(const char *restrict p, struct stat64 *restrict b) { return simple(K_STAT, "stat", p, below(p), SYS_lstat, L(p), L(b), 0, 0); }
int fstatat(int d, const char *restrict p, struct stat *restrict b, int f) { return simple(K_STAT, "stat", p, at_ours(d, p), SYS_newfstatat, d, L(p), L(b), f); }
int fstatat64(int d, const char *restrict p, struct stat64 *restrict b, int f) { return simple(K_STAT, "stat", p, at_ours(d, p), SYS_newfstatat, d, L(p), L(b), f); }

DIR *opendir(const char *p) {
  static DIR *(*real)(const char *);
  if (!real) real = dlsym(RTLD_NEXT, "opendir");
  if (below(p) && gate(K_DIR, "opendir", p)) return 0;
  DIR *d = real(p);
  if (below(p)) { int e = errno; note("opendir", p, 0, d ? 0 : -e); errno = e; }
  return d;
}
struct dirent64 *readdir64(DIR *d) {
  static struct dirent64 *(*real)(DIR *);
  if (!real) real = dlsym(RTLD_NEXT, "readdir64");
  if (S && me >= 0 && !quiet && S->mode == 2 && S->kinds & K_DIR) {
    char l[64], t[PATH_MAX];
    snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd(d));
    ssize_t n = syscall(SYS_readlink, l, t, sizeof t - 1);
    if (n > 0) { t[n] = 0; if (below(t) && gate(K_DIR, "readdir", t)) return 0; }
  }
  return real(d);
}

int flock(int fd, int op) {
  if (!ours(fd)) return syscall(SYS_flock, fd, op);
  if (op & LOCK_UN) {
    point();
    int r = syscall(SYS_flock, fd, op);
    note("unlock", 0, fd, r);
    released();
    return r;
  }
  if (gate(K_LOCK, op & LOCK_SH ? "lock sh" : "lock ex", 0)) return -1;
  for (;;) {
    if (!sched()) {
      if (S->deadlock && me >= 0) {
        int r = syscall(SYS_flock, fd, op | LOCK_NB);
        if (r) errno = EDEADLK;
        return r;
      }
      return syscall(SYS_flock, fd, op);
    }
    int r = syscall(SYS_flock, fd, op | LOCK_NB);
    if (!r || errno != EWOULDBLOCK || op & LOCK_NB) {
      int e = errno;
      note(op & LOCK_SH ? "locked sh" : "locked ex", 0, fd, r ? -e : 0);
      errno = e;
      return r;
    }
    pthread_mutex_lock(&S->m);
    if (S->active) sleepon(BLOCKED);
    pthread_mutex_unlock(&S->m);
  }
}

/* Threads wait for each other by futexes: such waits are taken over, and what
 * wakes somebody lets all look again.  (Waits may end early.)  */
#undef syscall
long syscall(long n, ...) {
  va_list v;
  va_start(v, n);
  long a[6];
  for (int i = 0; i < 6; i++) a[i] = va_arg(v, long);
  va_end(v);
  if (n == SYS_futex && S) {
    int op = a[1] & FUTEX_CMD_MASK;
    if ((op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) && !a[3] && sched()) {
      int stale = 0;
      pthread_mutex_lock(&S->m);
      if (S->active) {
        stale = *(volatile uint32_t *)a[0] != (uint32_t)a[2];
        if (!stale) sleepon(ASLEEP);
      }
      int still = S->active;
      pthread_mutex_unlock(&S->m);
      if (stale) { errno = EAGAIN; return -1; }
      if (still) return 0;
    }
    long r = rawcall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    int e = errno;
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) released();
    errno = e;
    return r;
  }
  return rawcall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
