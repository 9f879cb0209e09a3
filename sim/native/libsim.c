/* libsim.so - preloaded into the simulated process.
   (A) logical time and thread scheduler, (B) simulated disk, (C) dirty memory. */
#define _GNU_SOURCE
#include "sim.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <malloc.h>
#include <alloca.h>

extern void *__libc_malloc(size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void  __libc_free(void *);

static struct sim_py py;
void sim_set_py(const struct sim_py *p) { py = *p; }

/* ------------------------------------------------------------------ */
/* (A) logical time and scheduler                                      */
/* ------------------------------------------------------------------ */

__thread int sim_me = -1;

struct trig { uint64_t n; int to; };
struct thr {
  sem_t sem;
  int done;
  uint64_t cnt[SIM_NKIND];
  struct trig *tr[SIM_NKIND];
  int ntr[SIM_NKIND], ptr[SIM_NKIND], cap[SIM_NKIND];
  int pending;                 /* wanted switch target, -1: none */
};
static struct thr T[SIM_MAXTHR];
static int nthr, order_[SIM_MAXTHR];
static sem_t main_sem;
static uint64_t budget, total;
static uint64_t solo[SIM_NKIND];
static struct sim_switch *slog_; static int nslog, cslog;
static uint64_t rnd; static uint32_t rprob[SIM_NKIND]; static int rnd_on;
static uint64_t intr_at; static int intr_fired;

#define REACH (1u << 20)
static uint8_t *reach; static uintptr_t reach_base;
uint8_t *sim_reach_map(size_t *size) {
  if (!reach) {
    void *m = mmap(NULL, REACH, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    if (m != MAP_FAILED) reach = m;
  }
  *size = reach ? REACH : 0;
  return reach;
}
void sim_set_base(uintptr_t b) { reach_base = b; }

uint64_t sim_total_steps(void) { return total; }
void sim_set_budget(uint64_t s) { budget = s ? total + s : 0; }
void sim_interrupt_at(uint64_t n) { intr_at = n ? solo[SIM_K_CODE] + n : 0; if (n) intr_fired = 0; }
int  sim_interrupt_fired(void) { return intr_fired; }
void sim_counts(int t, uint64_t out[SIM_NKIND]) {
  memcpy(out, t < 0 ? solo : T[t].cnt, sizeof solo);
}
void sim_counts_reset(void) { memset(solo, 0, sizeof solo); total = 0; budget = 0; }

static void over_budget(void) { _exit(86); }

static uint64_t rng(void) {
  rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17;
  return rnd * 0x2545F4914F6CDD1DULL;
}

/* count one step; returns 1 if this thread wants to be switched out */
static inline int tick(int kind) {
  total++;
  if (budget && total > budget) over_budget();
  int me = sim_me;
  if (me < 0) { solo[kind]++; return 0; }
  struct thr *t = &T[me];
  uint64_t n = ++t->cnt[kind];
  int p = t->ptr[kind];
  if (p < t->ntr[kind] && t->tr[kind][p].n <= n) {
    t->pending = t->tr[kind][p].to;
    t->ptr[kind] = p + 1;
  } else if (rnd_on && rprob[kind] && (rng() >> 44) < rprob[kind]) {
    t->pending = (int)(rng() % (uint64_t)nthr);
  }
  return t->pending >= 0;
}

static void hand_to(int to) { sem_post(&T[to].sem); }
static void park(int me) { while (sem_wait(&T[me].sem) < 0) ; }

void sim_switch_now(int kind, uintptr_t loc, int gil_held) {
  int me = sim_me, to;
  if (me < 0) return;
  to = T[me].pending;
  T[me].pending = -1;
  if (to < 0 || to >= nthr || to == me || T[to].done) return;
  if (nslog == cslog) {
    cslog = cslog ? 2*cslog : 256;
    slog_ = __libc_realloc(slog_, cslog * sizeof *slog_);
  }
  slog_[nslog].thr = me; slog_[nslog].kind = kind; slog_[nslog].to = to;
  slog_[nslog].n = T[me].cnt[kind]; slog_[nslog].loc = loc; nslog++;
  int e = errno;
  void *ts = gil_held ? py.save_thread() : NULL;
  hand_to(to);
  park(me);
  if (gil_held) py.restore_thread(ts);
  errno = e;
}

int sim_step_code(uintptr_t loc) {
  if (reach) reach[(0x80000 + loc) & (REACH-1)] = 1;
  int w = tick(SIM_K_CODE);
  if (sim_me < 0 && intr_at && solo[SIM_K_CODE] >= intr_at) {
    intr_at = 0; intr_fired = 1;
    py.set_interrupt(2);
  }
  return w;
}

void __sanitizer_cov_trace_pc(void) {
  uintptr_t loc = (uintptr_t)__builtin_return_address(0) - reach_base;
  if (reach) reach[loc & 0x7ffff] = 1;
  if (tick(SIM_K_KERNEL) && !py.gil_check())
    sim_switch_now(SIM_K_KERNEL, loc, 0);
}

static void step_disk(int op) {
  if (tick(SIM_K_DISK) && !(py.gil_check && py.gil_check()))
    sim_switch_now(SIM_K_DISK, (uintptr_t)op, 0);
}

void sim_sched_reset(void) {
  for (int i = 0; i < SIM_MAXTHR; i++) {
    for (int k = 0; k < SIM_NKIND; k++) {
      T[i].cnt[k] = 0; T[i].ntr[k] = T[i].ptr[k] = 0;
    }
    T[i].done = 0; T[i].pending = -1;
  }
  nslog = 0; rnd_on = 0; nthr = 0;
}
int sim_sched_trigger(int thr, int kind, uint64_t n, int to) {
  if (thr < 0 || thr >= SIM_MAXTHR || kind < 0 || kind >= SIM_NKIND) return -1;
  struct thr *t = &T[thr];
  if (t->ntr[kind] == t->cap[kind]) {
    t->cap[kind] = t->cap[kind] ? 2*t->cap[kind] : 64;
    t->tr[kind] = __libc_realloc(t->tr[kind], t->cap[kind] * sizeof(struct trig));
  }
  int j = t->ntr[kind]++;
  while (j > 0 && t->tr[kind][j-1].n > n) { t->tr[kind][j] = t->tr[kind][j-1]; j--; }
  t->tr[kind][j].n = n; t->tr[kind][j].to = to;
  return 0;
}
void sim_sched_random(uint64_t seed, uint32_t pk, uint32_t pc, uint32_t pd) {
  rnd = seed * 0x9E3779B97F4A7C15ULL + 0x1234567; if (!rnd) rnd = 1;
  rprob[0] = pk; rprob[1] = pc; rprob[2] = pd; rnd_on = pk || pc || pd;
}
void sim_sched_begin(int n, const int *order) {
  nthr = n;
  sem_init(&main_sem, 0, 0);
  for (int i = 0; i < n; i++) { sem_init(&T[i].sem, 0, 0); T[i].done = 0; order_[i] = order[i]; }
}
void sim_wait_entered(void) { while (sem_wait(&main_sem) < 0) ; }
void sim_thread_enter(int thr) { sim_me = thr; sem_post(&main_sem); park(thr); }
static int next_runnable(int me) {
  for (int i = 0; i < nthr; i++) {
    int t = order_[i];
    if (t != me && !T[t].done) return t;
  }
  return -1;
}
void sim_thread_leave(void) {
  int me = sim_me, t;
  T[me].done = 1;
  t = next_runnable(me);
  if (t >= 0) hand_to(t); else sem_post(&main_sem);
  park(me);
  sim_me = -1;
}
void sim_sched_run(void) {
  hand_to(order_[0]);
  while (sem_wait(&main_sem) < 0) ;
}
void sim_release(int thr) { sem_post(&T[thr].sem); }
int sim_switch_log(const struct sim_switch **out) { *out = slog_; return nslog; }
void sim_block(void) {
  int me = sim_me;
  if (me < 0) { usleep(100); return; }
  static int rr; int t = -1;
  for (int i = 1; i <= nthr; i++) {
    int c = (me + i + rr) % nthr;
    if (c != me && !T[c].done) { t = c; break; }
  }
  rr++;
  if (t < 0) _exit(87);             /* deadlock: nobody can run */
  total++;
  if (budget && total > budget) over_budget();
  hand_to(t); park(me);
}

/* ------------------------------------------------------------------ */
/* (B) simulated disk                                                  */
/* ------------------------------------------------------------------ */

#define MAXFD 4096
#define MAXFILE 256
static char prefix[PATH_MAX]; static size_t plen;
static struct { int used, file, flags; } fdt[MAXFD];
static char *fname[MAXFILE]; static int nfile;
static struct sim_op *ops; static int nops, cops;
static pthread_mutex_t dlock = PTHREAD_MUTEX_INITIALIZER;

struct fault { int kind, thr; int64_t nth, at; int action, arg, sticky, fired, dead; };
static struct fault flt[64]; static int nflt;
static int64_t opcnt[OP_NKIND], opcnt_t[SIM_MAXTHR][OP_NKIND];
static int64_t wbytes, wbytes_t[SIM_MAXTHR];
static int wchunk, rchunk, blksize;

static int open_fds;

void sim_disk_enable(const char *p) { strncpy(prefix, p, sizeof prefix - 1); plen = strlen(prefix); }
void sim_disk_blksize(int n) { blksize = n; }
void sim_disk_chunk(int w, int r) { wchunk = w; rchunk = r; }
static void drop_ops(void) {
  for (int i = 0; i < nops; i++) if (ops[i].data) __libc_free(ops[i].data);
  nops = 0;
}
void sim_disk_reset(void) {
  drop_ops(); nflt = 0; wchunk = rchunk = 0;
  memset(opcnt, 0, sizeof opcnt); memset(opcnt_t, 0, sizeof opcnt_t);
  wbytes = 0; memset(wbytes_t, 0, sizeof wbytes_t);
}
int sim_disk_oplog(const struct sim_op **o) { *o = ops; return nops; }
int sim_disk_nfiles(void) { return nfile; }
const char *sim_disk_file(int i) { return i >= 0 && i < nfile ? fname[i] : ""; }
int sim_disk_open_fds(void) { return open_fds; }
int sim_disk_fault(int kind, int thr, int64_t nth, int64_t at, int action, int arg, int sticky) {
  if (nflt == 64) return -1;
  struct fault f = { kind, thr, nth, at, action, arg, sticky, 0, 0 };
  flt[nflt] = f;
  return nflt++;
}
int sim_disk_fired(int i) { return i >= 0 && i < nflt ? flt[i].fired : 0; }

/* absolute path without "." and ".." (relative names are names of the working directory) */
static const char *canon(const char *path) {
  static __thread char buf[2 * PATH_MAX], out[2 * PATH_MAX];
  if (path[0] == '/' && !strstr(path, "/.") && !strstr(path, "//")) return path;
  if (strlen(path) >= PATH_MAX) return path;
  if (path[0] == '/') strcpy(buf, path);
  else {
    if (syscall(SYS_getcwd, buf, (size_t)PATH_MAX) < 0) return path;
    strcat(buf, "/"); strcat(buf, path);
  }
  size_t n = 0;
  for (const char *p = buf; *p;) {
    while (*p == '/') p++;
    const char *e = strchrnul(p, '/');
    size_t k = e - p;
    if (k == 2 && p[0] == '.' && p[1] == '.') { while (n && out[--n] != '/'); }
    else if (k && !(k == 1 && p[0] == '.')) { out[n++] = '/'; memcpy(out + n, p, k); n += k; }
    p = e;
  }
  out[n] = 0;
  return out;
}
static int file_id(const char *path) {
  path = canon(path);
  for (int i = 0; i < nfile; i++) if (!strcmp(fname[i], path)) return i;
  if (nfile == MAXFILE) return MAXFILE - 1;
  size_t n = strlen(path) + 1;
  fname[nfile] = __libc_malloc(n); memcpy(fname[nfile], path, n);
  return nfile++;
}
static int under(const char *path) { return plen && path && !strncmp(canon(path), prefix, plen); }
static int tracked(int fd) { return fd >= 0 && fd < MAXFD && fdt[fd].used; }

static void log_op(int kind, int fd, int file, int64_t off, int64_t req, int64_t ret,
                   int err, int flags, const void *data) {
  pthread_mutex_lock(&dlock);
  if (nops == cops) {
    cops = cops ? 2*cops : 256;
    ops = __libc_realloc(ops, cops * sizeof *ops);
  }
  struct sim_op *o = &ops[nops++];
  o->kind = kind; o->fd = fd; o->file = file; o->thr = sim_me; o->err = err; o->flags = flags;
  o->off = off; o->req = req; o->ret = ret; o->data = NULL;
  if (data && ret > 0) { o->data = __libc_malloc(ret); memcpy(o->data, data, ret); }
  pthread_mutex_unlock(&dlock);
}

/* which fault, if any, hits this operation.  Ops are counted per kind,
   globally and per simulated thread. For byte addressed faults the amount
   that may still be transferred is put into *lim. */
static struct fault *hit(int kind, int64_t pos, int64_t len, int64_t *lim) {
  int me = sim_me;
  int64_t n = opcnt[kind]++, nt = -1;
  if (me >= 0) nt = opcnt_t[me][kind]++;
  struct fault *f = NULL;
  for (int i = 0; i < nflt; i++) {
    struct fault *g = &flt[i];
    if (g->dead || g->kind != kind) continue;
    if (g->thr >= 0 && g->thr != me) continue;
    if (g->nth >= 0) {
      int64_t c = g->thr >= 0 ? nt : n;
      if (c == g->nth || (g->sticky && c > g->nth)) { f = g; break; }
    } else {
      int64_t p = pos;
      if (kind == OP_WRITE) p = g->thr >= 0 ? wbytes_t[me] : wbytes;
      if (len > 0 && p + len > g->at) {
        if (p < g->at) { if (lim && g->at - p < *lim) *lim = g->at - p; continue; }
        if (p == g->at || g->sticky) { f = g; break; }
      }
    }
  }
  if (f) { f->fired++; if (!f->sticky) f->dead = 1; }
  return f;
}
static void trip(void) { if (py.set_interrupt) py.set_interrupt(2); }

static int do_open(int dfd, const char *path, int flags, mode_t mode) {
  if (!under(path)) return syscall(SYS_openat, dfd, path, flags, mode);
  step_disk(OP_OPEN);
  int id = file_id(path);
  struct fault *f = hit(OP_OPEN, 0, 0, NULL);
  if (f && (f->action == F_ERRNO || f->action == F_SIGINT)) {
    int e = f->action == F_SIGINT ? EINTR : f->arg;
    if (f->action == F_SIGINT) trip();
    log_op(OP_OPEN, -1, id, 0, 0, -1, e, flags, NULL);
    errno = e; return -1;
  }
  int fd = syscall(SYS_openat, dfd, path, flags, mode);
  log_op(OP_OPEN, fd, id, 0, 0, fd < 0 ? -1 : 0, fd < 0 ? errno : 0, flags, NULL);
  if (fd >= 0 && fd < MAXFD) { fdt[fd].used = 1; fdt[fd].file = id; fdt[fd].flags = flags; open_fds++; }
  return fd;
}
#define OPEN_BODY(dfd) \
  mode_t m = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
  return do_open(dfd, path, flags, m);
int open(const char *path, int flags, ...) { OPEN_BODY(AT_FDCWD) }
int open64(const char *path, int flags, ...) { OPEN_BODY(AT_FDCWD) }
int openat(int d, const char *path, int flags, ...) { OPEN_BODY(d) }
int openat64(int d, const char *path, int flags, ...) { OPEN_BODY(d) }
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT|O_WRONLY|O_TRUNC, m); }

static ssize_t do_read(int fd, void *buf, size_t n, off_t poff) {
  step_disk(OP_READ);
  int64_t off = poff >= 0 ? poff : syscall(SYS_lseek, fd, 0, SEEK_CUR);
  struct stat st; int64_t size = syscall(SYS_fstat, fd, &st) < 0 ? 0 : st.st_size;
  int64_t avail = size > off ? size - off : 0, len = (int64_t)n < avail ? (int64_t)n : avail, lim = n;
  struct fault *f = hit(OP_READ, off, len, &lim);
  if (f) {
    switch (f->action) {
    case F_ERRNO: case F_SIGINT: {
      int e = f->action == F_SIGINT ? EINTR : f->arg;
      if (f->action == F_SIGINT) trip();
      log_op(OP_READ, fd, fdt[fd].file, off, n, -1, e, 0, NULL);
      errno = e; return -1; }
    case F_EOF:
      log_op(OP_READ, fd, fdt[fd].file, off, n, 0, 0, 0, NULL);
      return 0;
    case F_SHORT:
      if (f->arg < lim) lim = f->arg > 0 ? f->arg : 1;
      break;
    }
  }
  if (rchunk > 0 && rchunk < lim) lim = rchunk;
  ssize_t r = poff >= 0 ? syscall(SYS_pread64, fd, buf, (size_t)lim, poff)
                        : syscall(SYS_read, fd, buf, (size_t)lim);
  log_op(OP_READ, fd, fdt[fd].file, off, n, r, r < 0 ? errno : 0, 0, NULL);
  return r;
}
ssize_t read(int fd, void *buf, size_t n) {
  return tracked(fd) ? do_read(fd, buf, n, -1) : syscall(SYS_read, fd, buf, n);
}
ssize_t pread(int fd, void *buf, size_t n, off_t o) {
  return tracked(fd) ? do_read(fd, buf, n, o) : syscall(SYS_pread64, fd, buf, n, o);
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t o) { return pread(fd, buf, n, o); }

static ssize_t do_write(int fd, const void *buf, size_t n, off_t poff) {
  step_disk(OP_WRITE);
  int64_t lim = n;
  struct fault *f = hit(OP_WRITE, 0, n, &lim);
  int64_t off = poff;
  if (poff < 0) {
    off = syscall(SYS_lseek, fd, 0, (fdt[fd].flags & O_APPEND) ? SEEK_END : SEEK_CUR);
  }
  if (f) {
    switch (f->action) {
    case F_ERRNO: case F_SIGINT: {
      int e = f->action == F_SIGINT ? EINTR : f->arg;
      if (f->action == F_SIGINT) trip();
      log_op(OP_WRITE, fd, fdt[fd].file, off, n, -1, e, 0, NULL);
      errno = e; return -1; }
    case F_SHORT:
      if (f->arg < lim) lim = f->arg > 0 ? f->arg : 1;
      break;
    }
  }
  if (wchunk > 0 && wchunk < lim) lim = wchunk;
  ssize_t r = poff >= 0 ? syscall(SYS_pwrite64, fd, buf, (size_t)lim, poff)
                        : syscall(SYS_write, fd, buf, (size_t)lim);
  int e = errno;
  if (r > 0) { wbytes += r; if (sim_me >= 0) wbytes_t[sim_me] += r; }
  log_op(OP_WRITE, fd, fdt[fd].file, off, n, r, r < 0 ? e : 0, 0, buf);
  errno = e;
  return r;
}
ssize_t write(int fd, const void *buf, size_t n) {
  return tracked(fd) ? do_write(fd, buf, n, -1) : syscall(SYS_write, fd, buf, n);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) {
  return tracked(fd) ? do_write(fd, buf, n, o) : syscall(SYS_pwrite64, fd, buf, n, o);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) { return pwrite(fd, buf, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (!tracked(fd)) return syscall(SYS_readv, fd, v, c);
  return c > 0 ? do_read(fd, v[0].iov_base, v[0].iov_len, -1) : 0;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!tracked(fd)) return syscall(SYS_writev, fd, v, c);
  return c > 0 ? do_write(fd, v[0].iov_base, v[0].iov_len, -1) : 0;
}

static off_t do_lseek(int fd, off_t o, int w) {
  step_disk(OP_SEEK);
  struct fault *f = hit(OP_SEEK, 0, 0, NULL);
  if (f && f->action == F_ERRNO) {
    log_op(OP_SEEK, fd, fdt[fd].file, o, w, -1, f->arg, 0, NULL);
    errno = f->arg; return -1;
  }
  off_t r = syscall(SYS_lseek, fd, o, w);
  log_op(OP_SEEK, fd, fdt[fd].file, o, w, r, r < 0 ? errno : 0, 0, NULL);
  return r;
}
off_t lseek(int fd, off_t o, int w) { return tracked(fd) ? do_lseek(fd, o, w) : syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }

int close(int fd) {
  if (!tracked(fd)) return syscall(SYS_close, fd);
  step_disk(OP_CLOSE);
  struct fault *f = hit(OP_CLOSE, 0, 0, NULL);
  int file = fdt[fd].file, e = 0;
  if (f && f->action == F_LOSS) {
    /* delayed allocation failed: the last arg bytes never made it */
    struct stat st;
    if (syscall(SYS_fstat, fd, &st) == 0 && (fdt[fd].flags & O_ACCMODE) != O_RDONLY) {
      int64_t keep = st.st_size > f->arg ? st.st_size - f->arg : 0;
      syscall(SYS_ftruncate, fd, keep);
      log_op(OP_TRUNC, fd, file, keep, 0, 0, 0, 1, NULL);
    }
    e = EDQUOT;
  }
  if (f && f->action == F_ERRNO) e = f->arg;
  fdt[fd].used = 0; open_fds--;
  int r = syscall(SYS_close, fd);       /* the descriptor is gone in any case */
  if (r < 0) e = errno;
  log_op(OP_CLOSE, fd, file, 0, 0, e ? -1 : 0, e, 0, NULL);
  if (e) { errno = e; return -1; }
  return 0;
}

static int dup_done(int fd, int nfd) {
  if (nfd >= 0 && nfd < MAXFD) {
    if (!fdt[nfd].used) open_fds++;
    fdt[nfd] = fdt[fd]; fdt[nfd].used = 1;
  }
  log_op(OP_DUP, fd, fdt[fd].file, nfd, 0, nfd < 0 ? -1 : 0, nfd < 0 ? errno : 0, 0, NULL);
  return nfd;
}
static int dup_fault(int fd) {
  step_disk(OP_DUP);
  struct fault *f = hit(OP_DUP, 0, 0, NULL);
  if (f && f->action == F_ERRNO) {
    log_op(OP_DUP, fd, fdt[fd].file, -1, 0, -1, f->arg, 0, NULL);
    errno = f->arg; return 1;
  }
  return 0;
}
int dup(int fd) {
  if (!tracked(fd)) return syscall(SYS_dup, fd);
  if (dup_fault(fd)) return -1;
  return dup_done(fd, syscall(SYS_dup, fd));
}
int dup2(int fd, int n) {
  if (!tracked(fd)) return syscall(SYS_dup2, fd, n);
  if (dup_fault(fd)) return -1;
  return dup_done(fd, syscall(SYS_dup2, fd, n));
}
int dup3(int fd, int n, int fl) {
  if (!tracked(fd)) return syscall(SYS_dup3, fd, n, fl);
  if (dup_fault(fd)) return -1;
  return dup_done(fd, syscall(SYS_dup3, fd, n, fl));
}
static int do_fcntl(int fd, int cmd, void *arg) {
  if (tracked(fd) && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) {
    if (dup_fault(fd)) return -1;
    return dup_done(fd, syscall(SYS_fcntl, fd, cmd, arg));
  }
  return syscall(SYS_fcntl, fd, cmd, arg);
}
int fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); void *p = va_arg(a, void *); va_end(a); return do_fcntl(fd, cmd, p); }
int fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); void *p = va_arg(a, void *); va_end(a); return do_fcntl(fd, cmd, p); }

static int stat_fault(int fd) {
  step_disk(OP_STAT);
  struct fault *f = hit(OP_STAT, 0, 0, NULL);
  if (f && f->action == F_ERRNO) {
    log_op(OP_STAT, fd, fdt[fd].file, 0, 0, -1, f->arg, 0, NULL);
    errno = f->arg; return 1;
  }
  log_op(OP_STAT, fd, fdt[fd].file, 0, 0, 0, 0, 0, NULL);
  return 0;
}
int fstat(int fd, struct stat *st) {
  if (tracked(fd) && stat_fault(fd)) return -1;
  int r = syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH);
  if (r == 0 && blksize && tracked(fd)) st->st_blksize = blksize;
  return r;
}
int fstat64(int fd, struct stat64 *st) {
  if (tracked(fd) && stat_fault(fd)) return -1;
  int r = syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH);
  if (r == 0 && blksize && tracked(fd)) st->st_blksize = blksize;
  return r;
}
int ftruncate(int fd, off_t n) {
  if (!tracked(fd)) return syscall(SYS_ftruncate, fd, n);
  step_disk(OP_TRUNC);
  struct fault *f = hit(OP_TRUNC, 0, 0, NULL);
  if (f && f->action == F_ERRNO) { errno = f->arg; return -1; }
  int r = syscall(SYS_ftruncate, fd, n);
  log_op(OP_TRUNC, fd, fdt[fd].file, n, 0, r, r < 0 ? errno : 0, 0, NULL);
  return r;
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
static int do_sync(int fd, int sys) {
  if (!tracked(fd)) return syscall(sys, fd);
  step_disk(OP_SYNC);
  struct fault *f = hit(OP_SYNC, 0, 0, NULL);
  if (f && f->action == F_ERRNO) {
    log_op(OP_SYNC, fd, fdt[fd].file, 0, 0, -1, f->arg, 0, NULL);
    errno = f->arg; return -1;
  }
  log_op(OP_SYNC, fd, fdt[fd].file, 0, 0, 0, 0, 0, NULL);
  return 0;                          /* nothing real to wait for */
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }
static int do_rename(int od, const char *o, int nd, const char *n) {
  if (!under(o) && !under(n)) return syscall(SYS_renameat, od, o, nd, n);
  step_disk(OP_RENAME);
  int a = file_id(o), b = file_id(n);
  struct fault *f = hit(OP_RENAME, 0, 0, NULL);
  if (f && f->action == F_ERRNO) {
    log_op(OP_RENAME, -1, a, 0, 0, -1, f->arg, b, NULL);
    errno = f->arg; return -1;
  }
  int r = syscall(SYS_renameat, od, o, nd, n);
  log_op(OP_RENAME, -1, a, 0, 0, r, r < 0 ? errno : 0, b, NULL);
  return r;
}
int rename(const char *o, const char *n) { return do_rename(AT_FDCWD, o, AT_FDCWD, n); }
int renameat(int od, const char *o, int nd, const char *n) { return do_rename(od, o, nd, n); }
static int do_unlink(int d, const char *p, int fl) {
  if (!under(p)) return syscall(SYS_unlinkat, d, p, fl);
  step_disk(OP_UNLINK);
  int a = file_id(p);
  struct fault *f = hit(OP_UNLINK, 0, 0, NULL);
  if (f && f->action == F_ERRNO) { errno = f->arg; return -1; }
  int r = syscall(SYS_unlinkat, d, p, fl);
  log_op(OP_UNLINK, -1, a, 0, 0, r, r < 0 ? errno : 0, 0, NULL);
  return r;
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int remove(const char *p) {
  if (under(p)) return do_unlink(AT_FDCWD, p, 0);
  int r = syscall(SYS_unlinkat, AT_FDCWD, p, 0);
  if (r < 0 && errno == EISDIR) r = syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR);
  return r;
}
int unlinkat(int d, const char *p, int fl) { return do_unlink(d, p, fl); }
int posix_fallocate(int fd, off_t o, off_t n) { return tracked(fd) ? EINVAL : (syscall(SYS_fallocate, fd, 0, o, n) < 0 ? errno : 0); }
int posix_fallocate64(int fd, off64_t o, off64_t n) { return posix_fallocate(fd, o, n); }

/* stdio on tracked descriptors: a cookie stream that transfers through the
   functions above exactly as glibc's file streams do */
struct ck { int fd; };
static struct { FILE *fp; int fd; } fpt[256];
static ssize_t ck_read(void *c, char *b, size_t n) { return read(((struct ck *)c)->fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
  size_t k = 0;
  while (k < n) {
    ssize_t r = write(((struct ck *)c)->fd, b + k, n - k);
    if (r < 0) break;
    k += r;
  }
  return k;
}
static int ck_seek(void *c, off64_t *o, int w) {
  off64_t r = lseek(((struct ck *)c)->fd, *o, w);
  if (r < 0) return -1;
  *o = r; return 0;
}
static int ck_close(void *c) {
  int fd = ((struct ck *)c)->fd;
  for (int i = 0; i < 256; i++) if (fpt[i].fp && fpt[i].fd == fd) fpt[i].fp = NULL;
  int r = close(fd);
  int e = errno; __libc_free(c); errno = e;
  return r;
}
static FILE *(*real_fdopen)(int, const char *);
static FILE *(*real_fopen)(const char *, const char *);
static int (*real_fileno)(FILE *);
FILE *fdopen(int fd, const char *mode) {
  if (!tracked(fd)) {
    if (!real_fdopen) real_fdopen = dlsym(RTLD_NEXT, "fdopen");
    return real_fdopen(fd, mode);
  }
  struct ck *c = __libc_malloc(sizeof *c);
  c->fd = fd;
  cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
  FILE *fp = fopencookie(c, mode, io);
  if (fp) {
    setvbuf(fp, NULL, _IOFBF, 4096);
    for (int i = 0; i < 256; i++) if (!fpt[i].fp) { fpt[i].fp = fp; fpt[i].fd = fd; break; }
  }
  return fp;
}
FILE *fopen(const char *path, const char *mode) {
  if (!under(path)) {
    if (!real_fopen) real_fopen = dlsym(RTLD_NEXT, "fopen");
    return real_fopen(path, mode);
  }
  int plus = strchr(mode, '+') != NULL, fl;
  if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
  else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  int fd = do_open(AT_FDCWD, path, fl | O_CLOEXEC, 0666);
  return fd < 0 ? NULL : fdopen(fd, mode);
}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
int fileno(FILE *fp) {
  for (int i = 0; i < 256; i++) if (fpt[i].fp == fp) return fpt[i].fd;
  if (!real_fileno) real_fileno = dlsym(RTLD_NEXT, "fileno");
  return real_fileno(fp);
}
int fileno_unlocked(FILE *fp) { return fileno(fp); }

/* ------------------------------------------------------------------ */
/* (C) dirty memory                                                    */
/* ------------------------------------------------------------------ */
static __thread int mfill; static __thread uint64_t mpat; static uint64_t mcount;
void sim_mem_fill(int on, uint64_t pat) { mpat = pat; mfill = on; }
uint64_t sim_mem_filled(void) { return mcount; }
void *sim_raw_malloc(size_t n) { return __libc_malloc(n); }
void sim_raw_free(void *p) { __libc_free(p); }
static void fillmem(void *p, size_t n) {
  uint64_t v = mpat; char *c = p;
  while (n >= 8) { memcpy(c, &v, 8); c += 8; n -= 8; }
  if (n) memcpy(c, &v, n);
  mcount++;
}
void *malloc(size_t n) {
  void *p = __libc_malloc(n);
  if (mfill && p && n <= (8u << 20)) fillmem(p, n);
  return p;
}
void *realloc(void *q, size_t n) {
  if (!mfill || n > (8u << 20)) return __libc_realloc(q, n);
  size_t old = q ? malloc_usable_size(q) : 0;
  void *p = __libc_realloc(q, n);
  if (p && n > old) fillmem((char *)p + old, n - old);
  return p;
}
__attribute__((noinline)) void sim_stack_fill(uint64_t pat) {
  volatile uint64_t a[8192];
  for (int i = 0; i < 8192; i++) a[i] = pat;
  __asm__ volatile("" :: "r"(a) : "memory");
}
