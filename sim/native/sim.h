/* Deterministic simulator core for igakit: interface between the preloaded
   library (libsim.so) and the Python extension (_simkit). */
#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <stddef.h>

/* ---- hooks into CPython, installed by _simkit ---- */
struct sim_py {
  int   (*gil_check)(void);
  void *(*save_thread)(void);
  void  (*restore_thread)(void *);
  int   (*set_interrupt)(int);
};
void sim_set_py(const struct sim_py *);

/* ---- steps (logical time) ---- */
enum { SIM_K_KERNEL = 0, SIM_K_CODE = 1, SIM_K_DISK = 2, SIM_NKIND = 3 };
enum { SIM_MAXTHR = 8 };

extern __thread int sim_me;              /* thread index, -1: not simulated */

/* returns 1 if a thread switch is wanted at a CODE step (caller then checks
   that the point is one where CPython may switch and calls sim_switch_now) */
int      sim_step_code(uintptr_t loc);
void     sim_switch_now(int kind, uintptr_t loc, int gil_held);
void     sim_counts(int thr, uint64_t out[SIM_NKIND]);  /* thr -1: unscheduled */
void     sim_counts_reset(void);
void     sim_set_budget(uint64_t steps); /* 0 = off; exceeded -> _exit(86) */
uint64_t sim_total_steps(void);
void     sim_interrupt_at(uint64_t code_step);  /* 0 = off */
int      sim_interrupt_fired(void);
uint8_t *sim_reach_map(size_t *size);    /* shared between forks */
void     sim_set_base(uintptr_t base);

/* ---- scheduler ---- */
void sim_sched_reset(void);
int  sim_sched_trigger(int thr, int kind, uint64_t n, int to);
void sim_sched_random(uint64_t seed, uint32_t pk, uint32_t pc, uint32_t pd);
void sim_sched_begin(int nthreads, const int *order);
void sim_thread_enter(int thr);          /* GIL released */
void sim_wait_entered(void);             /* main, GIL released */
void sim_thread_leave(void);             /* GIL released; parks until sim_release */
void sim_sched_run(void);                /* main, GIL released */
void sim_release(int thr);
struct sim_switch { int thr, kind, to; uint64_t n; uintptr_t loc; };
int  sim_switch_log(const struct sim_switch **out);
void sim_block(void);                    /* cooperative lock: give the baton away */

/* ---- disk ---- */
enum { OP_OPEN, OP_READ, OP_WRITE, OP_SEEK, OP_CLOSE, OP_DUP, OP_STAT, OP_TRUNC,
       OP_SYNC, OP_RENAME, OP_UNLINK, OP_NKIND };
struct sim_op {
  int kind, fd, file, thr, err, flags;
  int64_t off, req, ret;
  char *data;              /* write: bytes stored; rename: NULL (flags = target file id) */
};
void sim_disk_enable(const char *prefix);
void sim_disk_reset(void);               /* clears log, faults, counters */
int  sim_disk_oplog(const struct sim_op **out);
int  sim_disk_nfiles(void);
const char *sim_disk_file(int id);
int  sim_disk_open_fds(void);
enum { F_ERRNO = 1, F_SHORT = 2, F_SIGINT = 3, F_EOF = 4, F_LOSS = 5 };
int  sim_disk_fault(int kind, int thr, int64_t nth, int64_t at, int action, int arg, int sticky);
int  sim_disk_fired(int idx);
void sim_disk_blksize(int n);             /* knob: preferred I/O size the file system reports, 0 = the real one */
void sim_disk_chunk(int wmax, int rmax); /* knob: largest transfer per call, 0 = any */

/* ---- memory ---- */
void     sim_mem_fill(int on, uint64_t pattern);
void     sim_stack_fill(uint64_t pattern);
uint64_t sim_mem_filled(void);
void    *sim_raw_malloc(size_t);
void     sim_raw_free(void *);
#endif
