/* _simkit: the simulator's CPython side (bytecode clock, array allocator,
   and access to libsim's scheduler and disk). */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#define NPY_TARGET_VERSION NPY_1_25_API_VERSION
#include <numpy/arrayobject.h>
#include "sim.h"

/* ---------------- bytecode clock ---------------- */
#define CT 8192
static struct { PyObject *code; uintptr_t base; PyObject *allowed; } ct[CT];
static int ct_find(PyObject *c) {
  uintptr_t h = ((uintptr_t)c >> 4) * 2654435761u;
  for (int i = 0; i < CT; i++) {
    int j = (h + i) & (CT - 1);
    if (ct[j].code == c || !ct[j].code) return j;
  }
  return -1;
}
static PyObject *code_register(PyObject *self, PyObject *a) {
  PyObject *c, *al; unsigned long long base;
  if (!PyArg_ParseTuple(a, "OKS", &c, &base, &al)) return NULL;
  int j = ct_find(c);
  if (j < 0) { PyErr_SetString(PyExc_RuntimeError, "code table full"); return NULL; }
  Py_INCREF(c); Py_INCREF(al);
  ct[j].code = c; ct[j].base = base; ct[j].allowed = al;
  Py_RETURN_NONE;
}
static int any_bytecode;
/* points just after a store to an object, a global or an item */
#define NHOT 16384
static struct { int thr; uint64_t n; uintptr_t loc; int cls; } hot[NHOT];
static int nhot = -1;
static PyObject *hot_start(PyObject *s, PyObject *a) { nhot = 0; Py_RETURN_NONE; }
static PyObject *hot_list(PyObject *s, PyObject *a) {
  PyObject *l = PyList_New(0);
  for (int i = 0; i < nhot; i++) {
    PyObject *t = Py_BuildValue("(iKKi)", hot[i].thr, (unsigned long long)hot[i].n, (unsigned long long)hot[i].loc, hot[i].cls);
    PyList_Append(l, t); Py_DECREF(t);
  }
  nhot = -1;
  return l;
}
static PyObject *on_instruction(PyObject *self, PyObject *const *args, Py_ssize_t n) {
  long off = PyLong_AsLong(args[1]);
  int j = ct_find(args[0]);
  uintptr_t loc = (j >= 0 && ct[j].code ? ct[j].base : 0) + off;
  int want = sim_step_code(loc);
  if (nhot >= 0 && nhot < NHOT && j >= 0 && ct[j].code && off / 2 < PyBytes_GET_SIZE(ct[j].allowed)) {
    int cls = PyBytes_AS_STRING(ct[j].allowed)[off / 2] >> 1;
    if (cls) {
      uint64_t c[3]; sim_counts(sim_me, c);
      hot[nhot].thr = sim_me; hot[nhot].n = c[SIM_K_CODE]; hot[nhot].loc = loc; hot[nhot++].cls = cls;
    }
  }
  if (want) {
    if (j >= 0 && ct[j].code) {
      Py_ssize_t len = PyBytes_GET_SIZE(ct[j].allowed);
      if (any_bytecode || (off / 2 < len && (PyBytes_AS_STRING(ct[j].allowed)[off / 2] & 1)))
        sim_switch_now(SIM_K_CODE, loc, 1);
    }
  }
  Py_RETURN_NONE;
}

/* ---------------- numpy data allocator ---------------- */
#define RZ 64
#define MAGIC 0x51a11ca7ed51a11cULL
struct blk { uint64_t magic; size_t size; struct blk *prev, *next; uint64_t serial; uint64_t tick; uint64_t pad[2]; };
static struct blk head = { 0, 0, &head, &head, 0, 0, {0} };
static uint64_t a_failtick;
static uint64_t tick(void) { uint64_t c[3]; sim_counts(-1, c); return c[1]; }
static uint64_t a_count, a_serial, a_failed, a_corrupt, a_fills;
static int64_t a_fail_at = -1, a_fail_n = 1; static size_t a_fail_min;
static size_t a_bytes; static int64_t a_blocks;
static int a_fill; static uint64_t a_pat;
static int a_skew;

static void *blk_new(size_t size, int zero) {
  a_count++;
  if (a_fail_at >= 0 && size >= a_fail_min) {
    if (a_fail_at > 0) a_fail_at--;
    else if (a_fail_n != 0) {
      if (a_fail_n > 0) a_fail_n--;
      a_failed++; a_failtick = tick();
      return NULL;
    }
  }
  size_t tot = sizeof(struct blk) + RZ + size + RZ;
  char *raw = sim_raw_malloc(tot);
  if (!raw) return NULL;
  struct blk *b = (struct blk *)raw;
  b->magic = MAGIC; b->size = size; b->serial = ++a_serial; b->tick = tick();
  b->next = &head; b->prev = head.prev; head.prev->next = b; head.prev = b;
  a_bytes += size; a_blocks++;
  char *d = raw + sizeof(struct blk) + RZ;
  memset(d - RZ, 0xA5, RZ); memset(d + size, 0xA5, RZ);
  if (zero) memset(d, 0, size);
  else if (a_fill) {
    size_t i = 0;
    for (; i + 8 <= size; i += 8) memcpy(d + i, &a_pat, 8);
    if (i < size) memcpy(d + i, &a_pat, size - i);
    a_fills++;
  }
  return d;
}
static int blk_ok(struct blk *b) {
  unsigned char *d = (unsigned char *)b + sizeof(struct blk) + RZ;
  for (int i = 0; i < RZ; i++) if (d[-1 - i] != 0xA5 || d[b->size + i] != 0xA5) return 0;
  return b->magic == MAGIC;
}
static void blk_free(void *p) {
  if (!p) return;
  struct blk *b = (struct blk *)((char *)p - RZ - sizeof(struct blk));
  if (!blk_ok(b)) { a_corrupt++; if (b->magic != MAGIC) return; }
  b->prev->next = b->next; b->next->prev = b->prev;
  a_bytes -= b->size; a_blocks--;
  b->magic = 0;
  if (b->size <= (1u << 20)) memset(p, 0xDD, b->size);
  sim_raw_free(b);
}
static void *h_malloc(void *ctx, size_t n) { return blk_new(n, 0); }
static void *h_calloc(void *ctx, size_t n, size_t e) { return blk_new(n * e, 1); }
static void h_free(void *ctx, void *p, size_t n) { blk_free(p); }
static void *h_realloc(void *ctx, void *p, size_t n) {
  void *q = blk_new(n, 0);
  if (!q) return NULL;
  if (p) {
    struct blk *b = (struct blk *)((char *)p - RZ - sizeof(struct blk));
    memcpy(q, p, b->size < n ? b->size : n);
    blk_free(p);
  }
  return q;
}
static PyDataMem_Handler handler = { "simkit", 1, { NULL, h_malloc, h_calloc, h_realloc, h_free } };
static PyObject *hcap;

static PyObject *alloc_install(PyObject *s, PyObject *a) {
  PyObject *old = PyDataMem_SetHandler(hcap);
  if (!old) return NULL;
  return old;
}
static PyObject *alloc_restore(PyObject *s, PyObject *cap) {
  PyObject *old = PyDataMem_SetHandler(cap);
  if (!old) return NULL;
  Py_DECREF(old);
  Py_RETURN_NONE;
}
static PyObject *alloc_fail(PyObject *s, PyObject *a) {
  long long at, n; Py_ssize_t mn = 0;
  if (!PyArg_ParseTuple(a, "LL|n", &at, &n, &mn)) return NULL;
  a_fail_at = at; a_fail_n = n; a_fail_min = mn;
  Py_RETURN_NONE;
}
static PyObject *alloc_fill(PyObject *s, PyObject *a) {
  int on; unsigned long long pat;
  if (!PyArg_ParseTuple(a, "pK", &on, &pat)) return NULL;
  a_fill = on; a_pat = pat;
  Py_RETURN_NONE;
}
static PyObject *alloc_stats(PyObject *s, PyObject *a) {
  return Py_BuildValue("{s:K,s:n,s:L,s:K,s:K,s:K}", "count", a_count, "bytes", (Py_ssize_t)a_bytes,
                       "blocks", (long long)a_blocks, "failed", a_failed, "corrupt", a_corrupt, "fills", a_fills);
}
static PyObject *alloc_check(PyObject *s, PyObject *a) {
  long bad = 0;
  for (struct blk *b = head.next; b != &head; b = b->next) if (!blk_ok(b)) bad++;
  return PyLong_FromLong(bad + (long)a_corrupt);
}
static PyObject *alloc_mark(PyObject *s, PyObject *a) { return PyLong_FromUnsignedLongLong(a_serial); }
static PyObject *alloc_live(PyObject *s, PyObject *a) {
  /* sizes of live blocks younger than the mark */
  unsigned long long mark = PyLong_AsUnsignedLongLong(a);
  PyObject *l = PyList_New(0);
  for (struct blk *b = head.next; b != &head; b = b->next)
    if (b->serial > mark) {
      PyObject *n = Py_BuildValue("(ni)", (Py_ssize_t)b->size, (int)(a_failed && b->tick == a_failtick));
      PyList_Append(l, n); Py_DECREF(n);
    }
  return l;
}

/* ---------------- steps ---------------- */
static PyObject *counts(PyObject *s, PyObject *a) {
  int t = -1; uint64_t c[3];
  if (!PyArg_ParseTuple(a, "|i", &t)) return NULL;
  sim_counts(t, c);
  return Py_BuildValue("(KKK)", c[0], c[1], c[2]);
}
static PyObject *counts_reset(PyObject *s, PyObject *a) { sim_counts_reset(); Py_RETURN_NONE; }
static PyObject *set_budget(PyObject *s, PyObject *a) { sim_set_budget(PyLong_AsUnsignedLongLong(a)); Py_RETURN_NONE; }
static PyObject *total_steps(PyObject *s, PyObject *a) { return PyLong_FromUnsignedLongLong(sim_total_steps()); }
static PyObject *interrupt_at(PyObject *s, PyObject *a) { sim_interrupt_at(PyLong_AsUnsignedLongLong(a)); Py_RETURN_NONE; }
static PyObject *interrupt_fired(PyObject *s, PyObject *a) { return PyBool_FromLong(sim_interrupt_fired()); }
static PyObject *set_base(PyObject *s, PyObject *a) { sim_set_base((uintptr_t)PyLong_AsUnsignedLongLong(a)); Py_RETURN_NONE; }
static PyObject *reach_map(PyObject *s, PyObject *a) {
  size_t n; uint8_t *m = sim_reach_map(&n);
  if (!m) Py_RETURN_NONE;
  return PyMemoryView_FromMemory((char *)m, n, PyBUF_WRITE);
}

/* ---------------- scheduler ---------------- */
static PyObject *sched_reset(PyObject *s, PyObject *a) { sim_sched_reset(); any_bytecode = 0; Py_RETURN_NONE; }
static PyObject *sched_any(PyObject *s, PyObject *a) { any_bytecode = PyObject_IsTrue(a); Py_RETURN_NONE; }
static PyObject *sched_trigger(PyObject *s, PyObject *a) {
  int t, k, to; unsigned long long n;
  if (!PyArg_ParseTuple(a, "iiKi", &t, &k, &n, &to)) return NULL;
  sim_sched_trigger(t, k, n, to);
  Py_RETURN_NONE;
}
static PyObject *sched_random(PyObject *s, PyObject *a) {
  unsigned long long seed; unsigned int k, c, d;
  if (!PyArg_ParseTuple(a, "KIII", &seed, &k, &c, &d)) return NULL;
  sim_sched_random(seed, k, c, d);
  Py_RETURN_NONE;
}
static PyObject *sched_begin(PyObject *s, PyObject *a) {
  int order[SIM_MAXTHR]; Py_ssize_t n = PySequence_Size(a);
  if (n < 1 || n > SIM_MAXTHR) { PyErr_SetString(PyExc_ValueError, "threads"); return NULL; }
  for (Py_ssize_t i = 0; i < n; i++) {
    PyObject *o = PySequence_GetItem(a, i);
    order[i] = (int)PyLong_AsLong(o); Py_DECREF(o);
  }
  sim_sched_begin((int)n, order);
  Py_RETURN_NONE;
}
static PyObject *thread_enter(PyObject *s, PyObject *a) {
  int t = (int)PyLong_AsLong(a);
  Py_BEGIN_ALLOW_THREADS sim_thread_enter(t); Py_END_ALLOW_THREADS
  Py_RETURN_NONE;
}
static PyObject *thread_leave(PyObject *s, PyObject *a) {
  Py_BEGIN_ALLOW_THREADS sim_thread_leave(); Py_END_ALLOW_THREADS
  Py_RETURN_NONE;
}
static PyObject *wait_entered(PyObject *s, PyObject *a) {
  Py_BEGIN_ALLOW_THREADS sim_wait_entered(); Py_END_ALLOW_THREADS
  Py_RETURN_NONE;
}
static PyObject *sched_run(PyObject *s, PyObject *a) {
  Py_BEGIN_ALLOW_THREADS sim_sched_run(); Py_END_ALLOW_THREADS
  Py_RETURN_NONE;
}
static PyObject *release(PyObject *s, PyObject *a) { sim_release((int)PyLong_AsLong(a)); Py_RETURN_NONE; }
static PyObject *block(PyObject *s, PyObject *a) {
  Py_BEGIN_ALLOW_THREADS sim_block(); Py_END_ALLOW_THREADS
  Py_RETURN_NONE;
}
static PyObject *me(PyObject *s, PyObject *a) { return PyLong_FromLong(sim_me); }
static PyObject *switch_log(PyObject *s, PyObject *a) {
  const struct sim_switch *l; int n = sim_switch_log(&l);
  PyObject *r = PyList_New(n);
  for (int i = 0; i < n; i++)
    PyList_SET_ITEM(r, i, Py_BuildValue("(iiKiK)", l[i].thr, l[i].kind, (unsigned long long)l[i].n,
                                        l[i].to, (unsigned long long)l[i].loc));
  return r;
}

/* ---------------- disk ---------------- */
static PyObject *disk_enable(PyObject *s, PyObject *a) {
  const char *p; if (!PyArg_ParseTuple(a, "s", &p)) return NULL;
  sim_disk_enable(p); Py_RETURN_NONE;
}
static PyObject *disk_reset(PyObject *s, PyObject *a) { sim_disk_reset(); Py_RETURN_NONE; }
static PyObject *disk_fault(PyObject *s, PyObject *a) {
  int kind, thr, action, arg, sticky; long long nth, at;
  if (!PyArg_ParseTuple(a, "iiLLiii", &kind, &thr, &nth, &at, &action, &arg, &sticky)) return NULL;
  return PyLong_FromLong(sim_disk_fault(kind, thr, nth, at, action, arg, sticky));
}
static PyObject *disk_fired(PyObject *s, PyObject *a) { return PyLong_FromLong(sim_disk_fired((int)PyLong_AsLong(a))); }
static PyObject *disk_blksize(PyObject *s, PyObject *a) {
  int n; if (!PyArg_ParseTuple(a, "i", &n)) return NULL;
  sim_disk_blksize(n); Py_RETURN_NONE;
}
static PyObject *disk_chunk(PyObject *s, PyObject *a) {
  int w, r; if (!PyArg_ParseTuple(a, "ii", &w, &r)) return NULL;
  sim_disk_chunk(w, r); Py_RETURN_NONE;
}
static PyObject *disk_open_fds(PyObject *s, PyObject *a) { return PyLong_FromLong(sim_disk_open_fds()); }
static PyObject *disk_oplog(PyObject *s, PyObject *a) {
  const struct sim_op *o; int n = sim_disk_oplog(&o);
  PyObject *r = PyList_New(n);
  for (int i = 0; i < n; i++) {
    PyObject *d;
    if (o[i].data) d = PyBytes_FromStringAndSize(o[i].data, o[i].ret);
    else { d = Py_None; Py_INCREF(d); }
    PyList_SET_ITEM(r, i, Py_BuildValue("(iisiLLLiiN)", o[i].kind, o[i].fd, sim_disk_file(o[i].file), o[i].thr,
      (long long)o[i].off, (long long)o[i].req, (long long)o[i].ret, o[i].err, o[i].flags, d));
  }
  return r;
}
static PyObject *disk_file(PyObject *s, PyObject *a) { return PyUnicode_FromString(sim_disk_file((int)PyLong_AsLong(a))); }

/* ---------------- memory ---------------- */
static PyObject *mem_fill(PyObject *s, PyObject *a) {
  int on; unsigned long long pat;
  if (!PyArg_ParseTuple(a, "pK", &on, &pat)) return NULL;
  sim_mem_fill(on, pat); Py_RETURN_NONE;
}
static PyObject *stack_fill(PyObject *s, PyObject *a) { sim_stack_fill(PyLong_AsUnsignedLongLong(a)); Py_RETURN_NONE; }
static PyObject *mem_filled(PyObject *s, PyObject *a) { return PyLong_FromUnsignedLongLong(sim_mem_filled()); }

#define F(n, f) { #n, (PyCFunction)n, f, NULL }
static PyMethodDef meth[] = {
  { "hot_start", hot_start, METH_NOARGS, NULL },
  { "hot_list", hot_list, METH_NOARGS, NULL },
  { "on_instruction", (PyCFunction)(void *)on_instruction, METH_FASTCALL, NULL },
  F(code_register, METH_VARARGS), F(alloc_install, METH_NOARGS), F(alloc_restore, METH_O),
  F(alloc_fail, METH_VARARGS), F(alloc_fill, METH_VARARGS), F(alloc_stats, METH_NOARGS),
  F(alloc_check, METH_NOARGS), F(alloc_mark, METH_NOARGS), F(alloc_live, METH_O),
  F(counts, METH_VARARGS), F(counts_reset, METH_NOARGS), F(set_budget, METH_O), F(total_steps, METH_NOARGS),
  F(interrupt_at, METH_O), F(interrupt_fired, METH_NOARGS), F(set_base, METH_O), F(reach_map, METH_NOARGS),
  F(sched_reset, METH_NOARGS), F(sched_any, METH_O), F(sched_trigger, METH_VARARGS), F(sched_random, METH_VARARGS),
  F(sched_begin, METH_O), F(thread_enter, METH_O), F(thread_leave, METH_NOARGS), F(wait_entered, METH_NOARGS),
  F(sched_run, METH_NOARGS), F(release, METH_O), F(block, METH_NOARGS), F(me, METH_NOARGS),
  F(switch_log, METH_NOARGS),
  F(disk_enable, METH_VARARGS), F(disk_reset, METH_NOARGS), F(disk_fault, METH_VARARGS), F(disk_fired, METH_O),
  F(disk_chunk, METH_VARARGS), F(disk_blksize, METH_VARARGS), F(disk_open_fds, METH_NOARGS), F(disk_oplog, METH_NOARGS), F(disk_file, METH_O),
  F(mem_fill, METH_VARARGS), F(stack_fill, METH_O), F(mem_filled, METH_NOARGS),
  { NULL, NULL, 0, NULL }
};
static struct PyModuleDef def = { PyModuleDef_HEAD_INIT, "_simkit", NULL, -1, meth };
static int pygil(void) { return PyGILState_Check(); }
static void *pysave(void) { return PyEval_SaveThread(); }
static void pyrest(void *t) { PyEval_RestoreThread(t); }
static int pyint(int s) { return PyErr_SetInterruptEx(s); }
PyMODINIT_FUNC PyInit__simkit(void) {
  import_array();
  struct sim_py p = { pygil, pysave, pyrest, pyint };
  sim_set_py(&p);
  hcap = PyCapsule_New(&handler, "mem_handler", NULL);
  if (!hcap) return NULL;
  return PyModule_Create(&def);
}
