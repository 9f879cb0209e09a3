"""Inside the simulated process: loading the code under test behind the seams,
fault injection, threads, and the result of one run."""
import importlib.util
import sys, os, re, json, time, types, hashlib, mmap, random, struct, contextlib, traceback, gc, signal, pickle, dis, resource, shutil

K_KERNEL, K_CODE, K_DISK = 0, 1, 2
OPS = ['open', 'read', 'write', 'seek', 'close', 'dup', 'stat', 'trunc', 'sync', 'rename', 'unlink']
OPEN, READ, WRITE, SEEK, CLOSE, DUP, STAT, TRUNC, SYNC, RENAME, UNLINK = range(11)
F_ERRNO, F_SHORT, F_SIGINT, F_EOF, F_LOSS = 1, 2, 3, 4, 5

np = None
kit = None
ig = types.SimpleNamespace()
_note = None
SCRATCH = None
CODE_LOC = {}          # location base -> (module, qualname, first line)


# ---------------------------------------------------------------- loading

def last_note():
    if _note is None:
        return None
    n = struct.unpack('I', _note[:4])[0]
    return json.loads(_note[4:4 + n]) if n else None


def note(obj):
    b = json.dumps(obj).encode()
    if len(b) > len(_note) - 4:
        b = json.dumps({'note': 'too long'}).encode()
    _note[:4] = struct.pack('I', len(b))
    _note[4:4 + len(b)] = b


def clear_note():
    _note[:4] = struct.pack('I', 0)


class SimLock:
    """Lock objects created by igakit: waiting hands the baton on instead of blocking."""
    def __init__(self, real):
        self._real = real

    def acquire(self, blocking=True, timeout=-1):
        while True:
            if self._real.acquire(False):
                return True
            if not blocking or timeout == 0:
                return False
            kit.block()

    def release(self):
        self._real.release()

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def _patch_locks():
    import threading
    real_lock, real_rlock = threading.Lock, threading.RLock

    def mk(real):
        def make(*a, **k):
            g = sys._getframe(1).f_globals.get('__name__', '')
            o = real(*a, **k)
            return SimLock(o) if g.split('.')[0] == 'igakit' else o
        return make
    threading.Lock = mk(real_lock)
    threading.RLock = mk(real_rlock)


_next_base = 0
STORES = {'STORE_ATTR': 1, 'DELETE_ATTR': 1, 'STORE_GLOBAL': 1, 'DELETE_GLOBAL': 1, 'STORE_DEREF': 1,
          'STORE_SUBSCR': 2, 'STORE_SLICE': 2, 'DELETE_SUBSCR': 2}


def _register(code, modname):
    """Give every bytecode a location and say where CPython may really switch threads."""
    global _next_base
    ins = list(dis.get_instructions(code, show_caches=False))
    n = len(code.co_code) // 2
    allowed = bytearray(n)
    prev_call = False
    targets = set()
    for i in ins:
        if i.opname.startswith('JUMP_BACKWARD'):
            targets.add(i.argval)
    stored = 0
    for i in ins:
        if prev_call or i.offset in targets:
            allowed[i.offset // 2] |= 1
        allowed[i.offset // 2] |= stored << 1      # points just after a store
        prev_call = i.opname.startswith(('CALL', 'RESUME'))
        stored = STORES.get(i.opname, 0)
    base = _next_base
    _next_base += len(code.co_code)
    CODE_LOC[base] = (modname, code.co_qualname, code.co_firstlineno)
    kit.code_register(code, base, bytes(allowed))
    sys.monitoring.set_local_events(3, code, sys.monitoring.events.INSTRUCTION)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _register(c, modname)


class _Finder:
    """Imports igakit's Python modules through compile() so that the simulator
    sees every code object."""
    def __init__(self, root):
        self.root = root

    def find_spec(self, name, path=None, target=None):

        if name != 'igakit' and not name.startswith('igakit.'):
            return None
        rel = name.replace('.', '/')
        for f, pkg in ((rel + '/__init__.py', True), (rel + '.py', False)):
            p = os.path.join(self.root, f)
            if os.path.exists(p):
                return importlib.util.spec_from_file_location(
                    name, p, loader=_Loader(name, p),
                    submodule_search_locations=[os.path.dirname(p)] if pkg else None)
        return None


_compiled = {}


class _Loader:
    def __init__(self, name, path):
        self.name, self.path = name, path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = _compiled.get(self.path)
        if code is None:
            with open(self.path, 'rb') as fh:
                src = fh.read()
            code = compile(src, self.path, 'exec', dont_inherit=True)
            for c in code.co_consts:
                if isinstance(c, types.CodeType):
                    _register(c, self.name)
            _compiled[self.path] = code
        exec(code, module.__dict__)


def load(cfg):
    global np, kit, _note
    _note = mmap.mmap(-1, 1 << 22)
    import numpy
    np = numpy
    import numpy.linalg, numpy.lib.recfunctions  # noqa: resolve lazy parts now
    import _simkit
    kit = _simkit
    sys.setswitchinterval(1000)
    _patch_locks()
    sys.meta_path.insert(0, _Finder(cfg['pkg']))
    sys.monitoring.use_tool_id(3, 'igasim')
    sys.monitoring.register_callback(3, sys.monitoring.events.INSTRUCTION, kit.on_instruction)
    kit.reach_map()
    import igakit, igakit.igalib
    with open('/proc/self/maps') as fh:
        for line in fh:
            if 'igalib' in line:
                kit.set_base(int(line.split('-')[0], 16))
                break
    import igakit.nurbs, igakit.cad, igakit.io, igakit.transform, igakit.plot
    ig.NURBS = igakit.nurbs.NURBS
    ig.nurbs, ig.cad, ig.io, ig.plot = igakit.nurbs, igakit.cad, igakit.io, igakit.plot
    ig.transform = igakit.transform.transform
    ig.igalib = igakit.igalib
    np.seterr(all='ignore')
    import geo, opset, props          # noqa: workloads
    props.preload(cfg)
    np.linalg.inv(np.eye(3)); np.array2string(np.zeros(2))


# ---------------------------------------------------------------- run context

_thr_steps = [0, 0, 0]
KNOWN_FINDINGS = []       # (class, message pattern, short name), see known_findings.json


class Fail(Exception):
    pass


class Ctx:
    def __init__(self, plan, scratch):
        self.plan = plan
        self.scratch = scratch
        self.known = KNOWN_FINDINGS
        self.viol = []
        self.faults = {}
        self.probes = {}
        self.inter = set()
        self.runs = 0
        self.nontrivial = 0
        self.steps = [0, 0, 0]
        self.h = hashlib.sha256()
        self.trace = []

    def fail(self, cls, msg, repro=None):
        for c, m, t in self.known:
            if c == cls and re.search(m, str(msg)):
                self.probe('known finding: ' + t)
                return
        self.viol.append({'cls': cls, 'msg': str(msg)[:1500], 'plan': repro if repro is not None else self.plan})
        self.event('VIOLATION', cls)
        if len(self.viol) >= 3:
            raise Fail()

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def event(self, *a):
        s = repr(a)
        self.h.update(s.encode())
        if len(self.trace) < 400:
            self.trace.append(s[:300])

    def run_done(self, key=None, nontrivial=False):
        """one simulated execution is over; key identifies its interleaving/fault trace"""
        self.runs += 1
        if nontrivial:
            self.nontrivial += 1
        if key is not None:
            self.inter.add(hashlib.sha256(repr(key).encode()).hexdigest()[:12])
        c = kit.counts()
        for i in range(3):
            self.steps[i] += c[i] + _thr_steps[i]
            _thr_steps[i] = 0
        kit.counts_reset()

    # state carried between forked parts of a run
    def dump(self):
        return {'viol': self.viol, 'faults': self.faults, 'probes': self.probes, 'inter': self.inter, 'runs': self.runs,
                'nontrivial': self.nontrivial, 'steps': self.steps, 'trace': self.trace, 'dig': self.h.hexdigest()}

    def merge(self, d):
        for k, n in d['faults'].items():
            self.fault(k, n)
        for k, n in d['probes'].items():
            self.probe(k, n)
        self.inter |= d['inter']
        self.runs += d['runs']
        self.nontrivial += d['nontrivial']
        self.steps = [a + b for a, b in zip(self.steps, d['steps'])]
        self.trace = (self.trace + d['trace'])[:400]
        self.h.update(d['dig'].encode())
        self.viol += d['viol']
        if len(self.viol) >= 3:
            raise Fail()

    def fork(self, fn):
        """Run fn(sub-context) in a forked copy of this process, so that nothing it
        does (caches, tables, leftovers) reaches later parts.  -> fn's value"""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 98
            try:
                os.close(r)
                sub = Ctx(self.plan, self.scratch)
                kit.counts_reset()
                try:
                    val, err = fn(sub), None
                except Fail:
                    val, err = None, None
                except BaseException as e:
                    val, err = None, ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-5000:]
                data = pickle.dumps((val, err, sub.dump()))
                while data:
                    n = os.write(w, data)
                    data = data[n:]
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        buf = []
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf.append(b)
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if st != 0:
            if os.WIFSIGNALED(st):       # die the same way: the zygote reports it
                signal.signal(os.WTERMSIG(st), signal.SIG_DFL) if os.WTERMSIG(st) != 9 else None
                os.kill(os.getpid(), os.WTERMSIG(st))
            os._exit(os.WEXITSTATUS(st))
        if not buf:                      # ended by exit(0), as STOP does
            os._exit(0)
        val, err, d = pickle.loads(b''.join(buf))
        if err:
            raise RuntimeError('in forked part:\n' + err)
        self.merge(d)
        return val

    def result(self):
        return {'viol': self.viol, 'faults': self.faults, 'probes': self.probes,
                'inter': sorted(self.inter), 'runs': self.runs, 'nontrivial': self.nontrivial,
                'steps': self.steps, 'digest': self.h.hexdigest()[:20]}


def execute(req):
    import props
    scratch = req['scratch']
    os.makedirs(scratch, exist_ok=True)
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = props.get(req['prop'])
    if req.get('op') == 'shrink':
        return {'cands': list(p.shrink(req['plan']))}
    if req.get('op') == 'reach':
        m = kit.reach_map()
        return {'kernel': sum(m[:0x80000]), 'code': sum(m[0x80000:])}
    plan = req.get('plan')
    if plan is None:
        plan = p.gen(random.Random(req['seed']), req['tier'])
    KNOWN_FINDINGS[:] = req.get('known') or []
    ctx = Ctx(plan, scratch)
    clear_note()
    kit.counts_reset()
    try:
        p.run(plan, ctx)
    except Fail:
        pass
    out = ctx.result()
    out['sample'] = plan if req.get('want_plan') else None
    if req.get('want_trace'):
        out['trace'] = ctx.trace
        out['plan'] = plan
    clear_note()
    return out


# ---------------------------------------------------------------- fault helpers

@contextlib.contextmanager
def clean():
    """Everything inside runs without faults (oracle work)."""
    yield


def call(fn, *a, **k):
    """-> ('ok', value) or ('exc', exception)"""
    try:
        return 'ok', fn(*a, **k)
    except (Exception, KeyboardInterrupt) as e:
        return 'exc', e


def _noop():
    for _ in range(8):
        pass


def with_interrupt(n, fn):
    """Run fn with a keyboard interrupt raised by the interpreter at the first
    point after n bytecodes of igakit at which CPython delivers signals.
    -> (outcome, value, delivered) - delivered is False if fn had already ended."""
    kit.interrupt_at(n)
    try:
        st, v = call(fn)
        late = False
        _noop()
    except KeyboardInterrupt:
        st, v, late = 'late', None, True
    finally:
        kit.interrupt_at(0)
    return st, v, kit.interrupt_fired()


def with_allocfail(at, n, fn, mn=0):
    """Run fn with the at-th .. (at+n-1)-th array allocation failing."""
    before = kit.alloc_stats()['failed']
    kit.alloc_fail(at, n, mn)
    try:
        st, v = call(fn)
    finally:
        kit.alloc_fail(-1, 0)
    return st, v, kit.alloc_stats()['failed'] - before


# ---------------------------------------------------------------- threads

def run_threads(funcs, order, triggers=(), walk=None, budget=0, anywhere=False):
    """Run funcs as threads under the simulator's scheduler.
    triggers: (thr, kind, n, to); walk: (seed, pk, pc, pd).
    anywhere: switch between any two bytecodes of igakit, not only where
    CPython 3.12 looks at its eval breaker.
    -> (results, switch log) with results[i] = ('ok'|'exc', value)."""
    import threading
    n = len(funcs)
    kit.sched_reset()
    kit.sched_any(anywhere)
    for t in triggers:
        kit.sched_trigger(*t[:4])
    if walk:
        kit.sched_random(*walk)
    kit.sched_begin(list(order))
    res = [None] * n

    def body(i):
        kit.thread_enter(i)
        try:
            res[i] = call(funcs[i])
        finally:
            kit.thread_leave()
    ths = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
    for t in ths:
        t.start()
        kit.wait_entered()
    if budget:
        kit.set_budget(budget)
    kit.sched_run()
    kit.set_budget(0)
    for i, t in enumerate(ths):
        kit.release(i)
        t.join()
    for i in range(n):
        for k, c in enumerate(kit.counts(i)):
            _thr_steps[k] += c
    return res, kit.switch_log()


def thread_counts(n):
    return [kit.counts(i) for i in range(n)]


def stores(fn):
    """Run fn and list the points just after its stores to objects, globals and
    items: {thread: {class: [[step, ...] per place in the code]}}"""
    kit.hot_start()
    try:
        r = fn()
    finally:
        l = kit.hot_list()
    out = {}
    for thr, n, loc, cls in l:          # thr -1: not under the scheduler
        out.setdefault(thr, {}).setdefault(cls, {}).setdefault(loc, []).append(n)
    return r, {t: {c: list(d.values()) for c, d in x.items()} for t, x in out.items()}


def pick_store(rng, places):
    """A step just after a store; places in the code count alike, however often they run."""
    if not places:
        return None
    c = 1 if 1 in places and (2 not in places or rng.random() < 0.6) else min(places) if len(places) == 1 else 2
    return rng.choice(rng.choice(places[c]))
