"""S06, T01, T02, T03: threads under the simulator's scheduler."""
import os, random, json, gc, sys, types
import core, geo, opset, iokit, p_io
from core import *
from iokit import *

BUDGET = 60


# ---------------------------------------------------------------- schedules

def gen_schedules(rng, counts, n, kinds=(K_KERNEL, K_CODE), hot=None):
    """Random schedules for threads with the given step counts, some of them
    aimed at the points just after a store (hot)."""
    nt = len(counts)
    out = []
    for i in range(n):
        order = list(range(nt))
        rng.shuffle(order)
        if rng.random() < 0.25:
            tot = [max(1, sum(c[k] for c in counts)) for k in range(3)]
            want = rng.choice([3, 10, 40, 150])
            p = [min(1 << 19, int((1 << 20) * want / tot[k])) if k in kinds else 0 for k in range(3)]
            if rng.random() < 0.4:                 # only one kind of point
                keep = rng.choice(list(kinds))
                p = [p[k] if k == keep else 0 for k in range(3)]
            out.append({'order': order, 'trig': [], 'walk': [rng.randint(1, 1 << 40)] + p, 'any': rng.random() < 0.5})
            continue
        trig = []
        if hot and max(hot) >= 0 and nt > 1 and rng.random() < 0.35:
            for _ in range(rng.choice([1, 1, 2, 3])):
                a = rng.choice([t for t in sorted(hot) if t >= 0])
                trig.append([a, K_CODE, pick_store(rng, hot[a]), rng.choice([x for x in range(nt) if x != a])])
            out.append({'order': order, 'trig': trig, 'walk': None, 'any': rng.random() < 0.85})
            continue
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 6])):
            a = rng.randrange(nt)
            ks = [k for k in kinds if counts[a][k]]
            if not ks or nt < 2:
                continue
            k = rng.choice(ks)
            b = rng.choice([x for x in range(nt) if x != a])
            trig.append([a, k, rng.randint(1, counts[a][k]), b])
        out.append({'order': order, 'trig': trig, 'walk': None, 'any': rng.random() < 0.6})
    return out


def schedules(plan, counts, kinds, hot=None):
    s = plan['sched']
    if isinstance(s, list):
        return s
    return gen_schedules(random.Random(s['seed']), counts, s['n'], kinds, hot)


def fixed(plan, sch, log):
    """The executed schedule as explicit switches: replays exactly."""
    return dict(plan, sched=[{'order': sch['order'], 'trig': [[t, k, n, to] for (t, k, n, to, loc) in log], 'walk': None, 'any': sch.get('any', False)}])


def shrink_sched(plan, threads='threads'):
    s = plan['sched']
    if isinstance(s, list) and len(s) == 1:
        tr = s[0]['trig']
        if len(tr) > 3:
            h = len(tr) // 2
            yield dict(plan, sched=[dict(s[0], trig=tr[:h])])
            yield dict(plan, sched=[dict(s[0], trig=tr[h:])])
        for i in range(len(tr) if len(tr) <= 24 else 0):
            yield dict(plan, sched=[dict(s[0], trig=tr[:i] + tr[i + 1:])])
    auto = {'seed': 7, 'n': 40}
    ths = plan[threads]
    if len(ths) > 2:
        for i in range(len(ths)):
            yield dict(plan, **{threads: ths[:i] + ths[i + 1:], 'sched': auto})
    for i in range(len(ths)):
        if isinstance(ths[i], list) and len(ths[i]) > 1:
            for j in range(len(ths[i])):
                yield dict(plan, **{threads: ths[:i] + [ths[i][:j] + ths[i][j + 1:]] + ths[i + 1:], 'sched': auto})


def run_all(plan, ctx, make, kinds, judge, walls=None):
    """make(sub) -> (funcs, after) with fresh shared state.
    First the threads one after another on their own, then every schedule, each
    in its own forked copy of the process."""
    def solo(sub):
        # reference: each thread's work alone, on its own state
        n = len(plan['threads'])
        ref = []
        for i in range(n):
            ref.append(sub.fork(lambda s2, i=i: one_alone(make, i)))
        return ref

    def one_alone(make, i):
        funcs, after = make()
        r = funcs[i]()
        return r, after()

    def counts_of(sub):
        funcs, after = make()
        (res, log), hot = stores(lambda: run_threads(funcs, list(range(len(funcs)))))
        c = thread_counts(len(funcs))
        return [r for r in res], after(), c, hot
    ref = ctx.fork(solo)
    if ref is None:
        return
    got, aft, counts, hot = ctx.fork(counts_of)
    budget = BUDGET * sum(sum(c) for c in counts) + 1000000
    judge(ctx, plan, ref, got, aft, [], dict(plan, sched=[{'order': list(range(len(ref))), 'trig': [], 'walk': None}]))
    ctx.runs += 1
    for sch in schedules(plan, counts, kinds, hot):
        note({'plan': dict(plan, sched=[sch])})

        def body(sub, sch=sch):
            funcs, after = make()
            res, log = run_threads(funcs, sch['order'], sch['trig'], sch['walk'], budget, sch.get('any', False))
            aft = after()
            repro = fixed(plan, sch, log)
            for t in log:
                sub.fault('thread switch ' + ('inside a kernel', 'between bytecodes', 'at a disk operation')[t[1]])
            sub.event('sched', log)
            sub.run_done((sch['order'], [t[:4] for t in log]), len(log) > 0)
            judge(sub, plan, ref, res, aft, log, repro)
        ctx.fork(body)


# ---------------------------------------------------------------- T01

NEWQ = ['slice', 'extract', 'boundary', 'copy', 'clone']
PLOTS = ['curve', 'surface', 'plot', 'kplot', 'cplot', 'kwire', 'ksurf', 'cwire', 'cpoint', 'kpoint']


class Recorder(types.ModuleType):
    """Stand-in drawing backend: keeps what it is asked to draw."""
    def __init__(self):
        super().__init__('igakit.plot_nul')
        self.calls = []
        self._resolution = {1: 9, 2: 4}

    def _rec(self, name):
        def f(*a, **k):
            self.calls.append((name, geo.enc(list(a)), geo.enc({x: y for x, y in k.items()})))
            return None
        return f

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return self._rec(name)


def recorder_plotter():
    """A plotter whose 'nul' backend is the recorder."""
    rec = sys.modules.get('igakit.plot_nul')
    if isinstance(rec, Recorder):
        rec.calls.clear()
    else:
        rec = Recorder()
    sys.modules['igakit.plot_nul'] = rec
    import igakit
    igakit.plot_nul = rec
    pl = core.ig.plot.plotter            # the one every user shares
    pl.use('nul')
    return pl, rec


class _Tagged(Recorder):
    """records per calling thread"""
    def _rec(self, name):
        def f(*a, **k):
            me = kit_me()
            self.calls.append((me, name, geo.enc(list(a)), geo.enc(k)))
        return f


def kit_me():
    return core.kit.me()


def gen_t01(rng, tier):
    spec = geo.gen(rng, maxp=(4, 3, 2), maxspans=(4, 3, 2), maxctl=(12, 30, 40))
    dim = len(spec['shape'])
    nt = rng.choice([2, 2, 2, 3])
    ths = []
    for _ in range(nt):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            r = rng.random()
            if r < 0.7:
                ops.append(opset.gen_query(rng, dim))
            elif r < 0.9:
                ops.append(opset.gen_new(rng, spec, NEWQ))
            else:
                ops.append({'op': 'draw', 'a': {'what': rng.choice(PLOTS)}})
        ths.append(ops)
    r = rng.random()
    if r < 0.3:
        ths[1] = ths[0]
    elif r < 0.5:                         # the same kinds of calls with other arguments
        ths[1] = [opset.gen_query(rng, dim, [o['op']]) if o['op'] in opset.QUERIES else
                  opset.gen_new(rng, spec, [o['op']]) if o['op'] in NEWQ else {'op': 'draw', 'a': {'what': rng.choice(PLOTS)}} for o in ths[0]]
    return {'spec': spec, 'threads': ths, 'sched': {'seed': rng.randint(0, 2 ** 40), 'n': 14 if tier == 'quick' else 50},
            'share_args': rng.random() < 0.3}


class T01:
    gen = staticmethod(gen_t01)
    shrink = staticmethod(lambda plan: shrink_t(plan))

    @staticmethod
    def run(plan, ctx):
        def make():
            g = geo.build(plan['spec'])
            rec = _Tagged()
            sys.modules['igakit.plot_nul'] = rec
            sys.modules['igakit'].plot_nul = rec
            pl = core.ig.plot.Plotter()
            pl.use('nul')
            cache = {}

            def prep(op):
                if op['op'] == 'draw':
                    return lambda: drawn(op['a']['what'])
                if not plan.get('share_args'):
                    return opset.prep(g, op)
                k = json.dumps(op, sort_keys=True)
                if k not in cache:
                    cache[k] = opset.prep(g, op)
                return cache[k]

            def drawn(what):
                me = core.kit.me()
                n = len([c for c in rec.calls if c[0] == me])
                getattr(pl, what)(g)
                return [repr(c[1:]) for c in list(rec.calls) if c[0] == me][n:]
            calls = [[prep(op) for op in t] for t in plan['threads']]

            def thread(cs):
                def f():
                    out = []
                    for c in cs:
                        st, v = call(c)
                        out.append((st, geo.dig(v), geo.brief(v)))
                        v = None
                    return out
                return f

            def after():
                return geo.dig(geo.obs(g)), None
            return [thread(c) for c in calls], after
        run_all(plan, ctx, make, (K_KERNEL, K_CODE), judge_t)


def judge_t(ctx, plan, ref, res, aft, log, repro):
    for i, r in enumerate(res):
        want = ref[i][0]
        if r[0] != 'ok':
            ctx.fail('thread-died', 'thread %d ended with %r' % (i, r[1]), repro)
            continue
        ctx.event('res', i, [x[:2] for x in r[1]])
        for j, (a, b) in enumerate(zip(r[1], want)):
            if a[:2] != b[:2]:
                ctx.fail('wrong-result', 'thread %d call %d (%s): %s %s; alone: %s %s; switches %s' % (
                    i, j, opname(plan, i, j), a[0], a[2], b[0], b[2], [t[:4] for t in log][:8]), repro)
                break
    want = ref[0][1]
    if aft[0] != want[0]:
        ctx.fail('shared-changed', 'the shared geometry is different after the threads ended', repro)


def opname(plan, i, j):
    t = plan['threads'][i]
    if isinstance(t, dict):
        t = t['ops']
    try:
        return t[j]['op']
    except (IndexError, KeyError, TypeError):
        return 'step %d' % j


def shrink_t(plan):
    for q in shrink_sched(plan):
        yield q
    for k in ('spec',):
        if k in plan:
            for s in geo.shrink_spec(plan[k]):
                yield dict(plan, spec=s, sched={'seed': 7, 'n': 40})


# ---------------------------------------------------------------- T02

T02_FREE = ['line', 'circle', 'circle', 'linear', 'bilinear', 'trilinear', 'grid', 'NURBS', 'transformation', 'coons']


def gen_t02(rng, tier):
    spec = geo.gen(rng, dim=rng.choice([1, 1, 2, 2, 3]), maxp=(3, 2, 2), maxspans=(3, 2, 2), maxctl=(9, 20, 30))
    dim = len(spec['shape'])
    second = opset.mate(rng, spec)
    nt = rng.choice([2, 2, 3])

    def new(names=None):
        op = opset.gen_new(rng, spec, names)
        a = dict(op['a'])
        if 'g' in a and op['op'] != 'sweep':
            a['g'] = 'second'
        if 'gs' in a:
            a['gs'] = ['second'] * len(a['gs'])
        return {'op': op['op'], 'a': a}
    ths = []
    for _ in range(nt):
        ops = []
        if rng.random() < 0.6:
            start = rng.choice(['clone', 'clone', 'copy'])
            for _ in range(rng.choice([1, 1, 2, 3])):
                ops.append(opset.gen_edit(rng, dim))
            if rng.random() < 0.3:
                ops.append(opset.gen_query(rng, dim))
        else:
            start = rng.choice(['shared', 'shared', 'other'])
            ops.append(new())
            for _ in range(rng.choice([0, 0, 1, 2])):
                ops.insert(rng.randint(0, len(ops)), opset.gen_free(rng, T02_FREE))
        ths.append({'start': start, 'ops': ops})
    r = rng.random()
    if r < 0.25:
        ths[1] = ths[0]
    elif r < 0.4:
        # all of them make the same kind of thing from other numbers
        n = rng.choice(T02_FREE)
        for t in ths:
            t.update(start='shared', ops=[opset.gen_free(rng, [n]) for _ in range(rng.choice([1, 1, 2]))])
    elif r < (0.8 if ths[0]['start'] in ('shared', 'other') else 0.55):
        # the same kind of operation with other arguments
        k = ths[0]['ops'][0]['op']
        for t in ths[1:]:
            if k in opset.EDITS:
                t.update(start=ths[0]['start'], ops=[opset.gen_edit(rng, dim, [k])])
            elif k in opset.FREE:
                t.update(start='shared', ops=[opset.gen_free(rng, [k])])
            else:
                # from the same geometries in other roles, or with other arguments
                ops = [json.loads(json.dumps(ths[0]['ops'][0]))] if rng.random() < 0.4 else [new([k])]
                t.update(start='other' if ths[0]['start'] == 'shared' else 'shared', ops=ops + [x for x in t['ops'][1:] if x['op'] in opset.FREE])
    return {'spec': spec, 'second': second, 'threads': ths, 'sched': {'seed': rng.randint(0, 2 ** 40), 'n': 14 if tier == 'quick' else 50}}


class T02:
    gen = staticmethod(gen_t02)

    @staticmethod
    def shrink(plan):
        for q in shrink_sched(plan):
            yield q
        for i, t in enumerate(plan['threads']):
            if len(t['ops']) > 1:
                for j in range(len(t['ops'])):
                    ths = list(plan['threads'])
                    ths[i] = dict(t, ops=t['ops'][:j] + t['ops'][j + 1:])
                    yield dict(plan, threads=ths, sched={'seed': 7, 'n': 40})
        for s in geo.shrink_spec(plan['spec']):
            if s['nf'] == plan['second']['nf']:
                yield dict(plan, spec=s, sched={'seed': 7, 'n': 40})

    @staticmethod
    def run(plan, ctx):
        def make():
            g = geo.build(plan['spec'])
            h = geo.build(plan['second'])

            def thread(t):
                def f():
                    cur = g if t['start'] == 'shared' else h if t['start'] == 'other' else getattr(g, t['start'])()
                    mate = g if t['start'] == 'other' else h
                    out = []
                    for op in t['ops']:
                        a = dict(op['a'])
                        if a.get('g') == 'second':
                            a['g'] = mate
                        if a.get('gs') and a['gs'][0] == 'second':
                            a['gs'] = [mate] * len(a['gs'])
                        st, c = call(opset.prep, cur, {'op': op['op'], 'a': a})
                        if st == 'ok':
                            st, v = call(c)
                        else:
                            v = c
                        edit = op['op'] in opset.EDITS
                        seen = geo.obs(cur) if edit else geo.enc(v)
                        out.append((st, geo.dig(seen), geo.brief(cur if edit and st == 'ok' else v)))
                        if isinstance(v, core.ig.NURBS) and not edit:
                            cur = v
                    return out
                return f

            def after():
                return (geo.dig(geo.obs(g)) + geo.dig(geo.obs(h)), None)
            return [thread(t) for t in plan['threads']], after
        base = geo.dig(geo.obs(geo.build(plan['spec']))) + geo.dig(geo.obs(geo.build(plan['second'])))

        def judge(c, plan, ref, res, aft, log, repro):
            judge_t(c, plan, [(r[0], (base, None)) for r in ref], res, aft, log, repro)
        run_all(plan, ctx, make, (K_KERNEL, K_CODE), judge)


# ---------------------------------------------------------------- S06

def gen_s06(rng, tier):
    nt = rng.choice([2, 2, 3])
    w = g_writer(rng)
    shared_writer = rng.random() < 0.75
    base = None
    ths = []
    for i in range(nt):
        if rng.random() < 0.6:
            t = p_io.gen_save(rng)
            load = False
        else:
            t = p_io.gen_load(rng)
            load = True
        if shared_writer:
            t['w'] = w
            if t['kind'] == 'mat':
                t['m'] = iokit.g_mat(rng, w)
        if base is not None and rng.random() < 0.5 and t['kind'] in ('geo',) and base['kind'] == 'geo' and not load:
            t['spec'] = base['spec']
            t['share'] = True
            dim = len(t['spec']['shape'])
            t['o']['nsd'] = rng.choice([None] + list(range(dim, 4)))
        if base is None and not load:
            base = t
        ths.append({'load': load, 't': t})
    return {'blk': p_io.g_blk(rng), 'threads': ths, 'shared_writer': shared_writer, 'fseed': rng.randint(0, 2 ** 40), 'faults': rng.random() < 0.5,
            'sched': {'seed': rng.randint(0, 2 ** 40), 'n': 12 if tier == 'quick' else 40}}


class S06:
    gen = staticmethod(gen_s06)

    @staticmethod
    def shrink(plan):
        if plan.get('blk'):
            yield dict(plan, blk=0)
        if plan['faults']:
            yield dict(plan, faults=False)
        for q in shrink_sched(plan):
            yield q

    @staticmethod
    def run(plan, ctx):
        kit = core.kit
        p_io.setup_io(ctx, plan)
        frng = random.Random(plan['fseed'])
        fthr = frng.randrange(len(plan['threads'])) if plan['faults'] else -1

        def make():
            wr, vt = None, core.ig.io.VTK()
            geos = {}
            tasks = []
            for i, th in enumerate(plan['threads']):
                t = th['t']
                path = '%s/f%d.dat' % (ctx.scratch, i)
                if plan['shared_writer'] and t['kind'] != 'vtk':
                    wr = wr or petiga(t['w'])
                use = vt if t['kind'] == 'vtk' else wr
                if th['load']:
                    x = p_io.Load(t, path, use if plan['shared_writer'] else None)
                    x.put()
                else:
                    k = json.dumps(t['spec'])
                    g = geos.setdefault(k, geo.build(t['spec']))
                    x = p_io.Save(t, path, g, use if plan['shared_writer'] or t['kind'] == 'vtk' else None)
                    x.setup(None)
                tasks.append(x)

            def thread(i, x):
                def f():
                    st, v = call(x.fn)
                    return st, v
                return f

            def after():
                return tasks, geos
            return [thread(i, x) for i, x in enumerate(tasks)], after

        def digest(i, tasks, r):
            """what thread i achieved"""
            st, v = r
            x = tasks[i]
            if plan['threads'][i]['load']:
                return (st, geo.dig(v), geo.brief(v))
            return (st, geo.dig(v) if st == 'exc' else '', dighex(x.content()))

        def alone(i):
            def body(sub):
                funcs, after = make()
                kit.disk_reset()
                r = funcs[i]()
                log = [tuple(o[:1]) + (0,) * 5 + (o[6],) for o in kit.disk_oplog()]
                tasks, _ = after()
                d = digest(i, tasks, r)
                bad = None
                if r[0] == 'ok':
                    bad = tasks[i].ok(r[1]) if plan['threads'][i]['load'] else tasks[i].complete()
                return d, log, bad, etext(r[1]) if r[0] != 'ok' else None
            return ctx.fork(body)
        etext = p_io.etext
        ref = []
        for i in range(len(plan['threads'])):
            d, log, bad, err = alone(i)
            if bad or err:
                ctx.fail('alone-wrong', 'thread %d alone: %s' % (i, bad or err))
                return
            ref.append((d, log))

        def counts(sub):
            funcs, after = make()
            kit.disk_reset()
            _, hot = stores(lambda: run_threads(funcs, list(range(len(funcs)))))
            return thread_counts(len(funcs)), hot
        cnt, hot = ctx.fork(counts)
        budget = BUDGET * sum(sum(c) for c in cnt) + 1000000
        for sch in schedules(plan, cnt, (K_CODE, K_DISK, K_DISK) if not isinstance(plan['sched'], list) else (), hot):
            prog = sch.get('prog')
            if prog is None and fthr >= 0:
                th = plan['threads'][fthr]
                mk = read_progs if th['load'] else write_progs
                if th['load']:
                    ps = read_progs(frng, ref[fthr][1], 1, 400, 0, 0, thr=fthr)
                else:
                    ps = write_progs(frng, ref[fthr][1], 1, 0, 0, thr=fthr)
                prog = ps[0] if ps else None
                if prog:
                    prog = {'disk': prog.get('disk', [])}
            note({'plan': dict(plan, sched=[dict(sch, prog=prog)])})

            def body(sub, sch=sch, prog=prog):
                funcs, after = make()
                ids = arm(prog or {})
                n0 = len(funcs)
                res, log = run_threads(funcs, sch['order'], sch['trig'], sch['walk'], budget, sch.get('any', False))
                fired = [fault_name(f) for k, f in zip(ids, (prog or {}).get('disk', ())) if kit.disk_fired(k)]
                disarm()
                nopen = kit.disk_open_fds()
                tasks, geos = after()
                repro = fixed(plan, sch, log)
                repro['sched'][0]['prog'] = prog or {}
                for t in log:
                    sub.fault('thread switch ' + ('inside a kernel', 'between bytecodes', 'at a disk operation')[t[1]])
                for f in fired:
                    sub.fault(f)
                sub.event('sched', log, fired)
                sub.run_done((sch['order'], [t[:4] for t in log], fired), bool(log))
                for i, r in enumerate(res):
                    st, v = r[1] if r[0] == 'ok' else r
                    d = digest(i, tasks, (st, v))
                    sub.event(i, d[:2])
                    if i == fthr and fired:
                        bad = None
                        if st == 'ok':
                            bad = tasks[i].ok(v) if plan['threads'][i]['load'] else tasks[i].complete()
                        if bad:
                            sub.fail('faulted-wrong', 'thread %d (faults %s) returned normally: %s' % (i, fired, bad), repro)
                        continue
                    if d[:2] != ref[i][0][:2] or d[2] != ref[i][0][2]:
                        sub.fail('interference', 'thread %d: %s %s; alone: %s %s; switches %s; faults of thread %d: %s' % (
                            i, d[0], etext(v) if st == 'exc' else d[2], ref[i][0][0], ref[i][0][2], [t[:4] for t in log][:8], fthr, fired), repro)
                if nopen:
                    sub.fail('handle-open', '%d handles open after all threads ended' % nopen, repro)
            ctx.fork(body)


def dighex(b):
    import hashlib
    return None if b is None else hashlib.sha256(b).hexdigest()[:16]


PROPS = {'T01': T01, 'T02': T02, 'S06': S06}
