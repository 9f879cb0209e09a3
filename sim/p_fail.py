"""F01, F02, T03: calls that fail half way, and the caller's data."""
import json, random
import core, geo, opset, p_thr, iokit
from core import *


# ---------------------------------------------------------------- faults on a call

def faulted(f, fn):
    """Run fn under one fault.  -> (status, value, injected?)"""
    if f[0] == 'none':
        st, v = call(fn)
        return st, v, True
    if f[0] == 'i':
        st, v, fired = with_interrupt(f[1], fn)
        return st, v, fired
    if f[0] == 'p':                      # a fault program of the disk
        st, v, fired, log = iokit.run_prog(f[1], fn)
        iokit.disarm()
        return st, v, bool(fired)
    st, v, n = with_allocfail(f[1], f[2], fn, f[3])
    return st, v, n > 0


class Steps(int):
    """A number of bytecodes that knows which of them follow a store."""
    stored = ()

    def after_store(self, x):
        """one of the places just after a store, x in [0, 1)"""
        return self.stored[int(x * len(self.stored)) % len(self.stored)]


def measure(fn):
    """-> (status, value, igakit bytecodes, array allocations) of an undisturbed call"""
    c0 = kit.counts()[K_CODE]
    a0 = kit.alloc_stats()['count']
    (st, v), hot = stores(lambda: call(fn))
    n = Steps(kit.counts()[K_CODE] - c0)
    # the first and last time at each place of the code
    n.stored = sorted({m - c0 for places in hot.get(-1, {}).values() for ms in places for m in (ms[0], ms[-1])})
    return st, v, n, kit.alloc_stats()['count'] - a0


def gen_faults(rng, steps, allocs, n):
    out = []
    for _ in range(n):
        if allocs and rng.random() < 0.35:
            out.append(['a', rng.randrange(allocs), rng.choice([1, 1, 2, -1]), rng.choice([0, 0, 0, 64])])
        elif steps:
            # the last bytecodes are where results are stored
            r = rng.random()
            k = rng.randint(1, steps) if r < 0.4 else max(1, steps - rng.randint(0, min(steps - 1, 60)))
            if r > 0.8 and getattr(steps, 'stored', ()):
                k = steps.after_store(rng.random())
            out.append(['i', k])
    return out


def gen_disk(rng):
    """A disk fault that does not know the operations of the call."""
    prog = {'disk': []}
    if rng.random() < 0.3:
        prog['chunk'] = [rng.choice([1, 3, 7, 16])] * 2
    for _ in range(rng.choice([1, 1, 2])):
        w = rng.random() < 0.5
        k = rng.choice([WRITE, WRITE, CLOSE, OPEN] if w else [READ, READ, CLOSE, OPEN])
        nth = 0 if k == OPEN else rng.choice([0, 0, 1, 2, 3, 5])
        if k in (READ, WRITE) and rng.random() < 0.3:
            prog['disk'].append([k, -1, -1, rng.choice([0, 1, 5, 20, 100, 300]), F_ERRNO, iokit.ERR[rng.choice(['EIO', 'ENOSPC'] if w else ['EIO'])], rng.choice([0, 1])])
        elif k == READ and rng.random() < 0.5:
            prog['disk'].append([k, -1, nth, 0, rng.choice([F_EOF, F_SHORT]), rng.choice([1, 2, 5]), rng.choice([0, 1])])
        elif k == WRITE and rng.random() < 0.3:
            prog['disk'].append([k, -1, nth, 0, F_SHORT, rng.choice([1, 2, 5]), rng.choice([0, 1])])
        else:
            prog['disk'].append([k, -1, nth, 0, F_ERRNO, iokit.ERR[rng.choice({OPEN: ['EACCES', 'EMFILE'], CLOSE: ['EIO']}.get(k, ['EIO', 'EINTR']))], 0])
    return ['p', prog]


KEPT = {}


def kept(key, make):
    """An object the session makes once and uses again and again."""
    if key not in KEPT:
        KEPT[key] = make()
    return KEPT[key]


def writer_of(w):
    return kept(('petiga', json.dumps(w, sort_keys=True)), lambda: iokit.petiga(w) if w else core.ig.io.PetIGA())


def g_load(rng, dim):
    return {'op': 'load', 'a': {'k': rng.choice(['geo', 'geo', 'vec', 'vec+', 'mat']), 'w': iokit.g_writer(rng), 'seed': rng.randint(0, 10 ** 6)}}


def p_load(g, a):
    np = core.np
    rng = random.Random(a['seed'])
    path = core.SCRATCH + '/load.dat'
    io = writer_of(a['w'])
    kw, extra = {}, []
    if a['k'] == 'geo':
        b = iokit.enc_geo(g, a['w'])
        fn, args = io.read, [path]
    elif a['k'] == 'mat':
        b = iokit.enc_mat(iokit.g_mat(rng, a['w']), a['w'])
        fn, args = io.read_mat, [path]
    else:
        A = np.round(np.random.RandomState(a['seed']).uniform(-2, 2, size=tuple(g.shape) + (2,)), 3)
        b = iokit.enc_vec(A, a['w'], tuple(g.shape))
        fn, args = io.read_vec, [path] + ([g] if a['k'] == 'vec+' else [])
    kit.disk_reset()
    with open(path, 'wb') as fh:
        fh.write(bytes(b.b))
    return opset.Call(fn, args, kw)


opset.ALL['load'] = p_load


def faults_of(plan, steps, allocs):
    f = plan['faults']
    if isinstance(f, list):
        return f
    return gen_faults(random.Random(f['seed']), steps, allocs, f['n'])


FNAME = {'p': 'disk fault during save or load', 'i': 'keyboard interrupt', 'a': 'array allocation failure', 'none': 'rejected or plain call'}


def record(ctx, f, hit, st, *key):
    if f[0] != 'none' and hit:
        ctx.fault(FNAME[f[0]])
    ctx.probe('%s: call %s' % (FNAME[f[0]], 'returned' if st == 'ok' else 'raised' if st == 'exc' else 'interrupted after its end'))
    ctx.event(*(key + (json.dumps(f), st)))
    ctx.run_done(key + (json.dumps(f), st), hit and f[0] != 'none')


# ---------------------------------------------------------------- bad arguments

def g_bad(rng, dim):
    """An in-place edit with an argument that has to be rejected, or may be."""
    ax = rng.choice([0, dim - 1, dim, -dim - 1, 7])
    n = rng.choice(['insert', 'insert', 'remove', 'refine', 'refine', 'transpose', 'swap', 'reverse', 'remap', 'clamp', 'unclamp',
                    'elevate', 'transform', 'translate', 'scale', 'rotate'])
    if n == 'insert':
        a = [ax, rng.choice([['out', 0.5], ['out', -0.5], ['f', 0.5], ['nan', 0]]), rng.choice([1, 40, -1])]
    elif n == 'remove':
        a = [ax, rng.choice([['out', 0.5], ['out', -0.5], ['k', 1], ['nan', 0]]), rng.choice([1, -3])]
    elif n == 'refine':
        a = [ax, [rng.choice([['f', 0.3], ['out', 0.2], ['out', -0.2], ['k', 1]]) for _ in range(rng.choice([1, 2, 9]))]]
    elif n == 'transpose':
        a = [rng.choice([[0] * dim, [0], list(range(dim)) + [0], list(range(dim - 1)) + [9]])]
    elif n == 'swap':
        a = [ax, dim + 2]
    elif n == 'reverse':
        a = [0, dim + 1]
    elif n == 'remap':
        a = [ax, rng.choice([1.0, 2.0, None]), rng.choice([1.0, 0.5, -3.0])]
    elif n in ('clamp', 'unclamp'):
        a = [ax, rng.choice([0, 1, 2, 'left'])] + ([rng.choice([-1, 99])] if n == 'unclamp' else [])
    elif n == 'elevate':
        a = [ax, rng.choice([-1, 1, 'two'])]
    elif n == 'transform':
        a = [rng.choice([[[1, 2], [3, 4]], 'x', [1.0, 2.0]])]
    elif n == 'rotate':
        a = [rng.choice([0.5, 'x']), rng.choice([[0, 0, 0], 5, [1, 2, 3, 4]])]
    else:
        a = [rng.choice([[1, 2, 3, 4], 'x', [[1, 2], [3, 4]]]), rng.choice([None, 7])]
    return {'op': 'bad', 'a': {'n': n, 'args': a}}


def p_bad(g, a):
    def val(x):
        if isinstance(x, list) and len(x) == 2 and isinstance(x[0], str):
            try:
                return opset.val(g, a['args'][0] % g.dim, x)
            except Exception:
                return 0.5
        if isinstance(x, list):
            return [val(y) for y in x]
        return x
    return opset.Call(getattr(g, a['n']), [val(x) for x in a['args']])


opset.ALL['bad'] = p_bad


# ---------------------------------------------------------------- F01

def gen_f01(rng, tier):
    spec = geo.gen(rng, dim=rng.choice([1, 1, 1, 2, 2, 3]), maxp=(4, 3, 2), maxspans=(4, 3, 2), maxctl=(12, 24, 30))
    dim = len(spec['shape'])
    pre = [opset.gen_edit(rng, dim) for _ in range(rng.choice([0, 0, 1, 2]))]
    op = g_bad(rng, dim) if rng.random() < 0.2 else opset.gen_edit(rng, dim)
    return {'spec': spec, 'pre': pre, 'op': op, 'faults': {'seed': rng.randint(0, 2 ** 40), 'n': 60 if tier == 'quick' else 250}}


def edited(plan):
    g = geo.build(plan['spec'])
    for op in plan['pre']:
        call(lambda: opset.prep(g, op)())
    return g


class F01:
    gen = staticmethod(gen_f01)

    @staticmethod
    def shrink(plan):
        for i in range(len(plan['pre'])):
            yield dict(plan, pre=plan['pre'][:i] + plan['pre'][i + 1:], faults={'seed': 5, 'n': 150})
        for s in geo.shrink_spec(plan['spec']):
            yield dict(plan, spec=s)
        if isinstance(plan['faults'], list):
            for f in plan['faults']:
                if f[0] == 'a' and f[2:] != [1, 0]:
                    yield dict(plan, faults=[['a', f[1], 1, 0]])

    @staticmethod
    def run(plan, ctx):
        kit.alloc_install()
        g = edited(plan)
        st, c = call(opset.prep, g, plan['op'])
        if st != 'ok':
            ctx.probe('operation not applicable')
            ctx.runs += 1
            return
        before = geo.obs(g)
        note({'plan': dict(plan, faults=[['none']])})
        st0, v, steps, allocs = measure(c)
        after = geo.obs(g) if st0 == 'ok' else before
        bad = geo.consistent(g)
        rep = dict(plan, faults=[['none']])
        if st0 != 'ok':
            ctx.probe('rejected argument: ' + type(v).__name__)
            if geo.obs(g) != before:
                ctx.fail('half-edit', '%s raised %r and left the geometry changed: %s' % (plan['op'], v, geo.brief(g)), rep)
        elif bad:
            ctx.fail('inconsistent', '%s left control points and knots that disagree: %s' % (plan['op'], bad), rep)
        record(ctx, ['none'], True, st0, plan['op']['op'], geo.dig(before))
        for f in faults_of(plan, steps, allocs):
            note({'plan': dict(plan, faults=[f])})
            g = edited(plan)
            h = g.clone()
            c = opset.prep(g, plan['op'])
            st, v, hit = faulted(f, c)
            st2, now = call(geo.obs, g)
            rep = dict(plan, faults=[f])
            what = '%s with %s %s' % (json.dumps(plan['op'])[:300], FNAME[f[0]], f[1:])
            if st2 != 'ok':
                ctx.fail('half-edit', '%s left a geometry that cannot be looked at: %r' % (what, now), rep)
            elif now not in (before, after):
                ctx.fail('half-edit', '%s ended with %s and left the geometry neither as before nor as after the edit: %s; consistent: %s' % (
                    what, st if st == 'ok' else repr(v), geo.brief(g), geo.consistent(g)), rep)
            elif st == 'ok' and now != after:
                ctx.fail('not-done', '%s returned normally but the edit is not there: %s' % (what, geo.brief(g)), rep)
            elif st != 'ok' and now == before and before != after:
                st3, v3 = call(opset.prep(g, plan['op']))
                if st3 != st0 or geo.obs(g) != after:
                    ctx.fail('repeat-differs', '%s, then repeated: %s %s instead of the undisturbed result' % (what, st3, geo.brief(g)), rep)
            if geo.obs(h) != before:
                ctx.fail('clone-changed', '%s changed a clone taken before the edit' % what, rep)
            record(ctx, f, hit, st, plan['op']['op'], geo.dig(before))


# ---------------------------------------------------------------- F02

OWNED = ('copy', 'slice', 'extract', 'boundary', 'extrude', 'revolve', 'ruled', 'sweep', 'join', 'coons')


def gen_f02(rng, tier):
    spec = geo.gen(rng, dim=rng.choice([1, 1, 2, 2, 3]), maxp=(3, 2, 2), maxspans=(3, 2, 2), maxctl=(9, 20, 30),
                   kind=rng.choice(['any', 'clamped', 'clamped']))
    op = opset.gen_free(rng, ['coons']) if rng.random() < 0.1 else opset.gen_new(rng, spec)
    return {'spec': spec, 'op': op, 'ed': [opset.gen_edit(rng, 3) for _ in range(3)],
            'faults': {'seed': rng.randint(0, 2 ** 40), 'n': 40 if tier == 'quick' else 200}}


def _fit(op, dim):
    """The edit, with its axes folded into the dimension."""
    a = dict(op['a'])
    for k in ('axis', 'a', 'b'):
        if k in a and isinstance(a[k], int) and op['op'] not in ('translate', 'scale', 'rotate'):
            a[k] = a[k] % dim
    if 'axes' in a and a['axes']:
        a['axes'] = [i for i in a['axes'] if i < dim]
        if op['op'] == 'transpose' and len(a['axes']) != dim:
            a['axes'] = None
    return {'op': op['op'], 'a': a}


def results(v):
    if isinstance(v, core.ig.NURBS):
        return [v]
    return [x for x in v if isinstance(x, core.ig.NURBS)] if isinstance(v, (list, tuple)) else []


class F02:
    gen = staticmethod(gen_f02)

    @staticmethod
    def shrink(plan):
        if plan['ed']:
            for i in range(len(plan['ed'])):
                yield dict(plan, ed=plan['ed'][:i] + plan['ed'][i + 1:])
        for s in geo.shrink_spec(plan['spec']):
            if s['nf'] == plan['spec']['nf']:
                yield dict(plan, spec=s)
        if isinstance(plan['faults'], list):
            for f in plan['faults']:
                if f[0] == 'a' and f[2:] != [1, 0]:
                    yield dict(plan, faults=[['a', f[1], 1, 0]])

    @staticmethod
    def make(plan):
        g = geo.build(plan['spec'])
        c = opset.prep(g, plan['op'])
        ins = [g] + [x for x in c.watched() if isinstance(x, core.ig.NURBS) and x is not g]
        return g, c, ins

    @staticmethod
    def run(plan, ctx):
        np = core.np
        kit.alloc_install()
        st, mk = call(F02.make, plan)
        if st != 'ok':
            ctx.probe('operation not applicable')
            ctx.runs += 1
            return
        g, c, ins = mk
        name = plan['op']['op']
        before = [geo.obs(x) for x in ins]

        def same(ins, what, rep, cls='input-changed'):
            for i, (x, b) in enumerate(zip(ins, before)):
                st, now = call(geo.obs, x)
                if st != 'ok' or now != b:
                    ctx.fail(cls, '%s: input %d is now %s' % (what, i, geo.brief(x) if st == 'ok' else repr(now)), rep)
                    return False
            return True
        rep = dict(plan, faults=[['none']])
        note({'plan': rep})
        st0, v0, steps, allocs = measure(c)
        want = geo.enc(v0)
        what = json.dumps(plan['op'])[:200]
        same(ins, what, rep)
        # the same call again, on the same objects
        st1, v1 = call(c)
        if (st1, geo.enc(v1)) != (st0, want):
            ctx.fail('repeat-differs', '%s: the second call gave %s %s, the first %s %s' % (what, st1, geo.brief(v1), st0, geo.brief(v0)), rep)
        # results and inputs live apart
        if st0 == 'ok':
            for r in results(v1):
                if r.dim < 1 or any(r is x for x in ins):
                    continue
                for e in plan['ed']:
                    call(lambda: opset.prep(r, _fit(e, r.dim))())
            same(ins, what + ' and then edits of the result', rep, 'edit-reaches-input')
            if geo.enc(v0) != want:
                ctx.fail('results-linked', what + ': editing the result of the second call changed that of the first', rep)
            st2, v2 = call(c)
            for x in ins:
                for e in plan['ed']:
                    call(lambda: opset.prep(x, _fit(e, x.dim))())
            if geo.enc(v2) != want:
                ctx.fail('edit-reaches-result', what + ': editing the inputs afterwards changed the result', rep)
            if name in OWNED:
                g, c, ins = F02.make(plan)
                st2, v2 = call(c)
                for r in results(v2):
                    r.array[...] = 7.5
                    if name == 'copy':
                        for k in r.knots:
                            k[...] = -1.0
                same(ins, what + ' and then writing into the control points of the result', rep, 'write-reaches-input')
                g, c, ins = F02.make(plan)
                st2, v2 = call(c)
                for x in ins:
                    x.array[...] = 7.5
                    if name == 'copy':
                        for k in x.knots:
                            k[...] = -1.0
                got = geo.enc(v2)
                if got != want:
                    ctx.fail('write-reaches-result', what + ': writing into the inputs afterwards changed the result', rep)
        record(ctx, ['none'], True, st0, name, geo.dig(tuple(before)))
        for f in faults_of(plan, steps, allocs):
            note({'plan': dict(plan, faults=[f])})
            g, c, ins = F02.make(plan)
            st, v, hit = faulted(f, c)
            rep = dict(plan, faults=[f])
            w = '%s with %s %s' % (what, FNAME[f[0]], f[1:])
            if same(ins, w, rep):
                if st == 'ok' and (st, geo.enc(v)) != (st0, want):
                    ctx.fail('wrong-result', '%s returned %s instead of %s' % (w, geo.brief(v), geo.brief(v0)), rep)
                v = None
                st2, v2 = call(c)
                if (st2, geo.enc(v2)) != (st0, want):
                    ctx.fail('repeat-differs', '%s, then repeated: %s %s instead of %s %s' % (w, st2, geo.brief(v2), st0, geo.brief(v0)), rep)
            record(ctx, f, hit, st, name, geo.dig(tuple(before)))


# ---------------------------------------------------------------- T03

def snap(o):
    """Everything a caller can see of an argument, including an array's form."""
    np = core.np
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ('AO', o.shape, tuple(snap(x) for x in o.ravel()))
        return ('A', o.dtype.str, o.shape, o.strides, o.flags.writeable, o.tobytes())
    if isinstance(o, core.ig.NURBS):
        return ('N', geo.obs(o))
    if isinstance(o, core.ig.transform):
        return ('T', snap(o.matrix))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, id(o)) + tuple(snap(x) for x in o)
    if isinstance(o, dict):
        return ('d',) + tuple((k, snap(x)) for k, x in sorted(o.items()))
    return ('V', repr(o).replace(core.SCRATCH, ''))


def g_any(rng, spec, edits=True):
    dim = len(spec['shape'])
    r = rng.random()
    if r < 0.25:
        return opset.gen_query(rng, dim)
    if r < 0.45 and edits:
        return opset.gen_edit(rng, dim, ['transform', 'translate', 'scale', 'rotate', 'refine', 'refine', 'transpose', 'remove', 'insert', 'elevate'])
    if r < 0.65:
        return opset.gen_new(rng, spec)
    if r < 0.72:
        return {'op': 'plot', 'a': {'what': rng.choice(p_thr.PLOTS + ['points', 'quiver']), 'n': rng.choice([1, 2, 3]),
                                    'o': rng.choice('CFr'), 'odd': rng.choice(ODD), 'kw': rng.choice([{}, {'mode': 'line'}, {'color': [1, 0, 0]}])}}
    if r < 0.8:
        return {'op': 'save', 'a': {'k': rng.choice(['geo', 'vec', 'vtk', 'vtk']), 'o': rng.choice('CFr'), 'dt': rng.choice(['f8', 'f4', 'i4']), 'odd': rng.choice(ODD),
                                    'nsd': rng.choice([None, None, dim, 3]), 'sf': rng.random() < 0.25, 'v': g_vtk(rng), 'w': rng.choice([None, None, iokit.g_writer(rng)])}}
    if r < 0.84:
        return g_load(rng, dim)
    if r < 0.88:
        return opset.gen_free(rng, ['transformation'])
    return opset.gen_free(rng)


ODD = [None, None, None, 'nan', 'inf', '-inf', '-0.0', '1e-17', '1e-310', '1e300']


def odd(x, a):
    """Some entries that code is tempted to tidy up in place."""
    if a.get('odd') and x.size:
        x.reshape(-1)[::3] = float(a['odd'])
    return x


def p_plot(g, a):
    np = core.np
    pl, rec = p_thr.recorder_plotter()
    if a['what'] in ('points', 'quiver'):
        x = odd(np.arange(4.0 * a['n']).reshape(4, a['n']), a)
        x = {'F': np.asfortranarray(x), 'C': x, 'r': np.repeat(x, 2, axis=0)[::2]}[a['o']]
        return opset.Call(getattr(pl, a['what']), [x] if a['what'] == 'points' else [x, x.copy()])
    kw = dict(a['kw'])
    if 'mode' in kw and a['what'] in ('surface', 'plot', 'kplot', 'cplot', 'ksurf', 'cpoint', 'kpoint'):
        kw.pop('mode')
    return opset.Call(getattr(pl, a['what']), [g], kw)


def p_save(g, a):
    np = core.np
    path = core.SCRATCH + '/t03.dat'
    x = np.arange(12.0).reshape(3, 4).astype(a['dt'])
    x = odd(x, a) if a['dt'] != 'i4' else x
    x = {'F': np.asfortranarray(x), 'C': x, 'r': np.repeat(x, 2, axis=1)[:, ::2]}[a['o']]
    if a['k'] == 'geo':
        return opset.Call(writer_of(a.get('w')).write, [path, g], {'nsd': a['nsd']}, extra=[g])
    if a['k'] == 'vec':
        return opset.Call(writer_of(a.get('w')).write_vec, [path, x])
    v = a.get('v') or {'comps': 2, 'scalars': [['s', 0]], 'vectors': [], 'as': 'dict', 'control': True}
    if g.dim < 1:
        raise ValueError
    F = np.arange(1.0, 1.0 + np.prod(g.shape) * v['comps']).reshape(tuple(g.shape) + (v['comps'],))
    F = odd(F, a)
    F = {'F': np.asfortranarray(F), 'C': F, 'r': np.repeat(F, 2, axis=0)[::2]}[a['o']]
    kw = {'control': v['control']}
    if not a['sf']:
        kw['fields'] = F
    for k in ('scalars', 'vectors'):
        if v[k] or v['as'] == 'dict':
            x = [(n, i if k == 'scalars' else list(i)) for n, i in v[k]]
            kw[k] = dict(x) if v['as'] == 'dict' else tuple(x) if v['as'] == 'tuple' else [list(y) for y in x] if v['as'] == 'lists' else x
    if a['sf']:
        kw['fields'] = True if g.array.shape[-1] > 4 else None
    return opset.Call(kept('vtk', core.ig.io.VTK).write, [path, g], kw, extra=[g])


def g_vtk(rng):
    comps = rng.choice([1, 2, 3])
    return {'comps': comps, 'control': rng.random() < 0.7, 'as': rng.choice(['dict', 'list', 'list', 'lists', 'tuple']),
            'scalars': [[rng.choice(['s', 'p q', '', 'T']), rng.randrange(comps)] for _ in range(rng.choice([0, 1, 1, 2]))],
            'vectors': [[rng.choice(['v', 'a b', '', 'w']), [rng.randrange(comps) for _ in range(rng.choice([1, 2, 3]))]] for _ in range(rng.choice([0, 1, 1, 2]))]}


opset.ALL['plot'] = p_plot
opset.ALL['save'] = p_save


def gen_t03(rng, tier):
    spec = geo.gen(rng, dim=rng.choice([1, 1, 2, 2, 3]), maxp=(3, 2, 2), maxspans=(3, 2, 2), maxctl=(9, 20, 30))
    dim = len(spec['shape'])
    if rng.random() < 0.35:
        # several threads hand in the same argument objects
        op = opset.gen_edit(rng, dim, ['refine', 'refine', 'transform', 'translate', 'scale', 'rotate']) if rng.random() < 0.7 \
            else rng.choice([opset.gen_free(rng), opset.gen_new(rng, spec)])
        return {'mode': 'threads', 'spec': spec, 'threads': [[op]] * rng.choice([2, 2, 3]),
                'sched': {'seed': rng.randint(0, 2 ** 40), 'n': 10 if tier == 'quick' else 40}}
    # a few calls with many faults, or many calls with few
    n, k = (rng.choice([1, 2, 3, 4]), 12) if rng.random() < 0.6 else (24, 3)
    return {'mode': 'calls', 'spec': spec, 'hold': opset.gen_free(rng, ['NURBS'])['a'] if rng.random() < 0.6 else None,
            'ops': [g_any(rng, spec) for _ in range(n)],
            'faults': {'seed': rng.randint(0, 2 ** 40), 'n': k if tier == 'quick' else k * 5}}


class T03:
    gen = staticmethod(gen_t03)

    @staticmethod
    def shrink(plan):
        if plan['mode'] == 'threads':
            for q in p_thr.shrink_t(plan):
                yield q
            return
        if isinstance(plan['faults'], list) and len(plan['ops']) > 1:
            i = plan['faults'][0][0] if plan['faults'] else 0
            yield dict(plan, ops=plan['ops'][:i + 1]) if i + 1 < len(plan['ops']) else dict(plan, ops=plan['ops'][1:], faults=[[i - 1] + plan['faults'][0][1:]])
        if plan['hold']:
            yield dict(plan, hold=None)
        for s in geo.shrink_spec(plan['spec']):
            if s['nf'] == plan['spec']['nf']:
                yield dict(plan, spec=s)

    @staticmethod
    def run(plan, ctx):
        kit.alloc_install()
        core.SCRATCH = ctx.scratch
        kit.disk_enable(ctx.scratch + '/')
        if plan['mode'] == 'threads':
            return T03.threads(plan, ctx)

        def start():
            """A geometry that holds the caller's own arrays, if possible."""
            held = []
            g = None
            if plan['hold']:
                a = dict(plan['hold'], spec=plan['spec'], odd='')
                c = opset.p_nurbs(None, a)
                g = c()
                held = c.watched()
            if g is None or g.dim != len(plan['spec']['shape']) or tuple(g.shape) != tuple(plan['spec']['shape']):
                g = geo.build(plan['spec'])
            return g, held

        def go(fault_i, f, rep):
            g, held = start()
            base = [snap(x) for x in held]
            done = []
            past = []                    # arguments and results of the earlier calls
            meas = []
            for i, op in enumerate(plan['ops']):
                st, c = call(opset.prep, g, op)
                if st != 'ok':
                    meas.append((0, 0))
                    continue
                edit = op['op'] in opset.EDITS
                w = c.watched() + ([] if edit else [g])
                keep = g.clone() if edit else None
                if keep is not None:
                    w = w + [keep]
                s0 = [snap(x) for x in w]
                if fault_i == i:
                    st, v, hit = faulted(f, c)
                    ns, na = 0, 0
                    record(ctx, f, hit, st, op['op'], geo.dig(tuple(_noid(s) for s in s0)))
                else:
                    st, v, ns, na = measure(c)
                meas.append((ns, na))
                s1 = [snap(x) for x in w]
                what = 'call %d (%s)%s, %s' % (i, json.dumps(op)[:300], '' if fault_i != i else ' with %s %s' % (FNAME[f[0]], f[1:]), 'returned' if st == 'ok' else 'raised')
                for j, (a, b) in enumerate(zip(s0, s1)):
                    if a != b:
                        ctx.fail('argument-changed', '%s: argument %d changed from %s to %s' % (what, j, str(a)[:200], str(b)[:200]), rep)
                        break
                if [snap(x) for x in held] != base:
                    ctx.fail('argument-changed', '%s: an array given to the constructor earlier has changed' % what, rep)
                if c.post and c.post():
                    ctx.fail('argument-changed', '%s: %s' % (what, c.post()), rep)
                for n, y, b in past:
                    if not (edit and _within(g, y)) and snap(y) != b:
                        ctx.fail('argument-changed', '%s: changed what belonged to the earlier call %s: from %s to %s' % (what, n, str(b)[:200], str(snap(y))[:200]), rep)
                        break
                past = [z for z in past if not (edit and _within(g, z[1]))]
                past += [('%s (argument %d)' % (op['op'], j), y, snap(y)) for j, y in enumerate(w) if y is not g]
                if st == 'ok' and v is not g:
                    past.append((op['op'] + ' (result)', v, snap(v)))
                done.append((op['op'], st))
                v = None
            ctx.event(done)
            return meas
        note({'plan': dict(plan, faults=[])})
        meas = go(None, None, dict(plan, faults=[]))
        ctx.run_done(('calls', geo.dig(tuple(json.dumps(o) for o in plan['ops']))))
        fs = plan['faults']
        if isinstance(fs, dict):
            rng = random.Random(fs['seed'])
            lst = []
            for _ in range(fs['n']):
                i = rng.randrange(len(plan['ops']))
                x = [gen_disk(rng)] if plan['ops'][i]['op'] in ('save', 'load') and rng.random() < 0.6 else gen_faults(rng, meas[i][0], meas[i][1], 1)
                lst += [[i] + y for y in x]
            fs = lst
        for x in fs:
            rep = dict(plan, faults=[x])
            note({'plan': rep})
            go(x[0], x[1:], rep)

    @staticmethod
    def threads(plan, ctx):
        op = plan['threads'][0][0]

        def make():
            g = geo.build(plan['spec'])
            c = opset.prep(g, op)
            args, extra = c.args, c.extra
            edit = op['op'] in opset.EDITS

            def thread():
                if edit:
                    h = g.clone()
                    cc = opset.Call(getattr(h, c.fn.__name__), args, c.kw)
                    st, v = call(cc)
                    v = h if st == 'ok' else v
                else:
                    st, v = call(c)
                return [(st, geo.dig(v), geo.brief(v))]

            def after():
                return geo.dig((geo.obs(g),) + tuple(geo.dig(_noid(snap(x))) for x in c.watched())), None
            return [thread for _ in plan['threads']], after
        g = geo.build(plan['spec'])
        st, c = call(opset.prep, g, op)
        if st != 'ok':
            ctx.runs += 1
            return
        base = geo.dig((geo.obs(g),) + tuple(geo.dig(_noid(snap(x))) for x in c.watched()))

        def judge(c, plan, ref, res, aft, log, repro):
            p_thr.judge_t(c, plan, [(r[0], (base, None)) for r in ref], res, aft, log, repro)
        p_thr.run_all(plan, ctx, make, (K_KERNEL, K_CODE), judge)


def _within(g, x):
    return x is g or (isinstance(x, (list, tuple)) and any(_within(g, y) for y in x))


def _noid(s):
    """the snapshot without object identities"""
    if isinstance(s, tuple):
        if len(s) > 1 and s[0] in ('list', 'tuple') and isinstance(s[1], int):
            return (s[0],) + tuple(_noid(x) for x in s[2:])
        return tuple(_noid(x) for x in s)
    return s


PROPS = {'F01': F01, 'F02': F02, 'T03': T03}
