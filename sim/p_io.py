"""S01-S06: files."""
import os, random, struct, gc, json, pathlib
import core, geo, opset, iokit
from core import *
from iokit import *


# ---------------------------------------------------------------- tasks

def g_count(rng):
    r = rng.random()
    if r < 0.95:
        return rng.randint(0, 12)
    if r < 0.985:
        return rng.randint(1000, 3000)
    if r < 0.9975:
        return int(rng.choice([4096, 8192, 16384, 8191, 8193]) * rng.choice([1, 1, 2, rng.uniform(0.6, 2)]))
    return rng.randint(50000, 180000)


def gen_opts(rng, kind, dim, nf):
    if kind == 'geo':
        return {'control': rng.random() < 0.85, 'fields': rng.random() < 0.8,
                  'nsd': rng.choice([None, None] + list(range(dim, 4)))}
    elif kind == 'vec':
        return {'nurbs': rng.random() < 0.5, 'comps': rng.choice([0, 1, 2, 3]), 'n': g_count(rng),
                  'seed': rng.randint(0, 10 ** 6), 'layout': rng.choice(['c', 'f', 'strided', 'list', 'swapped', 'back']),
                'form': rng.choice(['net', 'net', 'net', 'rows', 'flat', 'column'])}
    else:
        src = rng.choice(['own', 'arr'])
        if nf == 0:
            src = 'arr'
        comps = nf if src == 'own' else rng.randint(1, 3)
        names = ['u', 'p q', '', 'velocity', 'T0', 'u', 'a  b c', 'n' * 300]

        def nm():
            return rng.choice(names)
        sc = [[nm(), rng.randint(0, comps - 1)] for _ in range(rng.choice([0, 0, 1, 1, 1, 1, 2, 2, 5]))]
        ve = [[nm(), [rng.randint(0, comps - 1) for _ in range(rng.randint(1, 3))]] for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 2, 5]))]
        return {'control': rng.random() < 0.7, 'src': src, 'comps': comps, 'seed': rng.randint(0, 10 ** 6),
                  'scalars': sc, 'vectors': ve, 'as_dict': rng.random() < 0.3, 'sampler': rng.choice([None, None, 2, 3]) if rng.random() < 0.98 else {1: 12000, 2: 110, 3: 23}[dim]}


def gen_save(rng, kinds=('geo', 'geo', 'vec', 'vtk'), small=True):
    dim = rng.choice([1, 1, 2, 2, 3])
    kind = rng.choice(kinds)
    spec = geo.gen(rng, dim=dim, maxp=(3, 2, 2), maxspans=(3, 2, 2), maxctl=(9, 20, 30)) if small else geo.gen(rng, dim=dim)
    t = {'kind': kind, 'spec': spec, 'w': g_writer(rng), 'path': rng.choice(['str', 'str', 'Path', 'bytes'])}
    t['o'] = gen_opts(rng, kind, dim, spec['nf'] or 0)
    return t


def g_pre(rng, t, load=False):
    """other calls that the same reader/writer has served before"""
    out = []
    if rng.random() < 0.4:
        for _ in range(rng.choice([1, 1, 2])):
            q = gen_load(rng) if load else gen_save(rng, kinds=('vtk',) if t['kind'] == 'vtk' else ('geo', 'vec'))
            q['w'] = t['w']
            if q['kind'] == 'mat':
                q['m'] = iokit.g_mat(rng, q['w'])
            if q['kind'] == 'geo' and t['kind'] == 'geo' and rng.random() < 0.5:
                q['o'] = dict(t['o'], nsd=q['o']['nsd'] if rng.random() < 0.5 or (t['o']['nsd'] or 0) < len(q['spec']['shape']) else t['o']['nsd'])
            out.append(q)
    return out


def do_pre(plan, ctx, wr):
    for k, q in enumerate(plan.get('pre') or ()):
        path = ctx.scratch + '/before%d.dat' % k
        if q['kind'] == 'mat':
            x = Load(q, path, wr)
            x.put()
            call(x.fn)
            continue
        s = Save(q, path, writer=wr)
        s.setup(None)
        call(s.fn)
        if q['kind'] != 'vtk':
            call(s.load)


def path_form(path, form):
    if form.startswith('rel'):
        path = os.path.relpath(path)
        form = form[3:] or 'str'
    return {'str': path, 'Path': pathlib.Path(path), 'bytes': path.encode()}[form]


class Save:
    """One save call as a user would make it, and what it has to produce."""
    def __init__(self, t, path, g=None, writer=None):
        np = core.np
        self.t, self.file = t, path
        self.same = False                # load with the object that saved
        self.g = geo.build(t['spec']) if g is None else g
        self.p = path_form(path, t['path'])
        w, o = t['w'], t['o']
        if t['kind'] == 'geo':
            self.wr = writer or petiga(w)
            kw = {k: o[k] for k in ('control', 'fields', 'nsd') if not (k == 'nsd' and o[k] is None)}
            self.fn = lambda: self.wr.write(self.p, self.g, **kw)
            self.buf = enc_geo(self.g, w, o['control'], o['fields'], o['nsd'])
            self.want = bytes(self.buf.b)
        elif t['kind'] == 'vec':
            self.wr = writer or petiga(w)
            r = np.random.RandomState(o['seed'])
            shape = tuple(self.g.shape) + ((o['comps'],) if o['comps'] else ()) if o['nurbs'] else (o['n'],)
            A = np.round(r.uniform(-3, 3, size=shape), 6)
            if w['scalar'] == 'complex':
                A = A + 1j * np.round(r.uniform(-3, 3, size=shape), 6)
            form = o.get('form', 'net')
            if form == 'rows' and A.size:
                A = A.reshape(-1, max(1, o['comps']) if o['nurbs'] else [k for k in (3, 2, 1) if A.size % k == 0][0])
            elif form == 'flat':
                A = A.ravel()
            elif form == 'column' and not (o['nurbs'] and o['comps']):
                A = A[..., np.newaxis]
            if o['layout'] == 'f':
                A = np.asfortranarray(A)
            elif o['layout'] == 'strided':
                B = np.zeros(A.shape + (2,), dtype=A.dtype)
                B[..., 0] = A
                A = B[..., 0]
            elif o['layout'] == 'swapped':
                A = A.astype(A.dtype.newbyteorder())
            elif o['layout'] == 'back' and A.size:
                A = A[::-1].copy()[::-1]
            self.buf = enc_vec(A, w, self.g.shape if o['nurbs'] else None)
            self.want = bytes(self.buf.b)
            arg = A.tolist() if o['layout'] == 'list' else A
            self.A = A
            if o['nurbs']:
                self.fn = lambda: self.wr.write_vec(self.p, arg, self.g)
            else:
                self.fn = lambda: self.wr.write_vec(self.p, arg)
        else:
            self.wr = writer or core.ig.io.VTK()
            r = np.random.RandomState(o['seed'])
            arr = np.round(r.uniform(-3, 3, size=tuple(self.g.shape) + (o['comps'],)), 6)
            sc = [(n, i) for n, i in o['scalars']]
            ve = [(n, tuple(i)) for n, i in o['vectors']]
            if o['as_dict']:
                sc, ve = dict(sc), dict(ve)
            kw = dict(control=o['control'], scalars=sc, vectors=ve)
            if o['src'] == 'arr':
                kw['fields'] = arr
            if o['sampler']:
                kw['sampler'] = sampler(o['sampler'])
            self.a = dict(control=o['control'], scalars=sc, vectors=ve, sampler=o['sampler'],
                          fields=True if o['src'] == 'arr' else None, fields_arr=arr)
            self.fn = lambda: self.wr.write(self.p, self.g, **kw)
            self.want = None

    def setup(self, prior):
        if prior is None:
            if os.path.exists(self.file):
                os.unlink(self.file)
        else:
            with open(self.file, 'wb') as fh:
                fh.write(prior)

    def content(self):
        try:
            with open(self.file, 'rb') as fh:
                return fh.read()
        except FileNotFoundError:
            return None

    def complete(self):
        """None if the file is exactly what the save has to produce"""
        data = self.content()
        if data is None:
            return 'no file'
        if self.want is None:
            key = (data,)
            if getattr(self, '_ok', None) == key:
                return None
            bad = check_vtk(data, self.g, self.a)
            if bad is None:
                self._ok = key
            return bad
        if data != self.want:
            n = next((i for i, (x, y) in enumerate(zip(data, self.want)) if x != y), min(len(data), len(self.want)))
            return 'file has %d bytes, complete encoding %d, first difference at byte %d' % (len(data), len(self.want), n)
        return None

    def load(self, path=None):
        r = self.wr if self.same else petiga(self.t['w'])
        p = path or self.file
        if self.t['kind'] == 'geo':
            return r.read(p)
        return r.read_vec(p, self.g) if self.t['o']['nurbs'] else r.read_vec(p)

    def loaded_ok(self, h, data=None):
        val = decode(self.buf, data)
        if self.t['kind'] == 'geo':
            return check_geo(h, val, self.t['w'], control=self.t['o']['control'])
        return check_vec(h, val, self.t['w'], self.g.shape if self.t['o']['nurbs'] else None)


def g_prior(rng):
    r = rng.random()
    if r < 0.45:
        return None
    if r < 0.6:
        return ''
    return bytes(rng.randrange(256) for _ in range(rng.choice([3, 40, 900]))).hex()


def unhex(x):
    return None if x is None else bytes.fromhex(x)


def dry(ctx, fn, chunk=None):
    """Fault-free run -> (status, value, op log, code steps, allocations)"""
    kit = core.kit
    kit.disk_reset()
    kit.counts_reset()
    a0 = kit.alloc_stats()['count']
    st, v = call(fn)
    log = kit.disk_oplog()
    kit.disk_reset()
    c = kit.counts()
    return st, v, log, c[1], kit.alloc_stats()['count'] - a0


def g_blk(rng):
    """preferred I/O size that the file system reports; it decides what is buffered and when a buffer goes out"""
    return rng.choice([0, 0, 0, 0, 512, 128, 64, 1, 1 << 20])


def setup_io(ctx, plan):
    kit = core.kit
    kit.disk_blksize(plan.get('blk', 0))
    if plan.get('blk'):
        ctx.fault('file system with another preferred I/O size')
    kit.alloc_install()
    if plan.get('fill'):
        kit.alloc_fill(True, int(plan['fill'], 16))
        ctx.fault('new arrays hold leftover memory')
    kit.disk_enable(ctx.scratch + '/')


def g_fill(rng):
    """leftover memory of new arrays (two 32-bit numbers), or none"""
    return '%x' % rng.choice([0, 0, 1, 1 << 32, (1 << 32) + 1, 2 ** 64 - 1, 0x3ff0000000000000, rng.getrandbits(64)])


def etext(v):
    return '%s: %s' % (type(v).__name__, str(v)[:120])


def progs_of(plan, make):
    if isinstance(plan['progs'], list):
        return plan['progs']
    return make(random.Random(plan['progs']['seed']), plan['progs']['n'])


def conc(plan, prog):
    return dict(plan, progs=[prog])


def shrink_pre(plan):
    P = plan.get('pre') or []
    for i in range(len(P)):
        yield dict(plan, pre=P[:i] + P[i + 1:])
    if plan.get('same'):
        yield dict(plan, same=False)


def shrink_io(plan):
    if plan.get('blk'):
        yield dict(plan, blk=0)
    for q in shrink_pre(plan):
        yield q
    for q in shrink_progs(plan):
        yield q
    t = plan['t']
    if plan.get('prior'):
        yield dict(plan, prior=None)
    for s in geo.shrink_spec(t['spec']):
        if t['kind'] == 'vtk' and t['o']['src'] == 'own' and s['nf'] != t['spec']['nf']:
            continue
        yield dict(plan, t=dict(t, spec=s))
    if t['path'] != 'str':
        yield dict(plan, t=dict(t, path='str'))


class S01:
    tag = 'save'

    @staticmethod
    def gen(rng, tier):
        t = gen_save(rng)
        return {'blk': g_blk(rng), 'fill': g_fill(rng), 't': t, 'pre': g_pre(rng, t), 'same': rng.random() < 0.5, 'prior': g_prior(rng),
                'progs': {'seed': rng.randint(0, 2 ** 40), 'n': 18 if tier == 'quick' else 40}}

    shrink = staticmethod(shrink_io)

    @staticmethod
    def run(plan, ctx):
        setup_io(ctx, plan)
        kit = core.kit
        s = Save(plan['t'], ctx.scratch + '/file.dat')
        s.same = plan.get('same', False)
        do_pre(plan, ctx, s.wr)
        prior = unhex(plan['prior'])
        # warm up, then a fault-free run is the reference
        s.setup(prior)
        st, v, log, steps, allocs = dry(ctx, s.fn)
        if st != 'ok':
            ctx.fail('save-raises', 'without any fault the save raised %s' % etext(v), conc(plan, {}))
            return
        bad = s.complete()
        if bad:
            ctx.fail('save-wrong', 'fault-free save: ' + bad, conc(plan, {}))
            return
        if s.want is not None:
            st, h = call(s.load)
            bad = etext(h) if st != 'ok' else s.loaded_ok(h)
            if bad:
                ctx.fail('load-wrong', 'fault-free save and load: ' + str(bad), conc(plan, {}))
                return
        ctx.event('ops', [o[0] for o in log], [o[6] for o in log])
        s.setup(prior)
        st, v, log, steps, allocs = dry(ctx, s.fn)
        ctx.run_done(('dry', len(log)))
        for prog in progs_of(plan, lambda r, n: write_progs(r, log, n, steps, allocs)):
            s.setup(prior)
            note({'plan': conc(plan, prog)})
            st, v, fired, ops = run_prog(prog, s.fn)
            disarm()
            for f in fired:
                ctx.fault(f)
            bad = s.complete()
            ctx.event('run', json.dumps(prog), st, fired, geo.dig(v) if st == 'exc' else '', bad, [o[:1] + o[5:8] for o in ops])
            if st in ('ok',) and bad:
                ctx.fail('silent-loss', 'save returned normally although %s; %s' % (fired or 'nothing failed', bad), conc(plan, prog))
            if st == 'exc' and only_absorbed(fired):
                ctx.fail('spurious-raise', 'save raised %s; faults: %s' % (etext(v), fired), conc(plan, prog))
            del v
            st2, v2 = call(s.fn)
            bad = etext(v2) if st2 != 'ok' else s.complete()
            if bad:
                ctx.fail('retry', 'after faults %s stopped, the repeated save: %s' % (fired, bad), conc(plan, prog))
            ctx.probe('save raised' if st == 'exc' else 'save returned')
            ctx.run_done((s.t['kind'], fired, st, [o[:1] + (o[5], o[6], o[7]) for o in ops]), bool(fired))


# ---------------------------------------------------------------- S02

class S02:
    @staticmethod
    def gen(rng, tier):
        t = gen_save(rng, kinds=('geo', 'geo', 'vec'))
        r = rng.random()
        old = None
        if r < 0.3:
            old = 'same'
        elif r < 0.8:
            old = gen_save(rng, kinds=(t['kind'],))
            old['w'] = t['w']
            if t['kind'] == 'vec':
                old['spec'] = t['spec']
                old['o'] = dict(old['o'], nurbs=t['o']['nurbs'])
        return {'blk': g_blk(rng), 'fill': g_fill(rng), 't': t, 'pre': g_pre(rng, t), 'same': rng.random() < 0.5, 'old': old, 'cuts': {'seed': rng.randint(0, 2 ** 40), 'n': 120 if tier == 'quick' else 600}}

    @staticmethod
    def shrink(plan):
        if plan.get('blk'):
            yield dict(plan, blk=0)
        for q in shrink_pre(plan):
            yield q
        if plan['old'] is not None:
            yield dict(plan, old=None)
        for s in geo.shrink_spec(plan['t']['spec']):
            yield dict(plan, t=dict(plan['t'], spec=s))

    @staticmethod
    def run(plan, ctx):
        setup_io(ctx, plan)
        kit = core.kit
        t = plan['t']
        s = Save(t, ctx.scratch + '/file.dat')
        s.same = plan.get('same', False)
        do_pre(plan, ctx, s.wr)
        o = None
        if plan['old'] == 'same':
            o = s
        elif plan['old'] is not None:
            o = Save(plan['old'], ctx.scratch + '/file.dat')
        oldbytes = None if o is None else o.want

        def fresh():
            for f in os.listdir(ctx.scratch):
                os.unlink(os.path.join(ctx.scratch, f))
            s.setup(oldbytes)

        def judge(what, repro, again):
            """load what is on disk now"""
            st, h = call(s.load)
            data = s.content()
            ctx.event(what, st, geo.dig(h))
            if st == 'exc':
                if not isinstance(h, Exception):
                    ctx.fail('load-died', '%s: load raised %s' % (what, etext(h)), repro)
                ctx.probe('load raised')
            else:
                bad = s.loaded_ok(h)
                if bad and o is not None:
                    bad2 = o.loaded_ok(h)
                else:
                    bad2 = bad
                if bad and bad2:
                    ctx.fail('partial-loaded', '%s (%s of %d bytes on disk): load returned %s; not the new content (%s) nor the old' %
                             (what, None if data is None else len(data), len(s.want), geo.brief(h), bad), repro)
                ctx.probe('load gave new' if not bad else 'load gave old')
            if again:
                st, v = call(s.fn)
                bad = etext(v) if st != 'ok' else s.complete()
                if not bad:
                    st, h = call(s.load)
                    bad = etext(h) if st != 'ok' else s.loaded_ok(h)
                if bad:
                    ctx.fail('not-repairable', '%s: saving again over the remains: %s' % (what, bad), repro)
        fresh()
        call(s.fn)
        fresh()
        st, v, log, steps, allocs = dry(ctx, s.fn)
        bad = etext(v) if st != 'ok' else s.complete()
        if bad:
            ctx.fail('save-wrong', 'fault-free save: ' + bad)
            return
        ctx.run_done('dry')
        rng = None
        if isinstance(plan['cuts'], dict):
            rng = random.Random(plan['cuts']['seed'])
            n = plan['cuts']['n']
            todo = [['crash', u, k] for u, k in cuts(log, rng, n)]
            W = len(s.want)
            at = list(range(W)) if W <= n // 3 else sorted(rng.sample(range(W), n // 3))
            for i in range(0, len(at)):
                todo.append(['full', at[i], rng.choice(['ENOSPC', 'EDQUOT', 'EIO'])])
            todo += [['int', rng.randint(1, max(1, steps))] for _ in range(n // 6)]
            todo += [['alloc', rng.randint(0, max(0, allocs - 1))] for _ in range(n // 12 if allocs else 0)]
        else:
            todo = plan['cuts']
        path = s.file
        for k, c in enumerate(todo):
            repro = dict(plan, cuts=[c])
            note({'plan': repro})
            if c[0] == 'crash':
                img = image({path: oldbytes} if oldbytes is not None else {}, log, c[1], c[2], path)
                for f in os.listdir(ctx.scratch):
                    os.unlink(os.path.join(ctx.scratch, f))
                for p, d in img.items():
                    if os.path.dirname(p) == ctx.scratch:
                        with open(p, 'wb') as fh:
                            fh.write(d)
                ctx.fault('process killed / power lost')
                judge('crash after op %d + %d bytes' % (c[1], c[2]), repro, k % 10 == 0 or rng is None)
            elif c[0] == 'full':
                fresh()
                st, v, fired, ops = run_prog({'disk': [[WRITE, -1, -1, c[1], F_ERRNO, ERR[c[2]], 1]]}, s.fn)
                v = None
                disarm()
                for f in fired:
                    ctx.fault(f)
                judge('%s from byte %d on' % (c[2], c[1]), repro, k % 10 == 0 or rng is None)
            elif c[0] == 'int':
                fresh()
                st, v, fired, ops = run_prog({'int': c[1]}, s.fn)
                v = None
                disarm()
                for f in fired:
                    ctx.fault(f)
                judge('interrupt after code step %d' % c[1], repro, k % 10 == 0 or rng is None)
            else:
                fresh()
                st, v, fired, ops = run_prog({'alloc': [c[1], 1]}, s.fn)
                v = None
                disarm()
                for f in fired:
                    ctx.fault(f)
                judge('allocation %d fails' % c[1], repro, k % 10 == 0 or rng is None)
            ctx.run_done((t['kind'], c[:2], len(s.want)), True)


# ---------------------------------------------------------------- loads

def gen_load(rng, kinds=('geo', 'geo', 'vec', 'mat')):
    kind = rng.choice(kinds)
    if kind == 'mat':
        w = g_writer(rng)
        return {'kind': 'mat', 'w': w, 'm': iokit.g_mat(rng, w), 'spec': None, 'o': {}, 'path': 'str'}
    return gen_save(rng, kinds=(kind,))


class Load:
    def __init__(self, t, path, reader=None):
        self.t, self.file = t, path
        self.rd = reader or petiga(t['w'])
        p = path_form(path, t['path'])
        if t['kind'] == 'mat':
            self.buf = enc_mat(t['m'], t['w'])
            self.fn = lambda: self.rd.read_mat(p)
        else:
            self.s = Save(t, path)
            self.buf = self.s.buf
            if t['kind'] == 'geo':
                self.fn = lambda: self.rd.read(p)
            elif t['o']['nurbs']:
                self.fn = lambda: self.rd.read_vec(p, self.s.g)
            else:
                self.fn = lambda: self.rd.read_vec(p)
        self.data = bytes(self.buf.b)

    def put(self, data=None):
        with open(self.file, 'wb') as fh:
            fh.write(self.data if data is None else data)

    def ok(self, h, data=None):
        if self.t['kind'] == 'mat':
            return check_mat(h, decode(self.buf, data), self.t['w'])
        return self.s.loaded_ok(h, data)


def shrink_load(plan):
    if plan.get('blk'):
        yield dict(plan, blk=0)
    for q in shrink_pre(plan):
        yield q
    for q in shrink_progs(plan):
        yield q
    t = plan['t']
    if t['kind'] != 'mat':
        for s in geo.shrink_spec(t['spec']):
            yield dict(plan, t=dict(t, spec=s))


class S03:
    @staticmethod
    def gen(rng, tier):
        t = gen_load(rng)
        return {'blk': g_blk(rng), 'fill': g_fill(rng), 't': t, 'pre': g_pre(rng, t, True) if t['kind'] != 'vtk' else [], 'progs': {'seed': rng.randint(0, 2 ** 40), 'n': 25 if tier == 'quick' else 60},
                'tail': rng.choice([0, 0, 0, 5])}

    shrink = staticmethod(shrink_load)

    @staticmethod
    def run(plan, ctx):
        setup_io(ctx, plan)
        l = Load(plan['t'], ctx.scratch + '/file.dat')
        l.put(l.data)
        do_pre(plan, ctx, l.rd)
        call(l.fn)
        st, v, log, steps, allocs = dry(ctx, l.fn)
        bad = etext(v) if st != 'ok' else l.ok(v)
        if bad:
            ctx.fail('load-wrong', 'fault-free load: ' + bad, conc(plan, {}))
            return
        ctx.run_done('dry')
        for prog in progs_of(plan, lambda r, n: read_progs(r, log, n, len(l.data), steps, allocs)):
            note({'plan': conc(plan, prog)})
            st, v, fired, ops = run_prog(prog, l.fn)
            disarm()
            for f in fired:
                ctx.fault(f)
            ctx.event('run', json.dumps(prog), st, fired, geo.dig(v), [o[:1] + o[5:8] for o in ops])
            if st == 'ok':
                bad = l.ok(v)
                if bad:
                    ctx.fail('wrong-data', 'with faults %s the load returned wrong data: %s' % (fired, bad), conc(plan, prog))
            elif st == 'exc' and only_absorbed(fired):
                ctx.fail('spurious-raise', 'load raised %s; faults: %s' % (etext(v), fired), conc(plan, prog))
            elif st == 'exc' and not isinstance(v, Exception) and not any('interrupt' in f or 'signal' in f for f in fired):
                ctx.fail('load-died', 'load raised %s' % etext(v), conc(plan, prog))
            v = None
            st2, v2 = call(l.fn)
            bad = etext(v2) if st2 != 'ok' else l.ok(v2)
            if bad:
                ctx.fail('retry', 'after faults %s stopped, the repeated load: %s' % (fired, bad), conc(plan, prog))
            ctx.probe('load raised' if st == 'exc' else 'load returned')
            ctx.run_done((l.t['kind'], fired, st, [o[:1] + (o[5], o[6], o[7]) for o in ops]), bool(fired))


# ---------------------------------------------------------------- S04

def gen_damage(rng, buf):
    """-> list of [offset, bytes hex] or ['cut', n] / ['tail', hex]"""
    L = len(buf.b)
    r = rng.random()
    data = [it for it in buf.items if it[2] in ('real', 'imag') or (isinstance(it[3], tuple) and it[3][0] == 'J')]
    head = [it for it in buf.items if it not in data] if len(buf.items) < 60 else [it for it in buf.items if it[2] == 'int']
    out = []

    def hit(items, n):
        for _ in range(n):
            off, size, kind, key = rng.choice(items)
            m = rng.random()
            if m < 0.4:
                i = rng.randrange(size)
                out.append([off + i, '%02x' % (buf.b[off + i] ^ (1 << rng.randrange(8)))])
            elif m < 0.6:
                out.append([off, bytes(rng.randrange(256) for _ in range(size)).hex()])
            elif kind == 'int':
                v = struct.unpack(buf.I, buf.b[off:off + size])[0]
                v2 = rng.choice([v + 1, v - 1, 0, -1, 1, 2, 3, v * 2, 2 ** 31 - 1, -2 ** 31, v + 7])
                lo, hi = (-2 ** 31, 2 ** 31 - 1) if size == 4 else (-2 ** 63, 2 ** 63 - 1)
                out.append([off, struct.pack(buf.I, max(lo, min(hi, v2))).hex()])
            else:
                out.append([off, struct.pack(buf.R, rng.choice([float('nan'), float('inf'), -float('inf'), 0.0, -1.5, 1e30])).hex()])
    if r < 0.5 and data:
        hit(data, rng.choice([1, 1, 2, 5]))
    elif r < 0.9:
        hit(head, rng.choice([1, 1, 2]))
        if rng.random() < 0.3 and data:
            hit(data, 1)
    elif r < 0.95:
        out.append(['cut', rng.choice([rng.randrange(L), rng.choice(buf.items)[0]])])
    else:
        out.append(['tail', bytes(rng.randrange(256) for _ in range(rng.randint(1, 20))).hex()])
    return out


def apply_damage(data, dmg):
    b = bytearray(data)
    for d in dmg:
        if d[0] == 'cut':
            b = b[:d[1]]
        elif d[0] == 'tail':
            b += bytes.fromhex(d[1])
        else:
            x = bytes.fromhex(d[1])
            b[d[0]:d[0] + len(x)] = x
    return bytes(b)


def data_only(buf, old, new):
    if len(old) != len(new):
        return False
    for off, size, kind, key in buf.items:
        if old[off:off + size] != new[off:off + size] and not (kind in ('real', 'imag') or (isinstance(key, tuple) and key[0] == 'J')):
            return False
    return True


def sane(kind, h):
    np = core.np
    if kind == 'geo':
        if not isinstance(h, core.ig.NURBS):
            return 'load returned %r' % type(h)
        return geo.consistent(h)
    if kind == 'vec':
        return None if isinstance(h, np.ndarray) else 'load returned %r' % type(h)
    (M, N), (AI, AJ, AV) = h
    if len(AI) != M + 1 or AI[0] != 0 or AI[-1] != len(AJ) or len(AJ) != len(AV):
        return 'matrix sizes M=%r len(AI)=%d AI[-1]=%r len(AJ)=%d len(AV)=%d' % (M, len(AI), AI[-1], len(AJ), len(AV))
    return None


class S04:
    @staticmethod
    def gen(rng, tier):
        t = gen_load(rng)
        return {'t': t, 'fill': g_fill(rng), 'pre': g_pre(rng, t, True), 'dmg': {'seed': rng.randint(0, 2 ** 40), 'n': 60 if tier == 'quick' else 200}}

    @staticmethod
    def shrink(plan):
        for q in shrink_pre(plan):
            yield q
        if isinstance(plan['dmg'], list) and len(plan['dmg'][0]) > 1:
            for d in plan['dmg'][0]:
                yield dict(plan, dmg=[[d]])
        t = plan['t']
        if t['kind'] != 'mat':
            for s in geo.shrink_spec(t['spec']):
                if s['nf'] == t['spec']['nf']:
                    yield dict(plan, t=dict(t, spec=s))

    @staticmethod
    def run(plan, ctx):
        setup_io(ctx, plan)
        l = Load(plan['t'], ctx.scratch + '/file.dat')
        l.put(l.data)
        do_pre(plan, ctx, l.rd)
        st, v, log, steps, allocs = dry(ctx, l.fn)
        bad = etext(v) if st != 'ok' else l.ok(v)
        if bad:
            ctx.fail('load-wrong', 'undamaged load: ' + bad)
            return
        if isinstance(plan['dmg'], dict):
            rng = random.Random(plan['dmg']['seed'])
            todo = [gen_damage(rng, l.buf) for _ in range(plan['dmg']['n'])]
        else:
            todo = plan['dmg']
        core.kit.counts_reset()
        for dmg in todo:
            repro = dict(plan, dmg=[dmg])
            note({'plan': repro})
            new = apply_damage(l.data, dmg)
            l.put(new)
            st, v, log, steps, allocs = dry(ctx, l.fn)
            only = data_only(l.buf, l.data, new)
            ctx.fault('stored data damaged' if only else 'file cut or extended' if len(new) != len(l.data) else 'stored counts or flags damaged')
            ctx.event(json.dumps(dmg), st, geo.dig(v))
            if only:
                bad = 'raised ' + etext(v) if st != 'ok' else l.ok(v, new)
                if bad:
                    ctx.fail('data-damage', 'only data bytes damaged (%s): %s' % (dmg, bad), repro)
            elif st == 'exc':
                if not isinstance(v, Exception):
                    ctx.fail('load-died', 'load raised %s' % etext(v), repro)
                ctx.probe('load raised')
            else:
                bad = sane(l.t['kind'], v)
                if bad:
                    ctx.fail('inconsistent', 'damaged file (%s) loaded as inconsistent result: %s' % (dmg, bad), repro)
                ctx.probe('load returned')
            v = None
            ctx.run_done((l.t['kind'], dmg), new != l.data)


# ---------------------------------------------------------------- S05

BADARGS = ['none', 'none', 'none', 'none', 'none', 'nsd', 'name', 'index', 'vals', 'sampler', 'reshape', 'badfile']


class S05:
    @staticmethod
    def gen(rng, tier):
        load = rng.random() < 0.4
        t = gen_load(rng) if load else gen_save(rng, kinds=('geo', 'vec', 'vtk', 'vtk'))
        return {'blk': g_blk(rng), 't': t, 'load': load, 'bad': rng.choice(BADARGS), 'bseed': rng.randint(0, 10 ** 6),
                'progs': {'seed': rng.randint(0, 2 ** 40), 'n': 25 if tier == 'quick' else 60}}

    @staticmethod
    def shrink(plan):
        if plan.get('blk'):
            yield dict(plan, blk=0)
        for q in shrink_pre(plan):
            yield q
        for q in shrink_progs(plan):
            yield q
        if plan['bad'] != 'none':
            yield dict(plan, bad='none')
        t = plan['t']
        if t['kind'] in ('geo', 'vec'):
            for s in geo.shrink_spec(t['spec']):
                yield dict(plan, t=dict(t, spec=s))

    @staticmethod
    def task(plan, ctx):
        np = core.np
        t, bad = plan['t'], plan['bad']
        rng = random.Random(plan['bseed'])
        path = ctx.scratch + '/file.dat'
        if plan['load']:
            l = Load(t, path)
            data = l.data
            if bad == 'badfile':
                data = apply_damage(data, gen_damage(rng, l.buf))
            elif bad == 'index':
                path2 = ctx.scratch + '/absent'
                return lambda: l.put(data), (lambda: l.rd.read(path2))
            return (lambda: l.put(data)), l.fn
        s = Save(t, path)
        fn = s.fn
        if t['kind'] == 'geo' and bad == 'nsd':
            nsd = rng.choice([0, 4, 7, 'x'])
            fn = lambda: s.wr.write(path, s.g, nsd=nsd)
        elif t['kind'] == 'vec' and bad in ('reshape', 'vals', 'name'):
            arr = np.arange(7.0) if bad == 'reshape' else np.array(['a', 'b'], dtype=object)
            fn = lambda: s.wr.write_vec(path, arr, s.g if bad == 'reshape' else None)
        elif t['kind'] == 'vtk' and bad == 'name':
            o = t['o']
            arr = np.ones(tuple(s.g.shape) + (2,))
            nm = rng.choice(['\u03c3', 5, b'x'])
            kw = {'scalars': [('a', 0), (nm, 1)]} if rng.random() < 0.5 else {'vectors': [('v', (0, 1)), (nm, (0,))]}
            fn = lambda: s.wr.write(path, s.g, control=o['control'], fields=arr, **kw)
        elif t['kind'] == 'vtk' and bad in ('index', 'vals'):
            arr = np.ones(tuple(s.g.shape) + (2,))
            kw = {'scalars': [('a', 9)]} if rng.random() < 0.5 else {'vectors': [('v', (0, 1, 0, 1))]}
            fn = lambda: s.wr.write(path, s.g, fields=arr, **kw)
        elif t['kind'] == 'vtk' and bad == 'sampler':
            def boom(u):
                raise RuntimeError('sampler')
            fn = lambda: s.wr.write(path, s.g, sampler=boom)
        elif t['kind'] == 'vtk' and bad == 'reshape':
            wr = core.ig.io.VTK()
            wr.title = 'caf\u00e9'
            fn = lambda: wr.write(path, s.g)
        return (lambda: s.setup(None)), fn

    @staticmethod
    def run(plan, ctx):
        setup_io(ctx, plan)
        kit = core.kit
        setup, fn = S05.task(plan, ctx)
        setup()
        call(fn)
        setup()

        def one(prog):
            st, v, fired, ops = run_prog(prog, fn)
            n = kit.disk_open_fds()
            nops = len(kit.disk_oplog())
            held = v if isinstance(v, BaseException) else None
            late = []
            if not n:
                v = held = None
                gc.collect()
                late = kit.disk_oplog()[nops:]
            disarm()
            for f in fired:
                ctx.fault(f)
            ctx.event('run', json.dumps(prog), st, fired, n, len(late))
            if n:
                ctx.fail('handle-open', 'call ended (%s) with %d open file handle(s); faults: %s' % (st if held is None else etext(held), n, fired), conc(plan, prog))
                v = held = None
                gc.collect()
            if late:
                ctx.fail('late-io', 'file operations after the call had ended: %s' % [core.OPS[o[0]] for o in late], conc(plan, prog))
            ctx.probe('call raised' if st == 'exc' else 'call returned')
            if plan['bad'] != 'none' and st == 'exc':
                ctx.fault('rejected argument or damaged file')
            ctx.run_done((plan['t']['kind'], plan['load'], plan['bad'], fired, st, [o[:1] + o[5:8] for o in ops]), bool(fired) or st == 'exc')
        if isinstance(plan['progs'], dict):
            st, v, log, steps, allocs = dry(ctx, fn)
            v = None
            kit.counts_reset()
            rng = random.Random(plan['progs']['seed'])
            if plan['load']:
                ps = read_progs(rng, log, plan['progs']['n'], 400, steps, allocs)
            else:
                ps = write_progs(rng, log, plan['progs']['n'], steps, allocs)
            ps = [{}] + ps + [{'int': rng.randint(1, max(1, steps))} for _ in range(8)]
        else:
            ps = plan['progs']
        for prog in ps:
            setup()
            note({'plan': conc(plan, prog)})
            one(prog)


PROPS = {'S01': S01, 'S02': S02, 'S03': S03, 'S04': S04, 'S05': S05}
