"""S07: what is stored follows the history of acknowledged saves."""
import os, random, shutil, pathlib
import core, geo, opset, iokit, p_io
from core import *
from iokit import *
from p_io import Save, path_form, gen_opts, g_blk, setup_io, etext

NAMES = ['a.dat', 'a.dat.tmp', 'a.dat~', 'a.dat.bak', 'a', 'b.dat', 'a.dat.info', 'sub/a.dat', 'sub/b.dat', 'sub/a.dat.tmp', 'a.vtk', 'A.dat', '.a.dat', 'a b.dat', 'tmp']
# how many operations there may be is not known when the plan is made
PSEUDO = [(k, 0, '', -1, 0, n, n, 0, 0, None) for k, n in
          [(OPEN, 0), (STAT, 0), (SEEK, 0), (WRITE, 150), (WRITE, 150), (READ, 150), (READ, 150), (DUP, 0), (SEEK, 0), (CLOSE, 0)]]


def g_prog(rng, save):
    if rng.random() < 0.65:
        return {}
    dry = [o for o in PSEUDO if o[0] != (READ if save else WRITE)]
    steps = rng.choice([60, 300])
    p = (write_progs(rng, dry, 1, steps, 8) if save else read_progs(rng, dry, 1, rng.choice([40, 300]), steps, 12))
    return p[0] if p else {}


class Style:
    """what one plan's steps are made of; a narrow one repeats nearly the same calls"""
    def __init__(self, rng, npath):
        self.np = npath
        self.forms = ['str', 'str', 'rel', 'rel', 'Path', 'bytes', 'relPath', 'relbytes']
        self.kinds = ['geo', 'geo', 'geo', 'vec', 'vec', 'vtk']
        self.seeds = None
        self.edits = None
        self.cut = (0.42, 0.68, 0.82, 0.95)
        if rng.random() < 0.55:
            self.forms = rng.choice([['str'], ['rel'], ['rel', 'str'], ['Path'], ['relPath', 'rel']])
            self.kinds = rng.choice([['geo'], ['geo'], ['vec'], ['vec'], ['vtk'], ['geo', 'vec']])
            self.seeds = [rng.randint(0, 10 ** 9) for _ in range(rng.choice([1, 1, 2, 3]))]
            self.edits = ['transform', 'translate', 'scale', 'rotate'] if rng.random() < 0.8 else None
            self.cut = (0.36, 0.66, 0.76, 0.90)

    def seed(self, rng):
        return rng.choice(self.seeds) if self.seeds else rng.randint(0, 10 ** 9)


def g_step(rng, sty, last):
    r = rng.random()
    a, b, c, d = sty.cut
    if last and r < 0.75:
        return ['crash', dict(g_save(rng, sty), prog={}), rng.random(), rng.random()]
    if r < a:
        return ['save', g_save(rng, sty)]
    if r < b:
        return ['load', {'path': rng.randrange(sty.np), 'form': rng.choice(sty.forms), 'keep': rng.random() < 0.4, 'scribble': rng.random() < 0.4,
                         'as': rng.choice(['it'] * 8 + ['read', 'read_vec', 'read_mat']), 'r': rng.random(), 'prog': g_prog(rng, False)}]
    if r < c:
        return ['edit', rng.random(), rng.randint(0, 10 ** 9), sty.edits]
    if r < d:
        return ['user', rng.choice(['rm', 'mv', 'mv', 'cp', 'cp', 'swap', 'mat']), rng.randrange(sty.np), rng.randrange(sty.np), rng.randint(0, 10 ** 9)]
    return ['cd', rng.choice(['', 'sub'])]


def g_burst(rng, sty):
    """a path that is used again right away"""
    p, form, x = rng.randrange(sty.np), rng.choice(sty.forms), rng.random()
    sv = dict(g_save(rng, sty), path=p, form=form, g=x)
    ld = {'path': p, 'form': form, 'keep': False, 'scribble': rng.random() < 0.4, 'as': 'it', 'r': 0.0, 'prog': {}}
    ed = ['edit', x, rng.randint(0, 10 ** 9), sty.edits]
    us = ['user', rng.choice(['rm', 'mv', 'cp', 'swap']), rng.randrange(sty.np), rng.randrange(sty.np)]
    return rng.choice([[['save', sv], ['load', ld], ed, ['save', dict(sv, prog={})], ['load', dict(ld)]],
                       [['load', ld], ed, ['save', dict(sv, prog={})], ['load', dict(ld)]],
                       [['save', sv], us, ['save', dict(sv, prog={})], ['load', dict(ld)]],
                       [['save', sv], ['load', ld], us, ['load', dict(ld)]],
                       [['save', sv], ['cd', rng.choice(['', 'sub'])], ['load', ld]]])


def g_save(rng, sty):
    return {'kind': rng.choice(sty.kinds), 'g': rng.random(), 'w': rng.random(), 'path': rng.randrange(sty.np),
            'form': rng.choice(sty.forms), 'seed': sty.seed(rng), 'prog': g_prog(rng, True), 'twice': rng.random() < 0.15}


class Entry:
    """What a path may hold: `data` are its bytes now (None: no file); `alts` the things that
    were stored there completely: exactly one when the last save was acknowledged, more after
    a save that failed or was cut short."""
    def __init__(self, data=None, alts=(), sure=True):
        self.data, self.alts, self.sure = data, list(alts), sure


class What:
    def __init__(self, s=None, mat=None):
        if mat:
            self.kind, self.w, self.o, self.shape, self.buf = 'mat', mat[1], {}, None, enc_mat(*mat)
            return
        t = s.t
        self.kind, self.w, self.o, self.shape = t['kind'], t['w'], t['o'], tuple(s.g.shape)
        self.buf = getattr(s, 'buf', None)

    def ok(self, kind, h, shape=None):
        """is h this thing, loaded as kind"""
        if kind != self.kind:
            return 'is a %s' % self.kind
        if kind == 'geo':
            return check_geo(h, decode(self.buf), self.w, control=self.o['control'])
        if kind == 'mat':
            return check_mat(h, decode(self.buf), self.w)
        if shape is not None and (not self.o['nurbs'] or shape != self.shape):
            return None                  # asked for in another shape than it was stored in
        return check_vec(h, decode(self.buf), self.w, shape)


class Life:
    """One process: its objects end with it, the disk stays."""
    def __init__(self, plan, ctx, files, extras):
        self.plan, self.ctx = plan, ctx
        self.files, self.extras = files, set(extras)
        self.root = ctx.scratch
        os.chdir(self.root)
        self.names = plan['paths']
        self.pool = [geo.build(s) for s in plan['specs']]
        self.wr = [petiga(w) for w in plan['ws']]
        self.vtk = core.ig.io.VTK()
        self.key = []
        self.watch = []                  # loaded objects and what they were

    def full(self, i):
        return os.path.join(self.root, self.names[i])

    def disk(self):
        out = {}
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, 'rb') as fh:
                    out[p] = fh.read()
        return out

    def coarse(self):
        """files of one clock tick: their times say nothing"""
        if self.plan['coarse']:
            for n in self.names:
                p = os.path.join(self.root, n)
                if os.path.exists(p):
                    os.utime(p, ns=(10 ** 18, 10 ** 18))

    def others(self, what, target, tidy):
        """nothing but the target has changed"""
        now = self.disk()
        for n in self.names:
            p = os.path.join(self.root, n)
            if p == target:
                continue
            e = self.files.get(n, Entry())
            if now.get(p) != e.data:
                self.ctx.fail('other-file', '%s: %s %s, which no call had named, %s' % (
                    what, 'the file' if e.data is not None else 'the path', n,
                    'is gone' if p not in now else 'has appeared' if e.data is None else 'has other content'))
                e.data = now.get(p)
                e.alts = []
                self.files[n] = e
        for k, (src, h, d) in enumerate(self.watch):
            if geo.dig(h) != d:
                self.ctx.fail('loaded-changed', '%s: what had been loaded from %s earlier has changed to %s' % (what, src, geo.brief(h)))
                self.watch.pop(k)
                break
        known = {os.path.join(self.root, n) for n in self.names}
        ex = {p[len(self.root) + 1:] for p in now if p not in known}
        if tidy and ex - self.extras:
            self.ctx.fail('extra-file', '%s returned and left a file that was not asked for' % what)
        self.extras = ex
        return now

    def pick(self, x, xs):
        return xs[int(x * len(xs)) % len(xs)]

    def make(self, a):
        g = self.pick(a['g'], self.pool)
        wi = int(a['w'] * len(self.wr)) % len(self.wr)
        f = g.fields
        nf = 0 if f is None else f.shape[-1]
        t = {'kind': a['kind'], 'w': self.plan['ws'][wi], 'path': a['form'],
             'o': gen_opts(random.Random(a['seed']), a['kind'], g.dim, nf)}
        if a['kind'] == 'vec':
            t['o']['n'] = min(t['o']['n'], 60)
        return Save(t, self.full(a['path']), g=g, writer=self.vtk if a['kind'] == 'vtk' else self.wr[wi])

    def save(self, a):
        ctx = self.ctx
        s = self.make(a)
        n = self.names[a['path']]
        old = self.files.get(n, Entry())
        what = 'save of a %s to %s' % (a['kind'], n)
        st, v, fired, ops = run_prog(a['prog'], s.fn)
        disarm()
        for f in fired:
            ctx.fault(f)
        ctx.event('save', n, st, fired, geo.dig(v) if st == 'exc' else '')
        self.key.append(('save', a['kind'], n, st, fired))
        if st in ('ok', 'late'):
            bad = s.complete()
            if bad:
                ctx.fail('not-stored', '%s returned normally%s; %s' % (what, ' although ' + ', '.join(fired) if fired else '', bad))
            self.files[n] = Entry(s.content(), [What(s)])
        else:
            if only_absorbed(fired):
                ctx.fail('save-raises', '%s raised %s; faults: %s' % (what, etext(v), fired))
            v = None
            self.files[n] = Entry(s.content(), old.alts + [What(s)], False)
        self.coarse()
        self.others(what, s.file, st == 'ok')
        if a['twice'] and st == 'exc':
            self.save(dict(a, prog={}, twice=False))

    def load(self, a):
        ctx = self.ctx
        n = self.names[a['path']]
        p = self.full(a['path'])
        e = self.files.get(n, Entry())
        ws = {repr(sorted(x.w.items())) for x in e.alts if x.w}
        if len(ws) > 1 or (e.data is not None and not e.alts):
            return
        w = e.alts[-1].w if e.alts else self.pick(a['r'], self.plan['ws'])
        rd = self.wr[self.plan['ws'].index(w)]
        kinds = [x.kind for x in e.alts if x.kind != 'vtk']
        as_ = a['as']
        if as_ == 'it':
            as_ = {'geo': 'read', 'vec': 'read_vec', 'mat': 'read_mat'}[kinds[-1]] if kinds else 'read'
        kind = {'read': 'geo', 'read_vec': 'vec', 'read_mat': 'mat'}[as_]
        q = path_form(p, a['form'])
        args, shape = [q], None
        if as_ == 'read_vec' and e.sure and kinds == ['vec'] and e.alts[0].o['nurbs'] and a['r'] < 0.7:
            fit = [g for g in self.pool if tuple(g.shape) == e.alts[0].shape]
            if fit:
                args.append(fit[0])
                shape = e.alts[0].shape
        st, v, fired, ops = run_prog(a['prog'], lambda: getattr(rd, as_)(*args))
        disarm()
        for f in fired:
            ctx.fault(f)
        what = '%s of %s' % (as_, n)
        clean = e.sure and e.alts
        ctx.event('load', n, as_, st, fired, geo.dig(v))
        self.key.append(('load', as_, n, st, fired, len(e.alts)))
        if st in ('ok',):
            if e.data is None:
                ctx.fail('load-nothing', '%s returned %s although there is no file' % (what, geo.brief(v)))
                return
            bads = [x.ok(kind, v, shape) for x in e.alts]
            if all(bads):
                ctx.fail('load-wrong', '%s returned %s; stored was: %s' % (what, geo.brief(v), bads[-1]))
            elif a['scribble']:
                for A in ([v.array] + list(v.knots) if kind == 'geo' else v[1] if kind == 'mat' else [v]):
                    if hasattr(A, 'flags') and A.flags.writeable and A.size:
                        A[...] = A * 2 + 1
            elif a['keep'] and kind == 'geo' and len(self.pool) < 6:
                self.pool.append(v)
            elif len(self.watch) < 4:
                self.watch.append((n, v, geo.dig(v)))
            ctx.probe('load gave what was stored')
        elif st == 'exc':
            if not isinstance(v, Exception) and not any('interrupt' in f or 'signal' in f for f in fired):
                ctx.fail('load-died', '%s raised %s' % (what, etext(v)))
            if clean and e.alts[0].kind == kind and only_absorbed(fired):
                ctx.fail('load-raises', '%s raised %s; the save was acknowledged; faults: %s' % (what, etext(v), fired))
            ctx.probe('load raised')
        v = None
        self.others(what, None, st == 'ok')

    def edit(self, x, seed, names=None):
        g = self.pick(x, self.pool)
        rng = random.Random(seed)
        if rng.random() < 0.2 and g.array.flags.writeable:
            i = rng.randrange(g.array.size)
            g.array.flat[i] = g.array.flat[i] * 1.5 + 0.25 * (i % g.array.shape[-1] != 3)
            return self.others('write into the array', None, True)
        op = opset.gen_edit(rng, g.dim, names)
        if g.array.size > 1500 and op['op'] in ('refine', 'elevate', 'insert'):
            return
        st, c = call(opset.prep, g, op)
        if st == 'ok':
            st, v = call(c)
        self.ctx.event('edit', op['op'], st)
        self.others('edit', None, True)

    def user(self, k, i, j, m=0):
        a, b = self.names[i], self.names[j]
        pa, pb = self.full(i), self.full(j)
        e, f = self.files.get(a, Entry()), self.files.get(b, Entry())
        if k == 'mat':
            r = random.Random(m)
            w = r.choice(self.plan['ws'])
            x = What(mat=(g_mat(r, w), w))
            self.files[a] = Entry(bytes(x.buf.b), [x])
            with open(pa, 'wb') as fh:
                fh.write(bytes(x.buf.b))
            self.coarse()
            core.kit.disk_reset()
            return
        if e.data is None or (i == j and k != 'rm'):
            return
        if k == 'rm':
            os.unlink(pa)
            self.files[a] = Entry()
        elif k == 'mv':
            os.replace(pa, pb)
            self.files[b], self.files[a] = e, Entry()
        elif k == 'cp':
            t = os.stat(pb).st_mtime_ns if f.data is not None else None
            with open(pb, 'wb') as fh:
                fh.write(e.data)
            if t is not None and self.plan['coarse']:
                os.utime(pb, ns=(t, t))
            self.files[b] = Entry(e.data, e.alts, e.sure)
        elif f.data is not None:
            x = pa + '.swapping'
            os.rename(pa, x)
            os.rename(pb, pa)
            os.rename(x, pb)
            self.files[a], self.files[b] = f, e
        core.kit.disk_reset()
        self.key.append((k, a, b))
        self.coarse()

    def crash(self, a, x, y):
        """the process ends at some point of this save -> what is on the disk then"""
        s = self.make(dict(a, form=a['form']))
        n = self.names[a['path']]
        before = self.disk()
        core.kit.disk_reset()
        st, v, fired, log = run_prog({}, s.fn)
        disarm()
        if st != 'ok':
            self.ctx.fail('save-raises', 'save of a %s to %s raised %s' % (a['kind'], n, etext(v)))
            return None
        cs = cuts(log, random.Random(7), 4000)
        whole = [c for c in cs if c[1] == 0]
        c = self.pick(y, whole if x < 0.4 else cs)
        img = image(before, log, c[0], c[1], s.file)
        old = self.files.get(n, Entry())
        done = c[0] >= len(log)
        self.files[n] = Entry(img.get(s.file), [What(s)] if done else old.alts + [What(s)], done)
        self.ctx.fault('process killed / power lost')
        self.ctx.event('crash', n, c, len(log))
        self.key.append(('crash', a['kind'], n, c))
        return {p: d for p, d in img.items() if p.startswith(self.root + '/')}

    def end(self):
        """no more faults: everything stored can be loaded, everything can be saved again"""
        for i in range(len(self.names)):
            self.load({'path': i, 'form': 'str', 'keep': False, 'scribble': False, 'as': 'it', 'r': 0.0, 'prog': {}})
        for i in range(len(self.names)):
            self.save({'kind': ('geo', 'vec')[i % 2], 'g': i / 7.0, 'w': 0.0, 'path': i, 'form': 'rel', 'seed': 11 + i, 'prog': {}, 'twice': False})
        for i in range(len(self.names)):
            self.load({'path': i, 'form': 'rel', 'keep': False, 'scribble': False, 'as': 'it', 'r': 0.0, 'prog': {}})

    def run(self, steps):
        core.kit.disk_reset()
        self.others('restart', None, False)
        for s in steps:
            if s[0] == 'crash':
                return self.files, self.extras, self.crash(*s[1:]), self.key
            if s[0] == 'cd':
                os.chdir(os.path.join(self.root, s[1]))
            else:
                getattr(self, s[0])(*s[1:])
        return self.files, self.extras, None, self.key


class S07:
    @staticmethod
    def gen(rng, tier):
        k = rng.choice([1, 2, 2, 3, 3, 4])
        sty = Style(rng, k)
        paths = rng.sample(NAMES, k)
        if rng.random() < 0.4 and 'a.dat' not in paths:
            paths[0] = 'a.dat'
        ws = [g_writer(rng) for _ in range(rng.choice([1, 1, 2]))]
        specs = [geo.gen(rng, maxp=(3, 2, 2), maxspans=(3, 2, 2), maxctl=(9, 20, 30)) for _ in range(1 if sty.seeds and rng.random() < 0.7 else rng.randint(1, 3))]
        lives = []
        for i in range(rng.choice([1, 2, 2, 3])):
            m = rng.randint(3, 12)
            steps = []
            for j in range(m):
                if j < m - 1 and rng.random() < 0.1:
                    steps += g_burst(rng, sty)
                else:
                    steps.append(g_step(rng, sty, j == m - 1))
            lives.append(steps)
        return {'blk': g_blk(rng), 'paths': paths, 'ws': ws, 'specs': specs, 'lives': lives, 'coarse': rng.random() < 0.5}

    @staticmethod
    def shrink(plan):
        L = plan['lives']
        if plan.get('blk'):
            yield dict(plan, blk=0)
        for i in range(len(L)):
            yield dict(plan, lives=L[:i] + L[i + 1:])
        for i in range(len(L)):
            if len(L[i]) > 4:
                h = len(L[i]) // 2
                yield dict(plan, lives=L[:i] + [L[i][:h]] + L[i + 1:])
                yield dict(plan, lives=L[:i] + [L[i][h:]] + L[i + 1:])
        for i in range(len(L)):
            for j in range(len(L[i])):
                yield dict(plan, lives=L[:i] + [L[i][:j] + L[i][j + 1:]] + L[i + 1:])
        for i in range(len(L)):
            for j, s in enumerate(L[i]):
                if s[0] in ('save', 'load'):
                    a = s[1]
                    for k, v in (('prog', {}), ('form', 'str'), ('scribble', False), ('keep', False), ('twice', False)):
                        if k in a and a[k] != v:
                            yield dict(plan, lives=L[:i] + [L[i][:j] + [[s[0], dict(a, **{k: v})]] + L[i][j + 1:]] + L[i + 1:])
        if plan['coarse']:
            yield dict(plan, coarse=False)
        S = plan['specs']
        if len(S) > 1:
            for i in range(len(S)):
                yield dict(plan, specs=[S[i]])
        for i in range(len(S)):
            for q in geo.shrink_spec(S[i]):
                yield dict(plan, specs=S[:i] + [q] + S[i + 1:])

    @staticmethod
    def run(plan, ctx):
        setup_io(ctx, plan)
        os.makedirs(os.path.join(ctx.scratch, 'sub'), exist_ok=True)
        files, extras, key = {}, [], []
        for k, steps in enumerate(plan['lives'] + [None]):
            def one(sub):
                life = Life(plan, sub, files, extras)
                if steps is None:
                    life.run([])
                    life.end()
                    return life.files, life.extras, None, life.key
                return life.run(steps)
            r = ctx.fork(one)
            if r is None:
                return
            files, extras, img, ky = r
            key += ky
            if k < len(plan['lives']):
                ctx.fault('process restart')
            if img is not None:
                for d, _, fs in os.walk(ctx.scratch):
                    for f in fs:
                        os.unlink(os.path.join(d, f))
                for p, data in img.items():
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, 'wb') as fh:
                        fh.write(data)
        ctx.run_done(key, any('fault' not in f for f in ctx.faults))


PROPS = {'S07': S07}
