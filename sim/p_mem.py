"""F03, F04, F05: leftover memory, survival of the process, leaks."""
import array, json, random, gc, os, sys, struct, math
import core, geo, opset, iokit, p_io, p_thr, p_fail
from core import *
from p_fail import faulted, gen_faults, FNAME, g_any

BUDGET = 60000000

PATTERNS = {'nan': 0xFFFFFFFFFFFFFFFF, 'inf': 0x7FF0000000000000, 'one': 0x3FF0000000000000, 'half': 0x3FE0000000000000,
            'small int': 0x0000000200000002, 'denormal': 1, 'two ints': 0x0000000100000001, 'huge': 0x7FE1234567890123,
            'neg': 0xC008000000000000}


# ---------------------------------------------------------------- further calls

def g_garble(rng, dim):
    """A geometry whose stored knots were damaged (any load accepts such data)."""
    return {'op': 'garble', 'a': {'axis': rng.randrange(dim), 'h': [[rng.choice(
        ['nan', 'inf', '-inf', 'swap', 'same', 'rev', 'huge', 'multi', 'multi+', 'ulp', 'num', 'zero', 'past', 'few', 'many', 'end nan']),
        rng.random(), rng.choice([0.0, -1.0, 0.5, 1e300, -1e-300, 3.0])] for _ in range(rng.choice([1, 1, 1, 2, 3]))]}}


def p_garble(g, a):
    np = core.np
    ax = a['axis'] % g.dim
    p = g.degree[ax]
    K = [np.array(k) for k in g.knots]
    U = K[ax]
    m = len(U)
    C = np.array(g.array[..., :4])
    F = np.array(g.array[..., 4:])
    for h, f, v in a['h']:
        i = min(m - 1, int(f * m))
        if h in ('nan', 'inf', '-inf'):
            U[i] = float(h)
        elif h == 'swap':
            j = (i + 1) % m
            U[i], U[j] = U[j], U[i]
        elif h == 'same':
            U[:] = U[i]
        elif h == 'rev':
            U[:] = U[::-1].copy()
        elif h == 'huge':
            U *= 1e300
        elif h in ('multi', 'multi+'):
            U[max(0, i - (p if h == 'multi' else p + 1)):i + 1] = U[i]
        elif h == 'ulp':
            U[i] = np.nextafter(U[i], U[i] + v)
        elif h == 'num':
            U[i] = v
        elif h == 'zero':
            U[:] = 0
        elif h == 'past':
            U[p + 1:] = U[p]
        elif h == 'end nan':                  # an end of the domain
            U[p if v > 0 else m - p - 1] = [np.nan, np.inf, -np.inf][int(f * 3)]
        elif h in ('few', 'many'):            # counts that do not go together
            n = C.shape[ax]
            k = max(1, int(f * (n + 1))) if h == 'few' else n + 1 + int(f * 4)
            C, F = [np.take(x, range(k), axis=ax, mode='wrap') for x in (C, F)]
    return opset.Call(core.ig.NURBS, [K, C], {'fields': F} if F.shape[-1] else {})


def g_damaged(rng, dim):
    return {'op': 'damaged', 'a': {'w': iokit.g_writer(rng), 'seed': rng.randint(0, 1 << 30), 'n': rng.choice([0, 1, 1, 1, 2])}}


def p_damaged(g, a):
    """Save, damage the stored bytes, load again."""
    buf = iokit.enc_geo(g, a['w'])
    rng = random.Random(a['seed'])
    dmg = []
    for _ in range(a['n']):
        dmg += p_io.gen_damage(rng, buf)
    path = core.SCRATCH + '/dmg.dat'
    with open(path, 'wb') as fh:
        fh.write(p_io.apply_damage(bytes(buf.b), dmg))
    return opset.Call(iokit.petiga(a['w']).read, [path])


WILD = [['none'], ['str', 'x'], ['str', ''], ['int', 0], ['int', -1], ['int', 3], ['int', 17], ['int', -100], ['int', 2 ** 31], ['int', 2 ** 31 - 1],
        ['int', -2 ** 31], ['int', 2 ** 63], ['int', -2 ** 63 - 1], ['f', 0.5], ['f', -3.25], ['f', 1e308], ['nan'], ['inf'], ['-inf'],
        ['list', []], ['list', [[]]], ['list', [1.0]], ['list', [3, 1, 2]], ['list', [[1, 2], [3, 4]]], ['list', [1, [2, 3]]],
        ['list', [0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5]], ['empty', [0]], ['empty', [3, 0]], ['empty', [0, 4]], ['zeros', [2, 2, 4]], ['zeros', [1]],
        ['zeros', [5]], ['zeros', [2, 2, 2, 2]], ['nans', [3]], ['nans', [2, 4]], ['cplx', [3]], ['bool', True], ['obj'], ['objarr', [3]], ['strarr', [3]],
        ['geo'], ['same'], ['type'], ['slice'], ['ellipsis'], ['ro', [4]], ['neg', [5]], ['f4', [5]], ['i8', [5]], ['big', [5]], ['view', [3, 4]],
        ['int', 2 ** 31 - 2], ['int', 2 ** 30], ['int', 10 ** 9]]
HUGE = [2 ** 31 - 1, 2 ** 31 - 2, 2 ** 30, 10 ** 9, 2 ** 31 - 7]      # sizes computed from these overflow


def wild(g, w):
    np = core.np
    k = w[0]
    if k in ('str', 'int', 'f', 'list', 'bool'):
        return w[1]
    if k in ('nan', 'inf', '-inf'):
        return float(k)
    if k == 'none':
        return None
    if k in ('empty', 'zeros'):
        return np.zeros(w[1])
    if k == 'nans':
        return np.full(w[1], np.nan)
    if k == 'cplx':
        return np.full(w[1], 0.5 + 1j)
    if k == 'obj':
        return object()
    if k == 'objarr':
        return np.array([None] * w[1][0], dtype=object)
    if k == 'strarr':
        return np.array(['a'] * w[1][0])
    if k == 'geo':
        return core.ig.cad.line()
    if k == 'same':
        return g
    if k == 'type':
        return core.ig.NURBS
    if k == 'slice':
        return slice(None, None, -1)
    if k == 'ellipsis':
        return Ellipsis
    if k == 'ro':
        a = np.linspace(0, 1, w[1][0])
        a.flags.writeable = False
        return a
    if k == 'neg':
        return np.linspace(0, 1, w[1][0])[::-1]
    if k == 'f4':
        return np.linspace(0, 1, w[1][0]).astype('f4')
    if k == 'i8':
        return np.arange(w[1][0])
    if k == 'big':
        return np.linspace(0, 1, w[1][0]).astype('>f8')
    return np.zeros((w[1][0] * 2, w[1][1]))[::2]


def g_wild(rng, spec):
    """A call with one or two of its arguments replaced by something else."""
    dim = len(spec['shape'])
    if rng.random() < 0.05:
        op = opset.gen_free(rng, ['grid']) if rng.random() < 0.6 else opset.gen_edit(rng, dim, ['elevate', 'insert', 'remove', 'refine', 'unclamp'])
        return {'op': 'wild', 'a': {'of': op, 'at': [[rng.random(), ['int', rng.choice(HUGE)]] for _ in range(rng.choice([1, 1, 2]))]}}
    while True:
        op = rng.choice([lambda: opset.gen_query(rng, dim), lambda: opset.gen_edit(rng, dim), lambda: opset.gen_new(rng, spec),
                         lambda: opset.gen_free(rng, [x for x in opset.FREE if x not in ('table',)])])()
        if op['op'] not in ('transformation', 'wild'):
            break
    return {'op': 'wild', 'a': {'of': op, 'at': [[rng.random(), rng.choice(WILD)] for _ in range(rng.choice([1, 1, 1, 2]))]}}


def p_wild(g, a):
    c = opset.prep(g, a['of'])
    args, kw = list(c.args), dict(c.kw)
    keys = list(range(len(args))) + sorted(kw)
    for f, w in a['at']:
        if not keys:
            break
        k = keys[int(f * len(keys))]
        v = wild(g, w)
        # degree elevation by thousands is legitimate but takes as long as asked for
        if isinstance(k, int):
            args[k] = v
        else:
            kw[k] = v
    return opset.Call(c.fn, args, kw)


def g_tower(rng, dim):
    """Repeated elevation and insertion up to unusual degrees and multiplicities."""
    return {'op': 'tower', 'a': {'axis': rng.randrange(dim), 'times': rng.choice([1, 2, 3, 5, 8, 12, 20, 31, 40]), 'f': rng.choice([0.0, 0.5, 0.3, 1.0])}}


def p_tower(g, a):
    def run():
        ax = a['axis'] % g.dim
        h = g.copy()
        h.elevate(ax, a['times'])
        v = opset.val(h, ax, ['f', a['f']])
        try:
            h.insert(ax, v, h.degree[ax])
        except Exception:
            pass
        return h
    return opset.Call(run)


for _n, _f in (('garble', p_garble), ('damaged', p_damaged), ('wild', p_wild), ('tower', p_tower)):
    opset.ALL[_n] = _f


def g_step(rng, spec, wilds=0.25):
    dim = len(spec['shape'])
    r = rng.random()
    if r < wilds:
        return rng.choice([lambda: g_garble(rng, dim), lambda: g_damaged(rng, dim), lambda: p_fail.g_bad(rng, dim),
                           lambda: g_wild(rng, spec), lambda: g_wild(rng, spec), lambda: g_tower(rng, dim)])()
    if r < wilds + 0.3:
        return opset.gen_edit(rng, dim)
    if r < wilds + 0.45:
        return opset.gen_query(rng, dim)
    return g_any(rng, spec)


KEEP = ('copy', 'clone', 'slice', 'extract', 'boundary', 'extrude', 'revolve', 'ruled', 'sweep', 'join', 'cad.refine', 'garble', 'damaged', 'tower', 'wild')


class Session:
    """A user's session: a current geometry and a list of steps on it."""
    def __init__(self, spec):
        self.g = geo.build(spec)

    def step(self, s, before=None, fault=('none',)):
        """-> (status, value, hit)"""
        op = s['op']
        st, c = call(opset.prep, self.g, op)
        if st != 'ok':
            return 'skip', None, False
        if op['op'] in ('plot',):
            pl = c.fn.__self__
            rec = sys.modules['igakit.plot_nul']
            c0 = c
            c = opset.Call(lambda: (c0(), list(rec.calls))[1])
        elif op['op'] == 'save':
            path = core.SCRATCH + '/t03.dat'
            if os.path.exists(path):
                os.unlink(path)
        if before:
            before()
        if fault[0] == 'a' and op['op'] == 'wild' and any(w[0] == 'strarr' for _, w in op['a']['at']):
            fault = ('none',)        # numpy itself dies when memory runs out while it compares a string array with a number
        st, v, hit = faulted(list(fault), c)
        if op['op'] == 'save' and st == 'ok':
            with open(core.SCRATCH + '/t03.dat', 'rb') as fh:
                v = fh.read()
        if st == 'ok' and s.get('keep') and op['op'] in KEEP:
            r = [x for x in p_fail.results(v) if 1 <= x.dim <= 3 and x.array.size <= 6000]
            if r:
                self.g = r[0]
        return st, v, hit


def gen_steps(rng, spec, n, wilds=0.25):
    return [{'op': g_step(rng, spec, wilds), 'keep': rng.random() < 0.6} for _ in range(n)]


def fold(steps):
    return steps


def shrink_steps(plan, key):
    st = plan[key]
    if len(st) > 3:
        h = len(st) // 2
        yield dict(plan, **{key: st[h:]})
        yield dict(plan, **{key: st[:h]})
    for i in range(len(st)):
        if len(st) > 1 or key != 'steps':
            yield dict(plan, **{key: st[:i] + st[i + 1:]})


# ---------------------------------------------------------------- F03

def gen_f03(rng, tier):
    spec = geo.gen(rng, dim=rng.choice([1, 1, 2, 2, 3]), maxp=(4, 3, 2), maxspans=(4, 3, 2), maxctl=(12, 24, 36))
    nspec = geo.gen(rng, dim=rng.choice([1, 2, 3]), maxp=(3, 2, 2), maxspans=(3, 2, 2), maxctl=(10, 20, 30))
    steps = gen_steps(rng, spec, rng.choice([1, 2, 3, 5, 8]), 0.12)
    noise = [dict(x, fault=rng.choice([['none'], ['none'], ['i', rng.choice([3, 10, 40, 200])], ['a', rng.randrange(8), 1, 0]]) if x['op']['op'] not in ('save', 'load', 'damaged') or rng.random() < 0.4 else p_fail.gen_disk(rng))
             for x in gen_steps(rng, nspec, rng.choice([0, 1, 2, 4]), 0.3)]
    names = rng.sample(sorted(PATTERNS), 3)
    return {'spec': spec, 'steps': steps, 'nspec': nspec, 'noise': noise,
            'worlds': [{'fill': n, 'noise': i % 2 == 1, 'twice': i == 2, 'new': i != 1 and rng.random() < 0.6} for i, n in enumerate(names)] + [{'fill': None, 'noise': True, 'twice': True}]}


def enc_res(st, v):
    if st == 'exc':
        return (st, type(v).__name__)
    return (st, geo.enc(v) if not isinstance(v, bytes) else ('B', v))


def renewed(g):
    """Another object for the same geometry, which has no past."""
    def make():
        C = core.np.array(g.control)
        kw = {} if g.fields is None else {'fields': core.np.array(g.fields)}
        return core.ig.NURBS([core.np.array(k) for k in g.knots], C, **kw)
    st, h = call(make)
    if st != 'ok' or geo.obs(h) != geo.obs(g):
        h = g.copy()
    return h


class F03:
    gen = staticmethod(gen_f03)

    @staticmethod
    def shrink(plan):
        for i in range(len(plan['worlds'])):
            if len(plan['worlds']) > 1:
                yield dict(plan, worlds=[plan['worlds'][i]])
        if len(plan['worlds']) == 1:
            w = plan['worlds'][0]
            if w['noise']:
                yield dict(plan, worlds=[dict(w, noise=False)])
            if w['twice']:
                yield dict(plan, worlds=[dict(w, twice=False)])
            if w.get('new'):
                yield dict(plan, worlds=[dict(w, new=False)])
        for k in ('steps', 'noise'):
            for q in shrink_steps(plan, k):
                yield q
        for s in geo.shrink_spec(plan['spec']):
            if s['nf'] == plan['spec']['nf']:
                yield dict(plan, spec=s)

    @staticmethod
    def session(plan, world, sub):
        core.SCRATCH = sub.scratch
        kit.alloc_install()
        kit.disk_enable(sub.scratch + '/')
        out = []

        def fill():
            if world['fill'] is not None:
                p = PATTERNS[world['fill']]
                kit.alloc_fill(True, p)
                kit.mem_fill(True, p)
                kit.stack_fill(p)

        def unfill():
            kit.alloc_fill(False, 0)
            kit.mem_fill(False, 0)
        if world['noise'] and plan['noise']:
            ns = Session(plan['nspec'])
        reps = 2 if world['twice'] else 1
        for rep in range(reps):
            s = Session(plan['spec'])
            row = []
            for i, x in enumerate(plan['steps']):
                if world.get('new'):
                    s.g = renewed(s.g)
                if world['noise']:
                    for y in plan['noise'][i % 3::3] if plan['noise'] else []:
                        st, v, hit = ns.step(y, None, y['fault'])
                        v = None
                        if hit and y['fault'][0] != 'none':
                            sub.fault('earlier call: ' + FNAME[y['fault'][0]])
                st, v, _ = s.step(x, fill)
                unfill()
                so, o = call(geo.obs, s.g)
                row.append((geo.dig(enc_res(st, v)), geo.dig(o) if so == 'ok' else 'unreadable', st, geo.brief(v)))
                v = None
            out.append(row)
        stt = kit.alloc_stats()
        if world['fill'] is not None:
            sub.fault('memory handed out with leftover contents: ' + world['fill'], stt['fills'] + 1)
        sub.run_done((world['fill'], world['noise'], [r[:2] for r in out[0]]), world['fill'] is not None or world['noise'])
        return out

    @staticmethod
    def run(plan, ctx):
        ref = ctx.fork(lambda sub: F03.session(plan, {'fill': None, 'noise': False, 'twice': False}, sub))
        if ref is None:
            return
        for x, r in zip(plan['steps'], ref[0]):
            ctx.probe('%s %s' % (x['op']['op'], {'ok': 'returned', 'exc': 'raised', 'skip': 'not applicable'}[r[2]]))
        ctx.event([r[:3] for r in ref[0]])
        for w in plan['worlds']:
            rep = dict(plan, worlds=[w])
            note({'plan': rep})
            got = ctx.fork(lambda sub: F03.session(plan, w, sub))
            if got is None:
                return
            for k, row in enumerate(got):
                for i, (a, b) in enumerate(zip(ref[0], row)):
                    if a[:2] != b[:2]:
                        how = 'leftover memory %s%s%s' % (w['fill'], ', other calls before' if w['noise'] else ', geometry made anew' if w.get('new') else '', ', repeated' if k else '')
                        what = 'result' if a[0] != b[0] else 'geometry after it'
                        ctx.fail('memory-dependent', 'step %d %s: the %s depends on what was in memory or ran before (%s): %s %s, otherwise %s %s' % (
                            i, json.dumps(plan['steps'][i]['op'])[:300], what, how, b[2], b[3], a[2], a[3]), rep)
                        break
                else:
                    continue
                break


# ---------------------------------------------------------------- F04

def gen_f04(rng, tier):
    spec = geo.gen(rng, dim=rng.choice([1, 1, 2, 2, 3]), maxp=(5, 3, 2), maxspans=(4, 3, 2), maxctl=(14, 30, 40))
    steps = gen_steps(rng, spec, rng.choice([2, 4, 6, 10]), 0.5)
    if rng.random() < 0.5:
        first = rng.choice([lambda: g_garble(rng, len(spec['shape'])), lambda: g_damaged(rng, len(spec['shape']))])()
        steps = [{'op': first, 'keep': True}] + steps
    for x in steps:
        r = rng.random()
        x['fault'] = ['a', rng.randrange(10), rng.choice([1, 1, -1]), rng.choice([0, 0, 64])] if r < 0.25 else \
            ['i', rng.choice([5, 20, 60, 200, 700])] if r < 0.32 else ['none']
        if x['op']['op'] in ('save', 'load', 'damaged') and rng.random() < 0.5:
            x['fault'] = p_fail.gen_disk(rng)
    return {'spec': spec, 'steps': steps}


def canon():
    """Work that shows whether the process is still in order."""
    np = core.np
    cad = core.ig.cad
    out = []
    c = cad.circle(2.0, angle=(0.1, 4.0)).elevate(0, 1)
    c.insert(0, 0.3, 1).remove(0, 0.3, 1)
    s = cad.extrude(c, 1.0, 2)
    s.refine(1, [0.25, 0.5]).elevate(1, 1)
    out.append(geo.enc(s))
    out.append(geo.enc(s([0.1, 0.9], [0.2, 0.7])))
    out.append(geo.enc(s.gradient(None, [0.1, 0.9], [0.2, 0.7])))
    out.append(geo.enc(s.extract(0, 0.4)))
    st, v = call(c.insert, 0, 0.5, 99)
    out.append((st, type(v).__name__))
    p = core.SCRATCH + '/canon.dat'
    core.ig.io.PetIGA().write(p, s)
    out.append(geo.enc(core.ig.io.PetIGA().read(p)))
    core.ig.io.VTK().write(p, s)
    with open(p, 'rb') as fh:
        out.append(fh.read())
    out.append(geo.enc(cad.ruled(c, c.copy().translate([0, 0, 1]))))
    out.append(geo.enc(cad.revolve(cad.line((1, 0), (2, 0)), (0, 0), 2, 3.0)))
    return geo.dig(out)


ORDINARY = (Exception, KeyboardInterrupt)


class F04:
    gen = staticmethod(gen_f04)

    @staticmethod
    def shrink(plan):
        for q in shrink_steps(plan, 'steps'):
            yield q
        for i, x in enumerate(plan['steps']):
            if x['fault'] != ['none']:
                s = list(plan['steps'])
                s[i] = dict(x, fault=['none'])
                yield dict(plan, steps=s)
        for s in geo.shrink_spec(plan['spec']):
            yield dict(plan, spec=s)

    @staticmethod
    def run(plan, ctx):
        core.SCRATCH = ctx.scratch

        def ref(sub):
            kit.alloc_install()
            return canon()
        want = ctx.fork(ref)

        def body(sub):
            kit.alloc_install()
            kit.disk_enable(ctx.scratch + '/')
            s = Session(plan['spec'])
            rows = []
            worst = 0
            for i, x in enumerate(plan['steps']):
                part = dict(plan, steps=plan['steps'][:i + 1])
                note({'plan': part, 'what': 'in step %d %s' % (i, json.dumps(x)[:500])})
                big = x['op']['op'] in ('tower',)
                t0 = kit.total_steps()
                kit.set_budget(BUDGET)
                try:
                    st, v, hit = s.step(x, None, x['fault'])
                except BaseException as e:
                    st, v, hit = 'odd', e, False
                kit.set_budget(0)
                n = kit.total_steps() - t0
                worst = max(worst, n)
                if st == 'odd':
                    sub.fail('not-an-ordinary-exception', 'step %d %s ended with %r' % (i, json.dumps(x)[:300], v), part)
                if kit.alloc_check():
                    sub.fail('memory-overrun', 'step %d %s wrote outside an array' % (i, json.dumps(x)[:300]), part)
                    break
                if x['fault'][0] != 'none' and hit:
                    sub.fault(FNAME[x['fault'][0]])
                if x['op']['op'] in ('garble', 'damaged', 'wild', 'bad'):
                    sub.fault({'garble': 'geometry with damaged knots', 'damaged': 'load of a damaged file', 'wild': 'argument replaced', 'bad': 'rejected or odd argument'}[x['op']['op']])
                sub.probe('%s %s' % (x['op']['op'], {'ok': 'returned', 'exc': 'raised', 'skip': 'not applicable', 'odd': 'odd', 'late': 'interrupted after its end'}[st]))
                rows.append((x['op']['op'], st, type(v).__name__ if st == 'exc' else geo.dig(v), n))
                v = None
            note({'plan': plan, 'what': 'in ordinary work after all steps'})
            kit.set_budget(BUDGET)
            st, got = call(canon)
            kit.set_budget(0)
            if st != 'ok' or got != want:
                sub.fail('process-out-of-order', 'ordinary work after these steps gives %s' % ('a different result' if st == 'ok' else repr(got)))
            sub.event(rows, worst)
            sub.run_done((geo.dig(str(plan['spec'])), rows), any(x['fault'][0] != 'none' or x['op']['op'] in ('garble', 'damaged', 'wild', 'bad') for x in plan['steps']))
        note({'plan': plan})
        ctx.fork(body)


# ---------------------------------------------------------------- F05

def gen_f05(rng, tier):
    spec = geo.gen(rng, dim=rng.choice([1, 1, 2, 2, 3]), maxp=(3, 3, 2), maxspans=(3, 2, 2), maxctl=(10, 20, 30))
    return {'spec': spec, 'warm': geo.gen(rng, dim=len(spec['shape']), maxp=(2, 2, 2), maxspans=(2, 2, 2), maxctl=(8, 16, 30), fields=spec['nf']),
            'steps': [dict(x, keep=False) for x in gen_steps(rng, spec, rng.choice([1, 2, 3]), 0.3)],
            'kept': [g_kept(rng, spec) for _ in range(rng.choice([1, 2, 2, 3]))],
            'faults': {'seed': rng.randint(0, 1 << 40), 'n': 10 if tier == 'quick' else 40}}


def g_kept(rng, spec):
    """a step that leaves the size of the geometry as it is"""
    dim = len(spec['shape'])
    op = opset.gen_edit(rng, dim, ['transform', 'translate', 'scale', 'rotate', 'transpose', 'swap', 'reverse', 'remap', 'clamp', 'unclamp', 'remove']) \
        if rng.random() < 0.6 else p_fail.g_bad(rng, dim) if rng.random() < 0.3 else g_any(rng, spec, False)
    return {'op': op, 'keep': False, 'fault': ['none'] if rng.random() < 0.8 else ['i', rng.choice([3, 10, 40, 200])]}


def vary(spec, i):
    """the i-th geometry of the same kind with other numbers"""
    a, b = 1 + (i + 1) / 64.0, (i + 1) / 32.0
    return dict(spec, U=[[a * u + b for u in U] for U in spec['U']], C=_scale(spec['C'], a))


def _scale(x, a):
    return [_scale(y, a) for y in x] if isinstance(x, list) else x * a


class F05:
    gen = staticmethod(gen_f05)

    @staticmethod
    def shrink(plan):
        if isinstance(plan['faults'], list) and plan['faults']:
            i = plan['faults'][0][0]
            if i + 1 < len(plan['steps']):
                yield dict(plan, steps=plan['steps'][:i + 1])
            if i > 0:
                yield dict(plan, steps=plan['steps'][1:], faults=[[i - 1] + plan['faults'][0][1:]])
        elif isinstance(plan['faults'], list):
            for q in shrink_steps(plan, 'steps'):
                yield q
            for q in shrink_steps(plan, 'kept'):
                yield q
        for s in geo.shrink_spec(plan['spec']):
            if s['nf'] == plan['spec']['nf']:
                yield dict(plan, spec=s)

    @staticmethod
    def one(plan, spec, at, f, meas=None):
        """A whole session whose results are all dropped.  -> (hit, status)"""
        s = Session(spec)
        hit, stat = False, None
        for i, x in enumerate(plan['steps']):
            if i == at:
                st, v, hit = s.step(x, None, f)
                stat = st
            elif meas is not None:
                c0 = kit.counts()[K_CODE]
                a0 = kit.alloc_stats()['count']
                st, v, _ = s.step(x)
                meas.append((kit.counts()[K_CODE] - c0, kit.alloc_stats()['count'] - a0))
            else:
                st, v, _ = s.step(x)
            v = None
        rec = sys.modules.get('igakit.plot_nul')
        if rec is not None and hasattr(rec, 'calls'):
            rec.calls.clear()
        return hit, stat

    @staticmethod
    def run(plan, ctx):
        core.SCRATCH = ctx.scratch
        kit.alloc_install()
        kit.disk_enable(ctx.scratch + '/')
        gc.collect()
        for sp in (plan['warm'], plan['warm'], plan['spec']):
            call(F05.one, plan, sp, None, None)
        F05.one(plan, plan['warm'], None, None)
        gc.collect()

        def trial(at, f, rep):
            gc.collect()
            m = kit.alloc_mark()
            hit, st = F05.one(plan, plan['spec'], at, f)
            gc.collect()
            left = kit.alloc_live(m)
            if left:
                # all of them allocated at the very bytecode at which the allocation failed:
                # inside one call of a compiled wrapper
                cls = 'leak-in-wrapper' if at is not None and f[0] == 'a' and all(x[1] for x in left) else 'leak'
                ctx.fail(cls, '%s%s: %d array blocks are still allocated after everything was dropped (sizes %s)' % (
                    json.dumps([x['op'] for x in plan['steps']])[:500], '' if at is None else ', step %d with %s %s' % (at, FNAME[f[0]], f[1:]),
                    len(left), [x[0] for x in left[:8]]), rep)
            if at is not None and hit:
                ctx.fault(FNAME[f[0]])
            ctx.event(at, f, hit, st, left)
            ctx.run_done((geo.dig(json.dumps(plan['steps'])), at, json.dumps(f), st), bool(hit))
        rep = dict(plan, faults=[])
        note({'plan': rep})
        meas = []
        F05.one(plan, plan['warm'], None, None, meas)
        meas = []
        F05.one(plan, plan['spec'], None, None, meas)
        gc.collect()
        trial(None, None, rep)
        # the interpreter's own objects must not pile up either
        REPS = 1000
        n = array.array('q', [0] * REPS)
        for i in range(REPS):
            F05.one(plan, plan['spec'], None, None)
            gc.collect()
            n[i] = sys.getallocatedblocks()
            if i > 31 and n[i] <= n[i - 24] + 2:   # (a few repetitions can be level by accident)
                break                       # levelled off
        else:
            ctx.fail('growth', '%s: each of the last %d repetitions left more interpreter objects behind, %d in all' % (
                json.dumps([x['op'] for x in plan['steps']])[:500], REPS - 13, n[REPS - 1] - n[12]), rep)
        # nor with geometries the process has not met before
        m = kit.alloc_mark()
        VARS = 400
        n = array.array('q', [0] * VARS)
        o = array.array('q', [0] * VARS)
        lvl = [False, False]
        for i in range(VARS):
            F05.one(plan, vary(plan['spec'], i), None, None)
            gc.collect()
            n[i] = len(kit.alloc_live(m))
            o[i] = sys.getallocatedblocks()
            lvl[0] = lvl[0] or i > 5 and n[i] <= n[i - 4]
            lvl[1] = lvl[1] or i > 19 and o[i] <= o[i - 12] + 2
            if all(lvl):
                break
        else:
            ctx.fail('growth-new', '%s: each of %d geometries that were met once and dropped left more %s behind, %d in all' % (
                json.dumps([x['op'] for x in plan['steps']])[:500], VARS, *(('interpreter objects', o[-1] - o[12]) if lvl[0] else ('array blocks', n[-1]))), dict(plan, faults=[]))
        # nor does one geometry, edited and used again and again, keep what it has outlived
        if plan.get('kept'):
            s = Session(plan['spec'])
            KEPT = 400
            n = array.array('q', [0] * KEPT)
            o = array.array('q', [0] * KEPT)
            lvl = [False, False]
            rep = dict(plan, faults=[])
            for i in range(KEPT):
                for x in plan['kept']:
                    st, v, hit = s.step(x, None, x['fault'])
                    v = None
                    if i == 0 and hit and x['fault'] != ['none']:
                        ctx.fault(FNAME[x['fault'][0]])
                rec = sys.modules.get('igakit.plot_nul')
                if rec is not None and hasattr(rec, 'calls'):
                    rec.calls.clear()
                gc.collect()
                n[i] = len(kit.alloc_live(m))
                o[i] = sys.getallocatedblocks()
                lvl[0] = lvl[0] or i > 5 and n[i] <= n[i - 4]
                lvl[1] = lvl[1] or i > 19 and o[i] <= o[i - 12] + 2
                if all(lvl):
                    break
            else:
                ctx.fail('growth-kept', 'one geometry on which %s was repeated %d times grew by more %s each time, %d in all' % (
                    json.dumps([x['op'] for x in plan['kept']])[:500], KEPT, *(('interpreter objects', o[-1] - o[12]) if lvl[0] else ('array blocks', n[-1]))), rep)
            ctx.event('kept', [x['op']['op'] for x in plan['kept']])
            s = None
            gc.collect()
        fs = plan['faults']
        if isinstance(fs, dict):
            rng = random.Random(fs['seed'])
            lst = []
            for _ in range(fs['n']):
                i = rng.randrange(len(plan['steps']))
                if plan['steps'][i]['op']['op'] in ('save', 'load') and rng.random() < 0.6:
                    lst.append([i] + p_fail.gen_disk(rng))
                else:
                    lst += [[i] + y for y in gen_faults(rng, meas[i][0], meas[i][1], 1)]
            fs = lst
        for x in fs:
            rep = dict(plan, faults=[x])
            note({'plan': rep})
            trial(x[0], x[1:], rep)


PROPS = {'F03': F03, 'F04': F04, 'F05': F05}
