"""G02: primitives and transformation objects in a session; G03: knot data and basis
tables of geometries whose knots change.  Both run the sessions of p_model with more
operations and more questions."""
import json, math, random, warnings
import core, geo, opset, p_fail, p_model
from core import *
from p_model import Item, Skip, Wrong, need, dom, breaks, size, Session, aff_rotate, EPS, MAXCTL
import refmodel as rm


def _np():
    return geo._np()


# ---------------------------------------------------------------- generation

def g_frame(rng):
    k = rng.choice(['translate', 'translate', 'move', 'scale', 'rotate', 'rotate', 'compose', 'compose', 'composef', 'composef', 'invert',
                    'inverse', 'copy', 'clone', 'newf', 'new', 'new0', 'apply', 'poke'])
    o = {'op': 'frame', 'k': k, 'i': rng.randint(0, 9), 'ax': 0}
    if k in ('translate', 'move'):
        o.update(dict(d=opset.g_vec(rng), axis=None) if rng.random() < 0.6 else dict(d=opset.g_vec(rng, 1)[0], axis=rng.choice([None, 0, 1, 2, -1, -2])))
    elif k == 'scale':
        s = [rng.choice([-1, 1]) * round(rng.uniform(0.5, 2), 4) for _ in range(rng.randint(1, 3))] if rng.random() < 0.8 else \
            [rng.choice([-2, -1, 1, 2, 3]) for _ in range(rng.randint(1, 3))]
        o['d'] = s if rng.random() < 0.5 else s[0]
        o['axis'] = None if isinstance(o['d'], list) else rng.choice([None, 0, 1, 2, -1])
    elif k == 'rotate':
        o.update(opset.e_rotate(rng, 3))
    elif k in ('compose', 'new'):
        m = opset.g_mat(rng)
        if k == 'compose' and rng.random() < 0.4:
            m = [r[:3] for r in m[:3]]
        elif rng.random() < 0.3:
            # a projective one
            m[3] = [round(rng.uniform(-0.15, 0.15), 3) for _ in range(3)] + [round(rng.uniform(0.6, 1.6), 3)]
        o.update(m=m)
    elif k in ('composef', 'newf'):
        o['j'] = rng.choice([rng.randint(0, 9), o['i']])
    elif k == 'apply':
        o.update(sh=[rng.randint(1, 3) for _ in range(rng.randint(0, 2))], r=rng.randint(0, 10 ** 6))
    o['as'] = rng.choice(['list', 'array', 'F', 'view'])
    return o


def g_prim(rng):
    k = rng.choice(['line', 'circle', 'circle', 'circle', 'linear', 'bilinear', 'trilinear', 'grid', 'grid', 'knots', 'build', 'build'])
    o = {'op': 'prim', 'k': k, 'i': 0, 'ax': 0}
    if k == 'line':
        o.update(p0=rng.choice([None, opset.g_vec(rng)]), p1=rng.choice([None, opset.g_vec(rng)]))
    elif k == 'circle':
        a = rng.choice([None, 'one', 'one', 'pair', 'pair'])
        if a == 'one':
            a = rng.choice([1, -1]) * rng.choice([math.pi / 2, math.pi, 1.5 * math.pi, 2 * math.pi, round(rng.uniform(0.1, 6.25), 4), round(rng.uniform(6.3, 11), 3)])
        elif a == 'pair':
            s = round(rng.uniform(-4, 4), 3)
            a = rng.choice([[s, s + rng.choice([1, -1]) * round(rng.uniform(0.2, 6.2) if rng.random() < 0.8 else rng.uniform(6.3, 11), 2)], [None, round(rng.uniform(0.2, 6.2), 2)], [round(rng.uniform(-5, 5), 2), None],
                            [0, math.pi], [0.0, -math.pi / 2]])
        o.update(r=rng.choice([1, 2, round(rng.uniform(0.1, 5), 3)]), c=rng.choice([None, None, 2, opset.g_vec(rng), opset.g_vec(rng, 3)]), a=a, tup=rng.random() < 0.5)
    elif k in ('linear', 'bilinear', 'trilinear'):
        n = ('linear', 'bilinear', 'trilinear').index(k) + 1
        sd = rng.choice([2, 3, 4])
        pts = [[round(rng.uniform(-3, 3), 3) for _ in range(min(sd, 3))] for _ in range(2 ** n)]
        if sd == 4:
            for p in pts:
                w = round(rng.uniform(0.5, 2), 3)
                p[:] = [x * w for x in p] + [w]
        o['p'] = rng.choice([None, pts, pts, pts])
    elif k == 'grid':
        d = rng.randint(1, 3)
        o['n'] = [rng.randint(1, (6, 4, 3)[d - 1]) for _ in range(d)]
        o['p'] = [rng.randint(1, (4, 3, 2)[d - 1]) for _ in range(d)]
        if rng.random() < 0.4:
            o['p'] = [o['p'][0]] * d
        o['c'] = rng.choice([None, -1, 0, [rng.randint(-p, p - 1) for p in o['p']]])
        o['lim'] = rng.choice([None, [-1.0, 3.0], [[round(rng.uniform(-3, 0), 2), round(rng.uniform(0.5, 3), 2)] for _ in range(d)]])
        o['w'] = rng.choice([None, None, True, [rng.random() < 0.5 for _ in range(d)]])
    elif k == 'knots':
        d = rng.randint(1, 3)
        o['U'] = [geo.gen_knots(rng, rng.randint(1, (4, 3, 2)[d - 1]), rng.randint(1, 3), 'clamped') for _ in range(d)]
    else:
        o.update(spec=geo.gen(rng, maxp=(4, 3, 2), maxspans=(3, 2, 2), maxctl=(10, 20, 24)), sd=rng.choice([2, 3, 3, 4]), w=rng.choice(['arg', 'tuple', 'one']),
                 one=rng.random() < 0.3)
    o['as'] = rng.choice(['list', 'array', 'F', 'view'])
    if k not in ('knots', 'build') and rng.random() < 0.35 and (o.get('p') is None or k == 'grid' or o['as'] == 'list'):     # else the caller's array may be taken as it is
        o['s'] = rng.choice(['array', 'knots', 'both'])
    return o


def g_table(rng):
    return {'op': 'table', 'i': rng.randint(0, 9), 'ax': rng.randint(0, 5), 'k': rng.choice(['data', 'data', 'col', 'funs', 'rule', 'kv', 'span']), 'r': rng.randint(0, 10 ** 6)}


EDIT2 = ['insert', 'remap', 'reverse', 'elevate', 'unclamp', 'clamp', 'slice', 'copy', 'transpose', 'boundary', 'extract', 'refine']
EDIT3 = ['insert', 'insert', 'remap', 'remap', 'reverse', 'elevate', 'elevate', 'unclamp', 'clamp', 'slice', 'copy', 'clone', 'transpose', 'swap', 'boundary', 'refine',
         'cadrefine', 'compat', 'kin', 'cutjoin', 'mirrorjoin', 'remove', 'insrem', 'revolve', 'ruled', 'disk']


def g_edit(rng, names, tier):
    n = rng.choice(names)
    while True:
        o = p_model.g_op(rng, tier)
        if o['op'] == n:
            return o


def fault(rng, o):
    o.pop('f', None)
    if rng.random() < 0.35:
        o['f'] = [rng.choice(['i', 'i', 'a']), round(rng.random(), 4) if rng.random() < 0.6 else round(1 - rng.random() * 0.1, 4)]
    return o


def gen_g02(rng, tier):
    ops = []
    for _ in range(rng.randint(2, 12 if tier == 'quick' else 20)):
        r = rng.random()
        if r < 0.5:
            o = g_frame(rng)
        elif r < 0.75:
            old = [q for q in ops if q['op'] == 'prim']
            o = dict(rng.choice(old)) if old and rng.random() < 0.25 else g_prim(rng)
        elif r < 0.9:
            o = {'op': 'place', 'i': rng.randint(0, 9), 'j': rng.randint(0, 9), 'ax': 0, 'm': rng.random() < 0.2}
        else:
            o = g_edit(rng, EDIT2, tier)
        ops.append(fault(rng, o))
    items = [p_model.gen_item(rng)] if rng.random() < 0.5 else []
    return {'items': items, 'ops': ops, 'pts': rng.randint(0, 10 ** 9), 'frames': rng.randint(1, 3)}


def gen_g03(rng, tier):
    items = [p_model.gen_item(rng) for _ in range(rng.choice([1, 1, 2]))]
    ops = []
    for _ in range(rng.randint(1, 9 if tier == 'quick' else 16)):
        r = rng.random()
        o = g_table(rng) if r < 0.35 else g_prim(rng) if r < 0.42 else g_edit(rng, EDIT3, tier)
        ops.append(fault(rng, o))
    return {'items': items, 'ops': ops, 'pts': rng.randint(0, 10 ** 9), 'knots': 1}


# ---------------------------------------------------------------- the session

def form(x, as_):
    np = _np()
    if as_ == 'list' or not isinstance(x, list):
        return x
    a = np.array(x, dtype='d')
    if as_ == 'F':
        return np.asfortranarray(a)
    if as_ == 'view':
        big = np.full(tuple(2 * s for s in a.shape), 7.5)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    return a


class Frame:
    def __init__(self, t, M, err=0.0, shared=False):
        self.t, self.M, self.err, self.shared = t, M, err, shared


class Wide(Session):
    def __init__(self, plan, ctx):
        Session.__init__(self, plan, ctx)
        np = _np()
        self.frames = [Frame(core.ig.transform(), np.eye(4)) for _ in range(plan.get('frames', 0))]

    def derivatives(self, *a):
        pass                                     # G01

    def forms(self, *a):
        pass

    def step(self, o):
        ctx = self.ctx
        if o['op'] in ('frame', 'prim', 'place', 'table'):
            try:
                r = getattr(self, 'do_' + o['op'])(o)
            except Skip:
                ctx.probe('not applicable: ' + o['op'])
                r = None
        elif self.items:
            r = Session.step(self, o)
        else:
            r = None
        self.look()
        return r

    def run(self):
        Session.run(self)
        if not self.ctx.viol:
            try:
                self.look()
            except Wrong as e:
                self.ctx.fail('wrong-frame', 'at the end: %s' % e)

    # ---- transformation objects

    def look(self):
        """every transformation object is what its own history says"""
        np = _np()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for n, f in enumerate(self.frames):
                tol = f.err + 1e-15
                for how, got in (('', np.asarray(f.t(np.eye(4))).T), (' as array', np.array(f.t, dtype='d'))):
                    need(got.shape == (4, 4), 'transformation %d%s has shape %s', n, how, got.shape)
                    d = float(np.abs(got - f.M).max())
                    need(d <= tol, 'transformation %d%s is %s, its history defines %s (difference %.3g, tolerance %.3g)', n, how, geo.brief(got), geo.brief(f.M), d, tol)

    def go(self, o, fn, trial, same):
        """run fn with the fault of the operation; same() tells whether nothing happened"""
        ctx = self.ctx
        f = self.fault_for(o, trial)
        hit = False
        if f:
            st, v, hit = p_fail.faulted(f, fn)
            if hit:
                ctx.fault(p_fail.FNAME[f[0]])
            if st != 'ok' and same():
                ctx.probe('repeated after a fault')
                st, v = call(fn)
        else:
            st, v = call(fn)
        if st == 'exc' and not hit:
            self.rejected(o, v)
        self.hist.append((o['op'] + ' ' + str(o.get('k', '')), f))
        ctx.probe('op %s %s' % (o['op'], o.get('k', '')))
        return st, v

    def do_frame(self, o):
        np = _np()
        T = core.ig.transform
        if not self.frames:
            self.frames.append(Frame(T(), np.eye(4)))
        f = self.frames[o['i'] % len(self.frames)]
        k, as_ = o['k'], o['as']
        old = np.array(f.t(np.eye(4)))
        same = lambda: np.array_equal(np.asarray(f.t(np.eye(4))), old)
        big = float(np.abs(f.M).sum(axis=1).max())
        A = None
        if k in ('translate', 'move'):
            A = np.eye(4)
            if isinstance(o['d'], list):
                A[:len(o['d']), 3] = o['d']
            else:
                A[(0 if o['axis'] is None else o['axis'] % 3), 3] = o['d']
            fn = lambda t: getattr(t, k)(form(o['d'], as_), o['axis'])
        elif k == 'scale':
            A = np.eye(4)
            if isinstance(o['d'], list):
                for i, x in enumerate(o['d']):
                    A[i, i] = x
            elif o['axis'] is None:
                A[0, 0] = A[1, 1] = A[2, 2] = o['d']
            else:
                A[o['axis'] % 3, o['axis'] % 3] = o['d']
            fn = lambda t: t.scale(form(o['d'], as_), o['axis'])
        elif k == 'rotate':
            A = aff_rotate(o['ang'], o['axis'] % 3 if isinstance(o['axis'], int) else o['axis'])
            fn = lambda t: t.rotate(o['ang'], form(o['axis'], as_))
        elif k == 'compose':
            A = np.eye(4)
            m = np.array(o['m'])
            A[:len(m), :len(m)] = m
            fn = lambda t: t.compose(form(o['m'], as_))
        elif k == 'composef':
            h = self.frames[o['j'] % len(self.frames)]
            A = h.M.copy()
            fn = lambda t: t.compose(h.t)
        elif k == 'invert':
            fn = lambda t: t.invert()
        if A is not None or k == 'invert':
            if k == 'invert':
                c = float(np.linalg.cond(f.M))
                if c > 1e5:
                    raise Skip
                M = np.linalg.inv(f.M)
                e = 4 * f.err * float(np.linalg.norm(M)) ** 2 + 100 * EPS * c * float(np.linalg.norm(M))
            else:
                M = A @ f.M
                a = float(np.abs(A).sum(axis=1).max())
                e = f.err * a + 100 * EPS * a * big + (h.err * big if k == 'composef' else 0)
            if float(np.abs(M).max()) > 1e4 or e > 1e-8:
                raise Skip
            st, v = self.go(o, lambda: fn(f.t), lambda: fn(T(f.t)), same)
            if st == 'ok':
                need(v is f.t, '%s did not return the transformation itself', k)
            f.M, f.err = M, e
            return
        if k == 'apply':
            rng = random.Random(o['r'])
            x = [[round(rng.uniform(-3, 3), 3) for _ in range(4)] for _ in range(math.prod(o['sh']))]
            x = np.array(x).reshape(o['sh'] + [4])
            arg = form(x.tolist(), as_)
            st, v = self.go(o, lambda: f.t(arg), lambda: f.t(arg), lambda: True)
            want = x @ f.M.T
            need(np.shape(v) == want.shape, 'a transformation of points of shape %s has shape %s', x.shape, np.shape(v))
            need(float(np.abs(v - want).max()) <= 20 * f.err + 1000 * EPS * big, 'transformed points %s, expected %s', geo.brief(np.asarray(v)), geo.brief(want))
            return
        if k == 'poke':
            if f.shared:
                raise Skip
            M = np.diag([2.0, 1.0, 0.5, 1.0])
            f.t.matrix[...] = M
            f.M, f.err = M, 0.0
            return
        if k in ('new', 'new0'):
            M = np.array(o['m']) if k == 'new' else np.eye(4)
            arg = form(o['m'], as_) if k == 'new' else None
            fn = (lambda: T(arg)) if k == 'new' else (lambda: T())
            e, sh = 0.0, False
        elif k == 'newf':
            h = self.frames[o['j'] % len(self.frames)]
            M, e, sh = h.M.copy(), h.err, False
            fn = lambda: T(h.t)
        elif k == 'inverse':
            c = float(np.linalg.cond(f.M))
            if c > 1e5:
                raise Skip
            M = np.linalg.inv(f.M)
            e, sh = 4 * f.err * float(np.linalg.norm(M)) ** 2 + 100 * EPS * c * float(np.linalg.norm(M)), False
            if float(np.abs(M).max()) > 1e4 or e > 1e-8:
                raise Skip
            fn = lambda: f.t.inverse()
        else:
            M, e, sh = f.M.copy(), f.err, k == 'clone'
            fn = lambda: getattr(f.t, k)()
        st, v = self.go(o, fn, fn, same)
        if st != 'ok':
            st, v = call(fn)
            if st != 'ok':
                self.rejected(o, v)
        need(v is not f.t, '%s returned the transformation itself', k)
        f.shared = f.shared or sh
        if k == 'new' and not isinstance(arg, list):
            arg[...] = 0.25                      # the caller goes on using its matrix
        self.frames.append(Frame(v, M, e, sh))
        if len(self.frames) > 5:
            self.frames.pop(0)

    def do_place(self, o):
        """apply a transformation of the session to a geometry of the session"""
        np = _np()
        if not self.items or not self.frames:
            raise Skip
        it = self.items[o['i'] % len(self.items)]
        f = self.frames[o['j'] % len(self.frames)]
        if float(np.linalg.cond(f.M)) > 1e3 or it.top > 1e4:
            raise Skip
        if float((it.g.array[..., :4] @ f.M[3]).min()) < 0.1:
            raise Skip                           # weights have to stay positive
        b = p_model.Before(it.g)
        arg = np.array(f.t(np.eye(4))).T.copy() if o['m'] else f.t
        before = geo.obs(it.g)
        st, v = self.go(o, lambda: it.g.transform(arg), lambda: it.g.copy().transform(arg), lambda: geo.obs(it.g) == before)
        if st == 'ok':
            need(v is it.g, 'transform did not return the geometry itself')
        e = f.err * it.top * 4
        p_model.lin(it, f.M, b)
        it.err += e
        it.note_scale()
        return [it]

    # ---- primitives

    def do_prim(self, o):
        np = _np()
        cad = core.ig.cad
        k, as_ = o['k'], o['as']
        F = lambda x: form(x, as_)

        def pad(p, n=2):
            return [float(x) for x in p] + [0.0] * (3 - len(p)) + [1.0]
        ident = None
        kn = None
        if k == 'line':
            p0, p1 = o['p0'] or [0, 0], o['p1'] or [1, 0]
            kw = {}
            if o['p0'] is not None:
                kw['p0'] = F(o['p0'])
            if o['p1'] is not None:
                kw['p1'] = F(o['p1'])
            fn = lambda: cad.line(**kw)
            m = rm.Base([[0, 0, 1, 1]], [pad(p0), pad(p1)])
        elif k == 'circle':
            a, c = o['a'], o['c']
            arg = tuple(a) if o['tup'] and isinstance(a, list) else a
            if isinstance(a, list):
                a = [a[0] if a[0] is not None else 0, a[1] if a[1] is not None else 2 * math.pi]
                if not 0.1 < abs(a[1] - a[0]) < 11 or any(abs(abs(a[1] - a[0]) - q * math.pi / 2) < 1e-9 for q in (1, 2, 3)) and a[0]:
                    raise Skip
            fn = lambda: cad.circle(o['r'], F(c), arg)
            M = np.diag([o['r'], o['r'], o['r'], 1.0])
            if c is not None:
                cc = c if isinstance(c, list) else [c]
                M[:len(cc), 3] = cc
            m = rm.Lin(rm.arc(a), M)
        elif k in ('linear', 'bilinear', 'trilinear'):
            n = ('linear', 'bilinear', 'trilinear').index(k) + 1
            if o['p'] is None:
                fn = lambda: getattr(cad, k)()
                P = np.zeros((2,) * n + (4,))
                for ix in np.ndindex(*((2,) * n)):
                    P[ix] = pad([x - 0.5 for x in ix])
            else:
                P = np.array(o['p']).reshape((2,) * n + (-1,))
                arg = F(P.tolist())
                fn = lambda: getattr(cad, k)(arg)
                if P.shape[-1] < 4:
                    Q = np.zeros((2,) * n + (4,))
                    Q[..., :P.shape[-1]] = P
                    Q[..., 3] = 1
                    P = Q
            m = rm.Base([[0, 0, 1, 1]] * n, P)
        elif k == 'grid':
            d, ps = len(o['n']), o['p']
            cs = [p - 1 for p in ps] if o['c'] is None else [o['c']] * d if isinstance(o['c'], int) else list(o['c'])
            cs = [c + p if c < 0 else c for c, p in zip(cs, ps)]
            lim = [(0.0, 1.0)] * d if o['lim'] is None else [tuple(o['lim'])] * d if not isinstance(o['lim'][0], list) else [tuple(x) for x in o['lim']]
            ws = [False] * d if o['w'] is None else [o['w']] * d if isinstance(o['w'], bool) else o['w']
            if any(w and n * (p - c) < c + 1 for w, n, p, c in zip(ws, o['n'], ps, cs)) or math.prod(n * (p - c) + c + 1 for n, p, c in zip(o['n'], ps, cs)) > MAXCTL:
                raise Skip
            kw = {}
            if o['c'] is not None:
                kw['continuity'] = o['c'] if as_ == 'list' or isinstance(o['c'], int) else np.array(o['c'])
            if o['lim'] is not None:
                kw['limits'] = F(o['lim'])
            if o['w'] is not None:
                kw['wrap'] = o['w']
            if len(set(ps)) > 1 or ps[0] != 2 or as_ == 'F':
                kw['degree'] = ps[0] if len(set(ps)) == 1 and as_ != 'array' else list(ps)
            n_ = o['n'] if as_ == 'list' or as_ == 'F' else np.array(o['n'])
            if d == 1 and as_ == 'F':
                n_ = o['n'][0]
            fn = lambda: cad.grid(n_, **kw)
            kn = []
            for n, p, c, (a, b), w in zip(o['n'], ps, cs, lim, ws):
                h = (b - a) / n
                U = [a] * (p + 1)
                for i in range(1, n):
                    U += [a + i * h] * (p - c)
                U += [b] * (p + 1)
                if w:
                    N = len(U) - p - 1
                    per = [a] * (p - c)
                    for i in range(1, n):
                        per += [a + i * h] * (p - c)
                    L, R, q = [], [], len(per)
                    for j in range(c + 1):
                        L.append(per[(-1 - j) % q] - (b - a) * ((j // q) + 1))
                        R.append(per[(p - c + j) % q] + (b - a) * ((p - c + j) // q + 1))
                    U[:c + 1] = L[::-1]
                    U[N + p - c:] = R
                kn.append(U)
            ident = lim
        elif k == 'knots':
            U = [F(u) for u in o['U']]
            kn = o['U']
            fn = lambda: core.ig.NURBS(U)
            ident = [(u[0], u[-1]) for u in o['U']]
        else:
            s = o['spec']
            g0 = geo.build(s)
            sh = tuple(s['shape'])
            C = np.array(s['C']).reshape(sh + (4,))
            sd = o['sd']
            Fd = None if s['F'] is None else np.array(s['F']).reshape(sh + (s['nf'],))
            if o['one'] and Fd is not None:
                Fd = Fd[..., :1]
            H = C.copy()
            kw = {}
            if sd < 4:
                P = C[..., :3] / C[..., 3:]
                P[..., sd:] = 0
                w = C[..., 3].copy()
                if o['w'] == 'one':
                    w[...] = 1.0
                elif o['w'] == 'arg':
                    kw['weights'] = F(w.tolist())
                H = np.concatenate([P * w[..., None], w[..., None]], axis=-1)
                c = F(P[..., :sd].tolist())
                ctl = (c, F(w.tolist())) if o['w'] == 'tuple' else c
            else:
                ctl = F(C.tolist())
            if Fd is not None:
                kw['fields'] = F((Fd[..., 0] if o['one'] else Fd).tolist())
                H = np.concatenate([H, Fd * H[..., 3:4]], axis=-1)
            U = [F(u) for u in s['U']]
            fn = lambda: core.ig.NURBS(U, ctl, **kw)
            m = rm.Base(s['U'], H)
        if ident is not None:
            P = np.zeros((2,) * len(ident) + (4,))
            for ix in np.ndindex(*((2,) * len(ident))):
                P[ix] = pad([l[e] for l, e in zip(ident, ix)])
            m = rm.Base([[l[0], l[0], l[1], l[1]] for l in ident], P)
        if o.get('s'):
            # what the user does with one result has no influence on the next one
            st, v = call(fn)
            if st == 'ok':
                for x in ([v.array] if o['s'] != 'knots' else []) + (list(v.knots) if o['s'] != 'array' else []):
                    scribble(x)
                self.ctx.probe('built again after the first one was overwritten')
        st, v = self.go(o, fn, fn, lambda: True)
        if st != 'ok':
            self.rejected(o, v)
        need(v.dim == m.dim, '%s has dimension %d', k, v.dim)
        if kn is not None:
            for a, u in enumerate(kn):
                got = [float(x) for x in v.knots[a]]
                s = max(abs(x) for x in u) * 1e-13
                need(len(got) == len(u) and all(abs(x - y) <= s for x, y in zip(got, u)), '%s: knots of axis %d are %s, expected %s', k, a, got, u)
        it = Item(v, m, cond=3.0)
        self.items.append(it)
        return [it]

    # ---- knot data

    def verify(self, it, full):
        Session.verify(self, it, full)
        if self.plan.get('knots'):
            self.knotdata(it)

    def knotdata(self, it):
        np = _np()
        g = it.g
        if not g.dim:
            return
        every = {n: getattr(g, n)() for n in ('spans', 'breaks', 'greville', 'lagrange', 'lobatto')}
        for n, v in every.items():
            need(len(v) == g.dim, '%s() has %d entries', n, len(v))
        both = g.breaks(mults=True)
        for a in range(g.dim):
            p, U = g.degree[a], [float(x) for x in g.knots[a]]
            big = max(abs(x) for x in U)
            d = [y - x for x, y in zip(U, U[1:]) if y > x]
            if min(d) < 1e-9 * (1 + big):
                self.ctx.probe('knots that nearly coincide')
                continue
            b = a - g.dim if self.rng.random() < 0.3 else a
            want = {'spans': [i for i in range(p, len(U) - p - 1) if U[i] != U[i + 1]], 'breaks': breaks(g, a),
                    'greville': [sum(U[i + 1:i + p + 1]) / p for i in range(len(U) - p - 1)]}
            br = want['breaks']
            for n, nodes in (('lagrange', np.linspace(0, 1, p + 1)), ('lobatto', (lobatto(p + 1)[0] + 1) / 2 if p > 1 else np.array([0.0, 1.0]))):
                x = [br[0]]
                for u, v in zip(br, br[1:]):
                    x += [u + (v - u) * float(t) for t in nodes[1:-1]] + [v]
                want[n] = x
            for n, w in want.items():
                for got in (every[n][a], getattr(g, n)(b)):
                    tol = 0 if n in ('spans', 'breaks') else 50 * EPS * big
                    need(np.shape(got) == (len(w),) and float(np.abs(np.asarray(got) - w).max()) <= tol,
                         '%s of axis %d are %s, expected %s for knots %s', n, a, np.asarray(got).tolist(), w, U)
            w = [U.count(x) for x in br]
            w[0], w[-1] = min(w[0], p), min(w[-1], p)
            for u, s in (both[a], g.breaks(b, True)):
                need(np.shape(u) == np.shape(s) == (len(br),) and list(map(float, u)) == br and list(map(int, s)) == w,
                     'breaks of axis %d with multiplicities are %s %s, expected %s %s for knots %s', a, np.asarray(u).tolist(), np.asarray(s).tolist(), br, w, U)
        if self.rng.random() < 0.3:
            before = geo.obs(g)
            for v in list(every.values()) + [both]:
                for x in v:
                    scribble(*(x if isinstance(x, tuple) else (x,)))
            need(geo.obs(g) == before, 'writing into the arrays returned by the knot queries changed the geometry')
        self.ctx.probe('knot data checked')

    # ---- tables of the compiled library for the knots of a live geometry

    def do_table(self, o):
        np = _np()
        ig, rng = core.ig.igalib, random.Random(o['r'])
        it = self.items[o['i'] % len(self.items)] if self.items else None
        if it is None or not it.g.dim:
            raise Skip
        a = o['ax'] % it.g.dim
        p, U = it.g.degree[a], it.g.knots[a]
        V = [float(x) for x in U]
        big = max(abs(x) for x in V)
        gaps = [y - x for x, y in zip(V, V[1:]) if y > x]
        if min(gaps) < 1e-6 * (1 + big):
            raise Skip
        br = breaks(it.g, a)
        d = rng.choice([None, rng.randint(0, min(p, 4))])
        if d is None and p > 4:
            d = 4
        nd = p if d is None else d
        k = o['k']
        kd = {} if d is None else {'d': d}
        sl = max(2 * p / g for g in gaps)

        def get(fn):
            st, v = self.go(o, fn, fn, lambda: True)
            if st != 'ok':
                self.rejected(o, v)
            return v

        def check(what, got, u, first, side=(1, -1)):
            """got[p+1, nd+1] at u; first: the index reported (None: any side)"""
            got = np.asarray(got)
            need(got.shape == (p + 1, nd + 1), '%s has shape %s', what, got.shape)
            best = None
            for s in side:
                i, N = rm.basis(V, p, u, s)
                if first is not None and i != first:
                    continue
                w = N[:, :nd + 1] * rm.FACT[:nd + 1] if nd < rm.K else None
                e = max(float(np.abs(got[:, j] - w[:, j]).max()) / (1e-12 * max(1, sl) ** j) for j in range(nd + 1))
                if best is None or e < best[0]:
                    best = (e, w)
            need(best is not None, '%s: span %s at u=%r, knots %s', what, first, u, V)
            need(best[0] <= 1, '%s at u=%r is %s, expected %s, knots %s', what, u, geo.brief(got), geo.brief(best[1]), V)

        if k == 'rule':
            q = rng.randint(1, 10)
            X, W = get(lambda: ig.iga.GaussLegendreRule(q))
            x, w = np.polynomial.legendre.leggauss(q)
            need(np.shape(X) == np.shape(W) == (q,) and float(np.abs(X - x).max()) < 1e-14 and float(np.abs(W - w).max()) < 1e-14, 'Gauss-Legendre rule %d: %s %s', q, X, W)
            scribble(X, W)
            q = rng.randint(2, 10)
            X, W = ig.iga.GaussLobattoRule(q)
            x, w = lobatto(q)
            need(np.shape(X) == np.shape(W) == (q,) and float(np.abs(X - x).max()) < 1e-14 and float(np.abs(W - w).max()) < 1e-14, 'Gauss-Lobatto rule %d: %s %s', q, X, W)
            scribble(X, W)
        elif k == 'data':
            q = rng.choice([None, rng.randint(1, 10)])
            kw = dict(kd, **({} if q is None else {'q': q}))
            O, J, W, X, N = get(lambda: ig.iga.BasisData(p, U, **kw))
            q = q or p + 1
            x, w = np.polynomial.legendre.leggauss(q)
            S = [i for i in range(p, len(V) - p - 1) if V[i] != V[i + 1]]
            need(list(map(int, O)) == [i - p for i in S], 'BasisData: elements at %s, knots %s', O, V)
            need(np.shape(J) == (len(S),) and np.shape(W) == (q,) and np.shape(X) == (len(S), q) and np.shape(N) == (len(S), q, p + 1, nd + 1), 'BasisData shapes')
            need(float(np.abs(W - w).max()) < 1e-14, 'BasisData: weights %s', W)
            for e, i in enumerate(S):
                need(abs(J[e] - (V[i + 1] - V[i]) / 2) <= 4 * EPS * big, 'BasisData: jacobian %r of element %d', J[e], e)
                for j in range(q):
                    u = V[i] + (V[i + 1] - V[i]) * (float(x[j]) + 1) / 2
                    need(abs(X[e, j] - u) <= 10 * EPS * big, 'BasisData: point %r, expected %r', X[e, j], u)
                    check('BasisData', N[e, j], float(X[e, j]), i - p, (1,))
            scribble(O, J, W, X, N)
        elif k == 'col':
            pts = [min(max(br[0] + rng.random() * (br[-1] - br[0]), br[0]), br[-1]) if rng.random() < 0.6 else rng.choice(br) for _ in range(rng.randint(1, 5))]
            arr = form(pts, rng.choice(['list', 'array', 'view']))
            O, N = get(lambda: ig.iga.BasisDataCol(p, U, arr, **kd))
            need(np.shape(O) == (len(pts),) and np.shape(N) == (len(pts), p + 1, nd + 1), 'BasisDataCol shapes')
            for j, u in enumerate(pts):
                check('BasisDataCol', N[j], u, int(O[j]))
            scribble(O, N)
        elif k == 'kv':
            E, c = rng.randint(1, 6), rng.randint(0, p - 1)
            lo = round(rng.uniform(-2, 1), 2)
            hi = lo + round(rng.uniform(0.5, 3), 2)
            got = get(lambda: ig.iga.KnotVector(E, p, c, lo, hi))
            w = [lo] * (p + 1)
            for i in range(1, E):
                w += [lo + (hi - lo) * i / E] * (p - c)
            w += [hi] * (p + 1)
            need(np.shape(got) == (len(w),) and float(np.abs(got - w).max()) < 1e-14 * (1 + abs(lo) + abs(hi)), 'KnotVector(%d, %d, %d, %r, %r) is %s', E, p, c, lo, hi, got)
            scribble(got)
        else:
            u = rng.choice(br) if rng.random() < 0.4 else br[0] + rng.random() * (br[-1] - br[0])
            u = min(max(u, br[0]), br[-1])
            adm = {rm.basis(V, p, u, s)[0] + p for s in (1, -1)}
            if k == 'span':
                s = get(lambda: ig.bsp.FindSpan(p, U, u))
                need(s in adm, 'FindSpan(%d, %s, %r) is %r', p, V, u, s)
                need(u >= br[-1] or V[s] <= u < V[s + 1], 'FindSpan(%d, %s, %r) is %r', p, V, u, s)
                w = V.count(u)
                for mm in (ig.bsp.FindMult(p, U, u), ig.bsp.FindMult(p, U, u, s), ig.bsp.FindSpanMult(p, U, u)[1]):
                    need(mm == w or w > p and mm >= p, 'multiplicity of %r in %s is %r', u, V, mm)
                need(ig.bsp.FindSpanMult(p, U, u)[0] == s, 'FindSpanMult(%d, %s, %r) is %r', p, V, u, ig.bsp.FindSpanMult(p, U, u))
            else:
                N = get(lambda: ig.bsp.EvalBasisFunsDers(p, U, u, **kd))
                check('EvalBasisFunsDers', np.asarray(N).T, u, None)
                N = np.asarray(ig.bsp.EvalBasisFuns(p, U, u))
                nd = 0
                check('EvalBasisFuns', N.reshape(-1, 1), u, None)


def scribble(*arrays):
    np = _np()
    for x in arrays:
        if isinstance(x, np.ndarray) and x.flags.writeable:
            x[...] = -77


def lobatto(q):
    """Gauss-Lobatto nodes and weights from the Legendre polynomial"""
    np = _np()
    c = np.zeros(q)
    c[-1] = 1.0
    L = np.polynomial.legendre
    x = np.sort(np.real(L.legroots(L.legder(c)))) if q > 2 else np.zeros(0)
    d1, d2 = L.legder(c), L.legder(c, 2)
    for _ in range(3):
        if q > 2:
            x = x - L.legval(x, d1) / L.legval(x, d2)
    x = (x - x[::-1]) / 2
    x = np.concatenate([[-1.0], x, [1.0]])
    return x, 2.0 / (q * (q - 1) * L.legval(x, c) ** 2)


class _G:
    @staticmethod
    def shrink(plan):
        ops = plan['ops']
        n = len(ops)
        for w in (n // 2, n // 4, 1):
            if w:
                for i in range(0, n, w):
                    yield dict(plan, ops=ops[:i] + ops[i + w:])
        for i, o in enumerate(ops):
            if 'f' in o:
                yield dict(plan, ops=ops[:i] + [{k: v for k, v in o.items() if k != 'f'}] + ops[i + 1:])
        for i in range(len(plan['items'])):
            yield dict(plan, items=plan['items'][:i] + plan['items'][i + 1:])
        for i, s in enumerate(plan['items']):
            if 'U' in s:
                for t in geo.shrink_spec(s):
                    yield dict(plan, items=plan['items'][:i] + [t] + plan['items'][i + 1:])

    @staticmethod
    def run(plan, ctx):
        np = _np()
        kit.alloc_install()
        s = Wide(plan, ctx)
        s.run()
        fr = [np.asarray(f.t(np.eye(4))).tobytes().hex()[:64] for f in s.frames]
        ctx.event(s.hist, [geo.dig(x.g) for x in s.items], fr)
        ctx.run_done(([h[0] for h in s.hist], [geo.dig(x.g) for x in s.items], fr), any(h[1] for h in s.hist))


class G02(_G):
    gen = staticmethod(gen_g02)


class G03(_G):
    gen = staticmethod(gen_g03)


PROPS = {'G02': G02, 'G03': G03}
