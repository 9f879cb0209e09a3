"""The public operations of igakit as data: each operation is a JSON value with
relative arguments, resolved against the geometry's public state when it is
about to run.  prep() returns a Call whose argument objects the caller can watch."""
import core, geo, math


def _np():
    return geo._np()


class Call:
    def __init__(self, fn, args=(), kw=None, label='', extra=(), post=None):
        self.fn, self.args, self.kw, self.label = fn, list(args), kw or {}, label
        self.extra = list(extra)         # further inputs (geometries)
        self.post = post                 # what has changed that should not have, or None

    def __call__(self):
        return self.fn(*self.args, **self.kw)

    def watched(self):
        return self.args + list(self.kw.values()) + self.extra


# ---------------------------------------------------------------- values

def dom(g, axis):
    p, U = g.degree[axis], g.knots[axis]
    return float(U[p]), float(U[len(U) - p - 1])


def val(g, axis, spec):
    """['f', x]: fraction x of the domain; ['k', j]: the j-th break; ['x', v]: v itself."""
    a, b = dom(g, axis)
    k, x = spec
    if k == 'f':
        v = a + x * (b - a)
        return min(max(v, a), b)
    if k == 'k':
        p, U = g.degree[axis], g.knots[axis]
        u = sorted(set(float(t) for t in U[p:len(U) - p]))
        return u[int(x) % len(u)]
    if k == 'x':
        return float(x)
    if k == 'out':                        # outside by x times the domain length
        return b + x * (b - a) if x > 0 else a + x * (b - a)
    if k == 'nan':
        return float('nan')
    if k == 'inf':
        return float('inf') * (1 if x >= 0 else -1)
    raise ValueError(spec)


FRACS = [0.0, 1.0, 0.5, 0.25, 0.125, 0.75, 0.375, 1 / 3.0, 0.6, 0.9, 0.05]


def g_val(rng, pk=0.4):
    if rng.random() < pk:
        return ['k', rng.randint(0, 6)]
    return ['f', rng.choice(FRACS + [round(rng.random(), 6)])]


def g_uvw(rng, dim, maxn=4):
    out = []
    for i in range(dim):
        r = rng.random()
        if r < 0.15:
            out.append(None)
        elif r < 0.35:
            out.append(['s', g_val(rng)])
        else:
            n = rng.randint(1, maxn)
            if n > 1 and rng.random() < 0.02 and sum(len(o[1]) for o in out if o and o[0] != 's') < 20:
                n = rng.randint(40, 300 if dim == 1 else 60)
            vals = [g_val(rng) for _ in range(n)]
            if rng.random() < 0.03:           # not in the domain
                vals[rng.randrange(n)] = rng.choice([['out', 0.25], ['out', -0.25], ['out', 1e-9], ['out', 40.0], ['nan', 0], ['inf', 1]])
            out.append([rng.choice(['a', 'a', 'l', 'r']), vals])
    return out


def uvw(g, spec):
    np = _np()
    out = []
    for i, s in enumerate(spec[:g.dim]):
        if s is None:
            out.append(None)
        elif s[0] == 's':
            out.append(val(g, i, s[1]))
        else:
            v = [val(g, i, x) for x in s[1]]
            if s[0] == 'a':
                v = np.array(v, dtype='d')
            elif s[0] == 'r':                 # a strided view
                t = np.zeros(2 * len(v))
                t[::2] = v
                v = t[::2]
            out.append(v)
    return out


def fld(g, spec):
    """None, True, False or ['gen', comps, seed]: an array on the control net."""
    np = _np()
    if spec is None or isinstance(spec, bool):
        return spec
    _, comps, seed = spec
    r = np.random.RandomState(seed % (2 ** 31))
    shape = tuple(g.shape) + ((comps,) if comps else ())
    x = np.round(r.uniform(-2, 2, size=shape), 6)
    if seed % 8 == 0 and x.size:
        x.reshape(-1)[::2] = -0.0
    return x


def g_fld(rng, bools=False):
    r = rng.random()
    if r < 0.4:
        return rng.choice([False, True]) if bools else None
    return ['gen', rng.choice([0, 1, 2, 3]), rng.randint(0, 10 ** 6)]


# ---------------------------------------------------------------- queries

def q_call(rng, dim):
    return {'uvw': g_uvw(rng, dim), 'f': g_fld(rng, True)}


def p_call(g, a):
    kw = {}
    f = fld(g, a['f'])
    if f is True and g.fields is None:
        pass
    if f is not False:
        kw['fields'] = f
    return Call(g, uvw(g, a['uvw']), kw)


def q_evaluate(rng, dim):
    return {'uvw': g_uvw(rng, dim), 'f': g_fld(rng)}


def p_evaluate(g, a):
    return Call(g.evaluate, [fld(g, a['f'])] + uvw(g, a['uvw']))


def q_gradient(rng, dim):
    return {'uvw': g_uvw(rng, dim, 3), 'f': g_fld(rng), 'm': rng.random() < 0.4}


def p_gradient(g, a):
    return Call(g.gradient, [fld(g, a['f'])] + uvw(g, a['uvw']), {'mapped': a['m']} if a['m'] else {})


def q_hessian(rng, dim):
    return {'uvw': g_uvw(rng, dim, 3), 'f': g_fld(rng), 'm': rng.random() < 0.1}


def p_hessian(g, a):
    return Call(g.hessian, [fld(g, a['f'])] + uvw(g, a['uvw']), {'mapped': True} if a.get('m') else {})


def q_derivative(rng, dim):
    return {'k': rng.randint(1, 4) if rng.random() < 0.97 else rng.choice([0, -1, -4, 5]), 'uvw': g_uvw(rng, dim, 2), 'f': g_fld(rng), 'm': rng.random() < 0.1}


def p_derivative(g, a):
    return Call(g.derivative, [a['k'], fld(g, a['f'])] + uvw(g, a['uvw']), {'mapped': True} if a.get('m') else {})


def _axq(rng, dim):
    return {'axis': rng.choice([None] + list(range(-dim, dim)))}


def p_breaks(g, a):
    return Call(g.breaks, [a['axis']], {'mults': True} if a.get('mults') else {})


def q_breaks(rng, dim):
    return dict(_axq(rng, dim), mults=rng.random() < 0.6)


def p_props(g, a):
    return Call(lambda: (g.dim, tuple(g.shape), tuple(g.degree), [k for k in g.knots], g.control,
                         g.weights, g.points, g.fields, g.array))


def _p1(name):
    return lambda g, a: Call(getattr(g, name), [a['axis']])


# ---------------------------------------------------------------- edits

def g_mat(rng):
    if rng.random() < 0.12:
        return [[rng.randint(-1, 1) + (4 if i == j else 0) for j in range(3)] + [rng.randint(-3, 3)] for i in range(3)] + [[0, 0, 0, 1]]
    m = [[round(rng.uniform(-1, 1), 3) + (2.0 if i == j else 0) for j in range(4)] for i in range(3)]
    return m + [[0.0, 0.0, 0.0, 1.0]]


def g_proj(rng):
    m = g_mat(rng)
    r = rng.random()
    if r < 0.15:
        m[3] = [0.0, 0.0, 0.0, rng.choice([2.0, 0.5, -1.0, 0.3])]
    elif r < 0.22:
        m[3] = [0.02, -0.01, 0.005, rng.choice([1.0, 2.0])]
    if rng.random() < 0.15:
        # what products of rotations leave behind: almost zeros, negative zeros
        for _ in range(rng.randint(1, 4)):
            i, j = rng.randrange(3), rng.randrange(4)
            if i != j:
                m[i][j] = rng.choice([1e-17, -6e-17, -0.0, 3e-16, -1e-300])
    return m


def e_transform(rng, dim):
    return {'m': g_proj(rng), 'as': rng.choice(['array', 'list', 'obj'])}


def p_transform(g, a):
    np = _np()
    m = np.array(a['m'], dtype='d')
    if a['as'] == 'list':
        m = [list(map(float, r)) for r in a['m']]
    elif a['as'] == 'obj':
        m = core.ig.transform(m)
    return Call(g.transform, [m])


def g_vec(rng, n=None):
    if rng.random() < 0.2:
        v = [rng.randint(-3, 3) for _ in range(n or rng.randint(1, 3))]
        return v if any(v) else v[:-1] + [2]
    return [round(rng.uniform(-2, 2), 4) for _ in range(n or rng.randint(1, 3))]


def e_translate(rng, dim):
    if rng.random() < 0.5:
        return {'n': rng.choice(['translate', 'move']), 'd': g_vec(rng), 'axis': None}
    return {'n': rng.choice(['translate', 'move']), 'd': g_vec(rng, 1)[0], 'axis': rng.choice([None, 0, 1, 2])}


def p_translate(g, a):
    np = _np()
    d = np.array(a['d']) if isinstance(a['d'], list) else a['d']
    return Call(getattr(g, a['n']), [d, a['axis']])


def e_scale(rng, dim):
    s = [round(rng.uniform(0.5, 2), 4) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.5:
        return {'d': s, 'axis': None}
    return {'d': s[0], 'axis': rng.choice([None, 0, 1, 2])}


def p_scale(g, a):
    np = _np()
    d = np.array(a['d']) if isinstance(a['d'], list) else a['d']
    return Call(g.scale, [d, a['axis']])


def e_rotate(rng, dim):
    ang = rng.choice([0.0, 0.5, math.pi / 2, -2.1, round(rng.uniform(-6, 6), 4)])
    if rng.random() < 0.5:
        return {'ang': ang, 'axis': rng.choice([0, 1, 2, -1])}
    v = g_vec(rng, rng.choice([1, 2, 3]))
    if not any(v):
        v[-1] = 1
    return {'ang': ang, 'axis': v}


def p_rotate(g, a):
    np = _np()
    ax = np.array(a['axis']) if isinstance(a['axis'], list) else a['axis']
    return Call(g.rotate, [a['ang'], ax])


def e_transpose(rng, dim):
    p = list(range(dim))
    rng.shuffle(p)
    return {'axes': rng.choice([None, p])}


def p_transpose(g, a):
    return Call(g.transpose, [] if a['axes'] is None else [a['axes']])


def e_swap(rng, dim):
    return {'a': rng.randint(-dim, dim - 1), 'b': rng.randint(-dim, dim - 1)}


def p_swap(g, a):
    return Call(g.swap, [a['a'], a['b']])


def e_reverse(rng, dim):
    return {'axes': [i for i in range(dim) if rng.random() < 0.6]}


def p_reverse(g, a):
    return Call(g.reverse, a['axes'])


def e_remap(rng, dim):
    r = rng.random()
    s, e = round(rng.uniform(-2, 1), 4), round(rng.uniform(1.5, 4), 4)
    if r < 0.15:
        s = None
    elif r < 0.3:
        e = None
    elif r < 0.4:
        s, e = 0.0, 1.0
    return {'axis': rng.randint(0, dim - 1), 's': s, 'e': e}


def p_remap(g, a):
    s, e = a['s'], a['e']
    lo, hi = dom(g, a['axis'])
    if s is None and e is not None and e <= lo:
        e = hi + 1.0
    if e is None and s is not None and s >= hi:
        s = lo - 1.0
    return Call(g.remap, [a['axis'], s, e])


def mult(g, axis, v):
    U = g.knots[axis]
    return int(sum(1 for x in U if float(x) == v))


def e_insert(rng, dim):
    return {'axis': rng.randint(-dim, dim - 1), 'v': g_val(rng), 't': rng.choice([1, 1, 1, 2, 3, None])}


def _times(g, axis, v, t):
    p = g.degree[axis]
    room = p - min(mult(g, axis, v), p)
    return None if t is None else min(t, room)


def p_insert(g, a):
    ax = a['axis'] % g.dim
    v = val(g, ax, a['v'])
    return Call(g.insert, [a['axis'], v, _times(g, ax, v, a['t'])])


def e_remove(rng, dim):
    return {'axis': rng.randint(-dim, dim - 1), 'v': ['k', rng.randint(0, 6)], 't': rng.choice([1, 1, 2, None]),
            'dev': rng.choice([1e-9, 1e-9, 1e3])}


def p_remove(g, a):
    ax = a['axis'] % g.dim
    return Call(g.remove, [a['axis'], val(g, ax, a['v']), a['t'], a['dev']])


def e_refine(rng, dim):
    return {'axis': rng.randint(0, dim - 1), 'v': [g_val(rng, 0.3) for _ in range(rng.randint(1, 5) if rng.random() < 0.94 else rng.randint(18, 40))],
            'as': rng.choice(['array', 'array', 'list', 'scalar', 'int0'])}


def refine_values(g, ax, specs):
    p = g.degree[ax]
    cnt, out = {}, []
    for s in specs:
        v = val(g, ax, s)
        have = cnt.get(v)
        if have is None:
            # knots() drops one knot at each end for the multiplicity test
            have = sum(1 for x in g.knots[ax][1:-1] if float(x) == v)
        if have + 1 <= p:
            cnt[v] = have + 1
            out.append(v)
    return out


def p_refine(g, a):
    np = _np()
    v = refine_values(g, a['axis'], a['v'])
    if a['as'] == 'array':
        v = np.array(v, dtype='d')
    elif a['as'] == 'scalar' and v:
        v = v[0]
    return Call(g.refine, [a['axis'], v])


def e_clamp(rng, dim):
    return {'axis': rng.randint(-dim, dim - 1), 'side': rng.choice([None, 0, 1])}


def p_clamp(g, a):
    return Call(g.clamp, [a['axis'], a['side']])


def e_unclamp(rng, dim):
    return {'axis': rng.randint(-dim, dim - 1), 'side': rng.choice([None, 0, 1]), 'c': rng.choice([None, None, 0, 1, 2])}


def p_unclamp(g, a):
    ax = a['axis'] % g.dim
    c = a['c']
    if c is not None:
        c = min(c, g.degree[ax] - 1)
    return Call(g.unclamp, [a['axis'], a['side'], c])


def e_elevate(rng, dim):
    return {'axis': rng.randint(-dim, dim - 1), 't': rng.choice([1, 1, 2, 0, None])}


def p_elevate(g, a):
    return Call(g.elevate, [a['axis'], a['t']])


# ---------------------------------------------------------------- constructions

def c_slice(rng, dim):
    a, b = sorted([g_val(rng, 0.3), g_val(rng, 0.3)], key=lambda s: (s[0], s[1]))
    if rng.random() < 0.2:
        a = None
    if rng.random() < 0.2:
        b = None
    return {'axis': rng.randint(0, dim - 1), 's': a, 'e': b}


def p_slice(g, a):
    ax = a['axis']
    lo, hi = dom(g, ax)
    s = None if a['s'] is None else val(g, ax, a['s'])
    e = None if a['e'] is None else val(g, ax, a['e'])
    s1, e1 = (lo if s is None else s), (hi if e is None else e)
    if s1 > e1:
        s, e = e, s
        s1, e1 = (lo if s is None else s), (hi if e is None else e)
    if s1 == e1:
        s = e = None
    return Call(g.slice, [ax, s, e])


def c_extract(rng, dim):
    return {'axis': rng.randint(-dim, dim - 1), 'v': g_val(rng)}


def p_extract(g, a):
    return Call(g.extract, [a['axis'], val(g, a['axis'] % g.dim, a['v'])])


def c_boundary(rng, dim):
    return {'axis': rng.randint(-dim, dim - 1), 'side': rng.randint(0, 1)}


def p_boundary(g, a):
    return Call(g.boundary, [a['axis'], a['side']])


def c_cadrefine(rng, dim):
    def arg(lo, hi):
        r = rng.random()
        if r < 0.4:
            return None
        if r < 0.6:
            return rng.randint(lo, hi)
        xs = [rng.choice([None, rng.randint(lo, hi)]) for _ in range(dim)]
        return ['a', xs, 'O', rng.choice('Cr')] if rng.random() < 0.3 else xs
    return {'f': arg(1, 3), 'd': arg(1, 4), 'c': rng.choice([None, None, 0, -1])}


def p_cadrefine(g, a):
    f, d, c = [arr(x) if isinstance(x, list) and isinstance(x[0], str) else x for x in (a['f'], a['d'], a['c'])]
    return Call(core.ig.cad.refine, [g, f, d, c])


def c_extrude(rng, dim):
    if rng.random() < 0.5:
        return {'d': g_vec(rng), 'axis': None}
    return {'d': g_vec(rng, 1)[0], 'axis': rng.choice([0, 1, 2])}


def p_extrude(g, a):
    np = _np()
    d = np.array(a['d']) if isinstance(a['d'], list) else a['d']
    return Call(core.ig.cad.extrude, [g, d, a['axis']])


def c_revolve(rng, dim):
    ax = rng.choice([0, 1, 2, g_vec(rng, 3), [1.0, 0.5, 0.25]])
    ang = rng.choice([None, 1.0, -2.0, math.pi, 4.5, [0.3, 1.9], [None, 2.5]])
    return {'p': rng.choice([0.0, g_vec(rng, 3), g_vec(rng, 2)]), 'axis': ax, 'ang': ang}


def p_revolve(g, a):
    np = _np()
    p = np.array(a['p']) if isinstance(a['p'], list) else a['p']
    ax = np.array(a['axis']) if isinstance(a['axis'], list) else a['axis']
    return Call(core.ig.cad.revolve, [g, p, ax, a['ang']])


# ops with further geometries: a['g'] is a spec or an existing geometry
def _geo(x):
    return geo.build(x) if isinstance(x, dict) else x


def p_ruled(g, a):
    h = _geo(a['g'])
    return Call(core.ig.cad.ruled, [g, h])


def p_sweep(g, a):
    return Call(core.ig.cad.sweep, [g, _geo(a['g'])])


def p_compat(g, a):
    hs = [_geo(s) for s in a['gs']]
    kw = {} if a['axes'] is None else {'axes': a['axes']}
    if a['seq']:
        return Call(core.ig.cad.compat, [[g] + hs], kw, extra=hs)
    return Call(core.ig.cad.compat, [g] + hs, kw)


def p_join(g, a):
    return Call(core.ig.cad.join, [g, _geo(a['g']), a['axis']])


def mate_coons(rng):
    """Four boundary curves that meet exactly at the corners (integer corners,
    interpolating ends); specs in the order [[C00, C01], [C10, C11]]."""
    P = [[[rng.randint(-4, 4) + 6.0 * i, rng.randint(-4, 4) + 6.0 * j, float(rng.randint(-3, 3))] for j in range(2)] for i in range(2)]

    def crv(a, b, shared):
        s = geo.gen(rng, dim=1, maxp=(3,), maxspans=(3,), kind='clamped', fields=0, rational=False, maxctl=(8,))
        U = [float(x) for x in s['U'][0]]
        C = list(s['C'])
        C[0:4] = a + [1.0]
        C[-4:] = b + [1.0]
        lo, hi = U[0], U[-1]
        U = [(x - lo) / (hi - lo) for x in U]
        if len(set(U)) < 2 or U != sorted(U):
            U = [0.0] * 2 + [1.0] * 2
            C = a + [1.0] + b + [1.0]
            s = dict(s, shape=[2])
        if len(U) - len(C) // 4 - 1 == 1 and rng.random() < 0.3:
            # degree one interpolates its ends with open end knots, too
            U[0] -= rng.choice([0.25, 0.5, 0.0])
            U[-1] += rng.choice([0.25, 0.5, 0.0])
        return dict(s, U=[U], C=C)
    return [[crv(P[0][0], P[0][1], 0), crv(P[1][0], P[1][1], 0)], [crv(P[0][0], P[1][0], 1), crv(P[0][1], P[1][1], 1)]]


def p_coons(g, a):
    cs = [[_geo(x) for x in row] for row in a['cs']]
    cs = [tuple(r) for r in cs] if a.get('tuple') else cs
    return Call(core.ig.cad.coons, [cs], extra=[x for r in cs for x in r])


# ---------------------------------------------------------------- free functions

def arr(spec):
    """Argument values in several forms: ['s', x] a number, ['l', xs] a list, ['t', xs] a tuple,
    ['a', xs, dtype, order] an array ('C', 'F', 'r' strided view)."""
    np = _np()
    if spec is None or not isinstance(spec, list):
        return spec
    k = spec[0]
    if k == 's':
        return spec[1]
    if k == 'l':
        return spec[1]
    if k == 't':
        return tuple(spec[1])
    a = np.array(spec[1], dtype=spec[2])
    if spec[3] == 'F':
        a = np.asfortranarray(a)
    elif spec[3] == 'r' and a.ndim:
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype)
        b[..., ::2] = a
        a = b[..., ::2]
    return a


def g_arr(rng, xs, ints=False, forms='lttaaaa'):
    f = rng.choice(forms)
    if f == 'a':
        dt = rng.choice(['i4', 'i4', 'i8', 'O'] if ints else ['f8', 'f8', 'f8', 'f4', 'O'])
        return ['a', xs, dt, rng.choice('CCFr')]
    return [f, xs]


def f_line(rng):
    return {'p0': g_arr(rng, g_vec(rng)), 'p1': g_arr(rng, g_vec(rng))}


def f_circle(rng):
    ang = rng.choice([None, 0.7, 3.0, -2.0, 6.0, [0.5, 2.5], [None, 4.0], [2.0, None], [3.0, -1.0]])
    return {'r': rng.choice([1, 2.0, 0.5]), 'c': rng.choice([None, 2.0, g_arr(rng, g_vec(rng, 3)), g_arr(rng, g_vec(rng, 2))]),
            'ang': ang, 'tuple': rng.random() < 0.5}


def f_pts(n):
    def f(rng):
        d = rng.choice([2, 3, 3, 4]) if n < 3 else 3

        def mk(k):
            if k == 0:
                v = [round(rng.uniform(-2, 2), 4) for _ in range(d)]
                if d == 4:
                    v[3] = abs(v[3]) + 0.5
                return v
            return [mk(k - 1), mk(k - 1)]
        return {'p': rng.choice([None, g_arr(rng, mk(n), forms='laaaa')])}
    return f


def f_grid(rng):
    dim = rng.choice([1, 2, 3])
    p = [rng.randint(1, 3) for _ in range(dim)]
    a = {'shape': g_arr(rng, [rng.randint(1, 3) for _ in range(dim)], True, 'laaa')}
    if dim == 1 and rng.random() < 0.4:
        a['shape'] = rng.choice([['s', rng.randint(1, 4)], ['a', rng.randint(1, 4), 'i4', 'C']])
    pm = rng.randint(1, 3)
    a['p'] = rng.choice([['s', pm], ['a', pm, 'i4', 'C'], g_arr(rng, p, True, 'laaa')])
    pl = p if a['p'][0] == 'l' or isinstance(a['p'][1], list) else [pm] * dim
    c = [rng.choice([-1, rng.randint(0, q - 1)]) for q in pl]
    a['c'] = rng.choice([None, ['s', -1], ['s', 0], g_arr(rng, c, True, 'laaa')])
    a['lim'] = rng.choice([None, g_arr(rng, [0.0, 2.0]), g_arr(rng, [[float(i), i + 2.0] for i in range(dim)], forms='laaa')])
    a['wrap'] = rng.choice([None, ['s', True], g_arr(rng, [bool(rng.randint(0, 1)) for _ in range(dim)], True, 'la')])
    return a


def p_grid(g, a):
    kw = {}
    for k, n in (('p', 'degree'), ('c', 'continuity'), ('lim', 'limits'), ('wrap', 'wrap')):
        if a[k] is not None:
            kw[n] = arr(a[k])
    return Call(core.ig.cad.grid, [arr(a['shape'])], kw)


def f_nurbs(rng):
    spec = geo.gen(rng, maxp=(3, 2, 2), maxspans=(3, 2, 2), maxctl=(9, 16, 20))
    return {'spec': spec, 'sd': rng.choice([2, 3, 4, 4]), 'w': rng.choice(['none', 'arg', 'tuple']),
            'kf': rng.choice('laaf'), 'o': rng.choice('CCFrl'), 'none': rng.random() < 0.1,
            'val': rng.choice([None] * 6 + ['P nan', 'P inf', 'P -0.0', 'P 1e-17', 'F nan', 'F -0.0', 'F 1e-310', 'w -0.0', 'w -1.0', 'U -0.0']),
            'odd': rng.choice(['', '', '', 'w flat', 'w extra', 'F flat', 'F first', 'P flat'])}


def p_nurbs(g, a):
    np = _np()
    s = a['spec']
    shape = tuple(s['shape'])
    C = np.array(s['C'], dtype='d').reshape(shape + (4,))
    kn = [list(u) if a['kf'] == 'l' else np.array(u, dtype='f4' if a['kf'] == 'f' else 'f8') for u in s['U']]
    if a['none']:
        return Call(core.ig.NURBS, [kn])
    w = C[..., 3].copy()
    sd = a['sd']
    P = C if sd == 4 else C[..., :sd].copy()
    F = None if s['F'] is None else np.array(s['F'], dtype='d').reshape(shape + (s['nf'],))
    if a.get('val'):
        # values that code is tempted to tidy up in place
        where, v = a['val'].split()
        x = {'P': P, 'F': F, 'w': w, 'U': None}[where]
        if x is not None:
            x.reshape(-1)[::3] = float(v)
        elif where == 'U':
            for u in kn:
                for i, y in enumerate(u):
                    if y == 0:
                        u[i] = -0.0
    odd = a.get('odd')
    if odd == 'w flat':
        w = w.ravel()
    elif odd == 'w extra':
        w = w[..., None]
    elif odd == 'P flat':
        P = P.reshape(-1, P.shape[-1])
    elif odd == 'F flat' and F is not None:
        F = F.reshape(-1, F.shape[-1])
    elif odd == 'F first' and F is not None:
        F = np.rollaxis(F, -1).copy()

    def form(x):
        if x is None:
            return None
        if a['o'] == 'F':
            return np.asfortranarray(x)
        if a['o'] == 'l':
            return x.tolist()
        if a['o'] == 'r':
            b = np.zeros(x.shape[:-1] + (2 * x.shape[-1],))
            b[..., ::2] = x
            return b[..., ::2]
        return x
    kw = {}
    if F is not None:
        kw['fields'] = form(F)
    if sd < 4 and a['w'] == 'tuple':
        return Call(core.ig.NURBS, [kn, (form(P), form(w))], kw)
    if sd < 4 and a['w'] == 'arg':
        kw['weights'] = form(w)
    return Call(core.ig.NURBS, [kn, form(P)], kw)


def f_tr(rng):
    steps = []
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(['translate', 'move', 'scale', 'rotate', 'compose', 'composeT', 'invert', 'copy', 'clone', 'inverse', 'new', 'invert', 'inverse'])
        if k in ('translate', 'move', 'scale'):
            steps.append([k, g_arr(rng, [round(rng.uniform(0.5, 2), 3) for _ in range(rng.randint(1, 3))], forms='laa'), rng.choice([None, None, None, 1])])
            if steps[-1][2] is not None:
                steps[-1][1] = ['s', round(rng.uniform(0.5, 2), 3)]
        elif k == 'rotate':
            steps.append([k, rng.choice([0.0, 0.7, -2.0]), rng.choice([0, 1, 2, g_arr(rng, [1.0, 0.5, 0.25], forms='laa')])])
        elif k in ('compose', 'composeT'):
            m = g_proj(rng)
            if rng.random() < 0.3:
                m = [r[:3] for r in m[:3]]
                k = 'compose'
            steps.append([k, g_arr(rng, m, forms='laa')])
        else:
            steps.append([k])
    return {'m': rng.choice([None, g_arr(rng, g_proj(rng), forms='laa')]), 'obj': rng.random() < 0.5, 'steps': steps, 'x': g_arr(rng, [[1.0, 2.0, 3.0, 1.0], [0.5, 0.0, -1.0, 2.0]], forms='aa')}


def p_tr(g, a):
    T = core.ig.transform
    m = arr(a['m'])
    if a.get('obj') and m is not None:
        m = T(m)
    args = [[s[0]] + [arr(x) for x in s[1:]] for s in a['steps']]
    for s in args:
        if s[0] == 'composeT':
            s[1] = T(s[1])
    x = arr(a['x'])
    old = []

    def run():
        t = T(m)
        for s in args:
            k = s[0]
            if k in ('copy', 'clone', 'inverse', 'new'):
                old.append((k, t, t.matrix.tobytes()))
            if k in ('translate', 'move', 'scale'):
                t = getattr(t, k)(s[1], s[2])
            elif k == 'rotate':
                t = t.rotate(s[1], s[2])
            elif k in ('compose', 'composeT'):
                t = t.compose(s[1])
            elif k == 'new':
                t = T(t)
            else:
                t = getattr(t, k)()
        return t, t(x)

    def post():
        for k, t, b in old:
            if t.matrix.tobytes() != b:
                return 'a transformation has changed after another was made of it (%s)' % k
    return Call(run, extra=[m, x] + [y for s in args for y in s[1:]], post=post)


def _kv(rng):
    p = rng.randint(1, 4)
    return p, geo.gen_knots(rng, p, rng.randint(1, 4))


def f_low(rng):
    """Low-level tables of the compiled library."""
    p, U = _kv(rng)
    n = rng.choice(['iga.KnotVector', 'iga.GaussLegendreRule', 'iga.GaussLobattoRule', 'iga.BasisData', 'iga.Greville',
                    'iga.BasisDataCol', 'bsp.FindSpan', 'bsp.FindMult', 'bsp.FindSpanMult', 'bsp.EvalBasisFuns',
                    'bsp.EvalBasisFunsDers', 'bsp.SpanIndex', 'bsp.Greville'])
    m = len(U)
    a, b = U[p], U[m - p - 1]
    us = [a + (b - a) * rng.choice(FRACS) for _ in range(rng.randint(1, 4))]
    us = [min(max(x, a), b) for x in us]
    Ua = ['a', U, 'f8', rng.choice('CCr')]
    d = rng.choice([None, rng.randint(0, p)])
    if n == 'iga.KnotVector':
        C = rng.randint(0, p - 1)
        args, kw = [rng.randint(1, 4), p, C, 0.0, 2.0, rng.random() < 0.5], {}
    elif n.endswith('LegendreRule'):
        args, kw = [rng.randint(1, 10)], {}
    elif n.endswith('LobattoRule'):
        args, kw = [rng.randint(2, 10)], {}
    elif n == 'iga.BasisData':
        kw = {}
        if d is not None:
            kw['d'] = d
        if rng.random() < 0.5:
            kw['q'] = rng.randint(1, 6)
        args = [p, Ua]
    elif n == 'iga.BasisDataCol':
        args, kw = [p, Ua, ['a', us, 'f8', rng.choice('CCr')]], ({} if d is None else {'d': d})
    elif n in ('iga.Greville', 'bsp.Greville', 'bsp.SpanIndex'):
        args, kw = [p, Ua], {}
    elif n == 'bsp.EvalBasisFunsDers':
        args, kw = [p, Ua, us[0]], ({} if d is None else {'d': d})
    else:
        args, kw = [p, Ua, us[0]], {}
    return {'n': n, 'args': args, 'kw': kw}


def p_low(g, a):
    o = core.ig.igalib
    for part in a['n'].split('.'):
        o = getattr(o, part)
    return Call(o, [arr(x) for x in a['args']], {k: arr(v) for k, v in a['kw'].items()})


def f_pts_call(name, n):
    return f_pts(n), (lambda g, a: Call(getattr(core.ig.cad, name), [] if a['p'] is None else [arr(a['p'])]))


FREE = {
    'line': (f_line, lambda g, a: Call(core.ig.cad.line, [arr(a['p0']), arr(a['p1'])])),
    'circle': (f_circle, lambda g, a: Call(core.ig.cad.circle, [a['r'], arr(a['c']),
               tuple(a['ang']) if a['tuple'] and isinstance(a['ang'], list) else a['ang']])),
    'linear': f_pts_call('linear', 1), 'bilinear': f_pts_call('bilinear', 2), 'trilinear': f_pts_call('trilinear', 3),
    'grid': (f_grid, p_grid), 'NURBS': (f_nurbs, p_nurbs), 'transformation': (f_tr, p_tr), 'table': (f_low, p_low),
    'coons': (lambda rng: {'cs': mate_coons(rng), 'tuple': rng.random() < 0.5}, p_coons),
}


def gen_free(rng, names=None):
    n = rng.choice(names or list(FREE))
    return {'op': n, 'a': FREE[n][0](rng)}


def mate(rng, spec, fields=None, dim=None):
    dim = dim or len(spec['shape'])
    return geo.gen(rng, dim=dim, maxp=(3, 3, 2), maxspans=(3, 2, 2), kind='clamped',
                   fields=spec['nf'] if fields is None else fields, maxctl=(10, 25, 30))


QUERIES = {
    'call': (q_call, p_call), 'evaluate': (q_evaluate, p_evaluate), 'gradient': (q_gradient, p_gradient),
    'hessian': (q_hessian, p_hessian), 'derivative': (q_derivative, p_derivative),
    'breaks': (q_breaks, p_breaks), 'spans': (_axq, _p1('spans')), 'greville': (_axq, _p1('greville')),
    'lagrange': (_axq, _p1('lagrange')), 'lobatto': (_axq, _p1('lobatto')),
    'props': (lambda r, d: {}, p_props),
}
EDITS = {
    'transform': (e_transform, p_transform), 'translate': (e_translate, p_translate), 'scale': (e_scale, p_scale),
    'rotate': (e_rotate, p_rotate), 'transpose': (e_transpose, p_transpose), 'swap': (e_swap, p_swap),
    'reverse': (e_reverse, p_reverse), 'remap': (e_remap, p_remap), 'insert': (e_insert, p_insert),
    'remove': (e_remove, p_remove), 'refine': (e_refine, p_refine), 'clamp': (e_clamp, p_clamp),
    'unclamp': (e_unclamp, p_unclamp), 'elevate': (e_elevate, p_elevate),
}
NEW1 = {
    'copy': (lambda r, d: {}, lambda g, a: Call(g.copy)),
    'clone': (lambda r, d: {}, lambda g, a: Call(g.clone)),
    'slice': (c_slice, p_slice), 'extract': (c_extract, p_extract), 'boundary': (c_boundary, p_boundary),
    'cad.refine': (c_cadrefine, p_cadrefine),
}
NEW1S = {   # only for curves and surfaces
    'extrude': (c_extrude, p_extrude), 'revolve': (c_revolve, p_revolve),
}
NEW2 = {'ruled': p_ruled, 'sweep': p_sweep, 'compat': p_compat, 'join': p_join}
ALL = {}
for d in (QUERIES, EDITS, NEW1, NEW1S, FREE):
    for k, v in d.items():
        ALL[k] = v[1]
ALL.update(NEW2)


def gen_query(rng, dim, names=None):
    n = rng.choice(names or list(QUERIES))
    return {'op': n, 'a': QUERIES[n][0](rng, dim)}


def gen_edit(rng, dim, names=None):
    n = rng.choice(names or list(EDITS))
    return {'op': n, 'a': EDITS[n][0](rng, dim)}


def gen_new(rng, spec, names=None):
    dim = len(spec['shape'])
    pool = list(NEW1) + (list(NEW1S) + ['ruled'] if dim <= 2 else []) + (['sweep'] if dim <= 2 else []) + ['compat', 'join']
    if names:
        pool = [n for n in pool if n in names]
    n = rng.choice(pool)
    if n in NEW1:
        a = NEW1[n][0](rng, dim)
    elif n in NEW1S:
        a = NEW1S[n][0](rng, dim)
    elif n == 'ruled':
        a = {'g': mate(rng, spec)}
    elif n == 'sweep':
        a = {'g': mate(rng, spec, dim=1, fields=0)}
    elif n == 'join':
        a = {'g': mate(rng, spec), 'axis': rng.randint(0, dim - 1)}
    else:
        a = {'gs': [mate(rng, spec) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 4]))], 'seq': rng.random() < 0.4,
             'axes': rng.choice([None, None, 0, [0], -1])}
    return {'op': n, 'a': a}


def prep(g, op):
    c = ALL[op['op']](g, op['a'])
    c.label = op['op']
    return c
