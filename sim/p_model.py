"""G01: modelling histories against the function-composition model of refmodel.py."""
import json, math, random, os
import core, geo, opset, p_fail
from core import *
import refmodel as rm

EPS = 2.3e-16
MAXCTL = 400



def g_near(rng):
    """A direction close to an axis, as it results from computations with rounding errors."""
    v = [rng.choice([-1, 1]) * 10 ** rng.uniform(-17, -2) if rng.random() < 0.8 else 0.0 for _ in range(3)]
    v[rng.choice([0, 1, 2, 2])] = rng.choice([-1.0, 1.0, 2.5, -0.3])
    return v


def _np():
    return geo._np()


# ---------------------------------------------------------------- generation

EDITS = ['insert', 'insert', 'refine', 'remove', 'insrem', 'elevate', 'clamp', 'unclamp', 'unclamp', 'remap', 'reverse', 'transpose',
         'swap', 'affine', 'affine', 'translate', 'scale', 'rotate']
MAKES = ['slice', 'slice', 'extract', 'boundary', 'copy', 'copy', 'clone', 'cadrefine', 'compat', 'ruled', 'kin', 'kin', 'tower', 'extrude', 'revolve',
         'sweep', 'cutjoin', 'mirrorjoin', 'coons', 'disk', 'poke', 'nudge']


def g_v(rng):
    r = rng.random()
    if r < 0.25:
        return ['k', rng.randint(0, 6), rng.choice([0, 0, 0, 1, -1])]
    return ['f', rng.choice([0.5, 0.25, 1 / 3.0, 0.1, 0.875, round(rng.random(), 5)])]


def g_nudge(rng):
    return {'d': rng.choice([-1, 1]) * round(10 ** rng.uniform(-12, 0), 14), 'r': rng.randint(0, 10 ** 6), 'n': rng.choice([1, 1, 1, 2, 4])}


def g_op(rng, tier):
    n = rng.choice(EDITS) if rng.random() < 0.62 else rng.choice(MAKES)
    o = {'op': n, 'i': rng.randint(0, 9), 'ax': rng.randint(0, 5)}
    if rng.random() < 0.3:
        o['neg'] = rng.choice([1, 1, 2, 3])
    if n == 'insert':
        o.update(v=g_v(rng), t=rng.choice([1, 1, 1, 2, 3, None]))
    elif n == 'insrem':
        o.update(v=g_v(rng), t=rng.choice([1, 1, 2, 3]), between=rng.choice([None, None, 'elevate', 'affine', 'other', 'nudge', 'nudge']), dev=rng.choice([None, None, 1e-6, 1e-4]), nud=g_nudge(rng), big=rng.choice([1, 1, 100, 1000]))
        if rng.random() < 0.4:
            # about as much as the removal may move
            o.update(rel=round(10 ** rng.uniform(-1, 2.5), 4), big=rng.choice([1, 0.01, 0.01]))
    elif n == 'remove':
        o.update(v=['k', rng.randint(0, 6), rng.choice([0, 0, 1, -1])], t=rng.choice([1, 1, 2, None]), dev=rng.choice([None, None, None, None, 1e-6, 1e-3, 1e-12]))
    elif n == 'refine':
        o.update(v=[g_v(rng) for _ in range(rng.randint(1, 4) if rng.random() < 0.96 else rng.randint(17, 26))])
    elif n == 'elevate':
        o.update(t=rng.choice([1, 1, 1, 2, 3, 0]))
    elif n == 'tower':
        o.update(t=rng.choice([4, 9, 16, 24, 27, 28, 29, 30, 33, 40]))
    elif n == 'clamp':
        o.update(side=rng.choice([None, 0, 1]))
    elif n == 'unclamp':
        o.update(side=rng.choice([None, 0, 1]), c=rng.choice([None, None, 0, 1, 2]))
    elif n == 'remap':
        s = round(rng.uniform(-3, 3), 4)
        o.update(s=rng.choice([s, s, s, 0.0, None]), d=rng.choice([1.0, 0.3, round(rng.uniform(0.2, 5), 4), 1 / 3.0]), e=rng.random() < 0.2)
    elif n == 'reverse':
        o.update(axes=[rng.randint(-3, 2) for _ in range(rng.choice([0, 1, 1, 2, 3]))])
    elif n == 'transpose':
        o.update(p=rng.choice([None, rng.randint(0, 5)]))
    elif n == 'swap':
        o.update(b=rng.randint(0, 5))
    elif n == 'affine':
        o.update(m=opset.g_mat(rng), obj=rng.random() < 0.5)
    elif n == 'translate':
        o.update(n=rng.choice(['translate', 'move']), **(dict(d=opset.g_vec(rng), axis=None) if rng.random() < 0.5 else
                                                         dict(d=opset.g_vec(rng, 1)[0], axis=rng.choice([None, 0, 1, 2, -1]))))
    elif n == 'scale':
        s = [rng.choice([-1, 1]) * round(rng.uniform(0.5, 2), 4) for _ in range(rng.randint(1, 3))]
        o.update(d=s if rng.random() < 0.5 else s[0])
        o['axis'] = None if isinstance(o['d'], list) else rng.choice([None, 0, 1, 2])
    elif n == 'rotate':
        o.update(opset.e_rotate(rng, 3))
    elif n == 'slice':
        a, b = sorted([rng.random(), rng.random()])
        o.update(s=rng.choice([None, ['f', round(a * 0.5, 5)], ['k', rng.randint(0, 6), rng.choice([0, 0, 1, -1])]]),
                 e=rng.choice([None, ['f', round(0.5 + b * 0.5, 5)], ['k', rng.randint(0, 6), rng.choice([0, 0, 1, -1])]]))
        if rng.random() < 0.15:
            o.update(s=['f', round(rng.uniform(0.02, 0.97), 5)], e=None, width=rng.choice([3e-2, 9e-3, 1e-3, 1e-4, 1e-6]))
    elif n == 'extract':
        o.update(v=g_v(rng))
    elif n == 'boundary':
        o.update(side=rng.randint(0, 1))
    elif n == 'cadrefine':
        o.update(factor=rng.choice([None, 1, 2, 3, 'list', 'spans']), degree=rng.choice([None, 2, 3, 4, 'list']),
                 c=rng.choice([None, 0, 1, -1, -2, 'list']), r=rng.randint(0, 10 ** 6))
    elif n == 'compat':
        o.update(j=rng.randint(0, 9), axes=rng.choice([None, None, None, 0, 1]))
    elif n == 'ruled':
        o.update(j=rng.randint(0, 9))
    elif n == 'kin':
        ed = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            k = rng.choice(['ins', 'end', 'end', 'near', 'near', 'noise', 'noise', 'elev'])
            e = [k, rng.randint(0, 5)]
            if k == 'ins':
                e += [g_v(rng), rng.choice([1, 1, 2])]
            elif k == 'end':
                e += [rng.randint(0, 1), rng.choice([1, 1, 2, 3])]
            elif k == 'near':
                e += [rng.randint(0, 6), rng.choice([-1, 1]) * round(10 ** rng.uniform(-7, -2.5), 12), rng.choice([1, 1, 2])]
            elif k == 'noise':
                e += [round(rng.uniform(-3, 3), 3), round(rng.uniform(0.1, 7), 3)]
            ed.append(e)
        o.update(ed=ed, on=rng.choice([0, 1, 1, 1]), act=rng.choice(['compat', 'compat', 'ruled']), tr=opset.g_vec(rng, 3), first=rng.random() < 0.5,
                 un=rng.choice([None, None, None, 0, 1, 2]), uc=rng.choice([None, 0, 1]))
    elif n == 'extrude':
        o.update(**(dict(d=opset.g_vec(rng, rng.choice([2, 3])), axis=None) if rng.random() < 0.6 else
                    dict(d=round(rng.uniform(0.5, 3), 3), axis=rng.choice([0, 1, 2]))))
    elif n == 'revolve':
        ang = rng.choice([None, None, 'one', 'pair'])
        if ang == 'one':
            ang = rng.choice([math.pi / 2, -math.pi / 2, math.pi, 2 * math.pi, round(rng.uniform(0.2, 6.2), 4), -round(rng.uniform(0.2, 6.2), 4)])
        elif ang == 'pair':
            a0 = round(rng.uniform(-3, 3), 4)
            ang = [a0, a0 + rng.choice([-1, 1]) * round(rng.uniform(0.2, 6.2), 4)]
        o.update(p=rng.choice([0.0, opset.g_vec(rng), opset.g_vec(rng, 3)]),
                 axis=rng.choice([0, 1, 2, 2, [0, 0, 1], [0, 0, -1], [1], [0, 1], [0, -1, 0], opset.g_vec(rng, 3), g_near(rng)]), ang=ang)
    elif n == 'sweep':
        o.update(j=rng.randint(0, 9))
    elif n in ('cutjoin', 'mirrorjoin'):
        o.update(v=['f', rng.choice([0.5, 0.25, 0.7, round(rng.uniform(0.1, 0.9), 4)])] if rng.random() < 0.7 else ['k', rng.randint(0, 6), 0],
                 ra=rng.choice([0, 0, 1, 2]), rb=rng.choice([0, 0, 1, 2]), map=rng.choice([None, [0.0, 1.0], [-1.0, 0.7]]),
                 un=rng.choice([0, 0, 1]))
        if n == 'cutjoin' and rng.random() < 0.5:
            o['nud'] = g_nudge(rng)
            if rng.random() < 0.7:             # almost smooth
                o['nud'].update(d=rng.choice([-1, 1]) * round(10 ** rng.uniform(-8.5, -3), 14), near=True)
    elif n == 'poke':
        o.update(m=opset.g_mat(rng))
    elif n == 'nudge':
        o['nud'] = g_nudge(rng)
    if rng.random() < 0.3:
        o['f'] = [rng.choice(['i', 'i', 'a']), round(rng.random(), 4) if rng.random() < 0.5 else round(1 - rng.random() * 0.1, 4)]
    return o


def gen_item(rng):
    r = rng.random()
    if r < 0.07:
        return {'circle': [round(rng.uniform(0.5, 2), 3), rng.choice([None, 1.2, [0.3, -2.0], math.pi / 2, 4.0])]}
    return geo.gen(rng, dim=rng.choice([1, 1, 1, 2, 2, 3]), maxp=(5, 4, 3), maxspans=(4, 3, 2), maxctl=(12, 30, 36))


def gen_g01(rng, tier):
    n = rng.choice([1, 1, 2, 2, 3])
    items = [gen_item(rng) for _ in range(n)]
    if n > 1 and rng.random() < 0.5:            # same dimension: more two-operand operations
        d = len(items[0].get('shape', [0]))
        items[1:] = [geo.gen(rng, dim=d, maxp=(5, 4, 3), maxspans=(4, 3, 2), maxctl=(12, 30, 36)) for _ in items[1:]]
    ops = [g_op(rng, tier) for _ in range(rng.randint(1, 8 if tier == 'quick' else 14))]
    return {'items': items, 'ops': ops, 'pts': rng.randint(0, 10 ** 9)}


# ---------------------------------------------------------------- items

class Item:
    """A live geometry, the model of what it should be, and how exact it can be."""
    def __init__(self, g, m, err=0.0, surplus=None, cond=1.0):
        self.g, self.m = g, m
        self.err, self.cond = err, cond
        self.surplus = surplus if surplus is not None else [[] for _ in range(g.dim)]
        self.note_scale()

    def note_scale(self, ops=1):
        np = _np()
        a = self.g.array
        self.top = float(np.abs(a).max()) if a.size else 0.0
        self.err += ops * 40 * EPS * self.top * self.cond

    def kids(self):
        return self.g


def make_item(spec):
    np = _np()
    if 'circle' in spec:
        r, ang = spec['circle']
        g = core.ig.cad.circle(r, angle=tuple(ang) if isinstance(ang, list) else ang)
    else:
        g = geo.build(spec)
    return Item(g, rm.Base(g.knots, g.array))


def dom(g, ax):
    return opset.dom(g, ax)


def breaks(g, ax):
    p, U = g.degree[ax], g.knots[ax]
    return sorted(set(float(t) for t in U[p:len(U) - p]))


def pick(g, ax, s):
    """a parameter value: not closer than a thousandth of the domain to a knot
    unless it is that knot up to one rounding"""
    np = _np()
    a, b = dom(g, ax)
    br = breaks(g, ax)
    if s[0] == 'f':
        v = min(max(a + s[1] * (b - a), a), b)
        k = min(br, key=lambda t: abs(t - v))
        return k if abs(k - v) < 2e-3 * (b - a) else v
    k = br[s[1] % len(br)]
    if len(s) > 2 and s[2]:
        v = float(np.nextafter(k, k + s[2]))
        if a <= v <= b:
            return v
    return k


def snap(g, ax, v):
    br = [float(x) for x in g.knots[ax]]
    k = min(br, key=lambda t: abs(t - v))
    return k if abs(k - v) <= 1e-9 * max(1e-300, max(abs(x) for x in br)) else v


def mult(g, ax, v):
    return sum(1 for x in g.knots[ax] if float(x) == v)


def inner(g, ax):
    p, U = g.degree[ax], [float(x) for x in g.knots[ax]]
    a, b = dom(g, ax)
    return [x for x in U if a < x < b]


def size(g):
    n = 1
    for s in g.shape:
        n *= s
    return n


def cluster(kn, tol):
    """multiset of knots up to rounding: [(value, count)]"""
    out = []
    for x in sorted(kn):
        if out and x - out[-1][0] <= tol:
            out[-1][1] += 1
        else:
            out.append([x, 1])
    return [tuple(c) for c in out]


def same_multiset(got, want, tol):
    if len(got) != len(want):
        return False
    return all(abs(x - y) <= tol for x, y in zip(sorted(got), sorted(want)))


class Skip(Exception):
    """the operation does not apply to these geometries"""


class Wrong(Exception):
    pass


def need(c, msg, *a):
    if not c:
        raise Wrong(msg % a if a else msg)


def aff_rotate(ang, axis):
    np = _np()
    v = np.zeros(3)
    if isinstance(axis, int):
        v[axis] = 1
    else:
        v[:len(axis)] = axis
    v = v / math.sqrt(float((v * v).sum()))
    M = np.eye(4)
    Kx = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
    M[:3, :3] = np.eye(3) + math.sin(ang) * Kx + (1 - math.cos(ang)) * (Kx @ Kx)
    return M


# each edit: prepare(item, op) -> (method args builder, finish(item, before)) where finish
# updates the model after the real call and checks the representation

class Before:
    def __init__(self, g):
        self.knots = [[float(x) for x in k] for k in g.knots]
        self.degree = list(g.degree)
        self.shape = list(g.shape)
        self.dom = [dom(g, i) for i in range(g.dim)]
        self.inner = [inner(g, i) for i in range(g.dim)]


def others_same(g, b, ax):
    for i in range(g.dim):
        if i != ax:
            need([float(x) for x in g.knots[i]] == b.knots[i], 'knots of axis %d changed by an operation on axis %d: %s', i, ax, g.knots[i])


def ktol(g, ax):
    U = g.knots[ax]
    return 1e-12 * max(abs(float(U[0])), abs(float(U[-1])), float(U[-1] - U[0]))


def sgn(g, ax, o, bit=1):
    """The axis as the user may also write it: counted from the end, or as a numpy integer."""
    n = o.get('neg', 0)
    if n == 2 and bit == 1:
        return _np().int64(ax)
    return ax - g.dim if n & bit else ax


def ed_insert(it, o):
    g, ax = it.g, o['ax'] % it.g.dim
    v = pick(g, ax, o['v'])
    k = snap(g, ax, v)
    p = g.degree[ax]
    room = p - min(mult(g, ax, k), p)
    t = room if o['t'] is None else min(o['t'], room)
    if size(g) // g.shape[ax] * (g.shape[ax] + t) > MAXCTL:
        raise Skip
    b = Before(g)

    def fin():
        others_same(g, b, ax)
        need(sorted(b.knots[ax] + [k] * t) == [float(x) for x in g.knots[ax]], 'insert(%d, %r, %r): knots %s became %s', ax, v, o['t'], b.knots[ax], g.knots[ax])
        if t:
            it.surplus[ax].append([k, t])
    return (lambda g: g.insert(sgn(g, ax, o), v, None if o['t'] is None else t)), fin


def ed_refine(it, o):
    g, ax = it.g, o['ax'] % it.g.dim
    vals = []
    for s in o['v']:
        v = pick(g, ax, s[:2])
        near = [x for x in vals if 0 < abs(x - v) < 2e-3 * (dom(g, ax)[1] - dom(g, ax)[0])]
        if near:
            v = near[0]
        if mult(g, ax, v) + vals.count(v) < g.degree[ax]:
            vals.append(v)
    if size(g) // g.shape[ax] * (g.shape[ax] + len(vals)) > MAXCTL:
        raise Skip
    b = Before(g)

    def fin():
        others_same(g, b, ax)
        need(sorted(b.knots[ax] + vals) == [float(x) for x in g.knots[ax]], 'refine(%d, %r): knots %s became %s', ax, vals, b.knots[ax], g.knots[ax])
        for v in set(vals):
            it.surplus[ax].append([v, vals.count(v)])
    return (lambda g: g.refine(sgn(g, ax, o), list(vals))), fin


def wpos(g):
    np = _np()
    w = np.asarray(g.weights)
    return float(w.min()) > 0.05 * float(w.max())


def removable(it, top):
    """rounding errors are far below what removal with the usual deviation allows"""
    w = float(_np().asarray(it.g.weights).min())
    return 4 * (it.err + 40 * EPS * top) < 1e-9 * w / (1 + top)


def deviates(g0, g1, ax, r, dev, rng):
    """knot removal moves no point by more than the deviation per knot"""
    np = _np()
    if not wpos(g0) or not wpos(g1):
        return
    u = [[min(max(a + rng.random() * (b - a), a), b) for _ in range(7 if i == ax else 2)] for i, (a, b) in enumerate(dom(g0, i) for i in range(g0.dim))]
    x, y = g0(*u), g1(*u)
    d = float(np.abs(x - y).max())
    w = np.asarray(g0.weights)
    tol = 4 * r * dev + 1e4 * EPS * float(np.abs(g0.array).max()) * (1 + float(np.abs(x).max())) / float(w.min())
    need(d <= tol, 'removal of %d knots with deviation %g moved a point by %.3g', r, dev, d)


def ed_remove(it, o):
    dev = o.get('dev')
    g0 = it.g.copy()
    g, ax = it.g, o['ax'] % it.g.dim
    v = pick(g, ax, o['v'])
    k = snap(g, ax, v)
    b = Before(g)
    m = mult(g, ax, k)
    lo, hi = b.dom[ax]
    want = sum(c for x, c in it.surplus[ax] if x == k) if lo < k < hi else 0
    t = o['t']
    pm = max(float(_np().linalg.norm(r)) for r in _np().rollaxis(g.array, ax, 0).reshape(g.shape[ax], -1))
    gaps = [y - x for x, y in zip(breaks(g, ax), breaks(g, ax)[1:])]
    sure = wpos(g) and it.cond < 50 and pm < 1e4 and min(gaps) > 0.02 * (hi - lo) and it.err < 1e-12 * (1 + it.top) and removable(it, pm)

    def fin():
        others_same(g, b, ax)
        left = [float(x) for x in g.knots[ax]]
        r = len(b.knots[ax]) - len(left)
        tt = min(m, b.degree[ax]) if t is None else min(t, m, b.degree[ax])
        need(0 <= r <= tt, 'remove(%d, %r, %r): %d knots went', ax, v, t, r)
        need(sorted(left + [k] * r) == b.knots[ax], 'remove(%d, %r, %r): knots %s became %s', ax, v, t, b.knots[ax], left)
        if not lo < k < hi:
            need(r == 0, 'remove at the end of the domain changed the knots')
        if sure:
            need(r >= min(tt, want) or dev and dev < 1e-9, 'remove(%d, %r, %r): only %d of %d inserted knots went', ax, v, t, r, want)
        if r:
            deviates(g0, g, ax, r, dev or 1e-9, random.Random(repr(b.knots)))
            extra = max(0, r - want)
            it.err += (2.5e-9 * r if extra or not sure else 1e-9 * r) * 1.0 + 3 * r * (dev or 0) * (1 + it.top)
            gone = r
            for s in it.surplus[ax]:
                if s[0] == k:
                    d = min(gone, s[1])
                    s[1] -= d
                    gone -= d
    return (lambda g: g.remove(sgn(g, ax, o), v, t) if dev is None else g.remove(sgn(g, ax, o), v, t, dev)), fin


def ed_elevate(it, o):
    g, ax, t = it.g, o['ax'] % it.g.dim, o['t']
    p = g.degree[ax]
    if p + t > 7:
        raise Skip
    br = cluster(inner(g, ax), 0)
    if any(c > p for _, c in br):
        raise Skip
    n = sum(c + t for _, c in br) + p + t + 1
    if size(g) // g.shape[ax] * n > MAXCTL:
        raise Skip
    b = Before(g)

    def fin():
        others_same(g, b, ax)
        if t == 0:
            need([float(x) for x in g.knots[ax]] == b.knots[ax], 'elevate by 0 changed the knots')
            return
        lo, hi = b.dom[ax]
        want = [lo] * (p + t + 1) + [x for x, c in br for _ in range(c + t)] + [hi] * (p + t + 1)
        need(g.degree[ax] == p + t, 'elevate(%d, %d): degree %d became %d', ax, t, p, g.degree[ax])
        need([float(x) for x in g.knots[ax]] == want, 'elevate(%d, %d): knots %s became %s', ax, t, b.knots[ax], g.knots[ax])
        hr = [y - x for x, y in zip(breaks(g, ax), breaks(g, ax)[1:])]
        it.cond *= min(1e3, max(1.0, (max(hr) / min(hr)) ** 0.5)) * (1 + t)
    return (lambda g: g.elevate(sgn(g, ax, o), t)), fin


def ed_clamp(it, o):
    g, ax, side = it.g, o['ax'] % it.g.dim, o['side']
    if size(g) // g.shape[ax] * (g.shape[ax] + 2 * g.degree[ax]) > 2 * MAXCTL:
        raise Skip
    b = Before(g)

    def fin():
        others_same(g, b, ax)
        p, (lo, hi) = b.degree[ax], b.dom[ax]
        U = [float(x) for x in g.knots[ax]]
        need(g.degree[ax] == p and dom(g, ax) == (lo, hi), 'clamp changed degree or domain: %s -> %s', b.knots[ax], U)
        need(inner(g, ax) == b.inner[ax], 'clamp changed interior knots: %s -> %s', b.knots[ax], U)
        if side in (None, 0):
            need(U[:p + 1] == [lo] * (p + 1), 'clamp: start not clamped: %s', U)
        else:
            need([x for x in U if x <= lo] == [x for x in b.knots[ax] if x <= lo], 'clamp(side=1) changed the start: %s -> %s', b.knots[ax], U)
        if side in (None, 1):
            need(U[-p - 1:] == [hi] * (p + 1), 'clamp: end not clamped: %s', U)
        else:
            need([x for x in U if x >= hi] == [x for x in b.knots[ax] if x >= hi], 'clamp(side=0) changed the end: %s -> %s', b.knots[ax], U)
        it.note_scale()
    return (lambda g: g.clamp(sgn(g, ax, o), side)), fin


def ed_unclamp(it, o):
    g, ax, side = it.g, o['ax'] % it.g.dim, o['side']
    p = g.degree[ax]
    c = None if o['c'] is None else min(o['c'], p - 1)
    if it.top > 1e5 * (1 + it.top0) if hasattr(it, 'top0') else False:
        raise Skip
    b = Before(g)

    def fin():
        others_same(g, b, ax)
        lo, hi = b.dom[ax]
        U = [float(x) for x in g.knots[ax]]
        need(g.degree[ax] == p and dom(g, ax) == (lo, hi), 'unclamp changed degree or domain: %s -> %s', b.knots[ax], U)
        need(inner(g, ax) == b.inner[ax], 'unclamp changed interior knots: %s -> %s', b.knots[ax], U)
        C = p - 1 if c is None else c
        B = b.knots[ax]
        if side is None or (side == 0 and B[-p - 2] < hi):       # the new knots repeat those of the other end
            need(sum(1 for x in U if x == lo) == max(p - C, 1), 'unclamp(%r, %r): start still clamped: %s', side, c, U)
        if side is None or (side == 1 and B[p + 1] > lo):
            need(sum(1 for x in U if x == hi) == max(p - C, 1), 'unclamp(%r, %r): end still clamped: %s', side, c, U)
        br = breaks(g, ax)
        hr = [y - x for x, y in zip(br, br[1:])]
        it.cond *= min(1e4, (max(hr) / min(hr)) ** min(2, p - 1))
        it.surplus[ax] = []
    return (lambda g: g.unclamp(sgn(g, ax, o), side, c)), fin


def ed_remap(it, o):
    g, ax = it.g, o['ax'] % it.g.dim
    lo, hi = dom(g, ax)
    s = o['s']
    e = (lo if s is None else s) + o['d']
    if o['e'] and (lo if s is None else s) < hi:
        e = None
    b = Before(g)

    def fin():
        others_same(g, b, ax)
        c, d = lo if s is None else s, hi if e is None else e
        need(dom(g, ax) == (c, d), 'remap(%d, %r, %r): domain is %s', ax, s, e, dom(g, ax))
        k = (d - c) / (hi - lo)
        want = [c + (x - lo) * k for x in b.knots[ax]]
        need(same_multiset([float(x) for x in g.knots[ax]], want, ktol(g, ax) + 1e-12 * k * max(abs(lo), abs(hi))), 'remap(%d, %r, %r): knots %s became %s', ax, s, e, b.knots[ax], g.knots[ax])
        it.m = rm.Map(it.m, ax, (c, d), (lo, hi))
        it.surplus[ax] = []
        big = max(abs(lo), abs(hi), abs(c) / k, abs(d) / k)
        it.cond *= 1 + 0.1 * big / (hi - lo)
        br = sorted(set(float(x) for x in b.knots[ax]))
        it.err += 8 * EPS * big / min(y - x for x, y in zip(br, br[1:]) if y - x > 1e-9 * (hi - lo)) * it.top * g.degree[ax]
    return (lambda g: g.remap(sgn(g, ax, o), s, e)), fin


def ed_reverse(it, o):
    g = it.g
    axes = []
    for a in o['axes']:
        a = a % g.dim if a >= 0 else -1 - ((-1 - a) % g.dim)
        axes.append(a)
    b = Before(g)

    def fin():
        for a in (axes or range(g.dim)):
            a = a % g.dim
            lo, hi = b.dom[a]
            it.m = rm.Map(it.m, a, (lo, hi), (hi, lo))
            it.surplus[a] = []
        for a in range(g.dim):
            lo, hi = b.dom[a]
            n = sum(1 for x in (axes or range(g.dim)) if x % g.dim == a)
            need(dom(g, a) == (lo, hi), 'reverse%r: domain %s became %s', tuple(axes), (lo, hi), dom(g, a))
            want = b.knots[a] if n % 2 == 0 else [hi - (x - lo) for x in b.knots[a]]
            if n == 0:
                need([float(x) for x in g.knots[a]] == want, 'reverse%r changed axis %d', tuple(axes), a)
            need(same_multiset([float(x) for x in g.knots[a]], want, ktol(g, a)), 'reverse%r: knots %s became %s', tuple(axes), b.knots[a], g.knots[a])
    return (lambda g: g.reverse(*axes)), fin


PERMS = {1: [[0]], 2: [[0, 1], [1, 0]], 3: [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]}


def permute(it, b, p, what):
    g = it.g
    need([[float(x) for x in k] for k in g.knots] == [b.knots[a] for a in p], '%s: knots not permuted', what)
    it.m = rm.Perm(it.m, p)
    it.surplus = [it.surplus[a] for a in p]


def ed_transpose(it, o):
    g, b = it.g, Before(it.g)
    p = None if o['p'] is None else PERMS[g.dim][o['p'] % len(PERMS[g.dim])]

    def fin():
        permute(it, b, list(range(g.dim))[::-1] if p is None else p, 'transpose(%r)' % (p,))
    q = p
    if p is not None and o.get('neg'):
        q = tuple(p) if o['neg'] == 2 else _np().array(p)
    return (lambda g: g.transpose(q)), fin


def ed_swap(it, o):
    g, b = it.g, Before(it.g)
    x, y = o['ax'] % g.dim, o['b'] % g.dim

    def fin():
        p = list(range(g.dim))
        p[x], p[y] = p[y], p[x]
        permute(it, b, p, 'swap(%d, %d)' % (x, y))
    return (lambda g: g.swap(sgn(g, x, o), sgn(g, y, o, 2))), fin


def lin(it, M, b):
    np = _np()
    g = it.g
    need([[float(x) for x in k] for k in g.knots] == b.knots, 'an affine map changed the knots')
    it.m = rm.Lin(it.m, M)
    it.err *= max(1.0, float(np.abs(M[:3]).sum(axis=1).max()))


def ed_affine(it, o):
    np = _np()
    b, M = Before(it.g), np.array(o['m'])
    arg = core.ig.transform(M) if o['obj'] else M
    return (lambda g: g.transform(arg)), lambda: lin(it, M, b)


def ed_translate(it, o):
    np = _np()
    b, M = Before(it.g), np.eye(4)
    if isinstance(o['d'], list):
        M[:len(o['d']), 3] = o['d']
    else:
        M[(0 if o['axis'] is None else o['axis'] % 3), 3] = o['d']
    return (lambda g: getattr(g, o['n'])(np.array(o['d']), o['axis'])), lambda: lin(it, M, b)


def ed_scale(it, o):
    np = _np()
    b, M = Before(it.g), np.eye(4)
    if isinstance(o['d'], list):
        for i, x in enumerate(o['d']):
            M[i, i] = x
    elif o['axis'] is None:
        M[0, 0] = M[1, 1] = M[2, 2] = o['d']
    else:
        M[o['axis'], o['axis']] = o['d']
    return (lambda g: g.scale(o['d'], o['axis'])), lambda: lin(it, M, b)


def ed_rotate(it, o):
    b = Before(it.g)
    M = aff_rotate(o['ang'], o['axis'])
    return (lambda g: g.rotate(o['ang'], o['axis'])), lambda: lin(it, M, b)


ED = {k[3:]: v for k, v in list(globals().items()) if k.startswith('ed_')}


# ---------------------------------------------------------------- constructions
# -> (thunk, finish(value) -> list of new items)

def mk_slice(S, it, o):
    g, ax = it.g, o['ax'] % it.g.dim
    lo, hi = dom(g, ax)
    s = lo if o['s'] is None else pick(g, ax, o['s'])
    e = hi if o['e'] is None else pick(g, ax, o['e'])
    if s > e:
        s, e = e, s
    if o.get('width'):
        e = s + o['width'] * (hi - lo)
        if not s < e < hi or not wpos(g):
            raise Skip
    elif e - s < 0.05 * (hi - lo):
        raise Skip
    if size(g) // g.shape[ax] * (g.shape[ax] + 2 * g.degree[ax]) > 2 * MAXCTL:
        raise Skip
    a0 = None if o['s'] is None and s == lo else s
    a1 = None if o['e'] is None and e == hi else e
    p = g.degree[ax]
    b = Before(g)

    def fin(r):
        u0, u1 = snap(g, ax, s), snap(g, ax, e)
        others_same(r, b, ax)
        want = [s] * (p + 1) + [x for x in b.knots[ax] if u0 < x < u1] + [e] * (p + 1)
        need([float(x) for x in r.knots[ax]] == want, 'slice(%d, %r, %r) of knots %s has knots %s', ax, a0, a1, b.knots[ax], r.knots[ax])
        if o.get('width'):
            # a narrow piece: too ill-conditioned to go on with, but it must agree with the whole
            np = _np()
            t = [s + (e - s) * x for x in (0.15, 0.4, 0.77)]
            U = [t if a == ax else [sum(dom(g, a)) / 2 + 0.01 * (dom(g, a)[1] - dom(g, a)[0])] for a in range(g.dim)]
            x, y = np.asarray(r(*U)), np.asarray(g(*U))
            tol = 1e3 * it.err + 1e-9 * (1 + np.abs(y).max())
            need(bool((np.abs(x - y) <= tol).all()), 'slice(%d, %r, %r) of knots %s: at %s the piece is %s, the whole %s', ax, a0, a1, b.knots[ax], t, x, y)
            return []
        return [Item(r, rm.Restrict(it.m, ax, s, e), it.err, None, it.cond)]
    return (lambda: g.slice(sgn(g, ax, o), a0, a1)), fin


def mk_extract(S, it, o):
    g, ax = it.g, o['ax'] % it.g.dim
    v = pick(g, ax, o['v'])
    b = Before(g)

    def fin(r):
        need([[float(x) for x in k] for k in r.knots] == b.knots[:ax] + b.knots[ax + 1:], 'extract(%d, %r): knots %s', ax, v, r.knots)
        return [Item(r, rm.Fix(it.m, ax, v), it.err, [s for i, s in enumerate(it.surplus) if i != ax], it.cond)]
    return (lambda: g.extract(sgn(g, ax, o), v)), fin


def mk_boundary(S, it, o):
    g, ax, side = it.g, o['ax'] % it.g.dim, o['side']
    b = Before(g)

    def fin(r):
        need([[float(x) for x in k] for k in r.knots] == b.knots[:ax] + b.knots[ax + 1:], 'boundary(%d, %d): knots %s', ax, side, r.knots)
        return [Item(r, rm.Fix(it.m, ax, b.dom[ax][side]), it.err, None, it.cond)]
    return (lambda: g.boundary(sgn(g, ax, o), side)), fin


def dupe(it, r):
    return Item(r, it.m, it.err, [[list(x) for x in s] for s in it.surplus], it.cond)


def mk_copy(S, it, o):
    def fin(r):
        need(geo.obs(r) == geo.obs(it.g), '%s differs from its original', o['op'])
        return [dupe(it, r)]
    return getattr(it.g, o['op']), fin


mk_clone = mk_copy


def mk_poke(S, it, o):
    """a copy is written to directly"""
    np = _np()
    M = np.array(o['m'])

    def fin(r):
        n = dupe(it, r)
        before = geo.obs(it.g)
        r.control[...] = r.control @ M.T
        need(geo.obs(it.g) == before, 'writing to the control points of a copy changed the original')
        for k in r.knots:
            k += 0.0
        n.m = rm.Lin(n.m, M)
        n.err *= float(np.abs(M[:3]).sum(axis=1).max())
        n.note_scale()
        return [n]
    return it.g.copy, fin


def nudge(r, spec, ax=None):
    """Adds a little to some control points (not to their weights; with ax, not to the first
    layer along it); returns what that adds to the geometry."""
    np = _np()
    rng = random.Random(spec['r'])
    D = np.zeros(r.array.shape)
    for _ in range(spec['n']):
        ix = tuple(rng.randrange(1 if a == ax else 0, n) for a, n in enumerate(r.shape))
        if spec.get('near') and ax is not None:
            ix = ix[:ax] + (1,) + ix[ax + 1:]
        c = rng.choice([c for c in range(r.array.shape[-1]) if c != 3])
        D[ix + (c,)] += spec['d']
    r.array[...] += D
    return rm.Base(r.knots, D)


def mk_nudge(S, it, o):
    """control points of a copy are moved directly"""
    def fin(r):
        before = geo.obs(it.g)
        n = dupe(it, r)
        n.surplus = [[] for _ in n.surplus]
        n.m = rm.Plus(n.m, nudge(r, o['nud']))
        need(geo.obs(it.g) == before, 'writing to the control points of a copy changed the original')
        n.note_scale()
        return [n]
    if not it.g.dim:
        raise Skip
    return it.g.copy, fin


def mk_disk(S, it, o):
    path = os.path.join(S.ctx.scratch, 'g%d.dat' % S.nfile)
    S.nfile += 1
    g = it.g

    def go():
        core.ig.io.PetIGA().write(path, g, nsd=3)
        return core.ig.io.PetIGA().read(path)

    def fin(r):
        need(geo.enc(list(r.knots)) == geo.enc(list(g.knots)) and geo.enc(r.control) == geo.enc(g.control), 'a saved and loaded geometry differs')
        n = dupe(it, r)
        need((r.fields is None) == (g.fields is None), 'fields lost by saving')
        return [n]
    if not wpos(g):
        raise Skip
    return go, fin


def refine_args(g, o):
    rng = random.Random(o['r'])
    dim = g.dim
    d, f, c = o['degree'], o['factor'], o['c']
    if d == 'list':
        d = [rng.choice([None, 2, 3, 4, 5]) for _ in range(dim)]
    dd = [(x or g.degree[i]) for i, x in enumerate(d if isinstance(d, list) else [d] * dim)]
    deg = [max(x, g.degree[i]) for i, x in enumerate(dd)]
    if f == 'list':
        f = [rng.choice([None, 1, 2, 3]) for _ in range(dim)]
    elif f == 'spans':
        f = [[rng.randint(1, 3) for _ in breaks(g, i)[1:]] if rng.random() < 0.7 else rng.choice([None, 2]) for i in range(dim)]
    if c == 'list':
        c = [rng.choice([None, 0, 1, -1]) for _ in range(dim)]
    cc = []
    for i, x in enumerate(c if isinstance(c, list) else [c] * dim):
        x = -1 if x is None else x
        if x < 0:
            x += deg[i]
        cc.append(x)
    if any(x < 0 or x >= p for x, p in zip(cc, deg)):
        c, cc = None, [p - 1 for p in deg]
    ff = [(x or 1) if not isinstance(x, list) else x for x in (f if isinstance(f, list) else [f] * dim)]
    return d, f, c, deg, ff, cc


def mk_cadrefine(S, it, o):
    np = _np()
    g = it.g
    d, f, c, deg, ff, cc = refine_args(g, o)
    farg = f
    if max(deg) > 6:
        raise Skip
    wants, n = [], 1
    for i in range(g.dim):
        p, p0 = deg[i], g.degree[i]
        br = breaks(g, i)
        want = [br[0]] * (p + 1)
        for j, x in enumerate(br[:-1]):
            if j:
                s = min(mult(g, i, x), p0) + (p - p0)
                want += [x] * max(s, p - cc[i])
            k = ff[i][j] if isinstance(ff[i], list) else ff[i]
            for q in range(1, k):
                want += [x + (br[j + 1] - x) * q / k] * (p - cc[i])
        want += [br[-1]] * (p + 1)
        wants.append(want)
        n *= len(want) - p - 1
    if n > MAXCTL:
        raise Skip

    def fin(r):
        need(list(r.degree) == deg, 'cad.refine(factor=%r, degree=%r, continuity=%r): degree %r', f, d, c, r.degree)
        for i in range(g.dim):
            need(same_multiset([float(x) for x in r.knots[i]], wants[i], ktol(r, i)), 'cad.refine(factor=%r, degree=%r, continuity=%r) of knots %s: knots %s', f, d, c, g.knots[i], r.knots[i])
        n = Item(r, it.m, it.err * 2, None, it.cond * 4)
        return [n]
    return (lambda: core.ig.cad.refine(g, farg, d, c)), fin


def merged(gs, axes):
    """predicted sizes of compat, to keep histories small"""
    n = [1] * len(gs)
    for a in range(gs[0].dim):
        if a not in axes:
            n = [x * g.shape[a] for x, g in zip(n, gs)]
            continue
        p = max(g.degree[a] for g in gs)
        tot = p + 1
        for g in gs:
            tot += sum(c + p - g.degree[a] for _, c in cluster(inner(g, a), 0))
        n = [x * tot for x in n]
    return max(n)


def too_near(gs, a):
    """merged interior knots would leave very small spans"""
    pts = []
    for g in gs:
        lo, hi = dom(g, a)
        pts += [(x - lo) / (hi - lo) for x in breaks(g, a)]
    pts.sort()
    return any(1e-13 < y - x < 2e-3 for x, y in zip(pts, pts[1:]))


def compat_common(gs, axes):
    for a in axes:
        if too_near(gs, a):
            raise Skip
        if max(g.degree[a] for g in gs) > 6:
            raise Skip
    if merged(gs, axes) > MAXCTL:
        raise Skip


def after_compat(its, axes):
    """models on the common domain"""
    out = []
    for it in its:
        m = it.m
        for a in axes:
            lo = min(dom(x.g, a)[0] for x in its)
            hi = max(dom(x.g, a)[1] for x in its)
            if (lo, hi) != dom(it.g, a):
                m = rm.Map(m, a, (lo, hi), dom(it.g, a))
        out.append(m)
    return out


def compat_fin(r, its, ms, axes, degs, doms):
    gs = [x.g for x in its]
    need(len(r) == 2, 'compat of 2 geometries returned %d', len(r))
    for a, d in zip(axes, doms):
        p = max(g.degree[a] for g in gs)
        need(r[0].degree[a] == r[1].degree[a] == p, 'compat: degrees %s %s', r[0].degree, r[1].degree)
        need(dom(r[0], a) == dom(r[1], a) == d, 'compat: domains %s %s', dom(r[0], a), dom(r[1], a))
        need(r[0].shape[a] == r[1].shape[a] and same_multiset([float(x) for x in r[0].knots[a]], [float(x) for x in r[1].knots[a]], ktol(r[0], a)),
             'compat: knots %s %s', r[0].knots[a], r[1].knots[a])
        # knots that are equal up to rounding stand for one knot
        n = []
        for tol in (1e-12, 5 * EPS):
            want = {}
            for g in gs:
                lo, hi = dom(g, a)
                for x, c in cluster(inner(g, a), 0):
                    x = d[0] + (x - lo) * ((d[1] - d[0]) / (hi - lo))
                    k = [y for y in want if abs(x - y) <= tol * max(abs(d[0]), abs(d[1]))]
                    k = k[0] if k else x
                    want[k] = max(want.get(k, 0), c + p - g.degree[a])
            n.append(sum(want.values()))
        need(n[0] <= len(inner(r[0], a)) <= n[1], 'compat of knots %s and %s: knots %s, expected %s', gs[0].knots[a], gs[1].knots[a], r[0].knots[a], want)
    for g, x in zip(r, gs):
        for a in range(g.dim):
            if a not in axes:
                need(geo.enc(g.knots[a]) == geo.enc(x.knots[a]), 'compat changed axis %d', a)
    return [Item(g, m, x.err * 2, None, x.cond * 10) for g, m, x in zip(r, ms, its)]


def mk_compat(S, it, o):
    jt = S.other(o['j'], it, lambda x: x.g.dim == it.g.dim)
    axes = list(range(it.g.dim)) if o['axes'] is None else [o['axes'] % it.g.dim]
    gs = [it.g, jt.g]
    compat_common(gs, axes)
    ms = after_compat([it, jt], axes)
    doms = [(min(dom(g, a)[0] for g in gs), max(dom(g, a)[1] for g in gs)) for a in axes]
    degs = [max(g.degree[a] for g in gs) for a in axes]
    kw = {} if o['axes'] is None else {'axes': axes[0] if o['i'] % 2 else axes}

    def fin(r):
        return compat_fin(r, [it, jt], ms, axes, degs, doms)
    return (lambda: core.ig.cad.compat(it.g, jt.g, **kw) if o['i'] % 3 else core.ig.cad.compat([it.g, jt.g], **kw)), fin


def mk_ruled(S, it, o):
    if it.g.dim > 2:
        raise Skip
    jt = S.other(o['j'], it, lambda x: x.g.dim == it.g.dim)
    axes = list(range(it.g.dim))
    compat_common([it.g, jt.g], axes)
    if merged([it.g, jt.g], axes) * 2 > MAXCTL:
        raise Skip
    ms = after_compat([it, jt], axes)

    def fin(r):
        need(r.dim == it.g.dim + 1 and r.degree[-1] == 1 and dom(r, -1) == (0.0, 1.0), 'ruled: dim %d degree %s', r.dim, r.degree)
        m = rm.Ruled(rm.NoFields(ms[0]), rm.NoFields(ms[1]))
        return [Item(r, m, (it.err + jt.err) * 2, None, max(it.cond, jt.cond) * 10)]
    return (lambda: core.ig.cad.ruled(it.g, jt.g)), fin


def mk_kin(S, it, o):
    """Two geometries made of one by different edits of the knots are brought together."""
    np = _np()
    g0 = it.g
    if o['act'] == 'ruled' and g0.dim > 2:
        raise Skip
    both = [dupe(it, g0.copy()), dupe(it, g0.copy())]
    if o['un'] is not None and it.cond < 20 and it.top < 1e3:
        for x in both:
            call_, fin = ed_unclamp(x, {'ax': o['ax'], 'side': None if o['un'] == 2 else o['un'], 'c': o['uc']})
            call_(x.g)
            fin()
            x.note_scale()
    tiny = False
    for i, e in enumerate(o['ed']):
        x = both[1 if i % 2 == 0 or o['on'] else 0]
        g, a = x.g, e[1] % g0.dim
        p = g.degree[a]
        lo, hi = dom(g, a)
        if e[0] in ('ins', 'end', 'near'):
            if e[0] == 'ins':
                v, t = snap(g, a, pick(g, a, e[2])), e[3]
            elif e[0] == 'end':
                v, t = (lo, hi)[e[2]], e[3]
            else:
                br = breaks(g, a)
                v, t = br[e[2] % len(br)] + e[3] * (hi - lo), e[4]
                if not lo < v < hi or min(abs(v - y) for y in br) < 0.9 * abs(e[3]) * (hi - lo):
                    continue
                # tiny spans give large derivatives of the basis, whatever the geometry
                tiny = True
            t = min(t, p - min(mult(g, a, v), p))
            if size(g) // g.shape[a] * (g.shape[a] + t) > MAXCTL:
                raise Skip
            n = [float(y) for y in g.knots[a]]
            g.insert(a, v, t)
            need(sorted(n + [v] * t) == [float(y) for y in g.knots[a]], 'insert(%d, %r, %d) into knots %s gives %s', a, v, t, n, g.knots[a])
        elif e[0] == 'noise':
            n = [float(y) for y in g.knots[a]]
            g.remap(a, e[2], e[2] + e[3])
            g.remap(a, lo, hi)
            need(same_multiset([float(y) for y in g.knots[a]], n, 1e-12 * (1 + abs(e[2]) + max(abs(y) for y in n)) * max(1, (hi - lo) / e[3])), 'remap there and back: knots %s became %s', n, g.knots[a])
            sp = [y - z for z, y in zip(breaks(g, a), breaks(g, a)[1:])]
            big = max(abs(lo), abs(hi), (abs(e[2]) + e[3]) * (hi - lo) / e[3])
            x.cond *= 1 + 0.1 * big / (hi - lo)
            x.err += 16 * EPS * big / min(y for y in sp if y > 1e-9 * (hi - lo)) * x.top * p
        elif p < 5:
            if size(g) // g.shape[a] * (g.shape[a] * 2 + 1) > MAXCTL or any(c > p for _, c in cluster(inner(g, a), 0)):
                continue
            call_, fin = ed_elevate(x, {'ax': a, 't': 1})
            call_(g)
            fin()
        x.note_scale()
        x.tiny = tiny
    M = np.eye(4)
    M[:3, 3] = o['tr']
    both[1].g.transform(M)
    both[1].m = rm.Lin(both[1].m, M)
    both[1].note_scale()
    if o['first']:
        both.reverse()
    x, y = both
    axes = list(range(g0.dim))
    if max(max(x.g.degree), max(y.g.degree)) > 6 or merged([x.g, y.g], axes) * 2 > MAXCTL:
        raise Skip
    S.ctx.probe('brought together: ' + (', '.join(sorted({e[0] for e in o['ed']})) or 'equal knots'))

    def mark(rs):
        for r in rs:
            r.tiny = tiny
        return rs
    if o['act'] == 'compat':
        def fin(r):
            return mark(compat_fin(r, [x, y], [x.m, y.m], axes, None, [dom(g0, a) for a in axes]))
        return (lambda: core.ig.cad.compat(x.g, y.g)), fin

    def fin(r):
        need(r.dim == g0.dim + 1 and r.degree[-1] == 1 and dom(r, -1) == (0.0, 1.0), 'ruled: dim %d degree %s', r.dim, r.degree)
        m = rm.Ruled(rm.NoFields(x.m), rm.NoFields(y.m))
        return mark([Item(r, m, (x.err + y.err) * 2, None, max(x.cond, y.cond) * 10)])
    return (lambda: core.ig.cad.ruled(x.g, y.g)), fin


def mk_tower(S, it, o):
    """elevation to a high degree"""
    g, a, t = it.g, o['ax'] % it.g.dim, o['t']
    p = g.degree[a]
    br = cluster(inner(g, a), 0)
    n = sum(c + t for _, c in br) + p + t + 1
    if any(c > p for _, c in br) or size(g) // g.shape[a] * n > 2 * MAXCTL:
        raise Skip
    lo, hi = dom(g, a)

    def fin(r):
        want = [lo] * (p + t + 1) + [x for x, c in br for _ in range(c + t)] + [hi] * (p + t + 1)
        need(r.degree[a] == p + t and [float(x) for x in r.knots[a]] == want, 'elevate(%d, %d): degree %d became %d, knots %s', a, t, p, r.degree[a], r.knots[a])
        hr = [y - x for x, y in zip(breaks(g, a), breaks(g, a)[1:])]
        n = Item(r, it.m, it.err, None, it.cond * min(1e3, max(1.0, (max(hr) / min(hr)) ** 0.5)) * (1 + t))
        S.queries(n, False)
        return []
    return (lambda: g.copy().elevate(a, t)), fin


def mk_extrude(S, it, o):
    np = _np()
    if it.g.dim > 2 or size(it.g) * 2 > MAXCTL:
        raise Skip
    M = np.eye(4)
    if isinstance(o['d'], list):
        M[:len(o['d']), 3] = o['d']
    else:
        M[o['axis'], 3] = o['d']
    b = Before(it.g)

    def fin(r):
        need([[float(x) for x in k] for k in r.knots] == b.knots + [[0.0, 0.0, 1.0, 1.0]], 'extrude: knots %s', r.knots)
        m = rm.NoFields(it.m)
        return [Item(r, rm.Ruled(m, rm.Lin(m, M)), it.err * 5, it.surplus + [[]], it.cond)]
    return (lambda: core.ig.cad.extrude(it.g, o['d'], o['axis'])), fin


def mk_revolve(S, it, o):
    g = it.g
    if g.dim > 2 or size(g) * 9 > MAXCTL:
        raise Skip
    if isinstance(o['axis'], list) and not any(abs(x) > 1e-3 for x in o['axis']):
        raise Skip
    pt = o['p'] if isinstance(o['p'], list) else [o['p']]
    b = Before(g)
    ang = tuple(o['ang']) if isinstance(o['ang'], list) and o['i'] % 2 else o['ang']

    def fin(r):
        need([[float(x) for x in k] for k in r.knots[:-1]] == b.knots, 'revolve: knots %s', r.knots)
        need(dom(r, -1) == (0.0, 1.0) and r.degree[-1] == 2, 'revolve: degree %s', r.degree)
        return [Item(r, rm.Revolve(rm.NoFields(it.m), pt, o['axis'], o['ang']), it.err * 10, None, it.cond * 5)]
    return (lambda: core.ig.cad.revolve(g, o['p'], o['axis'], ang)), fin


def mk_sweep(S, it, o):
    if it.g.dim > 2:
        raise Skip
    jt = S.other(o['j'], it, lambda x: x.g.dim == 1, True)
    if size(it.g) * size(jt.g) > MAXCTL or not wpos(it.g) or not wpos(jt.g):
        raise Skip
    b, c = Before(it.g), Before(jt.g)

    def fin(r):
        need([[float(x) for x in k] for k in r.knots] == b.knots + c.knots, 'sweep: knots %s', r.knots)
        n = Item(r, rm.Sweep(rm.NoFields(it.m), rm.NoFields(jt.m)), (it.err + jt.err) * 3, None, it.cond * jt.cond)
        n.err = (it.err * max(1, jt.top) + jt.err * max(1, it.top)) * 10 + 100 * EPS * max(it.top, 1) * max(jt.top, 1) * it.cond * jt.cond
        return [n]
    return (lambda: core.ig.cad.sweep(it.g, jt.g)), fin


def pieces(A, B, r, ax):
    """a joined geometry is its two parts, up to the deviation of the knots removed between them"""
    np = _np()
    if not wpos(A) or not wpos(B):
        return
    rng = random.Random(repr([list(map(float, k)) for k in r.knots]))
    m = dom(A, ax)[1]
    for g, sh in ((A, 0.0), (B, m - dom(B, ax)[0])):
        u = [[min(max(a + rng.random() * (b - a), a), b) for _ in range(6 if i == ax else 2)] for i, (a, b) in enumerate(dom(g, i) for i in range(g.dim))]
        x = g(*u)
        a, b = dom(r, ax)
        u[ax] = [min(max(t + sh, a), b) for t in u[ax]]
        d = float(np.abs(r(*u) - x).max())
        tol = 4e-9 * r.degree[ax] + 1e6 * EPS * float(np.abs(g.array).max()) * (1 + float(np.abs(x).max())) / float(np.asarray(g.weights).min())
        need(d <= tol, 'joining moved a point of the %s part by %.3g', 'second' if sh or g is B else 'first', d)


def mk_cutjoin(S, it, o):
    """cut in two, rework the parts, join again"""
    g, ax = it.g, o['ax'] % it.g.dim
    v = pick(g, ax, o['v'])
    lo, hi = dom(g, ax)
    if not lo + 0.02 * (hi - lo) < v < hi - 0.02 * (hi - lo):
        raise Skip
    t = max(o['ra'], o['rb'])
    if g.degree[ax] + t > 6 or size(g) // g.shape[ax] * (g.shape[ax] + 4 * g.degree[ax]) * (t + 1) > MAXCTL:
        raise Skip
    A, B = g.slice(ax, None, v), g.slice(ax, v, None)
    A.elevate(ax, o['ra'])
    B.elevate(ax, o['rb'])
    if o['un']:
        A.unclamp(ax, 0)
        B.unclamp(ax, 1)
    m = it.m
    mR = rm.Restrict(m, ax, v, hi)
    if o.get('nud'):
        mR = rm.Plus(mR, nudge(B, o['nud'], ax))
    L = hi - v
    if o['map']:
        B.remap(ax, *o['map'])
        L = o['map'][1] - o['map'][0]
    mA, mB = rm.Restrict(m, ax, lo, v), rm.Map(mR, ax, (v, v + L), (v, hi))
    p = g.degree[ax] + t

    def fin(r):
        need(r.degree[ax] == p, 'join: degree %s', r.degree)
        need(abs(dom(r, ax)[0] - lo) <= 0 and abs(dom(r, ax)[1] - (v + L)) <= 1e-12 * (abs(v) + L + abs(hi)), 'join: domain %s, expected %s', dom(r, ax), (lo, v + L))
        pieces(A, B, r, ax)
        n = Item(r, rm.Join(mA, mB, ax), it.err * 10 + 2e-9, None, it.cond * 100)
        return [n]
    return (lambda: core.ig.cad.join(A, B, ax)), fin


def mk_mirrorjoin(S, it, o):
    g, ax = it.g, o['ax'] % it.g.dim
    if size(g) * 2 > MAXCTL:
        raise Skip
    lo, hi = dom(g, ax)
    A = g.copy().reverse(ax)
    B = g.copy()
    if o['ra'] and g.degree[ax] + o['ra'] <= 5 and size(g) * 4 < MAXCTL:
        A.elevate(ax, o['ra'])
    mA = rm.Map(it.m, ax, (lo, hi), (hi, lo))
    L = hi - lo
    p = max(A.degree[ax], B.degree[ax])

    def fin(r):
        need(r.degree[ax] == p, 'join: degree %s', r.degree)
        need(abs(dom(r, ax)[0] - lo) <= 0 and abs(dom(r, ax)[1] - (hi + L)) <= 1e-12 * (abs(hi) + L), 'join: domain %s, expected %s', dom(r, ax), (lo, hi + L))
        pieces(A, B, r, ax)
        return [Item(r, rm.Join(mA, it.m, ax), it.err * 10 + 2e-9, None, it.cond * 100)]
    return (lambda: core.ig.cad.join(A, B, ax)), fin


def mk_coons(S, it, o):
    """four boundary curves of a surface"""
    np = _np()
    g = it.g
    if g.dim != 2 or it.m.nf:
        raise Skip
    w = [abs(float(g.weights[i, j]) - 1) for i in (0, -1) for j in (0, -1)]
    if max(w) > 1e-15 or size(g) > 60:
        raise Skip
    if any(mult(g, a, x) <= g.degree[a] for a in (0, 1) for x in dom(g, a)):
        raise Skip
    if max(g.degree) > 5:
        raise Skip
    C = [[g.boundary(0, 0), g.boundary(0, 1)], [g.boundary(1, 0), g.boundary(1, 1)]]
    dm = [dom(g, 0), dom(g, 1)]
    lo, hi = [min(d[0] for d in dm + [(0, 1)])] * 2, [max(d[1] for d in dm + [(0, 1)])] * 2

    ms = [rm.Fix(it.m, 0, dm[0][0]), rm.Fix(it.m, 0, dm[0][1]), rm.Fix(it.m, 1, dm[1][0]), rm.Fix(it.m, 1, dm[1][1])]
    n = 1
    for a in (0, 1):
        pp = max(g.degree[a], 1)
        n *= g.shape[a] + 2
    P = [C[1][0](dm[0][0]), C[1][0](dm[0][1]), C[1][1](dm[0][0]), C[1][1](dm[0][1])]
    Q = [C[0][0](dm[1][0]), C[0][1](dm[1][0]), C[0][0](dm[1][1]), C[0][1](dm[1][1])]
    if not np.allclose(P, Q, rtol=0, atol=1e-15):
        raise Skip

    def fin(r):
        need(r.dim == 2, 'coons: dimension %d', r.dim)
        m = rm.Coons(*ms)
        m.dom = [dom(r, 0), dom(r, 1)]
        for a in (0, 1):
            d = (min(dm[a][0], 0.0), max(dm[a][1], 1.0))
            need(m.dom[a] == d, 'coons: domain %s', m.dom)
        return [Item(r, m, it.err * 10, None, it.cond * 20)]
    return (lambda: core.ig.cad.coons(C)), fin


MK = {k[3:]: v for k, v in list(globals().items()) if k.startswith('mk_')}


# ---------------------------------------------------------------- checking values

def sample(rng, g, ax, n):
    """[(value, exact knot?, near knot?)]"""
    np = _np()
    a, b = dom(g, ax)
    br = breaks(g, ax)
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.12:
            out.append((rng.choice([a, b]), 0))
        elif r < 0.4:
            out.append((rng.choice(br), 0))
        elif r < 0.5:
            k = rng.choice(br)
            v = float(np.nextafter(k, rng.choice([a, b])))
            out.append((v, 1 if a < k < b else 0))
        else:
            out.append((min(max(a + rng.random() * (b - a), a), b), 0))
    # values within rounding of a knot other than bit equality: either side
    res = []
    for v, f in out:
        near = [k for k in br[1:-1] if k != v and abs(k - v) <= 1e-9 * (b - a)]
        res.append((v, 1 if near else 2 if v >= b - 1e-9 * (b - a) else 0))      # 2: end of the domain
    return res


def sides(flags):
    out = [[]]
    for f in flags:
        out = [o + [s] for o in out for s in {0: (1,), 1: (1, -1), 2: (-1,)}[f]]
    return out


def tols(it, order):
    """relative-to-1 error of derivatives of that order, homogeneous"""
    g = it.g
    h = 0.0
    for a in range(g.dim):
        br = breaks(g, a)
        gap = min(y - x for x, y in zip(br, br[1:]))
        h = max(h, 2 * g.degree[a] / gap)
    return it.err * max(1.0, h) ** order


class Session:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.items = [make_item(s) for s in plan['items']]
        self.rng = random.Random(plan['pts'])
        self.nfile = 0
        self.worst = 0.0
        self.hist = []

    def other(self, j, it, ok, selfok=True):
        c = [x for x in self.items if ok(x)]
        if not c:
            raise Skip
        return c[j % len(c)]

    # ---- comparison with the model

    def compare(self, what, got, wants, tol, it):
        """wants: admissible values (one per choice of sides)"""
        np = _np()
        got = np.asarray(got, dtype=float)
        best = None
        for w in wants:
            if got.shape != np.shape(w):
                raise Wrong('%s has shape %s, expected %s' % (what, got.shape, np.shape(w)))
            d = float(np.max(np.abs(got - w))) if got.size else 0.0
            if d != d:
                d = float('inf')
            if best is None or d < best[0]:
                best = (d, w)
        if best[0] > tol:
            raise Wrong('%s is %s, the history defines %s (difference %.3g, tolerance %.3g)' % (
                what, geo.brief(got), geo.brief(np.asarray(best[1])), best[0], tol))
        if tol > 0 and best[0] / tol > self.worst:
            self.worst = best[0] / tol
            self.worst_at = (what.split(' at ')[0], best[0], tol)

    def verify(self, it, full):
        np = _np()
        g, m = it.g, it.m
        c = geo.consistent(g)
        need(c is None, 'inconsistent geometry: %s', c)
        need(bool(np.isfinite(g.array).all()), 'control points are not finite: %s', geo.brief(g))
        need(all(bool((np.diff(k) >= 0).all()) for k in g.knots), 'knots out of order: %s', geo.brief(list(g.knots)))
        for a in range(g.dim):
            d = dom(g, a)
            need(abs(d[0] - m.dom[a][0]) + abs(d[1] - m.dom[a][1]) <= 1e-11 * (abs(d[0]) + abs(d[1])), 'domain of axis %d is %s, expected %s', a, d, m.dom[a])
        need((g.array.shape[-1] - 4) == m.nf, 'geometry has %d field components, expected %d', g.array.shape[-1] - 4, m.nf)
        rng = self.rng
        n = (4 if g.dim == 1 else 3 if g.dim == 2 else 2) if full else (3 if g.dim < 3 else 2)
        S = [sample(rng, g, a, n) for a in range(g.dim)]
        order = 4 if full else 0
        grid = []

        def rec(d, us, fl):
            if d == g.dim:
                grid.append((us, [self.at(m, us, s) for s in sides(fl)]))
                return
            for v, f in S[d]:
                rec(d + 1, us + [v], fl + [f])
        rec(0, [], [])
        U = [[v for v, _ in s] for s in S]
        shape = tuple(len(u) for u in U)
        # values
        X = g(*U)
        XF = g(*U, fields=True)
        need(X.shape == shape + (3,), 'evaluation of shape %s', X.shape)
        X2, F2 = XF if isinstance(XF, tuple) else (XF, None)
        need(F2 is not None, 'fields=True returned no fields')
        EV = g.evaluate(None, *U)
        e0 = tols(it, 0)
        ratio = []
        base = rm.Base(g.knots, g.array)
        for q, (us, Ts) in enumerate(grid):
            idx = np.unravel_index(q, shape)
            z = (0,) * g.dim
            where = 'at u=%s' % (us,)
            R = []
            for T in Ts:
                w = T[z][3]
                R.append(np.concatenate([T[z][:3], T[z][4:]]) / w)
            w0 = abs(Ts[0][z][3])
            if not w0 > 1e-6 * it.top:
                continue
            hv = max(1.0, float(np.abs(R[0]).max()))
            tol = 30 * e0 * (1 + hv) / w0
            self.compare('point ' + where, X[idx], [r[:3] for r in R], tol, it)
            self.compare('point (fields=True) ' + where, X2[idx], [r[:3] for r in R], tol, it)
            if m.nf:
                self.compare('fields ' + where, F2[idx], [r[3:] for r in R], tol, it)
                self.compare('evaluate() ' + where, EV[idx], [r[3:] for r in R], tol, it)
            H = base.D(us, [1] * g.dim)[z]
            self.compare('homogeneous value ' + where, H, [T[z] for T in Ts], 20 * e0, it)
        if g.dim and (full or rng.random() < 0.3):
            self.forms(it, U, X, F2)
        if not full or g.dim == 0:
            return
        self.derivatives(it, U, grid, shape)

    def queries(self, it, full):
        st, v = call(lambda: self.verify(it, full))
        if st == 'exc':
            if isinstance(v, (Wrong, core.Fail)):
                raise v
            import traceback
            raise Wrong('a query was rejected: %s: %s %s' % (type(v).__name__, v, traceback.format_exception(v)[-2][-300:]))

    def at(self, m, us, s):
        return m.D(us, s)

    def forms(self, it, U, X, F2):
        """The same query with numbers instead of lists for some of the parameters, with
        default parameters and with a field without component axis, is a part of the whole."""
        np = _np()
        g, rng = it.g, self.rng
        dim, nf = g.dim, it.m.nf
        S = rng.choice([list(range(dim)), [a for a in range(dim) if rng.random() < 0.5]])
        j = [rng.randrange(len(u)) for u in U]
        args = [u[j[a]] if a in S else rng.choice([u, tuple(u), np.array(u)]) for a, u in enumerate(U)]
        cut = tuple(j[a] if a in S else slice(None) for a in range(dim))

        w = np.abs(np.asarray(g.weights))
        wc = float(w.max()) / max(float(w.min()), 1e-300)

        def part(what, got, whole, comp=None, order=0):
            want = np.asarray(whole)[cut]
            if comp is not None:
                want = np.take(want, comp, axis=dim - len(S))
            need(np.shape(got) == want.shape, '%s with parameters %s has shape %s, expected %s', what, args, np.shape(got), want.shape)
            big = float(np.abs(whole).max()) if np.isfinite(whole).all() else 0.0
            noise = 100 * tols(it, order) * wc ** order * (1 + it.top / float(w.max())) ** 2 / float(w.max())
            need(bool(np.allclose(got, want, rtol=1e-9, atol=1e-9 * big + noise, equal_nan=True)),
                 '%s with parameters %s is %s, as part of the grid %s', what, args, geo.brief(np.asarray(got)), geo.brief(want))
        self.ctx.probe('queries with %d numbers among %d parameters' % (len(S), dim))
        part('evaluation', g(*args), X)
        a, b = g(*args, fields=True)
        part('evaluation (fields=True)', a, X)
        if nf:
            part('fields', b, F2)
            part('evaluate()', g.evaluate(None, *args), F2)
        if rng.random() < 0.12:              # the same parameters among many others, in any order
            q = rng.randrange(dim)
            lo, hi = dom(g, q)
            n = rng.choice([65, 130, 257, 300, 513, 1025, 2049, 5000][:8 if dim == 1 else 4])
            r = np.random.RandomState(rng.randint(0, 10 ** 6))
            L = lo + (hi - lo) * r.uniform(size=n)
            if rng.random() < 0.5:
                L.sort()
            at = r.permutation(n)[:len(U[q])]
            L[at] = U[q]
            B = list(U)
            B[q] = L
            self.ctx.probe('queries with many parameters')
            for name, got, whole, k in [('evaluation', g(*B), X, 0)] + ([('fields', g(*B, fields=True)[1], F2, 0)] if nf else []) + \
                    ([('gradient', g.gradient(None, *B), g.gradient(None, *U), 1)] if wc < 1e3 else []):
                got = np.take(got, at, axis=q)
                big = float(np.abs(whole).max()) if np.isfinite(whole).all() else 0.0
                noise = 100 * tols(it, k) * wc ** k * (1 + it.top / float(w.max())) ** 2 / float(w.max())
                need(got.shape == np.shape(whole) and bool(np.allclose(got, whole, rtol=1e-9, atol=1e-9 * big + noise, equal_nan=True)),
                     '%s at %d parameters of axis %d differs from that at some of them', name, n, q)
        # default parameters
        q = rng.randrange(dim)
        A = list(U)
        A[q] = None
        B = list(U)
        B[q] = g.greville(q)
        lo, hi = dom(g, q)
        db = da = g(*A)
        if lo <= B[q].min() and B[q].max() <= hi:
            db = g(*B)
        need(da.shape == db.shape and bool(np.allclose(da, db, rtol=1e-9, atol=1e-12 * it.top, equal_nan=True)),
             'evaluation at the default parameters of axis %d is not that at its abscissae', q)
        # fields handed in: all components, and one without component axis
        C = np.array(g.points) if not nf else np.array(g.fields)
        c = rng.randrange(C.shape[-1])
        one = np.array(C[..., c])
        if wc > 1e3:
            return
        qs = [('evaluate', 0, lambda *a: g.evaluate(*a)), ('gradient', 1, lambda *a: g.gradient(*a)), ('hessian', 2, lambda *a: g.hessian(*a))]
        k = rng.randint(1, 4)
        qs.append(('derivative(%d)' % k, k, lambda *a: g.derivative(k, *a)))
        for name, k, fn in qs:
            whole = fn(C, *U)
            part(name + ' of a given field', fn(C, *args), whole, None, k)
            part(name + ' of a field without component axis', fn(one, *args), whole, c, k)
        a, b = g(*args, fields=C)
        part('evaluation with a given field', b, g.evaluate(C, *U))
        a, b = g(*args, fields=one)
        part('evaluation with a field without component axis', b, g.evaluate(C[..., c:c + 1], *U))

    def derivatives(self, it, U, grid, shape):
        np = _np()
        g, m = it.g, it.m
        w = np.abs(np.asarray(g.weights))
        if float(w.min()) < 1e-3 * float(w.max()) or it.err > 1e-6 or getattr(it, 'tiny', False):
            return
        self.ctx.probe('derivatives checked')
        dim = g.dim
        wc = float(w.max()) / float(w.min())
        kinds = ['points']
        if m.nf:
            kinds.append('fields')
        pts = g.points
        for kind in kinds:
            fa = {'points': pts, 'fields': None}[kind]
            if kind == 'points' and not m.nf and self.rng.random() < 0.5:
                fa = None                                     # points by default
            for k in range(1, 5):
                if k == 1:
                    calls = [('gradient', lambda: g.gradient(fa, *U))]
                elif k == 2:
                    calls = [('hessian', lambda: g.hessian(fa, *U))]
                else:
                    calls = []
                calls.append(('derivative(%d)' % k, lambda: g.derivative(k, fa, *U)))
                nv = 3 if kind == 'points' else m.nf
                for name, fn in calls:
                    D = fn()
                    need(D.shape == shape + (nv,) + (dim,) * k, '%s of %s has shape %s', name, kind, D.shape)
                    for q, (us, Ts) in enumerate(grid):
                        idx = np.unravel_index(q, shape)
                        z = (0,) * dim
                        w0 = abs(Ts[0][z][3])
                        wants = []
                        big = 1.0
                        for T in Ts:
                            R = rm.rational(T, dim, k)
                            want = np.empty((nv,) + (dim,) * k)
                            for ind in np.ndindex(*((dim,) * k)):
                                mi = tuple(ind.count(a) for a in range(dim))
                                v = R[mi]
                                want[(slice(None),) + ind] = v[:3] if kind == 'points' else v[3:]
                            wants.append(want)
                            big = max(big, max(float(np.abs(v).max()) for v in R.values()))
                        tol = 30 * tols(it, k) * wc ** k * (1 + big) / w0
                        try:
                            self.compare('%s of %s at u=%s' % (name, kind, us), D[idx], wants, tol, it)
                        except Wrong as e:
                            if k == 4 and dim == 1:
                                alt = []
                                for T in Ts:
                                    T = T.copy()
                                    T[4] = T[3]
                                    R = rm.rational(T, 1, 4)[(4,)]
                                    alt.append((R[:3] if kind == 'points' else R[3:]).reshape((nv, 1, 1, 1, 1)))
                                try:
                                    self.compare('', D[idx], alt, tol, it)
                                except Wrong:
                                    raise e
                                self.order4(str(e))
                                continue
                            raise
        self.mapped(it, U, grid, shape, wc)

    def order4(self, msg):
        if not getattr(self, 'said4', False):
            self.said4 = True
            self.ctx.fail('order4-curve', 'fourth derivative of a curve built from third basis derivatives: ' + msg)

    def mapped(self, it, U, grid, shape, wc):
        """gradients with respect to the first dim coordinates"""
        np = _np()
        g, m = it.g, it.m
        dim, z = g.dim, (0,) * g.dim
        G = None
        for q, (us, Ts) in enumerate(grid):
            idx = np.unravel_index(q, shape)
            wants, ok = [], True
            for T in Ts:
                R = rm.rational(T, dim, 1)
                J = np.empty((dim, dim))
                A = np.empty((3 + m.nf, dim))
                for a in range(dim):
                    e = tuple(1 if x == a else 0 for x in range(dim))
                    A[:, a] = R[e]
                    J[:, a] = R[e][:dim]
                if np.linalg.cond(J) > 1e3:
                    ok = False
                    break
                wants.append((A @ np.linalg.inv(J))[3:] if m.nf else (A @ np.linalg.inv(J))[:3])
            if not ok:
                continue
            if G is None:
                if not all(self.regular(it, x) for _, xs in grid for x in xs):
                    return
                G = g.gradient(None, *U, mapped=True)
            w0 = abs(Ts[0][z][3])
            big = max(1.0, max(float(np.abs(x).max()) for x in wants), float(np.abs(A).max()))
            tol = 100 * tols(it, 1) * wc * 1e3 * (1 + big) ** 2 / w0 * (1 + float(np.abs(np.linalg.inv(J)).max()))
            self.compare('mapped gradient at u=%s' % (us,), G[idx], wants, tol, it)
            self.ctx.probe('mapped gradients checked')

    def regular(self, it, T):
        np = _np()
        dim = it.g.dim
        R = rm.rational(T, dim, 1)
        J = np.array([R[tuple(1 if x == a else 0 for x in range(dim))][:dim] for a in range(dim)])
        return abs(np.linalg.det(J)) > 1e-9

    # ---- operations

    def rejected(self, o, e):
        raise Wrong('%s was rejected: %s: %s' % (o['op'], type(e).__name__, e))

    def fault_for(self, o, fn):
        """the fault of this operation, placed inside an undisturbed trial run of it"""
        f = o.get('f')
        if not f:
            return None
        st, v, steps, allocs = p_fail.measure(fn)
        if st == 'exc':
            return None
        if f[0] == 'a':
            return ['a', int(f[1] * allocs), 1, 0] if allocs else None
        if steps.stored and int(f[1] * 1e4) % 4 == 1:
            return ['i', steps.after_store(f[1])]
        return ['i', max(1, int(f[1] * steps))] if steps else None

    def step(self, o):
        ctx = self.ctx
        it = self.items[o['i'] % len(self.items)]
        try:
            if o['op'] == 'insrem':
                return self.insrem(it, o)
            if o['op'] in ED:
                return self.edit(it, o)
            return self.make(it, o)
        except Skip:
            ctx.probe('not applicable: ' + o['op'])

    def edit(self, it, o):
        ctx = self.ctx
        call_, fin = ED[o['op']](it, o)
        g = it.g
        f = self.fault_for(o, lambda: call_(g.copy()))
        hit = False
        if f:
            before = geo.obs(g)
            st, v, hit = p_fail.faulted(f, lambda: call_(g))
            if hit:
                ctx.fault(p_fail.FNAME[f[0]])
            if st != 'ok' and geo.obs(g) == before:
                ctx.probe('repeated after a fault')
                st, v = call(lambda: call_(g))
        else:
            st, v = call(lambda: call_(g))
        if st == 'exc' and not hit:
            self.rejected(o, v)
        if st == 'ok':
            need(v is g, '%s did not return the geometry itself', o['op'])
        fin()
        if o['op'] not in ('reverse', 'transpose', 'swap', 'remap'):
            it.note_scale()
        self.done(o, f, hit)
        return [it]

    def insrem(self, it, o):
        """insert, something else on another axis, remove what was inserted"""
        g, ax = it.g, o['ax'] % it.g.dim
        k = pick(g, ax, o['v'][:2])
        lo, hi = dom(g, ax)
        if not lo < k < hi or mult(g, ax, k) + o['t'] > g.degree[ax]:
            raise Skip
        gaps = sorted(breaks(g, ax) + [k])
        gaps = [y - x for x, y in zip(gaps, gaps[1:]) if y > x]
        before = [[float(x) for x in u] for u in g.knots]
        self.edit(it, dict(o, op='insert', v=['k', 0] if False else ['f', (k - lo) / (hi - lo)] if mult(g, ax, k) == 0 else o['v'][:2]))
        if o['between'] == 'affine':
            self.edit(it, {'op': 'rotate', 'ang': 0.7, 'axis': [1.0, 2.0, 0.5], 'i': 0, 'ax': 0})
        elif o['between'] == 'other' and g.dim > 1:
            try:
                self.edit(it, {'op': 'insert', 'ax': (ax + 1) % g.dim, 'v': ['f', 0.4], 't': 1})
            except Skip:
                pass
        elif o['between'] == 'elevate' and g.dim > 1:
            try:
                self.edit(it, {'op': 'elevate', 'ax': (ax + 1) % g.dim, 't': 1})
            except Skip:
                pass
        kk = [x for x, c in it.surplus[ax]]
        if not kk:
            return [it]
        k = kk[-1]
        if o['between'] == 'nudge':
            # hardly removable or hardly not removable, in a copy
            c, dev, t = g.copy().scale(o['big']), o['dev'] or 1e-9, min(o['t'], mult(g, ax, k))
            if wpos(c):
                nud = o['nud']
                if o.get('rel'):
                    np = _np()
                    pm = max(float(np.linalg.norm(x)) for x in np.rollaxis(c.array, ax, 0).reshape(c.shape[ax], -1))
                    nud = dict(nud, d=o['rel'] * dev * float(np.asarray(c.weights).min()) / (1 + pm))
                nudge(c, nud)
                c0 = c.copy()
                st, v = call(lambda: c.remove(ax, k, t) if o['dev'] is None else c.remove(ax, k, t, o['dev']))
                if st == 'exc':
                    self.rejected(o, v)
                r = c0.shape[ax] - c.shape[ax]
                need(0 <= r <= t, 'remove(%d, %r, %d): %d knots went', ax, k, t, r)
                deviates(c0, c, ax, r, dev, random.Random(o['nud']['r']))
                self.ctx.probe('insert, move a control point, remove: ' + ('gone' if r else 'kept'))
        sure = wpos(g) and it.cond < 20 and min(gaps) > 0.02 * (hi - lo) and it.top < 1e3 and it.err < 1e-12 * (1 + it.top) and \
            removable(it, max(float(_np().linalg.norm(r)) for r in _np().rollaxis(g.array, ax, 0).reshape(g.shape[ax], -1)))
        self.ctx.probe('insert and remove again' + ('' if sure else ' (badly conditioned)'))
        st, v = call(lambda: g.remove(ax, k, o['t']))
        if st == 'exc':
            self.rejected(o, v)
        if sure:
            need([float(x) for x in g.knots[ax]] == before[ax], 'insert(%d, %r, %d) and remove: knots %s became %s', ax, k, o['t'], before[ax], g.knots[ax])
        for s in it.surplus[ax]:
            if s[0] == k:
                s[1] = 0
        it.err += 1e-9 * o['t'] if not sure else 1e-10
        self.done(o, None, False)
        return [it]

    def make(self, it, o):
        ctx = self.ctx
        st, pr = call(lambda: MK[o['op']](self, it, o))
        if st == 'exc':
            if isinstance(pr, (Skip, Wrong)):
                raise pr
            raise Wrong('preparing %s: %s: %s' % (o['op'], type(pr).__name__, pr))
        fn, fin = pr
        f = self.fault_for(o, fn)
        hit = False
        if f:
            st, v, hit = p_fail.faulted(f, fn)
            if hit:
                ctx.fault(p_fail.FNAME[f[0]])
            if st != 'ok':
                ctx.probe('repeated after a fault')
                st, v = call(fn)
        else:
            st, v = call(fn)
        if st == 'exc':
            self.rejected(o, v)
        new = fin(v)
        for n in new:
            if n.g.dim:
                self.items.append(n)
        self.done(o, f, hit)
        return new

    def done(self, o, f, hit):
        self.hist.append((o['op'], f))
        self.ctx.probe('op ' + o['op'])

    def run(self):
        ctx = self.ctx
        for k, o in enumerate(self.plan['ops']):
            core.note({'plan': self.plan, 'what': 'operation %d %s' % (k, o['op'])})
            old = [(x, geo.obs(x.g)) for x in self.items]
            try:
                touched = self.step(o) or []
                for x, s in old:
                    if x not in touched:
                        need(geo.obs(x.g) == s, '%s changed a geometry it was not given to change', o['op'])
                for x in touched:
                    self.queries(x, False)
            except Wrong as e:
                return ctx.fail('wrong-' + o['op'], 'operation %d (%s): %s' % (k, json.dumps({a: b for a, b in o.items() if a != 'm'}), e))
            while len(self.items) > 5:
                x = self.items.pop(0)
        for k, x in enumerate(self.items):
            core.note({'plan': self.plan, 'what': 'evaluation of geometry %d' % k})
            try:
                self.queries(x, True)
            except Wrong as e:
                return ctx.fail('wrong-value', 'at the end: %s' % e)


class G01:
    gen = staticmethod(gen_g01)

    @staticmethod
    def shrink(plan):
        ops = plan['ops']
        n = len(ops)
        for w in (n // 2, n // 4, 1):
            if w:
                for i in range(0, n, w):
                    yield dict(plan, ops=ops[:i] + ops[i + w:])
        for i, o in enumerate(ops):
            if 'f' in o:
                yield dict(plan, ops=ops[:i] + [{k: v for k, v in o.items() if k != 'f'}] + ops[i + 1:])
        if len(plan['items']) > 1:
            for i in range(len(plan['items'])):
                yield dict(plan, items=plan['items'][:i] + plan['items'][i + 1:])
        for i, s in enumerate(plan['items']):
            if 'U' in s:
                for t in geo.shrink_spec(s):
                    yield dict(plan, items=plan['items'][:i] + [t] + plan['items'][i + 1:])

    @staticmethod
    def run(plan, ctx):
        kit.alloc_install()
        s = Session(plan, ctx)
        s.run()
        ctx.event(s.hist, [geo.dig(x.g) for x in s.items])
        ctx.run_done(([h[0] for h in s.hist], [geo.dig(x.g) for x in s.items]), any(h[1] for h in s.hist))
        if not ctx.viol:
            ctx.probe('largest error of a session / tolerance < 1e%d' % (int(math.floor(math.log10(s.worst))) + 1 if s.worst > 0 else -99))


PROPS = {'G01': G01}
