"""Generated geometries (plain JSON specs), their observation and comparison."""
import hashlib, math
import core

np = None


def _np():
    global np
    if np is None:
        import numpy
        np = numpy
    return np


# ---------------------------------------------------------------- generation

def gen_knots(rng, p, spans, kind='any', maxmult=None, pmult=0.35):
    """A knot vector with `spans` non-empty spans.  kind: clamped, left, right
    (clamped at that end only), open (no end clamped), any."""
    if kind == 'any':
        kind = rng.choice(['clamped'] * 6 + ['left', 'right', 'open', 'partial'])
    gaps = [rng.choice([1, 1, 2, 3, 4]) for _ in range(spans)]
    scale = rng.choice([1.0, 0.25, 1.0 / sum(gaps), 1.0 / 3, 2.5])
    shift = rng.choice([0.0, 0.0, -1.0, 2.0, -0.3])
    if rng.random() < 0.06:
        scale, shift = rng.choice([(2.0 ** -10, 0.0), (1e-3, 0.0), (40.0, -70.0), (1.0, 100.0), (1e3, 0.0)])
    t, brk = 0, [0]
    for g in gaps:
        t += g
        brk.append(t)
    brk = [shift + scale * b for b in brk]
    maxmult = p if maxmult is None else min(maxmult, p)
    inner = []
    for b in brk[1:-1]:
        m = 1 if rng.random() > pmult else rng.randint(1, maxmult)
        inner += [b] * m
    a, b = brk[0], brk[-1]

    def ext(sign, at, mult):
        out, x = [], at
        for i in range(1, p + 1):
            if i >= mult:
                if rng.random() < 0.8 or i == mult:
                    x = x + sign * scale * rng.choice([1, 1, 2])
            out.append(x)
        return out
    def side(clamp, sign, at):
        if clamp:
            return [at] * p
        return ext(sign, at, rng.randint(1, p) if kind == 'partial' else 1)
    lc = kind in ('clamped', 'left')
    rc = kind in ('clamped', 'right')
    left = side(lc, -1, a)[::-1]
    right = side(rc, +1, b)
    return left + [a] + inner + [b] + right


def knot_count(U, p):
    return len(U) - p - 1


def _num(rng, dyadic, lo=-4.0, hi=4.0):
    if dyadic:
        return rng.randint(int(lo * 16), int(hi * 16)) / 16.0
    return round(rng.uniform(lo, hi), 9)


def gen(rng, dim=None, maxp=(4, 3, 3), maxspans=(5, 3, 2), kind='any', fields=None,
        rational=None, regular=False, maxctl=(14, 40, 60)):
    dim = dim or rng.choice([1, 1, 2, 2, 3])
    for _ in range(50):
        degs = [rng.randint(1, maxp[dim - 1]) for _ in range(dim)]
        spans = [rng.randint(1, maxspans[dim - 1]) for p in degs]
        room = maxctl[dim - 1]
        if not regular and rng.random() < 0.03:      # one with many spans
            k = rng.randrange(dim)
            degs = [min(p, 3) if i == k else 1 for i, p in enumerate(degs)]
            spans = [rng.randint(*((17, 90), (17, 40), (9, 20))[dim - 1]) if i == k else 1 for i in range(dim)]
            room = 300
        U = [gen_knots(rng, p, n, kind) for p, n in zip(degs, spans)]
        shape = [knot_count(u, p) for u, p in zip(U, degs)]
        n = 1
        for s in shape:
            n *= s
        if n <= room and min(shape) >= 2:
            break
    dy = rng.random() < 0.4
    rational = rng.random() < 0.6 if rational is None else rational
    nf = rng.choice([0, 0, 1, 2, 3]) if fields is None else fields
    if fields is None and nf and rng.random() < 0.05:
        nf = rng.randint(4, 9)
    size = rng.choice([1e-3, 1e3, 1e5]) if not regular and rng.random() < 0.06 else 1.0
    C = []
    for i in range(n):
        if regular:          # near a uniform grid: invertible map
            idx, r = [], i
            for s in reversed(shape):
                idx.append(r % s)
                r //= s
            idx = idx[::-1]
            base = [float(k) + rng.uniform(-0.2, 0.2) for k in idx] + [rng.uniform(-.5, .5)] * (3 - dim)
        else:
            base = [size * _num(rng, dy) for _ in range(3)]
        w = (rng.choice([0.5, 0.75, 1.0, 1.25, 2.0]) if dy else round(rng.uniform(0.5, 2.0), 6)) if rational else 1.0
        C += [base[0] * w, base[1] * w, base[2] * w, w]
    F = [_num(rng, dy) for _ in range(n * nf)] if nf else None
    r = rng.random()
    if rational and not regular and r < 0.12:
        for i in range(n):                           # weights almost equal, or far apart
            w = 1.0 + rng.choice([0, 1, -1, 2]) * 1e-8 if r < 0.06 else rng.choice([0.1, 0.2, 1.0, 4.0, 8.0])
            C[4 * i:4 * i + 4] = [x / C[4 * i + 3] * w for x in C[4 * i:4 * i + 4]]
    if not regular and rng.random() < 0.2:
        _degenerate(rng, C, n, rational)
    if F and rng.random() < 0.2:
        k = rng.randrange(nf)                        # a component, or all, without content
        x = rng.choice([0.0, 0.0, 1.0, -2.5])
        F = [x if r or i % nf == k else f for r in [rng.random() < 0.5] for i, f in enumerate(F)]
    return {'U': U, 'shape': shape, 'C': C, 'F': F, 'nf': nf}


def _degenerate(rng, C, n, rational):
    """planar and collapsed nets, equal weights"""
    r = rng.random()
    if r < 0.35:                                     # flat, or on a line
        for k in rng.choice([[2], [2], [1, 2], [0], [0, 1, 2]]):
            for i in range(n):
                C[4 * i + k] = 0.0
    elif r < 0.7:                                    # points that coincide
        for _ in range(rng.randint(1, 4)):
            i = rng.randrange(n)
            j = rng.choice([(i + 1) % n, rng.randrange(n)])
            C[4 * j:4 * j + 4] = C[4 * i:4 * i + 4]
    elif rational:
        w = rng.choice([2.0, 0.5, 1.0])
        for i in range(n):
            C[4 * i:4 * i + 4] = [x / C[4 * i + 3] * w for x in C[4 * i:4 * i + 4]]


def build(spec):
    np = _np()
    shape = tuple(spec['shape'])
    C = np.array(spec['C'], dtype='d').reshape(shape + (4,))
    F = None
    if spec['F'] is not None:
        F = np.array(spec['F'], dtype='d').reshape(shape + (spec['nf'],))
    return core.ig.NURBS([np.array(u, dtype='d') for u in spec['U']], C, fields=F)


def degrees(spec):
    return [len(u) - n - 1 for u, n in zip(spec['U'], spec['shape'])]


def shrink_spec(spec):
    """Simpler geometries of the same dimension."""
    if spec['F'] is not None:
        yield dict(spec, F=None, nf=0)
    C = spec['C']
    n = len(C) // 4
    simple = []
    idx = [0] * len(spec['shape'])
    for i in range(n):
        pt = [float(k) for k in idx] + [0.0] * (3 - len(idx))
        simple += pt + [1.0]
        for d in reversed(range(len(idx))):
            idx[d] += 1
            if idx[d] < spec['shape'][d]:
                break
            idx[d] = 0
    if simple != C:
        if any(C[4 * i + 3] != 1.0 for i in range(n)):
            flat = []
            for i in range(n):
                w = C[4 * i + 3]
                flat += [C[4 * i] / w, C[4 * i + 1] / w, C[4 * i + 2] / w, 1.0]
            yield dict(spec, C=flat)
        yield dict(spec, C=simple)


# ---------------------------------------------------------------- observation

def _arr(a):
    np = _np()
    a = np.asarray(a)
    if a.dtype.kind == 'f':
        if np.isnan(a).any():
            a = a.copy()
            a[np.isnan(a)] = np.nan
    elif a.dtype.kind == 'c':
        r, i = a.real.copy(), a.imag.copy()
        r[np.isnan(r)] = np.nan
        i[np.isnan(i)] = np.nan
        a = r + 1j * i
    return a


def _big(o):
    """Digest of a large array, piece by piece."""
    h = hashlib.sha256()
    n = 1 << 15
    f = o.flat
    for i in range(0, o.size, n):
        h.update(_arr(f[i:i + n]).tobytes())
    return h.hexdigest()


def enc(o):
    """Canonical value of anything a call may return (bit exact, NaN payloads ignored)."""
    np = _np()
    if isinstance(o, core.ig.NURBS):
        return ('NURBS', type(o).__name__) + obs(o)
    if isinstance(o, np.ndarray):
        if o.dtype.hasobject:
            return ('AO', o.shape) + tuple(enc(x) for x in o.ravel().tolist())
        if o.size > 1 << 16:
            return ('A', o.dtype.str, o.shape, _big(o))
        a = _arr(o)
        return ('A', a.dtype.str, a.shape, a.tobytes())
    if isinstance(o, np.generic):
        a = _arr(o)
        return ('G', a.dtype.str, a.tobytes())
    if isinstance(o, core.ig.transform):
        return ('T', enc(o.matrix))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(enc(x) for x in o)
    if isinstance(o, dict):
        return ('dict',) + tuple((k, enc(o[k])) for k in sorted(o))
    if isinstance(o, float):
        return ('f', 'nan' if o != o else o.hex())
    if isinstance(o, BaseException):
        return ('E', type(o).__name__)
    return ('V', repr(o) if isinstance(o, (int, str, bool, bytes, type(None), complex)) else type(o).__name__)


def obs(g):
    """What a user can see of a geometry."""
    out = [g.dim, tuple(g.shape), tuple(g.degree)]
    out.append(tuple(enc(k) for k in g.knots))
    out.append(enc(g.control))
    out.append(enc(g.array))
    f = g.fields
    out.append(None if f is None else enc(f))
    return tuple(out)


def dig(o):
    return hashlib.sha256(repr(enc(o)).encode()).hexdigest()[:16]


def brief(o, n=300):
    """Readable text for reports."""
    np = _np()
    if isinstance(o, core.ig.NURBS):
        return 'NURBS(degree=%s shape=%s knots=%s control=%s)' % (
            o.degree, o.shape, [k.tolist() for k in o.knots], np.array2string(o.control.ravel()[:16], precision=17))[:n]
    if isinstance(o, np.ndarray):
        return ('array%s %s' % (o.shape, np.array2string(o.ravel()[:12], precision=17)))[:n]
    if isinstance(o, (list, tuple)):
        return ('[' + ', '.join(brief(x, 80) for x in o) + ']')[:n]
    return repr(o)[:n]


def consistent(g):
    """Structural consistency visible from outside."""
    dim = g.dim
    if len(g.shape) != dim or len(g.degree) != dim or len(g.knots) != dim:
        return 'dim %r shape %r degree %r knots %d' % (dim, g.shape, g.degree, len(g.knots))
    for n, p, U in zip(g.shape, g.degree, g.knots):
        if p < 1 or len(U) != n + p + 1:
            return 'shape %r degree %r knot counts %r' % (g.shape, g.degree, [len(k) for k in g.knots])
    if tuple(g.control.shape) != tuple(g.shape) + (4,):
        return 'control shape %r vs %r' % (g.control.shape, g.shape)
    f = g.fields
    if f is not None and tuple(f.shape[:-1]) != tuple(g.shape):
        return 'fields shape %r vs %r' % (f.shape, g.shape)
    return None
