"""P01: histories of backend selections and plots, with backends that fail to
load, fail while drawing, or are interrupted."""
import importlib.util, io, random, sys, types
import core, geo, refmodel
from core import *

BACKENDS = ('mpl', 'myv', 'nul')
ALIAS = {'matplotlib': 'mpl', 'mayavi': 'myv', 'null': 'nul', 'none': 'nul'}
DRAWS = ('points3d', 'quiver3d', 'line3d', 'surf3d')
OTHER = ('figure', 'gcf', 'clf', 'close', 'save', 'show', 'title', 'xlabel', 'ylabel', 'zlabel', 'colorbar')
ERRS = {'RuntimeError': RuntimeError, 'OSError': OSError, 'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt,
        'AttributeError': AttributeError, 'ImportError': ImportError, 'SyntaxError': SyntaxError, 'ModuleNotFoundError': ModuleNotFoundError,
        'ValueError': ValueError, 'KeyError': KeyError, 'TypeError': TypeError, 'NotImplementedError': NotImplementedError}
_axes = None


def preload(cfg):
    """matplotlib once per process image"""
    global _axes
    import matplotlib
    matplotlib.use('agg')
    import matplotlib.pyplot, matplotlib.cm, matplotlib.colors
    import mpl_toolkits.mplot3d
    from mpl_toolkits.mplot3d import axes3d
    _axes = axes3d.Axes3D
    f = matplotlib.pyplot.figure()
    f.add_subplot(projection='3d')
    matplotlib.pyplot.close('all')


# ---------------------------------------------------------------- the world

class World:
    """Which backends can be loaded and what their calls do."""
    def __init__(self, mode):
        self.state = {'mpl': 'ok', 'myv': 'absent', 'nul': 'ok'}
        self.mode = dict(mode)          # backend -> real | stub
        self.err = {}
        self.log = []                   # (backend, thread, function, args, kwargs, ok?)
        self.draws = []                 # what matplotlib / mayavi were really asked for
        self.fail_at = None             # (nth backend call, error, before or after)
        self.ncall = 0
        self.fail_inner = None          # (nth call inside the drawing library, error)
        self.ninner = 0
        self.hit = 0
        self.loads = 0
        self.inside = set()
        self.scribble = False           # the backend writes into the arrays it is given

    # every call of a backend module's drawing function passes here
    def wrap(self, b, name, real):
        def f(*a, **k):
            me = core.kit.me()
            if me in self.inside:           # a backend function that uses another one
                return real(*a, **k)
            n = self.ncall
            self.ncall += 1
            fa = self.fail_at
            rec = [b, me, name, a, dict(k), False]
            self.log.append(rec)
            if self.scribble and self.mode[b] == 'stub':
                self.hit += overwrite([a, k])
            if fa and fa[0] == n and fa[2] == 'before':
                self.hit += 1
                raise ERRS[fa[1]]('drawing failed')
            if real is None:
                v = None
            else:
                self.inside.add(me)
                try:
                    v = real(*a, **k)
                finally:
                    self.inside.discard(me)
            if fa and fa[0] == n:
                self.hit += 1
                raise ERRS[fa[1]]('drawing failed')
            rec[5] = True
            return v
        f.__name__ = name
        return f

    def inner(self, name, a, ok=True):
        n = self.ninner
        self.ninner += 1
        if self.fail_inner and self.fail_inner[0] == n:
            self.hit += 1
            raise ERRS[self.fail_inner[1]]('drawing library failed')
        self.draws.append((name, a))

    def can_load(self, b):
        return self.state[b] == 'ok'


def overwrite(x):
    if isinstance(x, core.np.ndarray):
        if x.flags.writeable and x.size and x.dtype.kind == 'f':
            x[...] = -77.25
            return 1
        return 0
    if isinstance(x, dict):
        x = list(x.values())
    return sum(overwrite(y) for y in x) if isinstance(x, (list, tuple)) else 0


class _BackendFinder:
    def __init__(self, world):
        self.world = world

    def find_spec(self, name, path=None, target=None):
        if not name.startswith('igakit.plot_'):
            return None
        b = name[len('igakit.plot_'):]
        if b not in BACKENDS:
            return None
        w = self.world
        w.loads += 1
        if w.state[b] == 'broken':
            raise ERRS[w.err[b]]('cannot load ' + name)
        if w.state[b] == 'absent' and (w.mode[b] != 'real' or b == 'nul'):
            raise ImportError('no ' + name)
        for f in sys.meta_path:
            if isinstance(f, core._Finder):
                spec = f.find_spec(name, path, target)
                break
        if w.mode[b] == 'stub':
            spec.loader = _StubLoader(w, b)
        else:
            spec.loader = _RealLoader(w, b, spec.loader)
        return spec


class _StubLoader:
    def __init__(self, world, b):
        self.w, self.b = world, b

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        fill_stub(m, self.w, self.b)


def fill_stub(m, w, b):
    for n in DRAWS + OTHER:
        setattr(m, n, w.wrap(b, n, None))
    m._resolution = {1: {'mpl': 11, 'myv': 9, 'nul': 7}[b], 2: {'mpl': 5, 'myv': 4, 'nul': 3}[b]}
    m.tag = b


class _RealLoader:
    def __init__(self, world, b, real):
        self.w, self.b, self.real = world, b, real

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        w, b = self.w, self.b
        hide = []
        if b == 'mpl' and w.state[b] == 'absent':
            hide = [w.err.get(b) if w.err.get(b) in sys.modules else 'matplotlib.pyplot']
        fake = fake_mayavi(w) if b == 'myv' and w.state[b] == 'ok' else {}
        saved = {k: sys.modules.get(k) for k in list(hide) + list(fake)}
        try:
            for k in hide:
                sys.modules[k] = None
            sys.modules.update(fake)
            self.real.exec_module(m)
        finally:
            for k, v in saved.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v
        for n in DRAWS + OTHER:
            f = m.__dict__.get(n)
            if f is not None:
                setattr(m, n, w.wrap(b, n, f))
        if b == 'mpl':
            m._resolution = {1: 17, 2: 5}
        m.tag = b


def fake_mayavi(w):
    """The parts of mayavi and tvtk that igakit.plot_myv is written against."""
    import numpy as np
    mods = {}

    def mod(name):
        m = types.ModuleType(name)
        m.__path__ = []
        mods[name] = m
        return m
    top, mlab, tools = mod('mayavi'), mod('mayavi.mlab'), mod('mayavi.tools')
    helper, sources, ttools = mod('mayavi.tools.helper_functions'), mod('mayavi.tools.sources'), mod('mayavi.tools.tools')
    tv, api = mod('tvtk'), mod('tvtk.api')
    top.mlab, top.tools, tv.api = mlab, tools, api
    tools.helper_functions, tools.sources, tools.tools = helper, sources, ttools
    for n in ('figure', 'gcf', 'clf', 'close', 'savefig', 'show', 'title', 'xlabel', 'ylabel', 'zlabel', 'colorbar'):
        setattr(mlab, n, lambda *a, **k: None)

    class Glyph:
        pass

    def points3d(x, y, z, **k):
        w.inner('points', (x, y, z))
        g = Glyph()
        g.glyph = Glyph()
        g.glyph.glyph = Glyph()
        g.glyph.glyph.scale_factor = 1.0
        return g

    def quiver3d(x, y, z, u, v, s, **k):
        w.inner('quiver', (x, y, z, u, v, s))
    mlab.points3d, mlab.quiver3d = points3d, quiver3d

    class HasTraits:
        def set(self, trait_change_notify=True, **traits):
            for k, v in traits.items():
                setattr(self, k, v)

    class MlabSource(HasTraits):
        dataset = None
        m_data = None
    sources.MlabSource = MlabSource
    sources.convert_to_arrays = lambda args: tuple(np.atleast_1d(a) for a in args)

    class Scalars:
        name = ''

        def __init__(self, a):
            self.a = a

    class PointData:
        def __setattr__(self, k, v):
            object.__setattr__(self, k, Scalars(v))

    class PolyData(HasTraits):
        def __init__(self):
            self.points = self.lines = self.polys = None
            self.point_data = PointData()
    class tvtk:
        pass
    tvtk.PolyData = PolyData
    api.tvtk = tvtk

    def add_dataset(ds, name, **k):
        w.inner('poly', (ds.points, ds.lines, ds.polys))
        return ds
    ttools.add_dataset = add_dataset
    helper.List = lambda *a, **k: []
    helper.Array = None
    helper.Callable = lambda f: staticmethod(f)
    helper.Plot3d = type('Plot3d', (HasTraits,), {})
    helper.Mesh = type('Mesh', (HasTraits,), {})

    def document_pipeline(p):
        def pipeline(*a, **k):
            return p._source_function(*a, **k)
        return pipeline
    helper.document_pipeline = document_pipeline
    return mods


def patch_mpl(w):
    """See and disturb what matplotlib is asked to draw."""
    saved = {}
    for n in ('scatter', 'plot', 'plot_wireframe', 'plot_surface', 'quiver'):
        real = getattr(_axes, n)
        saved[n] = real

        def f(self, *a, _n=n, _r=real, **k):
            w.inner(_n, a[:3])
            return _r(self, *a, **k)
        setattr(_axes, n, f)
    return saved


# ---------------------------------------------------------------- reference

def bmat(U, p, us):
    import numpy as np
    n = len(U) - p - 1
    B = np.zeros((len(us), n))
    b = U[-p - 1]
    for i, u in enumerate(us):
        k, N = refmodel.basis(U, p, u, 1 if u < b else -1)
        B[i, k:k + p + 1] = N[:, 0]
    return B


class Geo:
    def __init__(self, spec):
        import numpy as np
        self.U = [np.array(u, dtype='d') for u in spec['U']]
        self.p = geo.degrees(spec)
        self.C = np.array(spec['C'], dtype='d').reshape(tuple(spec['shape']) + (4,))
        self.dim = len(self.U)
        self.dom = [(u[p], u[-p - 1]) for u, p in zip(self.U, self.p)]

    def breaks(self, d):
        import numpy as np
        a, b = self.dom[d]
        u = self.U[d]
        return np.unique(u[(u >= a) & (u <= b)])

    def at(self, us):
        """grid of points"""
        import numpy as np
        A = self.C
        for d, u in enumerate(us):
            A = np.moveaxis(np.tensordot(bmat(self.U[d], self.p[d], u), A, axes=(1, d)), 0, d)
        return A[..., :3] / A[..., 3:4]

    def lin(self, d, n):
        import numpy as np
        return np.linspace(self.dom[d][0], self.dom[d][1], n)

    def ends(self, d):
        return [self.dom[d][0], self.dom[d][1]]

    def edges(self, n):
        out = []
        for ax in range(self.dim):
            others = [d for d in range(self.dim) if d != ax]
            for m in range(2 ** len(others)):
                us = [None] * self.dim
                us[ax] = self.lin(ax, n)
                for k, d in enumerate(others):
                    us[d] = [self.dom[d][(m >> k) & 1]]
                out.append(self.at(us).reshape(-1, 3))
        return out

    def faces(self, n):
        if self.dim == 2:
            return [self.at([self.lin(0, n), self.lin(1, n)])]
        out = []
        for ax in range(3):
            for e in self.ends(ax):
                us = [self.lin(d, n) for d in range(3)]
                us[ax] = [e]
                out.append(self.at(us).reshape(n, n, 3))
        return out

    def knot_lines(self, axes, n):
        out = []
        for ax in axes:
            us = [self.breaks(d) for d in range(self.dim)]
            us[ax] = self.lin(ax, n)
            P = np_().moveaxis(self.at(us), ax, -2).reshape(-1, n, 3)
            out.extend(P)
        return out

    def knot_faces(self, axes, n):
        out = []
        for ax in axes:
            for e in self.breaks(ax):
                us = [self.lin(d, n) for d in range(3)]
                us[ax] = [e]
                out.append(self.at(us).reshape(n, n, 3))
        return out

    def picture(self, what, kw, res):
        """-> list of (kind, points in a grid) that has to be drawn"""
        P = self.C[..., :3] / self.C[..., 3:4]
        ax = kw.get('axes')
        axes = range(self.dim) if ax is None else [ax] if isinstance(ax, int) else ax
        if what == 'plot':
            what = {1: 'curve', 2: 'surface', 3: 'volume'}[self.dim]
        if what == 'cplot':
            return self.picture('cpoint', kw, res) + self.picture('cwire', kw, res)
        if what == 'kplot':
            return self.picture('kpoint', kw, res) + self.picture('kwire', {}, res)
        if what == 'cpoint':
            return [('points', P)]
        if what == 'cwire':
            return [('lines', P)]
        if what == 'kpoint':
            return [('points', self.at([self.breaks(d) for d in range(self.dim)]))]
        if what == 'kwire':
            return [('lines', l) for l in self.knot_lines(axes, res[1])]
        if what == 'ksurf':
            return [('surfs', s) for s in self.knot_faces(axes, res[2])]
        if what == 'curve':
            return [('lines', l) for l in self.edges(res[1])]
        if what == 'surface' or what == 'volume':
            if self.dim < (2 if what == 'surface' else 3):
                return []
            return [('surfs', s) for s in self.faces(res[2])]
        raise KeyError(what)


def np_():
    import numpy
    return numpy


# ---------------------------------------------------------------- judging pictures

def drawn_of(recs):
    """backend calls -> list of (kind, grid of points)"""
    np = np_()
    out = []
    for b, me, name, a, k, ok in recs:
        if not ok:
            continue
        if name == 'points3d':
            x, y, z = (np.asarray(c, dtype='d') for c in a[:3])
            out.append(('points', np.stack([x.T, y.T, z.T], axis=-1)))
        elif name in ('line3d', 'surf3d'):
            key = 'lines' if name == 'line3d' else 'surfs'
            for (x, y, z) in (a[0] if a else k[key]):
                out.append((key, np.stack([np.asarray(c, dtype='d').T for c in (x, y, z)], axis=-1)))
        elif name == 'quiver3d':
            x = [np.asarray(c, dtype='d') for c in a[:6]]
            out.append(('quiver', np.stack([c.T for c in x], axis=-1)))
    return out


def same_grid(A, B, tol):
    """equal up to the order of the axes and their direction"""
    np = np_()
    if A.size != B.size:
        return False
    B = np.squeeze(B) if B.ndim > 2 and 1 in B.shape[:-1] else B
    A = np.squeeze(A) if A.ndim > 2 and 1 in A.shape[:-1] else A
    if A.ndim != B.ndim:
        return False
    import itertools
    for perm in itertools.permutations(range(B.ndim - 1)):
        C = np.transpose(B, list(perm) + [B.ndim - 1])
        if C.shape != A.shape:
            continue
        for flip in itertools.product((1, -1), repeat=B.ndim - 1):
            D = C[tuple(slice(None, None, f) for f in flip)]
            if np.abs(A - D).max() <= tol:
                return True
    return False


def judge_picture(want, got, tol):
    """Every wanted piece drawn and nothing that is not part of the geometry."""
    np = np_()
    used = [False] * len(got)
    miss = []
    for kind, P in want:
        ok = False
        for i, (k, Q) in enumerate(got):
            if k == kind and same_grid(P, Q, tol):
                used[i] = ok = True
                break
        if not ok:
            miss.append((kind, P))
    extra = [g for g, u in zip(got, used) if not u and not any(k == g[0] and same_grid(P, g[1], tol) for k, P in want)]
    if not miss and not extra:
        return None
    # drawn in another way: the same places have to be covered
    for kind in ('points', 'lines', 'surfs', 'quiver'):
        W = [P.reshape(-1, P.shape[-1]) for k, P in want if k == kind]
        G = [P.reshape(-1, P.shape[-1]) for k, P in got if k == kind]
        if not W and not G:
            continue
        if not W:
            return 'draws %d %s that are no part of the picture' % (len(G), kind)
        if not G:
            return 'draws no %s where %d belong to the picture' % (kind, len(W))
        A, B = np.concatenate(W), np.concatenate(G)
        if not np.isfinite(B).all():
            return 'draws %s at infinite or undefined places' % kind
        if kind in ('points', 'quiver'):
            d1, d2 = tol, tol
        else:
            def spacing(L):
                return max([float(np.abs(np.diff(P, axis=i)).sum(-1).max()) for P in L for i in range(P.ndim - 1) if P.shape[i] > 1] or [0.0])
            d1 = spacing([P for k, P in want if k == kind]) + tol
            d2 = min(d1, spacing([P for k, P in got if k == kind]) + tol)
            for k, P in want:                     # ends and corners are drawn exactly
                if k == kind:
                    for c in corners(P):
                        if np.abs(B - c).sum(-1).min() > 4 * tol:
                            return 'the end %s of the geometry is not drawn (%s)' % (c.tolist(), kind)
        for x in B:
            if np.abs(A - x).sum(-1).min() > d1 + 3 * tol:
                return 'draws %s at %s, off the geometry by %.3g' % (kind, x.tolist(), np.abs(A - x).sum(-1).min())
        for x in A:
            if np.abs(B - x).sum(-1).min() > d2 + 3 * tol:
                return 'leaves %s of the geometry undrawn (%s): nearest drawn point is %.3g away' % (x.tolist(), kind, np.abs(B - x).sum(-1).min())
    return None


def corners(P):
    import itertools
    return [P[i] for i in itertools.product((0, -1), repeat=P.ndim - 1)]


def library_points(draws):
    np = np_()
    out = []
    for name, a in draws:
        if name == 'poly':
            if a[0] is not None:
                out.append(np.asarray(a[0], dtype='d').reshape(-1, 3))
        else:
            out.append(np.stack([np.ravel(np.asarray(c, dtype='d')) for c in a[:3]], axis=-1))
    return np.concatenate(out) if out else np.zeros((0, 3))


def judge_library(b, want, draws, tol):
    """What matplotlib or mayavi received is made of the same points."""
    np = np_()
    want = [w for w in want if not (b == 'mpl' and w[0] == 'surfs' and w[1].ndim != 3)]
    if not want:
        return None
    W = np.concatenate([P.reshape(-1, P.shape[-1])[:, :3] for k, P in want])
    G = library_points(draws)
    if len(G) == 0:
        return 'nothing reaches the drawing library'
    for A, B, t in ((G, W, '%s is drawn but not part of the geometry'), (W, G, '%s of the geometry never reaches the drawing library')):
        key = set(map(tuple, np.round(B / (8 * tol)).astype('i8').tolist()))
        for x in A:
            r = tuple(np.round(x / (8 * tol)).astype('i8').tolist())
            if r not in key and np.abs(B - x).sum(-1).min() > 3 * tol:
                return t % x.tolist()
    for name, a in draws:
        if name == 'poly':
            pts, lines, polys = a
            for c, m in ((lines, 'line'), (polys, 'polygon')):
                if c is not None and len(c) and (np.min(c) < 0 or np.max(c) >= len(pts)):
                    return 'a %s refers to a point that does not exist' % m
            con = lines if lines is not None else polys
            if con is None or len(con) == 0:
                return 'points without any line or polygon'
            if set(range(len(pts))) - set(np.ravel(con).tolist()):
                return 'some points belong to no line or polygon'
    return None


# ---------------------------------------------------------------- workload

WHATS = ['points', 'quiver', 'cpoint', 'cwire', 'kpoint', 'kwire', 'ksurf', 'curve', 'surface', 'volume', 'cplot', 'kplot', 'plot', 'plot']
LOADERR = ['ImportError', 'ModuleNotFoundError', 'ImportError', 'OSError', 'SyntaxError', 'MemoryError', 'KeyboardInterrupt', 'AttributeError', 'KeyError', 'ValueError', 'TypeError', 'RuntimeError']
DRAWERR = ['RuntimeError', 'OSError', 'MemoryError', 'KeyboardInterrupt', 'AttributeError', 'ValueError', 'TypeError', 'KeyError', 'ImportError', 'NotImplementedError']
GOOD = ['matplotlib', 'mpl', 'mayavi', 'myv', 'null', 'nul', 'none']
UNKNOWN = ['vtk', '', 'MPL', 'Matplotlib', 'nurbs', 'plot', 'plot_nul', 'mayavi2', 'opengl', 'nul ', 3, 0, True]


def gen_draw(rng, dims):
    g = rng.randrange(len(dims))
    dim = dims[g]
    what = rng.choice(WHATS)
    if what == 'ksurf' and dim != 3:
        what = 'kwire'
    kw = {}
    if rng.random() < 0.3:
        kw['color'] = [1, 0, 1]
    if rng.random() < 0.2 and what in ('cwire', 'kwire', 'curve'):
        kw['mode'] = rng.choice(['line', 'tube'])
    if rng.random() < 0.4 and what in ('kwire', 'ksurf'):
        kw['axes'] = rng.choice([0, dim - 1, list(range(dim)), [dim - 1]])
    if what == 'quiver':
        kw = {}
    s = {'k': 'draw', 'what': what, 'g': g, 'kw': kw, 'f': None}
    if what in ('points', 'quiver'):
        n, d = rng.choice([1, 2, 5]), rng.choice([1, 2, 3])
        s['pts'] = [[round(rng.uniform(-3, 3), 3) for _ in range(d)] for _ in range(n)]
        s['vec'] = [[round(rng.uniform(-3, 3), 3) for _ in range(d)] for _ in range(n)]
        if rng.random() < 0.2:
            s['pts'], s['vec'] = s['pts'][0], s['vec'][0]
    r = rng.random()
    if r < 0.22:
        s['f'] = ['b', rng.choice([0, 0, 0, 1, 1, 2, 4, 9]), rng.choice(DRAWERR), rng.choice(['before', 'after'])]
    elif r < 0.28:
        s['f'] = ['l', rng.choice([0, 0, 1, 2, 5]), rng.choice(DRAWERR)]
    elif r < 0.40:
        s['f'] = ['i', rng.choice([rng.randint(1, 30), rng.randint(1, 400), rng.randint(1, 4000)])]
    elif r < 0.58 and r >= 0.50:
        s['f'] = ['w']
    elif r < 0.50:
        s['f'] = ['a', rng.choice([rng.randint(0, 12), rng.randint(0, 80)]), rng.choice([1, 1, 2, -1]), 0]
    return s


def gen_use(rng):
    n = rng.choice(UNKNOWN) if rng.random() < 0.2 else rng.choice(GOOD)
    f = None
    if rng.random() < 0.15:
        f = ['i', rng.randint(1, 60)]
    return {'k': 'use', 'name': n, 'via': rng.choice(['use', 'attr', 'set']), 'f': f}


def gen_world(rng):
    b = rng.choice(['mpl', 'myv', 'myv', 'nul'])
    st = rng.choice(['ok', 'ok', 'absent', 'broken', 'broken'])
    e = rng.choice(LOADERR)
    if b == 'mpl' and st == 'absent':
        e = rng.choice(['matplotlib.pyplot', 'mpl_toolkits.mplot3d', 'matplotlib.cm', 'matplotlib.colors'])
    return {'k': 'world', 'b': b, 'st': st, 'err': e}


def gen_p01(rng, tier):
    threads = rng.random() < 0.15
    dims = [rng.choice([1, 2, 3]) for _ in range(rng.choice([1, 1, 2]))]
    specs = [geo.gen(rng, dim=d, maxp=(3, 2, 2), maxspans=(3, 2, 2), maxctl=(8, 16, 27)) if rng.random() < 0.7 else
             geo.gen(rng, dim=d, maxp=(4, 3, 2), maxspans=(6, 4, 4), maxctl=(14, 30, 60)) for d in dims]
    real = not threads and rng.random() < 0.25
    mode = {'mpl': 'real' if real and rng.random() < 0.6 else 'stub', 'myv': 'real' if rng.random() < (0 if threads else 0.5) else 'stub',
            'nul': 'real' if not threads and rng.random() < 0.3 else 'stub'}
    plan = {'specs': specs, 'mode': mode}

    def steps(n, pls):
        out = []
        for _ in range(n):
            r = rng.random()
            if r < 0.30:
                s = gen_use(rng)
            elif r < 0.45:
                s = gen_world(rng)
            elif r < 0.55:
                s = {'k': 'call', 'fn': rng.choice(['figure', 'clf', 'title', 'xlabel', 'zlabel', 'gcf', 'no_such_function', '_private'])}
            else:
                s = gen_draw(rng, dims)
            s['pl'] = rng.randrange(pls)
            out.append(s)
        return out
    if not threads:
        npl = rng.choice([1, 1, 2, 3])
        plan['plotters'] = [rng.choice(['main', None, None, 'nul', 'matplotlib', 'mayavi', 'bogus']) for _ in range(npl)]
        n = rng.choice([4, 7, 11, 16])
        plan['threads'] = [steps(n if not real else min(n, 7), npl)]
        plan['sched'] = None
    else:
        nt = rng.choice([2, 2, 3])
        plan['plotters'] = [None] * nt
        plan['states'] = {'mpl': rng.choice(['ok', 'ok', 'ok', 'absent']), 'myv': rng.choice(['ok', 'ok', 'absent']), 'nul': 'ok'}
        ths = []
        for t in range(nt):
            out = []
            for _ in range(rng.choice([1, 2, 3])):
                s = gen_use(rng) if rng.random() < 0.5 else gen_draw(rng, dims)
                s['f'] = None
                s['pl'] = t
                out.append(s)
            ths.append(out)
        plan['threads'] = ths
        plan['sched'] = {'seed': rng.randint(0, 2 ** 40), 'n': 10 if tier == 'quick' else 40}
    return plan


class Model:
    """What a plotter must have selected: the set of possibilities (None: nothing yet)."""
    def __init__(self):
        self.sel = {None}


class Sim:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.geos = [Geo(s) for s in plan['specs']]
        self.g = [geo.build(s) for s in plan['specs']]
        self.ref = [geo.dig(geo.obs(g)) for g in self.g]
        self.w = World(plan['mode'])
        self.loaded = set()
        self.pl, self.m = [], []
        self.hist = []
        self.tol = 1e-9

    # ---- selection

    def resolve(self, s):
        """backends that drawing may use when the plotter has selected s; None: drawing must fail"""
        if s is not None:
            return {s}
        w = self.w
        out = set()
        if w.can_load('myv'):
            return {'myv'}
        if 'myv' in self.loaded:
            out.add('myv')
        ie = w.state['myv'] == 'absent' or w.err.get('myv') in ('ImportError', 'ModuleNotFoundError')
        if not ie:
            return out | {None}
        if w.can_load('mpl'):
            return out | {'mpl'}
        if 'mpl' in self.loaded:
            out.add('mpl')
        return out | {None}

    def options(self, m):
        out = set()
        for s in m.sel:
            out |= self.resolve(s)
        return out

    # ---- steps

    def setup(self):
        sys.meta_path.insert(0, _BackendFinder(self.w))
        import igakit
        for b in BACKENDS:
            sys.modules.pop('igakit.plot_' + b, None)
            igakit.__dict__.pop('plot_' + b, None)
        if self.plan['mode']['mpl'] == 'real':
            patch_mpl(self.w)
        main = Model()
        for p in self.plan['plotters']:
            m = main if p == 'main' else Model()
            self.m.append(m)
            if p == 'main':
                self.pl.append(core.ig.plot)
                continue
            if p == 'bogus':
                st, v = call(lambda: core.ig.plot.Plotter('bogus'))
                if st == 'ok':
                    self.ctx.fail('unknown-accepted', 'Plotter(%r) returned a plotter' % p)
                self.pl.append(core.ig.plot.Plotter())
                continue
            st, v = call(lambda: core.ig.plot.Plotter(p) if p else core.ig.plot.Plotter())
            if st == 'ok':
                self.pl.append(v)
                if p:
                    self.chosen(m, ALIAS.get(p, p))
                    self.must_load(ALIAS.get(p, p), True, p, v)
            else:
                if p and self.w.can_load(ALIAS.get(p, p)):
                    self.ctx.fail('selection-refused', 'Plotter(%r) raised %r though the backend can be loaded' % (p, v))
                self.pl.append(core.ig.plot.Plotter())

    def chosen(self, m, b):
        m.sel = {b}
        self.loaded.add(b)

    def must_load(self, b, ok, name, v):
        """a selection that returned must have been possible"""
        if not self.w.can_load(b) and b not in self.loaded:
            self.ctx.fail('failed-load-accepted', 'selecting %r returned although the backend cannot be loaded' % (name,))

    def plotter(self, i):
        return self.pl[i]

    def target(self, i):
        p = self.pl[i]
        return core.ig.plot.plotter if p is core.ig.plot else p

    def use(self, s):
        ctx, w, m = self.ctx, self.w, self.m[s['pl']]
        p, name = self.plotter(s['pl']), s['name']
        b = ALIAS.get(name, name) if isinstance(name, str) else name
        known = isinstance(b, str) and b in BACKENDS
        t = self.target(s['pl'])
        via = s['via']
        if via == 'use':
            fn = lambda: p.use(name)
        elif via == 'attr':
            fn = lambda: setattr(t, 'backend', name)
        else:
            fn = lambda: t.set_backend(name)
        before = set(m.sel)
        can = known and (w.can_load(b) or b in self.loaded)
        sure = known and w.can_load(b)
        was = b in self.loaded if known else False
        if s['f'] is None:
            st, v = call(fn)
            hit = False
        else:
            st, v, hit = with_interrupt(s['f'][1], fn)
            if hit:
                ctx.fault('keyboard interrupt')
        if known and not w.can_load(b):
            ctx.fault('backend that cannot be loaded: ' + (w.state[b]))
        if st == 'ok':
            if not known:
                ctx.fail('unknown-accepted', 'selecting the unknown backend %r returned' % (name,))
            elif not can:
                ctx.fail('failed-load-accepted', 'selecting %r returned although the backend cannot be loaded (%s)' % (name, w.err.get(b)))
            else:
                self.chosen(m, b)
        else:
            if st == 'exc' and sure and not hit:
                ctx.fail('selection-refused', 'selecting %r raised %r though the backend can be loaded' % (name, v))
            if not known and st == 'exc' and not hit and not isinstance(v, (Exception,)):
                ctx.fail('unknown-accepted', 'selecting %r raised %r' % (name, v))
            if hit and known and can:
                m.sel = before | {b}
                if sure:
                    self.loaded.add(b)
        self.hist.append(('use', name, st))

    def world(self, s):
        self.w.state[s['b']] = s['st']
        self.w.err[s['b']] = s['err']

    def call(self, s):
        """functions the plotter takes from its backend"""
        ctx, w, m = self.ctx, self.w, self.m[s['pl']]
        t = self.target(s['pl'])
        opts = self.options(m)
        n = len(w.log)
        fn = s['fn']
        if fn in ('title', 'xlabel', 'zlabel'):
            st, v = call(lambda: getattr(t, fn)('text'))
        else:
            st, v = call(lambda: getattr(t, fn)() if fn not in ('no_such_function', '_private') else getattr(t, fn))
        new = w.log[n:]
        if fn in ('no_such_function', '_private'):
            if st == 'ok':
                ctx.fail('attribute', 'the attribute %r that no backend has was found: %r' % (fn, v))
            if None not in opts and len(opts) == 1 and not isinstance(v, AttributeError):
                ctx.fail('attribute', 'asking for an unknown attribute raised %r' % (v,))
            if st == 'exc' and None in m.sel:
                m.sel = m.sel | (opts - {None})
                self.note_loaded(m.sel)
            return
        if st == 'ok':
            if len(new) != 1 or new[0][2] != fn or new[0][0] not in opts:
                ctx.fail('wrong-backend', '%s() reached %r, selected is %s' % (fn, [(r[0], r[2]) for r in new], sorted(map(str, opts))))
            else:
                self.chosen(m, new[0][0])
        elif None not in opts:
            ctx.fail('unusable', '%s() raised %r with the backend %s' % (fn, v, sorted(map(str, opts))))
        self.hist.append(('call', fn, st))

    def note_loaded(self, sel):
        self.loaded |= {b for b in sel if b is not None}

    def draw_fn(self, s, p):
        kw = dict(s['kw'])
        if 'color' in kw:
            kw['color'] = tuple(kw['color'])
        if isinstance(kw.get('axes'), list):
            kw['axes'] = tuple(kw['axes'])
        what = s['what']
        g = self.g[s['g']]
        src = p if hasattr(p, what) or p is not core.ig.plot else core.ig.plot.plotter
        if p is core.ig.plot and what not in ('plot', 'cplot', 'kplot'):
            src = core.ig.plot.plotter
        if what == 'points':
            pts = [list(x) if isinstance(x, list) else x for x in s['pts']]
            return lambda: src.points(pts, **kw)
        if what == 'quiver':
            return lambda: src.quiver(s['pts'], s['vec'])
        return lambda: getattr(src, what)(g, **kw)

    def want(self, s, b):
        np = np_()
        res = sys.modules['igakit.plot_' + b]._resolution if 'igakit.plot_' + b in sys.modules else None
        if s['what'] in ('points', 'quiver'):
            P = np.atleast_2d(np.array(s['pts'], dtype='d'))
            A = np.zeros((len(P), 3))
            A[:, :P.shape[1]] = P
            if s['what'] == 'points':
                return [('points', A)]
            V = np.atleast_2d(np.array(s['vec'], dtype='d'))
            B = np.zeros((len(V), 3))
            B[:, :V.shape[1]] = V
            return [('quiver', np.concatenate([A, B], axis=1))]
        return self.geos[s['g']].picture(s['what'], s['kw'], res)

    def draw(self, s, quiet=False):
        ctx, w, m = self.ctx, self.w, self.m[s['pl']]
        opts = self.options(m)
        fn = self.draw_fn(s, self.plotter(s['pl']))
        n, nd = len(w.log), len(w.draws)
        f = s['f']
        w.ncall = w.ninner = 0
        hit = False
        h0 = w.hit
        if f is None:
            st, v = call(fn)
        elif f[0] == 'b':
            w.fail_at = f[1:]
            st, v = call(fn)
            w.fail_at = None
            hit = w.hit > h0
            if hit:
                ctx.fault('backend call raised ' + f[2])
        elif f[0] == 'l':
            w.fail_inner = f[1:]
            st, v = call(fn)
            w.fail_inner = None
            hit = w.hit > h0
            if hit:
                ctx.fault('drawing library raised')
        elif f[0] == 'w':
            w.scribble = True
            st, v = call(fn)
            w.scribble = False
            if w.hit > h0:
                ctx.fault('backend wrote into its arguments')
        elif f[0] == 'i':
            st, v, hit = with_interrupt(f[1], fn)
            if hit:
                ctx.fault('keyboard interrupt')
        else:
            st, v, k = with_allocfail(f[1], f[2], fn, f[3])
            hit = k > 0
            if hit:
                ctx.fault('array allocation failure')
        new, lib = w.log[n:], w.draws[nd:]
        del w.log[:], w.draws[:]
        self.hist.append(('draw', s['what'], f, st, hit))
        used = {r[0] for r in new}
        if len(used) > 1 or not used <= opts:
            ctx.fail('wrong-backend', '%s used %s, selected is %s' % (s['what'], sorted(used), sorted(map(str, opts))))
            return
        if used:
            self.chosen(m, used.pop())
            b = next(iter(m.sel))
        elif None in m.sel and (st != 'ok' or self.want_any(s)):
            # selection may have happened before the failure
            m.sel = m.sel | (opts - {None})
            self.note_loaded(m.sel)
            b = None
        else:
            b = next(iter(m.sel)) if len(m.sel) == 1 else None
        if st == 'ok':
            if b is None:
                # nothing was drawn: fine when the picture is empty
                wants = self.want_any(s)
                if wants:
                    ctx.fail('incomplete', '%s returned without drawing anything' % s['what'])
                return
            if f and f[0] == 'w' and w.hit > h0:
                return                      # its picture is its own affair
            want = self.want(s, b) if self.want_any(s) else []
            bad = judge_picture(want, drawn_of(new), self.tol)
            if bad:
                ctx.fail('incomplete', '%s with backend %s%s: %s' % (s['what'], b, ' after a fault during the call' if hit else '', bad))
            elif w.mode[b] == 'real' and b in ('mpl', 'myv') and want:
                bad = judge_library(b, want, lib, self.tol)
                if bad:
                    ctx.fail('incomplete', '%s with %s: %s' % (s['what'], b, bad))
        elif not hit and None not in opts:
            if not (s['what'] == 'quiver' and 'mpl' in opts and w.mode['mpl'] == 'real'):    # not supported there
                ctx.fail('unusable', '%s raised %r with the backend %s' % (s['what'], v, sorted(map(str, opts))))

    def want_any(self, s):
        d = self.geos[s['g']].dim
        return not (s['what'] == 'surface' and d < 2 or s['what'] == 'volume' and d < 3)

    def unchanged(self, what):
        for i, g in enumerate(self.g):
            if geo.dig(geo.obs(g)) != self.ref[i]:
                self.ctx.fail('geometry-changed', 'geometry %d is different after %s' % (i, what))
                return False
        return True

    def run(self):
        self.setup()
        for s in self.plan['threads'][0]:
            if s['k'] == 'use':
                self.use(s)
            elif s['k'] == 'world':
                self.world(s)
            elif s['k'] == 'call':
                self.call(s)
            else:
                self.draw(s)
            if not self.unchanged(str(self.hist[-1]) if self.hist else ''):
                return
            if self.ctx.viol:
                return
        # every plotter draws again, without faults
        for i in range(len(self.pl)):
            for what in ('plot', 'kplot'):
                self.draw({'k': 'draw', 'what': what, 'g': 0, 'kw': {}, 'f': None, 'pl': i})
            self.unchanged('the last plot')
        if not self.ctx.viol:
            # and any of them can still be given a working backend
            for i in range(len(self.pl)):
                self.w.state['nul'] = 'ok'
                self.use({'name': 'nul', 'via': 'use', 'pl': i, 'f': None})
                self.draw({'k': 'draw', 'what': 'cplot', 'g': 0, 'kw': {}, 'f': None, 'pl': i})


class P01:
    gen = staticmethod(gen_p01)

    @staticmethod
    def shrink(plan):
        th = plan['threads']
        for i in range(len(th)):
            for j in range(len(th[i])):
                t = [list(x) for x in th]
                del t[i][j]
                if plan['sched'] is None or all(t):
                    yield dict(plan, threads=t)
        for i, t in enumerate(th):
            for j, s in enumerate(t):
                if s.get('f'):
                    t2 = [list(x) for x in th]
                    t2[i][j] = dict(s, f=None)
                    yield dict(plan, threads=t2)
        if plan['sched'] is None:
            n = len(plan['plotters'])
            for k in range(n if n > 1 else 0):
                t = [dict(s, pl=s['pl'] - (s['pl'] > k)) for s in th[0] if s['pl'] != k]
                yield dict(plan, plotters=plan['plotters'][:k] + plan['plotters'][k + 1:], threads=[t])
        else:
            import p_thr
            s = plan['sched']
            if isinstance(s, list) and len(s) == 1:
                tr = s[0]['trig']
                for i in range(len(tr)):
                    yield dict(plan, sched=[dict(s[0], trig=tr[:i] + tr[i + 1:])])
        for i, sp in enumerate(plan['specs']):
            for s2 in geo.shrink_spec(sp):
                yield dict(plan, specs=plan['specs'][:i] + [s2] + plan['specs'][i + 1:])

    @staticmethod
    def run(plan, ctx):
        if plan['sched'] is not None:
            return run_threaded(plan, ctx)
        kit.alloc_install()
        s = Sim(plan, ctx)
        s.run()
        ctx.event(s.hist)
        ctx.run_done((plan['mode'], plan['plotters'], s.hist), any(c > 0 for c in ctx.faults.values()))


# ---------------------------------------------------------------- threads with their own plotters

def run_threaded(plan, ctx):
    import p_thr

    def make():
        import igakit
        s = Sim(plan, ctx)
        s.w.state.update(plan['states'])
        for b in BACKENDS:
            name = 'igakit.plot_' + b
            igakit.__dict__.pop('plot_' + b, None)
            if s.w.can_load(b):
                m = types.ModuleType(name)
                fill_stub(m, s.w, b)
                m.__spec__ = importlib.util.spec_from_loader(name, None)
                sys.modules[name] = m
            else:
                sys.modules[name] = None
        pls = [core.ig.plot.Plotter() for _ in plan['threads']]
        s.pl = pls

        def thread(i, steps):
            def f():
                out = []
                for st in steps:
                    me = core.kit.me()
                    n = len(s.w.log)
                    if st['k'] == 'use':
                        r = call(lambda: pls[i].use(st['name']))
                    else:
                        r = call(s.draw_fn(st, pls[i]))
                    new = [x for x in list(s.w.log)[n:] if x[1] == me]
                    out.append((r[0], type(r[1]).__name__ if r[0] == 'exc' else '', [x[0] for x in new], geo.dig([[k, P] for k, P in drawn_of(new)])))
                return out
            return f

        def after():
            return [geo.dig(geo.obs(g)) for g in s.g], s.ref
        return [thread(i, t) for i, t in enumerate(plan['threads'])], after

    def judge(c, plan, ref, res, aft, log, repro):
        for i, r in enumerate(res):
            want = ref[i][0]
            if r[0] != 'ok':
                c.fail('thread-died', 'thread %d ended with %r' % (i, r[1]), repro)
                continue
            c.event('res', i, r[1])
            for j, (a, b) in enumerate(zip(r[1], want)):
                if a != b:
                    c.fail('threads-interfere', 'thread %d step %d %s: %s; alone: %s; switches %s' % (
                        i, j, {k: v for k, v in plan['threads'][i][j].items() if k in ('k', 'what', 'name')}, a, b, [t[:4] for t in log][:8]), repro)
                    break
        if aft[0] != aft[1]:
            c.fail('geometry-changed', 'a geometry is different after the threads ended', repro)
    p_thr.run_all(plan, ctx, make, (K_KERNEL, K_CODE), judge)


PROPS = {'P01': P01}
