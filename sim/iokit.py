"""Independent encoders/decoders for the file formats, and disk fault programs."""
import struct, os, math
import core, geo
from core import *

VEC_ID, MAT_ID, IGA_ID = 1211214, 1211216, 1211299


def _fmt(w):
    prec, scalar, ind = w['precision'], w['scalar'], w['indices']
    return ('>i' if ind == '32bit' else '>q'), ('>f' if prec == 'single' else '>d'), scalar == 'complex'


def g_writer(rng):
    return {'precision': rng.choice(['double', 'double', 'single']), 'scalar': rng.choice(['real', 'real', 'complex']),
            'indices': rng.choice(['32bit', '32bit', '64bit'])}


def petiga(w):
    return core.ig.io.PetIGA(precision=w['precision'], scalar=w['scalar'], indices=w['indices'])


class Buf:
    """Bytes plus, for every stored number, where it is and what it is."""
    def __init__(self, w):
        self.I, self.R, self.cplx = _fmt(w)
        self.b = bytearray()
        self.items = []            # (offset, size, kind, key)

    def i(self, v, key):
        s = struct.pack(self.I, int(v))
        self.items.append((len(self.b), len(s), 'int', key))
        self.b += s

    def r(self, v, key):
        s = struct.pack(self.R, float(v))
        self.items.append((len(self.b), len(s), 'real', key))
        self.b += s

    def s(self, v, key):
        s = struct.pack(self.R, float(v.real))
        self.items.append((len(self.b), len(s), 'real', key))
        self.b += s
        if self.cplx:
            s = struct.pack(self.R, float(v.imag))
            self.items.append((len(self.b), len(s), 'imag', key))
            self.b += s


def _fortran(shape):
    """multi-indices, first index fastest"""
    def rec(d):
        if d < 0:
            yield ()
            return
        for hi in range(shape[d]):
            for lo in rec(d - 1):
                yield lo + (hi,)
    return rec(len(shape) - 1)


def enc_geo(g, w, control=True, fields=True, nsd=None):
    b = Buf(w)
    F = g.fields if fields else None
    info = (1 if control else 0) | (2 if F is not None else 0)
    b.i(IGA_ID, 'id')
    b.i(info, 'info')
    b.i(g.dim, 'dim')
    for a in range(g.dim):
        b.i(g.degree[a], ('p', a))
        b.i(len(g.knots[a]), ('m', a))
        for k, u in enumerate(g.knots[a]):
            b.r(u, ('U', a, k))
    if control:
        nsd = g.dim if nsd is None else nsd
        C = g.control
        n = 1
        for s in g.shape:
            n *= s
        b.i(nsd, 'nsd')
        b.i(VEC_ID, 'vid')
        b.i(n * (nsd + 1), 'csize')
        for idx in _fortran(g.shape):
            for c in list(range(nsd)) + [3]:
                b.s(C[idx + (c,)], ('C', idx, c))
    if F is not None:
        n = 1
        for s in g.shape:
            n *= s
        b.i(F.shape[-1], 'npd')
        b.i(VEC_ID, 'vid2')
        b.i(n * F.shape[-1], 'fsize')
        for idx in _fortran(g.shape):
            for c in range(F.shape[-1]):
                b.s(F[idx + (c,)], ('F', idx, c))
    return b


def enc_vec(A, w, shape=None):
    """A: flat (shape None) or array shaped shape + (comps,)"""
    np = core.np
    b = Buf(w)
    b.i(VEC_ID, 'id')
    A = np.asarray(A)
    b.i(A.size, 'n')
    if shape is None:
        for k, v in enumerate(A.ravel()):
            b.s(v, ('V', k))
    else:
        B = A.reshape(tuple(shape) + (-1,))
        k = 0
        for idx in _fortran(shape):
            for c in range(B.shape[-1]):
                b.s(B[idx + (c,)], ('V', k))
                k += 1
    return b


def enc_mat(m, w):
    b = Buf(w)
    M, N, rows = m['M'], m['N'], m['rows']
    nz = sum(len(r) for r in rows)
    b.i(MAT_ID, 'id')
    b.i(M, 'M')
    b.i(N, 'N')
    b.i(nz, 'nz')
    for k, r in enumerate(rows):
        b.i(len(r), ('row', k))
    k = 0
    for r in rows:
        for j, v in r:
            b.i(j, ('J', k))
            k += 1
    k = 0
    for r in rows:
        for j, v in r:
            b.s(complex(v[0], v[1]) if b.cplx else complex(v[0], 0), ('A', k))
            k += 1
    return b


def decode(b, data=None):
    """key -> value of every number in the (possibly damaged) bytes"""
    data = bytes(b.b) if data is None else data
    out = {}
    for off, n, kind, key in b.items:
        s = data[off:off + n]
        if kind == 'int':
            out[key] = struct.unpack(b.I, s)[0]
        elif kind == 'real':
            out[key] = struct.unpack(b.R, s)[0]
        else:
            out[key] = complex(out[key], struct.unpack(b.R, s)[0])
    return out


def same(x, y, rtol=0.0):
    if x != x and y != y:
        return True
    if x == y:
        return True
    return rtol > 0 and abs(x - y) <= rtol * max(abs(x), abs(y))


def check_geo(h, val, w, control=True, nsd=None, dim=None):
    """Does the loaded geometry h hold exactly the decoded values?  -> None or text.
    A weight that is not an ordinary number makes derived field values meaningless."""
    dim = val['dim'] if dim is None else dim
    if h.dim != dim:
        return 'dim %r, stored %r' % (h.dim, dim)
    bad = geo.consistent(h)
    if bad:
        return bad
    for a in range(dim):
        if h.degree[a] != val[('p', a)]:
            return 'degree[%d] = %r, stored %r' % (a, h.degree[a], val[('p', a)])
        U = h.knots[a]
        if len(U) != val[('m', a)]:
            return 'knot count'
        for k in range(len(U)):
            if not same(float(U[k]), val[('U', a, k)]):
                return 'knots[%d][%d] = %r, stored %r' % (a, k, float(U[k]), val[('U', a, k)])
    C = h.control
    if control:
        nsd = val['nsd']
        for idx in _fortran(h.shape):
            for c in range(4):
                got = float(C[idx + (c,)])
                if c < nsd or c == 3:
                    want = val[('C', idx, c)]
                    want = want.real if isinstance(want, complex) else want
                else:
                    want = 0.0
                if not same(got, want):
                    return 'control%s[%d] = %r, stored %r' % (idx, c, got, want)
    else:
        tol = 3e-6 if w['precision'] == 'single' else 1e-12
        for idx in _fortran(h.shape):
            for c in range(4):
                if c == 3:
                    want = 1.0
                elif c < dim:
                    p = h.degree[c]
                    us = [val[('U', c, idx[c] + 1 + j)] for j in range(p)]
                    want = sum(us) / p
                    if not all(abs(u) < 1e15 for u in us):
                        continue
                    if abs(float(C[idx + (c,)]) - want) <= tol * max(1.0, max(abs(u) for u in us)):
                        continue
                else:
                    want = 0.0
                if not same(float(C[idx + (c,)]), want):
                    return 'control%s[%d] = %r, expected Greville %r' % (idx, c, float(C[idx + (c,)]), want)
    F = h.fields
    if 'npd' in val:
        if F is None or F.shape[-1] != val['npd']:
            return 'fields %r, stored %d components' % (None if F is None else F.shape, val['npd'])
        for idx in _fortran(h.shape):
            wt = float(C[idx + (3,)])
            for c in range(val['npd']):
                want = val[('F', idx, c)]
                want = want.real if isinstance(want, complex) else want
                got = float(F[idx + (c,)])
                prod = want * wt
                ok = wt == wt and 1e-290 < abs(wt) < 1e290 and (want == 0 or 1e-290 < abs(prod) < 1e290)
                if ok and not same(got, want, 4e-15):
                    return 'fields%s[%d] = %r, stored %r' % (idx, c, got, want)
                if not ok and abs(want) < 1e290 and wt == wt and abs(wt) <= 1e290 and want == want and wt != 0 \
                        and abs(prod) > 1e-290 and not same(got, want, 4e-15):
                    return 'fields%s[%d] = %r, stored %r' % (idx, c, got, want)
    elif F is not None:
        return 'unexpected fields'
    return None


def check_vec(A, val, w, shape=None):
    np = core.np
    n = val['n']
    A = np.asarray(A)
    if A.size != n:
        return 'size %d, stored %d' % (A.size, n)
    if shape is None:
        flat = A.ravel()
    else:
        N = 1
        for s in shape:
            N *= s
        k = n // N
        want = tuple(shape) + ((k,) if k != 1 else ())
        if tuple(A.shape) != want:
            return 'shape %r, expected %r' % (A.shape, want)
        B = A.reshape(tuple(shape) + (k,))
        flat = [B[idx + (c,)] for idx in _fortran(shape) for c in range(k)]
    for k in range(n):
        x, y = complex(flat[k]), complex(val[('V', k)])
        if not (same(x.real, y.real) and same(x.imag, y.imag)):
            return 'entry %d = %r, stored %r' % (k, flat[k], val[('V', k)])
    return None


def check_mat(R, val, w):
    (M, N), (AI, AJ, AV) = R
    if int(M) != val['M'] or int(N) != val['N']:
        return 'sizes %r %r' % (M, N)
    if len(AI) != val['M'] + 1 or len(AJ) != val['nz'] or len(AV) != val['nz']:
        return 'lengths %d %d %d' % (len(AI), len(AJ), len(AV))
    s = 0
    if int(AI[0]) != 0:
        return 'AI[0] = %r' % AI[0]
    for k in range(val['M']):
        s += val[('row', k)]
        if int(AI[k + 1]) != s:
            return 'AI[%d] = %r, expected %d' % (k + 1, AI[k + 1], s)
    for k in range(val['nz']):
        if int(AJ[k]) != val[('J', k)]:
            return 'AJ[%d] = %r' % (k, AJ[k])
        x, y = complex(AV[k]), complex(val[('A', k)])
        if not (same(x.real, y.real) and same(x.imag, y.imag)):
            return 'AV[%d] = %r, stored %r' % (k, AV[k], val[('A', k)])
    return None


def g_mat(rng, w):
    M, N = rng.randint(0, 5), rng.randint(1, 6)
    if rng.random() < 0.02:
        M, N = rng.randint(150, 400), rng.randint(1, 300)
    rows = []
    most = rng.choice([3, 3, 3, 3, 1, 0])
    for _ in range(M):
        cols = sorted(rng.sample(range(N), rng.randint(0, min(N, most))))
        rows.append([[j, [round(rng.uniform(-3, 3), 5), round(rng.uniform(-3, 3), 5)]] for j in cols])
    if w['precision'] == 'single':
        rows = [[[j, [rng.randint(-64, 64) / 16.0, rng.randint(-64, 64) / 16.0]] for j, v in r] for r in rows]
    return {'M': M, 'N': N, 'rows': rows}


# ---------------------------------------------------------------- VTK

def check_vtk(data, g, a):
    """Parse a legacy VTK file and compare it with the geometry. -> None or text"""
    np = core.np
    dim = g.dim
    smp = sampler(a['sampler'])
    uvw = [np.asarray(smp(u) if smp else u) for u in g.breaks()]
    flag = bool(a['scalars'] or a['vectors'])
    if flag and a['fields'] is not None:
        out = g(*uvw, fields=a['fields_arr'])
    elif flag:
        out = g(*uvw, fields=True)
    else:
        out = (g(*uvw), None)
    C, F = out
    dims = list(C.shape[:-1]) + [1] * (3 - dim)
    npts = dims[0] * dims[1] * dims[2]
    pos = 0

    def line():
        nonlocal pos
        e = data.index(b'\n', pos)
        s = data[pos:e].decode('ascii')
        pos = e + 1
        return s

    def doubles(n):
        nonlocal pos
        if pos + 8 * n > len(data):
            raise ValueError('data cut short')
        v = struct.unpack('>%dd' % n, data[pos:pos + 8 * n])
        pos += 8 * n
        return v

    def blank():
        nonlocal pos
        while pos < len(data) and data[pos:pos + 1] == b'\n':
            pos += 1
    order = list(_fortran(C.shape[:-1]))
    try:
        if not line().startswith('# vtk DataFile Version'):
            return 'magic line'
        line()
        if line().strip() != 'BINARY':
            return 'format line'
        want = 'STRUCTURED_GRID' if a['control'] else 'RECTILINEAR_GRID'
        if line().split() != ['DATASET', want]:
            return 'dataset line'
        if line().split() != ['DIMENSIONS'] + [str(d) for d in dims]:
            return 'dimensions'
        if a['control']:
            if line().split() != ['POINTS', str(npts), 'double']:
                return 'points line'
            v = doubles(3 * npts)
            for k, idx in enumerate(order):
                for c in range(3):
                    if not same(v[3 * k + c], float(C[idx + (c,)])):
                        return 'point %d component %d = %r, geometry %r' % (k, c, v[3 * k + c], float(C[idx + (c,)]))
            blank()
        else:
            for ax, X in enumerate('XYZ'):
                t = line().split()
                n = len(uvw[ax]) if ax < dim else 1
                if t != [X + '_COORDINATES', str(n), 'double']:
                    return 'coordinates line %r' % t
                v = doubles(n)
                for k in range(n):
                    if not same(v[k], float(uvw[ax][k]) if ax < dim else 0.0):
                        return 'coordinate %s[%d]' % (X, k)
                blank()
        if flag:
            if line().split() != ['POINT_DATA', str(npts)]:
                return 'point data line'
            for i, (name, index) in enumerate(_named(a['scalars'])):
                t = line().split()
                if t[:1] != ['SCALARS'] or t[1] != (name or 'scalars%d' % i).replace(' ', '_') or t[2] != 'double':
                    return 'scalars line %r' % t
                if line().split()[:1] != ['LOOKUP_TABLE']:
                    return 'lookup line'
                v = doubles(npts)
                for k, idx in enumerate(order):
                    if not same(v[k], float(F[idx + (index,)])):
                        return 'scalar %s[%d]' % (name, k)
                blank()
            for i, (name, index) in enumerate(_named(a['vectors'])):
                t = line().split()
                if t[:1] != ['VECTORS'] or t[1] != (name or 'vectors%d' % i).replace(' ', '_') or t[2] != 'double':
                    return 'vectors line %r' % t
                v = doubles(3 * npts)
                for k, idx in enumerate(order):
                    for c in range(3):
                        wv = float(F[idx + (index[c],)]) if c < len(index) else 0.0
                        if not same(v[3 * k + c], wv):
                            return 'vector %s[%d]' % (name, k)
                blank()
        if pos != len(data):
            return 'trailing %d bytes' % (len(data) - pos)
    except (ValueError, IndexError, struct.error, UnicodeDecodeError) as e:
        return 'malformed: %s' % e
    return None


def _named(x):
    if isinstance(x, dict):
        return [(k, x[k]) for k in sorted(x)]
    return [tuple(t) for t in x]


def sampler(n):
    if not n:
        return None
    np = core.np
    return lambda u: np.linspace(u[0], u[-1], n)


# ---------------------------------------------------------------- disk images

def image(old, ops, upto, torn, path):
    """Content of path after the first `upto` operations of the log plus `torn`
    bytes of the following write; None if the file does not exist."""
    files = dict(old)
    for n, (kind, fd, p, thr, off, req, ret, err, flags, data) in enumerate(ops):
        last = n == upto
        if n > upto or (last and (kind != WRITE or not torn)):
            break
        if ret < 0:
            continue
        if kind == OPEN:
            if flags & os.O_TRUNC or p not in files:
                if flags & (os.O_TRUNC | os.O_CREAT):
                    files[p] = b'' if (flags & os.O_TRUNC or p not in files) else files[p]
        elif kind == WRITE and data:
            d = data[:torn] if last else data
            c = files.get(p, b'')
            if len(c) < off:
                c = c + b'\0' * (off - len(c))
            files[p] = c[:off] + d + c[off + len(d):]
        elif kind == TRUNC:
            c = files.get(p, b'')
            files[p] = c[:off] + b'\0' * (off - len(c))
        elif kind == RENAME:
            files[core.kit.disk_file(flags)] = files.pop(p, b'')
        elif kind == UNLINK:
            files.pop(p, None)
    return files


def cuts(ops, rng, limit):
    """(upto, torn) pairs: every operation boundary and torn writes"""
    out = []
    for n, o in enumerate(ops):
        out.append((n, 0))
        if o[0] == WRITE and o[6] and o[6] > 1:
            L = o[6]
            out += [(n, k) for k in range(1, L)]
    out.append((len(ops), 0))
    seen, uniq = set(), []
    for c in out:
        uniq.append(c)
    if len(uniq) > limit:
        keep = [c for c in uniq if c[1] == 0]
        rest = [c for c in uniq if c[1] != 0]
        rng.shuffle(rest)
        uniq = sorted((keep + rest)[:limit])
    return uniq


# ---------------------------------------------------------------- fault programs

ERR = {'EIO': 5, 'ENOSPC': 28, 'EDQUOT': 122, 'EMFILE': 24, 'EACCES': 13, 'EINTR': 4, 'EFBIG': 27, 'ENOMEM': 12, 'EROFS': 30}


def fault_name(f):
    if f[0] == 'int':
        return 'keyboard interrupt'
    if f[0] == 'alloc':
        return 'array allocation fails'
    kind, thr, nth, at, action, arg, sticky = f
    inv = {v: k for k, v in ERR.items()}
    n = OPS[kind]
    if action == F_ERRNO:
        return '%s: %s' % (n, inv.get(arg, arg))
    return {F_SHORT: 'short %s', F_SIGINT: '%s: EINTR + signal', F_EOF: 'premature EOF on %s', F_LOSS: 'lost bytes at %s'}[action] % n


def arm(prog):
    """Install a fault program; returns indices to ask which ones fired."""
    kit = core.kit
    kit.disk_reset()
    if prog.get('chunk'):
        kit.disk_chunk(*prog['chunk'])
    return [kit.disk_fault(*f) for f in prog.get('disk', ())]


def run_prog(prog, fn):
    """-> (status, value, fired list of names, oplog)"""
    kit = core.kit
    ids = arm(prog)
    fired = []
    kit.set_budget(20000000)
    if prog.get('int'):
        st, v, f = with_interrupt(prog['int'], fn)
        if f:
            fired.append('keyboard interrupt')
    elif prog.get('alloc'):
        st, v, n = with_allocfail(prog['alloc'][0], prog['alloc'][1], fn)
        fired += ['array allocation fails'] * (1 if n else 0)
    else:
        st, v = call(fn)
        try:
            _drain()
        except KeyboardInterrupt as e:     # a signal that arrived with the last operation
            st, v = 'late', e
    for i, f in zip(ids, prog.get('disk', ())):
        if kit.disk_fired(i):
            fired.append(fault_name(f))
    log = kit.disk_oplog()
    kit.set_budget(0)
    return st, v, fired, log


def _drain():
    for _ in range(8):
        pass


def disarm():
    core.kit.disk_reset()


def write_progs(rng, dry, n, steps, allocs, thr=-1):
    """n random fault programs for a save whose fault-free run is `dry` (op log)."""
    cnt = {}
    W = 0
    for o in dry:
        cnt[o[0]] = cnt.get(o[0], 0) + 1
        if o[0] == WRITE:
            W += max(0, o[6])
    progs = []
    for _ in range(n):
        p = {'disk': []}
        if rng.random() < 0.3:
            p['chunk'] = [rng.choice([1, 3, 7, 16]), 0]
        for _ in range(rng.choice([1, 1, 1, 2])):
            r = rng.random()
            if r < 0.22:
                at = rng.choice([rng.randint(0, max(0, W - 1)), max(0, W - rng.randint(1, 9)), rng.randint(0, 12)])
                p['disk'].append([WRITE, thr, -1, min(at, max(0, W - 1)), F_ERRNO, ERR[rng.choice(['ENOSPC', 'EDQUOT', 'EIO', 'EFBIG'])], rng.choice([1, 1, 0])])
            elif r < 0.34 and cnt.get(WRITE):
                p['disk'].append([WRITE, thr, rng.randint(0, cnt[WRITE] - 1), 0, F_ERRNO, ERR[rng.choice(['EIO', 'ENOSPC', 'EINTR'])], rng.choice([0, 0, 1])])
            elif r < 0.42 and cnt.get(WRITE):
                p['disk'].append([WRITE, thr, rng.randint(0, cnt[WRITE] - 1), 0, F_SHORT, rng.choice([1, 2, 5, 100]), rng.choice([0, 1])])
            elif r < 0.48 and cnt.get(WRITE) and thr < 0:
                p['disk'].append([WRITE, thr, rng.randint(0, cnt[WRITE] - 1), 0, F_SIGINT, 0, 0])
            elif r < 0.60 and cnt.get(CLOSE):
                p['disk'].append([CLOSE, thr, rng.randint(0, cnt[CLOSE] - 1), 0, F_LOSS, rng.choice([1, 4, 8, 64, 10 ** 6]), 0])
            elif r < 0.68 and cnt.get(CLOSE):
                p['disk'].append([CLOSE, thr, rng.randint(0, cnt[CLOSE] - 1), 0, F_ERRNO, ERR[rng.choice(['EIO', 'EDQUOT', 'EINTR'])], 0])
            elif r < 0.74 and cnt.get(OPEN):
                p['disk'].append([OPEN, thr, rng.randint(0, cnt[OPEN] - 1), 0, F_ERRNO, ERR[rng.choice(['EACCES', 'EMFILE', 'ENOSPC', 'EROFS'])], 0])
            elif r < 0.82:
                ks = [k for k in (DUP, SEEK, STAT, TRUNC, SYNC, RENAME) if cnt.get(k)]
                if ks:
                    k = rng.choice(ks)
                    p['disk'].append([k, thr, rng.randint(0, cnt[k] - 1), 0, F_ERRNO, ERR[rng.choice(['EIO', 'EMFILE' if k == DUP else 'EIO'])], 0])
            elif r < 0.92 and steps and thr < 0:
                p = {'int': rng.randint(1, steps)}
                break
            elif allocs and thr < 0:
                p = {'alloc': [rng.randint(0, allocs - 1), rng.choice([1, 1, -1])]}
                break
        for d in p.get('disk', ()):
            if d[4] == F_ERRNO and d[5] == ERR['EINTR']:
                d[6] = 0                  # an endless EINTR is no real disk
        if p.get('disk') or p.get('int') or p.get('alloc') or p.get('chunk'):
            progs.append(p)
    return progs


def read_progs(rng, dry, n, size, steps, allocs, thr=-1):
    cnt = {}
    for o in dry:
        cnt[o[0]] = cnt.get(o[0], 0) + 1
    progs = []
    for _ in range(n):
        p = {'disk': []}
        if rng.random() < 0.3:
            p['chunk'] = [0, rng.choice([1, 3, 7, 16])]
        for _ in range(rng.choice([1, 1, 1, 2])):
            r = rng.random()
            at = rng.choice([rng.randint(0, max(0, size - 1)), rng.randint(0, min(30, max(0, size - 1))), max(0, size - rng.randint(1, 9))])
            if r < 0.2:
                p['disk'].append([READ, thr, -1, at, F_ERRNO, ERR['EIO'], rng.choice([1, 0])])
            elif r < 0.36:
                p['disk'].append([READ, thr, -1, at, F_EOF, 0, rng.choice([1, 1, 0])])
            elif r < 0.46 and cnt.get(READ):
                p['disk'].append([READ, thr, rng.randint(0, cnt[READ] - 1), 0, F_ERRNO, ERR[rng.choice(['EIO', 'EINTR'])], rng.choice([0, 1])])
            elif r < 0.54 and cnt.get(READ):
                p['disk'].append([READ, thr, rng.randint(0, cnt[READ] - 1), 0, F_EOF, 0, 0])
            elif r < 0.64 and cnt.get(READ):
                p['disk'].append([READ, thr, rng.randint(0, cnt[READ] - 1), 0, F_SHORT, rng.choice([1, 2, 5, 100]), rng.choice([0, 1])])
            elif r < 0.70 and cnt.get(READ) and thr < 0:
                p['disk'].append([READ, thr, rng.randint(0, cnt[READ] - 1), 0, F_SIGINT, 0, 0])
            elif r < 0.76 and cnt.get(OPEN):
                p['disk'].append([OPEN, thr, rng.randint(0, cnt[OPEN] - 1), 0, F_ERRNO, ERR[rng.choice(['EACCES', 'EMFILE', 'EIO'])], 0])
            elif r < 0.84:
                ks = [k for k in (DUP, SEEK, STAT, CLOSE) if cnt.get(k)]
                if ks:
                    k = rng.choice(ks)
                    p['disk'].append([k, thr, rng.randint(0, cnt[k] - 1), 0, F_ERRNO, ERR['EMFILE' if k == DUP else 'EIO'], 0])
            elif r < 0.93 and steps and thr < 0:
                p = {'int': rng.randint(1, steps)}
                break
            elif allocs and thr < 0:
                p = {'alloc': [rng.randint(0, allocs - 1), rng.choice([1, 1, -1])]}
                break
        for d in p.get('disk', ()):
            if d[4] == F_ERRNO and d[5] == ERR['EINTR']:
                d[6] = 0                  # an endless EINTR is no real disk
        if p.get('disk') or p.get('int') or p.get('alloc') or p.get('chunk'):
            progs.append(p)
    return progs


ABSORBED = ('short read', 'short write')


def only_absorbed(fired):
    return all(f in ABSORBED for f in fired)


def shrink_progs(plan):
    ps = plan.get('progs') or []
    if len(ps) > 1:
        for i in range(len(ps)):
            yield dict(plan, progs=[ps[i]])
    if len(ps) == 1:
        p = ps[0]
        if p.get('chunk'):
            q = dict(p)
            q.pop('chunk')
            yield dict(plan, progs=[q])
        d = p.get('disk') or []
        if len(d) > 1:
            for i in range(len(d)):
                yield dict(plan, progs=[dict(p, disk=[d[i]])])
