"""Offline generator of the specification data (job files).  Independent of /repo: everything here comes
from the mathematical definition of the functions, evaluated with mpmath at 40+ digits."""
import struct, math, gzip, os, sys
import mpmath as mp
from mpmath import mpf
mp.mp.dps = 40

def hx(x): return '%016x' % struct.unpack('<Q', struct.pack('<d', float(x)))[0]
def nxt(x): return math.nextafter(x, math.inf)
def prv(x): return math.nextafter(x, -math.inf)

_cheb = {}
def cheb_nodes(n):
    return [mp.cos(mp.pi * (mpf(2 * k + 1)) / (2 * n)) for k in range(n)]
def cheb_to_mono(n):
    """rows: monomial coefficients of T_0..T_{n-1}"""
    if n in _cheb: return _cheb[n]
    T = [[1] + [0] * (n - 1)]
    if n > 1: T.append([0, 1] + [0] * (n - 2))
    for k in range(2, n):
        r = [0] * n
        for i in range(n - 1): r[i + 1] += 2 * T[k - 1][i]
        for i in range(n): r[i] -= T[k - 2][i]
        T.append(r)
    _cheb[n] = T
    return T
def interp(vals):
    n = len(vals)
    nodes = cheb_nodes(n)
    c = []
    for j in range(n):
        s = mpf(0)
        for k in range(n): s += vals[k] * mp.cos(mp.pi * j * (2 * k + 1) / (2 * n))
        c.append(s * 2 / n)
    c[0] /= 2
    T = cheb_to_mono(n)
    m = [mpf(0)] * n
    for j in range(n):
        for i in range(n):
            if T[j][i]: m[i] += c[j] * T[j][i]
    return m, c

class Ref:
    def __init__(s, vars, deg, ch, err, coef): s.vars, s.deg, s.ch, s.err, s.coef = vars, deg, ch, err, coef
    def line(s):
        w = ['ref', str(len(s.vars))] + [str(v) for v in s.vars] + [str(s.deg)]
        for c, h in s.ch: w += [hx(c), hx(h)]
        w.append(hx(s.err))
        w += [hx(c) for c in s.coef]
        return ' '.join(w)

def fit1(f, lo, hi, deg, var=0):
    c = 0.5 * lo + 0.5 * hi
    h = max(hi - c, c - lo)
    n = deg + 1
    vals = [mpf(f(mpf(c) + mpf(h) * t)) for t in cheb_nodes(n)]
    m, ch = interp(vals)
    co = [float(x) for x in m]
    rnd = sum(abs(x) for x in co) * 1.2e-16
    err = mpf(0)
    for t in (mpf(-1), mpf('-0.95'), mpf('-0.6031'), mpf('-0.2117'), mpf('0.0313'), mpf('0.4177'), mpf('0.8069'), mpf('0.957'), mpf(1)):
        v = f(mpf(c) + mpf(h) * t)
        p = mpf(0)
        for x in reversed(co): p = p * t + mpf(x)
        err = max(err, abs(p - v))
    tail = abs(ch[-1]) + (abs(ch[-2]) if deg > 1 else 0)
    e = float(err * 3 + tail) + rnd * 0.1
    return Ref([var], deg, [(c, h)], e, co), e

def adapt1(f, lo, hi, deg, tol, var=0, minw=1e-9):
    """pieces covering [lo,hi] (doubles, adjacent pieces share no double); tol(lo,hi) = allowed error"""
    r, e = fit1(f, lo, hi, deg, var)
    if e <= tol(lo, hi): return [(lo, hi, r)]
    m = math.sqrt(lo * hi) if lo > 0 and hi / lo > 4 else (-math.sqrt(lo * hi) if hi < 0 and lo / hi > 4 else 0.5 * (lo + hi))
    if hi - lo < minw * max(abs(lo), abs(hi)): raise Exception('adapt1 does not converge at %r %r err %r' % (lo, hi, e))
    return adapt1(f, lo, m, deg, tol, var, minw) + adapt1(f, nxt(m), hi, deg, tol, var, minw)

def exps2(deg): return [(i, d - i) for d in range(deg + 1) for i in range(d, -1, -1)]
def fit2(f, bx, deg, vars=(0, 1), extra=2):
    """total-degree polynomial from a tensor Chebyshev grid"""
    ch = []
    for lo, hi in bx:
        c = 0.5 * lo + 0.5 * hi
        ch.append((c, max(hi - c, c - lo)))
    n = deg + 1 + extra
    nd = cheb_nodes(n)
    xs = [mpf(ch[0][0]) + mpf(ch[0][1]) * t for t in nd]
    ys = [mpf(ch[1][0]) + mpf(ch[1][1]) * t for t in nd]
    V = [[f(x, y) for y in ys] for x in xs]
    # chebyshev coefficients along both axes
    cosm = [[mp.cos(mp.pi * j * (2 * k + 1) / (2 * n)) for k in range(n)] for j in range(n)]
    A = []
    for i in range(n):
        A.append([sum(V[i][k] * cosm[j][k] for k in range(n)) * (2 if j else 1) / n for j in range(n)])
    C = [[sum(A[k][j] * cosm[i][k] for k in range(n)) * (2 if i else 1) / n for j in range(n)] for i in range(n)]
    drop = sum(abs(C[i][j]) for i in range(n) for j in range(n) if i + j > deg)
    T = cheb_to_mono(n)
    M = {}
    for i in range(n):
        for j in range(n):
            if i + j > deg: continue
            for a in range(i + 1):
                if not T[i][a]: continue
                for b in range(j + 1):
                    if T[j][b]: M[(a, b)] = M.get((a, b), mpf(0)) + C[i][j] * T[i][a] * T[j][b]
    co = [float(M.get(e, 0)) for e in exps2(deg)]
    err = mpf(0)
    for s in (mpf(-1), mpf('-0.613'), mpf('0.117'), mpf('0.71'), mpf(1)):
        for t in (mpf(-1), mpf('-0.547'), mpf('0.093'), mpf('0.67'), mpf(1)):
            v = f(mpf(ch[0][0]) + mpf(ch[0][1]) * s, mpf(ch[1][0]) + mpf(ch[1][1]) * t)
            p = sum(mpf(c) * s**e[0] * t**e[1] for c, e in zip(co, exps2(deg)))
            err = max(err, abs(p - v))
    e = float(err * 3 + drop * mpf('0.2')) + sum(abs(x) for x in co) * 1.2e-16 * 0.1
    return Ref(list(vars), deg, ch, e, co), e

class Jobs:
    def __init__(s): s.out = []; s.n = 0
    def add(s, entry, nout, args, box, asserts, deg=10, refs=(), id=None, **kw):
        s.n += 1
        L = ['job %s' % (id or 'j%d' % s.n), 'entry %s %d' % (entry, nout), 'deg %d' % deg]
        L.append('arg ' + ' '.join(a if isinstance(a, str) else ('i%d' % a if isinstance(a, int) else '=' + hx(a)) for a in args))
        if box: L.append('box ' + ' '.join(hx(b) for p in box for b in p))
        for k, v in kw.items(): L.append('%s %s' % (k, v))
        for r in refs: L.append(r.line())
        L += list(asserts)
        s.out.append('\n'.join(L))
    def save(s, name):
        d = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'data')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, name + '.jobs.gz')
        with gzip.GzipFile(p, 'wb', mtime=0) as f: f.write(('\n'.join(s.out) + '\n').encode())
        print(name, s.n, 'jobs', os.path.getsize(p), 'bytes')
def C(x): return '=' + hx(x)

# ---------------------------------------------------------------- parallel adaptive fitting
import multiprocessing as _mp
_G = {}
def _call(a):
    return _G['f'](*a)
def par(f, items):
    """map f over argument tuples in forked processes"""
    items = list(items)
    _G['f'] = f
    if len(items) < 2: return [f(*i) for i in items]
    with _mp.get_context('fork').Pool(8) as p: return p.map(_call, items, chunksize=1)

def cuts(lo, hi, pts):
    """[lo,hi] split after each point: adjacent closed boxes"""
    r, a = [], lo
    for p in sorted(set(pts)):
        if p <= a or p >= hi: continue
        r.append((a, p)); a = nxt(p)
    r.append((a, hi))
    return r
def lin(lo, hi, n): return cuts(lo, hi, [lo + (hi - lo) * i / n for i in range(1, n)])
def log(lo, hi, n):
    a, b = math.log(lo), math.log(hi)
    return cuts(lo, hi, [math.exp(a + (b - a) * i / n) for i in range(1, n)])

def pieces1(f, segs, deg, tol, minw=1e-9):
    out = []
    for r in par(lambda lo, hi: adapt1(f, lo, hi, deg, tol, 0, minw), segs): out += r
    return out

def adapt2(f, bx, deg, tol, depth=0):
    r, e = fit2(f, bx, deg)
    if e <= tol(bx, r.coef[0]): return [(bx, r)]
    if depth > 12: raise Exception('adapt2 does not converge at %r: err %r centre %r' % (bx, e, r.coef[0]))
    # split the variable with the larger high-order coefficients
    w = [0.0, 0.0]
    for c, ex in zip(r.coef, exps2(deg)):
        if sum(ex) >= deg - 2:
            for k in (0, 1): w[k] += abs(c) * ex[k]
    k = 0 if w[0] >= w[1] else 1
    lo, hi = bx[k]
    m = math.sqrt(lo * hi) if lo > 0 and hi / lo > 3 else 0.5 * (lo + hi)
    o = []
    for part in ((lo, m), (nxt(m), hi)):
        b = list(bx); b[k] = part
        o += adapt2(f, tuple(b), deg, tol, depth + 1)
    return o
def pieces2(f, boxes, deg, tol):
    out = []
    for r in par(lambda b: adapt2(f, b, deg, tol), [(b,) for b in boxes]): out += r
    return out
def fit1v(f, lo, hi, deg, tol, var):
    """one fit over [lo,hi] that must meet tol"""
    r, e = fit1(f, lo, hi, deg, var)
    if e > tol: raise Exception('fit1v %r %r: %r' % (lo, hi, e))
    return r
