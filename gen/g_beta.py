import sys; from lib import *
# C12 beta; C13 betai
inf, nan = math.inf, math.nan; MX = 1.7976931348623157e308; MN = 5e-324
def bt():
    J = Jobs()
    for w in (1e-3, 1.0, 7.5, 1e5):
        for z in (0.0, -0.0, nan, -inf, -1.0):
            J.add('e_beta', 1, [z, w], [], ['panic']); J.add('e_beta', 1, [w, z], [], ['panic'])
        J.add('e_beta', 1, ['v0', w], [(-MX, -MN)], ['panic']); J.add('e_beta', 1, [w, 'v0'], [(-MX, -MN)], ['panic'])
    J.add('e_beta', 1, ['v0', 'v1'], [(-MX, -MN), (-MX, MX)], ['panic']); J.add('e_beta', 1, ['v0', 'v1'], [(-MX, MX), (-MX, -MN)], ['panic'])
    # B(z,w) = (z+w)/(z w) exp(g), g = lnG(1+z) + lnG(1+w) - lnG(1+z+w)
    g = lambda z, w: mp.loggamma(1 + z) + mp.loggamma(1 + w) - mp.loggamma(1 + z + w)
    A = lambda z, w, tol: ['abs acc o0 %s * %s * %s %s + / r0 exp - | r0 exp %s *' % (z, w, z, w, tol), 'abs sym o0 o1 - | o0 abs %s *' % tol]
    gr = [(0.01, 0.1)] + lin(nxt(0.1), 2.0, 4) + log(nxt(2.0), 20.0, 6)
    bx = [(p, q) for p in gr for q in gr]
    for b, r in pieces2(g, bx, 6, lambda b, c: 1e-10): J.add('e_beta_sym', 2, ['v0', 'v1'], b, A('v0', 'v1', '#5e-9'), refs=[r], deg=6, maxdepth=50)
    # lines, both ways round
    ws = [1e-8, 1e-4, 0.01, 0.3, 0.5, 1.0, 1.5, 2.0, 2.7, 4.0, 7.3, 10.0, 15.5, 25.0, 60.0, 100.0, 171.0, 250.0, 400.0, 1000.0, 3e4, 1e6]
    sg = [(1e-10, 1e-6), (nxt(1e-6), 1e-2)] + lin(nxt(1e-2), 3.0, 8) + log(nxt(3.0), 1e4, 30)
    for w in ws:
        for lo, hi, r in pieces1(lambda z: g(z, mpf(w)), sg, 8, lambda lo, hi: 2e-12 * (1 + 1e-3 * w)):
            if r.coef[0] < -680: continue
            t = '#5e-10' if w <= 400 and hi <= 400 else '#3e-8' if w <= 3e4 else '#1e-6'
            J.add('e_beta_sym', 2, ['v0', w], [(lo, hi)], A('v0', C(w), t), refs=[r], deg=8, maxdepth=50)
    J.save('C12')

def H(a, b, x): # I_x(a,b) / (x^a (1-x)^b)
    return mp.exp(mp.loggamma(a + b) - mp.loggamma(a + 1) - mp.loggamma(b)) * F(a, b, x)
SH = 150
def F(a, b, x): # 2F1(1, a+b; a+1; x), positive series, in fixed point (2^-150)
    fx = lambda v: int(mp.ldexp(mpf(v), SH))
    X, P, Q = fx(x), fx(mpf(a) + b), fx(mpf(a) + 1)
    one = 1 << SH; t = s = one
    while True:
        t = ((t * X) >> SH) * P // Q; s += t
        if t < 1 << 30 and X * P < Q << SH: return mp.ldexp(mpf(s), -SH)
        P += one; Q += one
def edges():
    J = Jobs()
    # the panics
    for a in (0.0, -0.0, nan, -inf, -2.5):
        for x in (0.0, 0.3, 1.0): J.add('e_betai', 1, [a, 2.0, x], [], ['panic']); J.add('e_betai', 1, [2.0, a, x], [], ['panic'])
    for a, b in ((0.5, 0.5), (2.0, 3.0), (5000.0, 4000.0)):
        J.add('e_betai', 1, [a, b, 'v0'], [(-MX, -MN)], ['panic']); J.add('e_betai', 1, [a, b, 'v0'], [(nxt(1.0), MX)], ['panic'])
        for x in (nan, inf, -inf): J.add('e_betai', 1, [a, b, x], [], ['panic'])
    J.add('e_betai', 1, ['v0', 'v1', 'v2'], [(-MX, -MN), (-MX, MX), (-MX, MX)], ['panic'])
    J.add('e_betai', 1, ['v0', 'v1', 'v2'], [(MN, MX), (-MX, -MN), (-MX, MX)], ['panic'])
    J.add('e_betai', 1, ['v0', 'v1', 'v2'], [(MN, MX), (MN, MX), (-MX, -MN)], ['panic'])
    J.add('e_betai', 1, ['v0', 'v1', 'v2'], [(MN, MX), (MN, MX), (nxt(1.0), MX)], ['panic'])
    for x, e in ((0.0, 0.0), (-0.0, 0.0), (1.0, 1.0)): J.add('e_betai', 1, ['v0', 'v1', x], [(MN, MX), (MN, MX)], ['is 0 ' + hx(e)])
    return J
def mpb(a, b): return (a) / (a + b)
SL = (0.1, 0.3, 0.5, 1.0, 1.5, 2.5, 5.0, 11.0, 30.0, 80.0, 200.0, 700.0)
def jb(J, args, bb, A, B, X, r, up, deg, tol='#2e-9'):
    t = '%s %s ln * %s #1 %s - ln * + exp' % (A, X, B, X)
    e = 'abs acc o0 #1 %s r0 * - - | %s' % (t, tol) if up else 'abs acc o0 %s r0 * - | o0 abs %s * #1e-300 +' % (t, tol)
    J.add('e_betai', 1, args, bb, [e], refs=[r], deg=deg, maxdepth=50)
def tail(A, B, x): # too far out: ln of the smaller tail
    mu = A / (A + B)
    s = A * math.log(x / mu) + B * math.log((1 - x) / (1 - mu))
    return s < -60
def isup(x, a, b): return x > 0.95 or x >= 0.05 and x > a / (a + b)
XR = cuts(1e-6, 1 - 1e-6, [1e-4, 1e-2, 0.05, 0.1, 0.15] + [0.2 + 0.05 * i for i in range(13)] + [0.85, 0.9, 0.95, 0.99, 1 - 1e-4])
def sx(a, b): # a, b fixed
    out = []
    with mp.workdps(30):
        xs = [p for q in XR for p in ([q] if a + b < 60 else lin(q[0], q[1], 3))]
        for lo, hi in xs:
            xm = 0.5 * (lo + hi); up = isup(xm, a, b)
            if tail(a, b, lo) and tail(a, b, hi): continue
            f = (lambda x: H(mpf(b), mpf(a), 1 - x)) if up else (lambda x: H(mpf(a), mpf(b), x))
            for p, q, r in adapt1(f, lo, hi, 9, lambda p, q: 2e-12 * float(f(mid(p, q)))): out.append((p, q, up, r))
    return [(a, b) + o for o in out]
def sa(x, b, swap): # x and one parameter fixed
    out = []
    with mp.workdps(30):
        for lo, hi in log(0.1, 60.0, 24):
            m = math.sqrt(lo * hi); A, B = (b, m) if swap else (m, b); up = isup(x, A, B)
            if tail(A, B, x): continue
            if swap: f = (lambda s: H(s, mpf(b), 1 - mpf(x))) if up else (lambda s: H(mpf(b), s, mpf(x)))
            else: f = (lambda s: H(mpf(b), s, 1 - mpf(x))) if up else (lambda s: H(s, mpf(b), mpf(x)))
            for p, q, r in adapt1(f, lo, hi, 9, lambda p, q: 2e-12 * float(f(mid(p, q)))): out.append((p, q, up, r))
    return [(x, b, swap) + o for o in out]
def mid(p, q): return mpf(0.5 * (p + q))
def s2(b, swap, bx):
    am = math.sqrt(bx[0][0] * bx[0][1]); xm = 0.5 * (bx[1][0] + bx[1][1])
    A, B = (b, am) if swap else (am, b)
    up = isup(xm, A, B)
    if tail(A, B, xm): return []
    if swap: f = (lambda s, x: H(s, mpf(b), 1 - x)) if up else (lambda s, x: H(mpf(b), s, x))
    else: f = (lambda s, x: H(mpf(b), s, 1 - x)) if up else (lambda s, x: H(s, mpf(b), x))
    with mp.workdps(30): return [(b, swap, up, bb, r) for bb, r in adapt2(f, bx, 6, lambda bb, c: 1e-9 * abs(c))]
def acc():
    J = edges()
    n = []
    flat = lambda rs: [x for r in rs for x in r]
    for a, b, lo, hi, up, r in flat(par(sx, [(a, b) for a in SL for b in SL])): jb(J, [a, b, 'v0'], [(lo, hi)], C(a), C(b), 'v0', r, up, 9)
    n.append(J.n); print(n, flush=True)
    for x, b, sw, lo, hi, up, r in flat(par(sa, [(x, b, sw) for x in (1e-3, 0.03, 0.2, 0.37, 0.5, 0.71, 0.9, 0.99) for b in (0.3, 1.0, 2.5, 11.0) for sw in (False, True)])):
        A, B = (C(b), 'v0') if sw else ('v0', C(b))
        jb(J, [b, 'v0', x] if sw else ['v0', b, x], [(lo, hi)], A, B, C(x), r, up, 9)
    n.append(J.n); print(n, flush=True)
    it = [(b, sw, (p, q)) for b in (0.3, 1.0, 2.5, 11.0) for sw in (False, True) for p in log(0.3, 30.0, 12) for q in XR[3:-3]]
    for b, sw, up, bb, r in flat(par(s2, it)):
        A, B = (C(b), 'v0') if sw else ('v0', C(b))
        jb(J, [b, 'v0', 'v1'] if sw else ['v0', b, 'v1'], bb, A, B, 'v1', r, up, 6, '#2e-8')
    n.append(J.n); print(n, flush=True)
    J.save('C13')
def trim(): # jobs over regions where x^a (1-x)^b underflows are left out
    f = lambda h: struct.unpack('<d', struct.pack('<Q', int(h, 16)))[0]
    J = Jobs()
    for j in gzip.open('../data/C13.jobs.gz', 'rt').read().split('job j')[1:]:
        L = ('job j' + j).strip().split('\n')
        L = [l for l in L if not (l.startswith('le0 lo o0') or l.startswith('le0 hi o0'))]
        if any(l.startswith('ref') for l in L):
            A = [l for l in L if l.startswith('arg')][0].split()[1:]; b = [f(x) for x in [l for l in L if l.startswith('box')][0].split()[1:]]
            v = [(b[2 * int(a[1])], b[2 * int(a[1]) + 1]) if a[0] == 'v' else (f(a[1:]),) * 2 for a in A]
            if v[0][1] * math.log(v[2][0]) + v[1][1] * math.log(1 - v[2][1]) < -600: continue
        J.n += 1; J.out.append('\n'.join(L))
    J.save('C13')
for w in sys.argv[1:]: globals()[w]()
