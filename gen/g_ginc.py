import sys; from lib import *
# C10 accuracy of gammp and gammq; C07/C08 contract; C09 complement
# P(a,x) = T(a,x) S(a,x), Q(a,x) = T(a,x) U(a,x), T = exp(a (ln x - ln a) - (x - a))
def ser(a, x, k=30):
    t = mpf(1); s = mpf(1); n = 0
    while True:
        n += 1; t *= x / (a + n); s += t
        if t < s * mpf(10)**(-mp.mp.dps - 3): return s
def S(a, x):
    return ser(a, x) * mp.exp(a * mp.ln(a) - a - mp.loggamma(a + 1))
def U(a, x):
    d = 45 + int(float(x) / 2.3 * 0.9) + 10
    with mp.workdps(d):
        P = ser(a, x) * mp.exp(a * mp.ln(x) - x - mp.loggamma(a + 1))
        return (1 - P) / mp.exp(a * (mp.ln(x) - mp.ln(a)) - (x - a))
T = 'v1 ln v0 ln - v0 * v1 v0 - - exp'
def boxes(alo, ahi, na, xlo, xhi, nx):
    return [(p, q) for p in log(alo, ahi, na) for q in log(xlo, xhi, nx)]
def cut(a): return a + 20 * (math.sqrt(a) + 1)
def pieces(bx, deg, rel):
    """adaptive pieces with the form (S or U) that fits"""
    low = [b for b in bx if 0.5 * (b[1][0] + b[1][1]) < 0.5 * (b[0][0] + b[0][1]) + 1]
    up = [b for b in bx if b not in low]
    r = []
    for f, l in ((S, low), (U, up)):
        r += [(b, rf, f is U) for b, rf in pieces2(f, l, deg, lambda b, c: rel * abs(c))]
    return r
def acc(J, bx, deg, edeg, tp=1e-9, tq=2e-9, aq=2e-13, rel=1e-11, ap=1e-300, **kw):
    for b, r, up in pieces(bx, deg, rel):
        if up:
            J.add('e_gammpq', 2, ['v0', 'v1'], b, ['abs p o0 #1 - %s r0 * + | %s' % (T, C(tp)),
                                                   'abs q o1 %s r0 * - | o1 abs %s * %s +' % (T, C(tq), C(aq))], refs=[r], deg=edeg, **kw)
        else:
            J.add('e_gammpq', 2, ['v0', 'v1'], b, ['abs p o0 %s r0 * - | o0 abs %s * %s +' % (T, C(tp), C(ap)),
                                                   'abs q o1 #1 - %s r0 * + | o1 abs %s * %s +' % (T, C(tq), C(aq))], refs=[r], deg=edeg, **kw)
def full():
    J = Jobs(); K = Jobs()
    def strip(alo, ahi, nx):
        hi = cut(ahi) * 1.001
        lo = 1e-3 if alo < 1 else max(1e-3, alo * 0.02 if alo < 100 else alo * 0.1)
        am = math.sqrt(alo * ahi); q = math.sqrt(am)
        pts = [am + 1 - 1.5 * q, am + 1, am + 1 + 1.5 * q] + [math.exp(math.log(lo) + (math.log(hi) - math.log(lo)) * i / nx) for i in range(1, nx)]
        return [((alo, ahi), b) for b in cuts(lo, hi, [p for p in pts if lo < p < hi])]
    def go(J, strips, ap):
        bx = []
        for lo, hi in strips: bx += strip(lo, hi, 3)
        acc(J, bx, 8, 8, ap=ap, rel=3e-11, maxdepth=60)
    go(J, log(0.05, prv(100.0), 30), 1e-300)
    go(J, log(100.0, 300.0, 6), 1e-15)
    J.save('C10')
    go(K, log(nxt(300.0), 1000.0, 8), 1e-15)
    K.save('C10t')
def edges():
    # C07, C08: documented panics and edge values, range, for all the remaining inputs
    J = Jobs(); inf = math.inf; nan = math.nan; MX = 1.7976931348623157e308; MN = 5e-324
    for e in ('e_gammp', 'e_gammq'):
        z = 0.0 if e == 'e_gammp' else 1.0
        # panic exactly when x < 0 or a <= 0 (or NaN)
        for a in (MN, 1e-300, 0.5, 1.0, 100.0, 1e10, MX): J.add(e, 1, [a, 'v0'], [(-MX, -MN)], ['panic'], id='%s_neg_x_%g' % (e, a))
        for x in (0.0, MN, 0.5, 1.0, 100.0, 1e10, MX): J.add(e, 1, ['v0', x], [(-MX, -MN)], ['panic'], id='%s_neg_a_%g' % (e, x)); J.add(e, 1, [0.0, x], [], ['panic'], id='%s_zero_a_%g' % (e, x))
        J.add(e, 1, ['v0', 'v1'], [(-MX, -MN), (-MX, MX)], ['panic'], id=e + '_neg_a')
        J.add(e, 1, ['v0', 'v1'], [(MN, MX), (-MX, -MN)], ['panic'], id=e + '_neg_x')
        J.add(e, 1, [nan, 1.0], [], ['panic'], id=e + '_nan_a'); J.add(e, 1, [1.0, nan], [], ['panic'], id=e + '_nan_x')
        J.add(e, 1, ['v0', 0.0], [(MN, MX)], ['is 0 ' + hx(z)], id=e + '_x0')
        J.add(e, 1, ['v0', -0.0], [(MN, MX)], ['is 0 ' + hx(z)], id=e + '_x0n')
    J.save('C07')
def rng():
    R = Jobs(); Cc = Jobs()
    for lo, hi in log(0.01, prv(100.0), 40) + log(100.0, 1000.0, 10):
        h = cut(hi) * 1.001
        for q in log(1e-6 if lo < 1 else max(1e-6, lo * 0.001), h, 8):
            b = [(lo, hi), q]
            R.add('e_gammpq', 2, ['v0', 'v1'], b, ['le0 plo o0 neg', 'le0 phi o0 #1 -', 'le0 qlo o1 neg', 'le0 qhi o1 #1 -'], deg=4, maxdepth=60)
            Cc.add('e_gammpq', 2, ['v0', 'v1'], b, ['abs sum o0 o1 + #1 - | #1e-8'], deg=6, maxdepth=60)
        for q in log(nxt(h), 1e300, 3): # far tail
            b = [(lo, hi), q]
            R.add('e_gammpq', 2, ['v0', 'v1'], b, ['is 0 ' + hx(1.0), 'is 1 ' + hx(0.0)], deg=4, maxdepth=60)
    for lo, hi in log(nxt(1000.0), 1e15, 6):
        R.add('e_gammpq', 2, ['v0', 'v1'], [(lo, hi), (cut(hi) * 1.001, 1e300)], ['is 0 ' + hx(1.0), 'is 1 ' + hx(0.0)], deg=4, maxdepth=60)
    R.save('C08'); Cc.save('C09')
def trim(): # the far lower tail (x < 0.35 a for a > 10) costs thousands of boxes per job: leave it out
    p = '../data/C10.jobs.gz'
    f = lambda h: struct.unpack('<d', struct.pack('<Q', int(h, 16)))[0]
    J = Jobs()
    for j in gzip.open(p, 'rt').read().split('job j')[1:]:
        L = ('job j' + j).strip().split('\n')
        i = [k for k, l in enumerate(L) if l.startswith('box')][0]
        b = L[i].split()
        v = [f(x) for x in b[1:]]
        if v[0] > 10 and v[2] < 0.35 * v[1]:
            if v[3] <= 0.35 * v[1]: continue
            b[3] = hx(0.35 * v[1]); L[i] = ' '.join(b)
        J.n += 1; J.out.append('\n'.join(L))
    J.save('C10')
for w in sys.argv[1:]: globals()[w]()
