import sys; from lib import *
# C24 besseljy.  C25 besselik  (real order)
inf, nan = math.inf, math.nan
MX = 1.7976931348623157e308; MN = 5e-324
NU = [0.0, 0.25, 1 / 3, 0.5, 0.75, 1.0, 1.4, 1.5, 2.0, 2.5, 2.7, 3.0, 4.3, 5.5, 7.0, 9.9, 12.5, 15.1, 20.25, 30.6]
XS = [0.03, 0.3, 1.0, 1.9, 2.0, 2.5, 3.7, 6.0, 11.0, 19.0, 33.0]
def dj(n, x): return (mp.besselj(n - 1, x) - mp.besselj(n + 1, x)) / 2
def dy(n, x): return (mp.bessely(n - 1, x) - mp.bessely(n + 1, x)) / 2
def di(n, x): return (mp.besseli(n - 1, x) + mp.besseli(n + 1, x)) / 2
def dk(n, x): return -(mp.besselk(n - 1, x) + mp.besselk(n + 1, x)) / 2
def multi(fs, lo, hi, deg, tol, var):
    """one common subdivision on which every function has its reference"""
    rs = [fit1(f, lo, hi, deg, var) for f in fs]
    if all(e <= 2e-14 * tol(i, r.coef[0]) for i, (r, e) in enumerate(rs)): return [(lo, hi, [r for r, e in rs])]
    m = math.sqrt(lo * hi) if lo > 0 and hi / lo > 3 else 0.5 * (lo + hi)
    return multi(fs, lo, m, deg, tol, var) + multi(fs, nxt(m), hi, deg, tol, var)
def _x(nu, lo, hi): # order fixed, argument varies
    n = mpf(nu)
    return [(nu, a, b, r) for a, b, r in multi([lambda x: mp.besselj(n, x), lambda x: mp.bessely(n, x), lambda x: dj(n, x), lambda x: dy(n, x)], lo, hi, 12, lambda i, c: 1 if i % 2 == 0 else 1 + abs(c), 0)]
def _n(x, lo, hi): # argument fixed, order varies
    z = mpf(x)
    return [(x, a, b, r) for a, b, r in multi([lambda n: mp.besselj(n, z), lambda n: mp.bessely(n, z), lambda n: dj(n, z), lambda n: dy(n, z)], lo, hi, 12, lambda i, c: 1 if i % 2 == 0 else 1 + abs(c), 0)]
def _rx(nu, lo, hi):
    n = mpf(nu)
    return [(nu, a, b, r) for a, b, r in multi([lambda x: mp.hyp0f1(n + 1, -x * x / 4)], lo, hi, 12, lambda i, c: abs(c), 0)]
def flat(rs): return [x for r in rs for x in r]
def nuseg(x, extra, step=2):
    """orders in [0, 11] without the neighbourhoods of the removable singularities (integers, half-integers) and seams"""
    pts = sorted(set([k / step for k in range(11 * step + 1)] + [e for e in extra if 0 < e < 11]))
    return [(a + 2e-3, b - 2e-3) for a, b in zip(pts, pts[1:]) if b - a > 5e-3]
def nl(nu, x): return int(nu + 0.5) if x < 2 else max(0, int(nu - x + 1.5))
def clean(lo, hi, pt):
    """[lo, hi] without the neighbourhoods of the zeros of J_nu, J_mu and Y_mu (mu the order the algorithm starts from): f = J'/J and gam = Y/J have poles there"""
    bad = []
    with mp.workdps(15):
        mid_nu, mid_x = pt(0.5 * (lo + hi)); k = nl(mid_nu, mid_x)
        fs = [lambda t: mp.besselj(*pt(t)), lambda t: mp.besselj(pt(t)[0] - k, pt(t)[1])]
        if mid_x >= 2: fs.append(lambda t: mp.bessely(pt(t)[0] - k, pt(t)[1]))
        for f in fs:
            n = 12; ts = [lo + (hi - lo) * i / n for i in range(n + 1)]; vs = [f(t) for t in ts]
            for i in range(n):
                if vs[i] * vs[i + 1] <= 0:
                    a, b, va = ts[i], ts[i + 1], vs[i]
                    for _ in range(40):
                        c = 0.5 * (a + b); vc = f(c)
                        if va * vc <= 0: b = c
                        else: a, va = c, vc
                    bad.append(a)
    out = []; a = lo; W = 0.03 if mid_x >= 2 else 1e-2
    for z in sorted(bad):
        if z - W > a: out.append((a, z - W))
        a = max(a, z + W)
    if hi > a: out.append((a, hi))
    return out
def acc(): return ['abs j o0 r0 - | #1e-9', 'abs y o1 r1 - | #1 r1 abs + #1e-9 *', 'abs dj o2 r2 - | #1e-8', 'abs dy o3 r3 - | #1 r3 abs + #1e-8 *']
def panics(J, e):
    for nu in (0.0, 0.5, 3.0):
        J.add(e, 4, [nu, 'v0'], [(-MX, -MN)], ['panic'])
        for z in (0.0, -0.0, -inf): J.add(e, 4, [nu, z], [], ['panic'])
    for x in (1e-3, 1.0, 5.0):
        J.add(e, 4, ['v0', x], [(-MX, -MN)], ['panic'])
        J.add(e, 4, [-inf, x], [], ['panic'])
def jy():
    J = Jobs()
    panics(J, 'e_besseljy')
    seg = log(1e-2, 1.5, 10) + lin(nxt(1.5), 1.99, 6) + lin(2.0, 16.0, 48) + lin(nxt(16.0), 24.0, 20) + lin(32.0, 33.0, 4)
    def segx(nu, a, b):
        sm = [nu + 1.5 - k for k in range(1, 40)] if a >= 2 else []
        return [(nu, p, q) for u, v in cuts(a, b, [prv(c) for c in sm]) for p, q in clean(u, v, lambda t: (nu, t))]
    for nu, a, b, r in flat(par(_x, flat(par(segx, [(nu, a, b) for nu in NU for a, b in seg])))):
        if r[1].coef[0] < -1e200: continue
        J.add('e_besseljy', 4, [nu, 'v0'], [(a, b)], acc(), refs=r, deg=10)
    for x in XS:
        seg = nuseg(x, [] if x < 2 else [x - 1.5 + k for k in range(12)], 4)
        for x, a, b, r in flat(par(_n, [(x, p, q) for a, b in seg for p, q in clean(a, b, lambda t: (t, x))])): J.add('e_besseljy', 4, ['v0', x], [(a, b)], acc(), refs=r, deg=10)
    it = [(nu, a, b) for nu in NU if nu > 0 for a, b in log(1e-3, 0.1, 2) + cuts(nxt(0.1), max(1.0, 0.8 * nu), [0.1 + 0.4 * i for i in range(1, 70)] + [prv(2.0)] + [prv(nu + 1.5 - k) for k in range(40)])]
    for nu, a, b, r in flat(par(_rx, flat(par(segx, [(nu, p, q) for nu, a, b in it for p, q in cuts(a, b, [prv(2.0)])])))):
        s = float(mpf(2)**mpf(nu) * mp.gamma(mpf(nu) + 1))
        J.add('e_besseljy', 4, [nu, 'v0'], [(a, b)], ['abs rel o0 v0 ln %s * exp r0 * %s / - | o0 abs #1e-10 *' % (C(nu), C(s))], refs=r, deg=10)
    J.save('C24')
def _ix(nu, lo, hi):
    n = mpf(nu)
    e = lambda x: mp.exp(x) * mp.sqrt(x)
    if lo < 2 * nu + 2: fs = [lambda x: mp.hyp0f1(n + 1, x * x / 4), lambda x: di(n, x) / x**(n - 1) if nu else mp.hyp0f1(2, x * x / 4)]
    else: fs = [lambda x: mp.besseli(n, x) * mp.exp(-x) * mp.sqrt(x), lambda x: di(n, x) * mp.exp(-x) * mp.sqrt(x)]
    fs += [lambda x: mp.besselk(n, x) * e(x), lambda x: dk(n, x) * e(x)]
    return [(nu, a, b, r, lo < 2 * nu + 2) for a, b, r in multi(fs, lo, hi, 12, lambda i, c: abs(c), 0)]
def _in(x, lo, hi):
    z = mpf(x)
    return [(x, a, b, r) for a, b, r in multi([lambda n: mp.besseli(n, z), lambda n: di(n, z), lambda n: mp.besselk(n, z), lambda n: dk(n, z)], lo, hi, 12, lambda i, c: abs(c), 0)]
def ik():
    J = Jobs()
    panics(J, 'e_besselik')
    seg = log(1e-2, 1.5, 7) + lin(nxt(1.5), 1.99, 6) + lin(2.0, 40.0, 26) + [(60.0, 62.0), (200.0, 205.0), (600.0, 610.0)]
    for nu, a, b, r, small in flat(par(_ix, [(nu, a, b) for nu in NU for a, b in seg])):
        if r[2].coef[0] > 1e200: continue
        if small:
            s = float(mpf(2)**mpf(nu) * mp.gamma(mpf(nu) + 1))
            ti = 'v0 ln %s * exp r0 * %s /' % (C(nu), C(s))
            td = 'v0 ln %s * exp r1 *' % C(nu - 1) if nu else 'v0 #0.5 * r1 *'
        else: ti, td = 'r0 v0 exp * v0 sqrt /', 'r1 v0 exp * v0 sqrt /'
        J.add('e_besselik', 4, [nu, 'v0'], [(a, b)], ['abs i o0 %s - | o0 abs %s *' % (ti, '#1e-9' if nu > 12 and a < 0.05 else '#1e-11'), 'abs di o2 %s - | o2 abs %s *' % (td, '#1e-9' if nu > 12 and a < 0.05 else '#1e-11'),
              'abs k o1 r2 v0 neg exp * v0 sqrt / - | o1 abs #1e-11 *', 'abs dk o3 r3 v0 neg exp * v0 sqrt / - | o3 abs #1e-11 *'], refs=r, deg=10)
    for x in XS:
        seg = nuseg(x, [])
        for x, a, b, r in flat(par(_in, [(x, a, b) for a, b in seg])):
            J.add('e_besselik', 4, ['v0', x], [(a, b)], ['abs i o0 r0 - | o0 abs #1e-11 *', 'abs di o2 r1 - | o2 abs #1e-11 *', 'abs k o1 r2 - | o1 abs #1e-11 *', 'abs dk o3 r3 - | o3 abs #1e-11 *'], refs=r, deg=10)
    J.save('C25')
for w in sys.argv[1:]: globals()[w]()
