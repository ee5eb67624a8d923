import sys; from lib import *
# C04 special values of gamma, factorial.   C05 accuracy of gamma.   C06 ln_gamma
inf, nan = math.inf, math.nan
def special():
    J = Jobs()
    def pt(x, want, id): J.add('e_gamma', 1, [x], [], ['is 0 %s' % hx(want)], id=id)
    pt(nan, nan, 'nan'); pt(-nan, nan, 'nnan'); pt(inf, inf, 'inf'); pt(-inf, nan, 'ninf')
    J.add('e_gamma', 1, [0.0], [], ['is 0 %s' % hx(inf)], id='zero'); J.add('e_gamma', 1, [-0.0], [], ['is 0 %s' % hx(-inf)], id='nzero')
    for k in list(range(1, 200)) + [2.0**k for k in range(8, 1023, 7)]: pt(-float(k), nan, 'negint%g' % k)
    for n in range(0, 171):
        v = mp.factorial(n)
        J.add('e_factorial', 1, [n], [], ['abs acc o0 %s - %s - | %s' % (C(float(v)), C(float(v - mpf(float(v)))), C(float(v) * 2e-15))], id='fact%d' % n)
        J.add('e_gamma', 1, [n + 1.0], [], ['abs acc o0 %s - %s - | %s' % (C(float(v)), C(float(v - mpf(float(v)))), C(float(v) * 2e-15))], id='gint%d' % n)
    for n in (171, 172, 180, 200, 300, 500): J.add('e_factorial', 1, [n], [], ['is 0 %s' % hx(inf)], id='factinf%d' % n)
    # overflow: everything above the largest argument is +infinity; everything below is finite
    M = 171.6243769563027
    J.add('e_gamma', 1, ['v0'], [(nxt(M), 1.7976931348623157e308)], ['is 0 %s' % hx(inf)], id='over')
    J.add('e_gamma', 1, ['v0'], [(171.5, prv(M))], ['le0 pos #1e307 o0 -'], id='under')
    # sign on the negative axis, and magnitude below -171
    for k in range(0, 170):
        lo, hi = nxt(-float(k + 1)), prv(-float(k)) if k else -1e-300
        s = '#0 o0 -' if k % 2 else 'o0'
        J.add('e_gamma', 1, ['v0'], [(lo, hi)], ['le0 sign ' + s], id='sign%d' % k, maxdepth=70)
    for k in range(170, 400):
        J.add('e_gamma', 1, ['v0'], [(nxt(-float(k + 1)), prv(-float(k)))], ['abs tiny o0 | #1e-290'], id='tiny%d' % k, maxdepth=70)
    J.save('C04')

def acc():
    J = Jobs()
    T = lambda a, b: 1e-14 if max(abs(a), abs(b)) <= 20 else 5e-14
    rel = lambda a, b: 2e-15 * float(abs(mp.gamma(mpf(0.5 * (a + b)))))
    M = 171.6243769563027
    segs = []
    for k in range(1, 171): segs += lin(nxt(float(k)), prv(k + 1.0), 2)
    segs += [(nxt(171.0), prv(M))]
    for lo, hi, r in pieces1(mp.gamma, segs, 12, rel): J.add('e_gamma', 1, ['v0'], [(lo, hi)], ['abs acc o0 r0 - | r0 %s *' % C(T(lo, hi))], refs=[r], deg=10)
    # (0,1): Gamma(z) = Gamma(1+z)/z
    for lo, hi, r in pieces1(lambda z: mp.gamma(1 + z), [(1e-300, 1e-30), (nxt(1e-30), 1e-10), (nxt(1e-10), 0.01)] + lin(nxt(0.01), prv(1.0), 8), 12, lambda a, b: 2e-15):
        J.add('e_gamma', 1, ['v0'], [(lo, hi)], ['abs acc o0 v0 * r0 - | r0 %s *' % C(T(lo, hi))], refs=[r], deg=10, maxdepth=60)
    # negative axis: 1/Gamma(z) = (z+k) h(z) around -k
    def h(k):
        def g(z):   # 1/((z+k) Gamma(z)), by the recurrence from Gamma(1+e)
            e = z + k
            p = mpf(1)
            for j in range(k): p *= z + j
            return p / mp.gamma(1 + e)
        return g
    def one(k, lo, hi):
        # scale by Gamma size so that the fit is relative
        return [(k, a, b, r) for a, b, r in adapt1(h(k), lo, hi, 12, lambda a, b: 3e-15 * float(abs(h(k)(mpf(0.5 * (a + b)))) ))]
    items = []
    for k in range(1, 169):
        items.append((k, -k - 0.5, prv(-float(k))))
        items.append((k, nxt(-float(k)), prv(-k + 0.5)))
    items.append((0, -0.5, -1e-300))
    for rs in par(one, items):
        for k, a, b, r in rs:
            J.add('e_gamma', 1, ['v0'], [(a, b)], ['abs acc o0 v0 %s + * r0 * #1 - | %s' % (C(float(k)), C(T(a, b)))], refs=[r], deg=10, maxdepth=70)
    J.save('C05')

def lng():
    J = Jobs()
    A, R = 1e-9, 1e-14
    tol = 'abs acc %s | %s %s abs %s * +'
    # z < 0.25: lnGamma(z) = lnGamma(1+z) - ln z
    for lo, hi, r in pieces1(lambda z: mp.loggamma(1 + z), [(1e-300, 1e-20), (nxt(1e-20), 1e-3), (nxt(1e-3), 0.25)], 12, lambda a, b: 1e-15):
        J.add('e_ln_gamma', 1, ['v0'], [(lo, hi)], [tol % ('o0 r0 - v0 ln +', C(A), 'o0', C(R))], refs=[r], deg=8, maxdepth=50)
    for lo, hi, r in pieces1(mp.loggamma, log(nxt(0.25), 40.0, 24), 12, lambda a, b: 1e-14):
        J.add('e_ln_gamma', 1, ['v0'], [(lo, hi)], [tol % ('o0 r0 -', C(A), 'o0', C(R))], refs=[r], deg=8)
    # Stirling with the remainder as a fit in z (z >= 40): lnGamma - ((z-.5) ln z - z) = g(z), smooth and bounded
    g = lambda z: mp.loggamma(z) - ((z - mpf(0.5)) * mp.ln(z) - z)
    for lo, hi, r in pieces1(g, log(nxt(40.0), 1e8, 30), 12, lambda a, b: 1e-13):
        J.add('e_ln_gamma', 1, ['v0'], [(lo, hi)], [tol % ('o0 r0 - v0 #0.5 - v0 ln * - v0 +', C(A), 'o0', C(R))], refs=[r], deg=8)
    half = C(float(mp.log(2 * mp.pi) / 2))
    for lo, hi in log(nxt(1e8), 1e100, 60):
        J.add('e_ln_gamma', 1, ['v0'], [(lo, hi)], [tol % ('o0 %s - v0 #0.5 - v0 ln * - v0 +' % half, C(A), 'o0', C(R))], deg=8)
    J.save('C06')
for w in sys.argv[1:] or ['special', 'acc', 'lng']: globals()[w]()
