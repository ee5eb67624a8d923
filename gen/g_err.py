import sys; from lib import *
# C15 erf, erfc.  C16 erfcx.  C17 inverf, inverfc.  C18 dawson
inf, nan = math.inf, math.nan
MX = 1.7976931348623157e308; MN = 5e-324
def both(lst): # boxes and their mirror images
    return lst + [(-hi, -lo) for lo, hi in lst]
def pt(J, e, x, want, id=None): J.add(e, 1, [x], [], ['is 0 %s' % hx(want)], id=id)
def mid(f): return lambda a, b: float(abs(f(mpf(0.5 * (a + b)))))

def erf():
    J = Jobs()
    for e, p, m in (('e_erf', 1.0, -1.0), ('e_erfc', 0.0, 2.0)):
        pt(J, e, nan, nan); pt(J, e, -nan, nan); pt(J, e, inf, p); pt(J, e, -inf, m)
    for z in (0.0, -0.0): J.add('e_erf', 1, [z], [], ['abs z o0 | #3e-14']); J.add('e_erfc', 1, [z], [], ['abs z o0 #1 - | #3e-14'])
    seg = both([(1e-300, 1e-12), (nxt(1e-12), 1e-3)] + lin(nxt(1e-3), 6.5, 26))
    for lo, hi, r in pieces1(mp.erf, seg, 12, lambda a, b: 1e-15):
        J.add('e_erf', 1, ['v0'], [(lo, hi)], ['abs acc o0 r0 - | #3e-14'], refs=[r], deg=10)
        J.add('e_erfc', 1, ['v0'], [(lo, hi)], ['abs acc o0 #1 - r0 + | #3e-14'] , refs=[r], deg=10)
    for lo, hi in both([(MN, 1e-300)]):
        J.add('e_erf', 1, ['v0'], [(lo, hi)], ['abs acc o0 | #3e-14']); J.add('e_erfc', 1, ['v0'], [(lo, hi)], ['abs acc o0 #1 - | #3e-14'])
    for lo, hi in lin(nxt(6.5), 30.0, 12) + log(nxt(30.0), MX, 5):
        J.add('e_erf', 1, ['v0'], [(lo, hi)], ['abs lim o0 #1 - | #3e-14'], maxdepth=75)
        J.add('e_erf', 1, ['v0'], [(-hi, -lo)], ['abs lim o0 #1 + | #3e-14'], maxdepth=75)
        J.add('e_erfc', 1, ['v0'], [(-hi, -lo)], ['abs lim o0 #2 - | #3e-14'], maxdepth=75)
    # relative accuracy of erfc on the right: erfc = exp(-x^2) erfcx
    ecx = lambda x: mp.exp(x * x) * mp.erfc(x)
    for lo, hi, r in pieces1(ecx, [(MN, 0.05)] + lin(nxt(0.05), 3.0, 12) + lin(nxt(3.0), 26.0, 46), 10, lambda a, b: 1e-15 * mid(ecx)(a, b)):
        J.add('e_erfc', 1, ['v0'], [(lo, hi)], ['abs rel o0 r0 v0 v0 * neg exp * - | r0 v0 v0 * neg exp * #5e-13 *'], refs=[r], deg=10)
    for lo, hi in lin(nxt(26.0), 40.0, 14) + log(nxt(40.0), MX, 5):
        J.add('e_erfc', 1, ['v0'], [(lo, hi)], ['le0 lo o0 neg', 'le0 hi o0 #1e-290 -'], maxdepth=75)
    J.save('C15')

def erfcx():
    J = Jobs()
    f = lambda x: mp.exp(x * x) * mp.erfc(x)
    pt(J, 'e_erfcx', nan, nan); pt(J, 'e_erfcx', inf, 0.0); pt(J, 'e_erfcx', -inf, inf); pt(J, 'e_erfcx', 0.0, 1.0); pt(J, 'e_erfcx', -0.0, 1.0)
    tol = lambda a, b: 6e-16 * mid(f)(a, b)
    seg = [(MN, 1e-4)] + lin(nxt(1e-4), 2.0, 40) + lin(nxt(2.0), 26.0, 60)
    for lo, hi, r in pieces1(f, seg, 11, tol): J.add('e_erfcx', 1, ['v0'], [(lo, hi)], ['abs rel o0 r0 - | r0 #5e-15 *'], refs=[r], deg=10)
    # x erfcx(x) tends to 1/sqrt(pi)
    g = lambda x: x * f(x)
    def g(x):
        if x > 1e6: return (1 - 1 / (2 * x * x) + 3 / (4 * x**4)) / mp.sqrt(mp.pi)
        return x * mp.exp(x * x) * mp.erfc(x)
    with mp.workdps(60):
        for lo, hi, r in pieces1(g, log(nxt(26.0), 1e8, 90), 10, lambda a, b: 4e-16): J.add('e_erfcx', 1, ['v0'], [(lo, hi)], ['abs rel o0 v0 * r0 - | r0 #5e-15 *'], refs=[r], deg=10)
    c = C(float(1 / mp.sqrt(mp.pi)))
    for lo, hi in log(nxt(1e8), 1e300, 40): J.add('e_erfcx', 1, ['v0'], [(lo, hi)], ['abs rel o0 v0 * %s - | #2e-15' % c], deg=6)
    # negative side, against the small-argument form and 2exp(x^2) - erfcx(-x)
    for lo, hi, r in pieces1(f, [(-1e-4, -MN)] + lin(-2.0, prv(-1e-4), 40), 11, tol): J.add('e_erfcx', 1, ['v0'], [(lo, hi)], ['abs rel o0 r0 - | r0 #2e-13 *'], refs=[r], deg=10)
    for lo, hi, r in pieces1(f, lin(-7.0, prv(-2.0), 20), 11, lambda a, b: 1e-15 * mid(f)(a, b)): J.add('e_erfcx', 1, ['v0'], [(lo, hi)], ['abs rel o0 r0 - | r0 #2e-13 *'], refs=[r], deg=10)
    for lo, hi in lin(-26.6, prv(-7.0), 80): J.add('e_erfcx', 1, ['v0'], [(lo, hi)], ['abs rel o0 %s * v0 v0 * #600 - neg exp * #2 - | #1e-12' % C(float(mp.exp(-600)))], deg=10)
    for lo, hi in [(26.65, 26.8)] + log(nxt(26.8), MX, 6): J.add('e_erfcx', 1, ['v0'], [(-hi, -lo)], ['is 0 %s' % hx(inf)], maxdepth=75)
    J.save('C16')

def inv():
    J = Jobs()
    def icx(p): # erfc^-1, any p in (0,2)
        p = mpf(p)
        if p > 1: return -icx(2 - p)
        if p == 1: return mpf(0)
        if p > 0.4: return mp.erfinv(1 - p)
        L = -mp.log(p)
        x = mp.sqrt(L - mp.log(L + 1) / 2) if L > 1 else mpf(1)
        for _ in range(60):
            e = mp.erfc(x)
            d = (mp.log(e) - mp.log(p)) / (-2 / mp.sqrt(mp.pi) * mp.exp(-x * x) / e)
            x -= d
            if abs(d) < mpf(10)**-30 * abs(x): break
        return x
    for p in (2.0, nxt(2.0), inf): pt(J, 'e_inverfc', p, -100.0); 
    for p in (0.0, -0.0, -MN, -inf): pt(J, 'e_inverfc', p, 100.0)
    J.add('e_inverfc', 1, ['v0'], [(2.0, MX)], ['is 0 ' + hx(-100.0)]); J.add('e_inverfc', 1, ['v0'], [(-MX, -MN)], ['is 0 ' + hx(100.0)])
    J.add('e_inverf', 1, ['v0'], [(1.0, 1e307)], ['is 0 ' + hx(100.0)]); J.add('e_inverf', 1, ['v0'], [(-1e307, -1.0)], ['is 0 ' + hx(-100.0)])
    pt(J, 'e_inverf', inf, 100.0); pt(J, 'e_inverf', -inf, -100.0)
    # inverfc on (0,1]: as a function of p; accuracy relative to max(x, 0.1)
    seg = log(1e-290, 1e-3, 480) + log(nxt(1e-3), 0.3, 12) + lin(nxt(0.3), 1.0, 8)
    for lo, hi, r in pieces1(icx, seg, 10, lambda a, b: 2e-14 * max(0.1, mid(icx)(a, b)), minw=1e-6):
        J.add('e_inverfc', 1, ['v0'], [(lo, hi)], ['abs acc o0 r0 - | #2e-13 #1 r0 abs + *'], refs=[r], deg=10)
    # (1,2): x = -erfc^-1(2-p): the rounding of 2-p is harmless, but the argument is what it is: inverse in q = 2-p
    J2 = []
    seg = lin(nxt(1.0), 1.7, 8) + [(2 - b, 2 - nxt(a)) for a, b in reversed(log(1e-12, 0.3, 60))]
    for lo, hi, r in pieces1(icx, seg, 10, lambda a, b: 2e-14 * max(0.1, mid(icx)(a, b)), minw=1e-14):
        J.add('e_inverfc', 1, ['v0'], [(lo, hi)], ['abs acc o0 r0 - | #2e-13 #1 r0 abs + * #1e-15 r0 r0 * exp * +'], refs=[r], deg=10)
    # inverf
    for lo, hi, r in pieces1(mp.erfinv, [(-0.5, -1e-3), (-prv(1e-3), -1e-300), (1e-300, prv(1e-3)), (1e-3, 0.5)] + lin(nxt(0.5), 0.7, 3) + lin(-0.7, prv(-0.5), 3), 10, lambda a, b: 2e-15):
        J.add('e_inverf', 1, ['v0'], [(lo, hi)], ['abs acc o0 r0 - | #2e-13'], refs=[r], deg=10)
    J.add('e_inverf', 1, [0.0], [], ['abs acc o0 | #2e-13'])
    seg = [(1 - b, 1 - nxt(a)) for a, b in reversed(log(1e-14, 0.3, 60))]
    for lo, hi, r in pieces1(lambda p: icx(1 - p), seg, 10, lambda a, b: 2e-14 * mid(mp.erfinv)(a, b), minw=1e-16):
        J.add('e_inverf', 1, ['v0'], [(lo, hi)], ['abs acc o0 r0 - | #2e-13 #1 r0 abs + *'], refs=[r], deg=10)
    seg = [(-1 + nxt(a), -1 + b) for a, b in log(1e-12, 0.3, 55)]
    for lo, hi, r in pieces1(lambda p: -icx(1 + p), seg, 10, lambda a, b: 2e-14 * mid(mp.erfinv)(a, b), minw=1e-16):
        J.add('e_inverf', 1, ['v0'], [(lo, hi)], ['abs acc o0 r0 - | #2e-13 #1 r0 abs + * #1e-15 r0 r0 * exp * +'], refs=[r], deg=10)
    J.save('C17')

def daw():
    J = Jobs()
    def D(x):
        x = mpf(x)
        if abs(x) > 150:
            s = t = 1 / (2 * x); k = 0
            for k in range(1, 30): t *= (2 * k - 1) / (2 * x * x); s += t
            return s
        return mp.exp(-x * x) * mp.erfi(x) * mp.sqrt(mp.pi) / 2
    def Ds(x):
        with mp.workdps(60): return D(x)
    R = 1e-6
    pt(J, 'e_dawson', 0.0, 0.0); pt(J, 'e_dawson', nan, nan); pt(J, 'e_dawson', inf, 0.0); pt(J, 'e_dawson', -inf, 0.0)
    # |x| < 0.2: D(x) = x E(x)
    for lo, hi, r in pieces1(lambda x: Ds(x) / x if x else mpf(1), both([(1e-300, 0.1), (nxt(0.1), 0.2)]), 10, lambda a, b: 1e-14):
        J.add('e_dawson', 1, ['v0'], [(lo, hi)], ['abs rel o0 v0 r0 * - | v0 abs r0 * %s *' % C(R)], refs=[r], deg=8)
    seg = [(nxt(0.2), prv(0.4))]
    k = 0
    while 0.8 * k + 0.4 < 200: seg += lin(0.8 * k + 0.4, prv(0.8 * k + 1.2), 2); k += 1
    for c in (250, 400, 700, 1000.0, 3000, 1e4, 1e5, 1e6, 1e7 - 4): # slices beyond: four lattice cells each
        k = int(c / 0.8)
        for i in range(4): seg.append((0.8 * (k + i) + 0.4, prv(0.8 * (k + i) + 1.2)))
    seg = [s for s in seg if s[1] < 1e7]
    for lo, hi, r in pieces1(Ds, both(seg), 10, lambda a, b: 1e-9 * abs(mid(Ds)(a, b))):
        J.add('e_dawson', 1, ['v0'], [(lo, hi)], ['abs rel o0 r0 - | r0 abs %s *' % C(R)], refs=[r], deg=8)
    for lo, hi in both(log(nxt(1e7), 1e300, 6)):
        J.add('e_dawson', 1, ['v0'], [(lo, hi)], ['abs rel o0 v0 * #0.5 - | %s' % C(R)], deg=5)
    J.save('C18')
for w in sys.argv[1:]: globals()[w]()
