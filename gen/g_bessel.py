import sys; from lib import *
# C21 Jn, Yn.  C22 In, Kn.  C23 parity.  C24 besseljy.  C25 besselik
inf, nan = math.inf, math.nan
MX = 1.7976931348623157e308; MN = 5e-324
ORD = list(range(0, 9)) + [10, 12, 15, 20, 30, 50, 100]
def pw(v, n): # v^n in RPN by squaring, n >= 1
    if n == 1: return v
    h = pw(v, n // 2) + ' dup *'
    return h + (' %s *' % v if n % 2 else '')
def mid(a, b): return mpf(0.5 * (a + b))
def segs(lo, n, hi): # logarithmic up to 1, then steps of at most 2
    r = log(lo, 1.0, max(2, int(math.log10(1 / lo) * 2)))
    return r + lin(nxt(1.0), hi, int((hi - 1) / 1.5))
def big(pts, w=2.0): return [(p, p + w) for p in pts]

def _jn(n, lo, hi):
    f = lambda x: mp.besselj(n, x)
    return [(n, a, b, r) for a, b, r in adapt1(f, lo, hi, 12, lambda a, b: 1e-14)]
def _jrel(n, lo, hi):
    f = lambda x: mp.hyp0f1(n + 1, -x * x / 4) # J n! (2/x)^n
    return [(n, a, b, r) for a, b, r in adapt1(f, lo, hi, 12, lambda a, b: 2e-14 * float(abs(f(mid(a, b)))))]
def _yn(n, lo, hi):
    f = lambda x: mp.bessely(n, x)
    return [(n, a, b, r) for a, b, r in adapt1(f, lo, hi, 12, lambda a, b: 2e-14 * (1 + float(abs(f(mpf(b))))))]
def flat(rs): return [x for r in rs for x in r]
# the recurrences lose digits in the enclosure (not in the code) as n grows: tolerance by order
def tj(n, x): return 1e-13 if n < 3 or x > 4 * n else 1e-12 if n < 7 else 1e-11 if n < 9 else 1e-10 if n < 13 else 1e-9 if n < 16 else 1e-7
def tr(n): return 1e-12 if n < 3 else 1e-11 if n < 6 else 1e-9 if n < 13 else 1e-7
def n_ok(n, x): return n < 25 or x > 4 * n + 30
def tiny(J, K, e, n):
    A = ['abs tiny o0 %s - | #1e-14' % ('#1' if n == 0 else '#0')]
    J.add(e, 1, [n, 'v0'], [(MN, 1e-154)], A, deg=6)
    for c in (1e-153, 2e-153, 1e-152, 1e-150, 1e-147, 1e-140, 1e-120, 1e-90, 1e-60, 1e-40, 1e-21): J.add(e, 1, [n, 'v0'], [(c, 1.5 * c)], A, deg=6)
    for a, b in log(nxt(1e-154), 1e-140, 5 + n // 4) + log(nxt(1e-140), 1e-20, 40):
        if n < 60: K.add(e, 1, [n, 'v0'], [(a, b)], A, deg=6)
def jy():
    J = Jobs(); K = Jobs()
    for n in ORD:
        J.add('e_Jn', 1, [n, 0.0], [], ['abs zero o0 %s - | #1e-15' % ('#1' if n == 0 else '#0')])
        tiny(J, K, 'e_Jn', n)
    items = [(n, a, b) for n in ORD for a, b in [(1e-12, 2e-12), (1e-6, 1.2e-6)] + log(1e-3, 1.5, 8) + lin(nxt(1.5), 100.0, 58) + big((150.0, 400.0, 1e3, 3e3, 1e4))]
    items = [i for i in items if n_ok(i[0], i[1])]
    for n, a, b, r in flat(par(_jn, items)):
        J.add('e_Jn', 1, [n, 'v0'], [(a, b)], ['abs acc o0 r0 - | %s' % C(tj(n, a) * max(1, a / 100))], refs=[r], deg=10)
    # relative accuracy below the turning point
    items = [(n, a, b) for n in ORD if 0 < n < 25 for a, b in log(1e-3, 0.1, 5 + n) + lin(nxt(0.1), 0.8 * n if n > 1 else 1.5, 3 + n // 2)]
    for n, a, b, r in flat(par(_jrel, items)):
        s = float(mpf(2)**n * mp.factorial(n))
        if a**n / s < 1e-280 or a**n < 1e-290: continue
        t = pw('v0', n) + ' r0 * %s /' % C(s)
        J.add('e_Jn', 1, [n, 'v0'], [(a, b)], ['abs rel o0 %s - | o0 abs %s *' % (t, C(tr(n)))], refs=[r], deg=10)
    items = [(n, a, b) for n in ORD for a, b in segs(1e-3, n, 100.0) + big((150.0, 400.0, 1e3, 3e3, 1e4)) if n < 25 or a > 0.5 * n * n]
    items = [i for i in items if i[0] < 2 or i[0] * math.log(2 / i[1]) + math.lgamma(i[0]) < 650]
    for n, a, b, r in flat(par(_yn, items)):
        J.add('e_Yn', 1, [n, 'v0'], [(a, b)], ['abs acc o0 r0 - | #1 r0 abs + %s *' % C((1e-11 if n < 15 else 1e-9) * max(1, a / 100))], refs=[r], deg=10)
    for a, b in log(1e-290, prv(1e-3), 40): # Y0 = 2/pi (ln(x/2) + gamma) (1 - x^2/4) + x^2/(2 pi); Y1 = -2/(pi x) + O(x ln x)
        L = 'v0 #0.5 * ln %s +' % C(float(mp.euler))
        J.add('e_Yn', 1, [0, 'v0'], [(a, b)], ['abs acc o0 %s #1 v0 v0 * #0.25 * - * v0 v0 * #0.25 * + %s * - | #1e-11 #1 o0 abs + *' % (L, C(float(2 / mp.pi)))], deg=8)
    for a, b in log(1e-300, prv(1e-3), 40): J.add('e_Yn', 1, [1, 'v0'], [(a, b)], ['abs acc o0 v0 * %s + | #1e-11 v0 v0 * v0 ln abs #1 + * + ' % C(float(2 / mp.pi))], deg=8)
    for n in ORD[2:]:
        c = float(mp.factorial(n - 1) / mp.pi)
        lo = 2 * math.exp(-(690 - math.lgamma(n)) / n)
        if lo < 1e-5:
            for a, b in log(lo, 1e-5, 6): J.add('e_Yn', 1, [n, 'v0'], [(a, b)], ['abs acc o0 v0 #0.5 * %s * %s + | %s' % (pw('dup', 1).replace('dup', '') , '', '') ] if 0 else ['abs acc o0 %s * %s + | %s' % (pw('v0 #0.5 *', n) if n < 4 else ' '.join(['v0 #0.5 *'] + ['v0 #0.5 * *'] * (n - 1)), C(c), C(c * 1e-9))], deg=8)
        ov = 2 * math.exp(-(712 - math.lgamma(n)) / n)
        for a, b in log(max(1e-300, ov * 1e-8), ov, 4): J.add('e_Yn', 1, [n, 'v0'], [(a, b)], ['is 0 ' + hx(-inf)], maxdepth=75, deg=6)
    J.save('C21'); K.save('C21t')

def _in(n, lo, hi):
    f = (lambda x: mp.hyp0f1(n + 1, x * x / 4)) if lo < 2 * n + 2 else (lambda x: mp.besseli(n, x) * mp.exp(-x) * mp.sqrt(x))
    return [(n, a, b, r, lo < 2 * n + 2) for a, b, r in adapt1(f, lo, hi, 12, lambda a, b: 2e-14 * float(abs(f(mid(a, b)))))]
def _kn(n, lo, hi):
    f = lambda x: mp.besselk(n, x) * mp.exp(x) * mp.sqrt(x)
    return [(n, a, b, r) for a, b, r in adapt1(f, lo, hi, 12, lambda a, b: 2e-14 * float(abs(f(mpf(b)))))]
def ik():
    J = Jobs(); K = Jobs()
    for n in ORD:
        J.add('e_In', 1, [n, 0.0], [], ['abs zero o0 %s - | #1e-15' % ('#1' if n == 0 else '#0')])
        tiny(J, K, 'e_In', n)
    xs = lin(nxt(0.1), 30.0, 30) + lin(nxt(30.0), 100.0, 20) + lin(nxt(100.0), 705.0, 30)
    for n, a, b, r, s in flat(par(_in, [(n, a, b) for n in ORD for a, b in log(1e-3, 0.1, 1 + n // 2) + xs])):
        sc = float(mpf(2)**n * mp.factorial(n))
        if s:
            if n and (a**n / sc < 1e-280 or a**n < 1e-290): continue
            t = (pw('v0', n) + ' r0 * %s /' % C(sc)) if n else 'r0'
        else: t = 'r0 v0 exp * v0 sqrt /'
        J.add('e_In', 1, [n, 'v0'], [(a, b)], ['abs rel o0 %s - | o0 abs #1e-12 *' % t], refs=[r], deg=10)
    for n, a, b, r in flat(par(_kn, [(n, a, b) for n in ORD for a, b in log(1e-3, 1.0, 12) + [(nxt(1.0), 2.0)] + xs[2:] if n < 60 or a > 1])):
        if r.coef[0] > 1e250: continue
        J.add('e_Kn', 1, [n, 'v0'], [(a, b)], ['abs rel o0 r0 v0 neg exp * v0 sqrt / - | o0 abs #1e-12 *'], refs=[r], deg=10)
    for a, b in log(1e-290, prv(1e-3), 40):
        L = 'v0 #0.5 * ln %s + neg' % C(float(mp.euler))
        J.add('e_Kn', 1, [0, 'v0'], [(a, b)], ['abs acc o0 %s #1 v0 v0 * #0.25 * + * v0 v0 * #0.25 * + - | #1e-11 o0 *' % L], deg=8)
    for a, b in log(1e-300, prv(1e-3), 40): J.add('e_Kn', 1, [1, 'v0'], [(a, b)], ['abs acc o0 v0 * #1 - | #1e-12 v0 v0 * v0 ln abs #1 + * + '], deg=8)
    for n in ORD[2:]:
        c = float(mp.factorial(n - 1) / 2)
        lo = 2 * math.exp(-(690 - math.lgamma(n)) / n)
        if lo < 1e-5:
            for a, b in log(lo, 1e-5, 6): J.add('e_Kn', 1, [n, 'v0'], [(a, b)], ['abs acc o0 %s * %s - | %s' % (' '.join(['v0 #0.5 *'] + ['v0 #0.5 * *'] * (n - 1)), C(c), C(c * 1e-9))], deg=8)
    J.save('C22'); K.save('C22t')
def parity():
    J = Jobs()
    # f(-x) = (-1)^n f(x): the value at -x against the reference at x
    for n in ORD:
        A = ['abs tiny o1 %s - | #1e-14' % ('#1' if n == 0 else '#0'), 'abs par o0 o1 %s | #2e-14' % ('-' if n % 2 == 0 else '+')]
        for e in ('e_Jn_pm', 'e_In_pm'):
            for c in (1e-310, 1e-200, 1e-154, 2e-153, 1e-150, 1e-147, 1e-120, 1e-90, 1e-40, 1e-20, 1e-15): J.add(e, 2, [n, 'v0'], [(c, 1.5 * c)], A, deg=6)
    def flip(r, s): return Ref(r.vars, r.deg, [(-c, h) for c, h in r.ch], r.err, [s * c * (-1)**i for i, c in enumerate(r.coef)])
    items = [(n, a, b) for n in ORD for a, b in [(1e-12, 2e-12), (1e-6, 1.2e-6)] + log(1e-3, 1.5, 6) + lin(nxt(1.5), 100.0, 58) + big((150.0, 400.0, 1e3, 3e3))]
    for n, a, b, r in flat(par(_jn, [i for i in items if n_ok(i[0], i[1])])):
        J.add('e_Jn', 1, [n, 'v0'], [(-b, -a)], ['abs neg o0 r0 - | %s' % C(tj(n, a) * max(1, a / 100))], refs=[flip(r, (-1)**n)], deg=10)
    xs = lin(nxt(0.1), 30.0, 30) + lin(nxt(30.0), 100.0, 20) + lin(nxt(100.0), 705.0, 30)
    for n, a, b, r, s in flat(par(_in, [(n, a, b) for n in ORD for a, b in log(1e-3, 0.1, 1 + n // 2) + xs])):
        sc = float(mpf(2)**n * mp.factorial(n))
        if s:
            if n and (a**n / sc < 1e-280 or a**n < 1e-290): continue
            t = (pw('v0', n) + ' r0 * %s /' % C(sc)) if n else 'r0'
        else: t = 'r0 v0 neg exp * v0 neg sqrt /' + (' neg' if n % 2 else '')
        J.add('e_In', 1, [n, 'v0'], [(-b, -a)], ['abs neg o0 %s - | o0 abs #1e-12 *' % t], refs=[flip(r, 1)], deg=10)
    J.save('C23')
for w in sys.argv[1:]: globals()[w]()
