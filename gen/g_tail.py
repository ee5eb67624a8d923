from lib import *
# C10r: relative accuracy of the small one of P, Q in its tail, on lines of fixed a
def Q(a, x): return mp.gammainc(a, x, mp.inf, regularized=True)
def P(a, x): return mp.gammainc(a, 0, x, regularized=True)
def line(q, a, lo, hi):
    z = mpf(a); g = Q if q else P
    k = lambda x: mp.exp(x - z - z * mp.log(x / z))          # undoes the decay
    f = lambda x: g(z, x) * k(x)
    return [(q, a, u, v, r) for u, v, r in adapt1(f, lo, hi, 12, lambda u, v: 1e-11 * float(f(mpf(0.5 * (u + v)))))]
def go():
    J = Jobs(); it = []
    for a in (0.3, 1.0, 2.5, 7.0, 20.0, 50.0, 90.0, 99.9, 100.0, 110.0, 150.0, 200.0, 300.0, 450.0, 700.0, 1000.0):
        s = math.sqrt(a) + 1
        it += [(1, a, u, v) for u, v in lin(a + 1 * s, a + 13 * s, 24)]
        it += [(0, a, u, v) for u, v in lin(max(a - 8 * s, 0.3 * a), a - 1.0 * s, 16)] if a > 5 else []
    for rs in par(line, it):
        for q, a, u, v, r in rs:
            t = 'r0 #0 v0 - %s + v0 %s / ln %s * + exp *' % (C(a), C(a), C(a))
            if float(r.coef[0]) * math.exp(a - v + a * math.log(v / a)) < 1e-250: continue
            J.add('e_gammq' if q else 'e_gammp', 1, [a, 'v0'], [(u, v)], ['abs rel o0 %s - | o0 abs #1e-8 *' % t], refs=[r], deg=10)
    J.save('C10r')
go()
