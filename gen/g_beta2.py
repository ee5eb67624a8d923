import sys; from lib import *
# C13b: betai with parameters in the thousands (quadrature when both exceed 3000, continued fraction otherwise)
def ser(n, d, x): # 2F1(n, 1; d; x): positive terms, ratio below 1 from the start when x is below the mean
    t = s = mpf(1)
    eps = mpf(10)**-38
    while t > eps * s:
        t *= n / d * x; s += t; n += 1; d += 1
    return s
def I(a, b, x):
    a, b, x = mpf(a), mpf(b), mpf(x)
    if x > mpf(1) / 2: return 1 - I(b, a, 1 - x)
    return mp.exp(a * mp.log(x) + b * mp.log(1 - x) - mp.log(a) - (mp.loggamma(a) + mp.loggamma(b) - mp.loggamma(a + b))) * ser(a + b, a + 1, x)
PAIRS = [(2.0, 4000.0), (0.5, 4000.0), (4000.0, 2.0), (30.0, 4000.0), (4000.0, 30.0), (400.0, 3500.0), (1500.0, 1500.0), (2900.0, 2950.0), (2990.0, 9000.0), (3001.0, 3001.0), (4000.0, 4000.0), (3500.0, 5000.0), (6000.0, 3200.0), (1e4, 1e5)]
def line(a, b, lo, hi, up):
    f = (lambda x: 1 - I(a, b, x)) if up else (lambda x: I(a, b, x))
    with mp.workdps(45): return [(a, b, p, q, up, r) for p, q, r in adapt1(f, lo, hi, 10, lambda p, q: 1e-12 * float(f(0.5 * (p + q))))]
def go():
    J = Jobs(); it = []
    for a, b in PAIRS:
        mu = a / (a + b); s = math.sqrt(a * b / (a + b + 1)) / (a + b)
        lo, hi = max(mu - 6 * s, 0.05 * mu), min(mu + 6 * s, 1 - 0.05 * (1 - mu))
        it += [(a, b, p, q, False) for p, q in lin(lo, mu, 6)] + [(a, b, p, q, True) for p, q in lin(nxt(mu), hi, 6)]
    for rs in par(line, it):
        for a, b, p, q, up, r in rs:
            J.add('e_betai', 1, [a, b, 'v0'], [(p, q)], ['abs acc o0 #1 r0 - - | #2e-9' if up else 'abs acc o0 r0 - | #1e-8 r0 *'], refs=[r], deg=10)
            for x in ((p, q) if p == q else ()): pass
        a, b = rs[0][0], rs[0][1]
    J.save('C13b')
go()
