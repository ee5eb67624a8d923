from g_bessel import *
# C21b, C22b: orders above 100 (references by the stable upward recurrence from orders 0 and 1 at 60 digits)
def up(f, n, x, s):
    a, b = f(0, x), f(1, x)
    for k in range(1, n): a, b = b, 2 * k / x * b + s * a
    return b
def _kn(n, lo, hi):
    def f(x):
        with mp.workdps(50): return up(mp.besselk, n, x, 1) * mp.exp(x) * mp.sqrt(x)
    return [(n, a, b, r) for a, b, r in adapt1(f, lo, hi, 12, lambda a, b: 2e-14 * float(abs(f(mpf(b)))))]
def _yn(n, lo, hi):
    def f(x):
        with mp.workdps(50): return up(mp.bessely, n, x, -1)
    return [(n, a, b, r) for a, b, r in adapt1(f, lo, hi, 12, lambda a, b: 2e-14 * (1 + float(abs(f(mpf(b))))))]
def kn():
    J = Jobs()
    for n, a, b, r in flat(par(_kn, [(n, a, a + 0.5) for n, xs in ((130, (9., 20., 60., 120., 400.)), (150, (14., 30., 80., 200., 600.)), (200, (32., 100., 300.)), (257, (60., 120., 500.)), (300, (90., 200., 600.))) for a in xs])):
        if r.coef[0] > 1e250: continue
        J.add('e_Kn', 1, [n, 'v0'], [(a, b)], ['abs rel o0 r0 v0 neg exp * v0 sqrt / - | o0 abs #1e-12 *'], refs=[r], deg=10)
    J.save('C22b')
def yn():
    J = Jobs()
    it = [(n, a, b) for n in (25, 30, 50, 64, 100, 130, 150, 200, 257) for a, b in [(p, p + 0.3) for p in (0.6, 1.3, 2.1, 3.0, 4.5, 6.5, 9.0, 11.0, 13.5)]]
    it = [i for i in it if i[0] * math.log(2 / i[1]) + math.lgamma(i[0]) < 600]
    for n, a, b, r in flat(par(_yn, it)):
        J.add('e_Yn', 1, [n, 'v0'], [(a, b)], ['abs acc o0 r0 - | #1 r0 abs + #1e-9 *'], refs=[r], deg=10)
    J.save('C21b')
if __name__ == '__main__': kn(); yn()
