import sys; from lib import *
# C11 invgammp; C14 invbetai (round trips and edge values)
inf, nan = math.inf, math.nan; MX = 1.7976931348623157e308; MN = 5e-324
PR = '5gammp 1\npromote 5betai 2'
def pgrid():
    lo = log(1e-8, 0.02, 5) + log(nxt(0.02), prv(0.5), 4)
    return lo + [(1 - b, 1 - nxt(a)) for a, b in reversed(log(0.02, 0.5, 4))] + [(1 - b, 1 - nxt(a)) for a, b in reversed(log(1e-8, 0.02, 5))]
def invg():
    J = Jobs()
    J.add('e_invgammp', 1, ['v0', 'v1'], [(-MX, 0.0), (MN, 1e300)], ['is 0 ' + hx(0.0)], id='p_le_0')
    J.add('e_invgammp', 1, [0.0, 'v0'], [(MN, 1e300)], ['is 0 ' + hx(0.0)], id='p_0')
    top = ['le0 lo #100 o0 - #1e-9 -', 'le0 lo2 v0 v0 sqrt #100 * + o0 - o0 #1e-6 * -', 'le0 hi o0 v0 v0 sqrt #100 * + #1e-6 #1 + * #100 + -']
    for p in (1.0, nxt(1.0), 1.5, 1e10, inf):
        for lo, hi in log(1e-12, 0.5, 10) + log(nxt(0.5), 1e6, 20): J.add('e_invgammp', 1, [p, 'v0'], [(lo, hi)], top, deg=6)
    for a in (1e-9, 0.3, 0.999, 1.0, 7.0, 150.0): J.add('e_invgammp', 1, ['v0', a], [(1.0, 1e307)], ['abs top o0 %s - | #1e-9' % C(max(100.0, a + 100 * math.sqrt(a)))])
    for p in (-1.0, 0.0, 0.5, 1.0, 2.0): J.add('e_invgammp', 1, [p, 'v0'], [(-1e307, -MN)], ['panic'], id='neg_a_%g' % p); J.add('e_invgammp', 1, [p, 0.0], [], ['panic'], id='zero_a_%g' % p); J.add('e_invgammp', 1, [p, nan], [], ['panic'], id='nan_a_%g' % p)
    def rt2(J, p, a): J.add('e_invgammp_rt', 2, ['v0', 'v1'], [p, a], ['abs rt o1 v0 - | v0 #1e-6 *'], deg=6, maxdepth=60, noise=1, promote=PR)
    def rt(p, a, args, box):
        J.add('e_invgammp_rt', 2, args, box, ['le0 pos o0 neg', 'abs rt o1 %s - | %s #1e-7 *' % (args[0] if isinstance(args[0], str) else C(p), args[0] if isinstance(args[0], str) else C(p)) if p < .5 else 'abs rt o1 %s - | #1e-8' % (args[0] if isinstance(args[0], str) else C(p))], deg=6, maxdepth=60, noise=1, promote=PR)
    for a in (0.05, 0.1, 0.2, 0.35, 0.5, 0.7, 0.9, 0.97, prv(1.0), 1.0, nxt(1.0), 1.01, 1.5, 2.0, 3.0, 5.0, 8.0, 12.0, 20.0, 40.0, 70.0, 99.0, prv(100.0), 100.0, 101.0, 150.0, 300.0, 700.0):
        for p in pgrid(): rt(p[0], a, ['v0', a], [p])
    for p in (1e-8, 1e-5, 1e-3, 0.03, 0.2, 0.45, prv(0.5), 0.5, 0.7, 0.9, 0.99, 0.9999, 1 - 1e-7):
        for a in log(0.05, 0.98, 12) + [(nxt(0.98), prv(1.0)), (nxt(1.0), 1.05)] + log(nxt(1.05), 50.0, 16) + log(nxt(50.0), prv(100.0), 4) + log(100.0, 300.0, 6):
            rt(p, a[0], [p, 'v0'], [a])
    J.save('C11'); J = Jobs()
    for a in [(nxt(1.0), 1.05)] + log(nxt(1.05), 12.0, 12):
        for p in pgrid()[3:-3]: rt2(J, p, a)
    J.save('C11t')
def invb():
    J = Jobs()
    for a, b in ((0.5, 0.5), (1.0, 3.0), (2.0, 0.3), (300.0, 4000.0)):
        J.add('e_invbetai', 1, ['v0', a, b], [(-MX, -MN)], ['is 0 ' + hx(0.0)]); J.add('e_invbetai', 1, ['v0', a, b], [(1.0, MX)], ['is 0 ' + hx(1.0)])
        J.add('e_invbetai', 1, [0.0, a, b], [], ['is 0 ' + hx(0.0)])
    prs = [(a, b) for a in (0.3, 0.5, 1.0, 1.3, 2.5, 8.0, 30.0, 120.0) for b in (0.3, 0.5, 1.0, 1.3, 2.5, 8.0, 30.0, 120.0)] + [(0.15, 5.0), (5.0, 0.15), (1.0, 100.0), (500.0, 2.0), (2.0, 500.0), (400.0, 400.0)]
    for a, b in prs:
        for p in pgrid():
            if b < 1 and (1 - p[1]) ** (1 / b) < 1e-8: continue # 1 - x would be below the resolution of x
            J.add('e_invbetai_rt', 2, ['v0', a, b], [p], ['le0 lo o0 neg', 'le0 hi o0 #1 -', 'abs rt o1 v0 - | v0 #1e-6 *' if p[1] < .5 else 'abs rt o1 v0 - | #1e-7'], deg=6, maxdepth=60, noise=1, promote=PR)
    # lines in a and in b
    for p in (0.01, 0.3, 0.9):
        for q in (0.6, 1.7, 12.0):
            for s in log(0.4, prv(1.0), 5) + [(1.0, 1.0)] + log(nxt(1.0), 60.0, 16):
                J.add('e_invbetai_rt', 2, [p, 'v0', q], [s], ['abs rt o1 %s - | #1e-7' % C(p)], deg=6, maxdepth=60, noise=1, promote=PR)
                J.add('e_invbetai_rt', 2, [p, q, 'v0'], [s], ['abs rt o1 %s - | #1e-7' % C(p)], deg=6, maxdepth=60, noise=1, promote=PR)
    J.save('C14')
for w in sys.argv[1:]: globals()[w]()
