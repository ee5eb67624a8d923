import sys; from lib import *
# C19 faddeeva never fails; C20 accuracy and symmetry.  w(z) = exp(-z^2) erfc(-iz)
inf, nan = math.inf, math.nan; MX = 1.7976931348623157e308; MN = 5e-324
SP = 2 / mp.sqrt(mp.pi)
def w(z):
    z = mp.mpc(z)
    if z.imag < 0: return 2 * mp.exp(-z * z) - w(-z)
    return mp.exp(-z * z) * mp.erfc(-1j * z)
def taylor(z0, n):
    c = [w(z0)]; c.append(-2 * z0 * c[0] + 2j / mp.sqrt(mp.pi))
    for k in range(1, n): c.append((-2 * z0 * c[k] - 2 * c[k - 1]) / (k + 1))
    return c
def wref(bx, tol):
    """real and imaginary part of w over a box as polynomials; tol: absolute"""
    ch = []
    for lo, hi in bx: c = 0.5 * (lo + hi); ch.append((c, max(hi - c, c - lo)))
    z0 = mp.mpc(ch[0][0], ch[1][0]); h0, h1 = mpf(ch[0][1]), mpf(ch[1][1])
    N = 60 if abs(z0) < 12 else 30
    with mp.workdps(60 + int(N * math.log10(2 + 2 * float(abs(z0))))): c = taylor(z0, N)
    r = mp.hypot(h0, h1)
    for deg in range(3, 12):
        t = sum(abs(c[k]) * r**k for k in range(deg + 1, N + 1))
        if t <= tol: break
    else: return None
    A = {}
    for k in range(deg + 1):
        for j in range(k + 1):
            v = c[k] * mp.binomial(k, j) * h0**(k - j) * (1j * h1)**j
            A[(k - j, j)] = v
    out = []
    for part in (lambda v: v.real, lambda v: v.imag):
        co = [float(part(A[e])) for e in exps2(deg)]
        out.append(Ref([0, 1], deg, ch, float(t) + sum(abs(x) for x in co) * 1.3e-16, co))
    return deg, out
def split(bx, tol):
    o = wref(bx, tol(bx))
    if o: return [(bx, o[0], o[1])]
    k = 0 if bx[0][1] - bx[0][0] > bx[1][1] - bx[1][0] else 1
    lo, hi = bx[k]; m = 0.5 * (lo + hi); r = []
    for part in ((lo, m), (nxt(m), hi)):
        b = list(bx); b[k] = part; r += split(tuple(b), tol)
    return r
flat = lambda rs: [x for r in rs for x in r]
UP = lambda bx: 3e-14 / (1 + math.hypot(bx[0][0], bx[1][0]))
def low(bx): return 3e-14 * (1 + math.exp(max(0, max(bx[1][0]**2, bx[1][1]**2) - min(bx[0][0]**2, bx[0][1]**2))))
def up(b): return split(b, UP)
def lo(b): return split(b, low)
def g7(k): return k / 7
T = '#2e-12'
def cell(i, j):
    x = (g7(i) if i else 0.0, prv(g7(i + 1))); y = (g7(j) if j else 0.0, prv(g7(j + 1)))
    if j == 0: y = (2e-8 * x[1], y[1])
    if i == 0: x = (2e-8 * y[1], x[1])
    return x, y
def acc():
    J = Jobs()
    bx = [cell(i, j) for i in range(49) for j in range(49) if i * i + j * j < 2401]
    s = 7.0
    while s < 1.2e4: # shells max(x,y) in [s, 1.35 s]
        e = 1.35 * s
        out = lin(nxt(s), e, 2); inn = lin(0.0, s, 6)
        for p in out:
            for q in inn + out:
                q = (max(q[0], 2e-8 * p[1]), q[1]); bx.append((p, q))
                if q[1] <= s: bx.append((q, p))
        s = e
    for b, deg, r in flat(par(up, [(b,) for b in bx])):
        m = 'r0 abs r1 abs + %s *' % T
        J.add('e_faddeeva_sym', 4, ['v0', 'v1'], b, ['abs re o0 r0 - | ' + m, 'abs im o1 r1 - | ' + m, 'abs symre o2 r0 - | ' + m, 'abs symim o3 r1 + | ' + m], refs=r, deg=deg, id='u%d' % J.n)
    print(J.n, flush=True)
    # huge |z|: w = i/(sqrt(pi) z) (1 + 1/(2 z^2))
    rr = '#1 v0 v0 * v1 v1 * + /'
    a = 'v0 v1 + v0 v1 - * %s dup * * #0.5 * #1 +' % rr; b2 = 'v0 v1 * %s dup * *' % rr
    re = 'v1 %s * v0 %s * + %s * %s *' % (a, b2, rr, C(float(SP / 2))); im = 'v0 %s * v1 %s * - %s * %s *' % (a, b2, rr, C(float(SP / 2)))
    for p in log(1.2e4, 2e4, 4) + [(c, 1.12 * c) for c in (1e5, 1e6, 6.7e7, 1e8, 1e12, 1e30, 1e70, 1e140)]:
        for f in ((1e-7, 0.1), (0.1, 0.25), (0.25, 0.4), (0.4, 0.6), (0.6, 0.8), (0.8, 1.0)):
            q = (p[0] * f[0], p[0] * f[1])
            for b in ((p, q), (q, p)):
                m = 'v0 v1 + #1e-11 * v0 v0 * v1 v1 * + /'
                J.add('e_faddeeva_sym', 4, ['v0', 'v1'], b, ['abs re o0 %s - | %s' % (re, m), 'abs im o1 %s - | %s' % (im, m), 'abs symre o2 %s - | %s' % (re, m), 'abs symim o3 %s + | %s' % (im, m)], deg=8, id='h%d' % J.n)
    print(J.n, flush=True)
    for p in ((30.0, 30.5), (100.0, 102.0), (1e3, 1.02e3), (1e6, 1.02e6), (1e9, 1.02e9), (1e20, 1.02e20), (1e60, 1.02e60)):
        for q in ((1e-300, 1e-290), (1e-100, 2e-100), (1e-20, 1.5e-20), (1e-9, 1.5e-9), (1e-3, 1.5e-3), (1.0, 1.5), (1e10, 1.5e10), (1e40, 1.5e40)):
            if q[1] > 1e-8 * p[0] or q[0] * p[0]**-2 < 1e-280: continue
            s_ = 'v0 v0 * /'; r_ = 'v1 v1 * /'; k = C(float(SP / 2))
            tt = '#%g' % (1e-11 + 4 / p[0]**4)
            J.add('e_faddeeva_sym', 4, ['v0', 'v1'], [p, q], ['abs re o0 v1 %s %s * #1 #1.5 %s + * - | v1 %s %s *' % (s_, k, s_, s_, tt), 'abs im o1 %s v0 / #1 #0.5 %s + * - | o1 %s *' % (k, s_, tt), 'abs symre o2 v1 %s %s * #1 #1.5 %s + * - | v1 %s %s *' % (s_, k, s_, s_, tt), 'abs symim o3 %s v0 / #1 #0.5 %s + * + | o1 %s *' % (k, s_, tt)], deg=8, id='ax%d' % J.n)
            J.add('e_faddeeva_sym', 4, ['v1', 'v0'], [p, q], ['abs im o1 v1 %s %s * #1 #1.5 %s - * - | v1 %s %s *' % (s_, k, s_, s_, tt), 'abs re o0 %s v0 / #1 #0.5 %s - * - | o0 %s *' % (k, s_, tt), 'abs symim o3 v1 %s %s * #1 #1.5 %s - * + | v1 %s %s *' % (s_, k, s_, s_, tt)], deg=8, id='ay%d' % J.n)
    # next to the axes
    F = lambda x: SP * mp.exp(-x * x) * mp.quad(lambda t: mp.exp(t * t), [0, x]) if x < 6 else w(mp.mpc(x, 0)).imag
    F = lambda x: w(mp.mpc(x, 0)).imag
    for lo_, hi, r in pieces1(F, log(1e-3, 1.0, 4) + lin(nxt(1.0), 26.9, 52), 9, lambda a, b: 1e-13):
        for y in ((1e-150, 1.5e-150), (1e-12, 1.5e-12)):
            for sg in (1, -1):
                b = ((lo_, hi), (y[0], min(y[1], 5e-9 * lo_)) if sg > 0 else (-min(y[1], 5e-9 * lo_), -y[0]))
                J.add('e_faddeeva_sym', 4, ['v0', 'v1'], b, ['abs re o0 v0 v0 * neg exp - | #2e-11', 'abs im o1 r0 - | r0 #1e-6 *', 'abs symre o2 v0 v0 * neg exp - | #2e-11', 'abs symim o3 r0 + | r0 #1e-6 *'], refs=[r], deg=9, id='rx%d' % J.n)
    E = lambda y: w(mp.mpc(0, y)).real
    for lo_, hi, r in pieces1(E, log(1e-3, 1.0, 4) + lin(nxt(1.0), 12.0, 22) + log(nxt(12.0), 100.0, 6), 9, lambda a, b: 1e-13 / (1 + b)):
        b = ((1e-9 * lo_, 5e-9 * lo_), (lo_, hi))
        r.vars = [1]
        i = 'v0 %s v1 r0 * - * #2 *' % C(float(SP / 2))
        J.add('e_faddeeva_sym', 4, ['v0', 'v1'], b, ['abs re o0 r0 - | r0 #2e-12 *', 'abs im o1 %s - | v0 #1e-11 *' % i, 'abs symre o2 r0 - | r0 #2e-12 *', 'abs symim o3 %s + | v0 #1e-11 *' % i], refs=[r], deg=9, id='ry%d' % J.n)
    lower(J)
    J.save('C20')
def lower(J):
    bx = [(x, (-y[1], -y[0])) for i in range(49) for j in range(28) if i * i + j * j < 2401 and (i + j) % 3 == 0 for x, y in [cell(i, j)]]
    for b, deg, r in flat(par(lo, [(b,) for b in bx])):
        m = 'r0 abs r1 abs + #2 + %s *' % T
        J.add('e_faddeeva_sym', 4, ['v0', 'v1'], b, ['abs re o0 r0 - | ' + m, 'abs im o1 r1 - | ' + m, 'abs symre o2 r0 - | ' + m, 'abs symim o3 r1 + | ' + m], refs=r, deg=deg, id='l%d' % J.n)
def fin():
    J = Jobs()
    A = lambda k: ['le0 rhi o%d #1.000001 -' % k, 'le0 rlo o%d neg #1.000001 -' % k]
    g = cuts(1e-4, prv(7.0), [k / 7 for k in range(1, 49)]) + cuts(7.0, 150.0, [8.0, 9.0, 10.5, 12.0, 14.0, 16.0, 19.0, 24.0, 30.0, 40.0, 60.0, 80.0])
    big = cuts(7.0, 150.0, [9.0, 12.0, 16.0, 24.0, 40.0, 80.0]) + log(nxt(150.0), 1e7, 12) + log(nxt(1e7), 1e9, 4)
    def ad(x, y):
        vs = []; ar = []
        for p in (x, y):
            if isinstance(p, tuple): ar.append('v%d' % len(vs)); vs.append(p)
            else: ar.append(p)
        up = (y[0] if isinstance(y, tuple) else y) >= 0
        J.add('e_faddeeva_sym', 4, ar, vs, A(0) + A(1) + A(2) + A(3) if up else [], deg=3, maxdepth=40)
    for x in g:
        for y in g: ad(x, y); ad(x, (-y[1], -y[0]))
    for k, x in enumerate(big):
        for y in big[max(0, k - 8):k + 9]: ad(x, y)
    # lines: one coordinate fixed and tiny or huge, and next to the axes
    ln = [(1e-300, 1e-200), (1e-20, 1e-12), (1e-8, 1e-4)] + g + big[6:] + [(c, 2 * c) for c in (1e12, 1e16, 1e30, 1e80, 1e150, 1e160, 1e200, 1e300)] + [(1e154, 1.3e154), (1.4e154, 2e154), (5e307, 8.9e307), (9e307, 1.7e308)]
    for c in (0.0, 1e-300, 1e-30, 1e-12, 1e-6, 1e-3, 0.5, 6.9, 30.0, 1e5, 1e20, 1e160, 1e300):
        for p in ln:
            if abs(c) < 1e-2 and 150 <= p[0] < 1e7: p = (p[0], p[0] + 2)
            if p[0] == c >= 1e160: continue
            ad(p, c); ad(c, p)
            if c and p[0] <= 9e307 / c <= p[1]: continue # the product overflows inside the box
            ad(p, -c); ad(c, (-p[1], -p[0]))
    sp = [0.0, -0.0, inf, -inf, nan, 1.0, -1.0, 1e-9, 1e300]
    for a in sp:
        for b in sp: J.add('e_faddeeva', 2, [a, b], [], ['is 0 ' + hx(nan), 'is 1 ' + hx(nan)] if math.isnan(a) and math.isnan(b) else [])
    J.save('C19')
for wd in sys.argv[1:]: globals()[wd]()
