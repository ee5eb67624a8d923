"""All properties: statement, anchors, and how each is decided.  gen/mk.py writes properties.jsonl and MANIFEST.json from this."""
ENGINE_ASSUMPTIONS = [
    'The encoded program is the LLVM IR rustc emits for /repo at opt-level 2 with panic=abort, overflow checks on and no fused multiply-add; every concrete run the engine makes is compared bit by bit with the natively compiled crate (coverage.encoding_validation).',
    'The libm functions the crate calls (exp, ln, sin, cos, pow) are assumed accurate to within the allowance of the engine (fpsym/src/tm.rs: 1 ulp for exp, ln, sin, cos and 2 ulp for pow).',
    'Floating-point rounding is carried as interval remainders of Taylor models over each box; the reference polynomials in data/ were computed with mpmath at 40 or more digits and carry their own error bound.',
    'A branch that only rounding noise decides is explored both ways, but a loop is not assumed to repeat the same noise-decided outcome more than three times in a row (once in C11 and C14).',
]
PROPS = {}
def P(id, title, statement, text, why, files, mech, technique=None, over=('inputs',), state=None, observe=None, **kw):
    PROPS[id] = dict(title=title, statement=statement, quantifier={'over': list(over), 'text': text}, why=why, files=files, mech=mech, state=state, observe=observe, technique=technique or ENG, **kw)
ENG = 'symbolic execution of the LLVM IR over input boxes (Taylor models), verdict by SMT (z3, QF_NRA), models replayed natively'
KANI = 'Kani/CBMC bounded model checking (SAT over all bit patterns), counterexamples replayed natively'
EXPL = ('Every job is one region (box) of inputs of the real function. The engine executes the compiled IR symbolically over the box, splitting where branches or '
        'accuracy need it; on each leaf the negated assertion over the computed expression is given to z3, and unsat means the assertion holds for every double in the leaf. '
        'A model is replayed on the natively built crate before it is reported.')
KEXPL = 'Kani compiles the real functions to a CBMC program in which all inputs are symbolic; the SAT verdict covers every bit pattern. Witness harnesses show the assumptions are satisfiable.'

P('C01', 'frexp decomposes every number exactly',
  'For every finite non-zero double x, frexp(x) returns (m, e) with 0.5 <= |m| < 1, the sign of x, and m * 2^e equal to x exactly, subnormals included. Zero gives (0, 0), and infinities and NaN are returned unchanged with exponent 0. ldexp undoes it: ldexp(frexp(x)) == x.',
  'all 2^64 bit patterns of x', 'The unit tests sample a handful of normal values; subnormals, the binade edges and non-finite values are not sampled.',
  ['src/utils.rs'], [('exponent/mantissa extraction', 'src/utils.rs: frexp'), ('subnormal scaling', 'src/utils.rs: frexp')], KANI,
  kani={'kind': 'utils', 'harnesses': ['frexp_all', 'roundtrip'], 'witnesses': ['witness_frexp'], 'timeout': 500}, explanation=KEXPL,
  bounds='none on the input (all bit patterns); recursion depth unwound 4 times, with unwinding assertions')
P('C02', 'ldexp scales by a power of two with correct rounding',
  'For every double x and every 32-bit k, ldexp(x, k) is x * 2^k rounded once to nearest-even: exact when representable, correctly rounded when the result is subnormal, signed zero on underflow and signed infinity on overflow. Zeros, infinities and NaN are returned unchanged.',
  'all 2^64 bit patterns of x and all 2^32 exponents', 'The tests use a few small exponents; overflow, underflow, subnormal rounding and extreme exponents are never reached.',
  ['src/utils.rs'], [('exponent field arithmetic', 'src/utils.rs: ldexp'), ('single rounding of subnormal results', 'src/utils.rs: ldexp')], KANI,
  kani={'kind': 'utils', 'harnesses': ['ldexp_all'], 'witnesses': ['witness_ldexp'], 'timeout': 600}, explanation=KEXPL,
  bounds='none on the inputs; recursion depth unwound 4 times, with unwinding assertions')
P('C03', 'sign combines magnitude and sign for every operand',
  'For every pair of doubles, sign(a, b) has exactly the magnitude bits of a and the sign bit of b, including zeros of either sign, infinities, and a NaN b. A NaN a gives NaN.',
  'all pairs of bit patterns', 'The tests use a few ordinary values; negative zero, infinities and NaN as second operand are not covered.',
  ['src/utils.rs'], [('sign-bit test', 'src/utils.rs: sign')], KANI,
  kani={'kind': 'utils', 'harnesses': ['sign_all'], 'witnesses': ['witness_sign'], 'timeout': 200}, explanation=KEXPL, bounds='none')
P('C04', 'gamma and factorial: special values, signs, overflow',
  'gamma gives NaN for NaN, -inf and the negative integers, +inf at +0, +inf and everywhere above 171.6243769563027, -inf at -0, and finite values below that threshold; factorial(n) and gamma(n+1) equal n! to a relative 2e-15 for n <= 170 and factorial is +inf for larger n. Between consecutive negative integers gamma has the sign (-1)^k, and below -170 its magnitude is at most 1e-290.',
  'every double in the named regions; negative integers -1..-199 and a sample of powers of two up to 2^1022; n up to 170 (and some above)',
  'Tests check a dozen points; the sign and overflow claims range over intervals.',
  ['src/gamma.rs', 'src/utils.rs'], [('special-case ladder', 'src/gamma.rs: gamma'), ('rectangular splitting', 'src/utils.rs: rising_factorial')],
  jobs=['C04'], explanation=EXPL, bounds='sign: (-170,0) away from the integers themselves; magnitude: (-400,-170)', secs=300)
P('C05', 'gamma is accurate on its whole finite range',
  'For every double z in [-168.5, 171.6243] that is not zero or a negative integer (|z| >= 1e-300), gamma(z) is within a relative 1e-14 of the mathematical Gamma function when |z| <= 20 and within a relative 5e-14 elsewhere.',
  'every double in the interval', 'Tests compare a few dozen values; an error confined to one branch, one coefficient or the vicinity of one pole is invisible to them.',
  ['src/gamma.rs'], [('Lanczos approximation and recurrences', 'src/gamma.rs: gamma, gamma_approx'), ('reflection', 'src/gamma.rs: gamma')],
  jobs=['C05'], explanation=EXPL, bounds='z in [-168.5, 171.6243], |z| >= 1e-300', secs=400)
P('C06', 'ln_gamma is accurate for every positive argument',
  'For every z in [1e-300, 1e100], ln_gamma(z) is within 1e-9 + 1e-14 * |ln Gamma(z)| of the mathematical value.',
  'every double in the interval', 'Tests check a few arguments of ordinary size; tiny and huge arguments are not sampled.',
  ['src/gamma.rs'], [('Lanczos series', 'src/gamma.rs: ln_gamma')],
  jobs=['C06'], explanation=EXPL, bounds='z in [1e-300, 1e100]', secs=300)

P('C07', 'gammp and gammq: documented panics and edge values',
  'gammp(a, x) and gammq(a, x) panic for every x < 0, every a <= 0 and every NaN argument, and for x = 0 (either sign) and every a > 0 gammp is exactly 0 and gammq exactly 1.',
  'all finite doubles in each region, a and x independent', 'Tests call one or two bad arguments; a guard weakened for part of the range is not seen.',
  ['src/gamma.rs'], [('argument guards', 'src/gamma.rs: gammp, gammq')],
  jobs=['C07'], explanation=EXPL, bounds='every finite double; NaN as listed points', secs=120)
P('C08', 'gammp and gammq stay within [0, 1] and reach 0 and 1 in the far tail',
  'For every a in [0.01, 1000] and every x from 1e-3*a (1e-6 for a < 1) upwards, gammp and gammq are neither NaN nor outside [0, 1]. For x >= 1.001*(a + 20*(sqrt(a)+1)) (a up to 1e15, x up to 1e300) gammp is exactly 1 and gammq exactly 0.',
  'every pair (a, x) in the region', 'Tests sample a grid at ordinary arguments; values just outside [0,1] appear only where rounding or the three algorithms meet.',
  ['src/gamma.rs'], [('series, continued fraction and quadrature', 'src/gamma.rs: gser, gcf, gammpapprox'), ('clamping', 'src/gamma.rs: gammp, gammq')],
  jobs=['C08'], explanation=EXPL, bounds='a in [0.01, 1000] (tail: to 1e15), x as stated', secs=300)
P('C09', 'gammp and gammq are complementary',
  'For every a in [0.01, 1000] and every x from 1e-3*a (1e-6 for a < 1) to beyond the far tail, |gammp(a,x) + gammq(a,x) - 1| <= 1e-8.',
  'every pair (a, x) in the region', 'The two functions switch algorithm at different places, so the sum has to be right on both sides of each switch for all a, not at the sampled points.',
  ['src/gamma.rs'], [('algorithm selection', 'src/gamma.rs: gammp, gammq'), ('quadrature of the tails', 'src/gamma.rs: gammpapprox')],
  jobs=['C09'], explanation=EXPL, bounds='a in [0.01, 1000], x to a + 20(sqrt(a)+1)', secs=500)
P('C10', 'gammp and gammq are accurate across their three algorithms',
  'For a in [0.05, 300] and x from 0.35*a (1e-3 for a < 10) to 1.001*(a + 20*(sqrt(a)+1)), |gammp(a,x) - P(a,x)| <= 1e-9*P (plus 1e-15 for a >= 100) and |gammq(a,x) - Q(a,x)| <= 2e-9*Q + 2e-13, where P and Q are the regularized incomplete gamma functions. In the tails (on 16 lines of fixed a from 0.3 to 1000) the smaller of the two has a relative error of at most 1e-8, down to 1e-250.',
  'every pair of doubles in 4779 boxes of the (a, x) region (quick), 5122 boxes (thorough)', 'Tests compare a grid of ordinary arguments; an error confined to one of series, continued fraction and quadrature, or to the seam between two of them, is missed.',
  ['src/gamma.rs'], [('series', 'src/gamma.rs: gser'), ('continued fraction', 'src/gamma.rs: gcf'), ('Gauss-Legendre quadrature', 'src/gamma.rs: gammpapprox'), ('choice of algorithm', 'src/gamma.rs: gammp, gammq')],
  jobs=['C10', 'C10r'], jobs_thorough=['C10u', 'C10t'], explanation=EXPL, bounds='the boxes of data/C10.jobs.gz; thorough: also data/C10u and a in (300, 1000]', secs=560)
P('C11', 'invgammp inverts gammp',
  'For a > 0, gammp(a, invgammp(p, a)) equals p to within 1e-7*p for p in [1e-8, 0.5) and 1e-8 for p in [0.5, 1-1e-8]. invgammp is 0 for p <= 0 and max(100, a + 100*sqrt(a)) for p >= 1, and panics for a <= 0 and NaN a.',
  'p over the whole interval for 28 values of a from 0.05 to 700, and a over [0.05, 300] for 13 values of p (thorough: also both at once)',
  'Newton iteration from a guessed start: convergence depends on the pair (p, a), and a failure shows only where the start is poor; tests take a few pairs.',
  ['src/gamma.rs'], [('starting values for a > 1 and a <= 1', 'src/gamma.rs: invgammp'), ('Halley iteration', 'src/gamma.rs: invgammp')],
  jobs=['C11'], jobs_thorough=['C11t'], explanation=EXPL, bounds='lines in p and in a as listed in gen/g_inv.py; thorough tier: boxes in (p, a), a in (1, 12], tolerance 1e-6*p', secs=600)
P('C12', 'beta is accurate and symmetric, and rejects bad arguments',
  'For z, w in [0.01, 20], and for either argument one of 22 values from 1e-8 to 1e6 with the other in [1e-10, 1e4], beta(z, w) is within a relative 5e-9 of Gamma(z)Gamma(w)/Gamma(z+w) (5e-10 on the lines with both at most 400, 3e-8 up to 3e4, 1e-6 up to 1e6) and beta(w, z) agrees with it to the same bound. It panics for every non-positive or NaN argument.',
  'every pair in the box and on the lines, wherever the value exceeds exp(-680)', 'Tests check a dozen pairs.',
  ['src/beta.rs', 'src/gamma.rs'], [('log-gamma combination', 'src/beta.rs: beta'), ('argument guard', 'src/beta.rs: beta')],
  jobs=['C12'], explanation=EXPL, bounds='box [0.01,20]^2 and 22 lines each way', secs=300)
P('C13', 'betai is accurate and rejects bad arguments',
  'betai(a, b, x) is within 2e-9 relative of I_x(a,b) below the mean a/(a+b) (for 0.05 <= x <= 0.95) and within an absolute 2e-9 above it: on lines in x for each pair of parameters from 0.1 to 700, on lines in each parameter over [0.1, 60], and (to 2e-8) on boxes in one parameter and x. For 14 pairs with a parameter from 1500 to 1e5 the same holds (1e-8 relative, 2e-9 absolute) within 6 standard deviations of the mean. It is 0 at x = 0 and 1 at x = 1, and panics for every a <= 0, b <= 0, x < 0, x > 1 and NaN.',
  'every double in x over [1e-6, 1-1e-6] for 144 pairs (a, b); each of a, b over [0.1, 60] for 32 combinations of the others; boxes in (a, x) and (b, x) over [0.3, 30] x [0.05, 0.95]', 'Tests take a few triples; errors near the switch of the continued fraction, in its convergence or in the tails are not sampled.',
  ['src/beta.rs'], [('continued fraction', 'src/beta.rs: betacf'), ('switch to the mirrored fraction', 'src/beta.rs: betai'), ('argument guards', 'src/beta.rs: betai')],
  jobs=['C13', 'C13b'], jobs_thorough=['C13t'], explanation=EXPL, bounds='parameters at most 700 (up to 1e5 on the pairs of gen/g_beta2.py); tails below exp(-60) and regions where x^a (1-x)^b underflows left out', secs=520)
P('C14', 'invbetai inverts betai',
  'For a, b > 0 the result x of invbetai(p, a, b) is in [0, 1] and betai(a, b, x) equals p to within 1e-6*p for p in [1e-8, 0.5) and 1e-7 for p in [0.5, 1-1e-8]; the result is 0 for p <= 0 and 1 for p >= 1.',
  'p over the whole interval for 70 pairs (a, b) from 0.15 to 500, and each of a and b over [0.4, 60] for 9 combinations of the others (pairs whose upper quantile is within 1e-8 of 1 with b < 1 left out, since x cannot resolve them)',
  'Convergence depends on the triple; tests take a few.',
  ['src/beta.rs'], [('starting values', 'src/beta.rs: invbetai'), ('Halley iteration and its bounds', 'src/beta.rs: invbetai')],
  jobs=['C14'], explanation=EXPL, bounds='lines as listed in gen/g_inv.py', secs=600)
P('C15', 'erf and erfc are accurate on the whole real line',
  'For every double x, erf(x) and erfc(x) are within an absolute 3e-14 of the mathematical values, with NaN for NaN and the exact limits at the infinities; for x in (0, 26] erfc has a relative error of at most 5e-13, and beyond 26 it stays in [0, 1e-290].',
  'every double', 'Tests compare a table of points; an error in one Chebyshev coefficient or at one branch can be missed between them.',
  ['src/error.rs'], [('Chebyshev fit', 'src/error.rs: erfccheb'), ('sign handling', 'src/error.rs: erf, erfc')],
  jobs=['C15'], explanation=EXPL, bounds='none beyond the stated domain', secs=200)
P('C16', 'erfcx is accurate on the whole real line',
  'For x from 0 to 1e300, erfcx(x) has a relative error of at most 5e-15; for x in [-7, 0) 2e-13 and in [-26.6, -7) 1e-12; below -26.65 it is +inf. erfcx(+-0) = 1, erfcx(inf) = 0, erfcx(-inf) = inf, and NaN gives NaN.',
  'every double in each region', 'erfcx is a table of 100 polynomials plus asymptotic forms: each polynomial is a separate piece of code and the tests touch few of them.',
  ['src/error.rs'], [('piecewise polynomials', 'src/error.rs: cheb_interpolant'), ('asymptotic forms and reflection', 'src/error.rs: erfcx')],
  jobs=['C16'], explanation=EXPL, bounds='x <= 1e300', secs=200)
P('C17', 'inverf and inverfc invert erf and erfc',
  'inverfc(p) is within 2e-13*(1+|x|) of the exact inverse x for p in [1e-290, 1], and within that plus 1e-15*exp(x^2) for p in (1, 2-1e-12); inverf(p) is within 2e-13*(1+|x|) for p in [-0.7, 1-1e-14], and within that plus 1e-15*exp(x^2) down to -1+1e-12. Outside the open domain the results are exactly +-100 (100 for inverfc(p <= 0), -100 for p >= 2).',
  'every double in each region', 'Tests check a few round trips; the number of Halley steps needed and the quality of the starting value vary along p.',
  ['src/error.rs'], [('rational start and Halley steps', 'src/error.rs: inverfc'), ('argument mapping', 'src/error.rs: inverf')],
  jobs=['C17'], explanation=EXPL, bounds='p as stated', secs=200)
P('C18', 'dawson is accurate at every magnitude',
  'dawson(x) has a relative error of at most 1e-6 for |x| in [1e-300, 200], in the four lattice cells that follow each of 250, 400, 700, 1e3, 3e3, 1e4, 1e5, 1e6 and 1e7-4, and for |x| in (1e7, 1e300]; dawson(0) = 0, dawson(+-inf) = 0 and NaN gives NaN.',
  'every double in the regions, both signs', 'The Rybicki sum picks its lattice point from x; errors tied to one parity or to large x are outside the tests, which stop at small arguments.',
  ['src/dawson.rs'], [('Rybicki sum', 'src/dawson.rs: dawson'), ('series near zero and asymptotic form', 'src/dawson.rs: dawson')],
  jobs=['C18'], explanation=EXPL, bounds='|x| <= 200, slices up to 1e7, everything beyond', secs=200)
P('C19', 'faddeeva never panics and is bounded on the closed upper half plane',
  'faddeeva(x, y) returns without panicking for every x, y, and for y >= 0 both components are finite and at most 1.000001 in magnitude, for either sign of x.',
  'every pair of doubles with |x|, |y| in [1e-4, 150], pairs up to 1e9 of comparable size, and lines with one coordinate fixed (0 and from 1e-300 to 1e300) and the other up to 1.7e308; NaN and infinities as listed points', 'Tests use a table of points; table indexing, overflow of products and the seams between the seven regions need particular arguments.',
  ['src/faddeeva.rs'], [('tile index', 'src/faddeeva.rs: i_tile, TILES'), ('scaling for large arguments', 'src/faddeeva.rs: faddeeva, z_sqared > 4.8e15'), ('near-axis cases', 'src/faddeeva.rs: faddeeva')],
  jobs=['C19'], explanation=EXPL, bounds='boxes and lines as in gen/g_fad.py: fin', secs=420)
P('C20', 'faddeeva is accurate and symmetric',
  'For y > 0, x > 0 each component of faddeeva(x, y) is within 2e-12*(|Re w| + |Im w|) of w(z) = exp(-z^2) erfc(-iz), and faddeeva(-x, y) is its complex conjugate to the same bound; for -4 <= y < 0 within 2e-12*(2 + |Re w| + |Im w|). Within a relative 5e-9 of the real axis (|x| <= 26.9) the imaginary part is within a relative 1e-6; far out along either axis both components are accurate to a relative 1e-11 + 4/|z|^4.',
  'every pair in 4000 boxes covering 0 < x, y <= 12000 (2e-8 away from the axes), strips along the axes, a third of the Taylor tiles with y < 0, and slices up to 1e140', 'The upper half plane is covered by about 60 separate Taylor tables plus seven formulas; a single wrong coefficient or seam affects a region of size 1/7 that tests need not hit.',
  ['src/faddeeva.rs'], [('Taylor tables', 'src/faddeeva.rs: TAYLOR_COEFFS, TILES'), ('Maclaurin series', 'src/faddeeva.rs: faddeeva, z_sqared < 0.053'), ('large-argument expansions', 'src/faddeeva.rs: faddeeva, z_sqared >= 49'), ('reflections', 'src/faddeeva.rs: faddeeva')],
  jobs=['C20'], explanation=EXPL, bounds='boxes of gen/g_fad.py: acc, lower', secs=520)
P('C21', 'Jn and Yn are accurate at every order and size of argument',
  'For orders 0..8, 10, 12, 15, 20, 30, 50 and 100: |Jn(n,x) - J_n(x)| <= 1e-13*max(1, x/100) for x > 4n or n < 3 (1e-12 for n < 7, 1e-11 for n < 9, 1e-10 for n < 13, 1e-9 for n < 16, 1e-7 above), with relative error 1e-12 (n<3), 1e-11 (n<6), 1e-9 (n<13), 1e-7 for 1e-3 <= x <= 0.8n and 0 < n < 25; |Yn(n,x) - Y_n(x)| <= 1e-11*(1+|Y_n|)*max(1, x/100) (1e-9 for n >= 15); tiny arguments give the limiting forms, and Yn is -inf where it overflows.',
  'every double x in [1e-3, 100], two-wide slices at 150, 400, 1e3, 3e3 and 1e4, and slices down to 1e-300, for 16 orders (n >= 25: x > 4n+30 for Jn)', 'Tests use small orders and arguments; the three regimes (upward recurrence, Miller, rescaling) switch on n and x.',
  ['src/bessel.rs'], [('rational approximations', 'src/bessel.rs: J0, J1, Y0, Y1'), ('upward recurrence and Miller algorithm', 'src/bessel.rs: Jn'), ('upward recurrence', 'src/bessel.rs: Yn')],
  jobs=['C21', 'C21b'], jobs_thorough=['C21t'], explanation=EXPL, bounds='orders and arguments as listed, and slices of Yn for nine orders from 25 to 257 with x in [0.6, 13.8]; Jn for n >= 25 near and below the turning point left out', secs=520)
P('C22', 'In and Kn are accurate at every order and size of argument',
  'For orders 0..8, 10, 12, 15, 20, 30, 50 and 100 and x in [1e-3, 705], In(n,x) and Kn(n,x) have a relative error of at most 1e-12 wherever the value lies between 1e-280 and 1e250; tiny arguments give the limiting forms (K0 to 1e-11, Kn to 1e-9), and In(n, 0) is 1 for n = 0 and 0 otherwise.',
  'every double x in the listed boxes for 16 orders', 'Tests use small orders; the Miller recurrence of In depends on n and x jointly.',
  ['src/bessel.rs'], [('polynomial approximations', 'src/bessel.rs: I0, I1, K0, K1'), ('Miller algorithm', 'src/bessel.rs: In'), ('upward recurrence', 'src/bessel.rs: Kn')],
  jobs=['C22', 'C22b'], jobs_thorough=['C22u', 'C22t'], explanation=EXPL, bounds='orders listed, and slices of Kn for orders 130, 150, 200, 257 and 300; boxes of data/C22.jobs.gz and C22b (thorough: also C22u)', secs=520)
P('C23', 'Jn and In have the parity of their order',
  'Jn(n, -x) = (-1)^n Jn(n, x) and In(n, -x) = (-1)^n In(n, x): at negative arguments both meet the error bounds stated for C21 and C22 against the reflected reference, and for |x| <= 1e-15 both signs agree to 2e-14 with the limiting form.',
  'every double x in [-100, -1e-3] and slices to -3000 (Jn), [-705, -1e-3] (In), and slices down to 1e-310, for 16 orders', 'Negative arguments appear in few tests and only for low orders.',
  ['src/bessel.rs'], [('sign handling', 'src/bessel.rs: J1, Jn, I1, In')],
  jobs=['C23'], jobs_thorough=['C23t'], explanation=EXPL, bounds='orders and arguments as in gen/g_bessel.py: parity', secs=520)
P('C24', 'besseljy is accurate at real order and rejects bad arguments',
  'besseljy(nu, x) = (J, Y, J\', Y\'): J is within an absolute 1e-9 of J_nu(x) and Y within 1e-9*(1+|Y|), the derivatives within 1e-8 and 1e-8*(1+|Y\'|), for 20 orders from 0 to 30.6 and x in [1e-2, 24], and for 11 arguments and the order over [0, 11]; for x below 0.8*nu (or 1) J has a relative error of at most 1e-10. It panics for every x <= 0 and every nu < 0.',
  'every double x (order fixed) or every double order (x fixed) in the boxes of data/C24.jobs.gz', 'Tests take a few pairs; the two continued fractions, the Temme series and the two recurrences each serve their own region of (nu, x), and an early stop depends on single values.',
  ['src/bessel.rs'], [('Steed continued fractions CF1 and CF2', 'src/bessel.rs: besseljy'), ('Temme series for small x', 'src/bessel.rs: besseljy'), ('recurrence down to mu and up to nu', 'src/bessel.rs: besseljy'), ('argument guard', 'src/bessel.rs: besseljy')],
  jobs=['C24'], explanation=EXPL, bounds='boxes of data/C24.jobs.gz: lines as in gen/g_nu.py without the neighbourhoods of the zeros of J_nu, J_mu, Y_mu (where the method divides by them) and, along the order, of multiples of 1/4', secs=520)
P('C25', 'besselik is accurate at real order and rejects bad arguments',
  'besselik(nu, x) = (I, K, I\', K\') with each of the four within a relative 1e-11 (1e-9 for nu > 12 and x < 0.05), for 20 orders from 0 to 30.6 and x in [1e-2, 40] and slices at 60, 200 and 600, and for 11 arguments with the order over [0, 11]. It panics for every x <= 0 and every nu < 0.',
  'every double x (order fixed) or every double order (x fixed) on the lines', 'Tests take a few pairs; continued fractions, Temme series and recurrences depend on order and argument jointly.',
  ['src/bessel.rs'], [('continued fractions', 'src/bessel.rs: besselik'), ('Temme series for small x', 'src/bessel.rs: besselik'), ('recurrences', 'src/bessel.rs: besselik'), ('argument guard', 'src/bessel.rs: besselik')],
  jobs=['C25'], explanation=EXPL, bounds='lines as in gen/g_nu.py; along the order, 2e-3 around multiples of 1/2 left out (the orders themselves are on the other lines)', secs=300)
P('C26', 'Bessel caches never change an answer, whatever the history',
  'Through every sequence of calls and maintenance operations (clear, retain, reserve, shrink_to_fit, clone), a caching object returns for each argument pair exactly the bits the uncached function returns for that pair, and never an entry of another pair. contains, get, len and is_empty report exactly the distinct pairs computed and not removed since.',
  'histories of up to five evaluations over three symbolic argument pairs (equal or different in any bit), with any maintenance operation between, for all four caches',
  'Tests call each cache with one or two fixed pairs; collisions between keys, stale entries after maintenance and mixed-up entries need particular histories.',
  ['src/bessel.rs'], [('lookup keyed by the exact bits of both arguments', 'src/bessel.rs: CachedBesselJY::besseljy and its three siblings'), ('convenience functions', 'src/bessel.rs: impl_cached_bessel_convenience_functions')], KANI,
  over=('histories', 'inputs'), state=[{'name': 'map', 'meaning': 'argument bits -> function values', 'where': 'src/bessel.rs: CachedBesselJY(HashMap)'}],
  kani={'kind': 'cache', 'harnesses': ['cache_jy', 'cache_ik', 'cache_jnuynu', 'cache_inuknu'], 'witnesses': ['witness_jy', 'witness_ik', 'witness_jnuynu', 'witness_inuknu'], 'timeout': 700}, explanation=KEXPL,
  bounds='at most 3 distinct argument pairs, 5 evaluations, one maintenance operation; 0 <= nu < 64, 0.5 <= x < 128 for evaluations (so that counterexamples can be replayed); contains and get with any two bit patterns',
  assumptions=['std::collections::HashMap is replaced by a bounded linear-search model with the same interface (kani/src/vmap.rs)', 'besseljy and besselik are replaced by an injective function of their argument bits'])
P('C27', 'Jnu_Ynu and Inu_Knu are the values besseljy and besselik return',
  'For every order nu and argument x for which besseljy (besselik) returns, Jnu_Ynu (Inu_Knu) returns bit for bit its first two components, in that order.',
  'all nu in [0, 1000) and x in (0, 1e4)', 'The tests compare a few pairs to a tolerance; a special case for particular arguments or a swapped component where values nearly agree goes unseen.',
  ['src/bessel.rs'], [('projection', 'src/bessel.rs: Jnu_Ynu, Inu_Knu')], KANI,
  kani={'kind': 'cache', 'harnesses': ['proj_jy', 'proj_ik'], 'witnesses': ['witness_proj'], 'timeout': 300}, explanation=KEXPL, bounds='nu in [0,1000), x in (0,1e4)',
  assumptions=['besseljy and besselik are replaced by an injective function of their argument bits'])
