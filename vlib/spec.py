"""Evaluates the assertions of a job on concrete inputs and outputs with mpmath (used to confirm a counterexample on
the native build; independent of the engine's own evaluation)."""
import struct, math
import mpmath as mp
from mpmath import mpf
mp.mp.dps = 50
def b2f(b): return struct.unpack('<d', struct.pack('<Q', b))[0]
def f2b(x): return struct.unpack('<Q', struct.pack('<d', x))[0]

class Job:
    def __init__(s): s.id = ''; s.entry = ''; s.nout = 1; s.args = []; s.box = []; s.refs = []; s.asserts = []

def parse(text, only=None):
    jobs = {}; j = None
    for l in text.split('\n'):
        w = l.split()
        if not w: continue
        if w[0] == 'job':
            j = Job(); j.id = w[1]
            if only is None or w[1] in only: jobs[w[1]] = j
        elif w[0] == 'entry': j.entry, j.nout = w[1], int(w[2])
        elif w[0] == 'arg': j.args = w[1:]
        elif w[0] == 'ref': j.refs.append(w[1:])
        elif w[0] in ('abs', 'le0', 'is', 'panic'): j.asserts.append(w)
    return jobs

def exps(nv, deg):
    if nv == 1: return [(d,) for d in range(deg + 1)]
    if nv == 2: return [(i, d - i) for d in range(deg + 1) for i in range(d, -1, -1)]
    r = []
    for d in range(deg + 1):
        for i in range(d, -1, -1):
            for k in range(d - i, -1, -1): r.append((i, k, d - i - k))
    return r

def ref_val(w, vs):
    nv = int(w[0]); vi = [int(t) for t in w[1:1 + nv]]; deg = int(w[1 + nv]); p = 2 + nv
    ch = []
    for _ in range(nv): ch.append((mpf(b2f(int(w[p], 16))), mpf(b2f(int(w[p + 1], 16))))); p += 2
    err = mpf(b2f(int(w[p], 16))); p += 1
    t = [(mpf(vs[v]) - c) / h for v, (c, h) in zip(vi, ch)]
    s = mpf(0)
    for c, e in zip(w[p:], exps(nv, deg)):
        m = mpf(b2f(int(c, 16)))
        for x, k in zip(t, e): m *= x ** k
        s += m
    return (s - err, s + err)

iv = mp.iv
def rpn(tok, outs, vs, refs):
    iv.dps = 50
    st = []
    for t in tok:
        if t[0] == 'o' and t[1:].isdigit(): st.append(iv.mpf(mpf(outs[int(t[1:])])))
        elif t[0] == 'v' and t[1:].isdigit(): st.append(iv.mpf(mpf(vs[int(t[1:])])))
        elif t[0] == 'r' and t[1:].isdigit(): a, b = refs[int(t[1:])]; st.append(iv.mpf([a, b]))
        elif t[0] == '=': st.append(iv.mpf(mpf(b2f(int(t[1:], 16)))))
        elif t[0] == '#': st.append(iv.mpf(mpf(float(t[1:]))))
        elif t in '+-*/': b = st.pop(); a = st.pop(); st.append(a + b if t == '+' else a - b if t == '-' else a * b if t == '*' else a / b)
        elif t == 'neg': st.append(-st.pop())
        elif t == 'dup': st.append(st[-1])
        elif t == 'exp': st.append(iv.exp(st.pop()))
        elif t == 'ln': st.append(iv.log(st.pop()))
        elif t == 'sqrt': st.append(iv.sqrt(st.pop()))
        elif t == 'sin': st.append(iv.sin(st.pop()))
        elif t == 'cos': st.append(iv.cos(st.pop()))
        elif t == 'abs': st.append(abs(st.pop()))
        elif t == 'mig': st.append(abs(st.pop()))
        else: raise ValueError(t)
    return st.pop()

def violated(job, argbits, outs):
    """name of a violated assertion for native outputs `outs` (None = panic), or None"""
    vs = []
    for a, b in zip(job.args, argbits):
        if a[0] == 'v' and a[1:].isdigit():
            k = int(a[1:])
            while len(vs) <= k: vs.append(None)
            vs[k] = b2f(b)
    wants_panic = any(w[0] == 'panic' for w in job.asserts)
    if outs is None: return None if wants_panic else 'panics'
    if wants_panic: return 'does not panic'
    refs = None
    for w in job.asserts:
        if w[0] == 'is':
            if int(w[2], 16) == 0 and outs[int(w[1])] == 0: continue
            if f2b(outs[int(w[1])]) != int(w[2], 16) and not (math.isnan(outs[int(w[1])]) and math.isnan(b2f(int(w[2], 16)))): return 'out%s is not %r' % (w[1], b2f(int(w[2], 16)))
            continue
        if any(math.isnan(o) or math.isinf(o) for o in outs):
            used = [t for t in w if t[0] == 'o' and t[1:].isdigit()]
            if any(math.isnan(outs[int(t[1:])]) or math.isinf(outs[int(t[1:])]) for t in used): return w[1] + ' (not finite)'
        if refs is None: refs = [ref_val(r, vs) for r in job.refs]
        if w[0] == 'le0':
            v = rpn(w[2:], outs, vs, refs)
            if v.a > 0: return w[1]
        else:
            k = w.index('|')
            e, b = rpn(w[2:k], outs, vs, refs), rpn(w[k + 1:], outs, vs, refs)
            if abs(e).a > abs(b).b: return w[1]
    return None
