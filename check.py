#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]   decide one property on /repo's current tree
   check.py --replay <file>               run a recorded counterexample again on the real code"""
import sys, os, json, time, gzip, subprocess, threading, shutil, re, struct
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
os.chdir(V)
from vlib import build, spec, props
from vlib.native import Native

def known():
    r = {'fixed': [], 'finding': []}
    for l in open(os.path.join(V, 'known_findings.txt')):
        m = re.match(r'(fixed|finding): property=(\S+) (.*)', l.strip())
        if m: r[m.group(1)].append((m.group(2), m.group(3)))
    return r

def replay(f):
    d = json.load(open(f))
    print('replaying', d['property'], d.get('job') or d.get('harness'))
    if d.get('kind') == 'kani':
        from vlib import kani
        return kani.replay(d)
    rel, dev = build.native('replay')
    jobs = spec.parse(d['job_text'])
    job = jobs[d['job']]
    args = [int(a, 16) for a in d['args']]
    bad = 0
    for n, p in (('release', rel), ('dev', dev)):
        o = Native(p).call(d['entry'], *args)
        w = spec.violated(job, args, o)
        print(n, d['entry'], [a for a in d['args']], '->', o, 'VIOLATES ' + w if w else 'holds')
        bad |= bool(w)
    return 1 if bad else 0

def job_texts(text, ids):
    out, cur, keep = {}, [], None
    for l in text.split('\n'):
        if l.startswith('job '):
            if keep: out[keep] = '\n'.join(cur)
            keep = l[4:].strip(); keep = keep if keep in ids else None; cur = []
        if keep: cur.append(l)
    if keep: out[keep] = '\n'.join(cur)
    return out

def run_engine(eng, lls, jobfile, out, secs, threads=8):
    subprocess.run([eng] + lls + ['--jobs', jobfile, '--out', out, '--threads', str(threads), '--secs', str(secs), '--solver', 'z3'], check=False, timeout=secs + 240)
    return json.load(open(out))

def main():
    if sys.argv[1] == '--replay': sys.exit(replay(sys.argv[2]))
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    cfg = props.PROPS[pid]
    ev = os.path.join(V, 'evidence'); os.makedirs(ev, exist_ok=True)
    rundir = os.path.join(V, 'target', 'run-' + pid); shutil.rmtree(rundir, ignore_errors=True); os.makedirs(rundir)
    for f in os.listdir(ev):
        if f.startswith('replay_%s_' % pid): os.remove(os.path.join(ev, f))
    cov, viols, notes = {}, [], []
    names = [n for n in cfg.get('jobs', []) if os.path.exists(os.path.join(V, 'data', n + '.jobs.gz'))]
    if tier == 'thorough': names += [n for n in cfg.get('jobs_thorough', []) if os.path.exists(os.path.join(V, 'data', n + '.jobs.gz'))]
    if names:
        res = {}
        def b(k, f):
            try: res[k] = f()
            except Exception as e: res[k] = e
        th = [threading.Thread(target=b, args=a) for a in (('eng', build.engine), ('ir', lambda: build.ir(pid)), ('nat', lambda: build.native(pid)))]
        [t.start() for t in th]; [t.join() for t in th]
        for k in res:
            if isinstance(res[k], Exception): print('ERROR: build of', k, 'failed:', res[k]); sys.exit(2)
        eng, lls, (rel, dev) = res['eng'], res['ir'], res['nat']
        build_s = time.time() - t0
        nat = {'release': Native(rel), 'dev': Native(dev)}
        tot = {}
        fns, samples, undecided = set(), [], []
        confirmed_args = set()
        mism = 0; compared = 0
        for n in names:
            text = gzip.open(os.path.join(V, 'data', n + '.jobs.gz'), 'rt').read()
            jf = os.path.join(rundir, n + '.jobs'); open(jf, 'w').write(text)
            left = (cfg.get('secs', 420) if tier == 'quick' else cfg.get('secs_thorough', 3000)) - (time.time() - t0 - build_s)
            o = run_engine(eng, lls, jf, os.path.join(rundir, n + '.json'), max(20, int(left)), 8)
            for k, v in o.items():
                if isinstance(v, (int, float)): tot[k] = max(tot.get(k, 0), v) if k == 'max_depth' else tot.get(k, 0) + v
            fns |= set(o['functions']); undecided += o['undecided_jobs']
            # validation of the encoding: the engine's concrete runs against the compiled crate, bit by bit
            for s in o['samples']:
                l, r = s.split(' -> ')
                if '?' in r: continue
                w = l.split()
                q = nat['release'].call(w[0], *[int(a, 16) for a in w[1:]])
                got = 'PANIC' if q is None else ' '.join('%016x' % spec.f2b(x) for x in q)
                compared += 1
                norm = lambda z: ' '.join('nan' if (z2 != 'PANIC' and len(z2) == 16 and int(z2, 16) & 0x7fffffffffffffff > 0x7ff0000000000000) else z2 for z2 in z.split())
                if norm(got) != norm(r):
                    mism += 1
                    if mism <= 5: notes.append('encoding mismatch: %s, native %s' % (s, got))
            samples += o['samples'][:: max(1, len(o['samples']) // 6)][:6]
            if o['violations']:
                jt = job_texts(text, {v['job'] for v in o['violations']})
                for v in o['violations']:
                    job = spec.parse(jt[v['job']])[v['job']]
                    args = [int(a, 16) for a in v['args']]
                    outs = {k: nat[k].call(job.entry, *args) for k in nat}
                    why = {k: spec.violated(job, args, outs[k]) for k in nat}
                    if any(why.values()):
                        key = (job.entry, tuple(args))
                        if key in confirmed_args: continue
                        confirmed_args.add(key)
                        p = os.path.join(ev, 'replay_%s_%d.json' % (pid, len(viols)))
                        fl = []
                        for a, b_ in zip(job.args, args): fl.append(repr(spec.b2f(b_)) if a[0] in 'v=' else str(b_))
                        json.dump({'property': pid, 'job': v['job'], 'entry': job.entry, 'args': v['args'], 'args_decimal': fl, 'what': why, 'outs': {k: (None if outs[k] is None else [repr(x) for x in outs[k]]) for k in outs}, 'job_text': jt[v['job']]}, open(p, 'w'), indent=1)
                        viols.append((p, '%s(%s) violates %s; native result %s' % (job.entry, ', '.join(fl), why['release'] or why['dev'], outs['release']), '%s(%s)' % (job.entry, ', '.join(fl))))
                    else:
                        notes.append('a model of job %s did not reproduce on the native build: %s %s' % (v['job'], job.entry, v['args']))
        cov['bounds'] = cfg.get('bounds', '')
        cov['functions_encoded'] = sorted(fns)
        cov['symbolic'] = {k: (round(v, 3) if isinstance(v, float) else v) for k, v in tot.items()}
        cov['queries_discharged'] = tot.get('unsat', 0)
        cov['solver_s'] = round(tot.get('solver_s', 0), 3)
        cov['undecided_jobs'] = len(undecided)
        cov['encoding_validation'] = {'concrete_runs_compared_bitwise': compared, 'mismatches': mism}
        cov['samples'] = samples[:12]
        if undecided: notes.append('undecided: ' + '; '.join(undecided[:20]))
        if tot.get('unfinished', 0): notes.append('%d boxes not reached in time' % tot['unfinished'])
        if tot.get('crashed', 0): notes.append('%d engine workers crashed' % tot['crashed'])
    if cfg.get('kani'):
        from vlib import kani
        k = kani.run(pid, cfg['kani'], rundir, tier)
        cov['kani'] = k['cov']; notes += k['notes']; viols += k['viols']
        cov.setdefault('samples', []).extend(k['cov'].get('harnesses', [])[:6])
    kn = known()
    real = []
    for p, d, key in viols:
        hit = [x for x in kn['finding'] if x[0] == pid and x[1].startswith(key)]
        if hit: print('KNOWN-FINDING: property=%s %s' % (pid, d))
        else: real.append((p, d))
    cov['explanation'] = cfg['explanation']
    if notes: cov['notes'] = notes[:40]
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'assumptions': cfg.get('assumptions', []) + (props.ENGINE_ASSUMPTIONS if names else []), 'wall_s': round(time.time() - t0, 2), 'violations': len(real)}, open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
    for n in notes[:12]: print('note:', n)
    if cov.get('kani'): print('%s: kani %s; witnesses %s' % (pid, cov['kani']['harnesses'], cov['kani']['witnesses']))
    s = cov.get('symbolic', {})
    if s: print('%s: %d jobs, %d boxes decided, %d queries (%d unsat), solver %.1fs, %d jobs undecided, %.0fs' % (pid, s.get('roots', 0), s.get('proved_boxes', 0), s.get('queries', 0), s.get('unsat', 0), s.get('solver_s', 0), cov['undecided_jobs'], time.time() - t0))
    shutil.rmtree(rundir, ignore_errors=True)
    if real:
        for p, d in real[:5]: print('counterexample:', d)
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(real[0][0], V)))
        sys.exit(1)
    sys.exit(0)
main()
