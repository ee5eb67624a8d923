"""Kani harnesses: built from /repo's current tree on every run.
   utils: crate kani/ with a path dependency.   cache: a copy of /repo/src in which HashMap is a bounded model."""
import os, re, subprocess, shutil, time, threading, json
from vlib import build
from vlib.build import V, T
from vlib.native import Native

def lock(drop):
    b = re.split(r'\n(?=\[\[package\]\])', open(os.path.join(V, 'kani', 'Cargo.lock')).read())
    return '\n'.join(x for x in b if not any('name = "%s"' % d in x for d in drop))

def prepare(kind, rundir):
    if kind == 'utils': return os.path.join(V, 'kani'), []
    d = os.path.join(rundir, 'copy')
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    shutil.copytree('/repo/src', os.path.join(d, 'src'))
    for r, _, fs in os.walk(os.path.join(d, 'src')):
        for f in fs:
            if f.endswith('.rs'):
                p = os.path.join(r, f); s = open(p).read()
                open(p, 'w').write(s.replace('std::collections', 'crate::vmap'))
    shutil.copy(os.path.join(V, 'kani/src/vmap.rs'), d + '/src/vmap.rs')
    shutil.copy(os.path.join(V, 'kani/src/cache.rs'), d + '/src/kani_cache.rs')
    open(d + '/src/lib.rs', 'a').write('\n#[cfg(kani)]\npub mod vmap;\n#[cfg(kani)]\nmod kani_cache;\n')
    t = open('/repo/Cargo.toml').read()
    t = re.sub(r'\[dev-dependencies\].*?(?=\n\[|\Z)', '', t, flags=re.S) + '\n[workspace]\n'
    open(d + '/Cargo.toml', 'w').write(t)
    open(d + '/Cargo.lock', 'w').write(lock(['kaniutils']))
    return d, ['-Z', 'stubbing']

def cargo_kani(d, extra, harness, tdir, timeout):
    cmd = ['cargo', 'kani', '--target-dir', tdir, '--harness', harness, '--exact'] + extra
    e = build.env(); e.pop('RUSTUP_TOOLCHAIN', None)
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try: o = p.communicate(timeout=timeout)[0]
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return 'timeout', '', time.time() - t0
    dt = time.time() - t0
    if 'VERIFICATION:- SUCCESSFUL' in o: return 'ok', o, dt
    if 'VERIFICATION:- FAILED' in o:
        fails = re.findall(r'Failed Checks: (.*)', o)
        if fails and all('unwinding assertion' in f or 'recursion unwinding' in f for f in fails): return 'unwind', o, dt
        return 'failed', o, dt
    return 'error', o, dt

def values(o):
    """concrete values of the counterexample, in the order of the kani::any calls"""
    m = re.search(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];', o, re.S)
    if not m: return None
    return [int.from_bytes(bytes(int(x) for x in b.split(',') if x.strip()), 'little') for b in re.findall(r'vec!\[([\d, ]*)\]', m.group(1))]

def native_args(h, vals):
    """kani values -> (entry of the native program, arguments)"""
    if h in ('frexp_all', 'roundtrip'): return 'k_' + h, vals[:1]
    if h == 'ldexp_all' or h == 'sign_all': return 'k_' + h, vals[:2]
    if h.startswith('proj_'): return 'k_' + h, vals[:2]
    if h.startswith('cache_'): return 'k_' + h, vals[:10]
    raise KeyError(h)

def run(pid, cfg, rundir, tier):
    """cfg: {kind, harnesses, witnesses, timeout}"""
    cov = {'harnesses': [], 'witnesses': []}; notes = []; viols = []
    try: d, extra = prepare(cfg['kind'], rundir)
    except Exception as e: return {'cov': cov, 'notes': ['could not prepare the harness crate: %s' % e], 'viols': []}
    pre = 'h::' if cfg['kind'] == 'utils' else 'kani_cache::'
    # first build alone (shared target), then one copy of the target per harness
    nat = {}
    def bn():
        try: nat['r'], nat['d'] = build.native('%s-kn' % pid)
        except Exception as e: nat['err'] = str(e)
    tn = threading.Thread(target=bn); tn.start()
    lock_ = threading.Lock(); sem = threading.Semaphore(6)
    def one(h, wit):
        with sem:
            td = os.path.join(rundir, 'kt-' + h)
            ex = list(extra)
            if not wit: ex += ['-Z', 'concrete-playback', '--concrete-playback=print']
            st, o, dt = cargo_kani(d, ex, pre + h, td, cfg.get('timeout', 500))
            if st == 'unwind':
                st, o, d2 = cargo_kani(d, ex + ['--unwind', '70'], pre + h, td, max(60, cfg.get('timeout', 500) - dt)); dt += d2
            shutil.rmtree(td, ignore_errors=True)
            solver = re.findall(r'Verification Time: ([\d.]+)s', o)
            checks = re.findall(r'\*\* (\d+) of (\d+) failed', o)
            with lock_:
                if wit:
                    ok = st == 'failed' and 'WITNESS' in o
                    cov['witnesses'].append('%s: %s' % (h, 'reached' if ok else 'NOT reached (%s)' % st))
                    if not ok: notes.append('reachability witness %s: %s' % (h, st))
                else:
                    cov['harnesses'].append('%s: %s, %s checks, %.1fs' % (h, st, checks[0][1] if checks else '?', float(solver[0]) if solver else dt))
                    if st == 'failed': res[h] = o
                    elif st != 'ok': notes.append('harness %s undecided: %s %s' % (h, st, o[-400:] if st == 'error' else ''))
    res = {}
    th = [threading.Thread(target=one, args=(h, False)) for h in cfg['harnesses']] + [threading.Thread(target=one, args=(h, True)) for h in cfg['witnesses']]
    [t.start() for t in th]; [t.join() for t in th]; tn.join()
    for h, o in res.items():
        why = '; '.join(sorted(set(re.findall(r'Failed Checks: (.*)', o))))[:300]
        vals = values(o)
        if vals is None: notes.append('harness %s failed (%s) without concrete values' % (h, why)); continue
        if 'err' in nat: notes.append('native build failed: ' + nat['err'][-300:]); continue
        ent, args = native_args(h, vals)
        outs = {k: Native(p).call(ent, *args) for k, p in (('release', nat['r']), ('dev', nat['d']))}
        bad = {k: (outs[k] is None or outs[k][0] != 0.0) for k in outs}
        if any(bad.values()):
            p = os.path.join(V, 'evidence', 'replay_%s_%s.json' % (pid, h))
            json.dump({'property': pid, 'kind': 'kani', 'harness': h, 'entry': ent, 'args': ['%016x' % a for a in args], 'what': why, 'outs': {k: None if outs[k] is None else [repr(x) for x in outs[k]] for k in outs}}, open(p, 'w'), indent=1)
            viols.append((p, '%s%s: %s' % (ent, ['%016x' % a for a in args], why), '%s(%s)' % (ent, ','.join('%016x' % a for a in args))))
        else: notes.append('model of harness %s (%s) did not reproduce natively: %s' % (h, why, ['%016x' % a for a in args]))
    cov['queries_discharged'] = sum(1 for x in cov['harnesses'] if ': ok' in x)
    shutil.rmtree(os.path.join(T, 'run-%s-kn' % pid), ignore_errors=True)
    return {'cov': cov, 'notes': notes, 'viols': viols}

def replay(d):
    rel, dev = build.native('replay')
    bad = 0
    for k, p in (('release', rel), ('dev', dev)):
        o = Native(p).call(d['entry'], *[int(a, 16) for a in d['args']])
        b = o is None or o[0] != 0.0
        print(k, d['entry'], d['args'], '->', 'VIOLATES (code %s)' % (o and o[0]) if b else 'holds')
        bad |= b
    return 1 if bad else 0
