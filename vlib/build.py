"""Builds, from /repo's current working tree: the LLVM IR of the crate (through the harness crate) and the native
replay servers (dev and release profile).  Nothing is reused from an earlier run except the engine itself."""
import os, subprocess, glob, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, 'target')
TOOL = 'stable-x86_64-unknown-linux-gnu'
IRFLAGS = '--emit=llvm-ir -Cpanic=abort -Copt-level=2 -Ccodegen-units=1 -Cno-vectorize-loops -Cno-vectorize-slp -Coverflow-checks=on'

def env(**kw):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_RUSTFLAGS', 'RUSTC_WRAPPER'): e.pop(k, None)
    e.update(CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN=TOOL, CARGO_TERM_COLOR='never', **kw)
    return e

class BuildError(Exception): pass
def sh(cmd, cwd, e, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode != 0: raise BuildError(' '.join(cmd) + '\n' + r.stdout[-4000:])
    return r.stdout

def engine():
    p = os.path.join(T, 'engine', 'release', 'fpsym')
    sh(['cargo', 'build', '--release', '--offline', '--locked'], os.path.join(V, 'fpsym'), env(CARGO_TARGET_DIR=os.path.join(T, 'engine')))
    return p

def ir(tag):
    d = os.path.join(T, 'run-' + tag, 'ir')
    shutil.rmtree(d, ignore_errors=True)
    sh(['cargo', 'build', '--offline', '--locked', '--lib', '--release'], os.path.join(V, 'harness'), env(CARGO_TARGET_DIR=d, RUSTFLAGS=IRFLAGS))
    deps = os.path.join(d, 'release', 'deps')
    out = []
    for c in ('harness', 'puruspe', 'lambert_w', 'num_complex', 'num_traits'):
        out += sorted(glob.glob(os.path.join(deps, c + '-*.ll')))
    return out

def native(tag):
    d = os.path.join(T, 'run-' + tag, 'native')
    shutil.rmtree(d, ignore_errors=True)
    e = env(CARGO_TARGET_DIR=d)
    a = subprocess.Popen(['cargo', 'build', '--offline', '--locked', '--bin', 'native', '--release'], cwd=os.path.join(V, 'harness'), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    o = a.communicate()[0]
    if a.returncode: raise BuildError(o[-4000:])
    sh(['cargo', 'build', '--offline', '--locked', '--bin', 'native'], os.path.join(V, 'harness'), e)
    return os.path.join(d, 'release', 'native'), os.path.join(d, 'debug', 'native')
