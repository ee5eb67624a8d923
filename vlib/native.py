"""Client for the native replay server (harness/src/main.rs)."""
import struct, subprocess, select, os
def f2b(x): return struct.unpack('<Q', struct.pack('<d', x))[0]
def b2f(b): return struct.unpack('<d', struct.pack('<Q', b))[0]
class Native:
    """call() gives the outputs, or None when the call panics or does not come back within the time limit"""
    def __init__(self, path, timeout=20):
        self.path, self.timeout = path, timeout
        self.start()
    def start(self):
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.buf = b''
    def line(self):
        while b'\n' not in self.buf:
            if not select.select([self.p.stdout], [], [], self.timeout)[0]:
                self.p.kill(); self.p.wait(); self.start(); return b''
            d = os.read(self.p.stdout.fileno(), 65536)
            if not d: self.p.wait(); self.start(); return b''
            self.buf += d
        r, self.buf = self.buf.split(b'\n', 1)
        return r
    def call(self, name, *args):
        s = name
        for a in args:
            s += ' %016x' % (f2b(a) if isinstance(a, float) else (a & 0xffffffffffffffff))
        self.p.stdin.write((s + '\n').encode()); self.p.stdin.flush()
        r = self.line().decode().split()
        if not r or r[0] != 'OK': return None
        return [b2f(int(t, 16)) for t in r[1:]]
