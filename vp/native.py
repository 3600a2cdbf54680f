"""The real code, compiled: building the harness, folding libm calls, and replaying counterexamples."""
import ctypes
import fcntl
import glob
import hashlib
import math
import multiprocessing as mp
import os
import shutil
import signal
import struct
import subprocess
import sys
import time
from . import term

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.environ.get('VP_BUILD', os.path.join(ROOT, '.build'))


class BuildError(Exception):
    pass


def source_key():
    h = hashlib.sha256()
    files = []
    for base in (os.path.join(REPO, 'src'), os.path.join(ROOT, 'harness', 'src')):
        for d, ds, fs in os.walk(base):
            ds.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
    files += [os.path.join(REPO, 'Cargo.toml'), os.path.join(ROOT, 'harness', 'Cargo.toml'), os.path.join(ROOT, 'harness', 'Cargo.lock')]
    for f in files:
        h.update(f.encode() + b'\0')
        h.update(open(f, 'rb').read())
    return h.hexdigest()


def build():
    """Compile /repo's working tree through the harness; returns (ll paths, shared object)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = source_key()
        stamp = os.path.join(BUILD, 'stamp')
        tgt = os.path.join(BUILD, 'target')
        deps = os.path.join(tgt, 'release', 'deps')
        so = os.path.join(tgt, 'release', 'libvpharness.so')
        if not (os.path.exists(stamp) and open(stamp).read() == key and os.path.exists(so)):
            if os.path.exists(stamp):
                os.unlink(stamp)
            for pat in ('probability', 'vpharness'):
                for f in glob.glob(os.path.join(deps, pat + '*')) + glob.glob(os.path.join(deps, 'lib' + pat + '*')) + glob.glob(os.path.join(tgt, 'release', '.fingerprint', pat + '*')):
                    shutil.rmtree(f) if os.path.isdir(f) else os.unlink(f)
            hd = os.path.join(ROOT, 'harness')
            if REPO != '/repo':
                hd = os.path.join(BUILD, 'harness')
                if os.path.exists(hd):
                    shutil.rmtree(hd)
                shutil.copytree(os.path.join(ROOT, 'harness'), hd)
                p = os.path.join(hd, 'Cargo.toml')
                s = open(p).read().replace('"/repo"', '"%s"' % REPO)
                open(p, 'w').write(s)
            env = dict(os.environ)
            for k in list(env):
                if k.startswith('CARGO_') and k != 'CARGO_HOME' or k in ('RUSTC_WRAPPER', 'RUSTDOCFLAGS'):
                    del env[k]
            env.update(RUSTUP_TOOLCHAIN='stable', CARGO_TARGET_DIR=tgt,
                       RUSTC_BOOTSTRAP='1',
                       RUSTFLAGS='--emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp -Zshare-generics=n')
            p = subprocess.run(['cargo', 'build', '--offline', '--release', '--quiet'], cwd=hd, env=env,
                               capture_output=True, text=True)
            if p.returncode != 0 or not os.path.exists(so):
                raise BuildError(p.stderr[-4000:])
            open(stamp, 'w').write(key)
        lls = []
        for c in ('vpharness', 'probability', 'special', 'random', 'libm'):
            l = glob.glob(os.path.join(deps, c + '-*.ll')) + glob.glob(os.path.join(deps, c + '.ll'))
            if not l:
                raise BuildError('no IR for ' + c)
            lls.append(max(l, key=os.path.getmtime))
        return lls, so


class Lib:
    """In-process calls to the mathematical library exactly as compiled."""
    ARITY = dict(exp=1, log=1, log1p=1, expm1=1, pow=2, sqrt=1, floor=1, ceil=1, trunc=1, round=1, erf=1, erfc=1,
                 tgamma=1, lgamma=1, atan=1, tan=1, sin=1, cos=1, tanh=1, sinh=1, cosh=1, digamma=1, inc_gamma=2,
                 inc_beta=4, inv_inc_beta=4, ln_beta=2)

    def __init__(self, so):
        self.dll = ctypes.CDLL(so)
        self.fns = {}
        for n, k in self.ARITY.items():
            f = getattr(self.dll, 'vp_' + n)
            f.restype = ctypes.c_double
            f.argtypes = [ctypes.c_double] * k
            self.fns[n] = f

    def call(self, op, v):
        f = self.fns.get(op)
        if f is None:
            return None
        return f(*v)


def _worker(so, conn):
    dll = ctypes.CDLL(so)
    devnull = os.open('/dev/null', os.O_WRONLY)
    os.dup2(devnull, 2)
    while True:
        try:
            req = conn.recv()
        except EOFError:
            return
        name, sig, ret, args, draws, bufn, bufout = req
        f = getattr(dll, name)
        ct = {'double': ctypes.c_double, 'i64': ctypes.c_uint64, 'ptr': ctypes.c_void_p, 'i32': ctypes.c_uint32, 'void': None}
        f.restype = ct[ret]
        f.argtypes = [ct[s] for s in sig]
        if draws:
            a = (ctypes.c_uint64 * len(draws))(*draws)
            dll.vp_set_draws(a, ctypes.c_size_t(len(draws)))
        else:
            a = (ctypes.c_uint64 * 1)(0)
            dll.vp_set_draws(a, ctypes.c_size_t(1))
        keep, call = [], []
        outb = None
        for s, x in zip(sig, args):
            if s == 'ptr':
                if isinstance(x, tuple) and x[0] == 'in':
                    b = (ctypes.c_double * max(1, len(x[1])))(*x[1])
                else:
                    b = (ctypes.c_uint64 * max(1, x[1]))()
                    outb = b
                keep.append(b)
                call.append(ctypes.addressof(b))
            else:
                call.append(x)
        r = f(*call)
        dll.vp_pos.restype = ctypes.c_size_t
        conn.send((r, list(outb) if outb is not None else None, dll.vp_pos()))


def die_with_parent():
    try:
        ctypes.CDLL(None).prctl(1, 9)
    except Exception:
        pass


class Native:
    """Calls into the compiled code in a separate process, so that aborts and hangs are observations."""

    def __init__(self, so, mod, timeout=5.0):
        self.so, self.mod, self.timeout = so, mod, timeout
        self.p = None

    def _start(self):
        self.conn, child = mp.Pipe()
        ctx = mp.get_context('fork')
        self.p = ctx.Process(target=_worker, args=(self.so, child), daemon=True)
        self.p.start()
        child.close()

    def close(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.join()
            except Exception:
                pass
            self.p = None

    def sig(self, name):
        f = self.mod.func(name)
        return [repr(t) for t, _ in f.params], repr(f.ret)

    def call(self, name, args, draws=None):
        """('ok', value, out words, draws used) | ('panic',) | ('hang',)"""
        if self.p is None or not self.p.is_alive():
            self._start()
        sig, ret = self.sig(name)
        try:
            self.conn.send((name, sig, ret, list(args), draws, 0, 0))
            if not self.conn.poll(self.timeout):
                self.close()
                return ('hang',)
            r = self.conn.recv()
            return ('ok',) + r
        except (EOFError, BrokenPipeError, ConnectionResetError):
            self.close()
            return ('panic',)


def f2d(w):
    return struct.unpack('<d', struct.pack('<Q', w))[0]
