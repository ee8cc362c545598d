"""The interface property harnesses are written against; the same harness code runs symbolically
(values are solver terms) and concretely (replay of a counterexample, validation of a path)."""
import builtins
import calendar
import importlib
import importlib.util
import io
import os
import posixpath
import re
import signal
import sys
import time as _time
import types
from fractions import Fraction

import z3

from . import core, loader
from .core import SymBool, SymBytes, SymByteArray, SymFloat, SymInt, Infeasible, SxControl

# ------------------------------------------------------------------ virtual files

VROOT = '/vfs/'
_real_open = builtins.open
_CUR = [None]          # the running harness (owner of the virtual files)


class _Out:
    def __init__(self, files, path, binary):
        self.files, self.path, self.binary = files, path, binary
        self.parts = []

    def write(self, x):
        self.parts.append(x)
        return len(x) if not isinstance(x, SymBytes) else len(x.items)

    def flush(self):
        pass

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def close(self):
        if self.binary:
            it = []
            for p in self.parts:
                it += p.items if isinstance(p, (SymBytes, SymByteArray)) else list(p)
            self.files.written[self.path] = core.mkbytes(it)
        else:
            self.files.written[self.path] = ''.join(self.parts)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class Files:
    def __init__(self):
        self.content = {}
        self.providers = []
        self.written = {}
        self.opened = []
        self.tried = []         # every name given to open(), as given
        self.roots = ()         # further directories of the real file system that are virtual

    def add(self, path, content):
        self.content[path] = content

    def provide(self, fn):
        self.providers.append(fn)

    def lookup(self, path):
        if path in self.written:
            return self.written[path]
        if path in self.content:
            return self.content[path]
        for f in self.providers:
            r = f(path)
            if r is not None:
                return r
        return None

    def open(self, path, mode='r', *a, **k):
        if 'w' in mode:
            return _Out(self, path, 'b' in mode)
        c = self.lookup(path)
        if c is None:
            raise FileNotFoundError(2, 'No such file or directory', path)
        self.opened.append(path)
        if 'b' in mode:
            if isinstance(c, str):
                c = c.encode('utf-8')
            return loader.SymIO(c) if isinstance(c, SymBytes) else io.BytesIO(c)
        if isinstance(c, bytes):
            c = c.decode('utf-8')
        if isinstance(c, SymBytes):
            core.unsupported("text mode on symbolic file")
        return io.StringIO(c)


def _norm(path):
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, str) and (p.startswith(VROOT) or (_CUR[0] is not None and p.startswith(_CUR[0].files.roots))):
        return posixpath.normpath(p)
    return None


def _open(file, mode='r', *a, **k):
    p = _norm(file) if not isinstance(file, int) else None
    if p is not None:
        h = _CUR[0]
        if h is None:
            raise FileNotFoundError(2, 'No such file or directory', p)
        h.files.tried.append(os.fspath(file))
        return h.files.open(p, mode, *a, **k)
    return _real_open(file, mode, *a, **k)


def _patch_os():
    builtins.open = _open
    io.open = _open
    op = os.path
    for name in ('exists', 'isfile', 'lexists'):
        real = getattr(op, name)

        def f(path, real=real):
            p = _norm(path)
            if p is None:
                return real(path)
            return _CUR[0] is not None and _CUR[0].files.lookup(p) is not None
        setattr(op, name, f)
    real_isdir = op.isdir

    def isdir(path):
        p = _norm(path)
        if p is None:
            return real_isdir(path)
        fs = _CUR[0].files
        return any(x.startswith(p.rstrip('/') + '/') for x in list(fs.content) + list(fs.written))
    op.isdir = isdir
    real_getsize = op.getsize

    def getsize(path):
        p = _norm(path)
        if p is None:
            return real_getsize(path)
        c = _CUR[0].files.lookup(p)
        if c is None:
            raise FileNotFoundError(2, 'No such file or directory', p)
        return len(c.encode('utf-8') if isinstance(c, str) else c)
    op.getsize = getsize
    real_listdir = os.listdir

    def listdir(path='.'):
        p = _norm(path)
        if p is None:
            return real_listdir(path)
        pre = p.rstrip('/') + '/'
        fs = _CUR[0].files
        return sorted({x[len(pre):].split('/')[0] for x in list(fs.content) + list(fs.written) if x.startswith(pre)})
    os.listdir = listdir
    real_mkdirs, real_mkdir = os.makedirs, os.mkdir
    os.makedirs = lambda p, *a, **k: None if _norm(p) else real_mkdirs(p, *a, **k)
    os.mkdir = lambda p, *a, **k: None if _norm(p) else real_mkdir(p, *a, **k)
    import configparser
    configparser.int = loader.SxInt
    configparser.float = loader.SxFloat


def install():
    if builtins.open is not _open:
        _patch_os()


# ------------------------------------------------------------------ clock

class Clock:
    "A clock that returns the given instants in turn (the last one repeats) and records sleeps."

    def __init__(self, times, advance=False):
        self.times = list(times)
        self.i = 0
        self.now = self.times[0]
        self.sleeps = []
        self.advance = advance

    def time(self):
        if self.advance:
            return self.now
        t = self.times[min(self.i, len(self.times) - 1)]
        self.i += 1
        return t

    def sleep(self, s):
        self.sleeps.append(s)
        if s < 0:
            raise ValueError("sleep length must be non-negative")
        if self.advance:
            self.now = self.now + s


class TimeProxy(types.ModuleType):
    def __init__(self):
        super().__init__('time')

    def __getattr__(self, name):
        return getattr(_time, name)

    def time(self):
        c = _CUR[0].clock
        return _time.time() if c is None else c.time()

    def sleep(self, s):
        c = _CUR[0].clock
        return None if c is None else c.sleep(s)


# ------------------------------------------------------------------ concrete module worlds

class PlainWorld:
    "Private, unmodified copies of the repository's modules."
    _cache = {}

    def __init__(self):
        self.modules = {}
        self.builtins = dict(builtins.__dict__)
        self.builtins['__import__'] = self._import
        self.builtins['print'] = lambda *a, **k: None
        self.timeproxy = TimeProxy()

    _find = loader.World._find

    def fresh(self):
        return PlainWorld()

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        parent, _, leaf = name.rpartition('.')
        pm = self.load(parent) if parent else None
        path, pkg = self._find(name)
        if pkg is None:
            raise ImportError("No module named %r" % name)
        m = types.ModuleType(name)
        m.__dict__['__builtins__'] = self.builtins
        m.__file__ = path
        m.__package__ = name if pkg else parent
        if pkg:
            m.__path__ = [os.path.dirname(path)] if path else []
        self.modules[name] = m
        if path:
            code = PlainWorld._cache.get(path)
            if code is None:
                with _real_open(path, encoding='utf-8') as fh:
                    code = compile(fh.read(), path, 'exec', dont_inherit=True)
                PlainWorld._cache[path] = code
            exec(code, m.__dict__)
        if pm is not None:
            setattr(pm, leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or ''
            parts = pkg.split('.')
            parts = parts[:len(parts) - (level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        top = name.split('.')[0]
        if top == 'dashlivesim':
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f) and self._find(name + '.' + f)[1] is not None:
                        self.load(name + '.' + f)
                return m
            return self.modules[top]
        if name == 'time':
            return self.timeproxy
        return importlib.__import__(name, globals, locals, fromlist, 0)


class ImportWorld:
    "The repository imported in the ordinary way (used in the stand-alone replay process)."

    def __init__(self):
        sys.path.insert(0, loader.REPO)
        real_time = _time.time

        def t():
            h = _CUR[0]
            return real_time() if h is None or h.clock is None else h.clock.time()

        def s(x):
            h = _CUR[0]
            if h is not None and h.clock is not None:
                return h.clock.sleep(x)
        _time.time = t
        _time.sleep = s

    def load(self, name):
        return importlib.import_module(name)

    def fresh(self):
        for k in [k for k in sys.modules if k.split('.')[0] == 'dashlivesim']:
            del sys.modules[k]
        return self


# ------------------------------------------------------------------ harness objects

class CheckFailed(Exception):
    pass


def _plain_value(v):
    return v


class Base:
    inf = float('inf')

    def __init__(self):
        self.files = Files()
        self.clock = None
        self.notes = []
        self.reached = {}

    # files
    def file(self, path, content):
        self.files.add(path, content)

    # combinators usable in both modes
    def all(self, *xs):
        return core.b_and(*xs)

    def any(self, *xs):
        return core.b_or(*xs)

    def no(self, x):
        if isinstance(x, SymInt):
            x = x != 0
        return core.b_not(x)

    def imp(self, a, b):
        return core.b_or(core.b_not(a) if not isinstance(a, SymInt) else a == 0, b)

    def iff(self, a, b):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return core.mkb(core.zb(a) == core.zb(b))

    def ite(self, c, a, b):
        return core.ite(c, a, b)

    def eq(self, a, b):
        return loader.sx_eq(a, b)

    def beq(self, a, b):
        "byte string equality (bool or term)"
        ia = core.raw_items(a) if isinstance(a, (SymBytes, SymByteArray)) else list(a)
        ib = core.raw_items(b) if isinstance(b, (SymBytes, SymByteArray)) else list(b)
        return core.bytes_eq(ia, ib)

    def len(self, x):
        "length of text or bytes, without splitting numbers into digits"
        return core.sx_len(x)

    def u(self, b):
        "unsigned big-endian value of a byte string"
        return core.unpack_int(b.items if isinstance(b, (SymBytes, SymByteArray)) else list(b))

    def ts(self, s):
        "seconds since the epoch of a timestamp text"
        if core.has_tok(s):
            parts = core.tok_split(s)
            if len(parts) == 1 and isinstance(parts[0], core.Token) and parts[0].kind == 'ts':
                return parts[0].val
            core.unsupported("timestamp text %r" % s)
        return calendar.timegm(_time.strptime(s, "%Y-%m-%dT%H:%M:%SZ"))

    def dur(self, s):
        """Seconds of an xs:duration made of days, hours, minutes and seconds; None when malformed."""
        n = r'([0-9%s]+(?:\.[0-9]+)?)' % core.TOKCHARS
        m = re.fullmatch(r'P(?:%sY)?(?:%sD)?(T(?:%sH)?(?:%sM)?(?:%sS)?)?' % (n, n, n, n, n), s)
        if not m or s in ('P', 'PT') or m.group(3) == 'T':
            return None
        tot = 0
        for g, mul in ((1, 365 * 86400), (2, 86400), (4, 3600), (5, 60), (6, 1)):
            if m.group(g):
                v = loader.SxFloat(m.group(g)) if '.' in m.group(g) else self.num(m.group(g))
                tot = tot + v * mul
        return tot

    def num(self, s):
        "integer value of decimal text"
        return loader.SxInt(s)

    def fl(self, s):
        return loader.SxFloat(s)

    def is_exc(self, r):
        return isinstance(r, tuple) and len(r) == 3 and r[0] == 'exc'

    def attempt(self, fn, *a, **k):
        """('ok', value) or ('exc', class name, text)"""
        try:
            return ('ok', fn(*a, **k))
        except SxControl:
            raise
        except (CheckFailed, TimeoutError, KeyboardInterrupt):
            raise
        except BaseException as e:
            if isinstance(e, (SystemExit, MemoryError, RecursionError)):
                raise
            return ('exc', type(e).__name__, str(e))

    def sharp_text(self):
        "write numbers that can have one value only on the path as that value"
        if self.symbolic:
            self.path.sharp = True

    def note(self, label, value):
        self.notes.append((label, value))

    def val_bytes(self, b):
        "the concrete bytes of b (forks over values where needed)"
        if isinstance(b, (SymBytes, SymByteArray)):
            out = []
            for it in b.items:
                c = core.item_code(it)
                out.append(core.realize(c) if isinstance(c, SymInt) else c)
            return builtins.bytes(out)
        return builtins.bytes(b)


class SymH(Base):
    symbolic = True

    def __init__(self, path, tier):
        super().__init__()
        self.path = path
        self.tier = tier
        self.world = loader.World()

    def set_clock(self, c):
        self.clock = c
        loader.time_shim.clock = c

    def int(self, name, lo, hi):
        return self.path.input(name, lo, hi)

    def real(self, name, lo, hi, den):
        "k/den with lo <= value <= hi (den a power of two): an exactly representable float"
        return SymFloat(self.path.input(name, lo * den, hi * den, den), den)

    def bool(self, name):
        v = self.path.input(name, 0, 1)
        return v == 1

    def choice(self, name, options):
        i = self.path.input(name, 0, len(options) - 1)
        return options[core.realize(i)]

    def bytes(self, name, n, lo=0, hi=255):
        return core.mkbytes([self.path.input('%s[%d]' % (name, i), lo, hi) for i in range(n)])

    def be(self, v, n):
        "big-endian encoding of v in n bytes (v assumed in range)"
        if isinstance(v, SymInt):
            return core.pack_int(v, n, 'big', False, OverflowError)
        return v.to_bytes(n, 'big')

    def dec(self, x):
        "decimal text of a number"
        if isinstance(x, SymFloat):
            return core.ctx().token('dec', x, None)
        return loader.SxStr(x)

    def assume(self, c):
        self.path.assume(c)

    def check(self, c, label):
        return self.path.check(c, label)

    def fail(self, label):
        return self.path.check(False, label)

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def load(self, name):
        return self.world.load(name)

    def fresh(self):
        "from here on the modules of a new process"
        self.world = loader.World()

    def sat(self, c):
        "truth of c on this path (forks)"
        return builtins.bool(c)

    def val(self, x):
        return core.realize(x)


class ConH(Base):
    symbolic = False

    def __init__(self, inputs, tier, world=None):
        super().__init__()
        self.inputs = inputs
        self.tier = tier
        self.world = world or PlainWorld()
        self.failed = []

    def set_clock(self, c):
        self.clock = c

    def _get(self, name, lo, hi):
        v = self.inputs.get(name)
        if v is None:
            v = lo if lo is not None and lo > 0 or hi is None else (hi if hi < 0 else max(lo or 0, 0))
        return v

    def int(self, name, lo, hi):
        return self._get(name, lo, hi)

    def real(self, name, lo, hi, den):
        return self._get(name, lo * den, hi * den) / den

    def bool(self, name):
        return self._get(name, 0, 1) == 1

    def choice(self, name, options):
        return options[self._get(name, 0, len(options) - 1)]

    def bytes(self, name, n, lo=0, hi=255):
        return builtins.bytes([self._get('%s[%d]' % (name, i), lo, hi) for i in range(n)])

    def be(self, v, n):
        return v.to_bytes(n, 'big')

    def dec(self, x):
        return repr(x) if isinstance(x, float) else str(x)

    def assume(self, c):
        if not c:
            raise Infeasible()

    def check(self, c, label):
        if not c:
            self.failed.append(label)
            raise CheckFailed(label)
        return True

    def fail(self, label):
        return self.check(False, label)

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def load(self, name):
        return self.world.load(name)

    def fresh(self):
        "from here on the modules of a new process"
        self.world = self.world.fresh()

    def sat(self, c):
        return builtins.bool(c)

    def val(self, x):
        return x


# ------------------------------------------------------------------ evaluation of symbolic results in a model

def concretize(v, m):
    "value of v in model m; None-like marker for text that is not modelled"
    if isinstance(v, SymInt):
        return m.eval(v.e, model_completion=True).as_long()
    if isinstance(v, SymBool):
        return z3.is_true(m.eval(v.e, model_completion=True))
    if isinstance(v, SymFloat):
        n = concretize(v.num, m) if isinstance(v.num, SymInt) else v.num
        return float(Fraction(n, v.den) + v.off)
    if isinstance(v, (SymBytes, SymByteArray)):
        out = bytearray()
        for it in core.raw_items(v):
            if type(it) is core.Whole:
                out += concretize(core.tok_text(it.tk.id), m).encode()
                continue
            if isinstance(it, core.Opaque):
                return OPAQUE
            c = core.item_code(it)
            out.append(concretize(c, m) if isinstance(c, SymInt) else c)
        return bytes(out)
    if isinstance(v, str) and core.has_tok(v):
        out = []
        for p in core.tok_split(v):
            if isinstance(p, str):
                out.append(p)
                continue
            x = concretize(p.val, m)
            if p.kind == 'd':
                out.append('%0*d' % (p.spec or 1, x))
            elif p.kind == 'x':
                out.append('%x' % x)
            elif p.kind == 'ts':
                out.append(_time.strftime("%Y-%m-%dT%H:%M:%SZ", _time.gmtime(x)))
            elif p.kind == 'f':
                out.append('%.*f' % (p.spec, x))
            elif p.kind == 'dec':
                out.append(repr(x))
            else:
                return OPAQUE
        return ''.join(out)
    if isinstance(v, tuple):
        return tuple(concretize(x, m) for x in v)
    if isinstance(v, list):
        return [concretize(x, m) for x in v]
    if isinstance(v, dict):
        return {k: concretize(x, m) for k, x in v.items()}
    return v


OPAQUE = '\0opaque'


def same_note(a, b):
    if isinstance(a, str) and a == OPAQUE or isinstance(b, str) and b == OPAQUE:
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_note(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same_note(a[k], b[k]) for k in a)
    if isinstance(a, bytearray):
        a = bytes(a)
    if isinstance(b, bytearray):
        b = bytes(b)
    if isinstance(a, float) or isinstance(b, float):
        try:
            return abs(a - b) <= 1e-6 * max(1, abs(a))
        except TypeError:
            return False
    return a == b


class Alarm(Exception):
    pass


def _on_alarm(sig, frm):
    raise TimeoutError("no result within the time limit")


def run_concrete(run, case, inputs, tier, world=None, limit=20):
    """Run the harness on concrete inputs against unmodified code.

    Returns (status, detail, harness): status in ok|violation|infeasible|hang."""
    h = ConH(inputs, tier, world)
    prev, _CUR[0] = _CUR[0], h
    prev_ctx, core.CTX = core.CTX, None
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(limit)
    out, sys.stdout = sys.stdout, io.StringIO()
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        run(h, case)
        st, detail = 'ok', ''
    except CheckFailed as e:
        st, detail = 'violation', str(e)
    except Infeasible:
        st, detail = 'infeasible', ''
    except TimeoutError as e:
        st, detail = 'hang', 'termination: ' + str(e)
    except SxControl as e:
        st, detail = 'infeasible', 'control ' + str(e)
    except RecursionError as e:
        st, detail = 'violation', 'unexpected RecursionError'
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f for f in reversed(tb) if loader.REPO in f.filename), tb[-1])
        st, detail = 'violation', 'unexpected %s: %s (%s:%s)' % (type(e).__name__, e, where.filename, where.lineno)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        sys.stdout = out
        sys.stderr = err
        _CUR[0] = prev
        core.CTX = prev_ctx
    return st, detail, h
