"""Loads the repository's modules from source with the rewriting that lets symbolic values flow.

Rewriting is semantics-preserving on ordinary values: `%`, `==`/`!=`/`in`, `is`, and calls of
text/bytes methods go through helpers that fall back to the plain operation; every function
entry and `while` iteration is reported to the path context.
"""
import ast
import builtins
import importlib
import io
import math
import os
import re as _re
import struct as _struct
import sys
import calendar as _calendar
import datetime as _datetime
import time as _time
import types

from . import core
from .core import (SymInt, SymBool, SymFloat, SymBytes, SymByteArray, has_tok, mkbytes, items_of,
                   unsupported, realize)

REPO = os.environ.get('SX_REPO', '/repo')

# ------------------------------------------------------------------ rewriting

METHODS = {'join', 'encode', 'decode', 'startswith', 'endswith', 'find', 'rfind', 'index', 'replace', 'split', 'rsplit',
           'format', 'isdigit', 'zfill', 'count', 'lstrip', 'rstrip', 'strip', 'from_bytes', 'fromhex', 'ljust', 'rjust',
           'isnumeric', 'isdecimal', 'partition', 'rpartition', 'write', 'extend', 'rindex', 'index', 'hex', 'translate'}


def _call(name, *args):
    return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])


def _simple(e):
    "evaluation cannot raise or have effects: safe to evaluate eagerly."
    if isinstance(e, ast.Constant):
        return isinstance(e.value, (int, bool)) and True
    if isinstance(e, ast.Name):
        return True
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.Invert)):
        return _simple(e.operand)
    return False


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, record=True):
        self.mod = modname
        self.record = record
        self.stack = []

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_call('__sx_mod__', node.left, node.right), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            new = ast.Assign(targets=[ast.Name(id=node.target.id, ctx=ast.Store())],
                             value=_call('__sx_mod__', ast.Name(id=node.target.id, ctx=ast.Load()), node.value))
            return ast.copy_location(new, node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            name = {ast.Eq: '__sx_eq__', ast.NotEq: '__sx_ne__', ast.In: '__sx_in__', ast.NotIn: '__sx_notin__',
                    ast.Is: '__sx_is__', ast.IsNot: '__sx_isnot__'}.get(type(op))
            if name:
                if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(node.comparators[0], ast.Constant) and \
                        node.comparators[0].value is None:
                    return node
                return ast.copy_location(_call(name, node.left, node.comparators[0]), node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in METHODS and \
                not (isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and
                     f.value.func.id == 'super'):
            return ast.copy_location(ast.Call(func=ast.Name(id='__sx_m__', ctx=ast.Load()),
                                              args=[f.value, ast.Constant(f.attr)] + node.args,
                                              keywords=node.keywords), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not self._annot:
            return ast.copy_location(_call('__sx_item__', node.value, _slice(node.slice)), node)
        return node
    _annot = False

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def _function(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        node.body = [y for x in node.body for y in self._many(self.visit(x))]
        qual = '%s.%s' % (self.mod, '.'.join(self.stack))
        self.stack.pop()
        if self.record:
            pos = 1 if (node.body and isinstance(node.body[0], ast.Expr) and
                        isinstance(node.body[0].value, ast.Constant) and
                        isinstance(node.body[0].value.value, str)) else 0
            node.body.insert(pos, ast.Expr(_call('__sx_fn__', ast.Constant(qual))))
        return node

    @staticmethod
    def _many(x):
        if x is None:
            return []
        return x if isinstance(x, list) else [x]

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_While(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(_call('__sx_loop__', ast.Constant('%s:%d' % (self.mod, node.lineno)))))
        return node

    def visit_If(self, node):
        # if C: n op= k   ==>   n = ite(C, n op k, n)   (evaluated as an ordinary if when C is concrete)
        if not node.orelse and len(node.body) == 1 and isinstance(node.body[0], ast.AugAssign) and \
                isinstance(node.body[0].target, ast.Name) and \
                isinstance(node.body[0].op, (ast.Add, ast.Sub, ast.BitOr)) and \
                isinstance(node.body[0].value, ast.Constant) and isinstance(node.body[0].value.value, int):
            aug = node.body[0]
            name = aug.target.id
            test = self.visit(node.test)
            new = ast.BinOp(left=ast.Name(id=name, ctx=ast.Load()), op=aug.op, right=aug.value)
            lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                             body=new)
            # lambda captures the current binding; evaluated at once
            cvar = '__sx_c'
            a1 = ast.Assign(targets=[ast.Name(id=cvar, ctx=ast.Store())], value=_call('__sx_cond__', test))
            fast = ast.If(test=_call('__sx_issym__', ast.Name(id=cvar, ctx=ast.Load())),
                          body=[ast.Assign(targets=[ast.Name(id=name, ctx=ast.Store())],
                                           value=_call('__sx_ite__', ast.Name(id=cvar, ctx=ast.Load()), new,
                                                       ast.Name(id=name, ctx=ast.Load())))],
                          orelse=[ast.If(test=ast.Name(id=cvar, ctx=ast.Load()), body=[aug], orelse=[])])
            del lam
            return [ast.copy_location(a1, node), ast.copy_location(fast, node)]
        self.generic_visit(node)
        return node


def _slice(s):
    if isinstance(s, ast.Slice):
        none = ast.Constant(None)
        return _call('__sx_slice__', s.lower or none, s.upper or none, s.step or none)
    if isinstance(s, ast.Tuple) and any(isinstance(x, ast.Slice) for x in s.elts):
        return ast.Tuple(elts=[_slice(x) for x in s.elts], ctx=ast.Load())
    return s


def rewrite(src, modname, filename, record=True):
    tree = ast.parse(src, filename)
    tree = Rewriter(modname, record).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


# ------------------------------------------------------------------ helpers called from rewritten code

def sx_eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return core.str_eq(a, b)
    if isinstance(a, type) or isinstance(b, type):
        return _plain(a) is _plain(b) if isinstance(a, type) and isinstance(b, type) else a == b
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        if len(a) != len(b):
            return False
        return core.b_and(*[sx_eq(x, y) for x, y in zip(a, b)])
    return a == b


def sx_ne(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return core.b_not(core.str_eq(a, b))
    if isinstance(a, (type, list, tuple)):
        return core.b_not(sx_eq(a, b))
    return a != b


def sx_in(a, b):
    if isinstance(b, str) and isinstance(a, str):
        if not has_tok(a) and not has_tok(b):
            return a in b
        if str.__contains__(b, a):
            return True
        if not has_tok(a) and not any(ch.isdigit() or ch in '.:TZ-' for ch in a):
            return False
        return _sub_in(a, b)
    if isinstance(b, (list, tuple)) or isinstance(b, (set, frozenset)) or type(b) in (type({}.keys()), type({}.values())):
        if isinstance(a, str) and (has_tok(a) or any(has_tok(x) for x in b if isinstance(x, str))):
            for x in b:
                if bool(sx_eq(a, x)):
                    return True
            return False
        if isinstance(a, (SymInt, SymFloat)) and isinstance(b, (set, frozenset)):
            for x in b:
                if bool(a == x):
                    return True
            return False
        return a in b
    if isinstance(b, dict):
        k = dict_key(b, a)
        return k is not _MISSING
    if isinstance(a, (SymBytes, bytes)) and isinstance(b, bytes) and isinstance(a, SymBytes):
        return SymBytes(list(b)).find(a) >= 0
    if isinstance(a, SymInt) and isinstance(b, bytes):
        return any(bool(a == c) for c in b)
    if isinstance(a, SymInt) and isinstance(b, range):
        return bool(core.b_and(a >= b.start, a < b.stop)) if b.step == 1 else a in list(b)
    return a in b


def _sub_in(a, b):
    ea, eb = core.explode(a), core.explode(b)
    for i in range(len(eb) - len(ea) + 1):
        if bool(core.chars_eq(ea, eb[i:i + len(ea)])):
            return True
    return False


def sx_notin(a, b):
    return not sx_in(a, b)


_MISSING = object()


def dict_key(d, a):
    if isinstance(a, str):
        if dict.__contains__(d, a):
            return a
        if has_tok(a):
            for k in d:
                if isinstance(k, str) and bool(core.str_eq(a, k)):
                    return k
        elif any(has_tok(k) for k in d if isinstance(k, str)):
            for k in d:
                if isinstance(k, str) and bool(core.str_eq(a, k)):
                    return k
        return _MISSING
    if isinstance(a, SymInt):
        for k in d:
            if isinstance(k, (int, SymInt)) and bool(a == k):
                return k
        return _MISSING
    return a if a in d else _MISSING


def sx_is(a, b):
    if isinstance(a, type) and isinstance(b, type):
        return _plain(a) is _plain(b)
    if isinstance(b, bool) and isinstance(a, SymBool):
        r = a == b
        return r
    return a is b


def sx_isnot(a, b):
    return core.b_not(sx_is(a, b))


def sx_slice(a, b, c):
    return (_SLICE, a, b, c)


_SLICE = object()


def _cidx(v):
    return v


def sx_item(o, k):
    if type(k) is tuple and len(k) == 4 and k[0] is _SLICE:
        _, a, b, c = k
        if isinstance(a, SymInt) or isinstance(b, SymInt) or isinstance(c, SymInt):
            if isinstance(o, str) and has_tok(o):
                # offsets into token text computed from real lengths do not match raw positions
                n = core.sx_len(o)
            else:
                n = len(o)
            a = core.realize_idx(a, n)
            b = core.realize_idx(b, n)
            if isinstance(c, SymInt):
                c = realize(c)
        return o[slice(a, b, c)]
    if isinstance(k, SymInt):
        if isinstance(o, dict):
            kk = dict_key(o, k)
            if kk is _MISSING:
                return o[realize(k)]
            return o[kk]
        if isinstance(o, (list, tuple, bytes, str)):
            n = len(o)
            if not core.b_true(core.b_and(k >= -n, k < n)):
                raise IndexError("index out of range")
            if isinstance(o, (list, tuple, bytes)) and n <= 512 and all(type(x) is int for x in o) and \
                    isinstance(k, SymInt):
                if k < 0:
                    k = k + n
                if isinstance(k, int):
                    return o[k]
                # table lookup as an if-then-else chain, grouping equal values
                r = o[n - 1]
                for i in range(n - 2, -1, -1):
                    r = core.ite(k == i, o[i], r)
                return r
        return o[realize(k)]
    if isinstance(o, dict) and isinstance(k, str) and k not in o and type(o) is dict:
        kk = dict_key(o, k)
        if kk is not _MISSING:
            return o[kk]
    return o[k]


def sx_cond(x):
    if isinstance(x, (SymBool, SymInt, SymFloat)):
        if isinstance(x, SymBool):
            return x
        return x != 0
    return x


def sx_issym(x):
    return isinstance(x, SymBool)


def sx_fn(name):
    c = core.CTX
    if c is not None:
        if c.aborted is not None:
            c.guard()
        c.expl.stats.functions.add(name)


def sx_loop(key):
    c = core.CTX
    if c is not None:
        c.loop(key)


_FMT = _re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\d+|\*)?(?:\.(\d+|\*))?[hlL]?([diouxXeEfFgGcrsab%])')


def sx_mod(a, b):
    if isinstance(a, str):
        return _strfmt(a, b)
    if isinstance(a, bytes):
        return _bytesfmt(a, b)
    return a % b


def _symbolic(v):
    if isinstance(v, (SymInt, SymBool, SymFloat, SymBytes, SymByteArray)):
        return True
    if isinstance(v, dict):
        return any(_symbolic(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return any(_symbolic(x) for x in v)
    return False


def _strfmt(fmt, args):
    vals = args if isinstance(args, tuple) else (args,)
    if not any(_symbolic(v) or (isinstance(v, str) and has_tok(v)) for v in
               (list(args.values()) if isinstance(args, dict) else vals)):
        return fmt % args
    out = []
    pos = 0
    it = iter(vals)
    for m in _FMT.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append('%')
            continue
        if key is not None:
            v = args[key]
        else:
            if width == '*' or prec == '*':
                unsupported("star in format")
            try:
                v = next(it)
            except StopIteration:
                raise TypeError("not enough arguments for format string")
        if not _symbolic(v) and not (isinstance(v, str) and has_tok(v)):
            out.append(m.group(0).replace('(%s)' % key if key else '', '') % (v,))
            continue
        out.append(_one(v, flags, width, prec, conv))
    out.append(fmt[pos:])
    return ''.join(out)


def _one(v, flags, width, prec, conv):
    if isinstance(v, SymBool):
        v = bool(v) if conv in 'sr' else core.as_int(v)
        if not _symbolic(v):
            return ('%' + conv) % v
    if conv in 'sr' and isinstance(v, str):
        if width or prec:
            unsupported("width on token text")
        return v if conv == 's' else "'%s'" % v
    if conv in 'sr':
        if width:
            unsupported("width on symbolic value")
        return str(v) if not isinstance(v, (list, tuple, dict)) else sx_repr(v)
    if conv in 'diu':
        if isinstance(v, SymFloat):
            v = v.__trunc__()
        if not isinstance(v, SymInt):
            if isinstance(v, str):
                raise TypeError("%d format: a real number is required, not str")
            return ('%' + (flags or '') + (width or '') + 'd') % v
        if width and '0' in flags:
            return core.render_padded(v, int(width))
        if width or '+' in flags or ' ' in flags:
            return core.ctx().token('opq', v, flags + (width or ''))
        return core.render_int(v)
    if conv in 'fF':
        if isinstance(v, SymInt):
            v = SymFloat.of(v)
        if width:
            return core.ctx().token('opqf', v, (width, prec))
        return core.render_fixed(v, 6 if prec is None else int(prec))
    if conv == 'x' and isinstance(v, SymInt) and not width and not flags:
        return core.format_value(v, 'x')
    if conv in 'xX' and isinstance(v, SymInt):
        return core.ctx().token('opq', v, (flags, width, conv))
    return core.ctx().token('opq', v, (flags, width, prec, conv))


def sx_repr(v):
    if isinstance(v, (list,)):
        return '[' + ', '.join(sx_repr(x) for x in v) + ']'
    if isinstance(v, tuple):
        return '(' + ', '.join(sx_repr(x) for x in v) + ')'
    if isinstance(v, dict):
        return '{' + ', '.join('%s: %s' % (sx_repr(k), sx_repr(x)) for k, x in v.items()) + '}'
    if _symbolic(v):
        return str(v)
    return repr(v)


def _bytesfmt(fmt, args):
    vals = args if isinstance(args, tuple) else (args,)
    if not any(_symbolic(v) for v in vals):
        return fmt % args
    out = []
    pos = 0
    it = iter(vals)
    text = fmt.decode('latin-1')
    for m in _FMT.finditer(text):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append(b'%')
            continue
        v = next(it)
        if not _symbolic(v):
            out.append(m.group(0).encode('latin-1') % (v,))
        elif isinstance(v, SymBytes):
            if conv not in 'sb':
                raise TypeError("bad bytes format")
            out.append(v)
        elif isinstance(v, SymByteArray):
            out.append(v.tobytes())
        elif conv in 'sb':
            raise TypeError("%b requires a bytes-like object")
        else:
            out.append(core.str_encode(_one(v, flags, width, prec, conv)))
    out.append(fmt[pos:])
    return core.bytes_join(b'', out)


def sx_m(o, name, *args, **kw):
    "method call on an object that may be real text/bytes receiving symbolic arguments."
    t = type(o)
    if t is str:
        if name == 'encode':
            return core.str_encode(o) if has_tok(o) else o.encode(*args, **kw)
        if name == 'join':
            parts = list(args[0])
            return o.join(p if isinstance(p, str) else str(p) if isinstance(p, SymInt) and False else p for p in parts)
        if name in ('isdigit', 'isnumeric', 'isdecimal') and has_tok(o):
            return all((p.isdigit() if isinstance(p, str) else p.kind == 'd') for p in core.tok_split(o))
        if name in ('startswith', 'endswith') and has_tok(o):
            return _startends(o, name, *args)
        if name in ('zfill', 'rjust', 'ljust') and has_tok(o):
            v = core.tok_number(o)
            if name == 'zfill' and v and v[1] == 'd':
                return core.render_padded(v[0], args[0])
            unsupported("padding of token text")
        if name == 'format':
            return o.format(*args, **kw)
        if name in ('lstrip', 'rstrip', 'strip') and has_tok(o) and args:
            if any(ch.isdigit() for ch in args[0]):
                unsupported("strip of digits")
        return getattr(o, name)(*args, **kw)
    if t is bytes:
        if name == 'join':
            seq = list(args[0])
            if any(isinstance(p, (SymBytes, SymByteArray)) for p in seq):
                return core.bytes_join(o, seq)
            return o.join(seq)
        if any(isinstance(a, (SymBytes, SymByteArray, SymInt)) for a in args):
            if name in ('decode', 'hex'):
                return getattr(o, name)(*args, **kw)
            args = [a.tobytes() if isinstance(a, SymByteArray) else a for a in args]
            return getattr(SymBytes(list(o)), name)(*args, **kw)
        return getattr(o, name)(*args, **kw)
    return getattr(o, name)(*args, **kw)


def _startends(o, name, p, *rest):
    if isinstance(p, tuple):
        return any(_startends(o, name, q) for q in p)
    if getattr(o, name)(p, *rest):
        return True
    parts = core.tok_split(o)
    edge = parts[0] if name == 'startswith' else parts[-1]
    if isinstance(edge, str) and len(edge) >= len(p) and not has_tok(p):
        return False
    chars = core.explode(o)
    pc = core.explode(p)
    if len(pc) > len(chars):
        return False
    return bool(core.chars_eq(chars[:len(pc)] if name == 'startswith' else chars[-len(pc):], pc))


# ------------------------------------------------------------------ builtins

class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._inst)

    def __subclasscheck__(cls, c):
        return issubclass(_plain(c), cls._real)

    def __getattr__(cls, name):
        return getattr(cls._real, name)

    def __eq__(cls, o):
        return cls is o or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __repr__(cls):
        return repr(cls._real)


def _plain(t):
    if isinstance(t, _Meta):
        return t._real
    return {SymInt: int, SymBool: bool, SymFloat: float, SymBytes: bytes, SymByteArray: bytearray}.get(t, t)


class SxInt(metaclass=_Meta):
    _real = int
    _inst = (int, SymInt, SymBool)

    def __new__(cls, x=0, base=None):
        if base is None:
            if isinstance(x, str):
                if has_tok(x):
                    r = core.tok_number(x)
                    if r is None or r[1] != 'd':
                        raise ValueError("invalid literal for int() with base 10: %r" % x)
                    return r[0]
                return int(x)
            if isinstance(x, SymInt):
                return x
            if isinstance(x, SymBool):
                return core.as_int(x)
            if isinstance(x, SymFloat):
                return x.__trunc__()
            if isinstance(x, (SymBytes, SymByteArray)):
                return _bytes_to_int(x)
            return int(x)
        if isinstance(x, str) and has_tok(x):
            if base == 10:
                return cls(x)
            if base in (16, 0):
                r = core.hex_number(x)
                if r is not None:
                    return r
            unsupported("int(text, base)")
        return int(x, base)

    @staticmethod
    def from_bytes(b, byteorder='big', *, signed=False):
        if isinstance(b, (SymBytes, SymByteArray)):
            return core.unpack_int(b.items, byteorder, signed)
        if not isinstance(b, (bytes, bytearray, memoryview)):
            it = list(b)
            if any(isinstance(i, SymInt) for i in it):
                return core.unpack_int(it, byteorder, signed)
        return int.from_bytes(b, byteorder, signed=signed)


def _bytes_to_int(x):
    v = 0
    items = x.items
    for it in items:
        c = core.item_code(it)
        if isinstance(c, int):
            if not 48 <= c <= 57:
                raise ValueError("invalid literal for int()")
        elif not core.b_true(core.b_and(c >= 48, c <= 57)):
            raise ValueError("invalid literal for int()")
    i = 0
    while i < len(items):
        it = items[i]
        if isinstance(it, core.Digit) and it.i == 0 and len(items) - i >= it.n and all(
                isinstance(d, core.Digit) and d.tk is it.tk and d.i == k for k, d in enumerate(items[i:i + it.n])):
            v = v * 10 ** it.n + it.tk.val
            i += it.n
        else:
            v = v * 10 + (core.item_code(it) - 48)
            i += 1
    return v


class SxFloat(metaclass=_Meta):
    _real = float
    _inst = (float, SymFloat)

    def __new__(cls, x=0.0):
        if isinstance(x, str):
            if has_tok(x):
                r = core.tok_number(x)
                if r is None:
                    raise ValueError("could not convert string to float: %r" % x)
                return SymFloat.of(r[0]) if not isinstance(r[0], SymFloat) else r[0]
            return float(x)
        if isinstance(x, (SymInt, SymFloat, SymBool)):
            return SymFloat.of(x)
        return float(x)


class SxStr(metaclass=_Meta):
    _real = str
    _inst = (str,)

    def __new__(cls, x='', *a, **k):
        if isinstance(x, (SymBytes, SymByteArray)) and (a or k):
            return x.decode()
        if isinstance(x, (list, tuple, dict)) and _symbolic(x):
            return sx_repr(x)
        return str(x, *a, **k)


class SxBytes(metaclass=_Meta):
    _real = bytes
    _inst = (bytes, SymBytes)

    def __new__(cls, x=b'', *a, **k):
        if isinstance(x, SymBytes):
            return x
        if isinstance(x, SymByteArray):
            return x.tobytes()
        if isinstance(x, str):
            return core.str_encode(x) if has_tok(x) else x.encode(*a, **k)
        if isinstance(x, SymInt):
            return bytes(realize(x))
        if isinstance(x, (int, bytes, bytearray, memoryview)):
            return bytes(x)
        it = list(x)
        if any(isinstance(i, SymInt) for i in it):
            return mkbytes([SymByteArray()._val(i) for i in it])
        return bytes(it)


class SxByteArray(metaclass=_Meta):
    _real = bytearray
    _inst = (bytearray, SymByteArray)

    def __new__(cls, *a, **k):
        return SymByteArray(*a)


class SxBool(metaclass=_Meta):
    _real = bool
    _inst = (bool, SymBool)

    def __new__(cls, x=False):
        if isinstance(x, SymBool):
            return x
        if isinstance(x, (SymInt, SymFloat)):
            return x != 0
        return bool(x)


def sx_range(*a):
    if not any(isinstance(x, SymInt) for x in a):
        return range(*a)
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if isinstance(step, SymInt):
        step = realize(step)
    return SymRange(start, stop, step)


class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        i = self.start
        n = 0
        while (i < self.stop) if self.step > 0 else (i > self.stop):
            n += 1
            if n > 2000:
                core.ctx().stop("bound: range iterations")
            yield i
            i = i + self.step

    def __len__(self):
        return len(self._real())

    def _real(self):
        return range(realize(self.start), realize(self.stop), self.step)

    def __contains__(self, x):
        if self.step == 1:
            return bool(core.b_and(x >= self.start, x < self.stop))
        return x in self._real()

    def __getitem__(self, k):
        return self._real()[k]

    def __reversed__(self):
        return reversed(self._real())


def _minmax(real, less):
    def f(*a, **k):
        if k:
            return real(*a, **k)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not any(isinstance(x, SymInt) for x in xs) or not all(isinstance(x, (int, SymInt)) for x in xs):
            return real(xs)
        r = xs[0]
        for x in xs[1:]:
            lo1, hi1 = core.bounds(r)
            lo2, hi2 = core.bounds(x)
            c = (x < r) if less else (x > r)
            r2 = core.ite(c, x, r)
            if isinstance(r2, SymInt):
                if less:
                    his = [h for h in (hi1, hi2) if h is not None]
                    r2 = core.mk(r2.e, r2.lo, min(his) if his else None)
                else:
                    los = [v for v in (lo1, lo2) if v is not None]
                    r2 = core.mk(r2.e, max(los) if los else None, r2.hi)
            r = r2
        return r
    return f


sx_min = _minmax(min, True)
sx_max = _minmax(max, False)


def sx_divmod(a, b):
    return divmod(a, b)


def sx_type(*a):
    if len(a) == 1:
        t = type(a[0])
        return _plain(t)
    return type(*a)


def sx_ord(x):
    if isinstance(x, SymBytes):
        if len(x) != 1:
            raise TypeError("ord() expected a character")
        return core.item_code(x.items[0])
    if isinstance(x, str) and has_tok(x):
        v = core.tok_number(x)
        return v[0] + 48
    return ord(x)


def sx_chr(x):
    return chr(realize(x))


def sx_hex(x):
    return '0x' + core.format_value(x, 'x') if isinstance(x, SymInt) else hex(x)


def sx_bin(x):
    return bin(realize(x)) if isinstance(x, SymInt) else bin(x)


def sx_repr_b(x):
    return sx_repr(x)


def sx_pow(*a):
    if any(isinstance(x, SymInt) for x in a) and len(a) == 2:
        return a[0] ** a[1]
    return pow(*a)


def sx_all(it):
    for x in it:
        if not x:
            return False
    return True


def sx_any(it):
    for x in it:
        if x:
            return True
    return False


def no_print(*a, **k):
    return None


def sx_memoryview(x):
    return x if isinstance(x, SymBytes) else memoryview(x)


# ------------------------------------------------------------------ shims for C modules

_CODES = {'B': (1, False), 'b': (1, True), 'H': (2, False), 'h': (2, True), 'I': (4, False), 'i': (4, True),
          'L': (4, False), 'l': (4, True), 'Q': (8, False), 'q': (8, True)}


def _parse(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = 'big'
    native = True
    f = fmt
    if f[:1] in '@=<>!':
        native = f[0] == '@'
        order = 'little' if f[0] in '<=@' else 'big'
        f = f[1:]
    else:
        order = 'little'
    f = f.replace(' ', '')
    out = []
    off = 0
    for m in _re.finditer(r'(\d*)([xcbB?hHiIlLqQnNspfdP])', f):
        n, c = m.groups()
        if c in 's':
            out.append(('s', int(n) if n else 1))
        elif c == 'x':
            out.append(('x', int(n) if n else 1))
        elif c in _CODES:
            for _ in range(int(n) if n else 1):
                size, sg = _CODES[c]
                if native and c in 'lL':
                    size = 8
                if native:
                    cur = sum(p[1] for p in out)
                    pad = -cur % size
                    if pad:
                        out.append(('x', pad))
                out.append((c, size))
        elif c == 'c':
            for _ in range(int(n) if n else 1):
                out.append(('c', 1))
        else:
            return None
    return order, out


def struct_pack(fmt, *vals):
    if not any(_symbolic(v) for v in vals):
        return _struct.pack(fmt, *vals)
    p = _parse(fmt)
    if p is None:
        unsupported("struct format %s" % fmt)
    order, codes = p
    out = []
    it = iter(vals)
    nvals = sum(1 for c, n in codes if c != 'x')
    if nvals != len(vals):
        raise _struct.error("pack expected %d items for packing (got %d)" % (nvals, len(vals)))
    for c, n in codes:
        if c == 'x':
            out.extend([0] * n)
            continue
        v = next(it)
        if c in 'sc':
            b = items_of(v)
            if b is None:
                raise _struct.error("argument for 's' must be a bytes object")
            out.extend((b + [0] * n)[:n])
        else:
            if isinstance(v, (SymFloat, float, str, bytes, SymBytes, type(None))):
                raise _struct.error("required argument is not an integer")
            size = n
            r = core.pack_int(v, size, order, c.islower(), _struct.error, "argument out of range") \
                if _symbolic(v) else _struct.pack(('<' if order == 'little' else '>') +
                                                  {1: 'b', 2: 'h', 4: 'i', 8: 'q'}[size] if c.islower() else
                                                  ('<' if order == 'little' else '>') +
                                                  {1: 'B', 2: 'H', 4: 'I', 8: 'Q'}[size], v)
            out.extend(items_of(r))
    return mkbytes(out)


def struct_unpack(fmt, data):
    if isinstance(data, SymByteArray):
        data = data.tobytes()
    if not isinstance(data, SymBytes):
        return _struct.unpack(fmt, data)
    p = _parse(fmt)
    if p is None:
        unsupported("struct format %s" % fmt)
    order, codes = p
    total = sum(n for _, n in codes)
    if len(data) != total:
        raise _struct.error("unpack requires a buffer of %d bytes" % total)
    out = []
    pos = 0
    for c, n in codes:
        seg = data.items[pos:pos + n]
        pos += n
        if c == 'x':
            continue
        if c in 'sc':
            out.append(mkbytes(seg))
        else:
            out.append(core.unpack_int(seg, order, c.islower()))
    return tuple(out)


def struct_calcsize(fmt):
    return _struct.calcsize(fmt)


def struct_unpack_from(fmt, buffer, offset=0):
    if isinstance(offset, SymInt):
        offset = realize(offset)
    if isinstance(buffer, SymByteArray):
        buffer = buffer.tobytes()
    if not isinstance(buffer, SymBytes):
        return _struct.unpack_from(fmt, buffer, offset)
    n = _struct.calcsize(fmt)
    if offset < 0:
        offset += len(buffer)
    if offset < 0 or len(buffer) - offset < n:
        raise _struct.error("unpack_from requires a buffer of at least %d bytes" % n)
    return struct_unpack(fmt, SymBytes(buffer.items[offset:offset + n])) if n else ()


class SxStruct:
    def __init__(self, fmt):
        self.format = fmt
        self.size = _struct.calcsize(fmt)

    def pack(self, *a):
        return struct_pack(self.format, *a)

    def unpack(self, d):
        return struct_unpack(self.format, d)

    def unpack_from(self, b, offset=0):
        return struct_unpack_from(self.format, b, offset)

    def iter_unpack(self, d):
        for i in range(0, len(d), self.size):
            yield struct_unpack(self.format, d[i:i + self.size])


def _struct_iter(fmt, d):
    n = _struct.calcsize(fmt)
    if not n or len(d) % n:
        raise _struct.error("iterative unpacking requires a buffer of a multiple of %d bytes" % n)
    for i in range(0, len(d), n):
        yield struct_unpack(fmt, d[i:i + n])


struct_shim = types.ModuleType('struct')
struct_shim.__dict__.update(pack=struct_pack, unpack=struct_unpack, unpack_from=struct_unpack_from, Struct=SxStruct,
                            calcsize=struct_calcsize, error=_struct.error, iter_unpack=_struct_iter)


# re: on symbolic bytes the match is decided on a representative in which every symbolic byte known to be a
# decimal digit is '0' (patterns used here distinguish digits only as a class; others are rejected)

def _repr_bytes(x):
    out = bytearray()
    for it in x.items:
        if type(it) is int:
            out.append(it)
        elif isinstance(it, core.Digit):
            out.append(48)
        elif isinstance(it, core.Opaque) and it.tk.kind == 'ts' and it.n == 20:
            out.append(b'0000-00-00T00:00:00Z'[it.i])
        else:
            c = core.item_code(it)
            if isinstance(c, int):
                out.append(c)
            elif c.lo is not None and c.hi is not None and c.lo >= 48 and c.hi <= 57:
                out.append(48)
            else:
                unsupported("regular expression over symbolic bytes")
    return bytes(out)


_DIG_OK = {}


def _digit_uniform(pattern, flags):
    key = (pattern, flags)
    r = _DIG_OK.get(key)
    if r is None:
        import re._parser as sp
        r = True

        def walk(t):
            nonlocal r
            for op, av in t:
                name = str(op)
                if name in ('LITERAL', 'NOT_LITERAL'):
                    if 48 <= av <= 57:
                        r = False
                elif name == 'IN':
                    for o2, a2 in av:
                        if str(o2) == 'LITERAL' and 48 <= a2 <= 57:
                            r = False
                        if str(o2) == 'RANGE' and (a2[0] <= 57 and a2[1] >= 48) and not (a2[0] <= 48 and a2[1] >= 57):
                            r = False
                elif name == 'BRANCH':
                    for b in av[1]:
                        walk(b)
                elif name == 'SUBPATTERN':
                    walk(av[3])
                elif name in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                    walk(av[2])
                elif name in ('ASSERT', 'ASSERT_NOT'):
                    walk(av[1])
                elif name in ('GROUPREF', 'GROUPREF_EXISTS'):
                    r = False
        walk(sp.parse(pattern, flags & ~_re.UNICODE if isinstance(pattern, bytes) else flags))
        _DIG_OK[key] = r
    return r


class SxMatch:
    def __init__(self, m, data):
        self.m = m
        self.data = data
        self.string = data
        self.re = m.re
        self.lastgroup = m.lastgroup
        self.lastindex = m.lastindex
        self.pos = m.pos

    def _g(self, k):
        a, b = self.m.span(k)
        return None if a < 0 else mkbytes(self.data.items[a:b])

    def group(self, *ks):
        if not ks:
            return self._g(0)
        r = tuple(self._g(k) for k in ks)
        return r[0] if len(r) == 1 else r

    __getitem__ = _g

    def groups(self, default=None):
        return tuple(self._g(i + 1) if self.m.span(i + 1)[0] >= 0 else default for i in range(self.m.re.groups))

    def groupdict(self, default=None):
        return {k: (self._g(k) if self.m.span(k)[0] >= 0 else default) for k in self.m.re.groupindex}

    def start(self, g=0):
        return self.m.start(g)

    def end(self, g=0):
        return self.m.end(g)

    def span(self, g=0):
        return self.m.span(g)


class SxPattern:
    def __init__(self, pattern, flags=0):
        self.p = _re.compile(pattern, flags)
        self.pattern = pattern
        self.flags = self.p.flags
        self.groups = self.p.groups
        self.groupindex = self.p.groupindex

    def _sym(self, s):
        if isinstance(s, SymByteArray):
            s = s.tobytes()
        if isinstance(s, SymBytes):
            if not _digit_uniform(self.pattern, self.flags):
                unsupported("regular expression distinguishing digits")
            return s
        return None

    def _one(self, name, s, *a):
        d = self._sym(s)
        if d is None:
            return getattr(self.p, name)(s, *a)
        m = getattr(self.p, name)(_repr_bytes(d), *a)
        return None if m is None else SxMatch(m, d)

    def match(self, s, *a):
        return self._one('match', s, *a)

    def search(self, s, *a):
        return self._one('search', s, *a)

    def fullmatch(self, s, *a):
        return self._one('fullmatch', s, *a)

    def finditer(self, s, *a):
        d = self._sym(s)
        if d is None:
            return self.p.finditer(s, *a)
        return iter([SxMatch(m, d) for m in self.p.finditer(_repr_bytes(d), *a)])

    def findall(self, s, *a):
        d = self._sym(s)
        if d is None:
            return self.p.findall(s, *a)
        out = []
        for m in self.finditer(d):
            g = m.groups()
            out.append(m.group(0) if not g else g[0] if len(g) == 1 else g)
        return out

    def split(self, s, *a):
        if self._sym(s) is not None:
            unsupported("re.split on symbolic bytes")
        return self.p.split(s, *a)

    def sub(self, repl, s, count=0):
        d = self._sym(s)
        if d is None:
            if callable(repl):
                sym = []

                def wrapped(m):
                    r = repl(m)
                    if isinstance(r, (SymBytes, SymByteArray)):
                        sym.append(r)
                        raise _NeedSym()
                    return r
                try:
                    return self.p.sub(wrapped, s, count)
                except _NeedSym:
                    d = SymBytes(list(s))
            else:
                if isinstance(repl, SymBytes):
                    d = SymBytes(list(s))
                else:
                    return self.p.sub(repl, s, count)
        out = []
        pos = 0
        n = 0
        for m in self.finditer(d):
            if count and n >= count:
                break
            n += 1
            a, b = m.span()
            out.append(mkbytes(d.items[pos:a]))
            out.append(repl(m) if callable(repl) else _expand(repl, m))
            pos = b
        out.append(mkbytes(d.items[pos:]))
        return core.bytes_join(b'', out)

    def subn(self, repl, s, count=0):
        return self.sub(repl, s, count), len(list(self.finditer(s)))


class _NeedSym(Exception):
    pass


def _expand(repl, m):
    if isinstance(repl, bytes) and b'\\' in repl:
        out = []
        pos = 0
        for g in _re.finditer(rb'\\(?:g<(\w+)>|(\d))', repl):
            out.append(repl[pos:g.start()])
            k = (g.group(1) or g.group(2)).decode()
            out.append(m.group(int(k) if k.isdigit() else k))
            pos = g.end()
        out.append(repl[pos:])
        return core.bytes_join(b'', out)
    return repl


def _pat(p, flags=0):
    return p if isinstance(p, SxPattern) else SxPattern(p, flags)


re_shim = types.ModuleType('re')
re_shim.__dict__.update({k: v for k, v in _re.__dict__.items() if not k.startswith('__')})
re_shim.__dict__.update(
    compile=lambda p, flags=0: _pat(p, flags),
    match=lambda p, s, flags=0: _pat(p, flags).match(s),
    search=lambda p, s, flags=0: _pat(p, flags).search(s),
    fullmatch=lambda p, s, flags=0: _pat(p, flags).fullmatch(s),
    finditer=lambda p, s, flags=0: _pat(p, flags).finditer(s),
    findall=lambda p, s, flags=0: _pat(p, flags).findall(s),
    sub=lambda p, r, s, count=0, flags=0: _pat(p, flags).sub(r, s, count),
    subn=lambda p, r, s, count=0, flags=0: _pat(p, flags).subn(r, s, count),
    split=lambda p, s, maxsplit=0, flags=0: _pat(p, flags).split(s, maxsplit))


class SymTime:
    "struct_time of a symbolic instant (seconds since the epoch, int-like)."

    def __init__(self, t):
        self.t = t

    def __getitem__(self, i):
        return (core.calendar_fields(self.t) + ((self.t // 86400 + 3) % 7,
                                                self.t // 86400 - days_before_year(self.tm_year) + 1, 0))[i]

    def __iter__(self):
        return iter(self[:])

    def __len__(self):
        return 9
    tm_year = property(lambda s: core.calendar_fields(s.t)[0])
    tm_mon = property(lambda s: core.calendar_fields(s.t)[1])
    tm_mday = property(lambda s: core.calendar_fields(s.t)[2])
    tm_hour = property(lambda s: core.calendar_fields(s.t)[3])
    tm_min = property(lambda s: core.calendar_fields(s.t)[4])
    tm_sec = property(lambda s: core.calendar_fields(s.t)[5])
    tm_wday = property(lambda s: (s.t // 86400 + 3) % 7)
    tm_yday = property(lambda s: s[7])
    tm_isdst = 0


def days_before_year(y):
    "days from 1970-01-01 to the first of January of y"
    k = y - 1
    return 365 * k + k // 4 - k // 100 + k // 400 - 719162


TS_FORMAT = "%Y-%m-%dT%H:%M:%SZ"


class TimeShim(types.ModuleType):
    def __init__(self):
        super().__init__('time')
        self.clock = None

    def __getattr__(self, name):
        return getattr(_time, name)

    def time(self):
        if self.clock is None:
            unsupported("clock read without a clock")
        return self.clock.time()

    def sleep(self, s):
        if self.clock is None:
            unsupported("sleep without a clock")
        return self.clock.sleep(s)

    def gmtime(self, t=None):
        if t is None:
            t = self.time()
        if isinstance(t, SymFloat):
            t = t.floor()
        if isinstance(t, SymInt):
            return SymTime(t)
        return _time.gmtime(t)

    def strftime(self, fmt, t=None):
        if t is None:
            t = self.gmtime()
        if not isinstance(t, SymTime):
            return _time.strftime(fmt, t)
        fmt = fmt.replace('%F', '%Y-%m-%d').replace('%T', '%H:%M:%S').replace('%R', '%H:%M')
        x = t.t
        if fmt == TS_FORMAT and x.lo is not None and x.lo >= -30610224000 and x.hi is not None and x.hi < 253402300800:
            return core.ctx().token('ts', x, 20)
        out = []
        i = 0
        while i < len(fmt):
            if fmt[i] != '%':
                out.append(fmt[i])
                i += 1
                continue
            c = fmt[i + 1]
            i += 2
            v = {'Y': lambda: (t.tm_year, 4), 'm': lambda: (t.tm_mon, 2), 'd': lambda: (t.tm_mday, 2),
                 'H': lambda: (t.tm_hour, 2), 'M': lambda: (t.tm_min, 2), 'S': lambda: (t.tm_sec, 2),
                 '%': lambda: None}.get(c)
            if v is None:
                unsupported("strftime %" + c)
            v = v()
            out.append('%' if v is None else core.render_padded(*v))
        return ''.join(out)


time_shim = TimeShim()


class SymDelta:
    "timedelta of a symbolic number of seconds"

    def __init__(self, s):
        self.s = s

    def total_seconds(self):
        return self.s + 0.0

    days = property(lambda d: d.s // 86400)
    seconds = property(lambda d: d.s % 86400)
    microseconds = 0

    def __add__(self, o):
        if isinstance(o, SymDelta):
            return SymDelta(self.s + o.s)
        if isinstance(o, _datetime.timedelta):
            return SymDelta(self.s + _whole(o))
        if isinstance(o, _datetime.datetime):
            return SymDateTime(self.s + _epoch(o), o.tzinfo)
        return NotImplemented
    __radd__ = __add__

    def __neg__(self):
        return SymDelta(-self.s)

    def __sub__(self, o):
        return self + -o

    def __rsub__(self, o):
        return -self + o


def _whole(d):
    if d.microseconds:
        unsupported("fractions of a second")
    return d.days * 86400 + d.seconds


def _epoch(d):
    return _whole(d.replace(tzinfo=None) - _datetime.datetime(1970, 1, 1)) if d.utcoffset() in (
        None, _datetime.timedelta(0)) else unsupported("time zone")


class SymDateTime:
    "datetime (UTC, whole seconds) of a symbolic instant"

    def __init__(self, t, tz):
        self.t, self.tzinfo = t, tz
        if tz not in (None, _datetime.timezone.utc):
            unsupported("time zone")
    year = property(lambda s: SymTime(s.t)[0])
    month = property(lambda s: SymTime(s.t)[1])
    day = property(lambda s: SymTime(s.t)[2])
    hour = property(lambda s: SymTime(s.t)[3])
    minute = property(lambda s: SymTime(s.t)[4])
    second = property(lambda s: SymTime(s.t)[5])
    microsecond = 0

    def strftime(self, fmt):
        return time_shim.strftime(fmt, SymTime(self.t))

    def __format__(self, fmt):
        return self.strftime(fmt) if fmt else str(self)

    def isoformat(self, sep='T', timespec='auto'):
        if timespec not in ('auto', 'seconds'):
            unsupported("isoformat " + timespec)
        return self.strftime('%Y-%m-%d' + sep + '%H:%M:%S') + ('+00:00' if self.tzinfo else '')

    def __str__(self):
        return self.isoformat(' ')

    def timestamp(self):
        if self.tzinfo is None:
            unsupported("timestamp of a naive datetime")
        return self.t + 0.0

    def timetuple(self):
        return SymTime(self.t)
    utctimetuple = timetuple

    def replace(self, tzinfo=None, microsecond=0):
        return SymDateTime(self.t, tzinfo)

    def __add__(self, o):
        if isinstance(o, SymDelta):
            return SymDateTime(self.t + o.s, self.tzinfo)
        if isinstance(o, _datetime.timedelta):
            return SymDateTime(self.t + _whole(o), self.tzinfo)
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, SymDateTime):
            return SymDelta(self.t - o.t)
        if isinstance(o, _datetime.datetime):
            return SymDelta(self.t - _epoch(o))
        return self + -o

    def __rsub__(self, o):
        return SymDelta(_epoch(o) - self.t)


class _DTMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymDateTime, _datetime.datetime))

    def __call__(cls, *a, **k):
        if any(isinstance(x, SymInt) for x in list(a) + list(k.values())):
            unsupported("datetime from symbolic fields")
        return _datetime.datetime(*a, **k)

    def __getattr__(cls, name):
        return getattr(_datetime.datetime, name)


class SxDateTime(metaclass=_DTMeta):
    @staticmethod
    def fromtimestamp(t, tz=None):
        if isinstance(t, SymFloat):
            f = t.floor()
            if not (t == f):
                unsupported("datetime with a fraction of a second")
            t = f
        if isinstance(t, SymInt):
            return SymDateTime(t, tz)
        return _datetime.datetime.fromtimestamp(t, tz)

    @staticmethod
    def utcfromtimestamp(t):
        r = SxDateTime.fromtimestamp(t, _datetime.timezone.utc)
        return r.replace(tzinfo=None)

    @staticmethod
    def utcnow():
        return SxDateTime.utcfromtimestamp(time_shim.time())

    @staticmethod
    def now(tz=None):
        return SxDateTime.fromtimestamp(time_shim.time(), tz or _datetime.timezone.utc)


def SxTimeDelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    s = seconds + 60 * minutes + 3600 * hours + 86400 * days + 604800 * weeks
    if isinstance(s, SymFloat):
        f = s.floor()
        if not (s == f):
            unsupported("timedelta with a fraction of a second")
        s = f
    if isinstance(s, SymInt):
        if microseconds or milliseconds:
            unsupported("timedelta with a fraction of a second")
        return SymDelta(s)
    return _datetime.timedelta(days, seconds, microseconds, milliseconds, minutes, hours, weeks)


datetime_shim = types.ModuleType('datetime')
datetime_shim.__dict__.update({k: v for k, v in _datetime.__dict__.items() if not k.startswith('__')})
datetime_shim.datetime = SxDateTime
datetime_shim.timedelta = SxTimeDelta


class CalendarShim(types.ModuleType):
    def __getattr__(self, name):
        return getattr(_calendar, name)

    def timegm(self, t):
        if isinstance(t, SymTime):
            return t.t
        if any(isinstance(x, SymInt) for x in t):
            unsupported("timegm")
        return _calendar.timegm(t)


calendar_shim = CalendarShim('calendar')


class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__('math')

    def __getattr__(self, name):
        return getattr(math, name)

    def ceil(self, x):
        return x.__ceil__() if isinstance(x, (SymInt, SymFloat)) else math.ceil(x)

    def floor(self, x):
        return x.__floor__() if isinstance(x, (SymInt, SymFloat)) else math.floor(x)

    def trunc(self, x):
        return x.__trunc__() if isinstance(x, (SymInt, SymFloat)) else math.trunc(x)

    def gcd(self, *a):
        return math.gcd(*[realize(x) for x in a])


math_shim = MathShim()


def sx_round(x, n=None):
    if isinstance(x, (SymInt, SymFloat)):
        return x.__round__(n)
    return round(x) if n is None else round(x, n)


class RandomShim(types.ModuleType):
    "Nondeterministic stub of random: every draw is an arbitrary value of its range."

    def __init__(self):
        super().__init__('random')

    def randint(self, a, b):
        return core.ctx().fresh_int('rnd', a, b)

    def randrange(self, a, b=None):
        return core.ctx().fresh_int('rnd', 0 if b is None else a, (a if b is None else b) - 1)

    def random(self):
        return SymFloat(core.ctx().fresh_int('rnd', 0, 2 ** 20 - 1), 2 ** 20)

    def choice(self, seq):
        return seq[0]

    def getrandbits(self, n):
        return core.ctx().fresh_int('rnd', 0, 2 ** n - 1)

    def seed(self, *a):
        pass

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        unsupported("random." + name)


random_shim = RandomShim()


class SymIO:
    "binary reader over SymBytes / writer collecting symbolic bytes."

    def __init__(self, data=b''):
        self.data = data
        self.pos = 0

    def read(self, n=-1):
        n = realize(n) if isinstance(n, SymInt) else n
        end = len(self.data) if n is None or n < 0 else self.pos + n
        r = self.data[self.pos:end]
        self.pos = min(len(self.data), end)
        return r

    def write(self, b):
        b = b.tobytes() if isinstance(b, SymByteArray) else b
        self.data = self.data[:self.pos] + b + self.data[self.pos + len(b):]
        self.pos += len(b)
        return len(b)

    def getvalue(self):
        return self.data

    def seek(self, p, whence=0):
        p = realize(p) if isinstance(p, SymInt) else p
        self.pos = p if whence == 0 else self.pos + p if whence == 1 else len(self.data) + p
        return self.pos

    def tell(self):
        return self.pos

    def close(self):
        pass

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def readable(self):
        return True

    def __iter__(self):
        unsupported("line iteration over symbolic file")


io_shim = types.ModuleType('io')
io_shim.__dict__.update({k: v for k, v in io.__dict__.items() if not k.startswith('__')})
io_shim.BytesIO = lambda data=b'': SymIO(data)

SHIMS = {'datetime': datetime_shim, 'calendar': calendar_shim, 'struct': struct_shim, 're': re_shim, 'time': time_shim, 'random': random_shim, 'math': math_shim,
         'io': io_shim}


# ------------------------------------------------------------------ module loading

_code_cache = {}


class World:
    "One private set of instrumented modules (fresh for every path)."

    def __init__(self, extra=None):
        self.modules = {}
        self.builtins = dict(builtins.__dict__)
        b = self.builtins
        b.update(int=SxInt, float=SxFloat, str=SxStr, bytes=SxBytes, bytearray=SxByteArray, bool=SxBool, len=core.sx_len,
                 range=sx_range, min=sx_min, max=sx_max, print=no_print, type=sx_type, ord=sx_ord, hex=sx_hex,
                 bin=sx_bin, chr=sx_chr, repr=sx_repr_b, round=sx_round, pow=sx_pow, all=sx_all, any=sx_any,
                 memoryview=sx_memoryview,
                 __import__=self._import, __sx_mod__=sx_mod, __sx_eq__=sx_eq, __sx_ne__=sx_ne, __sx_in__=sx_in,
                 __sx_notin__=sx_notin, __sx_is__=sx_is, __sx_isnot__=sx_isnot, __sx_m__=sx_m, __sx_item__=sx_item,
                 __sx_slice__=sx_slice, __sx_fn__=sx_fn, __sx_loop__=sx_loop, __sx_cond__=sx_cond, __sx_issym__=sx_issym,
                 __sx_ite__=core.ite)
        if extra:
            b.update(extra)

    def _find(self, name):
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            return os.path.join(base, '__init__.py'), True
        if os.path.isfile(base + '.py'):
            return base + '.py', False
        if os.path.isdir(base):
            return None, True
        return None, None

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        parent, _, leaf = name.rpartition('.')
        pm = self.load(parent) if parent else None
        path, pkg = self._find(name)
        if pkg is None:
            raise ImportError("No module named %r" % name)
        m = types.ModuleType(name)
        m.__dict__['__builtins__'] = self.builtins
        m.__file__ = path
        m.__package__ = name if pkg else parent
        if pkg:
            m.__path__ = [os.path.dirname(path)] if path else []
        self.modules[name] = m
        if path:
            code = _code_cache.get(path)
            if code is None:
                with open(path, encoding='utf-8') as fh:
                    code = rewrite(fh.read(), name, path)
                _code_cache[path] = code
            try:
                exec(code, m.__dict__)
            except BaseException:
                self.modules.pop(name, None)
                raise
        if pm is not None:
            setattr(pm, leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or ''
            parts = pkg.split('.')
            parts = parts[:len(parts) - (level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        top = name.split('.')[0]
        if top in self.modules or self._find(top)[1] is not None and top not in sys.builtin_module_names and \
                top in ('dashlivesim',):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f) and self._find(name + '.' + f)[1] is not None:
                        self.load(name + '.' + f)
                return m
            return self.modules[top]
        if name in SHIMS:
            return SHIMS[name]
        return importlib.__import__(name, globals, locals, fromlist, 0)

    def exec_file(self, path, name):
        "an instrumented copy of a file outside the repository (harness code)."
        code = _code_cache.get(path)
        if code is None:
            with open(path, encoding='utf-8') as fh:
                code = rewrite(fh.read(), name, path, record=False)
            _code_cache[path] = code
        m = types.ModuleType(name)
        m.__dict__['__builtins__'] = self.builtins
        m.__file__ = path
        m.__package__ = ''
        self.modules[name] = m
        exec(code, m.__dict__)
        return m
