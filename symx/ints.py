"""Symbolic integers, bit-vectors and floating-point samples for integer / byte-level code.

A harness is a function of a context c.  Under `explore` the context is symbolic: integers are z3 terms,
every comparison that is not decided by the path condition forks (all feasible outcomes are explored), and
each requirement is put to the solver as path condition and not(requirement).  A satisfiable requirement
yields a model, the harness is re-run with a concrete context on the unpatched code, and only a failure that
reproduces there is reported.
"""

import builtins
from fractions import Fraction
import itertools
import os
import re
import shutil
import struct
import tempfile
import time
import traceback

import numpy as np
import z3

REPO = os.environ.get("VERIF_REPO", "/repo")


class Unsup(BaseException):
    pass


class Misread(Exception):
    """bytes are interpreted with another layout than they were written with (reported after concrete replay)"""


class Prune(BaseException):
    pass


class Fail(Exception):
    pass


EX = None  # current executor


class Exec:
    def __init__(self, prefix, stats, timeout):
        self.prefix, self.stats = prefix, stats
        self.trail = []
        self.solver = z3.Solver()
        self.solver.set("timeout", int(timeout * 1000))
        self.names = {}
        self.obls = []
        self.assumed_only = True

    def check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.unsat:
            self.stats.unsat += 1
        elif r == z3.sat:
            self.stats.sat += 1
        else:
            self.stats.unknown += 1
        return r

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = len(self.trail)
        if k < len(self.prefix):
            val = self.prefix[k]
            other = False
        else:
            t, f = self.check(cond), self.check(z3.Not(cond))
            if z3.unknown in (t, f):
                raise Unsup("branch feasibility unknown")
            if t == z3.unsat and f == z3.unsat:
                raise Prune()
            val = t == z3.sat
            other = t == z3.sat and f == z3.sat
        self.stats.branches += bool(other)
        self.trail.append((val, other))
        self.solver.add(cond if val else z3.Not(cond))
        return val

    def assume(self, cond):
        self.solver.add(cond)
        if self.check() == z3.unsat:
            raise Prune()

    def concretize(self, e, limit=16):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        for _ in range(limit):
            if self.check() != z3.sat:
                raise Prune()
            v = self.solver.model().eval(e, model_completion=True)
            if self.branch(e == v):
                return v.as_long()
        raise Unsup(f"too many values for {e}")

    def nvalues(self, e, limit=8):
        """number of feasible values, up to the limit"""
        self.solver.push()
        n = 0
        while n <= limit and self.check() == z3.sat:
            v = self.solver.model().eval(e, model_completion=True)
            self.solver.add(e != v)
            n += 1
        self.solver.pop()
        return n


def iz(x):
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    return None


class SBool:
    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return EX.branch(self.e)

    def __and__(self, o):
        return SBool(z3.And(self.e, o.e if isinstance(o, SBool) else z3.BoolVal(bool(o))))

    def __or__(self, o):
        return SBool(z3.Or(self.e, o.e if isinstance(o, SBool) else z3.BoolVal(bool(o))))

    __rand__, __ror__ = __and__, __or__

    def __invert__(self):
        return SBool(z3.Not(self.e))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__


def _fold(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


TOKENS = {}


class SInt:
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    def _bin(self, o, f, swap=False):
        z = iz(o)
        if z is None:
            return NotImplemented
        return _fold(f(z, self.e) if swap else f(self.e, z))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, True)
    def __neg__(self): return _fold(-self.e)
    def __pos__(self): return self
    def __abs__(self): return self if bool(self >= 0) else -self

    @staticmethod
    def _divmod(a, b):
        b = z3.simplify(b)
        if EX.branch(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        # exact multiples: recognised from a model, confirmed by the solver
        if not z3.is_int_value(b) and EX.check() == z3.sat:
            m = EX.solver.model()
            av, bv = m.eval(a, model_completion=True).as_long(), m.eval(b, model_completion=True).as_long()
            if bv and av % bv == 0 and EX.check(a != b * (av // bv)) == z3.unsat:
                return z3.IntVal(av // bv), z3.IntVal(0)
        if EX.branch(b > 0):
            return a / b, a % b
        q = (-a) / (-b)
        return q, a - q * b

    def __floordiv__(self, o):
        z = iz(o)
        return NotImplemented if z is None else _fold(self._divmod(self.e, z)[0])

    def __rfloordiv__(self, o):
        z = iz(o)
        return NotImplemented if z is None else _fold(self._divmod(z, self.e)[0])

    def __mod__(self, o):
        z = iz(o)
        return NotImplemented if z is None else _fold(self._divmod(self.e, z)[1])

    def __rmod__(self, o):
        z = iz(o)
        return NotImplemented if z is None else _fold(self._divmod(z, self.e)[1])

    def __divmod__(self, o):
        q, r = self._divmod(self.e, iz(o))
        return _fold(q), _fold(r)

    def __truediv__(self, o):
        raise Unsup("true division of a symbolic integer")

    def __pow__(self, o):
        r = 1
        for _ in range(int(o)):
            r = self * r
        return r

    def __rpow__(self, o):
        return o ** int(self)

    def __lshift__(self, o): return self * 2 ** int(o)
    def __rshift__(self, o): return self // 2 ** int(o)

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        return int(self) & int(o)

    def _cmp(self, o, f):
        z = iz(o)
        return NotImplemented if z is None else SBool(f(self.e, z))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        z = iz(o)
        return False if z is None else SBool(self.e == z)

    def __ne__(self, o):
        z = iz(o)
        return True if z is None else SBool(self.e != z)

    def __bool__(self):
        return EX.branch(self.e != 0)

    def __index__(self):
        return EX.concretize(self.e)

    __int__ = __index__

    def __hash__(self):
        return hash(EX.concretize(self.e))

    def __float__(self):
        return float(EX.concretize(self.e))

    def __format__(self, spec):
        if EX.nvalues(self.e) <= 8:
            return format(EX.concretize(self.e), spec)
        TOKENS[len(TOKENS)] = self.e
        return f"<symbolic:{len(TOKENS) - 1}>"

    def __str__(self): return format(self, "")
    def __repr__(self): return "<symbolic>"

    @property
    def real(self): return self


# ------------------------------------------------------------------------------ bytes and files
def byte_of(x, k):
    """k-th little-endian byte of a nonnegative integer term"""
    if isinstance(x, int):
        return (x >> (8 * k)) & 255
    return ("int", x, k)


def bytes_to_int(bs, signed=False):
    bs = list(bs)
    if all(isinstance(b, int) for b in bs):
        return int.from_bytes(bytes(bs), "little", signed=signed)
    if all(isinstance(b, tuple) and b[0] == "int" for b in bs):
        x = bs[0][1]
        if all(b[1] is x for b in bs) and [b[2] for b in bs] == list(range(len(bs))) and x.width == len(bs):
            if signed:
                raise Unsup("signed header field")
            return x.val
    if all(isinstance(b, tuple) and b[0] == "field" for b in bs):
        x = bs[0][1]
        if all(b[1] is x for b in bs) and [b[2] for b in bs] == list(range(len(bs))) and x.width == len(bs):
            return x.val
    raise Unsup("header field assembled from symbolic bytes in an unusual way")


class Field:
    """an integer that occupies `width` little-endian bytes"""

    def __init__(self, val, width):
        self.val, self.width = val, width

    def bytes(self):
        return [("int", self, k) for k in range(self.width)]


class SBytes:
    def __init__(self, items):
        self.items = list(items)

    @staticmethod
    def make(items):
        items = list(items)
        return bytes(items) if all(isinstance(b, int) for b in items) else SBytes(items)

    def __len__(self): return len(self.items)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SBytes.make(self.items[k])
        raise Unsup("single symbolic byte")

    def __add__(self, o): return SBytes.make(self.items + list(o.items if isinstance(o, SBytes) else o))
    def __radd__(self, o): return SBytes.make(list(o) + self.items)

    def __eq__(self, o):
        if len(self) != len(o):
            return False
        raise Unsup("comparison of symbolic bytes")

    __hash__ = None


SIZES = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8}


def parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if fmt[:1] == "<":
        fmt = fmt[1:]
    elif fmt[:1] in "=@!>":
        raise Unsup("byte order")
    out, n = [], ""
    for ch in fmt:
        if ch.isdigit():
            n += ch
        elif ch.isspace():
            pass
        elif ch == "s":
            out.append(("s", int(n or 1)))
            n = ""
        else:
            out += [(ch, SIZES[ch])] * int(n or 1)
            n = ""
    return out


_pack, _unpack, _open, _memmap, _range, _frombuffer, _fromfile = (
    struct.pack, struct.unpack, builtins.open, np.memmap, builtins.range, np.frombuffer, np.fromfile)


def s_pack(fmt, *args):
    if not any(isinstance(a, SInt) for a in args):
        return _pack(fmt, *args)
    out = []
    for (ch, w), a in zip(parse_fmt(fmt), args):
        if ch == "s":
            out += list(a)
        elif isinstance(a, SInt):
            lo, hi = (0, 256 ** w) if ch.isupper() else (-(256 ** w) // 2, 256 ** w // 2)
            if not bool(a >= lo) or not bool(a < hi):
                raise struct.error("argument out of range")
            if not ch.isupper() and not bool(a >= 0):
                raise Unsup("negative symbolic field")
            out += Field(a, w).bytes()
        else:
            out += list(_pack("<" + ch, a))
    return SBytes.make(out)


def s_unpack(fmt, buf):
    if not isinstance(buf, SBytes):
        return _unpack(fmt, buf)
    out, p = [], 0
    for ch, w in parse_fmt(fmt):
        part = buf.items[p:p + w]
        p += w
        out.append(bytes(part) if ch == "s" else bytes_to_int(part, ch.islower()))
    if p != len(buf):
        raise struct.error("unpack requires a buffer of another size")
    return tuple(out)


class SymFile:
    """a file: concrete-length list of byte terms, optionally followed by `tail` abstract bytes"""

    def __init__(self, store, mode):
        self.s, self.pos, self.mode = store, 0, mode
        self.closed = False

    def __enter__(self): return self

    def __exit__(self, *a):
        self.closed = True
        return False

    def close(self): self.closed = True
    def tell(self): return self.pos
    def flush(self): pass
    def seekable(self): return True

    def seek(self, p, whence=0):
        if whence == 0:
            self.pos = p
        elif whence == 1:
            self.pos = self.pos + p
        elif self.s.tail is None:
            self.pos = len(self.s.items) + p
        else:
            self.pos = self.s.tail + len(self.s.items) + p
        return self.pos

    def read(self, n=-1):
        pos = self.pos
        if isinstance(pos, SInt) or isinstance(n, SInt) or (self.s.tail is not None and (n is None or n < 0)):
            if self.s.tail is None:
                pos, n = int(pos), int(n)
            else:
                raise Unsup("reading sample data with read()")
        end = len(self.s.items) if n is None or n < 0 else pos + n
        if self.s.tail is not None and end > len(self.s.items):
            raise Unsup("reading sample data with read()")
        out = self.s.items[pos:end]
        self.pos = pos + len(out)
        return SBytes.make(out)

    def write(self, data):
        if isinstance(data, SBytes):
            items = data.items
        elif isinstance(data, DuckData):
            items = data.items
        elif isinstance(data, Duck):
            items = data.raw()
        else:
            items = list(bytes(data))
        pos = int(self.pos)
        L = self.s.items
        if pos > len(L):
            L += [0] * (pos - len(L))
        L[pos:pos + len(items)] = items
        self.pos = pos + len(items)
        return len(items)


class Store:
    def __init__(self, items=(), tail=None):
        self.items, self.tail = list(items), tail


# ------------------------------------------------------------------------------ arrays of samples
def wrap_int(x, bits):
    """two's complement wrap-around of an integer term"""
    h = 2 ** (bits - 1)
    return (x + h) % (2 * h) - h


def trunc_int(x):
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def rat(v):
    return z3.RealVal(Fraction(float(v)))


def rint(x):
    f = z3.ToInt(x)
    d = x - z3.ToReal(f)
    up = z3.Or(d > rat(0.5), z3.And(d == rat(0.5), f % 2 == 1))
    return z3.ToReal(z3.If(up, f + 1, f))


class Val:
    """a term stored in an object array (z3 terms themselves confuse numpy)"""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class DuckData:
    """buffer exported by .data / .tobytes()"""

    def __init__(self, items):
        self.items = items

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsup(f"attribute {name} of a symbolic array")

    data = property(lambda s: s)
    nbytes = size = property(lambda s: len(s.items))
    def __len__(self): return len(self.items)
    def __bytes__(self): return self

    def tobytes(self): return SBytes(self.items)


class Duck:
    """ndarray stand-in: object array of z3 terms (Int for integer samples, Real for floats) with a dtype"""

    __array_priority__ = 1000

    def __init__(self, a, dtype):
        self.a, self.dtype = a, np.dtype(dtype)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsup(f"attribute {name} of a symbolic array")

    shape = property(lambda s: s.a.shape)
    ndim = property(lambda s: s.a.ndim)
    size = property(lambda s: s.a.size)
    itemsize = property(lambda s: s.dtype.itemsize)
    nbytes = property(lambda s: s.a.size * s.dtype.itemsize)
    T = property(lambda s: Duck(s.a.T, s.dtype))

    def transpose(self, *ax): return Duck(self.a.transpose(*ax), self.dtype)
    def reshape(self, *s, **k): return Duck(self.a.reshape(*s), self.dtype)
    def flatten(self, order="C"): return Duck(self.a.flatten(order), self.dtype)
    def ravel(self, order="C"): return Duck(self.a.ravel(order), self.dtype)
    def squeeze(self, *a): return Duck(self.a.squeeze(*a), self.dtype)
    def swapaxes(self, *a): return Duck(self.a.swapaxes(*a), self.dtype)
    def copy(self, order="C"): return Duck(self.a.copy(), self.dtype)
    def __len__(self): return len(self.a)

    def __getitem__(self, k):
        if isinstance(k, tuple):
            k = tuple(int(i) if isinstance(i, SInt) else i for i in k)
        elif isinstance(k, SInt):
            k = int(k)
        r = self.a[k]
        return Duck(r, self.dtype) if isinstance(r, np.ndarray) else Duck(np.array(r, dtype=object), self.dtype)

    def _map(self, f, dtype):
        out = np.empty(self.a.shape, dtype=object)
        for i in np.ndindex(*self.a.shape):
            out[i] = Val(f(self.a[i].e))
        return Duck(out, dtype)

    def astype(self, dt, **k):
        dt = np.dtype(dt)
        s = self.dtype
        if dt.byteorder == ">":
            raise Unsup("big endian")
        if s.kind == "f" and dt.kind == "f":
            if dt.itemsize < s.itemsize:
                raise Unsup("narrowing of samples")
            return Duck(self.a, dt)
        if s.kind == "f" and dt.kind == "i":
            return self._map(lambda x: wrap_int(trunc_int(x), 8 * dt.itemsize), dt)
        if s.kind == "i" and dt.kind == "f":
            return self._map(lambda x: z3.ToReal(x), dt)
        if s.kind == "i" and dt.kind == "i":
            return self._map(lambda x: x if dt.itemsize >= s.itemsize else wrap_int(x, 8 * dt.itemsize), dt)
        raise Unsup(f"astype {s} -> {dt}")

    def view(self, dt):
        dt = np.dtype(dt)
        if dt.itemsize == self.dtype.itemsize and dt.kind == self.dtype.kind:
            return self
        if dt.itemsize == 1 and self.a.ndim <= 1:
            return DuckData(self.raw())
        raise Unsup(f"view {self.dtype} -> {dt}")

    def raw(self):
        if self.dtype.kind not in "iu":
            raise Unsup("raw bytes of floats")
        out = []
        for x in self.a.ravel():
            out += [("smp", x, k, self.dtype.itemsize) for k in range(self.dtype.itemsize)]
        return out

    @property
    def data(self): return DuckData(self.raw())

    def tobytes(self, order="C"): return SBytes(self.raw())

    def _f64(self):
        return self if self.dtype.kind == "f" else self.astype("f8")

    def _arith(self, o, op, swap=False):
        if self.dtype.kind == "i" and op != "div" and not isinstance(o, float):
            raise Unsup("integer sample arithmetic")
        if self.dtype.kind == "f" and self.dtype.itemsize < 4:
            raise Unsup("arithmetic in half precision")
        a = self._f64()
        if isinstance(o, SInt):
            o = int(o)
        if isinstance(o, Duck):
            raise Unsup("array-array arithmetic on samples")
        v = rat(o)
        f = {"mul": lambda x, y: x * y, "add": lambda x, y: x + y, "sub": lambda x, y: x - y, "div": lambda x, y: x / y}[op]
        return a._map(lambda x: f(v, x) if swap else f(x, v), a.dtype)

    def __mul__(self, o): return self._arith(o, "mul")
    def __rmul__(self, o): return self._arith(o, "mul")
    def __truediv__(self, o): return self._arith(o, "div")
    def __add__(self, o): return self._arith(o, "add")
    def __radd__(self, o): return self._arith(o, "add")
    def __sub__(self, o): return self._arith(o, "sub")

    def clip(self, lo=None, hi=None, **k):
        lo, hi = k.get("min", lo), k.get("max", hi)
        if self.dtype.kind == "i":
            raise Unsup("clipping of integer samples")
        def f(x):
            if lo is not None:
                x = z3.If(x < rat(lo), rat(lo), x)
            if hi is not None:
                x = z3.If(x > rat(hi), rat(hi), x)
            return x
        return self._map(f, self.dtype)

    def _round(self, mode): return self._f64()._map(mode, "f8")

    def __array_ufunc__(self, uf, method, *ins, **kw):
        if method != "__call__" or kw.get("out") is not None:
            raise Unsup(f"ufunc {uf.__name__}")
        n = uf.__name__
        if n in ("rint", "floor", "ceil", "trunc"):
            return ins[0]._round({"rint": rint, "floor": lambda x: z3.ToReal(z3.ToInt(x)),
                                   "ceil": lambda x: -z3.ToReal(z3.ToInt(-x)), "trunc": lambda x: z3.ToReal(trunc_int(x))}[n])
        a, o = (ins[0], ins[1]) if isinstance(ins[0], Duck) else (ins[1], ins[0])
        if n in ("multiply", "add"):
            return a._arith(o, {"multiply": "mul", "add": "add"}[n])
        if n == "divide" and a is ins[0]:
            return a._arith(o, "div")
        if n in ("minimum", "fmin"):
            return a.clip(None, o)
        if n in ("maximum", "fmax"):
            return a.clip(o, None)
        if n == "clip":
            return a.clip(ins[1], ins[2])
        raise Unsup(f"ufunc {n}")

    def __array_function__(self, fn, types, args, kwargs):
        n = fn.__name__
        if n == "clip":
            a = list(args[1:]) + [None, None]
            return args[0].clip(kwargs.get("a_min", a[0]), kwargs.get("a_max", a[1]))
        if n in ("reshape", "transpose", "ravel", "squeeze", "swapaxes", "copy"):
            r = getattr(np, n)(args[0].a, *args[1:], **kwargs)
            return Duck(r, args[0].dtype)
        if n in ("round", "around", "rint"):
            return args[0]._round(rint)
        if n in ("iscomplexobj",):
            return False
        if n == "ndim":
            return args[0].ndim
        if n == "shape":
            return args[0].shape
        if n in ("zeros_like", "expand_dims", "atleast_2d"):
            if n == "expand_dims":
                return Duck(np.expand_dims(args[0].a, *args[1:], **kwargs), args[0].dtype)
        raise Unsup(f"numpy function {n}")


class Lazy:
    """array of symbolic shape over the abstract sample data of a file; element(index) -> (byte offset, itemsize, scale)"""

    __array_priority__ = 1000

    def __init__(self, shape, off, item, scale=None):
        self.shape, self.off, self.item, self.scale = tuple(shape), off, item, scale

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsup(f"attribute {name} of a symbolic array")

    ndim = property(lambda s: len(s.shape))
    dtype = property(lambda s: np.dtype("f8") if s.scale is not None else np.dtype(f"i{s.item}"))

    @property
    def size(self):
        r = 1
        for k in self.shape:
            r = k * r
        return r

    def __len__(self): return int(self.shape[0])

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = list(shape)
        tot = self.size
        if any(not isinstance(k, SInt) and k == -1 for k in shape):
            p = [i for i, k in enumerate(shape) if not isinstance(k, SInt) and k == -1][0]
            rest = 1
            for i, k in enumerate(shape):
                if i != p:
                    rest = k * rest
            if bool(SBool(iz(tot % rest) != 0)):
                raise ValueError("cannot reshape array")
            shape[p] = tot // rest
        else:
            n = 1
            for k in shape:
                n = k * n
            if bool(SBool(iz(n) != iz(tot))):
                raise ValueError("cannot reshape array")
        old = self.shape
        def off(idx):
            lin = 0
            for i, k in zip(idx, shape):
                lin = lin * k + i
            if len(old) == 1:
                return self.off((lin,))
            out = []
            for k in reversed(old[1:]):
                out.append(lin % k)
                lin = lin // k
            return self.off(tuple([lin] + out[::-1]))
        return Lazy(shape, off, self.item, self.scale)

    def transpose(self, *ax):
        if len(ax) == 1 and isinstance(ax[0], (tuple, list)):
            ax = tuple(ax[0])
        ax = tuple(a % self.ndim for a in ax) if ax else tuple(reversed(range(self.ndim)))
        def off(idx):
            old = [None] * len(ax)
            for i, a in zip(idx, ax):
                old[a] = i
            return self.off(tuple(old))
        return Lazy([self.shape[a] for a in ax], off, self.item, self.scale)

    T = property(lambda s: s.transpose())
    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)
    def copy(self, *a): return self
    def astype(self, dt, **k):
        if np.dtype(dt) == np.float64 or (np.dtype(dt).kind == "i" and np.dtype(dt).itemsize >= self.item):
            return self
        raise Unsup("astype of abstract data")
    def __truediv__(self, o):
        if isinstance(o, SInt):
            o = int(o)
        return Lazy(self.shape, self.off, self.item, (self.scale or 1.0) / float(o))
    def __mul__(self, o): return Lazy(self.shape, self.off, self.item, (self.scale or 1.0) * float(o))
    __rmul__ = __mul__

    def __getitem__(self, k):
        """slicing with symbolic bounds (start/stop only) or integer on the leading axes"""
        ks = k if isinstance(k, tuple) else (k,)
        if any(i is Ellipsis for i in ks):
            p = ks.index(Ellipsis)
            ks = ks[:p] + (slice(None),) * (self.ndim - len([i for i in ks if i is not Ellipsis and i is not None])) + ks[p + 1:]
        shape, plan, ax = [], [], 0
        for i in ks:
            if i is None:
                shape.append(1)
                plan.append(("new",))
                continue
            n = self.shape[ax]
            ax += 1
            if isinstance(i, slice):
                if i.step not in (None, 1):
                    raise Unsup("strided slice")
                def norm(v, d):
                    if v is None:
                        return d
                    if bool(SBool(iz(v) < 0)):
                        v = v + n
                        return v if bool(SBool(iz(v) >= 0)) else 0
                    return v if bool(SBool(iz(v) <= iz(n))) else n
                a, b = norm(i.start, 0), norm(i.stop, n)
                ln = b - a
                if bool(SBool(iz(ln) < 0)):
                    ln = 0
                shape.append(ln)
                plan.append(("slice", a))
            else:
                if bool(SBool(iz(i) < 0)):
                    i = i + n
                plan.append(("int", i))
        while ax < self.ndim:
            shape.append(self.shape[ax])
            plan.append(("slice", 0))
            ax += 1
        def off(idx):
            idx, out = list(idx), []
            for p in plan:
                if p[0] == "new":
                    idx.pop(0)
                elif p[0] == "int":
                    out.append(p[1])
                else:
                    out.append(idx.pop(0) + p[1])
            return self.off(tuple(out))
        return Lazy(shape, off, self.item, self.scale)

    def __array_function__(self, fn, types, args, kwargs):
        n = fn.__name__
        if n in ("reshape", "transpose", "swapaxes"):
            return getattr(args[0], n)(*args[1:])
        if n in ("squeeze",):
            raise Unsup("squeeze")
        raise Unsup(f"numpy function {n}")

    def __array_ufunc__(self, uf, method, *ins, **kw):
        n = uf.__name__
        if n == "divide" and ins[0] is self:
            return self / ins[1]
        if n == "multiply":
            return self * (ins[1] if ins[0] is self else ins[0])
        raise Unsup(f"ufunc {n}")


def itemsize_of(dt):
    if isinstance(dt, str) and "symbolic" in dt:
        # np.dtype accepts 1, 2, 4 and 8 bytes only
        m = re.search(r"<symbolic:(\d+)>", dt)
        x = TOKENS[int(m.group(1))]
        for k in (1, 2, 4, 8):
            if bool(SBool(x == k)):
                return k
        raise TypeError("data type not understood")
    d = np.dtype(dt)
    if d.kind not in "i" or d.byteorder == ">":
        raise Unsup(f"dtype {dt}")
    return d.itemsize


def s_memmap(f, dtype=np.uint8, mode="r+", offset=0, shape=None, order="C"):
    if isinstance(f, str) and f in FS:
        f = SymFile(FS[f], "rb")
    if not isinstance(f, SymFile):
        return _memmap(f, dtype=dtype, mode=mode, offset=offset, shape=shape, order=order)
    item = itemsize_of(dtype)
    if mode not in ("c", "r"):
        raise Unsup("writable map of the file")
    total = len(f.s.items) + (0 if f.s.tail is None else f.s.tail)
    if shape is None:
        if bool(SBool(iz((total - offset) % item) != 0)):
            raise ValueError("size of available data is not a multiple of the data-type size")
        shape = ((total - offset) // item,)
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    n = 1
    for k in shape:
        if bool(SBool(iz(k) < 0)):
            raise ValueError("negative dimensions are not allowed")
        n = k * n
    if bool(SBool(iz(offset + n * item) > iz(total))):
        raise ValueError("mmap length is greater than file size")
    if f.s.tail is None:
        return concrete_samples(f.s, int(offset), item, tuple(int(k) for k in shape))
    base = Lazy((n,), lambda idx: offset + idx[0] * item, item)
    return base if len(shape) == 1 else base.reshape(*shape)


def concrete_samples(store, off, item, shape):
    n = int(np.prod(shape)) if shape else 1
    out = np.empty(n, dtype=object)
    for i in range(n):
        bs = store.items[off + i * item: off + (i + 1) * item]
        if all(isinstance(b, int) for b in bs):
            out[i] = Val(z3.IntVal(int.from_bytes(bytes(bs), "little", signed=True)))
        elif all(isinstance(b, tuple) and b[0] == "smp" for b in bs):
            x = bs[0][1]
            if not (all(b[1] is x for b in bs) and [b[2] for b in bs] == list(range(item)) and bs[0][3] == item):
                raise Misread("samples are reassembled from bytes of different samples")
            out[i] = x
        else:
            raise Misread("header bytes are read as samples")
    return Duck(out.reshape(shape), f"<i{item}")


def s_frombuffer(buf, dtype=float, count=-1, offset=0, **k):
    if isinstance(buf, (SBytes, DuckData)):
        item = itemsize_of(dtype)
        n = (len(buf.items) - offset) // item if count == -1 else int(count)
        return concrete_samples(Store(buf.items), int(offset), item, (n,))
    return _frombuffer(buf, dtype=dtype, count=count, offset=offset, **k)


def s_fromfile(f, dtype=float, count=-1, sep="", offset=0):
    if not isinstance(f, SymFile):
        return _fromfile(f, dtype=dtype, count=count, sep=sep, offset=offset)
    item = itemsize_of(dtype)
    total = len(f.s.items) + (0 if f.s.tail is None else f.s.tail)
    avail = (total - f.pos - offset) // item
    if isinstance(count, SInt) or count >= 0:
        n = count if bool(SBool(iz(count) <= iz(avail))) else avail
    else:
        n = avail
    return s_memmap(f, dtype, "c", f.pos + offset, (n,))


FS = {}


def s_open(path, mode="r", *a, **k):
    if isinstance(path, str) and path.startswith("/symfs/"):
        if "b" not in mode:
            raise Unsup("text mode")
        if "w" in mode:
            FS[path] = Store()
        elif path not in FS:
            raise FileNotFoundError(path)
        return SymFile(FS[path], mode)
    return _open(path, mode, *a, **k)


class s_range_meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _range)


def s_range(*args):
    if not any(isinstance(a, SInt) for a in args):
        return _range(*args)
    start, stop, step = (0, args[0], 1) if len(args) == 1 else (args[0], args[1], 1) if len(args) == 2 else args

    def gen():
        if bool(SBool(iz(step) == 0)):
            raise ValueError("range() arg 3 must not be zero")
        up = bool(SBool(iz(step) > 0))
        cur = start
        while bool(SBool(iz(cur) < iz(stop)) if up else SBool(iz(cur) > iz(stop))):
            yield cur
            cur = cur + step

    return gen()


_isinstance_int = int


class Patch:
    def __enter__(self):
        FS.clear()
        struct.pack, struct.unpack, builtins.open = s_pack, s_unpack, s_open
        np.memmap, np.frombuffer, np.fromfile = s_memmap, s_frombuffer, s_fromfile
        builtins.range = s_range

    def __exit__(self, *a):
        struct.pack, struct.unpack, builtins.open = _pack, _unpack, _open
        np.memmap, np.frombuffer, np.fromfile = _memmap, _frombuffer, _fromfile
        builtins.range = _range
        return False


# ------------------------------------------------------------------------------ contexts
class SymC:
    mode = "sym"

    def __init__(self, ex):
        self.ex = ex
        self.vars = {}

    def int(self, name, lo, hi):
        v = z3.Int(name)
        self.vars[name] = v
        self.ex.assume(z3.And(v >= lo, v <= hi))
        return SInt(v)

    def assume(self, cond):
        self.ex.assume(cond.e if isinstance(cond, SBool) else z3.BoolVal(bool(cond)))

    def samples(self, name, shape, dtype):
        dt = np.dtype(dtype)
        out = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            nm = name + "".join(f"_{i}" for i in idx)
            if dt.kind == "i":
                v = z3.Int(nm)
                h = 2 ** (8 * dt.itemsize - 1)
                self.ex.assume(z3.And(v >= -h, v < h))
            else:
                v = z3.Real(nm)
            self.vars[nm] = v
            out[idx] = Val(v)
        return Duck(out, dt)

    def wav_path(self): return "/symfs/a.wav"

    def abstract_wav(self, header, size):
        """file with the given header field list [(value, width) | bytes] and `size` bytes of sample data"""
        items = []
        for h in header:
            if isinstance(h, bytes):
                items += list(h)
            else:
                v, w = h
                items += Field(v, w).bytes() if isinstance(v, SInt) else list(int(v).to_bytes(w, "little"))
        self.data_start = len(items)
        FS["/symfs/a.wav"] = Store(items, size)
        return "/symfs/a.wav"

    def require(self, cond, label):
        e = cond.e if isinstance(cond, SBool) else z3.BoolVal(bool(cond))
        self._req(e, label)

    def _req(self, e, label):
        ex = self.ex
        ex.stats.obligations += 1
        r = ex.check(z3.Not(e))
        if r == z3.unsat:
            ex.stats.discharged += 1
        elif r == z3.sat:
            # prefer a small model
            small = [z3.And(v >= -70, v <= 70) for v in self.vars.values() if z3.is_int(v)]
            m = None
            if small and ex.check(z3.Not(e), *small) == z3.sat:
                m = ex.solver.model()
            else:
                ex.check(z3.Not(e))
                m = ex.solver.model()
            self.ex.obls.append((label, self.values(m)))
        else:
            self.ex.obls.append((label, None))

    def values(self, m):
        out = {}
        for k, v in self.vars.items():
            x = m.eval(v, model_completion=True)
            if z3.is_int_value(x):
                out[k] = x.as_long()
            else:
                out[k] = float(x.as_fraction()) if z3.is_rational_value(x) else float(x.approx(20).as_fraction())
        return out

    def witness(self):
        if self.ex.check() == z3.sat:
            return self.values(self.ex.solver.model())
        return None

    # comparisons used by harnesses
    def eq(self, a, b, label):
        self.require(SBool(iz(a) == iz(b)), label)

    def elem(self, out, idx, byte_off, item, label):
        """element idx of the lazily read array is the sample at byte_off of the data section / 2^(8 item - 1)"""
        if isinstance(out, Duck):
            raise Unsup("concrete array")
        if out.scale != 1.0 / 2 ** (8 * item - 1) or out.item != item:
            self._req(z3.BoolVal(False), label + " (scale)")
            return
        off = out.off(idx)
        self._req(iz(off) == iz(self.data_start + byte_off), label)

    def sample_eq(self, y, x, label):
        """float result y equals integer sample x / full scale, exactly"""
        for yy, xx in zip(y.a.ravel(), x.a.ravel()):
            bits = 8 * x.dtype.itemsize
            self._req(yy.e == z3.ToReal(xx.e) / rat(2 ** (bits - 1)), label)

    def quantised(self, y, x, label):
        """|y - x| below one step of 2^-15 inside [-1, 1), saturation outside"""
        step, one = rat(2.0 ** -15), rat(1)
        for yy, xx in zip(y.a.ravel(), x.a.ravel()):
            yy, xx = yy.e, xx.e
            self._req(z3.Implies(z3.And(xx >= -one, xx < one), z3.And(yy - xx < step, xx - yy < step)), label + ": error below one step")
            self._req(z3.Implies(xx >= one, yy == one - step), label + ": saturates at the top")
            self._req(z3.Implies(xx < -one, yy == -one), label + ": saturates at the bottom")


class ConC:
    """concrete context: real files in a scratch directory, unpatched code"""

    mode = "num"

    def __init__(self, values, tmp, rng):
        self.v, self.tmp, self.rng = values, tmp, rng
        self.failures = []
        self.oks = 0

    def int(self, name, lo, hi):
        if name not in self.v:
            self.v[name] = self.rng.randint(max(lo, -20), min(hi, 20)) if min(hi, 20) >= max(lo, -20) else lo
        return self.v[name]

    def assume(self, cond):
        if not cond:
            raise Prune()

    def samples(self, name, shape, dtype):
        dt = np.dtype(dtype)
        out = np.zeros(shape, dtype=dt)
        for idx in np.ndindex(*shape):
            nm = name + "".join(f"_{i}" for i in idx)
            if nm in self.v:
                x = self.v[nm]
            elif dt.kind == "i":
                x = self.rng.randint(-(2 ** (8 * dt.itemsize - 1)), 2 ** (8 * dt.itemsize - 1) - 1)
            else:
                x = self.rng.choice([-1.5, -1, -0.3, 0.0, 0.123, 0.9, 0.99999, 1.0, 2.5])
            out[idx] = x
        return out

    def wav_path(self): return os.path.join(self.tmp, "a.wav")

    def abstract_wav(self, header, size):
        b = b""
        for h in header:
            b += h if isinstance(h, bytes) else int(h[0]).to_bytes(h[1], "little")
        self.data_start = len(b)
        if size > 1 << 22:
            raise Prune()
        self.body = bytes(self.rng.randrange(256) for _ in range(size))
        with open(self.wav_path(), "wb") as f:
            f.write(b + self.body)
        return self.wav_path()

    def require(self, cond, label):
        if bool(cond):
            self.oks += 1
        else:
            self.failures.append((label, "requirement is false"))

    def eq(self, a, b, label):
        if a == b:
            self.oks += 1
        else:
            self.failures.append((label, f"got {a!r}, expected {b!r}"))

    def elem(self, out, idx, byte_off, item, label):
        b = self.body[byte_off:byte_off + item]
        want = int.from_bytes(b, "little", signed=True) / 2 ** (8 * item - 1)
        try:
            got = float(out[tuple(int(i) for i in idx)])
        except IndexError as ex:
            self.failures.append((label, str(ex)))
            return
        if len(b) == item and got == want:
            self.oks += 1
        else:
            self.failures.append((label, f"got {got}, expected {want}"))

    def sample_eq(self, y, x, label):
        want = x.astype("f8") / 2.0 ** (8 * x.dtype.itemsize - 1)
        if y.shape == x.shape and np.array_equal(y, want):
            self.oks += 1
        else:
            self.failures.append((label, f"got {np.ravel(y)[:4]}, expected {np.ravel(want)[:4]}"))

    def quantised(self, y, x, label):
        x = x.astype("f8")
        d = np.abs(y - x)
        ok = np.where(x >= 1, y == 1 - 2.0 ** -15, np.where(x < -1, y == -1, d < 2.0 ** -15))
        if ok.all():
            self.oks += 1
        else:
            self.failures.append((label, f"got {np.ravel(y)[:4]} for {np.ravel(x)[:4]}"))


def run_concrete(fn, values, seed):
    import random

    tmp = tempfile.mkdtemp(prefix="symx")
    c = ConC(dict(values), tmp, random.Random(seed))
    try:
        fn(c)
        return c, "fail" if c.failures else "ok"
    except Prune:
        return c, "assume"
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        repo = [f for f in tb if f.filename.startswith(os.path.join(REPO, "ssspy"))]
        if repo:
            c.failures.append(("exception", f"{type(ex).__name__}: {ex} at {repo[-1].filename}:{repo[-1].lineno}"))
            return c, "fail"
        return c, f"harness error: {type(ex).__name__}: {ex}"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_int_harness(fn, opts, seed, tier, res):
    """explore all paths; fill in the result object"""
    global EX
    stack, cands, unknowns = [()], [], []
    n, wit = 0, []
    timeout = opts.get("timeout", 20)
    while stack:
        prefix = stack.pop()
        if n >= opts.get("max_paths", 2000):
            unknowns.append(f"path limit {n}")
            break
        EX = ex = Exec(prefix, res.stats, timeout)
        c = SymC(ex)
        try:
            with Patch():
                fn(c)
            n += 1
            res.stats.paths += 1
            w = c.witness()
            if w is not None:
                res.witnessed += 1
                if len(wit) < 6:
                    wit.append(w)
            done = True
        except Prune:
            res.stats.pruned += 1
            done = False
        except Unsup as e:
            unknowns.append(f"unsupported: {e}")
            done = False
        except Exception as e:
            # an exception of the real code on a feasible path: candidate violation
            tb = traceback.extract_tb(e.__traceback__)
            repo = [f for f in tb if f.filename.startswith(os.path.join(REPO, "ssspy"))]
            w = c.witness()
            if (repo or isinstance(e, Misread)) and w is not None:
                cands.append((f"{type(e).__name__}: {e} at {repo[-1].filename}:{repo[-1].lineno}", w))
            else:
                unknowns.append(f"{type(e).__name__}: {e} " + (f"{tb[-1].filename}:{tb[-1].lineno}" if tb else ""))
            done = False
        for lab, m in ex.obls:
            if m is None:
                unknowns.append(f"{lab}: solver returned unknown")
            else:
                cands.append((lab, m))
        for k in _range(len(prefix), len(ex.trail)):
            val, other = ex.trail[k]
            if other:
                stack.append(tuple(v for v, _ in ex.trail[:k]) + (not val,))
        res.nsym = max(res.nsym, len(c.vars))
        EX = None
        if len(cands) >= 5 or len(unknowns) > 5:
            break
    for lab, m in cands:
        c, st = run_concrete(fn, m, seed)
        if st == "fail":
            f = c.failures[0]
            res.status, res.detail = "violation", f"{f[0]}: {f[1]} (solver counterexample {lab})"
            res.replay = {"harness": res.name, "seed": seed, "values": m, "failures": c.failures[:5]}
            return
    for k, m in enumerate(wit):
        c, st = run_concrete(fn, m, seed + k)
        if st == "fail":
            f = c.failures[0]
            res.status, res.detail = "violation", f"{f[0]}: {f[1]} (on a path witness)"
            res.replay = {"harness": res.name, "seed": seed, "values": m, "failures": c.failures[:5]}
            return
        if st == "ok":
            res.validated += 1
            res.validated_values += c.oks
        elif st != "assume":
            unknowns.append(st)
    if wit:
        res.samples = [{"label": "path witness", "values": {k: v for k, v in list(wit[0].items())[:6]}}]
    if cands:
        res.status, res.detail = "inconclusive", f"counterexample for '{cands[0][0]}' {cands[0][1]} does not reproduce on the real code"
    elif unknowns:
        res.status, res.detail = "inconclusive", "; ".join(unknowns[:3])
    elif not res.witnessed:
        res.status, res.detail = "inconclusive", "no feasible path"
