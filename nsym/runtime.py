"""The instrumented operations: native when every operand is native, symbolic otherwise."""
import builtins
import binascii
import collections
import copy
import decimal
import fractions
import functools
import hashlib
import hmac
import io
import itertools
import math
import operator
import random
import struct
import sys
import types
import unicodedata
import z3

from . import core, seqs, models
from .core import (Sym, SymBool, SymInt, mk_int, mk_bool, b_and, b_or, b_not, b_term, is_sym, is_symint, int_parts,
                   int_bin, int_cmp, int_unary, int_plain, PathIncomplete, EngineSignal, is_z3, byte_term, byte_val,
                   norm_elem, resize)
from .seqs import (SymBytes, SymByteArray, SymStr, SymSeqB, SymSeqBase, LazyStr, mk_bytes, mk_str, els_of, chs_of, lift)
from .models import SymFloat, SymDecimal


def E():
    return core.E


def t(x):
    return bool(x) if is_sym(x) else x


OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv,
       '%': operator.mod, '**': operator.pow, '<<': operator.lshift, '>>': operator.rshift, '&': operator.and_,
       '|': operator.or_, '^': operator.xor, '@': operator.matmul}
IOPS = {'+': operator.iadd, '-': operator.isub, '*': operator.imul, '/': operator.itruediv, '//': operator.ifloordiv,
        '%': operator.imod, '**': operator.ipow, '<<': operator.ilshift, '>>': operator.irshift, '&': operator.iand,
        '|': operator.ior, '^': operator.ixor, '@': operator.imatmul}
CMPS = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt,
        '>=': operator.ge}

_nsym_slice = slice


# --------------------------------------------------------------------------
# containers with symbolic keys
def key_same(a, ha, b, hb):
    """set/dict key equality: identical, or same hash and equal"""
    if a is b:
        return True
    if ha is not None and hb is not None:
        h = ha == hb
        if h is False:
            return False
    else:
        h = True
    c = cmp('==', a, b)
    if not is_sym(c) and not isinstance(c, bool):
        c = truth(c)
    if h is True:
        return c
    return b_and(h, c)


def key_hash(k):
    """None when equality alone decides (primitive keys); else the hash value"""
    if isinstance(k, Sym):
        if type(k) is SymByteArray:
            raise TypeError("unhashable type: 'bytearray'")
        return None
    tk = type(k)
    if tk in (int, str, bytes, bool, float, type(None)) or isinstance(k, type):
        return None
    if isinstance(k, (list, dict, set, bytearray, SDict, SSet)):
        raise TypeError("unhashable type: '%s'" % tk.__name__)
    if tk is tuple:
        for x in k:
            key_hash(x)
        return None
    h = py_hash(k)
    return h


class SDict(Sym):
    __slots__ = ('ks', 'factory', 'ordered')

    def __init__(self, items=()):
        self.ks = []    # [key, hash, value]
        self.factory = None
        for k, v in items:
            self[k] = v

    @property
    def __class__(self):
        return dict

    def _find(self, k):
        h = key_hash(k)
        for ent in self.ks:
            if t(key_same(ent[0], ent[1], k, h)):
                return ent
        return None

    def __getitem__(self, k):
        if self.factory is None and isinstance(k, (SymInt, SymSeqBase)) and len(self.ks) > 1:
            # merge integer-valued tables instead of forking
            if all(type(e[2]) is int and (type(e[0]) is int) for e in self.ks) and is_symint(k):
                hit = b_or(*[int_cmp('==', k, e[0]) for e in self.ks])
                if not t(hit):
                    raise KeyError(k)
                acc = self.ks[-1][2]
                for e in self.ks[:-1]:
                    acc = core.int_ite(int_cmp('==', k, e[0]), e[2], acc)
                return acc
        e = self._find(k)
        if e is None:
            if self.factory is not None:
                v = call(self.factory)
                self.ks.append([k, key_hash(k), v])
                return v
            raise KeyError(k)
        return e[2]

    def __setitem__(self, k, v):
        e = self._find(k)
        if e is not None:
            e[2] = v
        else:
            self.ks.append([k, key_hash(k), v])

    def __delitem__(self, k):
        e = self._find(k)
        if e is None:
            raise KeyError(k)
        self.ks.remove(e)

    def contains(self, k):
        h = key_hash(k)
        return b_or(*[key_same(e[0], e[1], k, h) for e in self.ks])

    def __contains__(self, k):
        return t(self.contains(k))

    def __len__(self):
        return len(self.ks)

    def __iter__(self):
        return iter([e[0] for e in self.ks])

    def __reversed__(self):
        return iter([e[0] for e in reversed(self.ks)])

    def keys(self):
        return [e[0] for e in self.ks]

    def values(self):
        return [e[2] for e in self.ks]

    def items(self):
        return [(e[0], e[2]) for e in self.ks]

    def get(self, k, d=None):
        e = self._find(k)
        return d if e is None else e[2]

    def setdefault(self, k, d=None):
        e = self._find(k)
        if e is None:
            self[k] = d
            return d
        return e[2]

    def pop(self, k, *d):
        e = self._find(k)
        if e is None:
            if d:
                return d[0]
            raise KeyError(k)
        self.ks = [x for x in self.ks if x is not e]
        return e[2]

    def popitem(self, last=True):
        if not self.ks:
            raise KeyError('popitem(): dictionary is empty')
        e = self.ks.pop(-1 if last else 0)
        return (e[0], e[2])

    def move_to_end(self, k, last=True):
        e = self._find(k)
        self.ks = [x for x in self.ks if x is not e]
        if last:
            self.ks.append(e)
        else:
            self.ks.insert(0, e)

    def update(self, o=(), **kw):
        for k, v in (o.items() if hasattr(o, 'items') else o):
            self[k] = v
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        self.ks = []

    def copy(self):
        d = SDict()
        d.ks = [list(e) for e in self.ks]
        d.factory = self.factory
        return d

    def __eq__(self, o):
        if not isinstance(o, dict) or len(self) != len(o):
            return False
        for k, v in self.items():
            if not truth(cmp('in', k, o)) or not truth(cmp('==', getitem(o, k), v)):
                return False
        return True

    def __ne__(self, o):
        return not self == o

    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d

    __hash__ = None

    def __repr__(self):
        return repr(dict((k if not is_sym(k) else str(k), v) for k, v in self.items()))

    def native(self):
        return {to_native(k): to_native(v) for k, v in self.items()}


class SSet(Sym):
    __slots__ = ('ks', 'frozen')

    def __init__(self, items=(), frozen=False):
        self.ks = []
        self.frozen = frozen
        for k in items:
            self._add(k)

    @property
    def __class__(self):
        return frozenset if self.frozen else set

    def _find(self, k):
        h = key_hash(k)
        for e in self.ks:
            if t(key_same(e[0], e[1], k, h)):
                return e
        return None

    def _add(self, k):
        if self._find(k) is None:
            self.ks.append((k, key_hash(k)))

    def add(self, k):
        self._add(k)

    def discard(self, k):
        e = self._find(k)
        if e is not None:
            self.ks = [x for x in self.ks if x is not e]

    def remove(self, k):
        e = self._find(k)
        if e is None:
            raise KeyError(k)
        self.ks = [x for x in self.ks if x is not e]

    def pop(self):
        if not self.ks:
            raise KeyError('pop from an empty set')
        return self.ks.pop()[0]

    def contains(self, k):
        h = key_hash(k)
        return b_or(*[key_same(e[0], e[1], k, h) for e in self.ks])

    def __contains__(self, k):
        return t(self.contains(k))

    def __len__(self):
        return len(self.ks)

    def __iter__(self):
        return iter([e[0] for e in self.ks])

    def update(self, *its):
        for it in its:
            for k in it:
                self._add(k)

    def copy(self):
        return SSet(self, self.frozen)

    def union(self, *its):
        s = SSet(self, self.frozen)
        s.update(*its)
        return s

    def intersection(self, o):
        o = SSet(o)
        return SSet([k for k in self if k in o], self.frozen)

    def difference(self, o):
        o = SSet(o)
        return SSet([k for k in self if k not in o], self.frozen)

    def symmetric_difference(self, o):
        o = SSet(o)
        return self.difference(o).union(o.difference(self))

    def issubset(self, o):
        o = SSet(o)
        return all(k in o for k in self)

    def issuperset(self, o):
        return all(k in self for k in o)

    def isdisjoint(self, o):
        return not any(k in self for k in o)

    __or__ = __ior__ = union
    __and__ = intersection
    __sub__ = difference
    __xor__ = symmetric_difference
    __le__ = issubset
    __ge__ = issuperset

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return False
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        return not self == o

    def clear(self):
        self.ks = []

    __hash__ = None

    def native(self):
        return set(to_native(k) for k in self)


def mkset(items):
    return SSet(items)


def mkdict(items):
    return SDict(items)


def mkdict3(items):
    d = SDict()
    for star, k, v in items:
        if star is None:
            d[k] = v
        else:
            d.update(v)
    return d


class SymRange(Sym):
    """range() with symbolic bounds: elements are produced while the bound allows."""
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    @property
    def __class__(self):
        return range

    def __iter__(self):
        i = self.start
        up = t(int_cmp('>', self.step, 0)) if is_sym(self.step) else self.step > 0
        while True:
            c = cmp('<' if up else '>', i, self.stop)
            if not t(c):
                return
            yield i
            i = int_bin('+', i, self.step) if is_sym(i) or is_sym(self.step) else i + self.step

    def native(self):
        return range(*[x.__index__() for x in (self.start, self.stop, self.step)])

    def __len__(self):
        return len(self.native())

    def __reversed__(self):
        return reversed(self.native())

    def __getitem__(self, k):
        return self.native()[k]

    def __contains__(self, x):
        return t(self.contains(x))

    def contains(self, x):
        if is_sym(self.step) or self.step != 1:
            return x in self.native()
        return b_and(int_cmp('>=', x, self.start), int_cmp('<', x, self.stop))


# --------------------------------------------------------------------------
# truth and comparison
def truth(x):
    if x is True or x is False:
        E().tick()
        return x
    tx = type(x)
    if tx is SymBool:
        return E().fork(x.t)
    if isinstance(x, Sym):
        return x.__bool__() if hasattr(tx, '__bool__') else len(x) > 0
    f = getattr(tx, '__bool__', None)
    E().tick()
    if type(f) is types.FunctionType:
        return truth(f(x))
    if f is None:
        g = getattr(tx, '__len__', None)
        if type(g) is types.FunctionType:
            return truth(cmp('!=', g(x), 0))
    return bool(x)


def not_(x):
    if type(x) is SymBool:
        return b_not(x)
    return not truth(x)


def and_(x, *fs):
    for f in fs:
        if not truth(x):
            return x
        x = f()
    return x


def or_(x, *fs):
    for f in fs:
        if truth(x):
            return x
        x = f()
    return x


def merge_bool(is_and, x, *fs):
    """and / or of operands that call nothing: symbolic conditions are put together instead of decided one by one"""
    acc = []
    for i in range(len(fs) + 1):
        last = i == len(fs)
        if type(x) is SymBool:
            acc.append(x)
        else:
            if acc and not isinstance(x, bool):
                r = truth(b_and(*acc) if is_and else b_or(*acc))
                if r is not is_and:
                    return r
                acc = []
            if last and not acc:
                return x
            if truth(x) is not is_and:
                return x
        if not last:
            try:
                x = fs[i]()
            except Exception:
                if acc:
                    r = truth(b_and(*acc) if is_and else b_or(*acc))
                    if r is not is_and:
                        return r
                raise
    return b_and(*acc) if is_and else b_or(*acc)


MERGE_HI = 1 << 16


def merge_if(c, f, g):
    """f if c else g, of operands that call nothing: small numbers and conditions become one value"""
    if type(c) is not SymBool:
        return f() if truth(c) else g()
    try:
        x, y = f(), g()
    except Exception:
        return f() if truth(c) else g()
    if x is y:
        return x
    if type(x) in (bool, SymBool) and type(y) in (bool, SymBool):
        return b_or(b_and(c, x), b_and(b_not(c), y))
    if type(x) in (int, SymInt) and type(y) in (int, SymInt):
        px, py = int_parts(x), int_parts(y)
        if min(px[1], py[1]) >= -MERGE_HI and max(px[2], py[2]) <= MERGE_HI and \
                all(not is_sym(v) or v.pytype is int for v in (x, y)):
            return core.int_ite(c, x, y)
    return x if truth(c) else y


def chain(left, *rest):
    r = True
    for op, f in rest:
        right = f()
        r = cmp(op, left, right)
        if not truth(r):
            return r
        left = right
    return r


def is_same(a, b):
    if a is b:
        return True
    sa, sb = isinstance(a, Sym), isinstance(b, Sym)
    if not sa and not sb:
        return a is b
    if sa and sb:
        if type(a) is SymBool and type(b) is SymBool:
            return a == b
        if type(a) is SymInt and type(b) is SymInt:
            return b_and(int_cmp('==', a, b), int_cmp('<=', a, 256), int_cmp('>=', a, -5))
        return False
    s, n = (a, b) if sa else (b, a)
    if type(s) is SymBool:
        return s == n if isinstance(n, bool) else False
    if type(s) is SymInt and type(n) is int:
        return int_cmp('==', s, n) if -5 <= n <= 256 else False
    return False


def seq_eq(a, b):
    """== of lists/tuples element by element, merged where possible"""
    if len(a) != len(b):
        return False
    cs = []
    for x, y in zip(list(a), list(b)):
        if x is y:
            continue
        c = cmp('==', x, y)
        if c is False:
            return False
        if not is_sym(c):
            if not truth(c):
                return False
        else:
            cs.append(c)
    return b_and(*cs)


def cmp(op, a, b):
    E().tick()
    if op == 'is':
        return is_same(a, b)
    if op == 'is not':
        return b_not(is_same(a, b))
    if op == 'in':
        return contains(b, a)
    if op == 'not in':
        return b_not(contains(b, a))
    if isinstance(a, Sym) or isinstance(b, Sym):
        return CMPS[op](a, b)
    ta = type(a)
    if op in ('==', '!=') and ta is type(b) and (ta is list or ta is tuple):
        c = seq_eq(a, b)
        return c if op == '==' else b_not(c)
    if op == '!=' and type(ta.__dict__.get('__eq__', None) or getattr(ta, '__eq__', None)) is types.FunctionType and \
            getattr(ta, '__ne__') is object.__ne__:
        r = a == b
        return b_not(r) if isinstance(r, (bool, SymBool)) else not_(r)
    return CMPS[op](a, b)


def contains(c, x):
    if isinstance(c, Sym):
        f = getattr(type(c), 'contains', None)
        if f is not None:
            return c.contains(x)
        return x in c
    tc = type(c)
    if tc in (bytes, str, bytearray) and isinstance(x, Sym):
        return lift(c).contains(x)
    if tc in (list, tuple):
        cs = []
        for e in c:
            if e is x:
                return True
            r = cmp('==', e, x)
            if r is True:
                return True
            if is_sym(r):
                if not (isinstance(e, Sym) or type(e) in (int, str, bytes)):
                    if truth(r):
                        return True
                else:
                    cs.append(r)
            elif truth(r):
                return True
        return b_or(*cs)
    if isinstance(x, Sym):
        if tc is range:
            if c.step == 1:
                return b_and(int_cmp('>=', x, c.start), int_cmp('<', x, c.stop))
            return contains(list(c), x)
        if isinstance(c, (dict, set, frozenset)):
            return b_or(*[cmp('==', k, x) for k in list(c)])
    f = getattr(tc, '__contains__', None)
    if type(f) is types.FunctionType:
        r = f(c, x)
        return r if isinstance(r, (bool, SymBool)) else truth(r)
    if f is None and type(getattr(tc, '__iter__', None)) is types.FunctionType:
        return contains(list(c), x)
    return x in c


# --------------------------------------------------------------------------
# operators
def deep_sym(x, d=0):
    if isinstance(x, Sym):
        return True
    if d < 3 and type(x) in (list, tuple):
        return any(deep_sym(e, d + 1) for e in x)
    if d < 3 and type(x) is dict:
        return any(deep_sym(e, d + 1) for e in x.values())
    return False


def needs_model(x):
    if deep_sym(x):
        return True
    if type(x) in (list, tuple):
        return any(needs_model(e) for e in x)
    m = type(x).__module__
    return m not in ('builtins',)


def bin(op, a, b):
    E().tick()
    if op == '%':
        ta = type(a)
        if ta is str or SymStr in ta.__mro__:
            if is_sym(a) or needs_model(b):
                return models.percent_format(a, b)
        elif ta is bytes and deep_sym(b) or isinstance(a, SymSeqB):
            return percent_bytes(a, b)
    if op == '+' and type(a) is str and type(b) is LazyStr:
        return b.__radd__(a)
    if type(a) is bytearray:
        a = lift(a)
    if op == '**' or op == '/':
        return OPS[op](a, b)
    return OPS[op](a, b)


def percent_bytes(a, b):
    s = models.percent_format(a.decode('latin-1') if type(a) in (bytes, bytearray) else a.native().decode('latin-1'), b, True)
    return seqs.encode(chs_of(s), 'latin-1', 'strict') if is_sym(s) else s.encode('latin-1')


def ibin(op, a, b):
    E().tick()
    if type(a) in (str, SymStr, LazyStr, bytes, SymBytes) or is_symint(a):
        return bin(op, a, b)
    if type(a) is bytearray:
        a = lift(a)
    return IOPS[op](a, b)


def un(op, a):
    E().tick()
    return {'-': operator.neg, '+': operator.pos, '~': operator.invert}[op](a)


def getitem(o, k):
    E().tick()
    if isinstance(o, Sym):
        return o[k]
    if is_sym(k) or (type(k) is slice and (is_sym(k.start) or is_sym(k.stop) or is_sym(k.step))):
        to = type(o)
        if to in (bytes, bytearray, str):
            return lift(o)[k]
        if to in (list, tuple):
            if isinstance(k, slice):
                return o[seqs.conc_slice(k, len(o))]
            i = seqs.norm_index(k, len(o), to.__name__)
            if is_sym(i):
                if o and all(is_symint(e) or type(e) is int for e in o) and len(o) <= 300:
                    acc = o[-1]
                    for j in range(len(o) - 2, -1, -1):
                        acc = core.int_ite(int_cmp('==', i, j), o[j], acc)
                    return acc
                i = i.__index__()
            return o[i]
        if isinstance(o, dict):
            for kk in o:
                if truth(cmp('==', kk, k)):
                    return o[kk]
            m = getattr(type(o), '__missing__', None)
            if m:
                return m(o, k)
            raise KeyError(k)
        if to is range:
            return o[k if isinstance(k, slice) else k.__index__()]
    return o[k]


# --------------------------------------------------------------------------
# super()
class SymSuper:
    """super() of an int subclass whose value is symbolic"""

    def __init__(self, cls, obj):
        object.__setattr__(self, 'c', cls)
        object.__setattr__(self, 'o', obj)

    def __getattribute__(self, name):
        c, o = object.__getattribute__(self, 'c'), object.__getattribute__(self, 'o')
        pt = o.pytype
        mro = pt.__mro__
        for k in mro[mro.index(c) + 1:]:
            if k is int:
                f = getattr(SymInt, name)
                if isinstance(f, property):
                    return f.fget(o)
                if name in ('from_bytes', '__new__'):
                    return f
                plain = SymInt(o.bv, o.lo, o.hi)
                return getattr(plain, name)
            if name in vars(k):
                return vars(k)[name].__get__(o)
        raise AttributeError(name)


class NatSuper:
    """super() of a concrete int subclass object: its inherited int methods may meet symbolic operands"""

    def __init__(self, sup, val):
        object.__setattr__(self, 'a', (sup, val))

    def __getattribute__(self, name):
        sup, val = object.__getattribute__(self, 'a')
        m = getattr(sup, name)
        op = INT_DUNDER.get(name)
        if op is None or isinstance(m, types.MethodType):
            return m

        def f(*a):
            if len(a) == 1 and isinstance(a[0], Sym):
                return op(val, a[0])
            return m(*a)
        return f


INT_DUNDER = {}
for _o, _ns in (('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('//', 'floordiv'), ('%', 'mod'), ('<<', 'lshift'), ('>>', 'rshift'), ('&', 'and'),
                ('|', 'or'), ('^', 'xor'), ('/', 'truediv'), ('**', 'pow')):
    INT_DUNDER['__%s__' % _ns] = (lambda o: lambda p, q: int_bin(o, p, q))(_o)
    INT_DUNDER['__r%s__' % _ns] = (lambda o: lambda p, q: int_bin(o, q, p))(_o)
for _o, _ns in (('==', 'eq'), ('!=', 'ne'), ('<', 'lt'), ('<=', 'le'), ('>', 'gt'), ('>=', 'ge')):
    INT_DUNDER['__%s__' % _ns] = (lambda o: lambda p, q: CMPS[o](int(p), q))(_o)


def super_(cls, obj):
    if is_symint(obj):
        return SymSuper(cls, obj)
    if isinstance(obj, int) and not isinstance(obj, (bool, type)):
        return NatSuper(super(cls, obj), int(obj))
    return super(cls, obj)


# --------------------------------------------------------------------------
# --------------------------------------------------------------------------
def to_native(x, d=0):
    """a native copy of a value (forks over the feasible values where symbolic)"""
    if isinstance(x, Sym):
        if hasattr(x, 'native'):
            return x.native()
        if is_symint(x):
            v = x.__index__()
            return v if x.pytype is int else x.pytype(v)
        if type(x) is SymBool:
            return bool(x)
        raise PathIncomplete('native use of %s' % type(x).__name__)
    if d < 4:
        if type(x) is list:
            if deep_sym(x):
                return [to_native(e, d + 1) for e in x]
        elif type(x) is tuple:
            if deep_sym(x):
                return tuple(to_native(e, d + 1) for e in x)
        elif type(x) is dict:
            if deep_sym(x):
                return {to_native(k): to_native(v, d + 1) for k, v in x.items()}
    return x


MODELS = {}         # id(callable) -> (callable, model)


def model(*fs):
    def deco(m):
        for f in fs:
            MODELS[id(f)] = (f, m)
        return m
    return deco


def lookup(f):
    r = MODELS.get(id(f))
    if r is not None and r[0] is f:
        return r[1]
    return None


METHOD_WRAPPER = type((1).__add__)
WRAPPER_DESC = type(int.__add__)
METHOD_DESC = type(str.join)
CLS_METHOD_DESC = type(int.__dict__['from_bytes']) if False else type(bytes.__dict__['fromhex'])
BUILTIN = types.BuiltinFunctionType


def call(f, *a, **k):
    E().tick()
    tf = type(f)
    if tf is types.FunctionType:
        m = lookup(f)
        if m is not None:
            return m(*a, **k)
        return f(*a, **k)
    if tf is types.MethodType:
        return f(*a, **k)
    m = lookup(f)
    if m is not None:
        return m(*a, **k)
    if isinstance(f, type):
        return call_type(f, a, k)
    if tf is BUILTIN:
        s = f.__self__
        if s is None or isinstance(s, types.ModuleType):
            return native_call(f, a, k)
        if isinstance(s, type):
            return type_method(s, f, a, k)
        return bound_native(s, f.__name__, f, a, k)
    if tf is METHOD_WRAPPER:
        return bound_native(f.__self__, f.__name__, f, a, k)
    if tf is WRAPPER_DESC or tf is METHOD_DESC:
        if a and (deep_sym(a) or needs_lift(a[0], f.__name__)):
            o = a[0]
            if not isinstance(o, Sym):
                o = lift_num(lift(o))
            if isinstance(o, Sym):
                if is_symint(o) and o.pytype is not int and f.__objclass__ is int:
                    o = SymInt(o.bv, o.lo, o.hi)
                return getattr(o, f.__name__)(*a[1:], **k)
            if isinstance(o, (int, float)) and f.__objclass__ in (int, float):
                r = num_method(o, f.__name__, a[1:])
                if r is not NotImplemented:
                    return r
            elif isinstance(o, (str, bytes, bytearray, list, dict)) and f.__objclass__ in (str, bytes, bytearray, list, dict):
                return bound_native(o, f.__name__, f.__get__(o), a[1:], k)
        if f is object.__init__:
            return None
        return f(*a, **k)
    if tf is functools.partial:
        return call(f.func, *(f.args + a), **{**f.keywords, **k})
    if isinstance(f, operator.itemgetter) or isinstance(f, operator.attrgetter) or isinstance(f, operator.methodcaller):
        return f(*a, **k)
    return f(*a, **k)


def needs_lift(o, name):
    return type(o) in (bytes, str) and name == 'join'


class NumLift:
    """arithmetic methods of a native number applied to symbolic arguments"""

    def __init__(self, v):
        self.v = v


DUNDER = {'__add__': '+', '__sub__': '-', '__mul__': '*', '__floordiv__': '//', '__mod__': '%', '__truediv__': '/',
          '__lshift__': '<<', '__rshift__': '>>', '__and__': '&', '__or__': '|', '__xor__': '^', '__pow__': '**'}
RDUNDER = {'__r' + n[2:]: o for n, o in DUNDER.items()}
CDUNDER = {'__eq__': '==', '__ne__': '!=', '__lt__': '<', '__le__': '<=', '__gt__': '>', '__ge__': '>='}


def lift_num(o):
    return o


def num_method(v, name, a):
    if name in DUNDER:
        if isinstance(v, int) and name == '__pow__':
            return core.int_pow(int(v), *a)
        if name == '__truediv__':
            return models.int_truediv(int(v) if isinstance(v, int) else v, a[0])
        if isinstance(v, float):
            return models.float_bin(DUNDER[name], v, a[0])
        return int_bin(DUNDER[name], int(v), a[0])
    if name in RDUNDER:
        if isinstance(v, float):
            return models.float_bin(RDUNDER[name], a[0], v)
        return int_bin(RDUNDER[name], a[0], int(v))
    if name in CDUNDER:
        return int_cmp(CDUNDER[name], int(v), a[0]) if isinstance(v, int) else models.float_cmp(CDUNDER[name], v, a[0])
    if name == '__divmod__':
        return (int_bin('//', int(v), a[0]), int_bin('%', int(v), a[0]))
    return NotImplemented


def bound_native(s, name, f, a, k):
    ts = type(s)
    if name == 'join' and ts in (bytes, str):
        it = list(a[0]) if not isinstance(a[0], Sym) else a[0]
        if ts is str and any(type(x) is LazyStr and x._chs is None for x in it):
            parts = []
            for i, x in enumerate(it):
                if i:
                    parts.append(s)
                parts.append(x)
            return models.join_parts(parts)
        return lift(s).join(it)
    if ts is str and name == 'format' and (any(needs_model(x) for x in a) or any(needs_model(x) for x in k.values())):
        return models.str_format(s, a, k)
    if ts is list and name == 'sort':
        if k.get('key') is not None:
            kk = k['key']
            k = dict(k, key=lambda x: call(kk, x))
        return f(*a, **k)
    if ts is list and name in ('index', 'count', 'remove', '__contains__') and a:
        if name == '__contains__':
            return contains(s, a[0])
        return f(*a, **k)
    if not (deep_sym(a) or (k and deep_sym(tuple(k.values())))):
        return f(*a, **k)
    if ts in (bytes, str, bytearray):
        m = getattr(lift(s), name, None)
        if m is not None and name in dir(type(lift(s))):
            return m(*a, **k)
        return f(*[to_native(x) for x in a], **{n: to_native(v) for n, v in k.items()})
    if isinstance(s, (int, float)) and not is_sym(s):
        if name == 'to_bytes':
            return f(*[to_native(x) for x in a], **{n: to_native(v) for n, v in k.items()})
        r = num_method(s, name, a)
        if r is not NotImplemented or name in DUNDER or name in RDUNDER:
            return r
        return f(*[to_native(x) for x in a], **k)
    if isinstance(s, (list, tuple)):
        if name in ('append', 'extend', 'insert', 'pop', 'index', 'count', 'remove', 'copy', 'clear', 'reverse', '__contains__',
                    '__getitem__', '__setitem__', '__add__', '__len__', '__iter__', '__delitem__', '__eq__', '__mul__'):
            return f(*a, **k)
    if isinstance(s, dict):
        if name in ('get', 'setdefault', 'pop', '__getitem__', '__contains__') and a and isinstance(a[0], Sym):
            for kk in list(s):
                if truth(cmp('==', kk, a[0])):
                    return f(kk, *a[1:], **k)
            if name == 'get':
                return a[1] if len(a) > 1 else None
            if name == '__contains__':
                return False
            return f(to_native(a[0]), *a[1:])
        return f(*a, **k)
    if isinstance(s, (collections.deque, types.GeneratorType)):
        return f(*a, **k)
    if isinstance(s, decimal.Context):
        r = models.context_method(s, name, a)
        if r is not NotImplemented:
            return r
    if isinstance(s, decimal.Decimal):
        d = models.to_dec(s)
        return getattr(d, name)(*a, **k)
    if name in ('__init__', '__new__', '__setattr__', '__getattribute__', '__init_subclass__', '__delattr__'):
        return f(*a, **k)
    E().notes.add('native %s.%s called with symbolic arguments: concretised' % (ts.__name__, name))
    return f(*[to_native(x) for x in a], **{n: to_native(v) for n, v in k.items()})


def native_call(f, a, k):
    if deep_sym(a) or (k and deep_sym(tuple(k.values()))):
        E().notes.add('native %s called with symbolic arguments: concretised' % getattr(f, '__name__', f))
        return f(*[to_native(x) for x in a], **{n: to_native(v) for n, v in k.items()})
    return f(*a, **k)


def type_method(s, f, a, k):
    name = f.__name__
    if issubclass(s, int) and name == 'from_bytes':
        return core.int_from_bytes(*a, pytype=s, **k)
    if name == 'fromhex' and s in (bytes, bytearray):
        return fromhex(s, *a)
    if name == '__new__' and a and isinstance(a[0], type) and deep_sym(a[1:]):
        if issubclass(a[0], int):
            return int_plain(m_int(*a[1:]), a[0])
        if issubclass(a[0], (bytes, bytearray, str)):
            return call_type(a[0].__mro__[[x in (bytes, bytearray, str) for x in a[0].__mro__].index(True)], a[1:], k)
    if name == 'fromkeys':
        return SDict([(x, a[1] if len(a) > 1 else None) for x in a[0]])
    if name == 'maketrans':
        return native_call(f, a, k)
    if name == 'is_integer':
        return f(*a)
    return native_call(f, a, k) if s.__module__ in ('builtins', '_decimal', 'decimal') else f(*a, **k)


def call_type(c, a, k):
    if issubclass(c, BaseException):
        return c(*a, **k)
    if issubclass(c, int) and c is not bool and not issubclass(c, __import__('enum').Enum):
        if deep_sym(a) and type(c.__dict__.get('__new__', None)) is not staticmethod and '__init__' not in c.__dict__:
            return int_plain(m_int(*a, **k), c)
        return c(*a, **k)
    if issubclass(c, (bytes, bytearray, str)) and c not in (bytes, bytearray, str):
        if deep_sym(a):
            E().notes.add('subclass %s of a builtin sequence: modelled as the builtin' % c.__name__)
            base = bytes if issubclass(c, bytes) else bytearray if issubclass(c, bytearray) else str
            return lookup(base)(*a, **k)
    if issubclass(c, struct.Struct):
        return SymStructObj(*a)
    mod = c.__module__
    if mod in ('builtins',) and (deep_sym(a) or deep_sym(tuple(k.values()))):
        if c in (property, staticmethod, classmethod, super, object, list, tuple):
            return c(*a, **k)
        return native_call(c, a, k)
    return c(*a, **k)


# --------------------------------------------------------------------------
# builtins
@model(isinstance)
def m_isinstance(x, c):
    return isinstance(x, c)


@model(type)
def m_type(*a, **k):
    if len(a) == 1 and not k:
        return a[0].__class__ if isinstance(a[0], Sym) else type(a[0])
    return type(*a, **k)


@model(len)
def m_len(x):
    f = getattr(type(x), '__len__', None)
    if type(f) is types.FunctionType:
        r = f(x)
        return r
    return len(x)


@model(int)
def m_int(x=0, *a, **k):
    base = a[0] if a else k.get('base')
    if base is not None:
        if is_sym(base):
            base = base.__index__()
        if isinstance(x, SymSeqB):
            x = mk_str([seqs.to_char(e) for e in x.els])
        if isinstance(x, Sym):
            if SymStr in type(x).__mro__:
                return models.int_of_text(x, base)
            raise TypeError("int() can't convert non-string with explicit base")
        return int(x, base)
    if not isinstance(x, Sym):
        f = getattr(type(x), '__int__', None) or getattr(type(x), '__index__', None) or getattr(type(x), '__trunc__', None)
        if type(f) is types.FunctionType:
            return m_int(f(x))
        return int(x)
    if is_symint(x):
        if x.pytype is not int:
            f = getattr(x.pytype, '__int__', None)
            if type(f) is types.FunctionType:
                return f(x)
        return int_plain(x)
    if type(x) is SymBool:
        return x.as_int()
    if type(x) is SymFloat:
        return models.float_to_int(x, 'trunc')
    if type(x) is SymDecimal:
        return models.trunc_div(x.num, 10 ** x.scale)
    if isinstance(x, SymSeqB):
        x = mk_str([seqs.to_char(e) for e in x.els])
    if isinstance(x, SymStr) and is_sym(x):
        return models.int_of_text(x, 10)
    if isinstance(x, str):
        return int(x)
    raise TypeError("int() argument must be a string, a bytes-like object or a real number, not '%s'" % x.__class__.__name__)


@model(bool)
def m_bool(x=False):
    if type(x) is SymBool:
        return x
    if is_symint(x):
        return int_cmp('!=', x, 0)
    return truth(x)


@model(float)
def m_float(x=0.0):
    if isinstance(x, Sym):
        return models.float_of(x)
    f = getattr(type(x), '__float__', None)
    if type(f) is types.FunctionType:
        return f(x)
    return float(x)


@model(decimal.Decimal)
def m_decimal(x='0', context=None):
    return models.make_decimal(x) if isinstance(x, Sym) else decimal.Decimal(x, context)


@model(fractions.Fraction)
def m_fraction(*a, **k):
    return fractions.Fraction(*[to_native(x) for x in a], **k)


@model(str)
def m_str(*a, **k):
    if not a and not k:
        return ''
    x = a[0] if a else k.pop('object')
    enc = a[1] if len(a) > 1 else k.get('encoding')
    err = a[2] if len(a) > 2 else k.get('errors')
    if enc is not None or err is not None:
        e = els_of(x)
        if e is None:
            raise TypeError('decoding to str: need a bytes-like object, %s found' % type(x).__name__)
        return seqs.decode(e, enc or 'utf-8', err or 'strict')
    if isinstance(x, Sym):
        if is_symint(x) and x.pytype is not int:
            f = x.pytype.__dict__.get('__str__')
            if f is not None:
                return f(x)
        return models.text_of(x)
    if isinstance(x, BaseException):
        f = type(x).__str__
        if f is BaseException.__str__ or f is Exception.__str__:
            if len(x.args) == 1 and type(x) is not KeyError:
                return m_str(x.args[0])
            if deep_sym(x.args):
                return models.opaque(lambda: str(to_native(x.args)))
    f = getattr(type(x), '__str__', None)
    if type(f) is types.FunctionType:
        r = f(x)
        return r
    if type(f) is WRAPPER_DESC and f is object.__str__:
        g = type(x).__repr__
        if type(g) is types.FunctionType:
            return g(x)
    if type(x) in (list, tuple, dict) and deep_sym(x):
        return models.opaque(lambda: str(to_native(x)))
    return str(x)


@model(repr)
def m_repr(x):
    if isinstance(x, Sym):
        if is_symint(x):
            return seqs.num_text(x)
        if type(x) is SymBool:
            return str(x)
        if type(x) is SymFloat:
            return models.float_text(x)
        return models.opaque(lambda: repr(x.native()))
    if deep_sym(x):
        return models.opaque(lambda: repr(to_native(x)))
    f = getattr(type(x), '__repr__', None)
    if type(f) is types.FunctionType:
        return f(x)
    return repr(x)


@model(format)
def m_format(x, spec=''):
    if isinstance(x, Sym):
        return models.format_value(x, spec)
    return format(x, to_native(spec))


@model(ascii)
def m_ascii(x):
    return ascii(to_native(x))


@model(bytes)
def m_bytes(*a, **k):
    if not a and not k:
        return b''
    x = a[0] if a else k.get('source')
    enc = a[1] if len(a) > 1 else k.get('encoding')
    if enc is not None:
        c = chs_of(x)
        if c is None:
            raise TypeError('encoding without a string argument')
        return seqs.encode(c, enc, (a[2] if len(a) > 2 else k.get('errors')) or 'strict')
    if isinstance(x, str):
        raise TypeError('string argument without an encoding')
    if isinstance(x, int):
        n = x.__index__()
        if n < 0:
            raise ValueError('negative count')
        if n > 1 << 24:
            raise MemoryError()
        return bytes(n)
    f = getattr(type(x), '__bytes__', None)
    if type(f) is types.FunctionType and not isinstance(x, Sym):
        return f(x)
    return mk_bytes(list(elems_bytes(x)))


def elems_bytes(x):
    e = els_of(x)
    if e is not None:
        return e
    out = []
    for v in x:
        if not (isinstance(v, int)):
            if hasattr(type(v), '__index__'):
                v = v.__index__()
            else:
                raise TypeError("'%s' object cannot be interpreted as an integer" % type(v).__name__)
        out.append(core.to_byte_elem(v, 'bytes must be in range(0, 256)'))
    return out


@model(bytearray)
def m_bytearray(*a, **k):
    b = m_bytes(*a, **k)
    return SymByteArray(list(els_of(b)))


@model(memoryview)
def m_memoryview(x):
    e = els_of(x)
    if e is None:
        raise TypeError('memoryview: a bytes-like object is required')
    if isinstance(x, SymByteArray):
        return x
    return SymBytes(list(e))


@model(range)
def m_range(*a):
    if not deep_sym(a):
        return range(*a)
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    else:
        start, stop, step = a[0], a[1], a[2] if len(a) > 2 else 1
    for x in (start, stop, step):
        if not isinstance(x, int):
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)
    return SymRange(start, stop, step)


@model(hash)
def m_hash(x):
    return py_hash(x)


def py_hash(x):
    if is_symint(x):
        M = (1 << 61) - 1
        if x.pytype is not int and type(x.pytype.__dict__.get('__hash__')) is types.FunctionType:
            return py_hash(x.pytype.__dict__['__hash__'](x))
        if -M < x.lo and x.hi < M:
            x = int_plain(x)
            return core.int_ite(int_cmp('==', x, -1), -2, x) if x.lo <= -1 else x
        a = int_bin('%', int_unary('abs', x), M)
        if x.lo < 0:
            a = core.int_ite(int_cmp('<', x, 0), int_unary('-', a), a)
            a = core.int_ite(int_cmp('==', a, -1), -2, a)
        return a
    if type(x) is SymBool:
        return x.as_int()
    if isinstance(x, SymByteArray):
        raise TypeError("unhashable type: 'bytearray'")
    if isinstance(x, (SymBytes, SymStr)):
        e = x._e()
        w = x._w
        ts = [z3.BitVecVal(v, w) if isinstance(v, int) else v for v in e]
        f = E().uf('pyhash%d_%d' % (w, len(ts)), z3.BitVecSort(w * len(ts)), z3.BitVecSort(64))
        E().approx = True
        return mk_int(f(z3.Concat(*ts) if len(ts) > 1 else ts[0]), -(1 << 63), (1 << 63) - 1)
    if isinstance(x, Sym):
        if x.__hash__ is None:
            raise TypeError("unhashable type: '%s'" % x.__class__.__name__)
        return hash(x)
    f = getattr(type(x), '__hash__', None)
    if type(f) is types.FunctionType:
        r = f(x)
        if not isinstance(r, int):
            raise TypeError('__hash__ method should return an integer')
        lo, hi = int_parts(r)[1:]
        if lo < -(1 << 63) or hi >= (1 << 63):
            return py_hash(r)
        if lo <= -1 <= hi:
            return core.int_ite(int_cmp('==', r, -1), -2, r)
        return int_plain(r) if is_sym(r) else int(r)
    if type(x) is tuple and deep_sym(x):
        acc = 0
        hs = [py_hash(v) for v in x]
        ts = [resize(int_parts(h)[0], int_parts(h)[1], 72) for h in hs]
        f = E().uf('pyhash_tuple%d' % len(ts), *([z3.BitVecSort(72)] * len(ts) + [z3.BitVecSort(64)]))
        E().approx = True
        return mk_int(f(*ts), -(1 << 63), (1 << 63) - 1)
    return hash(x)


@model(hex)
def m_hex(x):
    if is_symint(x):
        return seqs.num_text(x, 16, '0x')
    return hex(x)


@model(oct)
def m_oct(x):
    if is_symint(x):
        return seqs.num_text(x, 8, '0o')
    return oct(x)


@model(builtins.bin)
def m_bin(x):
    if is_symint(x):
        return seqs.num_text(x, 2, '0b')
    return builtins.bin(x)


@model(ord)
def m_ord(x):
    if isinstance(x, SymSeqB):
        if len(x) != 1:
            raise TypeError('ord() expected a character, but string of length %d found' % len(x))
        return byte_val(x.els[0])
    if SymStr in type(x).__mro__:
        if len(x) != 1:
            raise TypeError('ord() expected a character, but string of length %d found' % len(x))
        c = x.chs[0]
        return c if isinstance(c, int) else mk_int(z3.ZeroExt(1, c), 0, 0x10ffff)
    if isinstance(x, Sym):
        raise TypeError('ord() expected string of length 1')
    return ord(x)


@model(chr)
def m_chr(x):
    if is_symint(x):
        if x.lo < 0 or x.hi > 0x10ffff:
            c = b_and(int_cmp('>=', x, 0), int_cmp('<=', x, 0x10ffff))
            if not t(c):
                raise ValueError('chr() arg not in range(0x110000)')
        return mk_str([z3.simplify(resize(x.bv, max(x.lo, 0), seqs.CW))])
    return chr(x)


@model(abs)
def m_abs(x):
    if is_symint(x):
        f = getattr(type(x), '__abs__')
        return f(x)
    return abs(x)


@model(divmod)
def m_divmod(a, b):
    if is_sym(a) or is_sym(b):
        return (bin('//', a, b), bin('%', a, b))
    return divmod(a, b)


@model(pow)
def m_pow(a, b, m=None):
    if is_sym(a) or is_sym(b) or is_sym(m):
        if type(a) is SymFloat or type(b) is SymFloat or isinstance(a, float) or isinstance(b, float):
            return pow(models.num_native(a), models.num_native(b))
        pa = int_parts(a)
        if pa is not None and int_parts(b) is not None:
            f = getattr(type(a), '__pow__', None)
            if type(f) is types.FunctionType and not is_sym(a):
                return f(a, b, m) if m is not None else f(a, b)
            return core.int_pow(a, b, m)
    if m is None:
        return pow(a, b)
    return pow(a, b, m)


@model(round)
def m_round(x, nd=None):
    if is_sym(nd):
        nd = nd.__index__()
    return round(x) if nd is None else round(x, nd)


@model(sum)
def m_sum(it, start=0):
    for x in it:
        start = bin('+', start, x)
    return start


def _minmax(op):
    def f(*a, **k):
        key = k.get('key')
        items = list(a[0]) if len(a) == 1 else list(a)
        if not items:
            if 'default' in k:
                return k['default']
            raise ValueError('arg is an empty sequence')
        best = items[0]
        kb = call(key, best) if key else best
        for x in items[1:]:
            kx = call(key, x) if key else x
            c = cmp(op, kx, kb)
            if is_sym(c) and key is None and int_parts(x) is not None and int_parts(best) is not None:
                best = kb = core.int_ite(c, x, best)
            elif truth(c):
                best, kb = x, kx
        return best
    return f


MODELS[id(min)] = (min, _minmax('<'))
MODELS[id(max)] = (max, _minmax('>'))


def truth_term(x):
    """truth of a value without deciding it, None when that needs running code"""
    if type(x) is SymBool:
        return x
    if is_symint(x) and type(x) is SymInt:
        return mk_bool(x.bv != 0)
    if isinstance(x, (int, str, bytes, type(None))) and not is_sym(x):
        return bool(x)
    return None


def _truths(it):
    if type(it) in (list, tuple) or isinstance(it, SymSeqB):
        ts = [truth_term(x) for x in it]
        if all(x is not None for x in ts):
            return ts
    return None


class PureMap:
    """map() of an operator: its elements may be looked at beyond the deciding one"""

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)


def _pure(it):
    """an iterator whose elements are comparisons and arithmetic only"""
    if type(it) is PureMap:
        return True
    if type(it) is not types.GeneratorType or it.gi_code.co_name != '<genexpr>' or it.gi_running:
        return False
    c = it.gi_code
    return not ({'call', 'super_', 'fstr'} & set(c.co_names)) and not any(type(k) is types.CodeType for k in c.co_consts) and \
        all(i.opname not in ('STORE_DEREF', 'STORE_GLOBAL', 'STORE_ATTR', 'STORE_SUBSCR', 'CALL_FUNCTION_EX')
            for i in __import__('dis').get_instructions(c))


def _decide(it, last):
    """any (last True) or all (last False) of a pure iterator, as one condition"""
    acc = []

    def settled():
        r = bool(acc) and t(b_or(*acc) if last else b_not(b_and(*acc)))
        acc.clear()
        return r
    while True:
        try:
            x = next(it)
        except StopIteration:
            break
        except Exception:
            if settled():
                return last
            raise
        y = truth_term(x)
        if y is None:
            if settled():
                return last
            if bool(truth(x)) is last:
                return last
        elif not is_sym(y):
            if bool(y) is last:
                return last
        else:
            acc.append(y)
    return b_or(*acc) if last else b_and(*acc)


@model(any)
def m_any(it):
    ts = _truths(it)
    if ts is not None:
        return b_or(*ts)
    if _pure(it):
        return _decide(it, True)
    for x in it:
        if truth(x):
            return True
    return False


@model(all)
def m_all(it):
    ts = _truths(it)
    if ts is not None:
        return b_and(*ts)
    if _pure(it):
        return _decide(it, False)
    for x in it:
        if not truth(x):
            return False
    return True


# structural iterators: they never look at the elements
for _f in (zip, iter, itertools.chain, itertools.chain.from_iterable, itertools.cycle, itertools.tee, itertools.zip_longest,
           itertools.product, itertools.pairwise, itertools.batched, itertools.permutations, itertools.combinations,
           itertools.combinations_with_replacement):
    MODELS[id(_f)] = (_f, (lambda f: lambda *a, **k: f(*a, **k))(_f))


def _concrete_index(x):
    return x.__index__() if is_sym(x) else x


@model(itertools.islice)
def m_islice(it, *a):
    return itertools.islice(it, *[_concrete_index(x) for x in a])


@model(itertools.repeat)
def m_repeat(x, *a, **k):
    return itertools.repeat(x, *[_concrete_index(v) for v in a], **{n: _concrete_index(v) for n, v in k.items()})


@model(itertools.count)
def m_count(start=0, step=1):
    def g():
        x = start
        while True:
            yield x
            x = bin('+', x, step)
    return g()


@model(itertools.accumulate)
def m_accumulate(it, func=None, *, initial=None):
    def g():
        acc = initial
        first = initial is None
        if not first:
            yield acc
        for x in it:
            if first:
                acc, first = x, False
            else:
                acc = bin('+', acc, x) if func is None else call(func, acc, x)
            yield acc
    return g()


@model(itertools.starmap)
def m_starmap(f, it):
    return (call(f, *xs) for xs in it)


@model(itertools.takewhile)
def m_takewhile(f, it):
    def g():
        for x in it:
            if not truth(call(f, x)):
                return
            yield x
    return g()


@model(itertools.dropwhile)
def m_dropwhile(f, it):
    def g():
        on = False
        for x in it:
            if not on and truth(call(f, x)):
                continue
            on = True
            yield x
    return g()


@model(itertools.filterfalse)
def m_filterfalse(f, it):
    return (x for x in it if not truth(x if f is None else call(f, x)))


@model(itertools.compress)
def m_compress(it, sel):
    return (x for x, y in zip(it, sel) if truth(y))


@model(itertools.groupby)
def m_groupby(it, key=None):
    def g():
        cur, ck, have = [], None, False
        for x in it:
            k = x if key is None else call(key, x)
            if have and truth(cmp('==', ck, k)):
                cur.append(x)
            else:
                if have:
                    yield ck, iter(cur)
                cur, ck, have = [x], k, True
        if have:
            yield ck, iter(cur)
    return g()


@model(sorted)
def m_sorted(it, key=None, reverse=False):
    if key is not None:
        return sorted(it, key=lambda x: call(key, x), reverse=truth(reverse))
    return sorted(it, reverse=truth(reverse))


@model(map)
def m_map(f, *its):
    if getattr(f, '__module__', None) == '_operator' and type(f) is BUILTIN:
        return PureMap(call(f, *xs) for xs in zip(*its))
    return (call(f, *xs) for xs in zip(*its))


@model(filter)
def m_filter(f, it):
    return (x for x in it if truth(x if f is None else call(f, x)))


@model(functools.reduce)
def m_reduce(f, it, *init):
    it = iter(it)
    acc = init[0] if init else next(it)
    for x in it:
        acc = call(f, acc, x)
    return acc


@model(list)
def m_list(it=()):
    return list(it)


@model(set)
def m_set(it=()):
    return SSet(it)


@model(frozenset)
def m_frozenset(it=()):
    return SSet(it, True)


@model(dict)
def m_dict(*a, **k):
    d = SDict()
    if a:
        d.update(a[0])
    for n, v in k.items():
        d[n] = v
    return d


@model(collections.OrderedDict)
def m_odict(*a, **k):
    return m_dict(*a, **k)


@model(collections.defaultdict)
def m_ddict(factory=None, *a, **k):
    d = m_dict(*a, **k)
    d.factory = factory
    return d


@model(print)
def m_print(*a, **k):
    E().state.setdefault('printed', []).append(a)
    return None


@model(input)
def m_input(*a):
    raise EOFError()


@model(getattr)
def m_getattr(o, n, *d):
    return getattr(o, to_native(n), *d)


@model(setattr)
def m_setattr(o, n, v):
    return setattr(o, to_native(n), v)


@model(hasattr)
def m_hasattr(o, n):
    return hasattr(o, to_native(n))


@model(id)
def m_id(x):
    return id(x)


@model(next)
def m_next(it, *d):
    return next(it, *d)


@model(enumerate)
def m_enumerate(it, start=0):
    return enumerate(it, to_native(start))


@model(reversed)
def m_reversed(x):
    f = getattr(type(x), '__reversed__', None)
    if isinstance(x, Sym) and f is not None:
        return f(x)
    return reversed(x)


@model(callable)
def m_callable(x):
    return callable(x)


@model(vars)
def m_vars(*a):
    return vars(*a)


@model(copy.copy)
def m_copy(x):
    if isinstance(x, Sym):
        return x._mk(list(x._e())) if isinstance(x, SymSeqBase) else x.copy() if hasattr(x, 'copy') else x
    return copy.copy(x)


@model(copy.deepcopy)
def m_deepcopy(x, memo=None):
    return deep_copy(x, {})


def deep_copy(x, memo):
    if id(x) in memo:
        return memo[id(x)][1]
    if isinstance(x, SymSeqBase):
        r = x._mk(list(x._e()))
    elif isinstance(x, (SDict, SSet)):
        r = x.copy()
    elif isinstance(x, Sym) or isinstance(x, (int, str, bytes, float, type(None), type, types.FunctionType, types.ModuleType)):
        return x
    elif type(x) is list:
        r = []
        memo[id(x)] = (x, r)
        r.extend(deep_copy(e, memo) for e in x)
        return r
    elif type(x) is tuple:
        r = tuple(deep_copy(e, memo) for e in x)
    elif hasattr(x, '__dict__'):
        r = type(x).__new__(type(x))
        memo[id(x)] = (x, r)
        for n, v in x.__dict__.items():
            r.__dict__[n] = deep_copy(v, memo)
        return r
    else:
        r = copy.deepcopy(x)
    memo[id(x)] = (x, r)
    return r


@model(math.floor)
def m_floor(x):
    if is_sym(x):
        if is_symint(x) or type(x) is SymBool:
            return int_plain(x)
        if type(x) is SymDecimal:
            return x.__floor__()
        return models.float_to_int(x, 'floor')
    return math.floor(x)


@model(math.ceil)
def m_ceil(x):
    if is_sym(x):
        if is_symint(x) or type(x) is SymBool:
            return int_plain(x)
        if type(x) is SymDecimal:
            return x.__ceil__()
        return models.float_to_int(x, 'ceil')
    return math.ceil(x)


@model(math.trunc)
def m_trunc(x):
    if is_sym(x):
        return m_int(x)
    return math.trunc(x)


@model(math.fabs)
def m_fabs(x):
    return abs(m_float(x)) if is_sym(x) else math.fabs(x)


def _nan_inf(f, fpf):
    def g(x):
        if type(x) is SymFloat:
            if x.bits is not None:
                return mk_bool(fpf(x.fp()))
            return False
        if is_sym(x):
            return False
        return f(x)
    return g


MODELS[id(math.isnan)] = (math.isnan, _nan_inf(math.isnan, z3.fpIsNaN))
MODELS[id(math.isinf)] = (math.isinf, _nan_inf(math.isinf, z3.fpIsInf))
MODELS[id(math.isfinite)] = (math.isfinite, lambda x: b_not(b_or(MODELS[id(math.isnan)][1](x), MODELS[id(math.isinf)][1](x)))
                             if is_sym(x) else math.isfinite(x))

for _f, _o in ((operator.add, '+'), (operator.sub, '-'), (operator.mul, '*'), (operator.floordiv, '//'), (operator.mod, '%'),
               (operator.xor, '^'), (operator.and_, '&'), (operator.or_, '|'), (operator.lshift, '<<'), (operator.rshift, '>>'),
               (operator.truediv, '/')):
    MODELS[id(_f)] = (_f, (lambda o: lambda a, b: bin(o, a, b))(_o))
for _f, _o in ((operator.eq, '=='), (operator.ne, '!='), (operator.lt, '<'), (operator.le, '<='), (operator.gt, '>'),
               (operator.ge, '>=')):
    MODELS[id(_f)] = (_f, (lambda o: lambda a, b: cmp(o, a, b))(_o))
for _f, _o in ((operator.iadd, '+'), (operator.isub, '-'), (operator.imul, '*'), (operator.ifloordiv, '//'), (operator.imod, '%'),
               (operator.ixor, '^'), (operator.iand, '&'), (operator.ior, '|'), (operator.ilshift, '<<'), (operator.irshift, '>>'),
               (operator.itruediv, '/'), (operator.ipow, '**')):
    MODELS[id(_f)] = (_f, (lambda o: lambda a, b: ibin(o, a, b))(_o))
for _f, _o in ((operator.neg, '-'), (operator.pos, '+'), (operator.invert, '~'), (operator.inv, '~')):
    MODELS[id(_f)] = (_f, (lambda o: lambda a: un(o, a))(_o))
MODELS[id(operator.abs)] = (operator.abs, m_abs)
MODELS[id(operator.pow)] = (operator.pow, lambda a, b: bin('**', a, b))
MODELS[id(operator.concat)] = (operator.concat, lambda a, b: bin('+', a, b))
MODELS[id(operator.contains)] = (operator.contains, lambda a, b: cmp('in', b, a))
MODELS[id(operator.is_)] = (operator.is_, lambda a, b: cmp('is', a, b))
MODELS[id(operator.is_not)] = (operator.is_not, lambda a, b: cmp('is not', a, b))
MODELS[id(operator.index)] = (operator.index, lambda a: int_plain(a) if is_symint(a) else operator.index(a))
MODELS[id(operator.getitem)] = (operator.getitem, getitem)
MODELS[id(operator.truth)] = (operator.truth, truth)
MODELS[id(operator.not_)] = (operator.not_, not_)


def memoize(fn):
    memo = []

    def wrapper(*a, **k):
        for ka, kk, v in memo:
            if len(ka) == len(a) and set(kk) == set(k):
                c = b_and(*[key_same(x, key_hash(x), y, key_hash(y)) for x, y in zip(ka, a)],
                          *[key_same(kk[n], key_hash(kk[n]), k[n], key_hash(k[n])) for n in k])
                if truth(c):
                    return v
        for x in list(a) + list(k.values()):
            key_hash(x)
        v = call(fn, *a, **k)
        memo.append((a, k, v))
        return v
    wrapper.cache_clear = lambda: memo.clear()
    wrapper.__wrapped__ = fn
    wrapper.__name__ = getattr(fn, '__name__', 'f')
    return wrapper


@model(functools.lru_cache)
def m_lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return memoize(maxsize)
    return memoize


@model(functools.cache)
def m_cache(fn):
    return memoize(fn)


# --------------------------------------------------------------------------
# hexadecimal
def hex_source(x):
    """characters of an argument that a hex decoder accepts"""
    c = chs_of(x)
    if c is not None:
        for v in c:
            if isinstance(v, int) and v > 127:
                raise ValueError('string argument should contain only ASCII characters')
        cs = [z3.UGE(v, 128) for v in c if is_z3(v) and v.get_id() not in E().hexnib]
        cs = [v for v in (z3.simplify(q) for q in cs) if not z3.is_false(v)]
        if cs and E().fork(z3.Or(*cs)):
            raise ValueError('string argument should contain only ASCII characters')
        return c
    e = els_of(x)
    if e is None:
        raise TypeError("argument should be bytes, buffer or ASCII string, not '%s'" % type(x).__name__)
    return e


@model(binascii.unhexlify, binascii.a2b_hex)
def m_unhexlify(x):
    if not isinstance(x, Sym):
        return binascii.unhexlify(x)
    return mk_bytes(seqs.unhex_elems(hex_source(x), binascii.Error))


@model(binascii.hexlify, binascii.b2a_hex)
def m_hexlify(x, *a, **k):
    e = els_of(x)
    if e is None:
        raise TypeError("a bytes-like object is required, not '%s'" % type(x).__name__)
    if a or k or not any(is_z3(v) for v in e):
        return binascii.hexlify(bytes(to_native(mk_bytes(e))), *a, **k)
    return mk_bytes([seqs.char_low(c) if is_z3(c) else c for c in seqs.hex_chars(e, 8)])


def fromhex(s, x):
    c = chs_of(x)
    if c is None:
        raise TypeError('fromhex() argument must be str, not %s' % type(x).__name__)
    if not any(is_z3(v) for v in c):
        v = bytes.fromhex(''.join(map(chr, c)))
        return lift(bytearray(v)) if s is bytearray else v
    ws = (32, 9, 10, 11, 12, 13)
    sym = [v for v in c if is_z3(v) and v.get_id() not in E().hexnib]
    if sym:
        allhex = z3.And(*[seqs.char_nib(v)[1] for v in sym])
        if not E().fork(allhex):
            # white space is allowed between the bytes: decide well-formedness as a whole,
            # then the number of white-space characters, and pick the digits by position
            half, bad, isws = z3.BoolVal(False), z3.BoolVal(False), []
            nibs = []
            for v in c:
                nib, hexd = seqs.char_nib(v)
                hx = hexd if is_z3(hexd) else z3.BoolVal(bool(hexd))
                w_ = z3.Or(*[v == x for x in ws]) if is_z3(v) else z3.BoolVal(v in ws)
                bad = z3.Or(bad, z3.Not(z3.Or(hx, w_)), z3.And(half, w_))
                half = z3.If(w_, half, z3.Not(half))
                isws.append(z3.simplify(w_))
                nibs.append(z3.BitVecVal(nib, 4) if isinstance(nib, int) else nib)
            if E().fork(z3.simplify(z3.Or(bad, half))):
                raise ValueError('non-hexadecimal number found in fromhex() arg')
            # at[i][j]: j digits stand before character i
            F, L = z3.BoolVal(False), len(c)
            at = [[z3.BoolVal(True)] + [F] * L]
            for i, w_ in enumerate(isws):
                at.append([z3.simplify(z3.If(w_, at[i][j], at[i][j - 1] if j else F)) for j in range(L + 1)])
            n = L - L % 2
            while n and not E().fork(at[L][n]):
                n -= 2
            digs = []
            for j in range(n):
                acc = z3.BitVecVal(0, 4)
                for i in range(j, L - n + j + 1):
                    acc = z3.If(z3.And(z3.Not(isws[i]), at[i][j]), nibs[i], acc)
                digs.append(acc)
            out = [norm_elem(z3.simplify(z3.Concat(x, y))) for x, y in zip(digs[::2], digs[1::2])]
            return SymByteArray(out) if s is bytearray else mk_bytes(out)
    out, i = [], 0
    while i < len(c):
        if isinstance(c[i], int) and c[i] in ws:
            i += 1
            continue
        if i + 1 >= len(c):
            raise ValueError('non-hexadecimal number found in fromhex()')
        out += seqs.unhex_elems(c[i:i + 2], ValueError)
        i += 2
    return SymByteArray(out) if s is bytearray else mk_bytes(out)


# --------------------------------------------------------------------------
# struct
STRUCT_SIZES = {'x': 1, 'c': 1, 'b': 1, 'B': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 8, 'L': 8, 'q': 8, 'Q': 8,
                'n': 8, 'N': 8, 'f': 4, 'd': 8, 'e': 2, 's': 1, 'p': 1, 'P': 8}


def parse_fmt(fmt):
    """(byte order, [(count or None, code)], native alignment)"""
    if isinstance(fmt, SymSeqB):
        fmt = mk_str([seqs.to_char(e) for e in fmt.els])
    if isinstance(fmt, (bytes, bytearray)):
        fmt = bytes(fmt).decode('ascii')
    if type(fmt) is LazyStr and fmt._chs is None:
        parts = list(fmt.parts)
        order = '@'
        if parts and type(parts[0]) is str and parts[0] and parts[0] in '<>=!@':
            order = parts.pop(0)
        if len(parts) == 2 and type(parts[0]) is seqs.NumText and parts[0].base == 10 and parts[1] in ('s', 'x') and \
                int_parts(parts[0].x)[1] >= 0:
            return order, [(parts[0].x, parts[1])]
        fmt = fmt.native()
    elif is_sym(fmt):
        fmt = fmt.native()
    import re
    order = '@'
    s = fmt
    if s and s[0] in '<>=!@':
        order, s = s[0], s[1:]
    items = []
    for m in re.finditer(r'\s*(\d*)(.)', s):
        n, c = m.groups()
        if c not in STRUCT_SIZES:
            raise struct.error('bad char in struct format')
        items.append((int(n) if n else None, c))
    struct.calcsize(fmt)
    return order, items


def struct_layout(order, items):
    """flat list of (code, size, pad before)"""
    out = []
    off = 0
    for n, c in items:
        sz = STRUCT_SIZES[c]
        if order != '@' and c in 'lL':
            sz = 4
        pad = 0
        if order == '@' and c in 'hHiIlLqQnNfdP' and off % sz:
            pad = sz - off % sz
        if c in 'sp':
            k = 1 if n is None else n
            out.append((c, k, pad))
            off += pad + k
        else:
            for i in range(1 if n is None else n):
                out.append((c, sz, pad))
                off += pad + sz
                pad = 0
            if n == 0 and pad:
                out.append(('x', 0, pad))
                off += pad
    return out


def sys_order(order):
    return 'big' if order in '>!' else 'little'


def m_struct_pack(fmt, *args):
    if not is_sym(fmt) and not deep_sym(args):
        return struct.pack(fmt, *args)
    order, items = parse_fmt(fmt)
    if any(is_sym(n) for n, c in items):
        items = [(n.__index__() if is_sym(n) else n, c) for n, c in items]
    lay = struct_layout(order, items)
    need = sum(1 for c, s, p in lay if c != 'x')
    if need != len(args):
        raise struct.error('pack expected %d items for packing (got %d)' % (need, len(args)))
    out = []
    ai = 0
    for c, sz, pad in lay:
        out += [0] * pad
        if c == 'x':
            out += [0] * sz
            continue
        v = args[ai]
        ai += 1
        if c == 'c':
            e = els_of(v) if not isinstance(v, SymByteArray) and not isinstance(v, bytearray) else None
            if e is None or len(e) != 1:
                raise struct.error('char format requires a bytes object of length 1')
            out += e
        elif c == '?':
            b = m_bool(v)
            if is_sym(b):
                out.append(norm_elem(z3.simplify(z3.If(b.t, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))))
            else:
                out.append(1 if b else 0)
        elif c in 'sp':
            e = els_of(v)
            if e is None:
                raise struct.error("argument for 's' must be a bytes object")
            if c == 'p':
                raise PathIncomplete("struct format 'p'")
            out += (e + [0] * sz)[:sz]
        elif c in 'fde':
            out += pack_float(c, v, sys_order(order))
        else:
            if not isinstance(v, int):
                if hasattr(type(v), '__index__') and not is_sym(v):
                    v = v.__index__()
                else:
                    raise struct.error('required argument is not an integer')
            signed = c in 'bhilqn'
            try:
                b = core.int_to_bytes(v, sz, sys_order(order), signed) if is_sym(v) else \
                    int(v).to_bytes(sz, sys_order(order), signed=signed)
            except OverflowError:
                raise struct.error('argument out of range')
            out += els_of(b)
    return mk_bytes(out)


def pack_float(c, v, order):
    if type(v) is SymFloat and v.bits is not None:
        bits = v.bits
        if c == 'd':
            n = 8
            tt = bits
        elif c == 'f':
            x = z3.fpBVToFP(bits, z3.Float64())
            y = z3.fpFPToFP(z3.RNE(), x, z3.Float32())
            if E().fork(z3.And(z3.fpIsInf(y), z3.Not(z3.fpIsInf(x)))):
                raise OverflowError('float too large to pack with f format')
            n = 4
            tt = E().fresh('f32')
            tt = z3.BitVec(tt, 32)
            # NaN: sign and top payload bits are kept, quiet bit set
            nan = z3.Concat(z3.Extract(63, 63, bits), z3.BitVecVal(0xff, 8), z3.Extract(51, 29, bits) | z3.BitVecVal(1 << 22, 23))
            E().add(z3.If(z3.fpIsNaN(x), tt == nan, z3.fpBVToFP(tt, z3.Float32()) == y))
            E().add(z3.Implies(z3.Not(z3.fpIsNaN(x)), z3.Not(z3.fpIsNaN(z3.fpBVToFP(tt, z3.Float32())))))
        else:
            raise PathIncomplete('half-precision float')
        els = [norm_elem(z3.simplify(z3.Extract(8 * i + 7, 8 * i, tt))) for i in range(n)]
        return els if order == 'little' else els[::-1]
    if is_symint(v) or type(v) is SymBool or type(v) is SymFloat:
        if type(v) is SymBool:
            v = v.as_int()
        if is_symint(v) and max(abs(v.lo), abs(v.hi)) <= 2 ** 53:
            tt = z3.fpSignedToFP(z3.RNE(), v.bv, z3.Float64() if c == 'd' else z3.Float32())
            b = z3.BitVec(E().fresh('fbits'), 64 if c == 'd' else 32)
            E().add(z3.fpBVToFP(b, z3.Float64() if c == 'd' else z3.Float32()) == tt)
            E().add(z3.Not(z3.fpIsNaN(z3.fpBVToFP(b, z3.Float64() if c == 'd' else z3.Float32()))))
            E().add(z3.Implies(v.bv == 0, b == 0))
            els = [norm_elem(z3.simplify(z3.Extract(8 * i + 7, 8 * i, b))) for i in range(b.size() // 8)]
            return els if order == 'little' else els[::-1]
        v = models.num_native(v)
    elif is_sym(v):
        raise struct.error('required argument is not a float')
    return list(struct.pack(('<' if order == 'little' else '>') + c, v))


def m_struct_unpack(fmt, buf):
    e = els_of(buf)
    if e is None:
        raise TypeError("a bytes-like object is required, not '%s'" % type(buf).__name__)
    if not is_sym(fmt) and not any(is_z3(v) for v in e):
        return struct.unpack(fmt, bytes(e))
    order, items = parse_fmt(fmt)
    fixed = []
    for n, c in items:
        if is_sym(n):
            # one symbolic count: it must make up exactly the buffer
            if len(items) != 1:
                n = n.__index__()
            else:
                if not t(int_cmp('==', n, len(e))):
                    raise struct.error('unpack requires a buffer of a different size')
                n = len(e)
        fixed.append((n, c))
    lay = struct_layout(order, fixed)
    total = sum(s + p for c, s, p in lay)
    if total != len(e):
        raise struct.error('unpack requires a buffer of %d bytes' % total)
    out = []
    off = 0
    for c, sz, pad in lay:
        off += pad
        b = e[off:off + sz]
        off += sz
        if c == 'x':
            continue
        if c in 'cs':
            out.append(mk_bytes(b))
        elif c == 'p':
            raise PathIncomplete("struct format 'p'")
        elif c == '?':
            out.append(b[0] != 0 if isinstance(b[0], int) else mk_bool(b[0] != 0))
        elif c in 'fde':
            if not any(is_z3(v) for v in b):
                out.append(struct.unpack(('<' if sys_order(order) == 'little' else '>') + c, bytes(b))[0])
                continue
            bb = b[::-1] if sys_order(order) == 'little' else b
            bits = z3.simplify(z3.Concat(*[byte_term(v) for v in bb]))
            if c == 'd':
                out.append(SymFloat(bits=bits))
            elif c == 'f':
                x = z3.fpBVToFP(bits, z3.Float32())
                y = z3.fpFPToFP(z3.RNE(), x, z3.Float64())
                tt = z3.BitVec(E().fresh('f64'), 64)
                nan = z3.Concat(z3.Extract(31, 31, bits), z3.BitVecVal(0x7ff, 11), z3.Extract(22, 0, bits) | z3.BitVecVal(1 << 22, 23),
                                z3.BitVecVal(0, 29))
                E().add(z3.If(z3.fpIsNaN(x), tt == nan, z3.fpBVToFP(tt, z3.Float64()) == y))
                E().add(z3.Implies(z3.Not(z3.fpIsNaN(x)), z3.Not(z3.fpIsNaN(z3.fpBVToFP(tt, z3.Float64())))))
                out.append(SymFloat(bits=tt))
            else:
                raise PathIncomplete('half-precision float')
        else:
            out.append(core.int_from_bytes(mk_bytes(b), sys_order(order), c in 'bhilqn'))
    return tuple(out)


def m_struct_unpack_from(fmt, buf, offset=0):
    e = els_of(buf)
    n = to_native(m_calcsize(fmt))
    offset = to_native(offset)
    if len(e) - offset < n:
        raise struct.error('unpack_from requires a buffer of at least %d bytes' % n)
    return m_struct_unpack(fmt, mk_bytes(e[offset:offset + n]))


def m_struct_pack_into(fmt, buf, offset, *args):
    b = els_of(m_struct_pack(fmt, *args))
    offset = to_native(offset)
    buf[offset:offset + len(b)] = mk_bytes(b)


MODELS[id(struct.pack)] = (struct.pack, m_struct_pack)
MODELS[id(struct.unpack)] = (struct.unpack, m_struct_unpack)
MODELS[id(struct.unpack_from)] = (struct.unpack_from, m_struct_unpack_from)
MODELS[id(struct.pack_into)] = (struct.pack_into, m_struct_pack_into)


@model(struct.calcsize)
def m_calcsize(fmt):
    if not is_sym(fmt):
        return struct.calcsize(fmt)
    order, items = parse_fmt(fmt)
    if len(items) == 1 and is_sym(items[0][0]):
        return items[0][0]
    return sum(s + p for c, s, p in struct_layout(order, items))


@model(struct.iter_unpack)
def m_iter_unpack(fmt, buf):
    n = to_native(m_calcsize(fmt))
    e = els_of(buf)
    return iter([m_struct_unpack(fmt, mk_bytes(e[i:i + n])) for i in range(0, len(e), n)])


class SymStructObj:
    def __init__(self, fmt):
        self.format = fmt
        self._size = None if is_sym(fmt) else struct.calcsize(fmt)

    @property
    def size(self):
        if self._size is None:
            self._size = m_calcsize(self.format)
        return self._size

    def pack(self, *a):
        return m_struct_pack(self.format, *a)

    def unpack(self, b):
        return m_struct_unpack(self.format, b)

    def unpack_from(self, b, offset=0):
        return m_struct_unpack_from(self.format, b, offset)

    def pack_into(self, b, off, *a):
        return m_struct_pack_into(self.format, b, off, *a)


MODELS[id(struct.Struct)] = (struct.Struct, SymStructObj)


# --------------------------------------------------------------------------
# streams
class SymStream:
    """io.BytesIO over symbolic bytes, position always concrete"""

    def __init__(self, initial=b''):
        e = els_of(initial) if initial is not None else []
        if e is None:
            raise TypeError("a bytes-like object is required, not '%s'" % type(initial).__name__)
        self.buf = list(e)
        self.pos = 0
        self.closed = False

    def _chk(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def _count(self, n):
        left = max(0, len(self.buf) - self.pos)
        if n is None:
            return left
        if not is_sym(n):
            n = n.__index__()
            if n > sys.maxsize or n < -sys.maxsize - 1:
                raise OverflowError('Python int too large to convert to C ssize_t')
            return left if n < 0 else min(n, left)
        if not is_symint(n) and type(n) is not SymBool:
            raise TypeError('argument should be integer or None')
        lo, hi = int_parts(n)[1:]
        if hi > sys.maxsize and t(int_cmp('>', n, sys.maxsize)):
            raise OverflowError('Python int too large to convert to C ssize_t')
        if lo < 0 and t(int_cmp('<', n, 0)):
            return left
        if hi >= left and t(int_cmp('>=', n, left)):
            return left
        return n.__index__()

    def read(self, size=-1):
        self._chk()
        n = self._count(size)
        r = self.buf[self.pos:self.pos + n]
        self.pos += n
        return mk_bytes(r)

    read1 = read

    def readinto(self, b):
        n = min(len(b), max(0, len(self.buf) - self.pos))
        b[0:n] = self.read(n)
        return n

    def readline(self, size=-1):
        i = self.pos
        while i < len(self.buf):
            i += 1
            if t(seqs.in_set(self.buf[i - 1], (10,), 8)):
                break
        r = self.buf[self.pos:i]
        self.pos = i
        return mk_bytes(r)

    def write(self, b):
        self._chk()
        e = els_of(b)
        if e is None:
            raise TypeError("a bytes-like object is required, not '%s'" % b.__class__.__name__)
        e = list(e)
        if e:
            if self.pos > len(self.buf):
                self.buf += [0] * (self.pos - len(self.buf))
            self.buf[self.pos:self.pos + len(e)] = e
            self.pos += len(e)
        return len(e)

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def getvalue(self):
        self._chk()
        return mk_bytes(list(self.buf))

    def getbuffer(self):
        return SymBytes(list(self.buf))

    def tell(self):
        self._chk()
        return self.pos

    def seek(self, off, whence=0):
        self._chk()
        off = to_native(off)
        if whence == 0:
            if off < 0:
                raise ValueError('negative seek value %d' % off)
            self.pos = off
        elif whence == 1:
            self.pos = max(0, self.pos + off)
        else:
            self.pos = max(0, len(self.buf) + off)
        return self.pos

    def truncate(self, size=None):
        size = self.pos if size is None else to_native(size)
        del self.buf[size:]
        return size

    def readable(self):
        return True

    writable = seekable = readable

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        while self.pos < len(self.buf):
            yield self.readline()


MODELS[id(io.BytesIO)] = (io.BytesIO, SymStream)


# --------------------------------------------------------------------------
# hashing: uninterpreted, one function per input length, tied to the real
# function on every concrete argument that occurs
def term_of_bytes(els):
    ts = [byte_term(e) for e in els]
    if not ts:
        return None
    return z3.simplify(z3.Concat(*ts)) if len(ts) > 1 else ts[0]


HASHES = {'sha256': (32, lambda b: hashlib.sha256(b).digest()),
          'ripemd160': (20, lambda b: hashlib.new('ripemd160', b).digest()),
          'sha512': (64, lambda b: hashlib.sha512(b).digest()),
          'sha1': (20, lambda b: hashlib.sha1(b).digest()),
          'sha224': (28, lambda b: hashlib.sha224(b).digest()),
          'sha384': (48, lambda b: hashlib.sha384(b).digest()),
          'md5': (16, lambda b: hashlib.md5(b).digest())}


def uf_apply(name, in_els, out_len, real):
    """bytes -> bytes through an uninterpreted function; `real` on concrete input"""
    e = E()
    key = ('uf', name, len(in_els))
    rec = e.state.setdefault(key, {'conc': [], 'sym': [], 'real': real, 'out': out_len})
    if not any(is_z3(v) for v in in_els):
        inp = bytes(in_els)
        out = real(inp)
        if in_els and all(c[0] != inp for c in rec['conc']):
            rec['conc'].append((inp, out))
            if rec['sym']:
                uf_axiom(name, inp, out)
        return list(out)
    arg = term_of_bytes(in_els)
    f = e.uf(name + '_%d' % len(in_els), z3.BitVecSort(8 * len(in_els)), z3.BitVecSort(8 * out_len))
    e.approx = True
    if not rec['sym']:
        for inp, out in rec['conc']:
            uf_axiom(name, inp, out)
    tt = f(arg)
    if not any(a.eq(arg) for a, _ in rec['sym']):
        rec['sym'].append((arg, tt))
        for h in e.state.get('uf_hooks', ()):
            h(name, arg, tt, len(in_els))
        inj = e.state.get('injective', ())
        if name in inj:
            for a, r in rec['sym'][:-1]:
                e.add(z3.Implies(r == tt, a == arg))
    return [norm_elem(z3.simplify(z3.Extract(8 * i + 7, 8 * i, tt))) for i in range(out_len - 1, -1, -1)]


def uf_axiom(name, inp, out):
    e = E()
    f = e.uf(name + '_%d' % len(inp), z3.BitVecSort(8 * len(inp)), z3.BitVecSort(8 * len(out)))
    e.add(f(z3.BitVecVal(int.from_bytes(inp, 'big'), 8 * len(inp))) == z3.BitVecVal(int.from_bytes(out, 'big'), 8 * len(out)))


class SymHash:
    def __init__(self, name, data=b''):
        self.name = name
        self.els = []
        self.digest_size = HASHES[name][0]
        self.block_size = 64
        self.update(data)

    def update(self, data):
        e = els_of(data)
        if e is None:
            if isinstance(data, str):
                raise TypeError('Strings must be encoded before hashing')
            raise TypeError('object supporting the buffer API required')
        self.els = self.els + list(e)

    def digest(self):
        n, real = HASHES[self.name]
        return mk_bytes(uf_apply(self.name, self.els, n, real))

    def hexdigest(self):
        return seqs.mk_hex(els_of(self.digest()))

    def copy(self):
        h = SymHash(self.name)
        h.els = list(self.els)
        return h


for _n in HASHES:
    _c = getattr(hashlib, _n, None)
    if _c is not None:
        MODELS[id(_c)] = (_c, (lambda n: lambda data=b'', **k: SymHash(n, data))(_n))


@model(hashlib.new)
def m_hashlib_new(name, data=b'', **k):
    n = to_native(name).lower().replace('-', '').replace('rmd160', 'ripemd160') if to_native(name).lower() in ('rmd160',) else to_native(name).lower()
    if n not in HASHES:
        h = hashlib.new(n)
        E().notes.add('hash %s is not modelled' % n)
        return hashlib.new(n, to_native(data))
    return SymHash(n, data)


@model(hmac.compare_digest)
def m_compare_digest(a, b):
    return cmp('==', a, b)


@model(unicodedata.normalize)
def m_normalize(form, s):
    c = chs_of(s)
    if c is None:
        raise TypeError('normalize() argument 2 must be str')
    form = to_native(form)
    if not any(is_z3(v) for v in c):
        return unicodedata.normalize(form, ''.join(map(chr, c)))
    lim = 0x300 if form == 'NFC' else 0x80
    cs = [z3.ULT(v, lim) for v in c if is_z3(v)]
    ok = all(v < lim for v in c if isinstance(v, int))
    if ok and E().fork(z3.And(*cs) if len(cs) > 1 else cs[0]):
        return s
    if form == 'NFC':
        rs = nfc_inert()
        cs = [z3.Or(*[z3.And(z3.UGE(v, a), z3.ULE(v, b)) for a, b in rs]) for v in c if is_z3(v)]
        ok = all(any(a <= v <= b for a, b in rs) for v in c if isinstance(v, int))
        if ok and E().fork(z3.And(*cs) if len(cs) > 1 else cs[0]):
            return s
    return NormText(form, s)


_inert = []


def nfc_inert():
    """ranges of characters that never change under NFC, whatever stands beside them"""
    if not _inert:
        u = unicodedata
        second = set(range(0x1161, 0x1176)) | set(range(0x11a8, 0x11c3))
        for c in range(0x30000):
            d = u.decomposition(chr(c))
            if d and d[0] != '<' and ' ' in d:
                second.add(int(d.split()[1], 16))
        start = None
        for c in range(0x110001):
            if c < 0x30000:
                ok = u.combining(chr(c)) == 0 and c not in second and u.normalize('NFC', chr(c)) == chr(c)
            else:
                ok = c < 0x110000       # planes 3 and above: ideographs, tags and private use
            if ok and start is None:
                start = c
            elif not ok and start is not None:
                if c - start >= 64:
                    _inert.append((start, c - 1))
                start = None
    return _inert


def NormText(form, s):
    return unicodedata.normalize(form, s.native())


def super_init(*a, **k):
    return None


def fstr(parts):
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
        else:
            v, conv, spec = p
            if conv is not None and conv != -1:
                out.append(models.format_one(v, conv, spec))
            elif isinstance(v, Sym):
                out.append(models.format_value(v, spec))
            else:
                f = getattr(type(v), '__format__', None)
                if (spec == '' or spec is None) and f is object.__format__:
                    out.append(m_str(v))
                else:
                    out.append(format(v, to_native(spec)))
    return models.join_parts(out)


class Runtime:
    pass


RT = Runtime()
for _n in ('merge_bool', 'merge_if', 'truth', 'not_', 'bin', 'ibin', 'un', 'cmp', 'chain', 'and_', 'or_', 'getitem', 'call', 'super_', 'fstr', 'mkset',
           'mkdict', 'mkdict3'):
    setattr(RT, _n, globals()[_n])
