"""Symbolic byte strings, bytearrays and text: concrete length, symbolic elements."""
import z3
from . import core
from .core import (Sym, SymInt, SymBool, mk_int, mk_bool, b_and, b_or, b_not, is_sym, is_symint, int_parts,
                   byte_term, byte_val, to_byte_elem, norm_elem, PathIncomplete, is_z3)

CW = 21  # character width in bits


def E():
    return core.E


# --------------------------------------------------------------------------
def mk_bytes(els):
    els = [norm_elem(e) for e in els]
    for e in els:
        if not isinstance(e, int):
            return SymBytes(els)
    return bytes(els)


def mk_str(chs):
    for c in chs:
        if not isinstance(c, int):
            return SymStr(list(chs))
    return ''.join(map(chr, chs))


def is_byteslike(x):
    return isinstance(x, (bytes, bytearray, memoryview))


def els_of(x):
    """elements of a bytes-like (native or symbolic); None otherwise"""
    if isinstance(x, SymSeqB):
        return x.els
    t = type(x)
    if issubclass(t, (bytes, bytearray)):
        return list(x)
    if t is memoryview:
        return list(x.tobytes())
    return None


def chs_of(x):
    if SymStr in type(x).__mro__:
        return x.chs
    if issubclass(type(x), str):
        return [ord(c) for c in x]
    return None


def elems_of_iterable(b):
    """byte elements of a bytes-like or an iterable of ints"""
    e = els_of(b)
    if e is not None:
        return e
    if chs_of(b) is not None:
        raise TypeError('cannot convert str to bytes')
    if is_symint(b) or isinstance(b, int):
        raise TypeError('cannot convert int object to bytes')
    m = getattr(b, '__bytes__', None)
    if m is not None:
        return els_of(m())
    return [to_byte_elem(v) for v in b]


def elem_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return z3.BoolVal(a == b)
    if isinstance(a, int):
        a = z3.BitVecVal(a, b.size())
    if isinstance(b, int):
        b = z3.BitVecVal(b, a.size())
    return a == b


def all_eq(xs, ys):
    ts = []
    i = 0
    n = len(xs)
    for a, b in zip(xs, ys):
        if isinstance(a, int) and isinstance(b, int):
            if a != b:
                return False
        elif a is b or (is_z3(a) and is_z3(b) and a.eq(b)):
            pass
        else:
            ts.append(elem_eq(a, b))
    if not ts:
        return True
    return mk_bool(z3.And(*ts) if len(ts) > 1 else ts[0])


def lex_lt(xs, ys, w, or_equal):
    """xs < ys (or <=) lexicographically, elements unsigned of width w"""
    n = min(len(xs), len(ys))
    base = (len(xs) <= len(ys)) if or_equal else (len(xs) < len(ys))
    k = 0
    while k < n and ((isinstance(xs[k], int) and isinstance(ys[k], int) and xs[k] == ys[k]) or
                     (is_z3(xs[k]) and is_z3(ys[k]) and xs[k].eq(ys[k]))):
        k += 1
    xs, ys = xs[k:n], ys[k:n]
    if not xs:
        return base
    if isinstance(xs[0], int) and isinstance(ys[0], int):
        return xs[0] < ys[0]

    def cat(v):
        ts = [z3.BitVecVal(e, w) if isinstance(e, int) else e for e in v]
        return z3.Concat(*ts) if len(ts) > 1 else ts[0]
    a, b = cat(xs), cat(ys)
    return mk_bool(z3.ULE(a, b) if base else z3.ULT(a, b))


def norm_index(i, n, what):
    """Python index semantics; returns a concrete index or a SymInt in 0..n-1."""
    if not is_sym(i):
        i = i.__index__()
        if i < 0:
            i += n
        if not 0 <= i < n:
            raise IndexError('%s index out of range' % what)
        return i
    if not hasattr(i, 'pytype') and type(i) is not SymBool:
        raise TypeError('%s indices must be integers' % what)
    lo, hi = int_parts(i)[1:]
    if lo < 0:
        if bool(core.int_cmp('<', i, 0)):
            i = core.int_bin('+', i, n)
        if not is_sym(i):
            return norm_index(i, n, what)
    lo, hi = int_parts(i)[1:]
    if lo < 0 or hi >= n:
        c = b_and(core.int_cmp('>=', i, 0), core.int_cmp('<', i, n))
        if not (bool(c) if is_sym(c) else c):
            raise IndexError('%s index out of range' % what)
    return i


def select(els, i, w):
    """element at symbolic index i, 0 <= i < len(els)"""
    t, lo, hi = int_parts(i)
    n = len(els)
    lo, hi = max(lo, 0), min(hi, n - 1)
    if hi - lo > 2100:
        return els[E().concretize(t, why='(symbolic index)')]
    acc = els[lo]
    tw = t.size()
    for k in range(lo + 1, hi + 1):
        e = els[k]
        a = z3.BitVecVal(acc, w) if isinstance(acc, int) else acc
        b = z3.BitVecVal(e, w) if isinstance(e, int) else e
        acc = z3.If(t == k, b, a) if not (isinstance(acc, int) and isinstance(e, int) and acc == e) else acc
    return norm_elem(z3.simplify(acc)) if not isinstance(acc, int) else acc


def conc_index(x):
    """slice component -> native int or None"""
    if x is None:
        return None
    if is_sym(x):
        return x.__index__()
    return x


def conc_slice(s, n):
    a, b, c = s.start, s.stop, s.step
    if is_sym(a) or is_sym(b) or is_sym(c):
        def clamp(v):
            if v is None or not is_sym(v):
                return v
            lo, hi = int_parts(v)[1:]
            if hi > n and bool(core.int_cmp('>=', v, n)):
                return n
            if lo < -n and bool(core.int_cmp('<=', v, -n)):
                return -n
            return v.__index__()
        if c is None or (not is_sym(c) and c > 0):
            return slice(clamp(a), clamp(b), c)
        return slice(conc_index(a), conc_index(b), conc_index(c))
    return s


WS_B = (9, 10, 11, 12, 13, 32)


def in_set(e, vals, w):
    if isinstance(e, int):
        return e in vals
    return mk_bool(z3.Or(*[e == v for v in vals]))


def t(x):
    """decide a maybe-symbolic boolean"""
    return bool(x) if is_sym(x) else x


class SymSeqBase(Sym):
    """shared by bytes, bytearray and str"""
    __slots__ = ()

    def __len__(self):
        return len(self._e())

    def __bool__(self):
        return len(self._e()) > 0

    def __iter__(self):
        i = 0
        while i < len(self._e()):
            yield self._item(self._e()[i])
            i += 1

    def __reversed__(self):
        for e in list(reversed(self._e())):
            yield self._item(e)

    def __getitem__(self, k):
        if isinstance(k, slice):
            n = len(self._e())
            return self._mk(self._e()[conc_slice(k, n)])
        i = norm_index(k, len(self._e()), self._what)
        if is_sym(i):
            return self._item(select(self._e(), i, self._w))
        return self._item(self._e()[i])

    def __eq__(self, o):
        oe = self._other(o)
        if oe is None:
            return False
        e = self._e()
        if len(e) != len(oe):
            return False
        return all_eq(e, oe)

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def _cmp(self, o, f):
        oe = self._other(o)
        if oe is None:
            return NotImplemented
        return f(self._e(), oe)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: lex_lt(a, b, self._w, False))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: lex_lt(a, b, self._w, True))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: lex_lt(b, a, self._w, False))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: lex_lt(b, a, self._w, True))

    def __add__(self, o):
        oe = self._other(o)
        if oe is None:
            raise TypeError("can't concat %s to %s" % (type(o).__name__, self._what))
        return self._mk(self._e() + oe)

    def __radd__(self, o):
        oe = self._other(o)
        if oe is None:
            return NotImplemented
        return self._mk_like(o)(oe + self._e())

    def _mk_like(self, o):
        return self._mk

    def __mul__(self, n):
        if is_sym(n):
            n = n.__index__()
        if not isinstance(n, int):
            raise TypeError("can't multiply sequence by non-int")
        return self._mk(self._e() * n)

    __rmul__ = __mul__

    def _find_at(self, sub, i):
        e = self._e()
        return all_eq(e[i:i + len(sub)], sub)

    def _bounds(self, start, end):
        n = len(self._e())
        s = slice(conc_index(start), conc_index(end))
        a, b, _ = s.indices(n)
        return a, b

    def find(self, sub, start=None, end=None):
        sub = self._sub(sub)
        a, b = self._bounds(start, end)
        for i in range(a, b - len(sub) + 1):
            if t(self._find_at(sub, i)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = self._sub(sub)
        a, b = self._bounds(start, end)
        for i in range(b - len(sub), a - 1, -1):
            if t(self._find_at(sub, i)):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def count(self, sub, start=None, end=None):
        sub = self._sub(sub)
        a, b = self._bounds(start, end)
        if not sub:
            return b - a + 1
        n, i = 0, a
        if len(sub) == 1:
            acc = 0
            for i in range(a, b):
                c = self._find_at(sub, i)
                acc = core.int_bin('+', acc, c.as_int()) if is_sym(c) else acc + int(c)
            return acc
        while i <= b - len(sub):
            if t(self._find_at(sub, i)):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def __contains__(self, sub):
        return t(self.contains(sub))

    def contains(self, sub):
        if is_symint(sub) or isinstance(sub, int):
            if self._what == 'string':
                raise TypeError("'in <string>' requires string as left operand")
            x = to_byte_elem(sub)
            return b_or(*[mk_bool(elem_eq(e, x)) for e in self._e()])
        sub = self._sub(sub)
        return b_or(*[self._find_at(sub, i) for i in range(0, len(self._e()) - len(sub) + 1)])

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return b_or(*[self.startswith(q, start, end) for q in p])
        a, b = self._bounds(start, end)
        p = self._sub(p)
        e = self._e()[a:b]
        return len(p) <= len(e) and all_eq(e[:len(p)], p)

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return b_or(*[self.endswith(q, start, end) for q in p])
        a, b = self._bounds(start, end)
        p = self._sub(p)
        e = self._e()[a:b]
        return len(p) <= len(e) and (not p or all_eq(e[-len(p):], p))

    def removeprefix(self, p):
        return self._mk(self._e()[len(p):]) if t(self.startswith(p)) else self._mk(list(self._e()))

    def removesuffix(self, p):
        return self._mk(self._e()[:len(self._e()) - len(p)]) if t(self.endswith(p)) else self._mk(list(self._e()))

    def _strip(self, chars, left, right):
        vals = self._ws if chars is None else self._sub(chars)
        e = list(self._e())
        if any(is_z3(v) for v in vals):
            test = lambda x: b_or(*[mk_bool(elem_eq(x, v)) for v in vals])
        else:
            vals = tuple(vals)
            test = lambda x: in_set(x, vals, self._w)
        a, b = 0, len(e)
        if left:
            while a < b and t(test(e[a])):
                a += 1
        if right:
            while b > a and t(test(e[b - 1])):
                b -= 1
        return self._mk(e[a:b])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def _pad(self, width, fill, where):
        width = conc_index(width)
        n = len(self._e())
        f = self._sub(fill)
        k = max(0, width - n)
        if where == 'l':
            return self._mk(f * k + self._e())
        return self._mk(self._e() + f * k)

    def rjust(self, width, fill=None):
        return self._pad(width, self._sp if fill is None else fill, 'l')

    def ljust(self, width, fill=None):
        return self._pad(width, self._sp if fill is None else fill, 'r')

    def zfill(self, width):
        e = self._e()
        if e and (is_z3(e[0]) or e[0] in (43, 45)):
            sgn = in_set(e[0], (43, 45), self._w)
            if t(sgn):
                k = max(0, conc_index(width) - len(e))
                return self._mk([e[0]] + [48] * k + e[1:])
        return self._mk([48] * max(0, conc_index(width) - len(e)) + e)

    def join(self, it):
        sep = self._e()
        out = []
        first = True
        for x in it:
            xe = self._other(x)
            if xe is None:
                raise TypeError('sequence item: expected %s' % self._what)
            if not first:
                out = out + sep
            out = out + xe
            first = False
        return self._mk(out)

    def split(self, sep=None, maxsplit=-1):
        e = self._e()
        out = []
        cur = 0
        i = 0
        if sep is None:
            cur = []
            for x in e:
                if t(in_set(x, self._ws, self._w)):
                    if cur:
                        out.append(self._mk(cur))
                    cur = []
                else:
                    cur.append(x)
            if cur:
                out.append(self._mk(cur))
            return out
        s = self._sub(sep)
        while i <= len(e) - len(s):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if t(all_eq(e[i:i + len(s)], s)):
                out.append(self._mk(e[cur:i]))
                i += len(s)
                cur = i
            else:
                i += 1
        out.append(self._mk(e[cur:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self._mk(list(self._e())), self._mk([]), self._mk([]))
        n = len(self._sub(sep))
        return (self._mk(self._e()[:i]), self._mk(self._e()[i:i + n]), self._mk(self._e()[i + n:]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return (self._mk([]), self._mk([]), self._mk(list(self._e())))
        n = len(self._sub(sep))
        return (self._mk(self._e()[:i]), self._mk(self._e()[i:i + n]), self._mk(self._e()[i + n:]))

    def replace(self, old, new, count=-1):
        o, nw = self._sub(old), self._sub(new)
        e = self._e()
        if not o:
            raise PathIncomplete('replace with an empty pattern')
        if len(o) == 1 and len(nw) == 1 and count < 0:
            out = []
            for x in e:
                c = elem_eq(x, o[0])
                c = z3.simplify(c)
                if z3.is_true(c):
                    out.append(nw[0])
                elif z3.is_false(c):
                    out.append(x)
                else:
                    out.append(norm_elem(z3.simplify(z3.If(c, self._tm(nw[0]), self._tm(x)))))
            return self._mk(out)
        out, i, k = [], 0, 0
        while i < len(e):
            if (count < 0 or k < count) and i + len(o) <= len(e) and t(all_eq(e[i:i + len(o)], o)):
                out += nw
                i += len(o)
                k += 1
            else:
                out.append(e[i])
                i += 1
        return self._mk(out)

    def _tm(self, e):
        return z3.BitVecVal(e, self._w) if isinstance(e, int) else e

    def _map(self, f):
        return self._mk([f(e) for e in self._e()])

    def _case(self, lo, hi, d):
        def f(e):
            if isinstance(e, int):
                return e + d if lo <= e <= hi else e
            nib = E().hexnib.get(e.get_id())
            r = norm_elem(z3.simplify(z3.If(z3.And(z3.UGE(e, lo), z3.ULE(e, hi)), e + d, e)))
            if nib is not None and is_z3(r):
                reg_nib(r, nib[0])
            return r
        e = self._e()
        if self._w > 8:
            for x in e:
                if is_z3(x) and not E().entailed(z3.ULT(x, 128)):
                    if not E().fork(z3.ULT(x, 128)):
                        raise PathIncomplete('case mapping of a non-ASCII symbolic character')
                elif isinstance(x, int) and x >= 128:
                    raise PathIncomplete('case mapping of a non-ASCII character in symbolic text')
        return self._map(f)

    def lower(self):
        return self._case(65, 90, 32)

    def upper(self):
        return self._case(97, 122, -32)

    def _every(self, pred):
        e = self._e()
        if not e:
            return False
        return b_and(*[pred(x) for x in e])

    def _rng(self, *ranges):
        def pred(x):
            if isinstance(x, int):
                return any(a <= x <= b for a, b in ranges)
            return mk_bool(z3.Or(*[z3.And(z3.UGE(x, a), z3.ULE(x, b)) for a, b in ranges]))
        return self._every(pred)

    def _asc(self, *ranges):
        if self._w > 8:
            for x in self._e():
                if (isinstance(x, int) and x >= 128) or (is_z3(x) and not E().entailed(z3.ULT(x, 128)) and
                                                          not E().fork(z3.ULT(x, 128))):
                    raise PathIncomplete('character class of a non-ASCII symbolic character')
        return self._rng(*ranges)

    def isdigit(self):
        return self._asc((48, 57))

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._asc((65, 90), (97, 122))

    def isalnum(self):
        return self._asc((48, 57), (65, 90), (97, 122))

    def isspace(self):
        return self._asc((9, 13), (32, 32)) if self._w == 8 else self._asc((9, 13), (28, 32))

    def isupper(self):
        return b_and(self._none((97, 122)), b_not(self._none((65, 90))))

    def islower(self):
        return b_and(self._none((65, 90)), b_not(self._none((97, 122))))

    def _none(self, r):
        e = self._e()
        return b_and(*[b_not(mk_bool(z3.And(z3.UGE(self._tm(x), r[0]), z3.ULE(self._tm(x), r[1])))) for x in e])

    def isascii(self):
        return b_and(*[(x < 128 if isinstance(x, int) else mk_bool(z3.ULT(x, 128))) for x in self._e()])

    def __hash__(self):
        return hash(self.native())

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        proto = {'bytes': bytes, 'bytearray': bytearray, 'string': str}[self._what]
        if not hasattr(proto, name):
            raise AttributeError("'%s' object has no attribute '%s'" % (proto.__name__, name))
        E().notes.add('%s.%s on a symbolic value: concretised' % (proto.__name__, name))
        return getattr(self.native(), name)

    def __reduce_ex__(self, proto):
        raise PathIncomplete('copying a symbolic sequence')

    def __copy__(self):
        return self._mk(list(self._e()))

    def __deepcopy__(self, memo):
        return self._mk(list(self._e()))


class SymSeqB(SymSeqBase):
    __slots__ = ('els',)
    _w = 8
    _ws = WS_B
    _sp = b' '

    def __init__(self, els):
        self.els = els

    def _e(self):
        return self.els

    def _item(self, e):
        return byte_val(e)

    def _other(self, o):
        return els_of(o)

    def _sub(self, x):
        if is_symint(x) or (isinstance(x, int) and not isinstance(x, bool)):
            return [to_byte_elem(x)]
        e = els_of(x)
        if e is None:
            raise TypeError("a bytes-like object is required, not '%s'" % type(x).__name__)
        return e

    def native_bytes(self):
        out = []
        for e in self.els:
            if isinstance(e, int):
                out.append(e)
            else:
                out.append(E().concretize(z3.ZeroExt(1, e), why='(bytes used natively)'))
        return bytes(out)

    def hex(self, *a):
        s = mk_hex(self.els)
        if a:
            raise PathIncomplete('hex with a separator on symbolic bytes')
        return s

    def decode(self, encoding='utf-8', errors='strict'):
        return decode(self.els, encoding, errors)

    def tobytes(self):
        return mk_bytes(list(self.els))

    def tolist(self):
        return [byte_val(e) for e in self.els]

    def __bytes__(self):
        return self.native_bytes()

    def __repr__(self):
        return repr(self.native_bytes())

    def __str__(self):
        return str(self.native())

    def __format__(self, spec):
        return format(self.native(), spec)


class SymBytes(SymSeqB):
    __slots__ = ()
    _what = 'bytes'

    @property
    def __class__(self):
        return bytes

    def _mk(self, els):
        return mk_bytes(els)

    def native(self):
        return self.native_bytes()

    def _mk_like(self, o):
        if isinstance(o, bytearray):
            return SymByteArray
        return self._mk


class SymByteArray(SymSeqB):
    __slots__ = ()
    _what = 'bytearray'

    @property
    def __class__(self):
        return bytearray

    def _mk(self, els):
        return SymByteArray(list(els))

    def _mk_like(self, o):
        if isinstance(o, bytearray):
            return self._mk
        return mk_bytes

    def native(self):
        return bytearray(self.native_bytes())

    __hash__ = None

    # mutation
    def __setitem__(self, k, v):
        if isinstance(k, slice):
            n = len(self.els)
            k = conc_slice(k, n)
            if is_symint(v) or isinstance(v, int):
                raise TypeError('can assign only bytes, buffers, or iterables of ints in range(0, 256)')
            self.els[k] = list(elems_of_iterable(v))
            return
        i = norm_index(k, len(self.els), 'bytearray')
        e = to_byte_elem(v)
        if is_sym(i):
            tt = int_parts(i)[0]
            for j in range(len(self.els)):
                old = byte_term(self.els[j])
                self.els[j] = norm_elem(z3.simplify(z3.If(tt == j, byte_term(e), old)))
            return
        self.els[i] = e

    def __delitem__(self, k):
        if isinstance(k, slice):
            del self.els[conc_slice(k, len(self.els))]
            return
        i = norm_index(k, len(self.els), 'bytearray')
        del self.els[conc_index(i)]

    def __iadd__(self, o):
        self.els.extend(list(els_of(o) if els_of(o) is not None else elems_of_iterable(o)))
        return self

    def __imul__(self, n):
        self.els[:] = self.els * conc_index(n)
        return self

    def append(self, v):
        self.els.append(to_byte_elem(v))

    def extend(self, it):
        self.els.extend(list(elems_of_iterable(it)))

    def insert(self, i, v):
        self.els.insert(conc_index(i), to_byte_elem(v))

    def pop(self, i=-1):
        if not self.els:
            raise IndexError('pop from empty bytearray')
        return byte_val(self.els.pop(conc_index(norm_index(i, len(self.els), 'pop'))))

    def remove(self, v):
        x = to_byte_elem(v)
        for i, e in enumerate(self.els):
            if t(mk_bool(elem_eq(e, x))):
                del self.els[i]
                return
        raise ValueError('value not found in bytearray')

    def clear(self):
        del self.els[:]

    def copy(self):
        return SymByteArray(list(self.els))

    def reverse(self):
        self.els.reverse()


# ---- text ------------------------------------------------------------------
class SymStr(SymSeqBase):
    __slots__ = ('_chs',)
    _w = CW
    _what = 'string'
    _ws = (9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xa0)
    _sp = ' '

    def __init__(self, chs):
        self._chs = chs

    @property
    def chs(self):
        return self._chs

    @property
    def __class__(self):
        return str

    def _e(self):
        return self.chs

    def _item(self, c):
        return mk_str([c])

    def _mk(self, chs):
        return mk_str(list(chs))

    def _other(self, o):
        return chs_of(o)

    def _sub(self, x):
        e = chs_of(x)
        if e is None:
            raise TypeError('must be str, not %s' % type(x).__name__)
        return e

    def native(self):
        out = []
        for c in self.chs:
            if isinstance(c, int):
                out.append(chr(c))
            else:
                out.append(chr(E().concretize(z3.ZeroExt(1, c), why='(text used natively)')))
        return ''.join(out)

    def encode(self, encoding='utf-8', errors='strict'):
        return encode(self.chs, encoding, errors)

    def __str__(self):
        return self.native()

    def __repr__(self):
        return repr(self.native())

    def __format__(self, spec):
        return format(self.native(), spec)

    def __mod__(self, args):
        from . import models
        return models.percent_format(self.native(), args)

    def format(self, *a, **k):
        from . import models
        return models.str_format(self.native(), a, k)

    def casefold(self):
        return self.lower()

    def translate(self, table):
        return self.native().translate(table)


class LazyStr(SymStr):
    """Text built from numbers whose digits are only worked out when looked at."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self._chs = None
        self.parts = parts

    @property
    def chs(self):
        if self._chs is None:
            out = []
            for p in self.parts:
                if isinstance(p, NumText):
                    out += p.force()
                else:
                    out += chs_of(p)
            self._chs = out
        return self._chs

    def __add__(self, o):
        if chs_of_lazy(o):
            return LazyStr(self.parts + parts_of(o))
        raise TypeError('can only concatenate str')

    def __radd__(self, o):
        if chs_of_lazy(o):
            return LazyStr(parts_of(o) + self.parts)
        return NotImplemented

    def __eq__(self, o):
        if self._chs is None and type(o) is str and len(self.parts) == 1:
            r = self.parts[0].equals(o)
            if r is not None:
                return r
        if self._chs is None and type(o) is LazyStr and o._chs is None and len(self.parts) == len(o.parts):
            cs = []
            for p, q in zip(self.parts, o.parts):
                if isinstance(p, NumText) and isinstance(q, NumText) and p.key() == q.key():
                    cs.append(core.int_cmp('==', p.x, q.x))
                elif type(p) is str and p == q:
                    pass
                else:
                    break
            else:
                if len(self.parts) == 1 or all(type(p) is str or p.fixed_width for p in self.parts):
                    return b_and(*cs)
        return SymStr.__eq__(self, o)

    __hash__ = SymSeqBase.__hash__

    def __getitem__(self, k):
        if self._chs is None and len(self.parts) == 1 and isinstance(self.parts[0], NumText):
            r = self.parts[0].getitem(k)
            if r is not None:
                return r
        return SymStr.__getitem__(self, k)

    def endswith(self, p, start=None, end=None):
        if start is None and end is None and type(p) is str and p:
            return b_eq(self[-len(p):], p)
        return SymStr.endswith(self, p, start, end)

    def __bool__(self):
        if self._chs is None and any(isinstance(p, NumText) or len(p) for p in self.parts):
            return True
        return SymStr.__bool__(self)


def b_eq(a, b):
    r = a == b
    return r


def chs_of_lazy(o):
    return isinstance(o, str)


def parts_of(o):
    if type(o) is LazyStr:
        return list(o.parts)
    return [o]


def digit_vars(x, n):
    """the n decimal digit characters of x (0 <= x < 10**n) as fresh digits whose value is x"""
    e = E()
    ds, acc = [], 0
    w = max(core.width_for(0, 10 ** n), x.bv.size()) if is_sym(x) else core.width_for(0, 10 ** n)
    for i in range(n):
        d = z3.BitVec(e.fresh('dig'), 4)
        e.add(z3.ULE(d, 9))
        ds.append(d)
        d = core.mk_int(z3.ZeroExt(1, d), 0, 9)
        acc = core.int_bin('+', core.int_bin('*', acc, 10), d) if i else d
    c = core.int_cmp('==', acc, x)
    if is_sym(c):
        e.add(core.b_term(c))
    return [z3.simplify(z3.ZeroExt(CW - 4, d) + 48) for d in ds]


class NumText:
    """text of an integer in a base"""
    fixed_width = False

    def __init__(self, x, base=10, prefix='', upper=False):
        self.x, self.base, self.prefix, self.upper = x, base, prefix, upper

    def key(self):
        return (self.base, self.prefix, self.upper)

    def equals(self, s):
        """text == s for a constant s"""
        neg = s.startswith('-')
        body = s[1:] if neg else s
        if not body.startswith(self.prefix):
            return False
        body = body[len(self.prefix):]
        digs = '0123456789ABCDEF' if self.upper else '0123456789abcdef'
        if not body or any(c not in digs[:self.base] for c in body):
            return False
        if body[0] == '0' and (len(body) > 1 or neg):
            return False
        v = int(body, self.base)
        return core.int_cmp('==', self.x, -v if neg else v)

    def getitem(self, k):
        return None

    def force(self):
        x = self.x
        out = []
        if int_parts(x)[1] < 0 and t(core.int_cmp('<', x, 0)):
            out.append(45)
            x = core.int_unary('-', x)
        out += [ord(c) for c in self.prefix]
        if not is_sym(x):
            s = {10: '%d', 16: '%X' if self.upper else '%x', 8: '%o'}.get(self.base)
            body = format(x, 'b') if self.base == 2 else s % x
            return out + [ord(c) for c in body]
        tt, lo, hi = int_parts(x)
        lo = max(lo, 0)
        # number of digits
        nd = 1
        maxd = 1
        while self.base ** maxd <= hi:
            maxd += 1
        mind = 1
        while self.base ** mind <= lo:
            mind += 1
        nd = mind
        while nd < maxd and not t(core.int_cmp('<', x, self.base ** nd)):
            nd += 1
        if self.base == 10:
            if hi.bit_length() > 34:
                return out + digit_vars(x, nd)
            ds = []
            y = x
            for i in range(nd):
                d = core.int_bin('%', y, 10)
                ds.append(d)
                y = core.int_bin('//', y, 10)
            ds.reverse()
            for d in ds:
                if is_sym(d):
                    out.append(z3.simplify(core.resize(d.bv, 0, CW) + 48))
                else:
                    out.append(d + 48)
            return out
        k = {16: 4, 8: 3, 2: 1}[self.base]
        W = nd * k
        tt = core.resize(tt, 0, W)
        for i in range(nd - 1, -1, -1):
            d = z3.simplify(z3.Extract(k * i + k - 1, k * i, tt))
            if k == 4:
                out.append(nib_char(d, CW, self.upper))
            else:
                out.append(norm_elem(z3.simplify(z3.ZeroExt(CW - k, d) + 48)))
        return out


def num_text(x, base=10, prefix='', upper=False):
    return LazyStr([NumText(x, base, prefix, upper)])


# ---- hexadecimal ------------------------------------------------------------
def reg_nib(term, nib):
    term_id = term.get_id()
    E().keep.append(term)
    E().hexnib[term_id] = (nib,)


def nib_char(n, w, upper=False):
    """hex digit character of a 4-bit term"""
    n = z3.simplify(n) if not isinstance(n, int) else n
    if not isinstance(n, int) and z3.is_bv_value(n):
        n = n.as_long()
    if isinstance(n, int):
        return ord('0123456789ABCDEF'[n] if upper else '0123456789abcdef'[n])
    e = z3.ZeroExt(w - 4, n)
    c = z3.simplify(z3.If(z3.ULT(n, 10), e + 48, e + (55 if upper else 87)))
    reg_nib(c, n)
    return c


def hex_chars(els, w):
    out = []
    for e in els:
        if isinstance(e, int):
            out += [ord(c) for c in '%02x' % e]
        else:
            out.append(nib_char(z3.Extract(7, 4, e), w))
            out.append(nib_char(z3.Extract(3, 0, e), w))
    return out


def mk_hex(els):
    return mk_str(hex_chars(els, CW))


def char_nib(c):
    """(4-bit value term or int, validity: True/False/z3 bool) of a hex digit character"""
    if isinstance(c, int):
        ch = chr(c)
        if ch in '0123456789abcdefABCDEF':
            return int(ch, 16), True
        return 0, False
    p = E().hexnib.get(c.get_id())
    if p is None and c.size() == 8 and False:
        pass
    if p is not None:
        return p[0], True
    valid = z3.Or(z3.And(z3.UGE(c, 48), z3.ULE(c, 57)), z3.And(z3.UGE(c, 97), z3.ULE(c, 102)),
                  z3.And(z3.UGE(c, 65), z3.ULE(c, 70)))
    low = z3.Extract(3, 0, c)
    v = z3.If(z3.Extract(6, 6, c) == 1, low + 9, low)
    return z3.simplify(v), valid


def unhex_elems(chs, err):
    """decode hex digit characters; err() makes the exception"""
    if len(chs) % 2:
        raise err('Odd-length string')
    nibs, conds = [], []
    for c in chs:
        v, ok = char_nib(c)
        if ok is False:
            raise err('Non-hexadecimal digit found')
        if ok is not True:
            conds.append(ok)
        nibs.append(v)
    if conds:
        if not E().fork(z3.And(*conds) if len(conds) > 1 else conds[0]):
            raise err('Non-hexadecimal digit found')
    out = []
    for a, b in zip(nibs[::2], nibs[1::2]):
        if isinstance(a, int) and isinstance(b, int):
            out.append(a * 16 + b)
        else:
            a = z3.BitVecVal(a, 4) if isinstance(a, int) else a
            b = z3.BitVecVal(b, 4) if isinstance(b, int) else b
            out.append(norm_elem(z3.simplify(z3.Concat(a, b))))
    return out


# ---- character encodings ----------------------------------------------------
def to_char(e):
    """byte element -> character element"""
    if isinstance(e, int):
        return e
    c = z3.simplify(z3.ZeroExt(CW - 8, e))
    nib = E().hexnib.get(e.get_id())
    if nib is not None:
        reg_nib(c, nib[0])
    return c


def char_low(c, bits=8):
    if isinstance(c, int):
        return c & ((1 << bits) - 1)
    r = norm_elem(z3.simplify(z3.Extract(bits - 1, 0, c)))
    nib = E().hexnib.get(c.get_id())
    if nib is not None and is_z3(r):
        reg_nib(r, nib[0])
    return r


def norm_enc(e):
    if is_sym(e):
        e = e.native()
    return str(e).lower().replace('_', '-').replace(' ', '-')


def decode(els, encoding, errors):
    enc = norm_enc(encoding)
    if not any(is_z3(e) for e in els):
        return bytes(els).decode(encoding, errors)
    if errors != 'strict' and enc not in ('latin-1', 'iso-8859-1', 'latin1') and \
            (errors not in ('ignore', 'replace') or enc not in ('ascii', 'us-ascii', 'utf-8', 'utf8', 'u8')):
        raise PathIncomplete('decoding with errors=%r' % errors)
    if enc in ('latin-1', 'iso-8859-1', 'latin1', 'l1', '8859'):
        return mk_str([to_char(e) for e in els])
    syms = [e for e in els if is_z3(e)]
    ascii_ok = not any(isinstance(e, int) and e >= 128 for e in els)
    if enc in ('ascii', 'us-ascii', 'utf-8', 'utf8', 'u8'):
        # characters known to be hex digits are ASCII
        cs = [z3.ULT(e, 128) for e in syms if e.get_id() not in E().hexnib]
        if ascii_ok and (not cs or E().fork(z3.And(*cs) if len(cs) > 1 else cs[0])):
            return mk_str([to_char(e) for e in els])
        if enc in ('ascii', 'us-ascii'):
            if errors == 'strict':
                raise UnicodeDecodeError('ascii', b'\xff', 0, 1, 'ordinal not in range(128)')
            out = []
            for e in els:
                if e < 128 if isinstance(e, int) else e.get_id() in E().hexnib or E().fork(z3.ULT(e, 128)):
                    out.append(to_char(e))
                elif errors == 'replace':
                    out.append(0xfffd)
            return mk_str(out)
        return mk_str(utf8_decode(els, errors))
    if enc in ('utf-16', 'utf-16-le', 'utf-16le', 'utf-16-be', 'utf-16be', 'utf16'):
        if enc in ('utf-16', 'utf16'):
            if els[:2] == [0xff, 0xfe]:
                els = els[2:]
            elif len(els) >= 2 and (is_z3(els[0]) or is_z3(els[1])):
                raise PathIncomplete('utf-16 with a symbolic byte order mark')
        if len(els) % 2:
            raise UnicodeDecodeError('utf-16', b'\xff', 0, 1, 'truncated data')
        out = []
        high = None
        for a, b in zip(els[::2], els[1::2]):
            if 'be' in enc:
                a, b = b, a
            v = norm_elem(z3.simplify(z3.ZeroExt(CW - 16, z3.Concat(byte_term(b), byte_term(a)))))
            def between(v, lo, hi):
                return lo <= v < hi if isinstance(v, int) else E().fork(z3.And(z3.UGE(v, lo), z3.ULT(v, hi)))
            if high is not None:
                if not between(v, 0xdc00, 0xe000):
                    raise UnicodeDecodeError('utf-16', b'\xff', 0, 1, 'illegal UTF-16 surrogate')
                if isinstance(v, int) and isinstance(high, int):
                    out.append(0x10000 + ((high - 0xd800) << 10) + v - 0xdc00)
                else:
                    h, l = [z3.BitVecVal(x, CW) if isinstance(x, int) else x for x in (high, v)]
                    out.append(norm_elem(z3.simplify(z3.ZeroExt(CW - 20, z3.Concat(z3.Extract(9, 0, h), z3.Extract(9, 0, l))) + 0x10000)))
                high = None
            elif between(v, 0xd800, 0xdc00):
                high = v
            elif between(v, 0xdc00, 0xe000):
                raise UnicodeDecodeError('utf-16', b'\xff', 0, 1, 'illegal encoding')
            else:
                out.append(v)
        if high is not None:
            raise UnicodeDecodeError('utf-16', b'\xff', 0, 1, 'unexpected end of data')
        return mk_str(out)
    raise PathIncomplete('decoding symbolic bytes as %s' % enc)


def utf8_decode(els, errors='strict'):
    def bad(skip):
        if errors == 'strict':
            raise UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'invalid utf-8')
        if errors == 'replace':
            out.append(0xfffd)
        return skip

    def rng(e, a, b):
        if isinstance(e, int):
            return a <= e <= b
        return E().fork(z3.And(z3.UGE(e, a), z3.ULE(e, b)))
    out = []
    i, n = 0, len(els)
    while i < n:
        b = els[i]
        if rng(b, 0, 0x7f):
            out.append(to_char(b))
            i += 1
            continue
        for lo, hi, need, c_lo, c_hi in ((0xc2, 0xdf, 1, 0x80, 0xbf), (0xe0, 0xe0, 2, 0xa0, 0xbf),
                                         (0xe1, 0xec, 2, 0x80, 0xbf), (0xee, 0xef, 2, 0x80, 0xbf),
                                         (0xed, 0xed, 2, 0x80, 0x9f), (0xf0, 0xf0, 3, 0x90, 0xbf),
                                         (0xf1, 0xf3, 3, 0x80, 0xbf), (0xf4, 0xf4, 3, 0x80, 0x8f)):
            if rng(b, lo, hi):
                break
        else:
            i += bad(1)
            continue
        if errors == 'strict' and i + need >= n:
            bad(1)
        k = 1
        while k <= need and i + k < n and (rng(els[i + 1], c_lo, c_hi) if k == 1 else rng(els[i + k], 0x80, 0xbf)):
            k += 1
        if k <= need:
            i += bad(k)
            continue
        ts = [z3.Extract(6 - need - 1, 0, byte_term(b))]
        for k in range(1, need + 1):
            ts.append(z3.Extract(5, 0, byte_term(els[i + k])))
        c = z3.Concat(*ts)
        c = z3.Extract(CW - 1, 0, c) if c.size() > CW else z3.ZeroExt(CW - c.size(), c) if c.size() < CW else c
        out.append(norm_elem(z3.simplify(c)))
        i += need + 1
    return out


def encode(chs, encoding, errors):
    enc = norm_enc(encoding)
    if not any(is_z3(c) for c in chs):
        return ''.join(map(chr, chs)).encode(encoding, errors)
    if errors != 'strict':
        if errors not in ('ignore', 'replace') or enc in ('utf-16', 'utf16'):
            raise PathIncomplete('encoding with errors=%r' % errors)
        out = []
        for c in chs:
            try:
                out += els_of(encode([c], encoding, 'strict'))
            except UnicodeEncodeError:
                if errors == 'replace':
                    out += b'?'.decode().encode(encoding)
        return mk_bytes(out)
    syms = [c for c in chs if is_z3(c)]

    def limit(n):
        cs = [z3.ULT(c, n) for c in syms if c.get_id() not in E().hexnib]
        cs = [x for x in (z3.simplify(c) for c in cs) if not z3.is_true(x)]
        if any(isinstance(c, int) and c >= n for c in chs):
            return False
        return not cs or E().fork(z3.And(*cs) if len(cs) > 1 else cs[0])
    if enc in ('latin-1', 'iso-8859-1', 'latin1'):
        if not limit(256):
            raise UnicodeEncodeError('latin-1', 'x', 0, 1, 'ordinal not in range(256)')
        return mk_bytes([char_low(c) for c in chs])
    if enc in ('ascii', 'us-ascii', 'utf-8', 'utf8', 'u8'):
        if limit(128):
            return mk_bytes([char_low(c) for c in chs])
        if enc in ('ascii', 'us-ascii'):
            raise UnicodeEncodeError('ascii', 'x', 0, 1, 'ordinal not in range(128)')
        out = []
        for c in chs:
            if isinstance(c, int):
                out += list(chr(c).encode('utf-8'))
            elif E().fork(z3.ULT(c, 0x80)):
                out.append(char_low(c))
            elif E().fork(z3.ULT(c, 0x800)):
                out += [bits(0b110, 3, c, 10, 6), bits(0b10, 2, c, 5, 0)]
            elif E().fork(z3.And(z3.UGE(c, 0xd800), z3.ULT(c, 0xe000))):
                raise UnicodeEncodeError('utf-8', 'x', 0, 1, 'surrogates not allowed')
            elif E().fork(z3.ULT(c, 0x10000)):
                out += [bits(0b1110, 4, c, 15, 12), bits(0b10, 2, c, 11, 6), bits(0b10, 2, c, 5, 0)]
            else:
                out += [bits(0b11110, 5, c, 20, 18), bits(0b10, 2, c, 17, 12), bits(0b10, 2, c, 11, 6),
                        bits(0b10, 2, c, 5, 0)]
        return mk_bytes(out)
    if enc in ('utf-16', 'utf-16-le', 'utf-16le', 'utf-16-be', 'utf-16be', 'utf16'):
        plain = limit(0xd800)
        out = [0xff, 0xfe] if enc in ('utf-16', 'utf16') else []
        for c in [c for x in chs for c in ([x] if plain else utf16_units(x))]:
            if isinstance(c, int):
                lo, hi = c & 255, c >> 8
            else:
                lo, hi = z3.simplify(z3.Extract(7, 0, c)), z3.simplify(z3.Extract(15, 8, c))
            out += [hi, lo] if 'be' in enc else [lo, hi]
        return mk_bytes(out)
    raise PathIncomplete('encoding symbolic text as %s' % enc)


def utf16_units(c):
    bad = UnicodeEncodeError('utf-16', 'x', 0, 1, 'surrogates not allowed')
    if isinstance(c, int):
        if 0xd800 <= c < 0xe000:
            raise bad
        return [c] if c < 0x10000 else [0xd800 + ((c - 0x10000) >> 10), 0xdc00 + (c & 0x3ff)]
    if E().fork(z3.ULT(c, 0xd800)):
        return [c]
    if E().fork(z3.ULT(c, 0xe000)):
        raise bad
    if E().fork(z3.ULT(c, 0x10000)):
        return [c]
    return [z3.simplify(0xd800 + z3.LShR(c - 0x10000, 10)), z3.simplify(0xdc00 + (c & 0x3ff))]


def bits(tag, tagw, c, hi, lo):
    return norm_elem(z3.simplify(z3.Concat(z3.BitVecVal(tag, tagw), z3.Extract(hi, lo, c))))


def lift(x):
    """native value -> symbolic proxy of the same value"""
    tx = type(x)
    if issubclass(tx, bytearray):
        return SymByteArray(list(x))
    if issubclass(tx, bytes):
        return SymBytes(list(x))
    if issubclass(tx, str):
        return SymStr([ord(c) for c in x])
    return x


def has_letters(x, letters):
    """condition: the text holds one of these characters"""
    r = False
    for c in chs_of(x):
        for k in letters:
            r = core.b_or(r, core.mk_bool(c == ord(k)) if core.is_z3(c) else c == ord(k))
    return r
