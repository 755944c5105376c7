"""C09 UInt equality, hashing, ordering"""
import io

from neocore.IO.BinaryReader import BinaryReader
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256

CLS = {20: UInt160, 32: UInt256}


def num(d):
    return int.from_bytes(d, 'little')


def pair(t, n):
    a, b = t.bytes('a', n), t.bytes('b', n)
    x, y = CLS[n](a), CLS[n](b)
    va, vb = num(a), num(b)
    t.check(t.same(x == y, va == vb), 'equality does not mean equal bytes')
    t.check(t.same(x != y, va != vb), 'inequality does not mean different bytes')
    t.check(t.implies(va == vb, hash(x) == hash(y)), 'equal UInts have different hashes')
    t.check(t.same(hash(x), num(a[:4])), 'the hash is not the number of the first four bytes')
    t.check(t.same(x.GetHashCode(), num(a[:4])), 'GetHashCode is not the number of the first four bytes')


def order(t, n):
    a, b = t.bytes('a', n), t.bytes('b', n)
    x, y = CLS[n](a), CLS[n](b)
    va, vb = num(a), num(b)
    op = t.choice('op', ['<', '>', '<=', '>=', 'c'])
    if op == '<':
        t.check(t.same(x < y, va < vb), '< is not the numeric comparison')
    elif op == '>':
        t.check(t.same(x > y, va > vb), '> is not the numeric comparison')
    elif op == '<=':
        t.check(t.same(x <= y, va <= vb), '<= is not the numeric comparison')
    elif op == '>=':
        t.check(t.same(x >= y, va >= vb), '>= is not the numeric comparison')
    else:
        c = x.CompareTo(y)
        t.check(t.same(c < 0, va < vb) and t.same(c == 0, va == vb) and t.same(c > 0, va > vb), 'CompareTo is not the numeric comparison')
    t.check(t.same(x.ToArray(), a) and t.same(y.ToArray(), b), 'comparing changed a value')


def mutated(t, n):
    """the source buffer changes after construction"""
    a, b = t.bytes('a', n), t.bytes('b', n)
    buf = bytearray(a)
    x = CLS[n](buf)
    for i in range(n):
        buf[i] = b[i]
    t.check(t.same(x.ToArray(), a), 'changing the source buffer changed the UInt')
    t.check(t.same(hash(x), num(a[:4])), 'changing the source buffer changed the hash')
    t.check(t.same(x == CLS[n](a), True), 'changing the source buffer changed the UInt')
    y = CLS[n](b)
    if t.concrete(n == 20):
        buf.append(1)
    t.check(t.same(x == y, num(a) == num(b)), 'changing the source buffer changed equality')


def shared(t, n):
    """two values made from one buffer, from each other's data, or by default are independent"""
    a, b = t.bytes('a', n), t.bytes('b', n)
    buf = bytearray(a)
    x = CLS[n](buf)
    y = CLS[n](x.Data)
    z, u = CLS[n](), CLS[n]()
    x.Deserialize(BinaryReader(io.BytesIO(b)))
    z.Deserialize(BinaryReader(io.BytesIO(b)))
    t.check(t.same(y.ToArray(), a), 'a UInt changed with another one made from the same data')
    t.check(t.same(bytes(buf), a), 'deserializing changed the source buffer')
    t.check(t.same(u.ToArray(), bytes(n)), 'default values are shared')
    t.check(t.same(x == z, True) and t.same(hash(x) == hash(z), True), 'values with the same content differ')
    t.check(t.same(hash(x), num(b[:4])), 'the hash was not updated by deserializing')
    t.check(t.same(x == y, num(a) == num(b)), 'equality after deserializing is wrong')
    t.check(t.same(hash(u), 0), 'the hash of the zero value is not zero')


def foreign(t, n, what):
    a = t.bytes('a', n)
    x = CLS[n](a)
    o = {'width': lambda: CLS[52 - n](t.bytes('o', 52 - n)), 'bytes': lambda: t.bytes('o', n), 'bytearray': lambda: t.bytearray('o', n),
         'int': lambda: t.int('o', 0, 2 ** 160 - 1), 'none': lambda: None, 'text': lambda: x.ToString(), 'zero': lambda: CLS[52 - n](),
         'obj': lambda: object()}[what]()
    t.check(t.same(x == o, False), 'a UInt equals a value of another kind')
    t.check(t.same(x != o, True), 'a UInt equals a value of another kind')
    for f in (lambda: x.CompareTo(o), lambda: x < o, lambda: x > o, lambda: x <= o, lambda: x >= o):
        ok, r = t.attempt(f)
        t.check(not ok, 'a UInt was compared with a value of another kind')


def keys(t, n):
    """sets and dictionaries find equal values"""
    a, b = t.bytes('a', n), t.bytes('b', n)
    d = {CLS[n](a): 1}
    t.check(t.same(CLS[n](b) in d, num(a) == num(b)), 'a dictionary finds another value')
