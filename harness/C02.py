"""C02 fixed-width integers and Fixed8 on the wire"""
import io

from neocore.Fixed8 import Fixed8
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter

KINDS = ['Int8', 'UInt8', 'Int16', 'UInt16', 'Int32', 'UInt32', 'Int64', 'UInt64']


def info(kind):
    bits = int(kind[kind.index('t') + 1:])
    if kind[0] == 'U':
        return bits // 8, 0, 2 ** bits - 1, False
    return bits // 8, -2 ** (bits - 1), 2 ** (bits - 1) - 1, True


def write(w, kind, v, endian):
    m = getattr(w, 'Write' + kind)
    return m(v) if endian is None else m(v, endian) if endian == '<' else m(v, endian=endian)


def read(r, kind, endian):
    m = getattr(r, 'Read' + kind)
    return m() if endian is None else m(endian) if endian == '<' else m(endian=endian)


def order(endian):
    return 'big' if endian == '>' else 'little'


def roundtrip(t, kind, endian):
    n, lo, hi, sg = info(kind)
    a = t.int('a', lo, hi)
    b = t.int('b', lo, hi)
    st = io.BytesIO()
    w = BinaryWriter(st)
    write(w, kind, a, endian)
    write(w, kind, b, endian)
    exp = a.to_bytes(n, order(endian), signed=sg) + b.to_bytes(n, order(endian), signed=sg)
    out = st.getvalue()
    t.observe('out', out)
    t.check(t.same(out, exp), 'Write%s does not emit the two\'s complement bytes' % kind)
    st = io.BytesIO(exp + b'\xaa')
    r = BinaryReader(st)
    t.check(t.same(read(r, kind, endian), a), 'Read%s does not restore the first value' % kind)
    t.check(st.tell() == n, 'Read%s consumed a wrong number of bytes' % kind)
    t.check(t.same(read(r, kind, endian), b), 'Read%s does not restore the second value' % kind)


def decode(t, kind, endian):
    """reading arbitrary bytes gives the number they denote"""
    n, lo, hi, sg = info(kind)
    d = t.bytes('d', n)
    v = read(BinaryReader(io.BytesIO(d)), kind, endian)
    t.observe('v', v)
    t.check(t.same(v, int.from_bytes(d, order(endian), signed=sg)), 'Read%s gives a wrong number' % kind)


def rejects(t, kind, endian, side):
    n, lo, hi, sg = info(kind)
    v = t.int('v', hi + 1, 2 ** 80) if side > 0 else t.int('v', -2 ** 80, lo - 1)
    st = io.BytesIO()
    ok, r = t.attempt(lambda: write(BinaryWriter(st), kind, v, endian))
    t.check(not ok, 'Write%s accepted an out-of-range number' % kind)
    t.check(len(st.getvalue()) == 0, 'a rejected number left bytes in the stream')


def truncated(t, kind, endian, k):
    d = t.bytes('d', k)
    ok, r = t.attempt(lambda: read(BinaryReader(io.BytesIO(d)), kind, endian))
    t.check(not ok, 'Read%s gave a value from a truncated field' % kind)


def fixed8(t):
    a = t.int('a', -2 ** 63, 2 ** 63 - 1)
    b = t.int('b', -2 ** 63, 2 ** 63 - 1)
    st = io.BytesIO()
    w = BinaryWriter(st)
    x = Fixed8(a)
    w.WriteFixed8(x)
    w.WriteFixed8(Fixed8(b), unsigned=True)
    exp = a.to_bytes(8, 'little', signed=True) + b.to_bytes(8, 'little', signed=True)
    t.check(t.same(st.getvalue(), exp), 'WriteFixed8 does not emit the signed 64 bit count')
    t.check(t.same(x.value, a), 'WriteFixed8 changed the amount')
    st = io.BytesIO(exp)
    r = BinaryReader(st)
    p = r.ReadFixed8()
    q = r.ReadFixed8()
    t.check(type(p) is Fixed8 and type(q) is Fixed8, 'ReadFixed8 does not give a Fixed8')
    t.check(t.all([t.same(p.value, a), t.same(q.value, b)]), 'ReadFixed8 does not restore the amount')
    t.check(t.same(p == Fixed8(a), True), 'the restored amount is not equal to the written one')
    t.check(st.tell() == 16, 'ReadFixed8 consumed a wrong number of bytes')


def fixed8_rejects(t):
    v = t.int('v', 2 ** 63, 2 ** 70)
    s = t.choice('s', [1, -1])
    v = v if s > 0 else -v - 1
    st = io.BytesIO()
    ok, r = t.attempt(lambda: BinaryWriter(st).WriteFixed8(Fixed8(v)))
    t.check(not ok, 'WriteFixed8 accepted an out-of-range amount')
    t.check(len(st.getvalue()) == 0, 'a rejected amount left bytes in the stream')


def fixed8_truncated(t, k):
    d = t.bytes('d', k)
    ok, r = t.attempt(lambda: BinaryReader(io.BytesIO(d)).ReadFixed8())
    t.check(not ok, 'ReadFixed8 gave an amount from a truncated field')


def mixed(t, kinds, endian):
    """fields of different kinds in sequence do not disturb one another"""
    st = io.BytesIO()
    w = BinaryWriter(st)
    exp = b''
    vals = []
    for i, k in enumerate(kinds):
        n, lo, hi, sg = info(k)
        v = t.int('v%d' % i, lo, hi)
        vals.append(v)
        write(w, k, v, endian)
        exp = exp + v.to_bytes(n, order(endian), signed=sg)
    t.check(t.same(st.getvalue(), exp), 'fields in sequence are not the concatenation of their encodings')
    st.seek(0)
    r = BinaryReader(st)
    t.check(t.all([t.same(read(r, k, endian), v) for k, v in zip(kinds, vals)]), 'fields in sequence are not restored')
    t.check(st.tell() == len(exp), 'fields in sequence are not consumed exactly')
