"""C01 variable-length integers"""
import io

from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter


def spec(v):
    """canonical NEO varint, written independently of the implementation"""
    if v < 0xfd:
        return v.to_bytes(1, 'little')
    if v <= 0xffff:
        return b'\xfd' + v.to_bytes(2, 'little')
    if v <= 0xffffffff:
        return b'\xfe' + v.to_bytes(4, 'little')
    return b'\xff' + v.to_bytes(8, 'little')


def encode(t):
    """WriteVarInt emits exactly the canonical encoding, and ReadVarInt restores it"""
    a = t.int('a', 0, 2 ** 64 - 1)
    b = t.int('b', 0, 2 ** 64 - 1)
    st = io.BytesIO()
    w = BinaryWriter(st)
    w.WriteVarInt(a)
    w.WriteVarInt(b)
    out = st.getvalue()
    exp = spec(a) + spec(b)
    t.observe('out', out)
    t.check(t.same(out, exp), 'WriteVarInt does not emit the canonical encoding')
    st = io.BytesIO(exp + b'\x77')
    r = BinaryReader(st)
    t.check(t.same(r.ReadVarInt(2 ** 64 - 1), a), 'ReadVarInt does not restore the first value')
    t.check(t.same(r.ReadVarInt(max=2 ** 64 - 1), b), 'ReadVarInt does not restore the second value')
    t.check(st.tell() == len(exp), 'ReadVarInt consumes a wrong number of bytes')


def negative(t):
    v = t.int('v', -2 ** 70, -1)
    st = io.BytesIO()
    ok, r = t.attempt(lambda: BinaryWriter(st).WriteVarInt(v))
    t.check(not ok, 'a negative varint was written')
    t.check(len(st.getvalue()) == 0, 'a rejected varint left bytes in the stream')


def too_big(t):
    v = t.int('v', 2 ** 64, 2 ** 72)
    st = io.BytesIO()
    ok, r = t.attempt(lambda: BinaryWriter(st).WriteVarInt(v))
    t.check(not ok, 'a varint beyond 64 bits was written')


def limit(t):
    """ReadVarInt(max) never returns a value above max"""
    v = t.int('v', 0, 2 ** 64 - 1)
    m = t.int('m', 0, 2 ** 64 - 1)
    r = BinaryReader(io.BytesIO(spec(v)))
    ok, x = t.attempt(lambda: r.ReadVarInt(m))
    if ok:
        t.check(t.same(x, v), 'ReadVarInt(max) returned a different value')
        t.check(x <= m, 'ReadVarInt(max) returned a value above max')
        t.reach('accepted')
    else:
        t.check(v > m, 'ReadVarInt(max) rejected a value within max')
        t.reach('rejected')


def default_limit(t):
    """without a limit everything up to sys.maxsize is restored"""
    v = t.int('v', 0, 2 ** 63 - 1)
    st = io.BytesIO(spec(v) + b'\x01')
    t.check(t.same(BinaryReader(st).ReadVarInt(), v), 'ReadVarInt does not restore the value')
    t.check(st.tell() == len(spec(v)), 'ReadVarInt consumes a wrong number of bytes')


def not_int(t):
    v = t.choice('v', ['1', b'\x01', 1.0, None, [1]])
    st = io.BytesIO()
    ok, r = t.attempt(lambda: BinaryWriter(st).WriteVarInt(v))
    t.check(not ok, 'a non-integer was written as a varint')
    t.check(len(st.getvalue()) == 0, 'a rejected varint left bytes in the stream')


def big_endian(t):
    """the prefix and width do not depend on the byte order asked for"""
    v = t.int('v', 0, 2 ** 64 - 1)
    st = io.BytesIO()
    BinaryWriter(st).WriteVarInt(v, '>')
    exp = spec(v)
    t.check(t.same(st.getvalue(), exp[:1] + exp[1:][::-1]), 'WriteVarInt in big-endian order is not the reversed form')
