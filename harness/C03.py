"""C03 single bytes, booleans, characters, floats"""
import io
import struct

from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter


def byte_int(t):
    a = t.int('a', 0, 255)
    b = t.int('b', 0, 255)
    st = io.BytesIO()
    w = BinaryWriter(st)
    w.WriteByte(a)
    w.WriteByte(b)
    t.check(t.same(st.getvalue(), bytes([a, b])), 'WriteByte does not emit the byte')
    st = io.BytesIO(bytes([a, b]) + b'z')
    r = BinaryReader(st)
    t.check(t.same(r.ReadByte(), a), 'ReadByte does not restore the byte')
    t.check(t.same(r.ReadByte(do_ord=False), bytes([b])), 'ReadByte(do_ord=False) does not restore the byte')
    t.check(st.tell() == 2, 'ReadByte consumed a wrong number of bytes')


def byte_reject(t):
    v = t.int('v', -2 ** 66, 2 ** 66)
    t.assume(t.any([v < 0, v > 255]))
    st = io.BytesIO()
    ok, r = t.attempt(lambda: BinaryWriter(st).WriteByte(v))
    t.check(not ok, 'WriteByte accepted an integer outside 0..255')
    t.check(len(st.getvalue()) == 0, 'a rejected byte left bytes in the stream')


def byte_raw(t, n):
    d = t.bytes('d', n)
    st = io.BytesIO()
    BinaryWriter(st).WriteByte(d)
    t.check(t.same(st.getvalue(), d), 'WriteByte does not emit the given bytes')


def byte_text(t, n):
    s = t.str('s', n)
    st = io.BytesIO()
    BinaryWriter(st).WriteByte(s)
    t.check(t.same(st.getvalue(), s.encode('utf-8')), 'WriteByte does not emit the UTF-8 form')


def char(t):
    d = t.bytes('d', 1)
    e = t.bytes('e', 1)
    st = io.BytesIO()
    w = BinaryWriter(st)
    w.WriteChar(d)
    w.WriteChar(e)
    t.check(t.same(st.getvalue(), d + e), 'WriteChar does not emit the byte')
    st = io.BytesIO(d + e)
    r = BinaryReader(st)
    t.check(t.same(r.ReadChar(), d), 'ReadChar does not restore the byte')
    t.check(t.same(r.ReadChar(), e), 'ReadChar does not restore the second byte')
    t.check(st.tell() == 2, 'ReadChar consumed a wrong number of bytes')


def boolean(t):
    v = t.bool('v')
    st = io.BytesIO()
    w = BinaryWriter(st)
    w.WriteBool(v)
    w.WriteBool(not v)
    exp = b'\x01\x00' if v else b'\x00\x01'
    t.check(t.same(st.getvalue(), exp), 'WriteBool does not emit 1 or 0')
    st = io.BytesIO(exp)
    r = BinaryReader(st)
    t.check(t.same(r.ReadBool(), v), 'ReadBool does not restore the boolean')
    t.check(t.same(r.ReadBool(), not v), 'ReadBool does not restore the second boolean')


def boolean_read(t):
    d = t.bytes('d', 1)
    st = io.BytesIO(d + b'x')
    v = BinaryReader(st).ReadBool()
    t.check(type(v) is bool, 'ReadBool does not give a boolean')
    t.check(t.same(v, d[0] != 0), 'ReadBool misreads a byte')
    t.check(st.tell() == 1, 'ReadBool consumed a wrong number of bytes')


def wr(w, name, v, endian):
    m = getattr(w, 'Write' + name)
    m(v) if endian is None else m(v, endian)


def rd(r, name, endian):
    m = getattr(r, 'Read' + name)
    return m() if endian is None else m(endian=endian)


def double(t, endian):
    x = t.f64('x')
    y = t.f64('y')
    e = endian or '<'
    st = io.BytesIO()
    w = BinaryWriter(st)
    wr(w, 'Double', x, endian)
    wr(w, 'Double', y, endian)
    exp = struct.pack(e + 'd', x) + struct.pack(e + 'd', y)
    t.check(t.same(st.getvalue(), exp), 'WriteDouble does not emit the IEEE bytes')
    st = io.BytesIO(exp)
    r = BinaryReader(st)
    a, b = rd(r, 'Double', endian), rd(r, 'Double', endian)
    t.check(st.tell() == 16, 'ReadDouble consumed a wrong number of bytes')
    t.check(t.same(struct.pack('<d', a), struct.pack('<d', x)), 'ReadDouble does not restore the bits')
    t.check(t.same(struct.pack('<d', b), struct.pack('<d', y)), 'ReadDouble does not restore the second value')


def double_read(t, endian):
    d = t.bytes('d', 8)
    v = rd(BinaryReader(io.BytesIO(d)), 'Double', endian)
    t.check(t.same(struct.pack((endian or '<') + 'd', v), d), 'ReadDouble changes the bits')


def single(t, endian):
    """every 32 bit float"""
    d = t.bytes('d', 4)
    e = endian or '<'
    v = struct.unpack(e + 'f', d)[0]
    t.assume(v == v)
    st = io.BytesIO(d + d)
    r = BinaryReader(st)
    x = rd(r, 'Float', endian)
    t.check(t.same(struct.pack('<d', x), struct.pack('<d', v)), 'ReadFloat gives a wrong number')
    t.check(st.tell() == 4, 'ReadFloat consumed a wrong number of bytes')
    st = io.BytesIO()
    wr(BinaryWriter(st), 'Float', v, endian)
    t.check(t.same(st.getvalue(), d), 'WriteFloat does not emit the IEEE bytes')


def nan(t, endian):
    d = t.bytes('d', 4)
    v = struct.unpack((endian or '<') + 'f', d)[0]
    t.assume(v != v)
    x = rd(BinaryReader(io.BytesIO(d)), 'Float', endian)
    t.check(x != x, 'ReadFloat loses a NaN')
    st = io.BytesIO()
    wr(BinaryWriter(st), 'Float', v, endian)
    y = rd(BinaryReader(io.BytesIO(st.getvalue())), 'Float', endian)
    t.check(y != y, 'a NaN is not restored as a NaN')


def double_to_single(t, endian):
    """WriteFloat of any double writes what IEEE rounding gives, or rejects it"""
    x = t.f64('x')
    t.assume(x == x)
    e = endian or '<'
    ok, exp = t.attempt(lambda: struct.pack(e + 'f', x))
    st = io.BytesIO()
    ok2, r = t.attempt(lambda: wr(BinaryWriter(st), 'Float', x, endian))
    t.check(ok == ok2, 'WriteFloat accepts another set of numbers')
    if ok:
        t.check(t.same(st.getvalue(), exp), 'WriteFloat does not emit the rounded number')
    else:
        t.check(len(st.getvalue()) == 0, 'a rejected float left bytes in the stream')


def truncated(t, name, n):
    d = t.bytes('d', n)
    ok, r = t.attempt(lambda: getattr(BinaryReader(io.BytesIO(d)), 'Read' + name)())
    t.check(not ok, 'Read%s gave a value from a truncated field' % name)
