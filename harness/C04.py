"""C04 length-prefixed payloads"""
import io

from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter

from harness.common import varint


def var_bytes(t, n, m, kind='bytes'):
    a = t.bytes('a', n)
    b = t.bytes('b', m)
    if kind == 'bytearray':
        src = bytearray(a)
    else:
        src = a
    st = io.BytesIO()
    w = BinaryWriter(st)
    w.WriteVarBytes(src)
    w.WriteVarBytes(b)
    exp = varint(n) + a + varint(m) + b
    t.observe('len', len(st.getvalue()))
    t.check(t.same(st.getvalue(), exp), 'WriteVarBytes does not emit length and payload')
    t.check(t.same(src, a), 'WriteVarBytes changed its argument')
    st = io.BytesIO(exp + b'\x05')
    r = BinaryReader(st)
    t.check(t.same(r.ReadVarBytes(), a), 'ReadVarBytes does not restore the first payload')
    t.check(st.tell() == len(varint(n)) + n, 'ReadVarBytes consumed a wrong number of bytes')
    t.check(t.same(r.ReadVarBytes(max=m), b), 'ReadVarBytes does not restore the second payload')
    t.check(st.tell() == len(exp), 'ReadVarBytes consumed a wrong number of bytes')


def var_string_bytes(t, n, m):
    """WriteVarString given bytes"""
    a = t.bytes('a', n)
    b = t.bytes('b', m)
    st = io.BytesIO()
    w = BinaryWriter(st)
    w.WriteVarString(a)
    w.WriteVarString(b)
    exp = varint(n) + a + varint(m) + b
    t.check(t.same(st.getvalue(), exp), 'WriteVarString does not emit length and payload')
    st = io.BytesIO(exp + b'\x05')
    r = BinaryReader(st)
    t.check(t.same(r.ReadVarString(), a), 'ReadVarString does not restore the first payload')
    t.check(t.same(r.ReadVarString(max=m), b), 'ReadVarString does not restore the second payload')
    t.check(st.tell() == len(exp), 'ReadVarString consumed a wrong number of bytes')


def var_string(t, n, kind, encoding):
    s = t.str('s', n, kind)
    st = io.BytesIO()
    w = BinaryWriter(st)
    if encoding is None:
        w.WriteVarString(s)
        enc = s.encode('utf-8')
    else:
        w.WriteVarString(s, encoding)
        enc = s.encode(encoding)
    exp = varint(len(enc)) + enc
    t.observe('out', st.getvalue())
    t.check(t.same(st.getvalue(), exp), 'WriteVarString does not emit length and text')
    st = io.BytesIO(exp + b'q')
    got = BinaryReader(st).ReadVarString()
    t.check(t.same(got, enc), 'ReadVarString does not restore the text bytes')
    t.check(t.same(got.decode(encoding or 'utf-8'), s), 'the text is not restored')
    t.check(st.tell() == len(exp), 'ReadVarString consumed a wrong number of bytes')


def raw(t, n, kind):
    """WriteBytes(unhex=False) and ReadBytes carry bytes unchanged"""
    a = t.bytes('a', n)
    src = bytearray(a) if kind == 'bytearray' else a
    st = io.BytesIO()
    w = BinaryWriter(st)
    w.WriteBytes(src, unhex=False)
    w.WriteBytes(src, False)
    t.check(t.same(st.getvalue(), a + a), 'WriteBytes(unhex=False) does not emit its argument')
    t.check(t.same(src, a), 'WriteBytes changed its argument')
    st = io.BytesIO(a + b'zz')
    r = BinaryReader(st)
    t.check(t.same(r.ReadBytes(n), a), 'ReadBytes does not restore the bytes')
    t.check(st.tell() == n, 'ReadBytes consumed a wrong number of bytes')


def unhex(t, n):
    """WriteBytes of a hexadecimal text emits the denoted bytes"""
    a = t.bytes('a', n)
    st = io.BytesIO()
    w = BinaryWriter(st)
    w.WriteBytes(a.hex())
    w.WriteBytes(a.hex().encode('ascii'), unhex=True)
    t.check(t.same(st.getvalue(), a + a), 'WriteBytes does not emit the bytes denoted by the hexadecimal text')


def string8(t, n, extra):
    """ReadString: one length byte, then exactly that many bytes"""
    a = t.bytes('a', n)
    x = t.bytes('x', extra)
    st = io.BytesIO(bytes([n]) + a + x)
    got = BinaryReader(st).ReadString()
    t.check(t.same(got, a), 'ReadString does not give the announced bytes')
    t.check(st.tell() == n + 1, 'ReadString consumed a wrong number of bytes')


def sequence(t, n):
    """payloads between other fields, written and read through one stream"""
    a = t.bytes('a', n)
    v = t.int('v', 0, 2 ** 32 - 1)
    s = t.str('s', 2, 'latin')
    st = io.BytesIO()
    w = BinaryWriter(st)
    w.WriteUInt32(v)
    w.WriteVarBytes(a)
    w.WriteVarString(s)
    w.WriteByte(7)
    w.WriteVarBytes(a)
    e = s.encode('utf-8')
    exp = v.to_bytes(4, 'little') + varint(n) + a + varint(len(e)) + e + b'\x07' + varint(n) + a
    t.check(t.same(st.getvalue(), exp), 'payloads between other fields are not written in order')
    st.seek(0)
    r = BinaryReader(st)
    t.check(t.same(r.ReadUInt32(), v), 'the number before a payload is not restored')
    t.check(t.same(r.ReadVarBytes(), a), 'the payload is not restored')
    t.check(t.same(r.ReadVarString(), e), 'the text is not restored')
    t.check(t.same(r.ReadByte(), 7), 'the byte behind a payload is not restored')
    t.check(t.same(r.ReadVarBytes(), a), 'the last payload is not restored')


def prefix_order(t, n, endian):
    """the length in the requested byte order"""
    a = t.bytes('a', n)
    st = io.BytesIO()
    BinaryWriter(st).WriteVarBytes(a, endian)
    big = 'big' if endian == '>' else 'little'
    exp = bytes([n]) if n < 0xfd else b'\xfd' + n.to_bytes(2, big) if n <= 0xffff else b'\xfe' + n.to_bytes(4, big)
    t.check(t.same(st.getvalue(), exp + a), 'WriteVarBytes does not emit the length in the requested byte order and the payload')
