"""C07 UInt serialization"""
import io

from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256

CLS = {20: UInt160, 32: UInt256}


def is_hex(d):
    """every byte is an ASCII hexadecimal digit"""
    return [((b >= 48) & (b <= 57)) | ((b >= 65) & (b <= 70)) | ((b >= 97) & (b <= 102)) for b in d]


def halved(d):
    out = []
    for i in range(0, len(d), 2):
        hi, lo = [((c & 15) + 9 * (c >> 6)) & 15 for c in d[i:i + 2]]
        out.append(hi * 16 + lo)
    return bytes(out)


def serialize(t, n, typed):
    d = t.bytes('d', n)
    known = t.all(is_hex(d))
    x = CLS[n](d)
    st = io.BytesIO()
    w = BinaryWriter(st)
    w.WriteByte(0x11)
    if typed:
        w.WriteUInt160(x) if n == 20 else w.WriteUInt256(x)
    else:
        x.Serialize(w)
    w.WriteByte(0x22)
    out = st.getvalue()
    t.check(t.same(out, b'\x11' + d + b'\x22'), 'a UInt is not written as its data bytes', known=('F1', known))
    t.check(t.same(x.ToArray(), d), 'serializing changed the UInt')


def serialize_hex(t, n):
    """the recorded finding: data made of hexadecimal digit characters is written halved, and nothing else happens"""
    d = t.bytes('d', n)
    t.assume(t.all(is_hex(d)))
    x = CLS[n](d)
    st = io.BytesIO()
    x.Serialize(BinaryWriter(st))
    out = st.getvalue()
    t.check(t.any([t.same(out, d), t.same(out, halved(d))]), 'a UInt made of hexadecimal digit characters is written in yet another way')


def read(t, n, how):
    d = t.bytes('d', n)
    e = t.bytes('e', n)
    st = io.BytesIO(d + e + b'z')
    r = BinaryReader(st)

    def one():
        if how == 'typed':
            return r.ReadUInt160() if n == 20 else r.ReadUInt256()
        x = CLS[n]()
        x.Deserialize(r)
        return x
    x = one()
    t.check(st.tell() == n, 'reading a UInt consumed a wrong number of bytes')
    y = one()
    t.check(st.tell() == 2 * n, 'reading a UInt consumed a wrong number of bytes')
    t.check(type(x) is CLS[n] and type(y) is CLS[n], 'reading a UInt gives another type')
    t.check(t.same(x == CLS[n](d), True), 'the restored UInt is not equal to the written one')
    t.check(t.same(x.ToArray(), d), 'the restored UInt has other bytes')
    t.check(t.same(y.ToArray(), e), 'the second restored UInt has other bytes')
    t.check(x.Size == n, 'the restored UInt has another size')


def again(t, n):
    """deserializing into a used object replaces its content"""
    d = t.bytes('d', n)
    e = t.bytes('e', n)
    x = CLS[n](d)
    x.Deserialize(BinaryReader(io.BytesIO(e)))
    t.check(t.same(x.ToArray(), e), 'deserializing did not replace the content')
    t.check(t.same(x == CLS[n](e), True), 'deserializing did not replace the content')
    st = io.BytesIO()
    x.Serialize(BinaryWriter(st))
    t.check(t.same(st.getvalue(), e), 'the deserialized UInt is not written as its data bytes', known=('F1', t.all(is_hex(e))))


def truncated(t, n, k, how):
    d = t.bytes('d', k)
    r = BinaryReader(io.BytesIO(d))
    if how == 'typed':
        ok, x = t.attempt(lambda: r.ReadUInt160() if n == 20 else r.ReadUInt256())
    else:
        ok, x = t.attempt(lambda: CLS[n]().Deserialize(r))
    t.check(not ok, 'a UInt was read from too few bytes')


def construct(t, n, k, kind):
    d = t.bytes('d', k)
    ok, x = t.attempt(lambda: CLS[n](bytearray(d) if kind == 'bytearray' else d))
    t.check(ok == (k == n), 'a UInt of wrong width was constructed, or one of right width rejected')
    if ok:
        t.check(t.same(x.ToArray(), d), 'the constructed UInt has other bytes')
        t.check(x.Size == n, 'the constructed UInt has another size')


def default(t, n):
    x = CLS[n]()
    t.check(t.same(x.ToArray(), b'\x00' * n), 'a UInt without data is not zero')
    y = CLS[n]()
    y.Deserialize(BinaryReader(io.BytesIO(t.bytes('d', n))))
    t.check(t.same(CLS[n]().ToArray(), b'\x00' * n), 'default values share their content')


def foreign(t, n):
    d = t.bytes('d', 52 - n)
    other = CLS[52 - n](d)
    v = t.choice('v', ['other', 'bytes', 'int', 'none', 'text'])
    x = {'other': other, 'bytes': t.bytes('b', n), 'int': t.int('i', 0, 2 ** 160 - 1), 'none': None, 'text': 'aa' * n}[v]
    st = io.BytesIO()
    w = BinaryWriter(st)
    ok, r = t.attempt(lambda: w.WriteUInt160(x) if n == 20 else w.WriteUInt256(x))
    t.check(not ok, 'a value of another type was written as a UInt')
    t.check(len(st.getvalue()) == 0, 'a rejected value left bytes in the stream')
