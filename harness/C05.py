"""C05 fixed-width strings"""
import io

from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter


def write(t, n, width, kind):
    s = t.str('s', n, kind)
    st = io.BytesIO()
    w = BinaryWriter(st)
    w.WriteByte(9)
    enc = s.encode('utf-8')
    ok, r = t.attempt(lambda: w.WriteFixedString(s, width))
    w.WriteByte(8)
    out = st.getvalue()
    t.observe('out', out)
    if len(enc) > width:
        t.check(not ok, 'WriteFixedString accepted a text longer than the width')
        t.check(t.same(out, b'\x09\x08'), 'a rejected text left bytes in the stream')
        t.reach('long')
    else:
        t.check(ok, 'WriteFixedString rejected a text that fits')
        t.check(t.same(out, b'\x09' + enc + b'\x00' * (width - len(enc)) + b'\x08'), 'WriteFixedString does not emit the padded text')
        t.reach('fits')


def read(t, width):
    d = t.bytes('d', width)
    st = io.BytesIO(d + b'tail')
    got = BinaryReader(st).ReadFixedString(width)
    n = width
    while n > 0 and d[n - 1] == 0:
        n -= 1
    t.check(t.same(got, d[:n]), 'ReadFixedString does not strip exactly the trailing zero bytes')
    t.check(st.tell() == width, 'ReadFixedString consumed a wrong number of bytes')


def roundtrip(t, n, width, kind):
    s = t.str('s', n, kind)
    u = t.str('u', 1, 'ascii')
    enc = s.encode('utf-8')
    t.assume(len(enc) <= width)
    st = io.BytesIO()
    w = BinaryWriter(st)
    w.WriteFixedString(s, width)
    w.WriteFixedString(u, width)
    t.check(len(st.getvalue()) == 2 * width, 'WriteFixedString does not emit exactly the width')
    st.seek(0)
    r = BinaryReader(st)
    g = r.ReadFixedString(width)
    h = r.ReadFixedString(width)
    m = len(enc)
    while m > 0 and enc[m - 1] == 0:
        m -= 1
    t.check(t.same(g, enc[:m]), 'the fixed string is not restored')
    t.check(t.same(h, b'' if u == '\0' else u.encode('utf-8')), 'the second fixed string is not restored')
