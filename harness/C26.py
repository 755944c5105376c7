"""C26 public key encoding"""
import binascii
import io
from neocore.Cryptography.ECCurve import ECDSA, EllipticCurve, FiniteField
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter

P = 0xFFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF
A = P - 3
B = 0x5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B


def right(t, x):
    return (x * x * x + A * x + B) % P


def root(t, x):
    """the square root power of the right hand side"""
    return pow(right(t, x), (P + 1) // 4, P)


def point(t):
    """every point of P-256: x and which of the two roots"""
    t.abstract()
    x = t.int('x', 0, P - 1)
    v = right(t, x)
    w = root(t, x)
    t.assume(w * w % P == v)
    t.assume(w != 0)                    # the order is odd: no point has y = 0
    if t.bool('other'):
        return x, P - w
    return x, w


def prefix(y):
    return b'\x03' if y % 2 else b'\x02'


def compressed(x, y):
    return prefix(y) + x.to_bytes(32, 'big')


def uncompressed(x, y):
    return b'\x04' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')


def curve():
    return EllipticCurve(FiniteField(P), A, B)


def at(t, p, x, y, what):
    t.check(type(p) is EllipticCurve.ECPoint, '%s gives no point' % what)
    t.check(t.same(p.x.value, x), '%s gives another x' % what)
    t.check(t.same(p.y.value, y), '%s gives another y' % what)
    c = p.curve
    t.check(c.field.p == P and c.a == A and c.b == B, '%s gives a point of another curve' % what)


def encode(t):
    """any coordinates"""
    x, y = t.int('x', 1, P - 1), t.int('y', 0, P - 1)
    p = curve().point(x, y)
    t.check(p.Size() == 33, 'the size is wrong')
    want = compressed(x, y)
    t.check(t.same(bytes(p.encode_point()), binascii.hexlify(want)), 'the compressed encoding is wrong')
    t.check(t.same(bytes(p.encode_point(compressed=True)), binascii.hexlify(want)), 'the compressed encoding is wrong')
    t.check(t.same(bytes(p.encode_point(compressed=False)), binascii.hexlify(uncompressed(x, y))), 'the uncompressed encoding is wrong')
    for comp, w in ((True, want), (False, uncompressed(x, y))):
        s = io.BytesIO()
        p.Serialize(BinaryWriter(s), compress=comp)
        t.check(t.same(s.getvalue(), w), 'serializing writes other bytes than the encoding')
    s = io.BytesIO()
    p.Serialize(BinaryWriter(s))
    t.check(t.same(s.getvalue(), want), 'serializing does not compress by itself')
    t.check(t.same(p.x.value, x) and t.same(p.y.value, y), 'encoding changed the point')


def infinity(t):
    c = curve()
    for z in (c.Infinity, c.zero(), c.point(0, 0)):
        t.check(z.Size() == 1 and bytes(z.encode_point()) == b'\x00', 'the neutral point is not one zero byte')
        s = io.BytesIO()
        z.Serialize(BinaryWriter(s))
        t.check(s.getvalue() == b'\x00', 'the neutral point is not one zero byte')
        s = io.BytesIO(b'\x00\x07')
        r = BinaryReader(s)
        t.check(ECDSA.Deserialize_Secp256r1(r).IsInfinity and s.tell() == 1, 'the zero byte is not read as the neutral point')
    t.check(c.decode_from_hex('00').IsInfinity and c.decode_from_hex(b'\x00', unhex=False).IsInfinity, 'the zero byte is not the neutral point')


def trip(t, how):
    x, y = point(t)
    what = 'decoding from ' + how
    p = curve().point(x, y)
    enc = p.encode_point()
    if how == 'hex bytes':
        at(t, ECDSA.decode_secp256r1(enc).G, x, y, what)
    elif how == 'hex text':
        s = enc.decode('ascii')
        at(t, ECDSA.decode_secp256r1(s).G, x, y, what)
    elif how == 'upper case':
        at(t, ECDSA.decode_secp256r1(enc.decode('ascii').upper()).G, x, y, what)
    elif how == 'raw bytes':
        at(t, ECDSA.decode_secp256r1(compressed(x, y), unhex=False).G, x, y, what)
    elif how == 'a byte array':
        at(t, ECDSA.decode_secp256r1(bytearray(compressed(x, y)), unhex=False).G, x, y, what)
    elif how == 'unchecked':
        at(t, ECDSA.decode_secp256r1(enc, check_on_curve=False).G, x, y, what)
    elif how == 'the curve':
        at(t, curve().decode_from_hex(enc), x, y, what)
    elif how == '33 bytes':
        at(t, ECDSA.FromBytes_Secp256r1(compressed(x, y)).G, x, y, what)
    elif how == '65 bytes':
        at(t, ECDSA.FromBytes_Secp256r1(uncompressed(x, y)).G, x, y, what)
    elif how == '64 bytes':
        at(t, ECDSA.FromBytes_Secp256r1(uncompressed(x, y)[1:]).G, x, y, what)
    elif how == '72 bytes':
        at(t, ECDSA.FromBytes_Secp256r1(t.bytes('head', 8) + uncompressed(x, y)[1:]).G, x, y, what)
    elif how == 'uncompressed hex':
        at(t, ECDSA.decode_secp256r1(p.encode_point(compressed=False)).G, x, y, what)
    elif how == 'uncompressed bytes':
        at(t, ECDSA.decode_secp256r1(uncompressed(x, y), unhex=False).G, x, y, what)
    elif how == '96 bytes':
        at(t, ECDSA.FromBytes_Secp256r1(uncompressed(x, y)[1:] + t.bytes('key', 32)).G, x, y, what)
    elif how == '104 bytes':
        at(t, ECDSA.FromBytes_Secp256r1(t.bytes('head', 8) + uncompressed(x, y)[1:] + t.bytes('key', 32)).G, x, y, what)
    elif how == 'order':
        order = 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551
        for e in (ECDSA.decode_secp256r1(enc), ECDSA.decode_secp256r1(enc, check_on_curve=False), ECDSA.FromBytes_Secp256r1(uncompressed(x, y)[1:])):
            t.check(e.GFn.p == order, what + ' gives a group of another order')
    elif how == 'x and parity':
        at(t, curve().decompress(x, y % 2), x, y, what)
        at(t, curve().decompress_from_curve(x, y % 2), x, y, what)
    else:
        s = io.BytesIO()
        p.Serialize(BinaryWriter(s))
        s.write(b'\x05\x00')
        s.seek(0)
        q = ECDSA.Deserialize_Secp256r1(BinaryReader(s))
        at(t, q, x, y, what)
        t.check(q == p, 'the point read back is not equal to the one written')
        t.check(s.tell() == 33, 'reading a point consumes other bytes than its own')


def any_coordinates(t, how):
    """uncompressed encodings of whatever coordinates, on the curve or not"""
    t.abstract()
    n = t.int('n', 0, (1 << 256) - 1) if how.startswith('wide') else t.int('n', 0, P - 1)
    m = t.int('m', 0, (1 << 256) - 1) if how.endswith('wide') else t.int('m', 0, P - 1)
    t.assume(t.any([n != 0, m != 0]))
    raw = uncompressed(n, m)
    below = t.all([n < P, m < P])
    ok, r = t.attempt(lambda: curve().decode_from_hex(raw, unhex=False))
    t.check(t.same(ok, below), 'coordinates are accepted though not below the prime, or the reverse')
    if ok:
        at(t, r, n, m, 'decoding an uncompressed key')
        ok, r = t.attempt(lambda: ECDSA.decode_secp256r1(raw, unhex=False))
        on = (m * m - n * n * n - A * n - B) % P == 0
        t.check(t.same(ok, on), 'a point off the curve is accepted, or one on it rejected')
        ok2, r = t.attempt(lambda: ECDSA.FromBytes_Secp256r1(raw[1:]))
        t.check(t.same(ok2, on), 'a point off the curve is accepted, or one on it rejected')
        ok, r = t.attempt(lambda: ECDSA.decode_secp256r1(raw, unhex=False, check_on_curve=False))
        t.check(ok, 'a point is rejected though no check was requested')
        at(t, r.G, n, m, 'decoding without a check')
    else:
        for f in (lambda: ECDSA.decode_secp256r1(raw, unhex=False), lambda: ECDSA.decode_secp256r1(raw, unhex=False, check_on_curve=False),
                  lambda: ECDSA.FromBytes_Secp256r1(raw), lambda: ECDSA.FromBytes_Secp256r1(raw[1:])):
            t.check(not t.attempt(f)[0], 'coordinates are accepted though not below the prime')


def any_x(t, how):
    """compressed encodings of any 32 bytes"""
    t.abstract()
    n = t.int('n', 0, (1 << 256) - 1)
    odd = t.choice('odd', (0, 1))
    raw = bytes([2 + odd]) + n.to_bytes(32, 'big')
    if how == 'stream':
        f = lambda: ECDSA.Deserialize_Secp256r1(BinaryReader(io.BytesIO(raw)))
    elif how == 'hex':
        f = lambda: curve().decode_from_hex(binascii.hexlify(raw))
    elif how == 'raw':
        f = lambda: ECDSA.decode_secp256r1(raw, unhex=False, check_on_curve=False).G
    else:
        f = lambda: ECDSA.FromBytes_Secp256r1(raw).G
    if n >= P:
        t.check(not t.attempt(f)[0], 'an x that is not below the prime is accepted')
        return
    w = root(t, n)
    t.assume(w != 0)
    ok, r = t.attempt(f)
    v = right(t, n)
    t.check(t.same(ok, w * w % P == v), 'an x that belongs to no point is accepted, or one that does rejected')
    if ok:
        y = r.y.value
        t.check(t.same(y % 2, odd), 'the parity of y is not the announced one')
        at(t, r, n, w if w % 2 == odd else P - w, 'decoding a compressed key')
        t.check((r.y * r.y) == v, 'a decoded compressed key does not lie on the curve')


def shapes(t, n, kind):
    """any bytes of any length: only the right lengths with the right prefixes pass"""
    t.abstract()
    b = t.bytes('b', n)
    f = b[0] if n else 1
    good = (n == 1 and f == 0) or (n == 33 and (f == 2 or f == 3)) or (n == 65 and f == 4)
    if good:
        return
    if kind == 'hex':
        g = lambda: curve().decode_from_hex(binascii.hexlify(b))
    elif kind == 'raw':
        g = lambda: curve().decode_from_hex(b, unhex=False)
    elif kind == 'key':
        g = lambda: ECDSA.decode_secp256r1(binascii.hexlify(b))
    elif kind == 'unchecked':
        g = lambda: ECDSA.decode_secp256r1(b, unhex=False, check_on_curve=False)
    t.check(not t.attempt(g)[0], 'a malformed encoding is accepted')


def from_bytes(t, n):
    """lengths that denote no key"""
    b = t.bytes('b', n)
    ok, r = t.attempt(lambda: ECDSA.FromBytes_Secp256r1(b))
    t.check(not ok or r is None, 'bytes of a wrong length become a key')


def stream(t, n):
    """any stream of n bytes: prefixes and truncation"""
    t.abstract()
    b = t.bytes('b', n)
    s = io.BytesIO(b)
    f = b[0] if n else 1
    ok, r = t.attempt(lambda: ECDSA.Deserialize_Secp256r1(BinaryReader(s)))
    if n >= 1 and f == 0:
        t.check(ok and r.IsInfinity and s.tell() == 1, 'the zero byte is not read as the neutral point')
    elif n < 33 or not (f == 2 or f == 3):
        t.check(not ok, 'a truncated or unknown encoding is read as a point')
    elif ok:
        t.check(s.tell() == 33, 'reading a point consumes other bytes than its own')


def not_hex(t, n, i):
    """a text with anything but a hexadecimal digit in it"""
    t.abstract()
    s = t.str('s', n, 'ascii')
    c = s[i]
    t.assume(not ('0' <= c <= '9' or 'a' <= c <= 'f' or 'A' <= c <= 'F'))
    t.check(not t.attempt(lambda: ECDSA.decode_secp256r1(s))[0], 'a text that is not hexadecimal is accepted as a key')


def small(t, p, width):
    """every curve over a small field with p = 3 modulo 4, every encoding of one byte coordinates"""
    a, b = t.int('a', 0, p - 1), t.int('b', 1, p - 1)
    c = EllipticCurve(FiniteField(p), a, b)
    f, n = t.int('f', 0, 255), t.int('n', 0, 255)
    ok, r = t.attempt(lambda: c.decode_from_hex(bytes([f]) + n.to_bytes(width, 'big'), unhex=False))
    if f != 2 and f != 3 or n >= p:
        t.check(not ok, 'an unknown prefix or a coordinate that is not below the prime is accepted')
        return
    v = (n * n * n + a * n + b) % p
    square = t.any([v == i * i % p for i in range(p // 2 + 1)])
    t.check(t.same(ok, square), 'an x that belongs to no point is accepted, or one that does rejected')
    if ok:
        y = r.y.value
        t.check(t.same(r.x.value, n), 'decoding gives another x')
        t.check(t.all([y >= 0, y < p, (y * y - v) % p == 0]), 'a decoded compressed key does not lie on the curve')
        t.check(t.any([y == 0, y % 2 == f % 2]), 'the parity of y is not the announced one')
        t.check(r.isoncurve(), 'a decoded compressed key does not lie on the curve')


def small_trip(t, p):
    """through a stream, every point of every curve"""
    a, b = t.int('a', 0, p - 1), t.int('b', 1, p - 1)
    c = EllipticCurve(FiniteField(p), a, b)
    x, y = t.int('x', 0, p - 1), t.int('y', 0, p - 1)
    t.assume(t.any([t.all([x == 0, y == 0]), (y * y - x * x * x - a * x - b) % p == 0]))
    q = c.point(x, y)
    s = io.BytesIO()
    q.Serialize(BinaryWriter(s))
    t.check(len(s.getvalue()) == q.Size(), 'the announced size is not that of the encoding')
    s.write(b'\x01\x02')
    s.seek(0)
    r = c.decode_from_reader(BinaryReader(s))
    t.check(t.same(r.x.value, x) and t.same(r.y.value, y), 'reading back gives another point')
    t.check(s.tell() == q.Size(), 'reading a point consumes other bytes than its own')
