"""C11 BigInteger byte conversion"""
from neocore.BigInteger import BigInteger, ZERO, ONE


def need(v, signed):
    """least number of bytes of a positive number"""
    n = 1
    while v >= (1 << (8 * n - (1 if signed else 0))):
        n += 1
    return n


def to_signed(t, lo, hi):
    v = t.int('v', lo, hi)
    b = BigInteger(v).ToByteArray()
    n = len(b)
    t.check(n >= 1, 'no bytes')
    top = 1 << (8 * n)
    t.check(t.same(b, (v % top).to_bytes(n, 'little')) and t.same((v >= -(top // 2)) & (v < top // 2), True), 'the bytes are not the little-endian two\'s complement')
    if v > 0:
        t.check(n == need(v, True), 'a positive number uses more bytes than needed')
    else:
        t.check(n <= need(~v, True) + 1, 'a negative number uses more than one byte beyond those needed')
    r = BigInteger.FromBytes(b, signed=True)
    t.check(t.same(r, v), 'converting to bytes and back changes the number')
    t.check(type(r) is BigInteger, 'converting back gives another type')
    t.check(t.same(int.from_bytes(bytes(b), 'little', signed=True), v), 'the bytes denote another number')


def to_unsigned(t, lo, hi):
    v = t.int('v', lo, hi)
    b = BigInteger(v).ToByteArray(signed=False)
    n = len(b)
    t.check(n >= 1, 'no bytes')
    t.check(t.same(b, (v % (1 << (8 * n))).to_bytes(n, 'little')), 'the bytes are not the little-endian number')
    t.check(n == need(v, False), 'a number uses more or fewer bytes than needed')
    r = BigInteger.FromBytes(b, signed=False)
    t.check(t.same(r, v), 'converting to unsigned bytes and back changes the number')
    t.check(t.same(BigInteger.FromBytes(b), v), 'converting to unsigned bytes and back changes the number')
    t.check(type(r) is BigInteger, 'converting back gives another type')


def from_bytes(t, n, kind):
    d = t.bytes('d', n)
    arg = bytearray(d) if kind == 'bytearray' else d
    u, s = BigInteger.FromBytes(arg), BigInteger.FromBytes(arg, signed=True)
    un = 0
    for i in range(n):
        un += d[i] << (8 * i)
    sn = un - t.ite(d[n - 1] >= 128, 1 << (8 * n), 0) if n else 0
    t.check(t.same(u, un), 'FromBytes is not the little-endian number')
    t.check(t.same(BigInteger.FromBytes(arg, signed=False), un), 'FromBytes is not the little-endian number')
    t.check(t.same(s, sn), 'signed FromBytes is not the two\'s complement number')
    t.check(type(u) is BigInteger and type(s) is BigInteger, 'FromBytes gives another type')
    t.check(t.same(arg, d), 'FromBytes changed its argument')


def constants(t):
    t.check(ZERO.ToByteArray() == b'\x00' and ZERO.ToByteArray(signed=False) == b'\x00', 'zero is not a single zero byte')
    t.check(ONE.ToByteArray() == b'\x01', 'one is not a single byte')
    t.check(t.same(BigInteger.FromBytes(b''), 0), 'no bytes do not denote zero')
