"""C17 only well-formed addresses are accepted"""
import hashlib
import base58
from neocore.Utils import isValidPublicAddress
from neocore.bin import cli


def dsha(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def decoded(t, s):
    """independent decoding: (bytes or None)"""
    ok, d = t.attempt(lambda: base58.b58decode(s))
    return d if ok else None


def proper(t, d):
    return d is not None and len(d) == 25 and t.all([d[0] == 23, t.same(d[21:], dsha(d[:21])[:4])])


def judge(t, s):
    d = decoded(t, s)
    good = proper(t, d)
    ok, v = t.attempt(lambda: isValidPublicAddress(s))
    t.check(ok, 'checking an address raises an exception')
    t.check(t.same(v, t.all([len(s) == 34, good])), 'isValidPublicAddress accepts a malformed address or rejects a proper one')
    t.check(isinstance(v, bool), 'isValidPublicAddress does not give a truth value')
    ok, h = t.attempt(lambda: cli.address_to_scripthash(s))
    t.check(t.same(ok, good), 'the tool converts a malformed address or refuses a proper one')
    if ok:
        t.check(t.same(h, d[1:21]), 'the tool gives other bytes than the script hash')
    else:
        t.check(type(h) is cli.ConversionError, 'a malformed address is not reported as a conversion error')


def payload(t, n, change, length=None):
    """the Base58 text of n arbitrary bytes ending in a checksum that was changed"""
    body = t.bytes('p', n)
    if change == 'checksum':
        c = t.bytes('c', 4)
    elif change == 'one byte':
        c = bytearray(dsha(body)[:4])
        c[t.choice('at', [0, 1, 2, 3])] ^= t.int('x', 1, 255)
        c = bytes(c)
    elif change == 'single hash':
        c = hashlib.sha256(body).digest()[:4]
    elif change == 'last four':
        c = dsha(body)[-4:]
    else:
        c = dsha(body)[:4]
    judge(t, base58.b58encode(body + c).decode())


def changed_body(t, at):
    """an address whose payload was changed while its checksum stayed"""
    t.injective('sha256')
    h = t.bytes('h', 20)
    p = b'\x17' + h
    c = dsha(p)[:4]
    q = bytearray(p)
    q[at] ^= t.int('x', 1, 255)
    t.assume(dsha(bytes(q))[:4] != c)
    s = base58.b58encode(bytes(q) + c).decode()
    ok, v = t.attempt(lambda: isValidPublicAddress(s))
    t.check(ok and t.same(v, False), 'a changed address is accepted')
    ok, v = t.attempt(lambda: cli.address_to_scripthash(s))
    t.check(not ok and type(v) is cli.ConversionError, 'the tool converts a changed address')


def version(t):
    """every version byte"""
    v = t.int('v', 0, 255)
    h = t.bytes('h', 20)
    p = bytes([v]) + h
    s = base58.b58encode(p + dsha(p)[:4]).decode()
    judge(t, s)


def text(t, n, kind, first):
    """any text; leading ones and trailing white space (which Base58 decoding drops) at most two here"""
    s = t.str('s', n, kind)
    if first:
        s = first + s
    if n > 10:
        t.assume(s[:3] != '111')
        t.assume((s[-1] > ' ') | (s[-2] > ' ') | (s[-3] > ' '))
    judge(t, s)


def padded(t, n, ones, tail):
    """leading ones (zero bytes) and trailing white space"""
    s = t.str('s', n - ones - tail, 'ascii')
    t.assume((s[0] != '1') & (s[-1] > ' '))
    s = '1' * ones + s + t.choice('w', [' ', '\n', '\t', '\x0b'])[0] * tail
    judge(t, s)


def foreign(t, n, at):
    """any two Unicode characters somewhere in a text"""
    a, b, c = t.str('a', at, 'ascii'), t.str('u', 2, 'unicode'), t.str('c', n - at - 2, 'ascii')
    s = a + b + c
    t.assume(s[:3] != '111')
    if at < n - 4:
        t.assume((s[-1] > ' ') | (s[-2] > ' '))
    else:
        t.assume(a[-1] > ' ')
    judge(t, s)


def text_bytes(t, n):
    """the tool on arbitrary bytes"""
    s = t.bytes('s', n)
    d = decoded(t, s)
    ok, h = t.attempt(lambda: cli.address_to_scripthash(s))
    t.check(t.same(ok, proper(t, d)), 'the tool converts a malformed address or refuses a proper one')
    t.check(ok or type(h) is cli.ConversionError, 'a malformed address is not reported as a conversion error')
