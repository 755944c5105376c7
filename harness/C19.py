"""C19 WIF export and import"""
import hashlib
import base58
from neocore.KeyPair import KeyPair

N = 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551


def dsha(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def valid_key(t, name='k'):
    k = t.bytes(name, 32)
    d = int.from_bytes(k, 'big')
    t.assume(d >= 1)
    t.assume(d < N)
    return k


def wif_of(k):
    p = b'\x80' + bytes(k) + b'\x01'
    return base58.b58encode(p + dsha(p)[:4]).decode()


def export(t, kind):
    k = valid_key(t)
    arg = bytearray(k) if kind == 'bytearray' else k
    kp = KeyPair(arg)
    w = kp.Export()
    t.check(type(w) is str and t.same(w, wif_of(k)), 'the WIF is not the Base58 text of 0x80, key, 0x01 and checksum')
    t.check(len(w) == 52, 'a WIF does not have 52 characters')
    ok, r = t.attempt(lambda: KeyPair.PrivateKeyFromWIF(w))
    t.check(ok and t.same(bytes(r), k), 'importing an exported key does not give the key')
    t.check(t.same(kp.Export(), w), 'exporting twice gives two texts')
    t.check(t.same(bytes(kp.PrivateKey), k) and t.same(bytes(arg), k), 'exporting changed the key')


def stored(t, n):
    """a key pair made with a stored public key exports its private key"""
    pub = t.bytes('pub', n - 32)
    k = valid_key(t)
    w = KeyPair(pub + k).Export()
    t.check(t.same(w, wif_of(k)), 'the WIF is not that of the private key')


def distinct(t):
    j, k = valid_key(t, 'j'), valid_key(t)
    a, b = KeyPair(j).Export(), KeyPair(k).Export()
    t.check(t.same(a == b, j == k), 'two keys share a WIF')


def judge(t, s):
    ok, d = t.attempt(lambda: base58.b58decode(s))
    good = False
    if ok and len(s) == 52 and len(d) == 38:
        good = t.all([d[0] == 0x80, d[33] == 1, t.same(d[34:], dsha(d[:34])[:4])])
    ok, r = t.attempt(lambda: KeyPair.PrivateKeyFromWIF(s))
    t.check(t.same(ok, good), 'a malformed WIF is imported or a proper one is rejected')
    if ok:
        t.check(t.same(bytes(r), d[1:33]), 'importing a WIF gives another key')
    else:
        t.check(isinstance(r, ValueError), 'a malformed WIF is not rejected with a ValueError')


def content(t, n, change, zeros=None):
    """the Base58 text of any n bytes (with at most some leading zeros) and a checksum"""
    body = t.bytes('p', n)
    if zeros is not None:
        t.assume(t.any([b != 0 for b in body[:zeros + 1]]))
    if change == 'any checksum':
        c = t.bytes('c', 4)
    elif change == 'one byte':
        c = bytearray(dsha(body)[:4])
        c[t.choice('at', [0, 1, 2, 3])] ^= t.int('x', 1, 255)
        c = bytes(c)
    elif change == 'single hash':
        c = hashlib.sha256(body).digest()[:4]
    elif change == 'last four':
        c = dsha(body)[-4:]
    elif change == 'without the prefix':
        c = dsha(body[1:])[:4]
    else:
        c = dsha(body)[:4]
    judge(t, base58.b58encode(body + c).decode())


def framed(t, first, last):
    """prefix and compression byte given"""
    k = t.bytes('k', 32)
    f = t.int('f', 0, 255) if first is None else first
    x = t.int('l', 0, 255) if last is None else last
    body = bytes([f]) + k + bytes([x])
    judge(t, base58.b58encode(body + dsha(body)[:4]).decode())


def changed(t, at):
    """a byte of a WIF's content was changed while its checksum stayed"""
    k = valid_key(t)
    p = b'\x80' + k + b'\x01'
    q = bytearray(p)
    q[at] ^= t.int('x', 1, 255)
    q = bytes(q)
    c = dsha(p)[:4]
    t.assume(dsha(q)[:4] != c)
    s = base58.b58encode(q + c).decode()
    ok, r = t.attempt(lambda: KeyPair.PrivateKeyFromWIF(s))
    t.check(not ok and isinstance(r, ValueError), 'a changed WIF is imported')


def text(t, n, kind, first):
    s = first + t.str('s', n - len(first), kind)
    if n > 10:
        t.assume(s[:3] != '111')
        t.assume((s[-1] > ' ') | (s[-2] > ' ') | (s[-3] > ' '))
    judge(t, s)


def foreign(t, n, at):
    a, b, c = t.str('a', at, 'ascii'), t.str('u', 2, 'unicode'), t.str('c', n - at - 2, 'ascii')
    s = a + b + c
    t.assume(s[:3] != '111')
    if at < n - 4:
        t.assume((s[-1] > ' ') | (s[-2] > ' '))
    else:
        t.assume(a[-1] > ' ')
    judge(t, s)


def padded(t, n, ones, tail):
    s = t.str('s', n - ones - tail, 'ascii')
    t.assume((s[0] != '1') & (s[-1] > ' '))
    judge(t, '1' * ones + s + t.choice('w', [' ', '\n', '\t']) * tail)
