"""C20 NEP-2 encryption and decryption"""
import hashlib
import unicodedata
import base58
import bitcoin
import scrypt
from Crypto.Cipher import AES
from neocore.KeyPair import KeyPair

P = 0xFFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF
N = 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551
A = P - 3
B = 0x5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B
G = (0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296,
     0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5)


def dsha(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def valid_key(t, name='k'):
    k = t.bytes(name, 32)
    d = int.from_bytes(k, 'big')
    t.assume(d >= 1)
    t.assume(d < N)
    return k


def address_of(k):
    """independent: generator times key, compressed, in the script 0x21 key 0xac"""
    bitcoin.change_curve(P, N, A, B, G[0], G[1])
    x, y = bitcoin.fast_multiply(G, int.from_bytes(k, 'big'))
    script = (b'\x21\x03' if y % 2 else b'\x21\x02') + x.to_bytes(32, 'big') + b'\xac'
    h = hashlib.new('ripemd160', hashlib.sha256(script).digest()).digest()
    p = b'\x17' + h
    return base58.b58encode(p + dsha(p)[:4]).decode()


def derive(pw, salt):
    d = scrypt.hash(unicodedata.normalize('NFC', pw).encode('utf-8'), salt, N=16384, r=8, p=8, buflen=64)
    return d[:32], d[32:]


def xor(a, b):
    return bytes([x ^ y for x, y in zip(a, b)])


def nep2_of(k, pw):
    salt = dsha(address_of(k).encode())[:4]
    d1, d2 = derive(pw, salt)
    body = b'\x01\x42\xe0' + salt + AES.new(d2, AES.MODE_ECB).encrypt(xor(k, d1))
    return base58.b58encode(body + dsha(body)[:4]).decode()


def there_and_back(t, n, kind):
    k = valid_key(t)
    pw = t.str('pw', n, kind)
    kp = KeyPair(k)
    s = kp.ExportNEP2(pw)
    t.check(type(s) is str and t.same(s, nep2_of(k, pw)), 'the NEP-2 text is not that of header, address hash and encrypted key')
    t.check(len(s) == 58, 'a NEP-2 text does not have 58 characters')
    ok, r = t.attempt(lambda: KeyPair.PrivateKeyFromNEP2(s, pw))
    t.check(ok, 'an encrypted key could not be decrypted with its passphrase')
    t.check(t.same(bytes(r), k), 'decrypting an encrypted key gives another key')
    t.check(t.same(bytes(kp.PrivateKey), k), 'encrypting changed the key')


PAIRS = [('\u00e9' * 2, 'e\u0301e\u0301'), ('\u212bx', '\u00c5x'), ('A\u030ax', '\u00c5x'), ('\u03d2\u0301\x00\U00010400\U0001f4a9', '\u03d3\x00\U00010400\U0001f4a9'),
         ('\uac00\uac01', '\u1100\u1161\u1100\u1161\u11a8'), ('ab', 'ab'), ('e\u0301', '\u00e9')]


def normal_forms(t, turn):
    """passphrases with the same NFC form are the same passphrase"""
    k = valid_key(t)
    a, b = t.choice('pair', PAIRS)
    if turn:
        a, b = b, a
    kp = KeyPair(k)
    ok, s = t.attempt(lambda: kp.ExportNEP2(a))
    t.check(t.same(ok, len(a) >= 2), 'a passphrase of two characters was rejected, or a shorter one accepted')
    if not ok:
        return
    t.check(t.same(s, nep2_of(k, a)), 'the NEP-2 text is not that of header, address hash and encrypted key')
    ok, r = t.attempt(lambda: KeyPair.PrivateKeyFromNEP2(s, b))
    t.check(ok and t.same(bytes(r), k), 'decrypting with the same passphrase in another form does not give the key')


def short(t, n, kind):
    k = valid_key(t)
    pw = t.str('pw', n, kind)
    kp = KeyPair(k)
    ok, s = t.attempt(lambda: kp.ExportNEP2(pw))
    t.check(not ok and isinstance(s, ValueError), 'a passphrase shorter than two characters was accepted')


def judge(t, s, pw):
    """what decryption of any text must give"""
    ok, d = t.attempt(lambda: base58.b58decode_check(s))
    good = ok and len(s) == 58 and len(d) == 39 and t.same(d[:3], b'\x01\x42\xe0')
    if good:
        good = True
        d1, d2 = derive(pw, d[3:7])
        k = xor(AES.new(d2, AES.MODE_ECB).decrypt(d[7:]), d1)
        v = int.from_bytes(k, 'big')
        good = False
        if v >= 1 and v < N:
            good = t.same(dsha(address_of(k).encode())[:4], d[3:7])
    ok, r = t.attempt(lambda: KeyPair.PrivateKeyFromNEP2(s, pw))
    t.check(t.same(ok, good), 'a malformed NEP-2 key or wrong passphrase gives a key, or a proper one is rejected')
    if ok:
        t.check(t.same(bytes(r), k), 'decryption gives another key')


def content(t, n, change, frame=False):
    """the Base58Check text of any n bytes"""
    if frame:
        body = b'\x01\x42\xe0' + t.bytes('p', n - 3)
    else:
        body = t.bytes('p', n)
        t.assume(body[0] != 0)
    c = dsha(body)[:4]
    if change == 'any checksum':
        c = t.bytes('c', 4)
    elif change == 'one byte':
        c = bytearray(c)
        c[t.choice('at', [0, 1, 2, 3])] ^= t.int('x', 1, 255)
        c = bytes(c)
    judge(t, base58.b58encode(body + c).decode(), 'pw')


def near(t, at):
    """a NEP-2 key in which one byte was changed and the checksum made anew"""
    k = valid_key(t)
    salt = dsha(address_of(k).encode())[:4]
    d1, d2 = derive('pw', salt)
    body = bytearray(b'\x01\x42\xe0' + salt + AES.new(d2, AES.MODE_ECB).encrypt(xor(k, d1)))
    body[at] ^= t.int('x', 1, 255)
    body = bytes(body)
    t.assume(body[0] != 0)
    judge(t, base58.b58encode(body + dsha(body)[:4]).decode(), 'pw')


def wrong_passphrase(t, n):
    k = valid_key(t)
    s = KeyPair(k).ExportNEP2('pw')
    judge(t, s, t.str('pw', n, 'ascii'))


def text(t, n):
    s = t.str('s', n, 'ascii')
    if n > 10:
        t.assume(s[0] != '1')
        t.assume(s[-1] > ' ')
    judge(t, s, 'pw')
