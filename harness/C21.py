"""C21 key pairs and wallets"""
import hashlib
import base58
import bitcoin
import Crypto.Random
from neocore.KeyPair import KeyPair
from neocore.UInt160 import UInt160
from neocore.bin import cli

P = 0xFFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF
N = 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551
A = P - 3
B = 0x5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B
G = (0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296,
     0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5)
K1P = 2 ** 256 - 2 ** 32 - 977
K1N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
K1G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
       0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)


def p256():
    bitcoin.change_curve(P, N, A, B, G[0], G[1])


def k1():
    bitcoin.change_curve(K1P, K1N, 0, 7, K1G[0], K1G[1])


def dsha(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def h160(b):
    return hashlib.new('ripemd160', hashlib.sha256(b).digest()).digest()


def point_of(k):
    p256()
    return bitcoin.fast_multiply(G, int.from_bytes(k, 'big'))


def compressed(x, y):
    return (b'\x03' if y % 2 else b'\x02') + x.to_bytes(32, 'big')


def address_of(x, y):
    p = b'\x17' + h160(b'\x21' + compressed(x, y) + b'\xac')
    return base58.b58encode(p + dsha(p)[:4]).decode()


def judge(t, kp, x, y, k):
    t.check(t.same(kp.PublicKey.x.value, x) and t.same(kp.PublicKey.y.value, y), 'the public key is not that of the private key')
    t.check(kp.PublicKey.curve.field.p == P and kp.PublicKey.curve.a.value == A and kp.PublicKey.curve.b.value == B, 'the public key is not on P-256')
    t.check(type(kp.PublicKeyHash) is UInt160 and t.same(bytes(kp.PublicKeyHash.Data), h160(compressed(x, y))),
            'the public key hash is not the hash of the compressed key')
    ad = kp.GetAddress()
    t.check(type(ad) is str and t.same(ad, address_of(x, y)), 'the address is not that of the script of the public key')
    t.check(t.same(kp.GetAddress(), ad), 'asking for the address twice gives two addresses')
    t.check(t.same(bytes(kp.PrivateKey), k), 'the private key is not kept')


def plain(t, kind, before):
    """any 32 bytes, whatever curve the process used before"""
    k = t.bytes('k', 32)
    d = int.from_bytes(k, 'big')
    if before == 'k1':
        k1()
    elif before == 'p256':
        p256()
    ok, kp = t.attempt(lambda: KeyPair(bytearray(k) if kind == 'bytearray' else k))
    t.check(t.same(ok, t.all([d >= 1, d < N])), 'a private key outside the range is accepted, or one within rejected')
    if ok:
        x, y = point_of(k)
        if before == 'k1':
            k1()
        judge(t, kp, x, y, k)


def two(t):
    """making a second key pair leaves the first alone"""
    j, k = t.bytes('j', 32), t.bytes('k', 32)
    for v in (j, k):
        d = int.from_bytes(v, 'big')
        t.assume(d >= 1)
        t.assume(d < N)
    a = KeyPair(j)
    b = KeyPair(k)
    xa, ya = point_of(j)
    xb, yb = point_of(k)
    judge(t, a, xa, ya, j)
    judge(t, b, xb, yb, k)


def stored(t, n, kind):
    """a public key stored in front of the private key"""
    head = t.bytes('head', n - 96)
    pub = t.bytes('pub', 64)
    k = t.bytes('k', 32)
    x, y = int.from_bytes(pub[:32], 'big'), int.from_bytes(pub[32:], 'big')
    t.assume(x < P)
    t.assume(y < P)
    t.assume(t.any([x > 0, y > 0]))
    raw = head + pub + k
    ok, kp = t.attempt(lambda: KeyPair(bytearray(raw) if kind == 'bytearray' else raw))
    t.check(t.same(ok, int.from_bytes(k, 'big') > 0), 'zero is accepted, or a stored key rejected')
    if ok:
        judge(t, kp, x, y, k)


def length(t, n):
    ok, kp = t.attempt(lambda: KeyPair(t.bytes('k', n)))
    t.check(not ok, 'key material of another length is accepted')


class Entropy:
    def __init__(self, b):
        self.b = b

    def get_random_bytes(self, n):
        return self.b[:n]

    def read(self, n):
        return self.b[:n]

    def new(self):
        return self


def wallet(t, before):
    k = t.bytes('k', 32)
    d = int.from_bytes(k, 'big')
    t.assume(d >= 1)
    t.assume(d < N)
    e = Entropy(k)
    saved = Crypto.Random.get_random_bytes, Crypto.Random.new
    Crypto.Random.get_random_bytes, Crypto.Random.new = e.get_random_bytes, e.new
    have = {}
    for name, v in (('Random', e), ('get_random_bytes', e.get_random_bytes)):
        if hasattr(cli, name):
            have[name] = getattr(cli, name)
            setattr(cli, name, v)
    try:
        if before == 'k1':
            k1()
        w = cli.create_wallet()
    finally:
        Crypto.Random.get_random_bytes, Crypto.Random.new = saved
        for name in have:
            setattr(cli, name, have[name])
    t.check(sorted(w) == ['address', 'private_key'], 'a wallet has other parts')
    ok, r = t.attempt(lambda: KeyPair.PrivateKeyFromWIF(w['private_key']))
    t.check(ok, 'the WIF of a new wallet cannot be imported')
    x, y = point_of(bytes(r))
    t.check(t.same(w['address'], address_of(x, y)), 'the address of a new wallet is not that of its key')
    t.check(t.same(KeyPair(bytes(r)).GetAddress(), w['address']), 'importing the WIF of a new wallet gives another address')
