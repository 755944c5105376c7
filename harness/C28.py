"""C28 signing and verifying"""
import binascii
import hashlib
import bitcoin
from ecdsa import NIST256p, VerifyingKey
from neocore.Cryptography.Crypto import Crypto, CryptoInstance
from neocore.Cryptography.ECCurve import ECDSA, EllipticCurve, FiniteField
from neocore.KeyPair import KeyPair

P = 0xFFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF
N = 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551
B = 0x5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B
GX = 0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296
GY = 0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5
K1 = (2 ** 256 - 2 ** 32 - 977, 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141, 0, 7,
      0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)
R1 = (P, N, P - 3, B, GX, GY)


def before(how):
    """what the process did before"""
    if how == 'secp256k1':
        bitcoin.change_curve(*K1)
    elif how == 'P-256':
        bitcoin.change_curve(*R1)
    elif how == 'other base':
        bitcoin.change_curve(P, N, P - 3, B, K1[4], K1[5])
    elif how == 'instance':
        CryptoInstance()
        bitcoin.change_curve(*K1)


def r1():
    bitcoin.change_curve(*R1)


def text(raw, form):
    """hexadecimal spellings of a message"""
    h = binascii.hexlify(raw)
    if form == 'bytes':
        return h
    if form == 'bytearray':
        return bytearray(h)
    s = h.decode('ascii')
    return s.upper() if form == 'upper' else s


def want_signature(raw, key):
    r1()
    v, r, s = bitcoin.ecdsa_raw_sign(hashlib.sha256(raw).hexdigest(), key)
    return r.to_bytes(32, 'big') + s.to_bytes(32, 'big')


def sign(t, n, form, how, via):
    raw = t.bytes('message', n)
    key = binascii.hexlify(t.bytes('key', 32)).decode('ascii')
    before(how)
    f = Crypto.Sign if via == 'static' else CryptoInstance().Sign if via == 'instance' else Crypto.Default().Sign
    before(how)
    ok, sig = t.attempt(lambda: f(text(raw, form), key))
    want_ok, want = t.attempt(lambda: want_signature(raw, key))
    t.check(t.same(ok, want_ok), 'signing fails though it could succeed, or the reverse')
    if ok:
        t.check(type(sig) is bytearray and len(sig) == 64, 'a signature is not 64 bytes')
        t.check(t.same(bytes(sig[:32]), want[:32]), 'the first half of the signature is not r')
        t.check(t.same(bytes(sig[32:]), want[32:]), 'the second half of the signature is not s')


def sign_twice(t, n):
    """the second signature does not depend on the first"""
    a, b = t.bytes('first', n), t.bytes('second', n)
    k1, k2 = binascii.hexlify(t.bytes('key1', 32)).decode('ascii'), binascii.hexlify(t.bytes('key2', 32)).decode('ascii')
    t.attempt(lambda: Crypto.Sign(text(a, 'str'), k1))
    bitcoin.change_curve(*K1)
    ok, sig = t.attempt(lambda: Crypto.Sign(text(b, 'str'), k2))
    want_ok, want = t.attempt(lambda: want_signature(b, k2))
    t.check(t.same(ok, want_ok), 'signing fails though it could succeed, or the reverse')
    if ok:
        t.check(t.same(bytes(sig), want), 'a later signature is another one')


def reference(key64, sig, raw):
    """what verification on P-256 with SHA-256 says"""
    try:
        return bool(VerifyingKey.from_string(key64, curve=NIST256p, hashfunc=hashlib.sha256).verify_digest(sig, hashlib.sha256(raw).digest()))
    except Exception:
        return False


def verifier(via):
    return Crypto.VerifySignature if via == 'static' else CryptoInstance().VerifySignature if via == 'instance' else Crypto.Default().VerifySignature


def given(t, raw, form):
    """the message argument and the unhex flag"""
    if form == 'raw':
        return raw, False
    if form == 'raw array':
        return bytearray(raw), False
    return text(raw, form), True


def verify(t, n, form, kind, how, via, m=64):
    """any message, any key content, any signature content of m bytes"""
    raw, sig = t.bytes('message', n), t.bytes('signature', m)
    key = t.bytes('key', 64)
    if kind == 'point':
        c = EllipticCurve(FiniteField(P), P - 3, B)
        x, y = int.from_bytes(key[:32], 'big'), int.from_bytes(key[32:], 'big')
        k = EllipticCurve.ECPoint(c, FiniteField.Value(c.field, x), FiniteField.Value(c.field, y))
    else:
        k = bytearray(key) if kind == 'bytearray' else key
    msg, unhex = given(t, raw, form)
    f = verifier(via)
    before(how)
    if unhex:
        ok, r = t.attempt(lambda: f(msg, sig, k))
    else:
        ok, r = t.attempt(lambda: f(msg, sig, k, unhex=False))
    t.check(ok, 'verification raises')
    want = reference(key, sig, raw) if m == 64 else False
    t.check(type(r) is bool and t.same(r, want), 'the verdict is not that of P-256 with SHA-256')
    ok, r = t.attempt(lambda: f(msg, bytearray(sig), k, unhex))
    t.check(ok and t.same(r, want), 'the verdict depends on the type of the signature')


def verify_text(t, n, via):
    """a message given as text and not to be unhexed stands for its UTF-8 bytes"""
    s = t.str('message', n)
    ok, raw = t.attempt(lambda: s.encode('utf-8'))
    t.assume(ok)
    key, sig = t.bytes('key', 64), t.bytes('signature', 64)
    ok, r = t.attempt(lambda: verifier(via)(s, sig, key, unhex=False))
    t.check(ok and t.same(r, reference(key, sig, raw)), 'the verdict for a text is not that for its bytes')


def verify_compressed(t, n, how, via):
    """any 33 bytes"""
    raw, sig, key = t.bytes('message', n), t.bytes('signature', 64), t.bytes('key', 33)
    f = verifier(via)
    before(how)
    ok, r = t.attempt(lambda: f(text(raw, 'str'), sig, key))
    t.check(ok, 'verification raises')
    if key[0] != 2 and key[0] != 3:
        t.check(t.same(r, False), 'an unknown prefix passes as a key')
        return
    r1()
    ok, full = t.attempt(lambda: bitcoin.decompress(key))
    want = reference(full[1:], sig, raw) if ok else False
    t.check(type(r) is bool and t.same(r, want), 'the verdict is not that of P-256 with SHA-256 for the decompressed key')


def malformed(t, n, m, via):
    """keys of n bytes and signatures of m bytes: at least one length is wrong"""
    key, sig, raw = t.bytes('key', n), t.bytes('signature', m), t.bytes('message', 3)
    for msg, unhex in ((text(raw, 'str'), True), (raw, False)):
        ok, r = t.attempt(lambda: verifier(via)(msg, sig, key, unhex))
        t.check(ok and t.same(r, False), 'a malformed key or signature does not give false')


def round_trip(t, n, kind, how):
    """every private key"""
    raw = t.bytes('message', n)
    d = t.int('d', 1, N - 1)
    key = binascii.hexlify(d.to_bytes(32, 'big')).decode('ascii')
    before(how)
    sig = Crypto.Sign(text(raw, 'str'), key)
    r1()
    x, y = bitcoin.fast_multiply((GX, GY), d)
    if kind == 'raw':
        k = x.to_bytes(32, 'big') + y.to_bytes(32, 'big')
    elif kind == 'compressed':
        k = (b'\x03' if y % 2 else b'\x02') + x.to_bytes(32, 'big')
    elif kind == 'point':
        c = EllipticCurve(FiniteField(P), P - 3, B)
        k = c.point(x, y)
    before(how)
    # (r is an x coordinate: it is below the order except with probability 2^-32)
    t.assume(int.from_bytes(bytes(sig[:32]), 'big') < N)
    t.check(Crypto.VerifySignature(text(raw, 'str'), sig, k), 'a signature does not verify under the matching public key')
    t.check(Crypto.VerifySignature(raw, bytes(sig), k, unhex=False), 'a signature does not verify under the matching public key')
    t.check(CryptoInstance().VerifySignature(raw, sig, k, False), 'a signature does not verify under the matching public key')


def round_trip_text(t, n, d, via):
    """the signature of the UTF-8 bytes of a text is one of the text"""
    s = t.str('message', n)
    ok, raw = t.attempt(lambda: s.encode('utf-8'))
    t.assume(ok)
    sig = Crypto.Sign(text(raw, 'str'), d.to_bytes(32, 'big').hex())
    kp = KeyPair(d.to_bytes(32, 'big'))
    t.assume(int.from_bytes(bytes(sig[:32]), 'big') < N)
    t.check(verifier(via)(s, sig, kp.PublicKey, unhex=False), 'a signature of the bytes of a text does not verify for the text')


def key_pair(t, n):
    """a wallet's own key pair"""
    raw = t.bytes('message', n)
    d = t.int('d', 1, N - 1)
    kp = KeyPair(d.to_bytes(32, 'big'))
    sig = Crypto.Sign(text(raw, 'str'), bytes(kp.PrivateKey).hex())
    t.assume(int.from_bytes(bytes(sig[:32]), 'big') < N)
    t.check(Crypto.VerifySignature(text(raw, 'str'), sig, kp.PublicKey), 'a signature does not verify under the public key of its pair')
    enc = binascii.unhexlify(kp.PublicKey.encode_point())
    t.check(Crypto.VerifySignature(raw, sig, enc, unhex=False), 'a signature does not verify under the encoded public key of its pair')


def constants(t):
    """the curve the library names"""
    e = ECDSA.secp256r1()
    t.check(e.ec.field.p == P and e.ec.a.value == P - 3 and e.ec.b.value == B and e.G.x.value == GX and e.G.y.value == GY and e.GFn.p == N,
            'the parameters are not those of P-256')
    e = ECDSA.secp256k1()
    t.check((e.ec.field.p, e.GFn.p, e.ec.a.value, e.ec.b.value, e.G.x.value, e.G.y.value) == K1, 'the parameters are not those of secp256k1')
    bitcoin.change_curve(*K1)
    Crypto.SetupSignatureCurve()
    m = bitcoin.main
    t.check((m.P, m.N, m.A, m.B, m.Gx, m.Gy) == R1, 'the signature curve is not P-256')
    bitcoin.change_curve(*K1)
    CryptoInstance()
    t.check((m.P, m.N, m.A, m.B, m.Gx, m.Gy) == R1, 'the signature curve is not P-256')
