"""C29 elliptic curve signatures on small groups of prime order"""
from neocore.Cryptography.ECCurve import ECDSA, EllipticCurve, FiniteField
from harness.C25 import ref_add, inv


def table(p, ab, g, n):
    """the multiples of the base point"""
    w = [(0, 0)]
    for i in range(1, n):
        w.append(ref_add(ab[0], p, w[-1], g))
    return w


def pick(t, xs, i):
    r = xs[0]
    for k in range(1, len(xs)):
        r = t.ite(i == k, xs[k], r)
    return r


def group(p, ab, g, n):
    c = EllipticCurve(FiniteField(p), *ab)
    return ECDSA(c, c.point(*g), n), c, table(p, ab, g, n)


def canonical(t, e, v, n):
    t.check(isinstance(v, FiniteField.Value) and v.field.p == n and t.all([v.value >= 0, v.value < n]), 'a part of the signature is not canonical modulo the order')


def calcpub(t, p, ab, g, n, lo, hi):
    e, c, w = group(p, ab, g, n)
    x = t.int('key', lo, hi)
    y = e.calcpub(x % n if lo < 0 else x)
    i = x % n
    t.check(t.same(y.x.value, pick(t, [q[0] for q in w], i)) and t.same(y.y.value, pick(t, [q[1] for q in w], i)), 'the public key is not the multiple of the base point')


def sign(t, p, ab, g, n, top):
    """the signature is the textbook one and verifies"""
    e, c, w = group(p, ab, g, n)
    x, k = t.int('key', 1, n - 1), t.int('secret', 1, n - 1)
    m = t.int('message', 0, top)
    r, s = e.sign(m, x, k)
    canonical(t, e, r, n)
    canonical(t, e, s, n)
    wr = pick(t, [q[0] % n for q in w], k)
    t.check(t.same(r.value, wr), 'r is not the x coordinate of the multiple by the secret')
    t.check((s.value * k - m - x * wr) % n == 0, 's is not (message + key * r) / secret')
    t.assume(t.all([r.value != 0, s.value != 0]))
    y = c.point(*w[t.concrete(x)])
    t.check(e.verify(m, y, r, s), 'a signature does not verify')
    t.check(e.verify(m, y, r.value, s.value), 'a signature given as numbers does not verify')
    t.check(e.verify(m, e.calcpub(x), r, s), 'a signature does not verify under the computed public key')


def verify(t, p, ab, g, n, x, top, mtop):
    """every pair of numbers"""
    e, c, w = group(p, ab, g, n)
    m, r, s = t.int('message', 0, mtop), t.int('r', 0, top), t.int('s', 0, top)
    got = e.verify(m, c.point(*w[x]), r, s)
    if t.any([r % n == 0, s % n == 0]):
        t.check(t.same(got, False), 'a signature with a part that is zero modulo the order passes')
        return
    # G*(m/s) + Y*(r/s) is the multiple of G by (m + r*x)/s
    i = t.int('multiple', 0, n - 1)
    t.assume((i * s - m - r * x) % n == 0)
    want = pick(t, [q[0] % n for q in w], i) == r % n
    t.check(type(got) is bool or got is True or got is False or isinstance(got, bool), 'the verdict is not a truth value')
    t.check(t.same(got, want), 'a pair is accepted though the equation does not hold, or the reverse')


def crack(t, p, ab, g, n):
    """the key from a known secret, and from two signatures with one secret"""
    e, c, w = group(p, ab, g, n)
    x, k = t.int('key', 1, n - 1), t.int('secret', 1, n - 1)
    m1, m2 = t.int('m1', 0, n - 1), t.int('m2', 0, n - 1)
    r, s1 = e.sign(m1, x, k)
    t.assume(r.value != 0)
    t.check(e.crack1(r, s1, m1, k) == x, 'the recovered key is not the signing key')
    t.check(e.crack1(r.value, s1.value, m1, k).value == x, 'the recovered key is not the signing key')


def crack2(t, p, ab, g, n, k):
    e, c, w = group(p, ab, g, n)
    x = t.int('key', 1, n - 1)
    m1, m2 = t.int('m1', 0, n - 1), t.int('m2', 0, n - 1)
    t.assume(m1 != m2)
    r, s1 = e.sign(m1, x, k)
    q, s2 = e.sign(m2, x, k)
    t.assume(r.value != 0)
    secret, key = e.crack2(r, s1, s2, m1, m2)
    t.check(secret == k and key == x, 'two signatures with one secret do not give the secret and the key')
    secret, key = e.crack2(r.value, s1.value, s2.value, m1, m2)
    t.check(secret == k and key == x, 'two signatures with one secret, given as numbers, do not give the secret and the key')


def findpk(t, p, ab, g, n, k, flag):
    """the public key from a signature and the parity of the point behind it"""
    e, c, w = group(p, ab, g, n)
    x, m = t.int('key', 1, n - 1), t.int('message', 0, n - 1)
    r, s = e.sign(m, x, k)
    y = e.findpk(m, r, s, flag)
    z = e.findpk(m, r.value, s.value, flag)
    for q in (y, z):
        t.check(t.same(q.x.value, pick(t, [v[0] for v in w], x)) and t.same(q.y.value, pick(t, [v[1] for v in w], x)), 'the recovered public key is not that of the signing key')


def findpk2(t, p, ab, g, n, k, k2, flag, flag2):
    """the public key from two signatures of one message"""
    e, c, w = group(p, ab, g, n)
    x, m = t.int('key', 1, n - 1), t.int('message', 0, n - 1)
    r, s = e.sign(m, x, k)
    r2, s2 = e.sign(m, x, k2)
    y = e.findpk2(r, s, r2, s2, flag, flag2)
    z = e.findpk2(r.value, s.value, r2.value, s2.value, flag, flag2)
    for q in (y, z):
        t.check(t.same(q.x.value, pick(t, [v[0] for v in w], x)) and t.same(q.y.value, pick(t, [v[1] for v in w], x)), 'the recovered public key is not that of the signing key')


def big(t, k, flip):
    """P-256 itself with a given secret: s as a polynomial identity modulo the order"""
    t.abstract()
    e = ECDSA.secp256r1()
    n = e.GFn.p
    c = e.ec
    x, m = t.int('key', 1, n - 1), t.int('message', 0, (1 << 256) - 1)
    R = e.G * k
    wr = R.x.value % n
    r, s = e.sign(m, x, n - k if flip else k)
    t.check(t.same(r.value, wr), 'r is not the x coordinate of the multiple by the secret')
    t.check((s.value * ((n - k) if flip else k) - m - x * wr) % n == 0, 's is not (message + key * r) / secret')
    t.check(e.crack1(r, s, m, n - k if flip else k) == x, 'the recovered key is not the signing key')


NAMED = {'P-256': (2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1, -3, 0x5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B,
                   0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296, 0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5,
                   0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551),
         'secp256k1': (2 ** 256 - 2 ** 32 - 977, 0, 7, 0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
                       0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8,
                       0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141)}


def named(t, which):
    """a predefined group is the standard one: its equation for any coordinates, its base point and its order"""
    p, a, b, gx, gy, n = NAMED[which]
    e = ECDSA.secp256r1() if which == 'P-256' else ECDSA.secp256k1()
    t.check(e.G.x.value == gx and e.G.y.value == gy, 'the base point is another')
    t.check(e.GFn.p == n and e.ec.field.p == p, 'the order or the field is another')
    t.check(e.G.isoncurve(), 'the base point is not on the curve')
    x = t.int('x', 0, p - 1)
    lhs, rhs = e.ec.a.value, e.ec.b.value
    t.check((x * lhs + rhs - x * a - b) % p == 0, 'the equation of the curve is another')
    v = t.int('v', -n, 2 * n)
    t.check(t.same(e.GFn.value(v % n).value, v % n), 'numbers are not taken modulo the order')
