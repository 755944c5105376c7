"""C25 the group law"""
from neocore.Cryptography.ECCurve import EllipticCurve, FiniteField


def inv(v, p):
    return pow(v, p - 2, p)


def on(t, a, b, p, x, y):
    """on the curve, or the neutral point"""
    return t.any([t.all([x == 0, y == 0]), (y * y - x * x * x - a * x - b) % p == 0])


def ref_add(a, p, u, v):
    """the chord and tangent law, written independently; (0, 0) is neutral"""
    (x1, y1), (x2, y2) = u, v
    if x1 == 0 and y1 == 0:
        return v
    if x2 == 0 and y2 == 0:
        return u
    if x1 == x2:
        if (y1 + y2) % p == 0:
            return (0, 0)
        s = (3 * x1 * x1 + a) * inv(2 * y1 % p, p) % p
    else:
        s = (y2 - y1) * inv((x2 - x1) % p, p) % p
    x3 = (s * s - x1 - x2) % p
    return (x3, (s * (x1 - x3) - y1) % p)


def ref_neg(p, u):
    return (u[0], (p - u[1]) % p)


def setup(t, p, names, ab=None, short=0):
    """any non-singular curve off the origin and any of its points"""
    if ab is None:
        a, b = t.int('a', 0, p - 1), t.int('b', 1, p - 1)
        t.assume((4 * a * a * a + 27 * b * b) % p != 0)
    else:
        a, b = ab
    c = EllipticCurve(FiniteField(p), a, b)
    out = []
    for n in names:
        x, y = t.int('x' + n, 0, p - 1), t.int('y' + n, 0, p - 1)
        t.assume(on(t, a, b, p, x, y))
        out.append((x, y))
    return c, a, b, out


def is_point(t, c, r, want, what):
    t.check(type(r) is EllipticCurve.ECPoint and r.curve is c, '%s is not a point of the curve' % what)
    t.check(t.same(r.x.value, want[0]) and t.same(r.y.value, want[1]), '%s is not that of the group law' % what)


def add(t, p):
    c, a, b, (u, v) = setup(t, p, 'uv')
    P, Q = c.point(*u), c.point(*v)
    r = P + Q
    is_point(t, c, r, ref_add(a, p, u, v), 'a sum')
    t.check(on(t, a, b, p, r.x.value, r.y.value), 'the sum of two points is not on the curve')
    t.check(t.same(P.x.value, u[0]) and t.same(P.y.value, u[1]) and t.same(Q.x.value, v[0]) and t.same(Q.y.value, v[1]), 'adding changed its operands')
    t.check(r.isoncurve(), 'a sum is not recognised as a point of the curve')


def double(t, p):
    c, a, b, (u,) = setup(t, p, 'u')
    P = c.point(*u)
    is_point(t, c, P + P, ref_add(a, p, u, u), 'twice a point')
    is_point(t, c, P + c.point(*u), ref_add(a, p, u, u), 'twice a point')


def commute(t, p):
    c, a, b, (u, v) = setup(t, p, 'uv')
    P, Q = c.point(*u), c.point(*v)
    r, s = P + Q, Q + P
    t.check(r == s and t.same(r.x.value, s.x.value) and t.same(r.y.value, s.y.value), 'addition is not commutative')


def associate(t, p, ab):
    c, a, b, (u, v, w) = setup(t, p, 'uvw', ab)
    P, Q, R = c.point(*u), c.point(*v), c.point(*w)
    t.check((P + Q) + R == P + (Q + R), 'addition is not associative')


def neutral(t, p):
    c, a, b, (u,) = setup(t, p, 'u')
    P, Z = c.point(*u), c.zero()
    t.check(Z.iszero() and Z == c.Infinity and Z.IsInfinity, 'the neutral point is not neutral')
    t.check(t.same(P.iszero(), t.all([u[0] == 0, u[1] == 0])) and t.same(P.IsInfinity, t.all([u[0] == 0, u[1] == 0])), 'another point counts as neutral')
    is_point(t, c, P + Z, u, 'a point plus the neutral point')
    is_point(t, c, Z + P, u, 'the neutral point plus a point')
    n = -P
    is_point(t, c, n, ref_neg(p, u), 'the negative')
    t.check((P + n).iszero() and (n + P).iszero() and (P - P).iszero(), 'a point plus its negative is not neutral')
    t.check(-n == P, 'the negative of the negative is another point')
    t.check(t.same((Z - P) == n, True), 'the neutral point minus a point is not its negative')


def subtract(t, p):
    c, a, b, (u, v) = setup(t, p, 'uv')
    P, Q = c.point(*u), c.point(*v)
    is_point(t, c, P - Q, ref_add(a, p, u, ref_neg(p, v)), 'a difference')


def membership(t, p):
    """every pair of coordinates, on the curve or not"""
    a, b = t.int('a', 0, p - 1), t.int('b', 0, p - 1)
    c = EllipticCurve(FiniteField(p), a, b)
    x, y = t.int('x', 0, p - 1), t.int('y', 0, p - 1)
    P = c.point(x, y)
    t.check(t.same(P.isoncurve(), on(t, a, b, p, x, y)), 'a point is on the curve though it does not satisfy the equation, or the reverse')


def multiply(t, p, n, ab, value):
    c, a, b, (u,) = setup(t, p, 'u', ab)
    P = c.point(*u)
    r = P * (FiniteField(n + 7).value(n) if value else n)
    w = (0, 0)
    for i in range(abs(n)):
        w = ref_add(a, p, w, u)
    if n < 0:
        w = ref_neg(p, w)
    is_point(t, c, r, w, 'a multiple')
    t.check(t.same(P.x.value, u[0]) and t.same(P.y.value, u[1]), 'multiplying changed the point')


def any_multiple(t, p, ab, g, n, lo, hi):
    """every scalar and every point of a curve of n points: n steps come back to the start"""
    c, a, b, (u,) = setup(t, p, 'u', ab)
    k = t.int('k', lo, hi)
    P = c.point(*u)
    r = P * k
    m = k % n
    w = [(0, 0)]
    for i in range(1, n):
        w.append(ref_add(a, p, w[-1], u))
    x = y = 0
    for i in range(n):
        x = t.ite(m == i, w[i][0], x)
        y = t.ite(m == i, w[i][1], y)
    is_point(t, c, r, (x, y), 'a multiple')


def text_multiple(t, p, ab, u, n, k, top):
    """the scalar as hexadecimal text: the big-endian number"""
    c = EllipticCurve(FiniteField(p), *ab)
    d = t.bytes('d', k)
    for i in range(1, k):
        t.assume(d[i] <= top)
    r = c.point(*u) * d.hex()
    w = [(0, 0)]
    for i in range(1, n):
        w.append(ref_add(ab[0], p, w[-1], u))
    m = int.from_bytes(d, 'big') % n
    x = y = 0
    for i in range(n):
        x = t.ite(m == i, w[i][0], x)
        y = t.ite(m == i, w[i][1], y)
    is_point(t, c, r, (x, y), 'a multiple by a hexadecimal scalar')


def divide(t, p, ab, n):
    """on a curve of prime order n"""
    c, a, b, (u,) = setup(t, p, 'u', ab)
    k = t.int('k', 1, n - 1)
    P = c.point(*u)
    q = P / FiniteField(n).value(k)
    t.check(q * k == P, 'dividing by a scalar does not undo the multiplication')
    t.check(on(t, a, b, p, q.x.value, q.y.value), 'a quotient is not on the curve')


def big_multiple(t, p, ab, u, n, base, span):
    """scalars of many digits: the last ones are any, the others given"""
    c = EllipticCurve(FiniteField(p), *ab)
    d = t.int('d', 0, span)
    r = c.point(*u) * (base + d)
    w = [(0, 0)]
    for i in range(1, n):
        w.append(ref_add(ab[0], p, w[-1], u))
    m = (base % n + d) % n
    x = y = 0
    for i in range(n):
        x = t.ite(m == i, w[i][0], x)
        y = t.ite(m == i, w[i][1], y)
    is_point(t, c, r, (x, y), 'a multiple')


class Field(FiniteField):
    """inverses by their contract: a function of the value"""

    def inverse(self, value):
        return pow(value.value, -1, self.p)


def formula(t, p, a, b, what):
    """the law on a curve of cryptographic size, for coordinates that satisfy nothing in particular: one polynomial identity in the
    coordinates and the inverse that the slope takes"""
    t.abstract()
    c = EllipticCurve(Field(p), a, b)
    x1, y1 = t.int('x1', 1, p - 1), t.int('y1', 1, p - 1)
    if what == 'double':
        r = c.point(x1, y1) + c.point(x1, y1)
        s = (3 * x1 * x1 + a) * pow(2 * y1 % p, -1, p) % p
        x2 = x1
    elif what == 'opposite':
        r = c.point(x1, y1) + c.point(x1, p - y1)
        t.check(r.iszero() and (c.point(x1, y1) - c.point(x1, y1)).iszero(), 'a point plus its negative is not neutral')
        n = -c.point(x1, y1)
        t.check(t.same(n.x.value, x1) and t.same(n.y.value, p - y1), 'the negative is wrong')
        return
    else:
        x2, y2 = t.int('x2', 1, p - 1), t.int('y2', 1, p - 1)
        t.assume(x1 != x2)
        r = c.point(x1, y1) + c.point(x2, y2)
        s = (y1 - y2) % p * pow((x1 - x2) % p, -1, p) % p
    t.check(r.x == (s * s - x1 - x2) % p, 'the x of the sum is not that of the chord and tangent law')
    t.check(r.y == (s * (x1 - r.x.value) - y1) % p, 'the y of the sum is not that of the chord and tangent law')
