"""C24 finite fields"""
from neocore.Cryptography.ECCurve import FiniteField, modinv, sqrtCQ

R1 = 0xFFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF


def is_value(f, v):
    return isinstance(v, FiniteField.Value) and v.field is f


def canon(t, p, f, v, want, what):
    t.check(is_value(f, v), '%s does not give a field value' % what)
    t.check(t.same(v.value, want), '%s is not the canonical residue of the exact result' % what)


def elements(t, p):
    f = FiniteField(p)
    a, b = t.int('a', 0, p - 1), t.int('b', 0, p - 1)
    return f, a, b, f.value(a), f.value(b)


def ring(t, p, big):
    if big:
        t.abstract()
    f, a, b, x, y = elements(t, p)
    canon(t, p, f, x + y, (a + b) % p, 'a sum')
    canon(t, p, f, x - y, (a - b) % p, 'a difference')
    canon(t, p, f, x * y, (a * b) % p, 'a product')
    canon(t, p, f, -x, (p - a) % p, 'a negation')
    canon(t, p, f, f.add(x, y), (a + b) % p, 'a sum')
    canon(t, p, f, f.sub(x, y), (a - b) % p, 'a difference')
    canon(t, p, f, f.mul(x, y), (a * b) % p, 'a product')
    canon(t, p, f, f.neg(y), (0 - b) % p, 'a negation')
    t.check(t.same(x.value, a) and t.same(y.value, b), 'arithmetic changed its operands')
    t.check(t.same(x.iszero(), a == 0), 'only zero is zero')
    t.check(t.same(x == y, a == b) and t.same(x != y, a != b), 'equality of field values is not equality of residues')
    t.check(f.zero().value == 0 and f.one().value == 1 % p, 'zero and one are not the neutral elements')
    canon(t, p, f, x + f.zero(), a, 'adding zero')
    canon(t, p, f, x * f.one(), a, 'multiplying by one')


def laws(t, p, big):
    """distributivity and associativity, which no single wrong reduction survives"""
    if big:
        t.abstract()
    f, a, b, x, y = elements(t, p)
    c = t.int('c', 0, p - 1)
    z = f.value(c)
    t.check((x + y) * z == x * z + y * z, 'multiplication does not distribute over addition')
    t.check((x * y) * z == x * (y * z) and (x + y) + z == x + (y + z), 'addition or multiplication is not associative')
    t.check((x - y) + y == x and x - y == -(y - x), 'subtraction does not undo addition')
    t.check(t.same(((x - y) * (x + y)).value, (x * x - y ** 2).value), 'a product of sum and difference is not the difference of squares')


def ints(t, p, big, lo, hi):
    """plain integers of any size and sign on either side"""
    if big:
        t.abstract()
    f = FiniteField(p)
    a, n = t.int('a', 0, p - 1), t.int('n', lo, hi)
    x = f.value(a)
    canon(t, p, f, x + n, (a + n) % p, 'value + integer')
    canon(t, p, f, n + x, (a + n) % p, 'integer + value')
    canon(t, p, f, x - n, (a - n) % p, 'value - integer')
    canon(t, p, f, n - x, (n - a) % p, 'integer - value')
    canon(t, p, f, x * n, (a * n) % p, 'value * integer')
    canon(t, p, f, n * x, (a * n) % p, 'integer * value')
    t.check(t.same(x == n, (a - n) % p == 0) and t.same(n == x, (a - n) % p == 0) and t.same(x != n, (a - n) % p != 0), 'equality with an integer is not congruence')


def power(t, p, e, big, valexp=False):
    if big:
        t.abstract()
    f = FiniteField(p)
    a = t.int('a', 0, p - 1)
    x = f.value(a)
    want = 1 % p
    for i in range(e):
        want = want * a % p
    canon(t, p, f, x ** (f.value(e) if valexp else e), want, 'a power')
    canon(t, p, f, f.pow(x, e), want, 'a power')


def powers(t, p):
    """symbolic exponent"""
    f = FiniteField(p)
    a, e = t.int('a', 0, p - 1), t.int('e', 0, 2 * p)
    canon(t, p, f, f.value(a) ** e, pow(a, e, p), 'a power')


def rpower(t, p):
    f = FiniteField(p)
    e, n = t.int('e', 0, p - 1), t.int('n', 0, 2 * p)
    canon(t, p, f, n ** f.value(e), pow(n, e, p), 'integer ** value')


def division(t, p):
    f, a, b, x, y = elements(t, p)
    t.assume(b != 0)
    q = x / y
    t.check(is_value(f, q), 'a quotient is not a field value')
    t.check(t.all([q.value >= 0, q.value < p]), 'a quotient is not canonical')
    t.check(t.same(q.value * b % p, a), 'dividing does not undo multiplication')
    t.check(t.same((q * y).value, a) and t.same((x * y / y).value, a), 'dividing does not undo multiplication')
    i = y.inverse()
    t.check(t.same(f.integer(i) * b % p, 1), 'a value times its inverse is not one')
    one = y * i
    canon(t, p, f, one, 1, 'a value times its inverse')
    canon(t, p, f, 1 / y, f.integer(i) % p, 'one divided by a value')


def int_by_value(t, p):
    f = FiniteField(p)
    a, n = t.int('a', 1, p - 1), t.int('n', -2 * p, 2 * p)
    q = n / f.value(a)
    t.check(is_value(f, q) and t.all([q.value >= 0, q.value < p]) and t.same(q.value * a % p, n % p), 'integer / value is not the quotient')


def value_by_int(t, p):
    f = FiniteField(p)
    a, m = t.int('a', 0, p - 1), t.int('m', -2 * p, 2 * p)
    t.assume(m % p != 0)
    q = f.value(a) / m
    t.check(is_value(f, q) and t.all([q.value >= 0, q.value < p]) and t.same(q.value * m % p, a), 'value / integer is not the quotient')


def inverses(t, p):
    a = t.int('a', -2 * p, 2 * p)
    t.assume(a % p != 0)
    t.check(t.same(modinv(a, p) * a % p, 1), 'the modular inverse does not invert')


def residues(t, p, big):
    """field values made from any integer"""
    if big:
        t.abstract()
    f = FiniteField(p)
    a, b = t.int('a', -2 * p, 2 * p), t.int('b', -2 * p, 2 * p)
    x, y = f.value(a), f.value(b)
    canon(t, p, f, x + y, (a + b) % p, 'a sum')
    canon(t, p, f, x - y, (a - b) % p, 'a difference')
    canon(t, p, f, x * y, (a * b) % p, 'a product')
    canon(t, p, f, -x, (0 - a) % p, 'a negation')
    canon(t, p, f, x ** 2, (a * a) % p, 'a square')
    t.check(t.same(x == y, (a - b) % p == 0) and t.same(x != y, (a - b) % p != 0), 'equality of field values is not congruence')


def quotients(t, p):
    """division of field values made from any integer"""
    f = FiniteField(p)
    a, b = t.int('a', -2 * p, 2 * p), t.int('b', -2 * p, 2 * p)
    t.assume(b % p != 0)
    q = f.value(a) / f.value(b)
    t.check(is_value(f, q) and t.all([q.value >= 0, q.value < p]) and t.same((q.value * b - a) % p, 0), 'dividing does not undo multiplication')
    t.check(t.same(f.value(b).inverse() * b % p, 1), 'a value times its inverse is not one')


def roots(t, p):
    f = FiniteField(p)
    a = t.int('a', 0, p - 1)
    flag = t.int('flag', 0, 1)
    v = f.value(a * a % p)
    r = v.sqrt(flag)
    t.check(is_value(f, r), 'a square root is not a field value')
    t.check(t.all([r.value >= 0, r.value < p]) and t.same(r.value * r.value % p, a * a % p), 'the square root of a square does not square back')
    t.check(t.any([a == 0, r.value % 2 == flag]), 'the square root does not have the requested parity')
    t.check(t.same(f.sqrt(v, flag).value, r.value), 'two calls give two roots')


def roots_cq(t, p):
    """the root used for decompression: a root of every square, None otherwise"""
    v = t.int('v', 0, p - 1)
    r = sqrtCQ(v, p)
    square = t.any([v == (i * i) % p for i in range(p // 2 + 1)])
    if r is None:
        t.check(t.same(square, False), 'no root is found for a square')
    else:
        t.check(t.same(r * r % p, v), 'the root of a square does not square back')


def mixed(t, p, q):
    """the field's operations reject operands of two fields"""
    f, g = FiniteField(p), FiniteField(q)
    a, b = t.int('a', 0, p - 1), t.int('b', 1, q - 1)
    x, y = f.value(a), g.value(b)
    for op in (f.add, f.sub, f.mul, f.div, g.add, g.mul):
        ok, r = t.attempt(lambda: op(x, y))
        t.check(not ok or not isinstance(r, FiniteField.Value), 'mixing two fields gives a field value')


def texts(t, p, n):
    """the value given as hexadecimal text, as the published curve parameters are"""
    f = FiniteField(p)
    d = t.bytes('d', n)
    h = d.hex()
    want = int.from_bytes(d, 'big')
    t.assume(want < p)
    v = f.value(h)
    canon(t, p, f, v, want, 'a value given in hexadecimal')
    t.check(t.same(f.integer(h), want), 'the integer of a hexadecimal text is not the big-endian number')
    a = t.int('a', 0, p - 1)
    canon(t, p, f, f.value(a) + h, (a + want) % p, 'a sum with a value given in hexadecimal')
    t.check(t.same(f.value(a) == h, a == want), 'equality with a hexadecimal text is not equality with the number')
