"""C12 BigInteger arithmetic"""
from neocore.BigInteger import BigInteger


def binary(t, op, bits, plain, wide=None):
    a = t.int('a', -(1 << bits), (1 << bits) - 1)
    wide = bits if wide is None else wide
    b = t.int('b', -(1 << wide), (1 << wide) - 1)
    x = BigInteger(a)
    y = b if plain else BigInteger(b)
    f = {'+': lambda p, q: p + q, '-': lambda p, q: p - q, '*': lambda p, q: p * q, '//': lambda p, q: p // q, '/': lambda p, q: p / q,
         '%': lambda p, q: p % q}[op]
    ok, r = t.attempt(lambda: f(x, y))
    if op in ('//', '/', '%'):
        t.check(t.same(ok, b != 0), 'dividing by zero was not rejected, or a proper division was')
        if not ok:
            return
    else:
        t.check(ok, 'an operation failed')
    exp = f(a, b) if op != '/' else a // b
    t.check(t.same(r, exp), 'BigInteger %s is not the integer result' % op)
    t.check(type(r) is BigInteger, 'BigInteger %s gives another type' % op)
    t.check(t.same(x, a) and t.same(y, b), 'BigInteger %s changed an operand' % op)


def divide_identity(t, op, bits, wide):
    """the quotient is the floor, whatever the signs, decided without division"""
    b = t.int('b', -(1 << wide), (1 << wide) - 1)
    q = t.int('q', -(1 << bits), (1 << bits) - 1)
    r = t.int('r', 0, (1 << wide) - 1)
    t.assume(b != 0)
    t.assume(t.ite(b > 0, r, -r) * t.ite(b > 0, 1, -1) < t.ite(b > 0, b, -b))
    rem = t.ite(b > 0, r, -r)
    a = q * b + rem
    x, y = BigInteger(a), BigInteger(b)
    if op == '%':
        t.check(t.same(x % y, rem), 'the modulus is not the floor remainder')
    else:
        t.check(t.same(x // y if op == '//' else x / y, q), 'the quotient is not the floor')


def unary(t, bits):
    a = t.int('a', -(1 << bits), (1 << bits) - 1)
    b = t.int('b', -(1 << bits), (1 << bits) - 1)
    x = BigInteger(a)
    n, m = -x, abs(x)
    t.check(t.same(n, 0 - a) and type(n) is BigInteger, 'negation is wrong')
    t.check(t.same(m, t.ite(a < 0, 0 - a, a)) and type(m) is BigInteger, 'the absolute value is wrong')
    t.check(t.same(x.Sign, t.ite(a > 0, 1, t.ite(a == 0, 0, -1))), 'Sign is wrong')
    t.check(t.same(x.Equals(BigInteger(b)), a == b), 'Equals does not agree with integer equality')
    t.check(t.same(x.Equals(b), a == b), 'Equals with a plain integer does not agree with integer equality')
    t.check(t.same(x == BigInteger(b), a == b) and t.same(x < BigInteger(b), a < b), 'comparison is not integer comparison')
    t.check(t.same(x, a), 'an operand was changed')


def shifts(t, bits, k):
    a = t.int('a', -(1 << bits), (1 << bits) - 1)
    n = t.int('n', 0, k)
    plain = t.choice('plain', [False, True])
    x = BigInteger(a)
    s = n if plain else BigInteger(n)
    up, down = a, a
    for i in range(1, k + 1):
        up, down = t.ite(n == i, a * 2 ** i, up), t.ite(n == i, a // 2 ** i, down)
    l, r = x << s, x >> s
    t.check(t.same(l, up) and type(l) is BigInteger, 'the left shift is not multiplication by a power of two')
    t.check(t.same(r, down) and type(r) is BigInteger, 'the right shift is not floor division by a power of two')
    ok, v = t.attempt(lambda: x << BigInteger(-1))
    t.check(not ok, 'a negative shift was accepted')
    t.check(t.same(x, a), 'shifting changed the operand')


def shift_by(t, bits, n):
    """shifts by a fixed amount"""
    a = t.int('a', -(1 << bits), (1 << bits) - 1)
    x = BigInteger(a)
    l, r = x << n, x >> n
    t.check(t.same(l, a * 2 ** n) and type(l) is BigInteger, 'the left shift is not multiplication by a power of two')
    t.check(t.same(r, a // 2 ** n) and type(r) is BigInteger, 'the right shift is not floor division by a power of two')


def inplace(t, bits):
    a = t.int('a', -(1 << bits), (1 << bits) - 1)
    b = t.int('b', -(1 << bits), (1 << bits) - 1)
    x = y = BigInteger(a)
    x += BigInteger(b)
    t.check(t.same(x, a + b) and t.same(y, a) and type(x) is BigInteger, '+= is wrong')
    x = y
    x -= BigInteger(b)
    t.check(t.same(x, a - b) and t.same(y, a) and type(x) is BigInteger, '-= is wrong')
    x = (y + BigInteger(b)) - BigInteger(b)
    t.check(t.same(x, a), 'adding and subtracting again changes the number')


def fixed(t, op, a, left):
    """one operand is a given number"""
    b = t.int('b', -(1 << 40), (1 << 40) - 1)
    f = {'+': lambda p, q: p + q, '-': lambda p, q: p - q, '*': lambda p, q: p * q, '//': lambda p, q: p // q, '/': lambda p, q: p / q,
         '%': lambda p, q: p % q}[op]
    p, q = (a, b) if left else (b, a)
    ok, r = t.attempt(lambda: f(BigInteger(p), BigInteger(q)))
    if op in ('//', '/', '%'):
        t.check(t.same(ok, q != 0), 'dividing by zero was not rejected, or a proper division was')
        if not ok:
            return
    else:
        t.check(ok, 'an operation failed')
    t.check(t.same(r, p // q if op == '/' else f(p, q)) and type(r) is BigInteger, 'BigInteger %s is not the integer result' % op)
