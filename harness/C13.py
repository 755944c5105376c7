"""C13 Fixed8 arithmetic"""
from neocore.Fixed8 import Fixed8

LO, HI = -2 ** 63, 2 ** 63 - 1

OPS = {'+': lambda p, q: p + q, '-': lambda p, q: p - q, '*': lambda p, q: p * q, '//': lambda p, q: p // q, '%': lambda p, q: p % q,
       '/': lambda p, q: p / q}


def trunc(t, a, b):
    q = abs(a) // abs(b)
    return t.ite((a < 0) == (b < 0), q, -q)


def iop(op, x, y):
    if op == '+':
        x += y
    elif op == '-':
        x -= y
    elif op == '*':
        x *= y
    elif op == '//':
        x //= y
    elif op == '%':
        x %= y
    else:
        x /= y
    return x


def binary(t, op, inplace, lo=LO, hi=HI):
    a, b = t.int('a', lo, hi), t.int('b', lo, hi)
    x, y = Fixed8(a), Fixed8(b)
    keep = x
    ok, r = t.attempt(lambda: iop(op, x, y) if inplace else OPS[op](x, y))
    if op in ('//', '/', '%'):
        t.check(t.same(ok, b != 0), 'dividing by zero was not rejected, or a proper division was')
        if not ok:
            return
    else:
        t.check(ok, 'an operation failed')
    exp = trunc(t, a, b) if op == '/' else OPS[op](a, b)
    t.check(type(r) is Fixed8, 'Fixed8 %s gives another type' % op)
    t.check(t.same(r.value, exp) and isinstance(r.value, int), 'Fixed8 %s is not exact' % op)
    t.check(t.same(keep.value, a) and t.same(y.value, b), 'Fixed8 %s changed an operand' % op)
    t.check(r is not keep and r is not y, 'Fixed8 %s gives back an operand' % op)


def by_constant(t, op, b):
    """a given divisor, every amount; the quotient is stated by its defining inequalities"""
    a = t.int('a', LO, HI)
    r = OPS[op](Fixed8(a), Fixed8(b)).value
    if op == '/':
        ar, aa = t.ite(r < 0, -r, r), t.ite(a < 0, -a, a)
        t.check(t.all([ar * abs(b) <= aa, aa - ar * abs(b) < abs(b)]), 'Fixed8 / is not the truncated quotient')
        t.check(t.implies(r != 0, (r < 0) == ((a < 0) != (b < 0))), 'Fixed8 / has a wrong sign')
    elif op == '//':
        d = a - r * b
        t.check(t.all([d >= 0, d < b]) if b > 0 else t.all([d <= 0, d > b]), 'Fixed8 // is not the floor of the quotient')
    else:
        t.check(t.all([r >= 0, r < b]) if b > 0 else t.all([r <= 0, r > b]), 'Fixed8 % has a wrong sign or size')
        t.check(t.same(r, a % b), 'Fixed8 % is not the remainder')


def same_object(t, op, inplace):
    a = t.int('a', LO, HI)
    x = Fixed8(a)
    ok, r = t.attempt(lambda: iop(op, x, x) if inplace else OPS[op](x, x))
    if op in ('//', '/', '%'):
        t.check(t.same(ok, a != 0), 'dividing by zero was not rejected, or a proper division was')
        if not ok:
            return
        exp = 0 if op == '%' else 1
    else:
        t.check(ok, 'an operation failed')
        exp = {'+': a + a, '-': 0, '*': a * a}[op]
    t.check(t.same(r.value, exp), 'Fixed8 %s of an amount with itself is not exact' % op)
    t.check(t.same(x.value, a), 'Fixed8 %s changed an operand' % op)


def scaled(t, op):
    """dividing an exact multiple gives the factor back"""
    b = t.int('b', -(1 << 5), (1 << 5))
    k = t.int('k', -(1 << 5), (1 << 5))
    r = t.int('r', 0, (1 << 5))
    t.assume(b != 0)
    ab = t.ite(b < 0, -b, b)
    t.assume(r < ab)
    if op == '/':
        # |a| = |k|*|b| + r, sign of the quotient k
        ak = t.ite(k < 0, -k, k)
        m = ak * ab + r
        s = t.bool('s')
        a = t.ite(s, -m, m)
        exp = t.ite(s == (b < 0), ak, -ak)
        q = Fixed8(a) / Fixed8(b)
    else:
        rr = t.ite(b < 0, -r, r)
        a = k * b + rr
        exp = k if op == '//' else rr
        q = Fixed8(a) // Fixed8(b) if op == '//' else Fixed8(a) % Fixed8(b)
    t.check(t.same(q.value, exp), 'Fixed8 %s is not exact' % op)


def negate(t):
    a = t.int('a', LO, HI)
    x = Fixed8(a)
    r = -x
    t.check(type(r) is Fixed8 and t.same(r.value, 0 - a) and t.same(x.value, a), 'negation is not exact')
    t.check(t.same((-r).value, a), 'double negation changes the amount')


def compare(t):
    a, b = t.int('a', LO, HI), t.int('b', LO, HI)
    x, y = Fixed8(a), Fixed8(b)
    t.check(t.same(x == y, a == b), '== does not compare the counts')
    t.check(t.same(x != y, a != b), '!= does not compare the counts')
    t.check(t.same(x < y, a < b), '< does not compare the counts')
    t.check(t.same(x > y, a > b), '> does not compare the counts')
    t.check(t.same(x <= y, a <= b), '<= does not compare the counts')
    t.check(t.same(x >= y, a >= b), '>= does not compare the counts')
    t.check(t.same(x.value, a) and t.same(y.value, b), 'comparing changed an amount')
    t.check(t.same(x.GetData(), a), 'GetData is not the count')


def constants(t):
    for i in range(2):
        t.check(Fixed8.One().value == 10 ** 8 and Fixed8.FD().value == 10 ** 8, 'one does not have 10^8 counts')
        t.check(Fixed8.Satoshi().value == 1 and Fixed8.NegativeSatoshi().value == -1, 'a satoshi is not one count')
        t.check(Fixed8.Zero().value == 0, 'zero has counts')
        a = t.int('a%d' % i, LO, HI)
        for f in (Fixed8.One, Fixed8.Satoshi, Fixed8.NegativeSatoshi, Fixed8.Zero):
            x = f()
            x += Fixed8(a)
            x -= Fixed8(3)
            x *= Fixed8(a)


def power(t, e, m, lo, hi):
    """powers, and powers modulo a plain number"""
    a = t.int('a', lo, hi)
    x, y = Fixed8(a), Fixed8(e)
    r = x ** y if m is None else pow(x, y, m)
    want = 1
    for i in range(e):
        want = want * a
    if m is not None:
        want = want % m
    t.check(type(r) is Fixed8 and t.same(r.value, want), 'a power is not exact')
    t.check(t.same(x.value, a) and y.value == e, 'a power changed an operand')
