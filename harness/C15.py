"""C15 Fixed8 decimal text and parsing"""
from decimal import Decimal
from neocore.Fixed8 import Fixed8

D = 10 ** 8


def amount(t, r, v, what):
    t.check(type(r) is Fixed8 and isinstance(r.value, int), what + ' gives no amount')
    t.check(t.same(r.value, v), what + ' gives another amount')


def text(t, lo, hi, how):
    """text of an amount and back"""
    v = t.int('v', lo, hi)
    x = Fixed8(v)
    s = x.ToString() if how == 'ToString' else str(x)
    t.check(isinstance(s, str), 'the text is no text')
    d = Decimal(s)
    t.check(t.same(d * D, v), 'the text denotes another amount')
    amount(t, Fixed8.TryParse(s), v, 'parsing the text')
    r = Fixed8.TryParse(s, True)
    if r is None:
        t.check(v < 0, 'an amount that is not negative was rejected')
    else:
        t.check(v >= 0, 'a negative amount was accepted where a positive one is required')
        amount(t, r, v, 'parsing the text as positive')
    t.check(t.same(x.value, v), 'the amount changed')


def json_text(t, lo, hi):
    v = t.int('v', lo, hi)
    x = Fixed8(v)
    j = x.ToNeoJsonString()
    t.check(isinstance(j, str), 'the JSON text is no text')
    if v % D == 0:
        q = abs(v) // D
        ok, n = t.attempt(lambda: int(j))
        t.check(ok and t.same(n, t.ite(v < 0, -q, q)), 'the JSON text of a whole amount is not the whole number')
    else:
        t.check(t.same(j, x.ToString()), 'the JSON text is another text')
    amount(t, Fixed8.TryParse(j), v, 'parsing the JSON text')


def shape(t, lo, hi):
    """the very characters of the text"""
    v = t.int('v', lo, hi)
    s = Fixed8(v).ToString()
    j = Fixed8(v).ToNeoJsonString()
    if v % D == 0:
        q = abs(v) // D
        t.check(j == str(-q if v < 0 else q), 'the JSON text of a whole amount is not the whole number')
    t.check(s == j or s == j + '.0', 'the JSON text is not the text without .0')
    t.check(not j.endswith('.0'), 'the JSON text ends in .0')
    t.check(t.same(Decimal(s) * D, v), 'the text denotes another amount')


def digits(t, sign, a, b, positive=False):
    """digits with a point between them"""
    ds = [t.int('d%d' % i, 0, 9) for i in range(a + b)]
    w = 0
    for d in ds:
        w = w * 10 + d
    ip, fp = ''.join([chr(48 + d) for d in ds[:a]]), ''.join([chr(48 + d) for d in ds[a:]])
    s = sign + ip + ('.' + fp if b or sign == '+' else '')
    e = w * 10 ** (8 - b) if b <= 8 else w // 10 ** (b - 8)
    neg = sign == '-'
    ok, r = t.attempt(lambda: Fixed8.TryParse(s, require_positive=positive))
    t.check(ok, 'parsing a decimal text failed')
    if r is None:
        t.check(t.all([positive and neg, w > 0]), 'a decimal text was rejected')
    else:
        t.check(t.any([not positive, not neg, w == 0]), 'a negative amount was accepted where a positive one is required')
        amount(t, r, -e if neg else e, 'parsing a decimal text')


def exponent(t, ex):
    w = t.int('w', -10 ** 9, 10 ** 9)
    s = '%de%d' % (w, ex)
    e = w * 10 ** (8 + ex) if ex >= -8 else t.ite(w < 0, -(abs(w) // 10 ** (-8 - ex)), abs(w) // 10 ** (-8 - ex))
    amount(t, Fixed8.TryParse(s), e, 'parsing scientific notation')


def whole(t, bits):
    n = t.int('n', -2 ** bits, 2 ** bits)
    amount(t, Fixed8.FromDecimal(n), n * D, 'converting a whole number')
    amount(t, Fixed8.TryParse(n), n * D, 'parsing a whole number')
    amount(t, Fixed8.TryParse(str(n)), n * D, 'parsing the text of a whole number')
    r = Fixed8.TryParse(n, require_positive=True)
    if r is None:
        t.check(n < 0, 'a positive number was rejected')
    else:
        t.check(n >= 0, 'a negative number was accepted where a positive one is required')
        amount(t, r, n * D, 'parsing a positive whole number')


def decimal_value(t, k, digs):
    """a Decimal with k decimals"""
    v = t.int('v', -10 ** digs + 1, 10 ** digs - 1)
    d = Decimal(v).scaleb(-k)
    q = abs(v) * 10 ** (8 - k) if k <= 8 else abs(v) // 10 ** (k - 8)
    e = t.ite(v < 0, -q, q)
    amount(t, Fixed8.FromDecimal(d), e, 'converting a decimal number')
    amount(t, Fixed8.TryParse(d), e, 'parsing a decimal number')


def float_value(t, k, digs):
    """a double nearest to a decimal of k decimals"""
    v = t.int('v', -10 ** digs + 1, 10 ** digs - 1)
    f = v / 10 ** k
    q = abs(v) * 10 ** (8 - k) if k <= 8 else abs(v) // 10 ** (k - 8)
    e = t.ite(v < 0, -q, q)
    amount(t, Fixed8.FromDecimal(f), e, 'converting a double')
    amount(t, Fixed8.TryParse(f), e, 'parsing a double')


def whole_double(t):
    n = t.int('n', -2 ** 53, 2 ** 53)
    f = float(n)
    amount(t, Fixed8.FromDecimal(f), n * D, 'converting a whole double')


def any_text(t, n):
    """what is no number gives no amount"""
    s = t.str('s', n, 'ascii')
    t.assume(t.all([c != '_' for c in s]))
    ok, r = t.attempt(lambda: Fixed8.TryParse(s))
    t.check(ok, 'parsing a text failed')
    dig = [t.all(['0' <= c, c <= '9']) for c in s]
    if r is not None:
        t.check(type(r) is Fixed8, 'parsing gives no amount')
        t.check(t.any(dig), 'a text without a digit gives an amount')
        t.check(t.all([t.any([d, t.any([c == k for k in '+-.eE \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f'])]) for c, d in zip(s, dig)]),
                'a text with a letter or another sign in it gives an amount')
        for i in range(n):
            for j in range(i):
                t.check(not t.all([s[i] == '.', s[j] == '.']), 'a text with two points gives an amount')
    else:
        t.check(not t.all(dig) or n == 0, 'a text of digits was rejected')


SPECIAL = ['', 'inf', '-inf', 'nan', 'NaN', '-NAN', 'Infinity', '-infinity', '1e999', '-1e400', 'abc', '0x10', '1,5', '--1', '1.2.3', '.', 'e5',
           None, float('inf'), float('-inf'), float('nan'), Decimal('NaN'), Decimal('Infinity'), Decimal('-Infinity'), Decimal('sNaN'),
           [], {}, (), object()]


def special(t):
    x = t.choice('x', SPECIAL)
    p = t.bool('positive')
    ok, r = t.attempt(lambda: Fixed8.TryParse(x, require_positive=p))
    t.check(ok, 'parsing something that is no number failed')
    t.check(r is None, 'something that is no finite number gives an amount')
