"""Floats, decimals, number formatting and parsing."""
import math
import struct
import decimal
import z3
from . import core, seqs
from .core import (Sym, SymBool, mk_int, mk_bool, b_and, b_or, b_not, is_sym, is_symint, int_parts, int_bin, int_cmp,
                   int_unary, int_plain, PathIncomplete, is_z3, width_for, resize)
from .seqs import LazyStr, NumText, SymStr, CW, chs_of, mk_str


def E():
    return core.E


def t(x):
    return bool(x) if is_sym(x) else x


def trunc_div(n, d):
    """n / d truncated toward zero, d a positive constant"""
    q = int_bin('//', int_unary('abs', n) if is_sym(n) else abs(n), d)
    if is_sym(n) and int_parts(n)[2] <= 0:
        return int_unary('-', q) if is_sym(q) else -q
    neg = int_cmp('<', n, 0)
    if is_sym(neg):
        return core.int_ite(neg, int_unary('-', q) if is_sym(q) else -q, q)
    return (int_unary('-', q) if is_sym(q) else -q) if neg else q


# --------------------------------------------------------------------------
class SymFloat(Sym):
    """A double.  kind 'rat': num/den (den a positive constant) rounded `r`
    times to nearest (r=0: exact; r=1: correctly rounded; r>1: within r
    roundings).  kind 'bits': exactly the double with these 64 bits."""
    __slots__ = ('num', 'den', 'r', 'bits')

    def __init__(self, num=None, den=1, r=0, bits=None):
        self.num, self.den, self.r, self.bits = num, den, r, bits

    @property
    def __class__(self):
        return float

    def __bool__(self):
        return t(float_cmp('!=', self, 0))

    def __float__(self):
        return self.native()

    def native(self):
        if self.bits is not None:
            v = E().concretize(self.bits, why='(float used natively)') & (2 ** 64 - 1)
            return struct.unpack('<d', v.to_bytes(8, 'little'))[0]
        n = self.num.__index__() if is_sym(self.num) else self.num
        if self.r > 1:
            E().approx = True
        return n / self.den

    def fp(self):
        if self.bits is None:
            raise PathIncomplete('bit-level view of a computed float')
        return z3.fpBVToFP(self.bits, z3.Float64())

    def __hash__(self):
        return hash(self.native())

    def __repr__(self):
        return repr(self.native())

    def __str__(self):
        return str(self.native())

    def __format__(self, spec):
        return format(self.native(), spec)

    def __int__(self):
        return int(self.native())

    def __trunc__(self):
        return float_to_int(self, 'trunc')

    def __floor__(self):
        return float_to_int(self, 'floor')

    def __ceil__(self):
        return float_to_int(self, 'ceil')

    def __round__(self, nd=None):
        if nd is None:
            return float_to_int(self, 'round')
        return round(self.native(), nd)

    def is_integer(self):
        if self.bits is None and self.r == 0:
            return int_cmp('==', int_bin('%', self.num, self.den), 0)
        return self.native().is_integer()

    def __neg__(self):
        if self.bits is not None:
            return SymFloat(bits=self.bits ^ z3.BitVecVal(1 << 63, 64))
        return SymFloat(int_unary('-', self.num), self.den, self.r)

    def __abs__(self):
        if self.bits is not None:
            return SymFloat(bits=self.bits & z3.BitVecVal((1 << 63) - 1, 64))
        return SymFloat(int_unary('abs', self.num), self.den, self.r)

    def __pos__(self):
        return self

    def as_integer_ratio(self):
        return self.native().as_integer_ratio()

    def hex(self):
        return self.native().hex()

    def __pow__(self, o, m=None):
        return self.native() ** (o.native() if is_sym(o) and hasattr(o, 'native') else o)

    def __divmod__(self, o):
        return (self // o, self % o)


for _op, _n in (('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('//', 'floordiv'), ('%', 'mod'), ('/', 'truediv')):
    setattr(SymFloat, '__%s__' % _n, (lambda op: lambda self, o: float_bin(op, self, o))(_op))
    setattr(SymFloat, '__r%s__' % _n, (lambda op: lambda self, o: float_bin(op, o, self))(_op))
for _op, _n in (('==', 'eq'), ('!=', 'ne'), ('<', 'lt'), ('<=', 'le'), ('>', 'gt'), ('>=', 'ge')):
    setattr(SymFloat, '__%s__' % _n, (lambda op: lambda self, o: float_cmp(op, self, o))(_op))


def floatlike(x):
    return type(x) is SymFloat or isinstance(x, (float, int))


def as_rat(x):
    """(num, den, r) of a number; None for NaN/inf/bit-level symbolic"""
    if type(x) is SymFloat:
        if x.bits is not None:
            return None
        return x.num, x.den, x.r
    if is_symint(x) or type(x) is SymBool:
        if type(x) is SymBool:
            x = x.as_int()
        return x, 1, 0
    if isinstance(x, int):
        return int(x), 1, 0
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            return None
        n, d = x.as_integer_ratio()
        return n, d, 0
    return None


def mk_rat(num, den, r):
    if not is_sym(num):
        if r <= 1:
            return num / den
        return num / den
    # exactly representable results carry no rounding error
    lo, hi = int_parts(num)[1:]
    if r and den & (den - 1) == 0 and max(abs(lo), abs(hi)) <= 2 ** 53 and den <= 2 ** 900:
        r = 0
    return SymFloat(num, den, r)


def norm_round(num, den, r_in):
    lo, hi = int_parts(num)[1:]
    return mk_rat(num, den, r_in + 1)


def int_truediv(a, b):
    if type(a) is SymFloat or type(b) is SymFloat or isinstance(a, float) or isinstance(b, float):
        return float_bin('/', a, b)
    if type(a) is SymDecimal or type(b) is SymDecimal:
        return NotImplemented
    pa, pb = int_parts(a), int_parts(b)
    if pa is None or pb is None:
        return NotImplemented
    if is_sym(b):
        if t(int_cmp('==', b, 0)):
            raise ZeroDivisionError('division by zero')
        return quotient_float(a, b)
    if b == 0:
        raise ZeroDivisionError('division by zero')
    if b < 0:
        a, b = int_unary('-', a), -b
    return norm_round(a, int(b), 0)


class SymQuot(Sym):
    pass


def quotient_float(a, b):
    """int / int with a symbolic divisor"""
    q = SymFloat(None, 1, 1)
    q.num = ('quot', a, b)
    return q


def float_bin(op, a, b):
    if not (floatlike(a) and floatlike(b)):
        return NotImplemented
    for x in (a, b):
        if type(x) is SymFloat and (x.bits is not None or isinstance(x.num, tuple)):
            return native_float(op, a, b)
    ra, rb = as_rat(a), as_rat(b)
    if ra is None or rb is None:
        return native_float(op, a, b)
    (an, ad, ar), (bn, bd, br) = ra, rb
    # int operands are first converted to double
    if ar == 0 and not isinstance(a, float) and type(a) is not SymFloat:
        ar = conv_err(a)
    if br == 0 and not isinstance(b, float) and type(b) is not SymFloat:
        br = conv_err(b)
    r = ar + br
    if op == '*':
        num = int_bin('*', an, bn)
        return mk_rat(num, ad * bd, r + (0 if pow2(bn) or pow2(an) else 1))
    if op in ('+', '-'):
        num = int_bin(op, int_bin('*', an, bd), int_bin('*', bn, ad))
        # cancellation can enlarge a relative error: only sound when exact
        if r:
            return native_float(op, a, b)
        return mk_rat(num, ad * bd, 1)
    if op == '/':
        if not is_sym(bn):
            if bn == 0:
                raise ZeroDivisionError('float division by zero')
            num = int_bin('*', an, bd)
            den = ad * abs(bn)
            if bn < 0:
                num = int_unary('-', num)
            return mk_rat(num, den, r + 1)
    return native_float(op, a, b)


def pow2(n):
    return (not is_sym(n)) and n > 0 and n & (n - 1) == 0


def conv_err(x):
    lo, hi = int_parts(x)[1:]
    return 0 if max(abs(lo), abs(hi)) <= 2 ** 53 else 1


def native_float(op, a, b):
    import operator
    f = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv,
         '%': operator.mod, '**': operator.pow}[op]
    return f(num_native(a), num_native(b))


def num_native(x):
    if type(x) is SymFloat:
        if isinstance(x.num, tuple):
            _, a, b = x.num
            a = a.__index__() if is_sym(a) else a
            b = b.__index__() if is_sym(b) else b
            return a / b
        return x.native()
    if is_sym(x):
        return x.__index__()
    return x


def float_to_int(x, mode):
    """int(), floor, ceil of a float"""
    if type(x) is not SymFloat:
        return {'trunc': math.trunc, 'floor': math.floor, 'ceil': math.ceil, 'round': round}[mode](x)
    if x.bits is not None:
        return int(x.native()) if mode == 'trunc' else float_to_int(x.native(), mode)
    if isinstance(x.num, tuple):
        _, a, b = x.num
        # correctly rounded quotient of two symbolic integers
        q = int_bin('//', a, b)
        rem = int_bin('%', a, b)
        lo, hi = int_parts(a)[1:]
        if mode == 'floor':
            base = q
        elif mode == 'ceil':
            base = core.int_ite(int_cmp('==', rem, 0), q, int_bin('+', q, 1))
        else:
            neg = int_cmp('<', q, 0)
            adj = b_and(neg, int_cmp('!=', rem, 0))
            base = core.int_ite(adj, int_bin('+', q, 1), q)
        if max(abs(lo), abs(hi)) < 2 ** 53:
            return base
        return slack(base, a, 1, x, ('quot', mode))
    num, den, r = x.num, x.den, x.r
    if mode == 'trunc':
        base = trunc_div(num, den)
    elif mode == 'floor':
        base = int_bin('//', num, den)
    elif mode == 'ceil':
        base = int_unary('-', int_bin('//', int_unary('-', num), den))
    else:
        if not (r == 0 and den == 1):
            return round(x.native())
        base = num
    if r == 0:
        return base
    lo, hi = int_parts(num)[1:]
    m = max(abs(lo), abs(hi))
    # |error| <= r * 2^-53 * |num/den|; a rounding cannot reach the next integer
    # while that stays below the distance 1/den
    if r == 1 and m < 2 ** 52:
        return base
    return slack(base, num, den, x, mode, r)


def slack(base, num, den, x, key, r=1):
    """base plus a rounding slip: an over-approximation, confirmed by replay"""
    e = E()
    lo, hi = int_parts(num)[1:]
    m = max(abs(lo), abs(hi)) // den
    bound = max(1, (m * r >> 53) + 1)
    name = e.fresh('fround')
    w = width_for(-bound, bound)
    d = z3.BitVec(name, w)
    e.add(z3.And(d >= -bound, d <= bound))
    # a slip is only possible when num/den is near an integer
    e.approx = True
    e.state['float_slip'] = True
    return int_bin('+', base, mk_int(d, -bound, bound))


def float_cmp(op, a, b):
    if not (floatlike(a) and floatlike(b)):
        if op == '==':
            return NotImplemented
        if op == '!=':
            return NotImplemented
        return NotImplemented
    A, B = a, b
    for x in (a, b):
        if type(x) is SymFloat and isinstance(x.num, tuple):
            E().approx = True
            return native_cmp(op, num_native(a), num_native(b))
    if (type(a) is SymFloat and a.bits is not None) or (type(b) is SymFloat and b.bits is not None):
        fa, fb = to_fp(a), to_fp(b)
        if fa is None or fb is None:
            return native_cmp(op, num_native(a), num_native(b))
        return mk_bool({'==': lambda: z3.fpEQ(fa, fb), '!=': lambda: z3.Not(z3.fpEQ(fa, fb)),
                        '<': lambda: z3.fpLT(fa, fb), '<=': lambda: z3.fpLEQ(fa, fb),
                        '>': lambda: z3.fpGT(fa, fb), '>=': lambda: z3.fpGEQ(fa, fb)}[op]())
    ra, rb = as_rat(a), as_rat(b)
    if ra is None or rb is None:
        x = a if ra is None else b      # a native nan or inf
        if math.isnan(x):
            return op == '!='
        other = 0.0
        return native_cmp(op, x if ra is None else other, other if ra is None else x)
    (an, ad, ar), (bn, bd, br) = ra, rb
    # correctly rounded values of the same denominator compare weakly monotonically;
    # equality of distinct rationals below 2^53 implies equality of numerators
    x, y = int_bin('*', an, bd), int_bin('*', bn, ad)
    exact = int_cmp(op, x, y)
    if ar == 0 and br == 0:
        return exact
    if not is_sym(bn) and bn == 0 or not is_sym(an) and an == 0:
        return exact        # rounding keeps the sign
    if ar <= 1 and br <= 1:
        small = True
        for n, d in ((an, ad), (bn, bd)):
            lo, hi = int_parts(n)[1:]
            if max(abs(lo), abs(hi)) >= 10 ** 15 or d not in (1, 10, 10 ** 8) :
                small = False
        if small:
            return exact    # decimals of at most 15 significant digits stay distinct and ordered
    e = E()
    e.approx = True
    key = ('fcmp', op, str(an), str(bn), ad, bd)
    return mk_bool(z3.Or(core.b_term(exact), z3.Bool(e.fresh('fcmp')))) if op in ('==', '<=', '>=') else exact


def native_cmp(op, a, b):
    return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]


def to_fp(x):
    if type(x) is SymFloat:
        if x.bits is not None:
            return x.fp()
        return None
    if is_symint(x):
        return None
    return z3.FPVal(float(x), z3.Float64())


# --------------------------------------------------------------------------
class SymDecimal(Sym):
    """exact decimal num / 10**scale (results beyond 28 digits are not modelled)"""
    __slots__ = ('num', 'scale')

    def __init__(self, num, scale):
        self.num, self.scale = num, scale

    @property
    def __class__(self):
        return decimal.Decimal

    def native(self):
        n = self.num.__index__() if is_sym(self.num) else self.num
        return decimal.Decimal(n).scaleb(-self.scale)

    def __hash__(self):
        return hash(self.native())

    def __bool__(self):
        return t(int_cmp('!=', self.num, 0))

    def __int__(self):
        return int(self.native())

    def __trunc__(self):
        return trunc_div(self.num, 10 ** self.scale)

    def __floor__(self):
        return int_bin('//', self.num, 10 ** self.scale)

    def __ceil__(self):
        return int_unary('-', int_bin('//', int_unary('-', self.num), 10 ** self.scale))

    def __str__(self):
        return str(self.native())

    __repr__ = __str__

    def __format__(self, spec):
        return format(self.native(), spec)

    def is_nan(self):
        return False

    is_infinite = is_snan = is_qnan = is_nan

    def is_finite(self):
        return True

    def is_signed(self):
        return int_cmp('<', self.num, 0)

    def is_zero(self):
        return int_cmp('==', self.num, 0)

    def scaleb(self, n, context=None):
        n = n.__index__()
        if self.scale - n >= 0:
            return dec(self.num, self.scale - n, context)
        return dec(int_bin('*', self.num, 10 ** (n - self.scale)), 0, context)

    def to_integral_value(self, rounding=None, context=None):
        if rounding is None:
            rounding = (context or decimal.getcontext()).rounding
        r = rounded(self.num, 10 ** self.scale, rounding)
        return SymDecimal(r, 0)

    to_integral = to_integral_exact = to_integral_value

    def quantize(self, exp, rounding=None, context=None):
        ex = exp.scale if type(exp) is SymDecimal else -exp.as_tuple().exponent
        context = context or decimal.getcontext()
        rounding = rounding or context.rounding
        if ex >= self.scale:
            r = int_bin('*', self.num, 10 ** (ex - self.scale))
        else:
            r = rounded(self.num, 10 ** (self.scale - ex), rounding)
        if t(b_or(int_cmp('>=', r, 10 ** context.prec), int_cmp('<=', r, -10 ** context.prec))):
            raise decimal.InvalidOperation('quantize result has too many digits for current context')
        return SymDecimal(r, ex)

    def normalize(self, context=None):
        return self

    def __neg__(self):
        return dec(int_unary('-', self.num), self.scale)

    def __abs__(self):
        return dec(int_unary('abs', self.num), self.scale)

    def __pos__(self):
        return dec(self.num, self.scale)

    def copy_abs(self):
        return SymDecimal(int_unary('abs', self.num), self.scale)

    def copy_negate(self):
        return SymDecimal(int_unary('-', self.num), self.scale)

    def compare(self, o, context=None):
        return SymDecimal(core.int_ite(self.cmp_with('<', o), -1, core.int_ite(self.cmp_with('>', o), 1, 0)), 0)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        E().notes.add('Decimal.%s called with symbolic arguments: concretised' % name)
        return getattr(self.native(), name)

    def __float__(self):
        return float(self.native())

    def __round__(self, nd=None):
        if nd is None:
            return rounded(self.num, 10 ** self.scale, 'ROUND_HALF_EVEN')
        return self.quantize(decimal.Decimal(1).scaleb(-nd))

    def as_tuple(self):
        return self.native().as_tuple()

    def cmp_with(self, op, o, swapped=False):
        d = to_dec(o)
        if d is None:
            if op == '==':
                return False
            if op == '!=':
                return True
            return NotImplemented
        s = max(self.scale, d.scale)
        x = int_bin('*', self.num, 10 ** (s - self.scale))
        y = int_bin('*', d.num, 10 ** (s - d.scale))
        return int_cmp(op, y, x) if swapped else int_cmp(op, x, y)

    def arith(self, op, o, swapped, context=None):
        if type(o) is SymFloat or isinstance(o, float):
            raise TypeError('unsupported operand type(s): Decimal and float')
        d = to_dec(o)
        if d is None:
            return NotImplemented
        a, b = (d, self) if swapped else (self, d)
        if op == '*':
            return dec(int_bin('*', a.num, b.num), a.scale + b.scale, context)
        s = max(a.scale, b.scale)
        x = int_bin('*', a.num, 10 ** (s - a.scale))
        y = int_bin('*', b.num, 10 ** (s - b.scale))
        if op in '+-':
            return dec(int_bin(op, x, y), s, context)
        if is_sym(y):
            return decimal_native(op, a, b)
        if y == 0:
            raise decimal.DivisionByZero() if op == '/' else decimal.InvalidOperation()
        if op == '//':
            q = trunc_div(x, abs(y))
            return dec(q if y > 0 else int_unary('-', q), 0, context)
        if op == '%':
            q = trunc_div(x, abs(y))
            return dec(int_bin('-', x, int_bin('*', q, abs(y))), s, context)
        if op == '/':
            v = abs(y)
            k = 0
            while v % 10 == 0:
                v //= 10
                k += 1
            while v % 2 == 0 or v % 5 == 0:
                if v % 2 == 0:
                    v //= 2
                    x = int_bin('*', x, 5)
                else:
                    v //= 5
                    x = int_bin('*', x, 2)
                k += 1
            if v == 1:
                return dec(x if y > 0 else int_unary('-', x), k, context)
        return decimal_native(op, a, b)


def decimal_native(op, a, b):
    import operator
    f = {'//': operator.floordiv, '%': operator.mod, '/': operator.truediv}[op]
    return f(a.native() if is_sym(a) else a, b.native() if is_sym(b) else b)


for _op, _n in (('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('//', 'floordiv'), ('%', 'mod'), ('/', 'truediv')):
    setattr(SymDecimal, '__%s__' % _n, (lambda op: lambda self, o: self.arith(op, o, False))(_op))
    setattr(SymDecimal, '__r%s__' % _n, (lambda op: lambda self, o: self.arith(op, o, True))(_op))
for _op, _n in (('==', 'eq'), ('!=', 'ne'), ('<', 'lt'), ('<=', 'le'), ('>', 'gt'), ('>=', 'ge')):
    setattr(SymDecimal, '__%s__' % _n, (lambda op: lambda self, o: self.cmp_with(op, o))(_op))


def dec(num, scale, context=None):
    """num / 10**scale as a decimal operation gives it: rounded to the precision of the context"""
    c = context or decimal.getcontext()
    if not is_sym(num):
        lo = hi = num
    else:
        lo, hi = int_parts(num)[1:]
    m = max(abs(lo), abs(hi))
    p = 10 ** c.prec
    if m < p:
        return SymDecimal(num, scale)
    a = int_unary('abs', num) if is_sym(num) else abs(num)
    if t(int_cmp('<', a, p)):
        return SymDecimal(num, scale)
    k = 1
    while m >= p * 10 ** k and not t(int_cmp('<', a, p * 10 ** k)):
        k += 1
    r = rounded(num, 10 ** k, c.rounding)
    return SymDecimal(int_bin('*', r, 10 ** k) if is_sym(r) else r * 10 ** k, scale)


def context_method(c, name, a):
    """a method of decimal.Context with symbolic arguments"""
    def D(x):
        d = to_dec(x)
        if d is None:
            raise TypeError('conversion to Decimal is not supported')
        return d
    if name == 'create_decimal':
        d = make_decimal(*a)
        return dec(d.num, d.scale, c) if type(d) is SymDecimal else c.create_decimal(d)
    ops = {'multiply': '*', 'add': '+', 'subtract': '-', 'divide': '/', 'divide_int': '//', 'remainder': '%'}
    if name in ops:
        r = D(a[0]).arith(ops[name], D(a[1]), False, c)
        return r
    if name in ('plus', 'abs', 'minus'):
        d = D(a[0])
        n = d.num if name == 'plus' else int_unary('abs' if name == 'abs' else '-', d.num)
        return dec(n, d.scale, c)
    if name in ('quantize', 'scaleb'):
        return getattr(D(a[0]), name)(a[1], context=c)
    if name in ('to_integral_value', 'to_integral_exact'):
        return D(a[0]).to_integral_value(context=c)
    return NotImplemented


def rounded(num, den, mode):
    mode = mode or 'ROUND_HALF_EVEN'
    if mode == 'ROUND_DOWN':
        return trunc_div(num, den)
    if mode == 'ROUND_FLOOR':
        return int_bin('//', num, den)
    if mode == 'ROUND_CEILING':
        return int_unary('-', int_bin('//', int_unary('-', num), den))
    if mode in ('ROUND_UP', 'ROUND_HALF_EVEN', 'ROUND_HALF_UP', 'ROUND_HALF_DOWN'):
        a = int_unary('abs', num)
        q = int_bin('//', a, den)
        r2 = int_bin('*', int_bin('%', a, den), 2)
        up = int_cmp('>', r2, den)
        tie = int_cmp('==', r2, den)
        if mode == 'ROUND_UP':
            up = int_cmp('!=', r2, 0)
        elif mode == 'ROUND_HALF_UP':
            up = b_or(up, tie)
        elif mode == 'ROUND_HALF_EVEN':
            up = b_or(up, b_and(tie, int_cmp('==', int_bin('%', q, 2), 1)))
        q = core.int_ite(up, int_bin('+', q, 1), q) if is_sym(up) else (int_bin('+', q, 1) if up else q)
        neg = int_cmp('<', num, 0)
        return core.int_ite(neg, int_unary('-', q), q)
    raise PathIncomplete('decimal rounding mode %s' % mode)


def to_dec(o):
    if type(o) is SymDecimal:
        return o
    if is_symint(o):
        return SymDecimal(o, 0)
    if isinstance(o, bool) or isinstance(o, int):
        return SymDecimal(int(o), 0)
    if isinstance(o, decimal.Decimal):
        if not o.is_finite():
            raise PathIncomplete('non-finite decimal with a symbolic one')
        s, d, e = o.as_tuple()
        v = int(''.join(map(str, d))) * (-1 if s else 1)
        return SymDecimal(v * 10 ** max(e, 0), max(-e, 0))
    return None


def make_decimal(x=0, context=None):
    if is_symint(x):
        return SymDecimal(int_plain(x), 0)
    if type(x) is SymBool:
        return SymDecimal(x.as_int(), 0)
    if type(x) is SymDecimal:
        return x
    if type(x) is SymFloat:
        if x.bits is None and x.r == 0 and pow2(x.den):
            k = x.den.bit_length() - 1
            return SymDecimal(int_bin('*', x.num, 5 ** k), k)
        return decimal.Decimal(x.native())
    if SymStr in type(x).__mro__:
        p = parse_decimal_plain(x)
        if p is not None:
            return SymDecimal(*p)
        r = scan_number(x)
        if r is None:
            # Decimal also knows sNaN and NaN with digits
            if len(x) >= 4 and t(seqs.has_letters(x, 'nN')):
                return decimal.Decimal(x.native())
            raise decimal.InvalidOperation([decimal.ConversionSyntax])
        return SymDecimal(*r[1:]) if r[0] == 'dec' else decimal.Decimal(r[1])
    return decimal.Decimal(x)


# ---- text <-> numbers ---------------------------------------------------------
class PadText(NumText):
    """decimal digits padded with zeros to a fixed width"""
    fixed_width = True

    def __init__(self, x, width):
        NumText.__init__(self, x, 10)
        self.width = width

    def key(self):
        return ('pad', self.width)

    def equals(self, s):
        return None

    def force(self):
        out = []
        y = self.x
        if is_sym(y) and self.width > 10:
            return seqs.digit_vars(y, self.width)
        for i in range(self.width):
            d = int_bin('%', y, 10)
            out.append(z3.simplify(resize(d.bv, 0, CW) + 48) if is_sym(d) else d + 48)
            y = int_bin('//', y, 10)
        out.reverse()
        return out


class FixText(NumText):
    """repr() of the double nearest to num / 10**scale, |num| < 10**15:
    the shortest decimal text, i.e. that decimal itself."""

    def __init__(self, num, scale):
        NumText.__init__(self, num, 10)
        self.num, self.scale = num, scale

    def key(self):
        return ('fix', self.scale)

    def equals(self, s):
        try:
            f = float(s)
        except ValueError:
            return False
        if repr(f) != s or f != f or f in (math.inf, -math.inf):
            return False
        v = decimal.Decimal(s).scaleb(self.scale)
        if v != int(v):
            return False
        return int_cmp('==', self.num, int(v))

    def integral(self):
        return int_cmp('==', int_bin('%', self.num, 10 ** self.scale), 0)

    def getitem(self, k):
        if isinstance(k, slice) and k.step is None and not is_sym(k.start) and not is_sym(k.stop):
            if k.start == -2 and k.stop is None:
                return '.0' if t(self.integral()) else LazyStr([FixTail(self)])
            if k.start in (None, 0) and k.stop == -2 and t(self.integral()):
                return seqs.num_text(trunc_div(self.num, 10 ** self.scale))
        return None

    def force(self):
        """the characters, forking on sign, number of digits and trailing zeros"""
        n = self.num
        if not is_sym(n):
            return [ord(c) for c in repr(n / 10 ** self.scale)]
        out = []
        if t(int_cmp('==', n, 0)):
            return [48, 46, 48]
        if t(int_cmp('<', n, 0)):
            out.append(45)
            n = int_unary('-', n)
        S = self.scale
        ip, fp = int_bin('//', n, 10 ** S), int_bin('%', n, 10 ** S)
        if t(int_cmp('==', fp, 0)):
            return out + NumText(ip).force() + [46, 48]
        tz = 0
        while tz < S - 1 and t(int_cmp('==', int_bin('%', fp, 10 ** (tz + 1)), 0)):
            tz += 1
        if S > 4 and t(int_cmp('<', n, 10 ** (S - 4))):
            # scientific notation
            m = int_bin('//', n, 10 ** tz)
            ds = NumText(m).force()
            e = S - tz - (len(ds) - 1)
            return out + ds[:1] + ([46] + ds[1:] if len(ds) > 1 else []) + [ord(c) for c in 'e-%02d' % e]
        frac = PadText(int_bin('//', fp, 10 ** tz), S - tz).force()
        return out + NumText(ip).force() + [46] + frac


class FixTail(NumText):
    """the last two characters of the text of a number that is not whole"""
    def __init__(self, whole):
        NumText.__init__(self, whole.num, 10)
        self.whole = whole

    def key(self):
        return ('tail', self.whole.scale)

    def equals(self, s):
        if s == '.0' or len(s) != 2:
            return False
        return None

    def getitem(self, k):
        return None

    def force(self):
        return self.whole.force()[-2:]


class OpaqueText(NumText):
    """text that only exists once it is looked at"""

    def __init__(self, fn):
        self.fn = fn
        self.x = None

    def key(self):
        return id(self)

    def equals(self, s):
        return None

    def getitem(self, k):
        return None

    def force(self):
        return [ord(c) for c in self.fn()]


def opaque(fn):
    return LazyStr([OpaqueText(fn)])


def parse_decimal(s):
    """(num, scale) of decimal text; None when it is not a finite number"""
    p = parse_decimal_plain(s)
    if p is not None:
        return p
    r = scan_number(s)
    return r[1:] if r is not None and r[0] == 'dec' else None


def parse_decimal_plain(s):
    """(num, scale) of text whose making is known"""
    parts = s.parts if type(s) is LazyStr else None
    if parts is not None:
        ps = [p for p in parts if not (type(p) is str and p == '')]
        if len(ps) == 1 and isinstance(ps[0], FixText):
            return ps[0].num, ps[0].scale
        if len(ps) == 1 and type(ps[0]) is NumText and ps[0].base == 10 and not ps[0].prefix:
            return ps[0].x, 0
        if len(ps) == 2 and type(ps[0]) is NumText and ps[0].base == 10 and not ps[0].prefix and type(ps[1]) is str:
            import re
            m = re.fullmatch(r'(?:\.(0*))?(?:[eE]([+-]?[0-9]{1,3}))?', ps[1])
            if m:
                ex = int(m.group(2) or 0)
                fr = len(m.group(1) or '')
                return int_bin('*', ps[0].x, 10 ** (fr + max(ex, 0))), fr + max(-ex, 0)
        neg = False
        if ps and type(ps[0]) is str and ps[0] == '-':
            neg, ps = True, ps[1:]
        if len(ps) == 3 and ps[1] == '.' and type(ps[0]) is NumText and ps[0].base == 10 and not ps[0].prefix and \
                isinstance(ps[2], PadText):
            lo = int_parts(ps[0].x)[1]
            if lo >= 0:
                v = int_bin('+', int_bin('*', ps[0].x, 10 ** ps[2].width), ps[2].x)
                return (int_unary('-', v) if neg else v), ps[2].width
    return None


WS = (9, 10, 11, 12, 13, 28, 29, 30, 31, 32)


def ch_in(c, vals):
    """condition: the character is one of vals (a bool when decided)"""
    if isinstance(c, int):
        return c in vals
    vals = sorted(vals)
    if len(vals) > 3 and vals[-1] - vals[0] == len(vals) - 1:
        r = z3.simplify(z3.And(z3.UGE(c, vals[0]), z3.ULE(c, vals[-1])))
    else:
        r = z3.simplify(z3.Or(*[c == v for v in vals]))
    return True if z3.is_true(r) else False if z3.is_false(r) else r


def all_in(conds):
    """fork on a conjunction of decided and symbolic conditions"""
    if any(c is False for c in conds):
        return False
    zs = [c for c in conds if c is not True]
    return bool(not zs or E().fork(z3.And(*zs)))


DIG = tuple(range(48, 58))


def plain_ascii(chs, why):
    """underscores and characters beyond ASCII have rules of their own"""
    odd = []
    for c in chs:
        if isinstance(c, int):
            if c >= 128 or c == 95:
                raise PathIncomplete(why)
        else:
            o = z3.simplify(z3.Or(z3.UGE(c, 128), c == 95))
            if z3.is_true(o):
                raise PathIncomplete(why)
            if not z3.is_false(o):
                odd.append(o)
    if odd and E().fork(z3.Or(*odd)):
        raise PathIncomplete(why)


def stripped(chs):
    while chs and all_in([ch_in(chs[0], WS)]):
        chs.pop(0)
    while chs and all_in([ch_in(chs[-1], WS)]):
        chs.pop()
    return chs


def scan_integer(s):
    """(negative, digits) of text in int()'s syntax, or None"""
    chs = list(chs_of(s))
    plain_ascii(chs, 'integer text with underscores or characters beyond ASCII')
    chs = stripped(chs)
    neg = False
    if chs and all_in([ch_in(chs[0], (45,))]):
        neg, chs = True, chs[1:]
    elif chs and all_in([ch_in(chs[0], (43,))]):
        chs = chs[1:]
    if not chs or not all_in([ch_in(c, DIG) for c in chs]):
        return None
    return neg, chs


def scan_number(s):
    """The syntax float() and Decimal() share, over symbolic characters:
    ('dec', num, scale), ('special', text) or None when it is no number.
    Forks on the shape of the text (signs, dot, exponent, white space)."""
    chs = list(chs_of(s))
    plain_ascii(chs, 'number text with underscores or characters beyond ASCII')
    chs = stripped(chs)
    if not chs:
        return None
    neg = False
    if all_in([ch_in(chs[0], (45,))]):
        neg, chs = True, chs[1:]
    elif all_in([ch_in(chs[0], (43,))]):
        chs = chs[1:]
    n = len(chs)
    for w in ('inf', 'infinity', 'nan'):
        if len(w) == n and all_in([ch_in(c, (ord(k), ord(k.upper()))) for c, k in zip(chs, w)]):
            return 'special', ('-' if neg else '') + w
    # leading digits, a dot, digits, an exponent
    i = 0
    while i < n and all_in([ch_in(chs[i], DIG)]):
        i += 1
    digs, scale = chs[:i], 0
    if i < n and all_in([ch_in(chs[i], (46,))]):
        i += 1
        j = i
        while i < n and all_in([ch_in(chs[i], DIG)]):
            i += 1
        digs = digs + chs[j:i]
        scale = i - j
    if not digs:
        return None
    ex = 0
    if i < n:
        if not all_in([ch_in(chs[i], (69, 101))]):
            return None
        i += 1
        eneg = False
        if i < n and all_in([ch_in(chs[i], (45,))]):
            eneg, i = True, i + 1
        elif i < n and all_in([ch_in(chs[i], (43,))]):
            i += 1
        if i == n:
            return None
        ex = parse_digits(chs[i:], 10)
        if ex is None:
            return None
        if is_sym(ex):
            lo, hi = int_parts(ex)[1:]
            for v in range(min(hi, 400) + 1):
                if v == hi or t(int_cmp('==', ex, v)):
                    ex = v
                    break
            else:
                raise PathIncomplete('number text with an exponent beyond 400')
        if eneg:
            ex = -ex
    v = parse_digits(digs, 10)
    if neg:
        v = int_unary('-', v) if is_sym(v) else -v
    if ex > 0:
        k = min(ex, scale)
        scale -= k
        ex -= k
        if ex > 400:
            if not t(int_cmp('==', v, 0)):
                raise PathIncomplete('number text with an exponent beyond 400')
            ex = 0
        v = int_bin('*', v, 10 ** ex) if is_sym(v) else v * 10 ** ex
    else:
        scale -= ex
    return 'dec', v, scale


def parse_digits(chs, base, fork=True):
    """value of digit characters; None when some is not a digit"""
    if not chs:
        return None
    if base == 16:
        nibs, conds = [], []
        for c in chs:
            v, ok = seqs.char_nib(c)
            if ok is False:
                return None
            if ok is not True:
                conds.append(ok)
            nibs.append(z3.BitVecVal(v, 4) if isinstance(v, int) else v)
        if conds and not E().fork(z3.And(*conds)):
            return None
        tt = z3.Concat(*nibs) if len(nibs) > 1 else nibs[0]
        return mk_int(z3.ZeroExt(1, tt), 0, 16 ** len(nibs) - 1)
    top = 48 + base - 1
    conds = []
    for c in chs:
        if isinstance(c, int):
            if not 48 <= c <= top:
                return None
        else:
            conds.append(z3.And(z3.UGE(c, 48), z3.ULE(c, top)))
    conds = [c for c in (z3.simplify(c) for c in conds) if not z3.is_true(c)]
    if conds and not E().fork(z3.And(*conds)):
        return None
    acc = 0
    for c in chs:
        d = c - 48 if isinstance(c, int) else mk_int(z3.ZeroExt(1, z3.simplify(z3.Extract(3, 0, c))), 0, base - 1)
        acc = int_bin('+', int_bin('*', acc, base), d) if (is_sym(acc) or is_sym(d)) else acc * base + d
    return acc


def int_of_text(s, base=10):
    """int(text[, base])"""
    if SymStr not in type(s).__mro__:
        return int(s, base)
    if type(s) is LazyStr and s._chs is None and len(s.parts) == 1:
        p = s.parts[0]
        if type(p) is NumText and p.base == base or (type(p) is NumText and p.base == 16 and base in (0, 16) and p.prefix == '0x'):
            return int_plain(p.x)
        if isinstance(p, PadText) and base == 10:
            return int_plain(p.x)
        if isinstance(p, FixText):
            raise ValueError('invalid literal for int()')
    if type(s) is LazyStr and s._chs is None and base == 10 and all(isinstance(p, PadText) or type(p) is NumText and p.base == 10 for p in s.parts):
        acc = 0
        for i, p in enumerate(s.parts):
            if i and not isinstance(p, PadText):
                break
            if i and int_parts(acc)[1] < 0:
                break
            acc = int_bin('+', int_bin('*', acc, 10 ** p.width), p.x) if i else p.x
        else:
            return acc
    if base == 10:
        chs = scan_integer(s)
        if chs is None:
            raise ValueError('invalid literal for int() with base 10')
        neg, chs = chs
        v = parse_digits(chs, 10)
        return (int_unary('-', v) if is_sym(v) else -v) if neg else v
    chs = list(chs_of(s))
    ws = (9, 10, 11, 12, 13, 32)
    while chs and isinstance(chs[0], int) and chs[0] in ws:
        chs.pop(0)
    while chs and isinstance(chs[-1], int) and chs[-1] in ws:
        chs.pop()
    neg = False
    if chs and isinstance(chs[0], int) and chs[0] in (43, 45):
        neg = chs[0] == 45
        chs = chs[1:]
    if len(chs) > 2 and base in (16, 2, 8, 0) and chs[0] == 48 and isinstance(chs[1], int) and \
            chr(chs[1]) in {16: 'xX', 2: 'bB', 8: 'oO', 0: 'xXbBoO'}[base]:
        if base == 0:
            base = {'x': 16, 'b': 2, 'o': 8}[chr(chs[1]).lower()]
        chs = chs[2:]
    if base not in (2, 8, 10, 16):
        raise PathIncomplete('int() with base %d of symbolic text' % base)
    v = parse_digits(chs, base)
    if v is not None:
        return (int_unary('-', v) if is_sym(v) else -v) if neg else v
    # not plain digits: white space, signs, underscores, prefixes and non-ASCII digits stay outside
    odd = []
    for c in chs:
        if isinstance(c, int):
            if c >= 128 or chr(c) in '_+- \t\n\r\x0b\x0cxXbBoO':
                odd.append(z3.BoolVal(True))
        else:
            odd.append(z3.Or(z3.UGE(c, 128), *[c == ord(k) for k in '_+- \t\n\r\x0b\x0cxXbBoO']))
    if odd and any(is_z3(c) for c in chs) and E().fork(z3.Or(*odd)):
        if not any(is_z3(c) for c in chs):
            raise ValueError('invalid literal for int()')
        raise PathIncomplete('int() of text with signs, spaces, prefixes or underscores at symbolic positions')
    if not any(is_z3(c) for c in chs):
        return int(''.join(map(chr, chs_of(s))), base)
    raise ValueError('invalid literal for int() with base %d' % base)


def float_of(x):
    if type(x) is SymFloat:
        return x
    if is_symint(x) or type(x) is SymBool:
        if type(x) is SymBool:
            x = x.as_int()
        return SymFloat(int_plain(x), 1, conv_err(x))
    if type(x) is SymDecimal:
        return SymFloat(x.num, 10 ** x.scale, 1)
    if SymStr in type(x).__mro__:
        p = parse_decimal_plain(x)
        if p is None:
            p = scan_number(x)
            if p is None:
                raise ValueError('could not convert string to float')
            if p[0] == 'special':
                return float(p[1])
            p = p[1:]
        if not is_sym(p[0]):
            return float(decimal.Decimal(p[0]).scaleb(-p[1]))
        lo, hi = int_parts(p[0])[1:]
        big = 10 ** (308 + p[1])
        if max(abs(lo), abs(hi)) >= big:
            if t(int_cmp('>=', p[0], big * 18 // 10)):
                return math.inf
            if t(int_cmp('<=', p[0], -big * 18 // 10)):
                return -math.inf
            if t(int_cmp('>=', p[0], big)) or t(int_cmp('<=', p[0], -big)):
                raise PathIncomplete('float of text near the largest double')
        return SymFloat(p[0], 10 ** p[1], 0 if p[1] == 0 and conv_err(p[0]) == 0 else 1)
    return float(x)


def text_of(x):
    """str(x)"""
    if SymStr in type(x).__mro__:
        return x
    if type(x) is SymBool:
        return 'True' if bool(x) else 'False'
    if is_symint(x):
        f = x.__class__.__str__
        return seqs.num_text(x)
    if type(x) is SymFloat:
        return float_text(x)
    if type(x) is SymDecimal:
        if x.scale == 0:
            return seqs.num_text(x.num)
        return opaque(lambda: str(x.native()))
    if isinstance(x, seqs.SymSeqB):
        return opaque(lambda: str(x.native()))
    return str(x)


def float_text(x):
    if x.bits is None and not isinstance(x.num, tuple) and x.r <= 1:
        d = x.den
        k = 0
        while d % 10 == 0:
            d //= 10
            k += 1
        lo, hi = int_parts(x.num)[1:]
        if d == 1 and k > 0:
            if max(abs(lo), abs(hi)) < 10 ** 15:
                return LazyStr([FixText(x.num, k)])
            if t(b_and(int_cmp('<', x.num, 10 ** 15), int_cmp('>', x.num, -10 ** 15))):
                b = core.SymInt(x.num.bv, max(lo, -10 ** 15 + 1), min(hi, 10 ** 15 - 1)) if is_sym(x.num) else x.num
                w = width_for(b.lo, b.hi)
                b.bv = resize(b.bv, lo, w)
                return LazyStr([FixText(b, k)])
        if d == 1 and k == 0 and x.r == 0 and max(abs(lo), abs(hi)) <= 2 ** 53:
            return LazyStr([NumText(x.num), '.0'])
        if d == 1 and k == 0 and max(abs(lo), abs(hi)) < 10 ** 15:
            return LazyStr([FixText(int_bin('*', x.num, 10), 1)]) if max(abs(lo), abs(hi)) < 10 ** 14 else \
                LazyStr([NumText(x.num), '.0'])
    return opaque(lambda: repr(x.native()))


def format_value(x, spec):
    """format(x, spec)"""
    if is_sym(spec):
        spec = spec.native()
    if spec == '' or spec is None:
        return text_of(x)
    if type(x) is SymBool and spec in ('d', 'x', '02x'):
        x = x.as_int()
        if not is_sym(x):
            return format(x, spec)
    if is_symint(x):
        if spec == 'd':
            return seqs.num_text(x)
        if spec in ('x', 'X', 'b', 'o'):
            return seqs.num_text(x, {'x': 16, 'X': 16, 'b': 2, 'o': 8}[spec], '', spec == 'X')
        if spec in ('#x', '#b', '#o'):
            return seqs.num_text(x, {'x': 16, 'b': 2, 'o': 8}[spec[1]], '0' + spec[1])
        import re
        m = re.fullmatch(r'0(\d+)([dxXb]?)', spec)
        if m:
            w, k = int(m.group(1)), m.group(2) or 'd'
            lo, hi = int_parts(x)[1:]
            if k == 'd' and lo >= 0 and hi < 10 ** w:
                return LazyStr([PadText(x, w)])
            s = seqs.num_text(x, {'x': 16, 'X': 16, 'b': 2, 'd': 10}[k], '', k == 'X')
            if k != 'd' and lo >= 0:
                bits = {'x': 4, 'X': 4, 'b': 1}[k]
                if hi < (1 << (bits * w)):
                    tt = resize(x.bv, lo, bits * w)
                    out = []
                    for i in range(w - 1, -1, -1):
                        d = z3.simplify(z3.Extract(bits * i + bits - 1, bits * i, tt))
                        out.append(seqs.nib_char(d, CW, k == 'X') if bits == 4 else
                                   core.norm_elem(z3.simplify(z3.ZeroExt(CW - 1, d) + 48)))
                    return mk_str(out)
            if not seqs.t(int_cmp('<', x, 0)):
                return s.zfill(w)
        return format(x.__index__(), spec)
    if type(x) is SymFloat or type(x) is SymDecimal:
        import re
        m = re.fullmatch(r'\.(\d+)f', spec)
        if m and (type(x) is SymDecimal):
            k = int(m.group(1))
            if k == x.scale and k > 0:
                neg = int_cmp('<', x.num, 0)
                a = x.num
                sign = []
                if t(neg):
                    a = int_unary('-', a)
                    sign = ['-']
                return LazyStr(sign + [NumText(int_bin('//', a, 10 ** k)), '.', PadText(int_bin('%', a, 10 ** k), k)])
        return opaque(lambda: format(x.native(), spec))
    if isinstance(x, seqs.SymSeqBase):
        return format(x.native(), spec)
    return format(x, spec)


def join_parts(parts):
    out = []
    for p in parts:
        if type(p) is LazyStr and p._chs is None:
            out += p.parts
        elif p is not None and not (type(p) is str and p == ''):
            out.append(p)
    if all(type(p) is str for p in out):
        return ''.join(out)
    merged = []
    for p in out:
        if merged and type(p) is str and type(merged[-1]) is str:
            merged[-1] += p
        else:
            merged.append(p)
    if all(type(p) is str or (isinstance(p, SymStr) and type(p) is not LazyStr) for p in merged):
        chs = []
        for p in merged:
            chs += chs_of(p)
        return mk_str(chs)
    return LazyStr(merged)


def text_call(x):
    from . import runtime
    return runtime.RT.call(str, x)


def percent_format(fmt, args, as_bytes=False):
    import re
    if SymStr in type(fmt).__mro__:
        fmt = fmt.native()
    if isinstance(args, tuple):
        argl = list(args)
        mapping = None
    else:
        argl = [args]
        mapping = args if isinstance(args, dict) else None
    out = []
    pos = 0
    ai = 0
    for m in re.finditer(r'%(?:\((\w+)\))?([-#0 +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)', fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        name, flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append('%')
            continue
        if width == '*':
            width = str(argl[ai])
            ai += 1
        if name is not None:
            v = mapping[name.encode('latin-1') if as_bytes else name]
        else:
            if ai >= len(argl):
                raise TypeError('not enough arguments for format string')
            v = argl[ai]
            ai += 1
        if as_bytes and conv in 'sb':
            if seqs.els_of(v) is None:
                raise TypeError("%%b requires a bytes-like object, or an object that implements __bytes__, not '%s'" % type(v).__name__)
            v, conv = mk_str([seqs.to_char(e) for e in seqs.els_of(v)]), 's'
        elif as_bytes and conv == 'c' and seqs.els_of(v) is not None:
            v = mk_str([seqs.to_char(e) for e in seqs.els_of(v)])
        out.append(percent_one(v, flags, width, prec, conv))
    out.append(fmt[pos:])
    if mapping is None and ai != len(argl):
        raise TypeError('not all arguments converted during string formatting')
    return join_parts(out)


def percent_one(v, flags, width, prec, conv):
    plain = not flags and not width and prec is None
    if conv == 's':
        s = text_call(v)
        if plain:
            return s
        if is_sym(s):
            s = s.native()
        return ('%' + flags + (width or '') + ('.' + prec if prec else '') + 's') % s
    if conv in 'ra':
        if is_sym(v):
            return opaque(lambda: repr(v.native()) if hasattr(v, 'native') else repr(v.__index__()))
        return '%r' % (v,)
    if is_sym(v):
        if conv in 'diu' and type(v) is SymFloat:
            v = float_to_int(v, 'trunc')
        if conv in 'diuxXob':
            k = 'd' if conv in 'diu' else conv
            if not (is_symint(v) or type(v) is SymBool):
                if is_sym(v):
                    raise TypeError('%%%s format: a real number is required' % conv)
                return ('%' + flags + (width or '') + conv) % v
            if plain:
                return format_value(v, k)
            if flags == '0' and width and prec is None:
                return format_value(v, '0' + width + k)
            if flags == '#' and k in 'xo' and not width:
                return format_value(v, '#' + k)
            x = v.__index__()
            return ('%' + flags + (width or '') + ('.' + prec if prec else '') + conv) % x
        if conv in 'feg':
            n = num_native(v) if not isinstance(v, SymDecimal) else v.native()
            return ('%' + flags + (width or '') + ('.' + prec if prec else '') + conv) % n
        if conv == 'c':
            if is_symint(v):
                return mk_str([z3.simplify(resize(v.bv, v.lo, CW))])
            return v
    return ('%' + flags + (width or '') + ('.' + prec if prec is not None else '') + conv) % (v,)


def str_format(fmt, args, kw):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        if field == '':
            v = args[auto]
            auto += 1
        else:
            import re
            m = re.match(r'^[^.\[]*', field)
            key = m.group(0)
            if key == '':
                v = args[auto]
                auto += 1
            else:
                v = args[int(key)] if key.isdigit() else kw[key]
            for a, i in re.findall(r'\.(\w+)|\[([^\]]+)\]', field[len(key):]):
                v = getattr(v, a) if a else v[int(i) if i.lstrip('-').isdigit() else i]
        if spec and '{' in spec:
            spec = str_format(spec, args, kw)
        out.append(format_one(v, conv, spec or ''))
    return join_parts(out)


def format_one(v, conv, spec):
    if conv in ('r', ord('r')):
        if is_sym(v):
            return opaque(lambda: repr(v.native()) if hasattr(v, 'native') else repr(v.__index__()))
        return format(repr(v), spec)
    if conv in ('s', ord('s')):
        v = text_call(v)
    if is_sym(v):
        return format_value(v, spec)
    if spec == '':
        return text_call(v)
    return format(v, spec)
