"""Symbolic values and the path explorer.

Integers are bit-vectors whose width is derived from a tracked interval, so they
never wrap: a SymInt denotes a mathematical (Python) integer exactly.
"""
import math
import sys
import z3


# --------------------------------------------------------------------------
# engine signals (BaseException, so that code under test cannot swallow them)
class EngineSignal(BaseException):
    pass


class PathInfeasible(EngineSignal):
    pass


class PathIncomplete(EngineSignal):
    """The rest of this path lies outside what the engine can decide."""


class PathStop(EngineSignal):
    """The path ends normally, early (nothing left to decide on it)."""


class OutOfBudget(EngineSignal):
    pass


class Diverged(EngineSignal):
    """a prefix of decisions no longer fits: some query was answered one time and given up on another"""


class Violation(EngineSignal):
    pass


class Solver:
    """a z3 solver that keeps its own list of assertions

    (interrupted, z3 keeps simplified ones: not what a model has to satisfy.  It is then replaced by a fresh one)"""

    def __init__(self):
        self.s = z3.Solver()
        self.list = []
        self.marks = []
        self.limit = None

    def set(self, k, v):
        self.limit = v
        self.s.set(k, v)

    def add(self, *cs):
        self.list += cs
        self.s.add(*cs)

    def assertions(self):
        return list(self.list)

    def push(self):
        self.marks.append(len(self.list))
        self.s.push()

    def pop(self):
        del self.list[self.marks.pop():]
        self.s.pop()

    def check(self, *extra):
        r = self.s.check(*extra)
        if r == z3.unknown:
            self.s = z3.Solver()
            if self.limit is not None:
                self.s.set('timeout', self.limit)
            last = 0
            for m in self.marks:
                self.s.add(*self.list[last:m])
                self.s.push()
                last = m
            self.s.add(*self.list[last:])
        return r

    def model(self):
        return self.s.model()


class Engine:
    def __init__(self, solver_timeout_ms=20000, max_ticks=400000, deadline=None):
        self.worklist = [[]]
        self.solver_timeout_ms = solver_timeout_ms
        self.max_ticks = max_ticks
        self.alt_timeout_s = 20
        self.alt_model = None
        self.deadline = deadline
        self.stats = dict(forks=0, solver_checks=0, solver_time=0.0, paths=0, assertions=0,
                          proved_by_solver=0, proved_by_simplifier=0, unknown=0, decisions=0)
        self.incomplete = {}
        self.notes = set()
        self.uf_cache = {}

    # -- per path
    def begin(self, prefix):
        self.solver = Solver()
        self.solver.set('timeout', self.solver_timeout_ms)
        self.pc = []
        self.prefix = prefix
        self.trace = []
        self.pos = 0
        self.ticks = 0
        self.model_ = None
        self.fresh_n = 0
        self.inputs = {}
        self.input_order = []
        self.observations = []
        self.calls = {}
        self.hexnib = {}
        self.keep = []
        self.hash_terms = []
        self.state = {}
        self.approx = False
        self.uf_used = False

    def tick(self, n=1):
        self.ticks += n
        if self.ticks > self.max_ticks:
            raise PathIncomplete('step limit of %d instrumented operations' % self.max_ticks)
        if self.deadline is not None and (self.ticks & 0xff) == 0:
            self.check_deadline()

    def check_deadline(self):
        import time
        if self.deadline is not None and time.time() > self.deadline:
            raise OutOfBudget()

    def fresh(self, base):
        self.fresh_n += 1
        return '%s!%d' % (base, self.fresh_n)

    def add(self, c):
        self.solver.add(c)
        self.pc.append(c)
        if self.model_ is not None and not z3.is_true(self.model_.eval(c, model_completion=True)):
            self.model_ = None

    def raw_check(self, *extra):
        import time
        self.check_deadline()
        self.alt_model = None
        t = time.time()
        hard = self.state.get('arith')
        limit = self.solver_timeout_ms
        if hard:
            limit = min(400, limit)
        elif self.uf_used:
            limit = min(1500, limit)
        self.solver.set('timeout', limit)
        r = self.solver.check(*extra)
        self.stats['solver_checks'] += 1
        if r == z3.sat and not self.accept(self.solver.model(), extra):
            r = z3.unknown      # the solver's model does not satisfy its own query
        if r == z3.unknown:
            r = self.eager(extra)
        if r == z3.unknown:
            r = self.second(extra)
        self.stats['solver_time'] += time.time() - t
        return r

    def accept(self, m, extra):
        """(a model is taken from the solver once: asked again, some of its tactics give another)"""
        if not self.confirmed(m, extra):
            return False
        self.alt_model = m
        return True

    def confirmed(self, m, extra=()):
        """a model is only believed when it satisfies every assertion"""
        for c in list(self.solver.assertions()) + list(extra):
            if not z3.is_true(m.eval(c, model_completion=True)):
                self.stats['bad_models'] = self.stats.get('bad_models', 0) + 1
                return False
        return True

    def eager(self, extra):
        """uninterpreted functions replaced by their congruence conditions, then bits"""
        try:
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'ackermannize_bv', 'simplify', 'bit-blast', 'sat').solver()
            s.set('timeout', min(8000 if self.uf_used else 2500, self.solver_timeout_ms))
            s.add(*self.solver.assertions())
            s.add(*extra)
            r = s.check()
            self.stats['solver_checks'] += 1
            if r == z3.unsat:
                return r
            if r == z3.sat and self.accept(s.model(), extra):
                return r
        except z3.Z3Exception:
            pass
        return z3.unknown

    def second(self, extra):
        from . import solvers
        r, m = solvers.check(list(self.solver.assertions()) + list(extra), self.alt_timeout_s)
        self.stats['solver_checks'] += 1
        if r == z3.unsat:
            return r
        if r == z3.sat and self.accept(m, extra):
            return r
        r = z3.unknown
        if self.state.get('arith') or self.uf_used:
            self.solver.set('timeout', self.solver_timeout_ms)
            r = self.solver.check(*extra)
            self.stats['solver_checks'] += 1
            if r == z3.sat and not self.accept(self.solver.model(), extra):
                r = z3.unknown
        return r

    def last_model(self):
        """the model of the last satisfiable check"""
        return self.alt_model if self.alt_model is not None else self.solver.model()

    def model(self):
        if self.model_ is None:
            r = self.raw_check()
            if r == z3.unsat:
                raise PathInfeasible()
            if r == z3.unknown:
                self.stats['unknown'] += 1
                raise PathIncomplete('solver could not find a witness for a path condition')
            self.model_ = self.last_model()
        return self.model_

    def fork(self, cond):
        """Decide a symbolic condition; the untaken feasible side is queued."""
        self.tick()
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.prefix):
            kind, v, h = self.prefix[self.pos]
            if kind != 'b' or h != self.ticks:
                raise Diverged('non-deterministic re-execution at decision %d' % self.pos)
            self.pos += 1
            self.trace.append(('b', v, h))
            self.add(c if v else z3.Not(c))
            return v
        self.stats['decisions'] += 1
        m = self.model()
        v = z3.is_true(m.eval(c, model_completion=True))
        other = z3.Not(c) if v else c
        r = self.raw_check(other)
        if r != z3.unsat:
            if r == z3.unknown:
                self.stats['unknown'] += 1
            self.worklist.append(self.trace + [('b', not v, self.ticks)])
            self.stats['forks'] += 1
        self.trace.append(('b', v, self.ticks))
        self.pos += 1
        self.add(c if v else z3.Not(c))
        return v

    def entailed(self, cond):
        """True when the path condition implies cond (no fork)."""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.model_ is not None and not z3.is_true(self.model_.eval(c, model_completion=True)):
            return False
        r = self.raw_check(z3.Not(c))
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return r == z3.unsat

    def concretize(self, bv, cap=600, why=''):
        """Enumerate, by forking, the feasible values of a term (complete up to cap)."""
        n = 0
        bv = z3.simplify(bv)
        while True:
            if z3.is_bv_value(bv):
                return bv.as_signed_long()
            if self.pos < len(self.prefix):
                kind, v, taken = self.prefix[self.pos]
                if kind != 'v':
                    raise Diverged('non-deterministic re-execution at decision %d' % self.pos)
                self.pos += 1
                self.trace.append(('v', v, taken))
                self.add(bv == v if taken else bv != v)
                if taken:
                    return v
                n += 1
                continue
            self.stats['decisions'] += 1
            m = self.model()
            v = m.eval(bv, model_completion=True).as_signed_long()
            r = self.raw_check(bv != v)
            if r != z3.unsat:
                if n >= cap:
                    self.incomplete[('value enumeration cap %d %s' % (cap, why)).strip()] = \
                        self.incomplete.get(('value enumeration cap %d %s' % (cap, why)).strip(), 0) + 1
                else:
                    self.worklist.append(self.trace + [('v', v, False)])
                    self.stats['forks'] += 1
            self.trace.append(('v', v, True))
            self.pos += 1
            self.add(bv == v)
            return v

    def uf(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        if k not in self.uf_cache:
            self.uf_cache[k] = z3.Function('_'.join(k).replace('(', '').replace(')', '').replace(' ', '').replace(',', ''), *sorts)
        self.uf_used = True
        return self.uf_cache[k]


E = None


def set_engine(e):
    global E
    E = e


def engine():
    return E


# --------------------------------------------------------------------------
def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    """Base of all symbolic proxies."""
    __slots__ = ()

    def __reduce__(self):
        raise PathIncomplete('pickling a symbolic value')


def simp(t):
    return z3.simplify(t)


# ---- booleans -------------------------------------------------------------
class SymBool(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return E.fork(self.t)

    def __hash__(self):
        return hash(bool(self))

    def as_int(self):
        return mk_int(z3.If(self.t, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

    def __eq__(self, o):
        if type(o) is SymBool:
            return mk_bool(self.t == o.t)
        if isinstance(o, bool):
            return mk_bool(self.t if o else z3.Not(self.t))
        return int_cmp('==', self.as_int(), o)

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def __invert__(self):
        return int_unary('~', self.as_int())

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __repr__(self):
        return 'SymBool(%s)' % self.t

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def __and__(self, o):
        if isinstance(o, bool) or type(o) is SymBool:
            return b_and(self, o)
        return int_bin('&', self.as_int(), o)

    def __or__(self, o):
        if isinstance(o, bool) or type(o) is SymBool:
            return b_or(self, o)
        return int_bin('|', self.as_int(), o)

    def __xor__(self, o):
        if isinstance(o, bool) or type(o) is SymBool:
            return mk_bool(z3.Xor(self.t, b_term(o)))
        return int_bin('^', self.as_int(), o)

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__


def _bool_int_op(op):
    def f(self, o):
        return int_bin(op, self.as_int(), o)

    def r(self, o):
        return int_bin(op, o, self.as_int())
    return f, r


for _op, _n in (('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('//', 'floordiv'), ('%', 'mod'), ('/', 'truediv'),
                ('<<', 'lshift'), ('>>', 'rshift'), ('**', 'pow')):
    _f, _r = _bool_int_op(_op)
    setattr(SymBool, '__%s__' % _n, _f)
    setattr(SymBool, '__r%s__' % _n, _r)
for _op, _n in (('<', 'lt'), ('<=', 'le'), ('>', 'gt'), ('>=', 'ge')):
    setattr(SymBool, '__%s__' % _n, (lambda op: lambda self, o: int_cmp(op, self.as_int(), o))(_op))


def mk_bool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def b_term(x):
    if type(x) is SymBool:
        return x.t
    return z3.BoolVal(bool(x))


def b_and(*xs):
    ts = []
    for x in xs:
        if type(x) is SymBool:
            ts.append(x.t)
        elif not x:
            return False
    if not ts:
        return True
    return mk_bool(z3.And(*ts) if len(ts) > 1 else ts[0])


def b_or(*xs):
    ts = []
    for x in xs:
        if type(x) is SymBool:
            ts.append(x.t)
        elif x:
            return True
    if not ts:
        return False
    return mk_bool(z3.Or(*ts) if len(ts) > 1 else ts[0])


def b_not(x):
    if type(x) is SymBool:
        return mk_bool(z3.Not(x.t))
    if x is NotImplemented:
        return x
    return not x


# ---- integers -------------------------------------------------------------
def width_for(lo, hi):
    a = lo.bit_length() if lo >= 0 else (~lo).bit_length()
    b = hi.bit_length() if hi >= 0 else (~hi).bit_length()
    return max(a, b) + 1


def resize(bv, lo, w):
    """bv: signed term whose value is >= lo.  Re-express at width w (mod 2^w)."""
    cw = bv.size()
    if cw == w:
        return bv
    if cw < w:
        return z3.ZeroExt(w - cw, bv) if lo >= 0 else z3.SignExt(w - cw, bv)
    return z3.Extract(w - 1, 0, bv)


class SymInt(Sym):
    __slots__ = ('bv', 'lo', 'hi', 'neg', 'zero', 'poly')
    pytype = int

    def __init__(self, bv, lo, hi):
        self.neg = None     # the value this is the negation of
        self.poly = None    # the polynomial this is (nsym/poly.py)
        self.zero = None    # a condition that says the value is zero
        self.bv = bv
        self.lo = lo
        self.hi = hi

    @property
    def __class__(self):
        return self.pytype

    def term(self, w):
        return resize(self.bv, self.lo, w)

    def __bool__(self):
        return E.fork(self.bv != 0 if self.zero is None else z3.Not(self.zero))

    def __index__(self):
        return E.concretize(self.bv, why='(integer used natively)')

    def __int__(self):
        return self.__index__()

    def __hash__(self):
        return hash(self.__index__())

    def __repr__(self):
        return 'SymInt[%d..%d]' % (self.lo, self.hi)

    def __str__(self):
        return str(self.__index__())

    def __format__(self, spec):
        from . import models
        return str(models.format_value(self, spec))

    def __float__(self):
        return float(self.__index__())

    # int API
    def bit_length(self):
        return int_bit_length(self)

    def bit_count(self):
        a = int_unary('abs', self)
        if not is_sym(a):
            return a.bit_count()
        acc = 0
        for i in range(a.bv.size() - 1):
            acc = int_bin('+', acc, mk_int(z3.ZeroExt(1, z3.Extract(i, i, a.bv)), 0, 1))
        return acc

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        return int_to_bytes(self, length, byteorder, signed)

    @classmethod
    def from_bytes(cls, b, byteorder='big', *, signed=False):
        return int_from_bytes(b, byteorder, signed)

    def conjugate(self):
        return self

    def as_integer_ratio(self):
        return (self, 1)

    def is_integer(self):
        return True

    real = property(lambda self: int_plain(self))
    imag = property(lambda self: 0)
    numerator = property(lambda self: int_plain(self))
    denominator = property(lambda self: 1)

    def __pow__(self, e, m=None):
        return int_pow(self, e, m)

    def __rpow__(self, b, m=None):
        return int_pow(b, self, m)

    def __divmod__(self, o):
        return (int_bin('//', self, o), int_bin('%', self, o))

    def __rdivmod__(self, o):
        return (int_bin('//', o, self), int_bin('%', o, self))

    def __neg__(self):
        return int_unary('-', self)

    def __pos__(self):
        return int_plain(self)

    def __abs__(self):
        return int_unary('abs', self)

    def __invert__(self):
        return int_unary('~', self)

    def __round__(self, nd=None):
        if nd is None or nd >= 0:
            return int_plain(self)
        return round(self.__index__(), nd)

    def __trunc__(self):
        return int_plain(self)

    __floor__ = __ceil__ = __trunc__


def _mk_int_op(op):
    def f(self, o):
        return int_bin(op, self, o)

    def r(self, o):
        return int_bin(op, o, self)
    return f, r


for _op, _n in (('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('//', 'floordiv'), ('%', 'mod'), ('/', 'truediv'),
                ('<<', 'lshift'), ('>>', 'rshift'), ('&', 'and'), ('|', 'or'), ('^', 'xor')):
    _f, _r = _mk_int_op(_op)
    setattr(SymInt, '__%s__' % _n, _f)
    setattr(SymInt, '__r%s__' % _n, _r)
for _op, _n in (('==', 'eq'), ('!=', 'ne'), ('<', 'lt'), ('<=', 'le'), ('>', 'gt'), ('>=', 'ge')):
    setattr(SymInt, '__%s__' % _n, (lambda op: lambda self, o: int_cmp(op, self, o))(_op))

_int_subclasses = {}


def sym_int_class(pytype):
    """A proxy class for an int subclass defined by the code under test: the
    subclass's own (instrumented) methods come first, int's behind them."""
    if pytype is int:
        return SymInt
    k = pytype
    c = _int_subclasses.get(k)
    if c is None:
        ns = {}
        for klass in reversed(pytype.__mro__[:pytype.__mro__.index(int)]):
            for n, v in vars(klass).items():
                if n in ('__dict__', '__weakref__', '__module__', '__doc__', '__qualname__', '__new__', '__init__',
                         '__slots__', '__class__', '__annotations__', '__static_attributes__', '__firstlineno__'):
                    continue
                if n == '__hash__' and v is None:
                    continue
                ns[n] = v
        if '__eq__' in ns and '__hash__' not in ns:
            ns['__hash__'] = SymInt.__hash__
        ns['pytype'] = pytype
        c = type('Sym_' + pytype.__name__, (SymInt,), ns)
        _int_subclasses[k] = c
    return c


def mk_int(bv, lo, hi, pytype=int):
    if lo == hi:
        return lo if pytype is int else pytype(lo)
    w = width_for(lo, hi)
    bv = resize(bv, lo, w)
    if z3.is_bv_value(bv):
        v = bv.as_signed_long()
        return v if pytype is int else pytype(v)
    if pytype is int:
        return SymInt(bv, lo, hi)
    return sym_int_class(pytype)(bv, lo, hi)


def with_zero(x, c):
    if is_symint(x):
        x.zero = c
    return x


def int_plain(x, pytype=int):
    """x as an instance of pytype (drops a subclass)."""
    if type(x) is SymBool:
        x = x.as_int()
    if is_symint(x):
        if x.pytype is pytype:
            return x
        return sym_int_class(pytype)(x.bv, x.lo, x.hi)
    return int(x) if pytype is int else pytype(x)


def is_symint(x):
    return SymInt in type(x).__mro__


def int_parts(x):
    """(term at natural width, lo, hi) of an int-like; None if it is not one."""
    if is_symint(x):
        return x.bv, x.lo, x.hi
    if type(x) is SymBool:
        x = x.as_int()
        if is_symint(x):
            return x.bv, x.lo, x.hi
    if isinstance(x, int):
        x = int(x)
        return z3.BitVecVal(x, width_for(x, x)), x, x
    return None


MAXW = 8192
ABSTRACT_W = 400    # above this many product bits, multiplication/modulo become uninterpreted in abstract mode


def int_bin(op, a, b):
    r = int_bin_(op, a, b)
    if E.state.get('abstract') and op in ('+', '-', '*') and is_symint(r) and r.poly is None and r.bv.size() > poly.MIN_W:
        if op == '+' and r.bv.decl().kind() == z3.Z3_OP_CONCAT and disjoint(a, b):
            return r        # put together from its bits
        return poly.keep(r, a, b, op)
    return r


def disjoint(a, b):
    """non-negative numbers without a common bit that are no field elements"""
    if not (is_symint(a) and is_symint(b)) or a.poly is not None or b.poly is not None or a.lo < 0 or b.lo < 0:
        return False
    return b.hi < (1 << trailing_zeros(a.bv)) or a.hi < (1 << trailing_zeros(b.bv))


def int_bin_(op, a, b):
    from . import models
    if op == '/':
        return models.int_truediv(a, b)
    if isinstance(a, models.SymFloat) or isinstance(b, models.SymFloat) or \
            (isinstance(a, float) or isinstance(b, float)):
        if models.floatlike(a) and models.floatlike(b):
            return models.float_bin(op, a, b)
    if op == '**':
        return int_pow(a, b)
    pa, pb = int_parts(a), int_parts(b)
    if pa is None or pb is None:
        if op == '*' and (pa is not None) != (pb is not None):
            seq, n = (b, a) if pa is not None else (a, b)
            if isinstance(seq, (bytes, str, list, tuple, bytearray)) or is_sym(seq):
                if not is_symint(seq):
                    return seq * n.__index__()
        return NotImplemented
    ta, la, ha = pa
    tb, lb, hb = pb
    if op == '+':
        lo, hi = la + lb, ha + hb
        w = max(width_for(lo, hi), 1)
        if la >= 0 and lb >= 0:
            for (p, hp, q, hq) in ((ta, ha, tb, hb), (tb, hb, ta, ha)):
                k = trailing_zeros(p)
                if k and hq < (1 << k) and p.size() > k:
                    return mk_int(z3.Concat(z3.Extract(p.size() - 1, k, p), resize(q, 0, k)), lo, hi)
        return mk_int(resize(ta, la, w) + resize(tb, lb, w), lo, hi)
    if op == '-':
        lo, hi = la - hb, ha - lb
        w = width_for(lo, hi)
        x, y = resize(ta, la, w), resize(tb, lb, w)
        return with_zero(mk_int(x - y, lo, hi), x == y)
    if op == '*':
        c = (la * lb, la * hb, ha * lb, ha * hb)
        lo, hi = min(c), max(c)
        w = width_for(lo, hi)
        if w > MAXW:
            raise PathIncomplete('integer wider than %d bits' % MAXW)
        for x, y in ((a, b), (b, a)):
            if is_symint(x) and x.neg is not None and not is_sym(y):
                return int_unary('-', int_bin('*', x.neg, y)) if y >= 0 else int_bin('*', x.neg, -y)
        if la == ha and la == 1:
            return mk_int(tb, lb, hb)
        if lb == hb and lb == 1:
            return mk_int(ta, la, ha)
        if lb == hb and lb > 0 and lb & (lb - 1) == 0:
            k = lb.bit_length() - 1
            return mk_int(z3.Concat(resize(ta, la, w - k), z3.BitVecVal(0, k)), lo, hi) if w > k else mk_int(resize(ta, la, w) << k, lo, hi)
        if la == ha and la > 0 and la & (la - 1) == 0:
            return int_bin('*', b, a)
        if E.state.get('abstract') and w > ABSTRACT_W:
            r = poly.product(a, b, lo, hi)
            if r is not None:
                return r
        E.state['arith'] = True
        return mk_int(resize(ta, la, w) * resize(tb, lb, w), lo, hi)
    if op in ('//', '%'):
        if lb <= 0 <= hb:
            if lb == hb or E.fork(tb == 0):
                raise ZeroDivisionError('integer division or modulo by zero' if op == '//' else 'integer modulo by zero')
            if lb == 0:
                lb = 1
            elif hb == 0:
                hb = -1
        if lb == hb and lb < -1 and not (la == ha):
            # a // -c == -a // c,  a % -c == -(-a % c)
            n = int_bin(op, int_unary('-', _wrap(ta, la, ha)), -lb)
            return n if op == '//' else int_unary('-', n)
        if op == '%':
            if lb > 0:
                if 0 <= la and ha < lb:
                    return mk_int(ta, la, ha)
                if lb == hb and E.state.get('abstract') and lb.bit_length() > poly.MIN_W and lb & (lb - 1):
                    return poly.remainder(a, lb)
                if lb == hb and lb & (lb - 1) and -lb <= la and ha < 2 * lb:
                    w = width_for(min(la, 0), max(ha, lb))
                    x, m = resize(ta, la, w), z3.BitVecVal(lb, w)
                    r = x
                    if ha >= lb:
                        r = z3.If(x >= m, x - m, r)
                    if la < 0:
                        r = z3.If(x < 0, x + m, r)
                    r = mk_int(r, 0, lb - 1)
                    if -lb < la and ha < lb and is_symint(a) and a.zero is not None:
                        with_zero(r, a.zero)
                    return r
                lo, hi = 0, min(hb - 1, ha) if la >= 0 else hb - 1
                if lb == hb and lb & (lb - 1) == 0:
                    k = lb.bit_length() - 1
                    if k == 0:
                        return 0
                    return mk_int(z3.ZeroExt(1, resize(ta, la, max(k, ta.size())) if ta.size() <= k else z3.Extract(k - 1, 0, ta)), 0, lb - 1) \
                        if ta.size() > k or la >= 0 else mk_int(z3.ZeroExt(1, z3.SignExt(k - ta.size(), ta)), 0, lb - 1)
            elif hb < 0:
                lo, hi = lb + 1, 0
            else:
                lo, hi = min(lb + 1, 0), max(hb - 1, 0)
            w = max(width_for(la, ha), width_for(lb, hb), width_for(lo, hi))
            E.state['arith'] = True
            if la >= 0 and lb > 0:
                uw = max(ha.bit_length(), hb.bit_length(), 1)
                return mk_int(z3.ZeroExt(1, z3.URem(resize(ta, la, uw), resize(tb, lb, uw))), lo, hi)
            x, y = resize(ta, la, w), resize(tb, lb, w)
            if lb == hb and lb > 0:
                s, m = ones_magnitude(x)
                r = z3.URem(m, y)
                return mk_int(z3.If(s, y - 1 - r, r), lo, hi)
            return mk_int(x % y, lo, hi)
        # floor division
        if lb == hb and lb > 0 and lb & (lb - 1) == 0:
            return int_bin('>>', _wrap(ta, la, ha), lb.bit_length() - 1)
        cand = []
        for y in {lb, hb, 1 if lb <= 1 <= hb else lb, -1 if lb <= -1 <= hb else lb}:
            for x in (la, ha):
                cand.append(x // y)
        lo, hi = min(cand), max(cand)
        E.state['arith'] = True
        w = max(width_for(la, ha), width_for(lb, hb), width_for(lo, hi))
        if la >= 0 and lb > 0:
            uw = max(ha.bit_length(), hb.bit_length(), 1)
            return mk_int(z3.ZeroExt(1, z3.UDiv(resize(ta, la, uw), resize(tb, lb, uw))), lo, hi)
        w += 1
        x, y = resize(ta, la, w), resize(tb, lb, w)
        if lb == hb and lb > 0:
            s, m = ones_magnitude(x)
            q = z3.UDiv(m, y)
            return mk_int(z3.If(s, ~q, q), lo, hi)
        q, r = x / y, z3.SRem(x, y)
        q = z3.If(z3.And(r != 0, (r < 0) != (y < 0)), q - 1, q)
        return mk_int(q, lo, hi)
    if op == '<<':
        if lb < 0:
            if E.fork(tb < 0):
                raise ValueError('negative shift count')
            lb = 0
        if lb == hb:
            lo, hi = la << lb, ha << lb
            w = width_for(lo, hi)
            if w > MAXW:
                raise PathIncomplete('integer wider than %d bits' % MAXW)
            if lb == 0:
                return mk_int(ta, la, ha)
            return mk_int(z3.Concat(resize(ta, la, w - lb), z3.BitVecVal(0, lb)), lo, hi)
        if hb > 2048:
            hb2 = b.__index__()
            return int_bin(op, a, hb2)
        lo, hi = min(la << lb, la << hb), max(ha << hb, ha << lb)
        w = width_for(lo, hi)
        return mk_int(resize(ta, la, w) << resize(tb, 0, w) if tb.size() <= w else resize(ta, la, w) << z3.Extract(w - 1, 0, tb), lo, hi)
    if op == '>>':
        if lb < 0:
            if E.fork(tb < 0):
                raise ValueError('negative shift count')
            lb = 0
        lo, hi = min(la >> lb, la >> hb), max(ha >> lb, ha >> hb)
        if lb == hb:
            if lb >= ta.size():
                return mk_int(z3.If(ta < 0, z3.BitVecVal(-1, 2), z3.BitVecVal(0, 2)), lo, hi)
            return mk_int(z3.Extract(ta.size() - 1, lb, ta), lo, hi)
        w = max(ta.size(), tb.size())
        return mk_int(resize(ta, la, w) >> resize(tb, lb, w), lo, hi)
    if op in ('&', '|', '^'):
        w = max(ta.size(), tb.size())
        x, y = resize(ta, la, w), resize(tb, lb, w)
        full = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if op == '&':
            if la >= 0 and lb >= 0:
                lo, hi = 0, min(ha, hb)
            elif la >= 0:
                lo, hi = 0, ha
            elif lb >= 0:
                lo, hi = 0, hb
            else:
                lo, hi = full
            wr = width_for(lo, hi)
            if wr < w:
                x, y = resize(ta, la, wr), resize(tb, lb, wr)
            return mk_int(x & y, lo, hi)
        if la >= 0 and lb >= 0:
            lo, hi = 0, (1 << max(ha.bit_length(), hb.bit_length())) - 1
        else:
            lo, hi = full
        return mk_int(x | y if op == '|' else x ^ y, lo, hi)
    return NotImplemented


def ones_magnitude(x):
    """sign, and the ones' complement magnitude: floor(x/c) is ~(m/c) for a negative x"""
    s = x < 0
    return s, z3.If(s, ~x, x)


def trailing_zeros(t):
    """number of low bits of a term that are syntactically zero"""
    if z3.is_bv_value(t):
        v = t.as_long()
        return t.size() if v == 0 else (v & -v).bit_length() - 1
    if z3.is_app_of(t, z3.Z3_OP_CONCAT):
        c = t.children()
        k = 0
        for a in reversed(c):
            n = trailing_zeros(a)
            k += n
            if n < a.size():
                break
        return k
    if z3.is_app_of(t, z3.Z3_OP_ZERO_EXT) or z3.is_app_of(t, z3.Z3_OP_SIGN_EXT):
        return min(trailing_zeros(t.arg(0)), t.arg(0).size())
    return 0


def _wrap(t, lo, hi):
    return mk_int(t, lo, hi)


def int_unary(op, a):
    t, lo, hi = int_parts(a)
    if op == '+':
        return mk_int(t, lo, hi)
    if op == '-':
        w = width_for(-hi, -lo)
        w = max(w, t.size())
        if is_symint(a) and a.neg is not None:
            return a.neg
        r = mk_int(-resize(t, lo, w + 1), -hi, -lo)
        if is_symint(r):
            r.neg = mk_int(t, lo, hi)
            if E.state.get('abstract') and r.bv.size() > poly.MIN_W:
                r.poly = poly.add({}, poly.of(a), -1)
        return r
    if op == '~':
        return mk_int(~t, ~hi, ~lo)
    if op == 'abs':
        if lo >= 0:
            return mk_int(t, lo, hi)
        if hi <= 0:
            return int_unary('-', a)
        w = t.size() + 1
        x = resize(t, lo, w)
        nlo = 0 if hi >= 0 else -hi
        return mk_int(z3.If(x < 0, -x, x), nlo, max(-lo, hi))
    raise NotImplementedError(op)


def int_cmp(op, a, b):
    from . import models
    if isinstance(b, models.SymFloat) or type(b) is float:
        return models.float_cmp(op, a, b)
    if isinstance(b, models.SymDecimal):
        return b.cmp_with(op, a, True)
    pa, pb = int_parts(a), int_parts(b)
    if pa is None or pb is None:
        if op == '==':
            return NotImplemented if not is_sym(b) else False
        if op == '!=':
            return NotImplemented if not is_sym(b) else True
        return NotImplemented
    ta, la, ha = pa
    tb, lb, hb = pb
    if op in ('==', '!='):
        if ha < lb or hb < la:
            return op == '!='
        if E.state.get('cong'):
            k = poly.equal(a, b)
            if k is not None:
                return k == (op == '==')
        w = max(ta.size(), tb.size())
        c = resize(ta, la, w) == resize(tb, lb, w)
        for x, l, h in ((a, lb, hb), (b, la, ha)):
            if is_symint(x) and x.zero is not None and l == 0 == h:
                c = x.zero
        return mk_bool(c if op == '==' else z3.Not(c))
    if op in ('>', '>='):
        return int_cmp('<' if op == '>' else '<=', b, a)
    if op == '<':
        if ha < lb:
            return True
        if la >= hb:
            return False
    else:
        if ha <= lb:
            return True
        if la > hb:
            return False
    if la >= 0 and lb >= 0:
        w = max(ha.bit_length(), hb.bit_length())
        x, y = resize(ta, la, w), resize(tb, lb, w)
        return mk_bool(z3.ULT(x, y) if op == '<' else z3.ULE(x, y))
    w = max(ta.size(), tb.size())
    x, y = resize(ta, la, w), resize(tb, lb, w)
    return mk_bool(x < y if op == '<' else x <= y)


def int_ite(c, a, b):
    """If c then a else b, for int-likes."""
    if not is_sym(c):
        return a if c else b
    ta, la, ha = int_parts(a)
    tb, lb, hb = int_parts(b)
    lo, hi = min(la, lb), max(ha, hb)
    w = width_for(lo, hi)
    return mk_int(z3.If(c.t, resize(ta, la, w), resize(tb, lb, w)), lo, hi)


def int_bit_length(x):
    t, lo, hi = int_parts(int_unary('abs', x))
    if lo == hi:
        return lo.bit_length()
    n = t.size() - 1
    w = n.bit_length() + 1
    acc = z3.BitVecVal(0, w)
    for i in range(n):
        acc = z3.If(z3.Extract(i, i, t) == 1, z3.BitVecVal(i + 1, w), acc)
    return mk_int(acc, 0, n)


def int_pow(a, e, m=None):
    if m is None and not is_sym(e):
        if not isinstance(e, int):
            return NotImplemented
        if e < 0:
            return models_float_pow(a, e)
        r = None
        base = a
        while True:
            if e & 1:
                r = base if r is None else int_bin('*', r, base)
            e >>= 1
            if not e:
                break
            base = int_bin('*', base, base)
        return 1 if r is None else int_plain(r)
    if m is None:
        if int_parts(a) is None:
            return NotImplemented
        pe = int_parts(e)
        if pe is None:
            return NotImplemented
        if pe[1] < 0 and bool(int_cmp('<', e, 0)):
            return models_float_pow(a, E.concretize(pe[0], why='(negative exponent)'))
        if not is_sym(a) and a == 2:
            return int_bin('<<', 1, e)
        return int_pow(a, E.concretize(pe[0], why='(exponent)'))
    # modular
    pa, pe, pm = int_parts(a), int_parts(e), int_parts(m)
    if pm[1] <= 0 <= pm[2] and bool(int_cmp('==', m, 0)):
        raise ValueError('pow() 3rd argument cannot be 0')
    if pe[1] < 0 and bool(int_cmp('<', e, 0)):
        # modular inverse: pow(a, -k, m)
        inv = mod_inverse(a, m)
        return int_pow(inv, int_unary('-', e), m)
    if pm[2].bit_length() > 40 and E.state.get('abstract') and not is_sym(e) and not is_sym(m):
        x = int_bin('%', a, m)
        if not is_sym(x):
            return pow(x, e, m)
        if e >= 16:
            from . import stubs
            w = width_for(0, m - 1)
            t = stubs.app('powmod_%x_%x' % (e, m), [simp(x.term(w))], w, lambda v: pow(v, e, m))
            E.add(z3.And(t >= 0, t < z3.BitVecVal(m, w)))
            return SymInt(t, 0, m - 1)
    x = int_bin('%', a, m)
    if not is_sym(e):
        if e == 0:
            return int_bin('%', 1, m)
        r = None
        n = e
        base = x
        while n:
            if n & 1:
                r = base if r is None else int_bin('%', int_bin('*', r, base), m)
            n >>= 1
            if n:
                base = int_bin('%', int_bin('*', base, base), m)
        return r
    r = int_bin('%', 1, m)
    base = x
    te, le, he = pe
    for i in range(he.bit_length()):
        bit = mk_bool(z3.Extract(i, i, te) == 1)
        r = int_ite(bit, int_bin('%', int_bin('*', r, base), m), r)
        base = int_bin('%', int_bin('*', base, base), m)
    return r


def mod_inverse(a, m):
    """pow(a, -1, m), exact: a table for a small constant modulus."""
    if is_sym(m):
        m = m.__index__()
    x = int_bin('%', a, m)
    if not is_sym(x):
        return pow(x, -1, m)
    if abs(m) > 600:
        if E.state.get('abstract'):
            if bool(int_cmp('==', x, 0)):
                raise ValueError('base is not invertible for the given modulus')
            from . import poly, stubs
            # the inverse of a multiple is that of the monic polynomial times the inverse of the factor
            q = poly.reduce(poly.of(x), m)
            c = q[max(q)] if q else 1
            if c != 1 and math.gcd(c, m) == 1:
                c = pow(c, -1, m)
                return int_bin('%', int_bin('*', mod_inverse(poly.residue({k: v * c % m for k, v in q.items()}, m), m), c), m)
            w = width_for(0, m - 1)
            t = stubs.app('modinv_%x' % m, [simp(x.term(w))], w, lambda v: pow(v, -1, m))
            E.add(z3.And(t >= 1, t < z3.BitVecVal(m, w)))
            return SymInt(t, 1, m - 1)
        raise PathIncomplete('modular inverse for modulus %d' % m)
    w = width_for(-abs(m), abs(m))
    xt = x.term(w)
    ok, acc = [], z3.BitVecVal(0, w)
    vals = []
    for v in range(min(0, m + 1), max(m, 1)):
        try:
            inv = pow(v, -1, m)
        except ValueError:
            continue
        ok.append(xt == v)
        vals.append(inv)
        acc = z3.If(xt == v, z3.BitVecVal(inv, w), acc)
    if not ok or not E.fork(z3.Or(*ok)):
        raise ValueError('base is not invertible for the given modulus')
    return mk_int(acc, min(vals), max(vals))


def models_float_pow(a, e):
    if is_sym(a):
        a = a.__index__()
    return a ** e


# ---- bytes <-> integers -----------------------------------------------------
def byte_term(e):
    return z3.BitVecVal(e, 8) if isinstance(e, int) and not is_sym(e) else e


def byte_val(t):
    """element term -> Python int or SymInt 0..255"""
    if isinstance(t, int):
        return t
    return mk_int(z3.ZeroExt(1, t), 0, 255)


def to_byte_elem(x, what='byte must be in range(0, 256)'):
    """int-like -> element (python int or BV8 term); ValueError outside 0..255"""
    if not is_sym(x):
        x = x.__index__()
        if not 0 <= x <= 255:
            raise ValueError(what)
        return x
    t, lo, hi = int_parts(x)
    if lo < 0 or hi > 255:
        if E.fork(z3.Not(z3.And(t >= 0, t <= 255)) if t.size() > 8 else t < 0):
            raise ValueError(what)
    t = z3.simplify(resize(t, 0 if lo >= 0 else lo, 8) if t.size() != 8 else t)
    return norm_elem(t)


def norm_elem(t):
    if isinstance(t, int):
        return t
    if z3.is_bv_value(t):
        return t.as_long()
    return t


def int_from_bytes(b, byteorder='big', signed=False, pytype=int):
    from . import seqs
    if is_sym(byteorder) or byteorder not in ('big', 'little'):
        raise ValueError("byteorder must be either 'little' or 'big'")
    els = seqs.elems_of_iterable(b)
    if byteorder == 'little':
        els = list(reversed(els))
    if not els:
        return 0 if pytype is int else pytype(0)
    if not any(is_z3(e) for e in els):
        v = int.from_bytes(bytes(els), 'big', signed=signed)
        return v if pytype is int else pytype(v)
    n = len(els)
    # trim leading constant zeros
    ts = [byte_term(e) for e in els]
    bv = z3.Concat(*ts) if n > 1 else ts[0]
    if signed:
        return mk_int(bv, -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1, pytype)
    k = 0
    while k < n - 1 and isinstance(els[k], int) and els[k] == 0:
        k += 1
    ts = ts[k:]
    bv = z3.Concat(*ts) if len(ts) > 1 else ts[0]
    lead = 255
    if isinstance(els[k], int):
        lead = els[k]
    hi = ((lead + 1) << (8 * (len(ts) - 1))) - 1
    lo = (lead << (8 * (len(ts) - 1))) if isinstance(els[k], int) else 0
    return mk_int(z3.ZeroExt(1, bv), lo, hi, pytype)


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def int_to_bytes(x, length, byteorder, signed):
    from . import seqs
    if is_sym(length):
        length = length.__index__()
    if length < 0:
        raise ValueError('length argument must be non-negative')
    if byteorder not in ('big', 'little'):
        raise ValueError("byteorder must be either 'little' or 'big'")
    if is_sym(signed):
        signed = bool(signed)
    t, lo, hi = int_parts(x)
    if signed:
        mn, mx = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if length else (0, 0)
    else:
        mn, mx = 0, (1 << (8 * length)) - 1
    if lo < 0 and not signed:
        if E.fork(t < 0):
            raise OverflowError("can't convert negative int to unsigned")
        lo = 0 if lo < 0 else lo
        # value is now >= 0; keep the signed term
        if t.size() < 8 * length:
            t = z3.ZeroExt(8 * length - t.size(), t)
    if lo < mn or hi > mx:
        c = b_and(int_cmp('>=', x, mn), int_cmp('<=', x, mx))
        if not (bool(c) if is_sym(c) else c):
            raise OverflowError('int too big to convert')
    W = 8 * length
    if length == 0:
        return b''
    if t.size() < W:
        t = resize(t, lo, W)
    t = z3.simplify(t)
    els = [norm_elem(z3.simplify(z3.Extract(8 * i + 7, 8 * i, t))) for i in range(length)]
    if byteorder == 'big':
        els.reverse()
    return seqs.mk_bytes(els)


from . import poly  # noqa: E402
