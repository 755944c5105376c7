"""bit-vector queries restated over the integers.

Each bit-vector term of width w becomes an integer congruent to it modulo 2^w together
with an interval; where the interval shows that nothing wraps no modulus is introduced,
so the no-overflow arithmetic the engine produces stays plain integer arithmetic.
"""
import z3

K = z3


class Unsupported(Exception):
    pass


class Blaster:
    def __init__(self, asserts):
        self.memo = {}
        self.bmemo = {}
        self.vars = {}       # name -> (bv const, int const)
        self.bools = {}
        self.side = []
        self.bounds = {}
        self.keep = []
        self.funs = {}
        self.napp = 0
        for a in asserts:
            self._bound(a)

    # top-level bounds of variables
    def _bound(self, a):
        k = a.decl().kind() if z3.is_app(a) else None
        if k == z3.Z3_OP_AND:
            for c in a.children():
                self._bound(c)
            return
        neg = False
        if k == z3.Z3_OP_NOT:
            neg = True
            a = a.arg(0)
            k = a.decl().kind()
        if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SGEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGT):
            x, y = a.arg(0), a.arg(1)
            if k in (z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
                x, y = y, x
            strict = k in (z3.Z3_OP_SLT, z3.Z3_OP_SGT)
            if neg:
                x, y = y, x
                strict = not strict
            # x <= y (or <)
            if z3.is_bv_value(x) and self._isvar(y):
                self._tight(y, x.as_signed_long() + strict, None)
            elif z3.is_bv_value(y) and self._isvar(x):
                self._tight(x, None, y.as_signed_long() - strict)

    def _isvar(self, x):
        return z3.is_app(x) and x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED

    def _tight(self, v, lo, hi):
        n = v.decl().name()
        a, b = self.bounds.get(n, (None, None))
        if lo is not None:
            a = lo if a is None else max(a, lo)
        if hi is not None:
            b = hi if b is None else min(b, hi)
        self.bounds[n] = (a, b)

    # normal forms
    def uns(self, r, w):
        e, lo, hi = r
        m = 1 << w
        if lo >= 0 and hi < m:
            return r
        if lo >= -m and hi < m:
            return (z3.If(e < 0, e + m, e), 0, m - 1)
        if lo >= 0 and hi < 2 * m:
            return (z3.If(e >= m, e - m, e), 0, m - 1)
        return (self.mod(e, m), 0, m - 1)

    def sgn(self, r, w):
        e, lo, hi = r
        m, h = 1 << w, 1 << (w - 1)
        if lo >= -h and hi < h:
            return r
        if lo >= -h and hi < m + h:
            return (z3.If(e >= h, e - m, e), -h, h - 1)
        if lo >= -m - h and hi < h:
            return (z3.If(e < -h, e + m, e), -h, h - 1)
        return (self.mod(e + h, m) - h, -h, h - 1)

    def name(self, e):
        """share a compound term"""
        if z3.is_const(e) or z3.is_int_value(e):
            return e
        key = ('n', e.get_id())
        if key not in self.memo:
            self.napp += 1
            v = z3.Int('t!%d' % self.napp)
            self.side.append(v == e)
            self.keep.append(e)
            self.memo[key] = v
        return self.memo[key]

    def mod(self, e, m):
        q, r = self.divmod(e, m)
        return r

    def divmod(self, e, m):
        """floor quotient and remainder by a positive constant, by their defining inequalities"""
        e = self.name(e)
        key = (e.get_id(), m)
        if key not in self.memo:
            self.napp += 1
            q, r = z3.Int('q!%d' % self.napp), z3.Int('r!%d' % self.napp)
            self.side += [e == m * q + r, r >= 0, r < m]
            self.memo[key] = (q, r)
            self.keep.append(e)
        return self.memo[key]

    def fdiv(self, r, m):
        """floor division of a representation by a positive constant"""
        e, lo, hi = r
        if m == 1:
            return r
        if z3.is_int_value(e):
            v = e.as_long() // m
            return (z3.IntVal(v), v, v)
        q, _ = self.divmod(e, m)
        return (q, lo // m, hi // m)

    def fmod(self, r, m):
        e, lo, hi = r
        if lo >= 0 and hi < m:
            return r
        _, x = self.divmod(e, m)
        return (x, 0, m - 1)

    def bv(self, t):
        k = t.get_id()
        if k not in self.memo:
            r = self._bv(t)
            self.keep.append(t)
            w = t.size()
            if r[1] < -(8 << w) or r[2] >= (8 << w):
                r = self.sgn(r, w)
            self.memo[k] = r
        return self.memo[k]

    def _bv(self, t):
        w = t.size()
        if z3.is_bv_value(t):
            v = t.as_signed_long()
            return (z3.IntVal(v), v, v)
        if not z3.is_app(t):
            raise Unsupported('binder')
        k = t.decl().kind()
        a = t.children()
        if k == z3.Z3_OP_UNINTERPRETED:
            if not a:
                n = t.decl().name()
                i = z3.Int('i!' + n)
                lo, hi = self.bounds.get(n, (None, None))
                if w == 8 and lo is None and hi is None:
                    lo, hi = 0, 255
                else:
                    lo = -(1 << (w - 1)) if lo is None else lo
                    hi = (1 << (w - 1)) - 1 if hi is None else hi
                self.vars[n] = (t, i)
                self.side += [i >= lo, i <= hi]
                return (i, lo, hi)
            d = t.decl()
            key = (d.name(), d.arity(), tuple(x.sort().sexpr() for x in a), w)
            if key not in self.funs:
                if not all(z3.is_bv(x) for x in a):
                    raise Unsupported('function over other sorts')
                self.funs[key] = z3.Function('f!%d' % len(self.funs), *([z3.IntSort()] * (len(a) + 1)))
            e = self.funs[key](*[self.uns(self.bv(x), x.size())[0] for x in a])
            self.side += [e >= 0, e < (1 << w)]
            return (e, 0, (1 << w) - 1)
        if k == z3.Z3_OP_BADD:
            e, lo, hi = self.bv(a[0])
            for x in a[1:]:
                f, l2, h2 = self.bv(x)
                e, lo, hi = e + f, lo + l2, hi + h2
            return (e, lo, hi)
        if k == z3.Z3_OP_BSUB:
            e, lo, hi = self.bv(a[0])
            for x in a[1:]:
                f, l2, h2 = self.bv(x)
                e, lo, hi = e - f, lo - h2, hi - l2
            return (e, lo, hi)
        if k == z3.Z3_OP_BNEG:
            e, lo, hi = self.bv(a[0])
            return (-e, -hi, -lo)
        if k == z3.Z3_OP_BNOT:
            e, lo, hi = self.bv(a[0])
            return (-1 - e, -1 - hi, -1 - lo)
        if k == z3.Z3_OP_BMUL:
            r = self.bv(a[0])
            for x in a[1:]:
                s = self.bv(x)
                c = [r[1] * s[1], r[1] * s[2], r[2] * s[1], r[2] * s[2]]
                r = (r[0] * s[0], min(c), max(c))
                if r[1] < -(8 << w) or r[2] >= (8 << w):
                    r = self.sgn(r, w)
            return r
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
            x, y = self.uns(self.bv(a[0]), w), self.uns(self.bv(a[1]), w)
            div = k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I)
            return self._udivmod(x, y, w)[0 if div else 1]
        if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I, z3.Z3_OP_BSMOD, z3.Z3_OP_BSMOD_I):
            return self._signed(k, self.sgn(self.bv(a[0]), w), self.sgn(self.bv(a[1]), w), w)
        if k == z3.Z3_OP_SIGN_EXT:
            return self.sgn(self.bv(a[0]), a[0].size())
        if k == z3.Z3_OP_ZERO_EXT:
            return self.uns(self.bv(a[0]), a[0].size())
        if k == z3.Z3_OP_CONCAT:
            r = self.bv(a[0])
            for x in a[1:]:
                s = self.uns(self.bv(x), x.size())
                m = 1 << x.size()
                r = (r[0] * m + s[0], r[1] * m + s[1], r[2] * m + s[2])
            return r
        if k == z3.Z3_OP_EXTRACT:
            h, l = t.params()
            r = self.bv(a[0])
            if l:
                r = self.fdiv(r, 1 << l)
            return r
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(a[1]):
            n = a[1].as_long()
            if n >= w:
                return (z3.IntVal(0), 0, 0)
            e, lo, hi = self.bv(a[0])
            return (e * (1 << n), lo << n, hi << n)
        if k in (z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR) and z3.is_bv_value(a[1]):
            n = min(a[1].as_long(), w)
            r = self.uns(self.bv(a[0]), w) if k == z3.Z3_OP_BLSHR else self.sgn(self.bv(a[0]), w)
            return self.fdiv(r, 1 << n)
        if k == z3.Z3_OP_BAND and len(a) == 2:
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                if z3.is_bv_value(y):
                    m = y.as_long()
                    if m & (m + 1) == 0:
                        return self.fmod(self.bv(x), m + 1) if m else (z3.IntVal(0), 0, 0)
            raise Unsupported('and')
        if k == z3.Z3_OP_ITE:
            c = self.boo(a[0])
            x, y = self.bv(a[1]), self.bv(a[2])
            return (self.name(z3.If(c, x[0], y[0])), min(x[1], y[1]), max(x[2], y[2]))
        raise Unsupported(t.decl().name())

    def _udivmod(self, x, y, w):
        key = ('ud', x[0].get_id(), y[0].get_id(), w)
        if key in self.memo:
            return self.memo[key]
        if y[1] == y[2]:
            c = y[1]
            if c == 0:
                out = ((z3.IntVal((1 << w) - 1), (1 << w) - 1, (1 << w) - 1), x)
            elif c == 1:
                out = (x, (z3.IntVal(0), 0, 0))
            else:
                out = (self.fdiv(x, c), self.fmod(x, c))
        else:
            self.napp += 1
            q, r = z3.Int('q!%d' % self.napp), z3.Int('r!%d' % self.napp)
            e, d = self.name(x[0]), self.name(y[0])
            self.side.append(z3.If(d == 0, z3.And(q == (1 << w) - 1, r == e), z3.And(e == d * q + r, r >= 0, r < d)))
            self.side += [q >= 0]
            out = ((q, 0, (1 << w) - 1), (r, 0, x[2]))
        self.keep += [x[0], y[0]]
        self.memo[key] = out
        return out

    def _signed(self, k, x, y, w):
        key = ('sd', x[0].get_id(), y[0].get_id(), w)
        if y[1] <= 0 <= y[2]:
            raise Unsupported('signed division by what may be zero')
        if key not in self.memo:
            ax = (z3.If(x[0] < 0, -x[0], x[0]), 0, max(abs(x[1]), abs(x[2]))) if x[1] < 0 else x
            ay = (-y[0], -y[2], -y[1]) if y[2] < 0 else y
            q, r = self._udivmod(ax, ay, w + 1)
            self.memo[key] = (q, r)
            self.keep += [x[0], y[0]]
        q, r = self.memo[key]
        xn = x[0] < 0
        yneg = y[2] < 0
        if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I):
            m = max(abs(x[1]), abs(x[2]))
            return (z3.If(xn, q[0], -q[0]) if yneg else z3.If(xn, -q[0], q[0]), -m, m)
        m = max(abs(y[1]), abs(y[2])) - 1
        tr = z3.If(xn, -r[0], r[0])
        if k in (z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I):
            return (tr, -m, m)
        # modulus with the sign of the divisor
        if yneg:
            return (z3.If(z3.And(z3.Not(xn), r[0] != 0), y[0] + tr, tr), -m, 0)
        return (z3.If(z3.And(xn, r[0] != 0), y[0] + tr, tr), 0, m)

    def boo(self, t):
        k = t.get_id()
        if k not in self.bmemo:
            self.bmemo[k] = self._boo(t)
            self.keep.append(t)
        return self.bmemo[k]

    def _boo(self, t):
        if z3.is_true(t) or z3.is_false(t):
            return t
        if not z3.is_app(t):
            raise Unsupported('quantifier')
        k = t.decl().kind()
        a = t.children()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR, z3.Z3_OP_IFF):
            c = [self.boo(x) for x in a]
            if k == z3.Z3_OP_AND:
                return z3.And(*c)
            if k == z3.Z3_OP_OR:
                return z3.Or(*c)
            if k == z3.Z3_OP_NOT:
                return z3.Not(c[0])
            if k == z3.Z3_OP_IMPLIES:
                return z3.Implies(c[0], c[1])
            if k == z3.Z3_OP_XOR:
                return z3.Xor(c[0], c[1])
            return c[0] == c[1]
        if k == z3.Z3_OP_ITE:
            return z3.If(self.boo(a[0]), self.boo(a[1]), self.boo(a[2]))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            if z3.is_bool(a[0]):
                e = self.boo(a[0]) == self.boo(a[1])
            elif z3.is_bv(a[0]):
                if len(a) != 2:
                    raise Unsupported('distinct')
                w = a[0].size()
                x, y = self.bv(a[0]), self.bv(a[1])
                h = 1 << (w - 1)
                if max(x[2], y[2]) - min(x[1], y[1]) < (1 << w):
                    e = x[0] == y[0]
                elif (x[1] < 0 or y[1] < 0) and x[1] >= -h and y[1] >= -h:
                    e = self.sgn(x, w)[0] == self.sgn(y, w)[0]
                else:
                    e = self.uns(x, w)[0] == self.uns(y, w)[0]
            else:
                raise Unsupported('equality of other sorts')
            return z3.Not(e) if k == z3.Z3_OP_DISTINCT else e
        cmp = {z3.Z3_OP_ULEQ: ('u', 0), z3.Z3_OP_ULT: ('u', 1), z3.Z3_OP_UGEQ: ('u', 2), z3.Z3_OP_UGT: ('u', 3),
               z3.Z3_OP_SLEQ: ('s', 0), z3.Z3_OP_SLT: ('s', 1), z3.Z3_OP_SGEQ: ('s', 2), z3.Z3_OP_SGT: ('s', 3)}
        if k in cmp:
            s, o = cmp[k]
            w = a[0].size()
            x, y = self.bv(a[0]), self.bv(a[1])
            n = self.uns if s == 'u' else self.sgn
            x, y = n(x, w)[0], n(y, w)[0]
            return (x <= y, x < y, x >= y, x > y)[o]
        if k == z3.Z3_OP_UNINTERPRETED and not a:
            n = t.decl().name()
            b = z3.Bool('b!' + n)
            self.bools[n] = (t, b)
            return b
        raise Unsupported(t.decl().name())


def blast(asserts):
    b = Blaster(asserts)
    out = [b.boo(a) for a in asserts]
    return b, b.side + out


def assignment(b, m):
    """bit-vector assignments from an integer model"""
    out = []
    for n, (t, i) in b.vars.items():
        v = m.eval(i, model_completion=True)
        if z3.is_int_value(v):
            out.append(t == z3.BitVecVal(v.as_long(), t.size()))
    for n, (t, i) in b.bools.items():
        out.append(t == m.eval(i, model_completion=True))
    return out
