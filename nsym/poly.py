"""Wide integers as polynomials over the inputs (abstract mode): products and remainders by a
wide constant become applications of one uninterpreted function per canonical polynomial, so two
computations of the same residue are the same term, however they are arranged."""
import hashlib
import z3
from . import core

MIN_W = 100
MAX_MONOS = 400


def norm(x):
    """the term of a symbolic integer without the extension bits"""
    t = x.bv
    n = (x.hi.bit_length() + 7) // 8 * 8
    if x.lo >= 0 and 0 < n < t.size():
        t = z3.Extract(n - 1, 0, t)
    t = core.simp(t)
    ext = (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT) if x.lo >= 0 else (z3.Z3_OP_SIGN_EXT,)
    while z3.is_app(t) and t.decl().kind() in ext:
        t = t.arg(0)
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_CONCAT and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0 and x.lo >= 0:
        t = core.simp(z3.Extract(sum(a.size() for a in t.children()[1:]) - 1, 0, t))
    return t


def key_of(x, t=None):
    """the atom of a symbolic integer, registered"""
    e = core.E
    if t is None:
        t = norm(x)
    k = t.get_id() * 2 + (x.lo < 0)
    atoms = e.state.setdefault('atoms', {})
    if k not in atoms:
        e.keep.append(t)
        atoms[k] = core.SymInt(x.bv, x.lo, x.hi)
    return k


def remember(r, p):
    """a sum or difference that comes back from its bytes is still that sum"""
    e = core.E
    if r.lo >= 0:
        t = norm(r)
        e.keep.append(t)
        sums = e.state.setdefault('sums', {})
        sums[t.get_id()] = p


def of(x):
    if not core.is_symint(x):
        x = int(x)
        return {(): x} if x else {}
    if x.poly is not None:
        return x.poly
    t = norm(x)
    if x.lo >= 0:
        p = core.E.state.get('sums', {}).get(t.get_id())
        if p is not None:
            return p
    return {((key_of(x, t), 1),): 1}


def add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    d = dict(m)
    for k, e in n:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))


def mul(a, b):
    if len(a) * len(b) > MAX_MONOS:
        return None
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def reduce(p, m):
    """modulo m, residues replaced by what they are congruent to"""
    cong = core.E.state.get('cong', {})
    out = {}
    for mono, c in p.items():
        part = {(): c % m} if c % m else {}
        for k, e in mono:
            g = cong.get((m, k))
            if g is None:
                part = mul(part, {((k, e),): 1})
            else:
                for _ in range(e):
                    part = mul(part, g)
                    if part is None:
                        break
                    part = {a: b % m for a, b in part.items() if b % m}
            if part is None:
                return {a: b % m for a, b in p.items() if b % m}
        out = add(out, part)
        if len(out) > MAX_MONOS:
            return {a: b % m for a, b in p.items() if b % m}
    return {a: b % m for a, b in out.items() if b % m}


def name(p, order, m):
    ix = {k: i for i, k in enumerate(order)}
    txt = repr((m, sorted((tuple((ix[k], e) for k, e in mono), c) for mono, c in p.items())))
    return 'poly_' + hashlib.sha1(txt.encode()).hexdigest()[:16]


def apply(p, lo, hi, m=None):
    """the value of a polynomial (modulo m) as an uninterpreted application"""
    from . import stubs
    e = core.E
    order = sorted({k for mono in p for k, _ in mono})
    atoms = [e.state['atoms'][k] for k in order]
    w = core.width_for(lo, hi)

    def real(*vals):
        vs = [v - (1 << a.bv.size()) if a.lo < 0 and v >> (a.bv.size() - 1) else v for v, a in zip(vals, atoms)]
        s = 0
        for mono, c in p.items():
            for k, x in mono:
                c *= vs[order.index(k)] ** x
            s += c
        return (s if m is None else s % m) & ((1 << w) - 1)
    n = name(p, order, m)
    t = stubs.app(n, [a.bv for a in atoms], w, real)
    if t.get_id() not in e.state.setdefault('bounded', set()):
        e.state['bounded'].add(t.get_id())
        e.keep.append(t)
        e.add(z3.And(t >= z3.BitVecVal(lo, w), t <= z3.BitVecVal(hi, w)))
    return t


def product(a, b, lo, hi):
    p = mul(of(a), of(b))
    if p is None:
        return None
    if not p:
        return 0
    if set(p) == {()}:
        return p[()]
    r = core.SymInt(apply(p, lo, hi), lo, hi)
    r.poly = p
    return r


def keep(r, a, b, op):
    """remember what a sum, difference or product is"""
    p = mul(of(a), of(b)) if op == '*' else add(of(a), of(b), 1 if op == '+' else -1)
    if p is None:
        return r
    if not p:
        return 0
    if set(p) == {()}:
        return p[()]
    if op != '*' and r.lo >= 0 and r.hi.bit_length() >= MIN_W:
        # under a name of its own: taken apart into bytes or digits and put together it is still that sum
        e = core.E
        w = r.bv.size()
        names = e.state.setdefault('sumnames', {})
        k = (tuple(sorted(p.items())), w)
        if k not in names:
            names[k] = z3.BitVec('sum_%d_%d' % (len(names), w), w)
            e.add(names[k] == r.bv)
        r = core.SymInt(names[k], r.lo, r.hi)
        remember(r, p)
    r.poly = p
    return r


def residue(p, m):
    """the canonical residue of a polynomial"""
    e = core.E
    p = reduce(p, m)
    if not p:
        return 0
    if set(p) == {()}:
        return p[()]
    if len(p) == 1:
        (mono, c), = p.items()
        if c == 1 and len(mono) == 1 and mono[0][1] == 1:
            a = e.state['atoms'][mono[0][0]]
            if a.lo >= 0 and a.hi < m:
                return a
    r = core.SymInt(apply(p, 0, m - 1, m), 0, m - 1)
    e.state.setdefault('cong', {})[(m, key_of(r))] = p
    return r


def normal(p, m):
    """up to sign"""
    q = {k: (-c) % m for k, c in p.items()}
    return min(p, q, key=lambda d: sorted(d.items()))


def zero_mod(a, b, m):
    """whether a and b (any integers) are congruent: (known answer or None, condition)"""
    d = reduce(add(of(a), of(b), -1), m)
    if not d:
        return True
    if set(d) == {()}:
        return False
    z = residue(normal(d, m), m)
    return z.bv == 0


def remainder(a, m):
    r = residue(of(a), m)
    if not core.is_symint(r) or a.lo < -m or a.hi >= 2 * m:
        return r
    # within one modulus of the range: also known bit by bit
    w = core.width_for(min(a.lo, 0), max(a.hi, m))
    x, mt = core.resize(a.bv, a.lo, w), z3.BitVecVal(m, w)
    v = x
    if a.hi >= m:
        v = z3.If(x >= mt, x - mt, v)
    if a.lo < 0:
        v = z3.If(x < 0, x + mt, v)
    if not r.bv.eq(v):
        core.E.add(core.resize(r.bv, 0, w) == v)
    if a.zero is not None and -m < a.lo and a.hi < m:
        # a difference of two residues: zero exactly when they are equal
        z = zero_mod(a, 0, m)
        if z is True or z is False:
            return 0 if z else r
        core.E.add(z == a.zero)
        r = core.SymInt(r.bv, r.lo, r.hi)
        r.zero = a.zero
    return r


def equal(a, b):
    """axiom linking equality of two residues to the canonical zero test; True/False when decided"""
    e = core.E
    cong = e.state.get('cong', {})
    mods = {m for m, k in cong for x in (a, b) if core.is_symint(x) and x.poly is None and k == key_of(x)}
    for m in mods:
        ok = all(0 <= x < m if not core.is_symint(x) else x.lo >= 0 and x.hi < m for x in (a, b))
        if not ok:
            continue
        z = zero_mod(a, b, m)
        if z is True or z is False:
            return z
        pa, pb = core.int_parts(a), core.int_parts(b)
        w = max(pa[0].size(), pb[0].size())
        c = core.resize(pa[0], pa[1], w) == core.resize(pb[0], pb[1], w)
        if c.get_id() not in e.state.setdefault('linked', set()):
            e.state['linked'].add(c.get_id())
            e.keep.append(c)
            e.add(z == c)
    return None
