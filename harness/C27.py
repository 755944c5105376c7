"""C27 total order of public keys"""
from neocore.Cryptography.ECCurve import ECDSA, EllipticCurve, FiniteField

PRIMES = {'r1': 0xFFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF, 'k1': 2 ** 256 - 2 ** 32 - 977, 'small': 10007}


def curve(which):
    if which == 'r1':
        return ECDSA.secp256r1().Curve
    if which == 'k1':
        return ECDSA.secp256k1().Curve
    return EllipticCurve(FiniteField(10007), 3, 4)


def make(t, which, names, apart):
    """points with any coordinates below the prime; with apart each has its own curve object"""
    p = PRIMES[which]
    c = curve(which)
    out = []
    for n in names:
        x, y = t.int('x' + n, 0, p - 1), t.int('y' + n, 0, p - 1)
        out.append((x, y, (curve(which) if apart else c).point(x, y)))
    return out


def lexless(t, a, b):
    return t.any([a[0] < b[0], t.all([a[0] == b[0], a[1] < b[1]])])


def pair(t, which, apart):
    a, b = make(t, which, 'ab', apart)
    eq = t.all([a[0] == b[0], a[1] == b[1]])
    lt, gt = lexless(t, a, b), lexless(t, b, a)
    p, q = a[2], b[2]
    t.check(t.same(p == q, eq), 'points are equal though their coordinates differ, or the reverse')
    t.check(t.same(p != q, t.all([1 == 1, eq]) == False), 'inequality is not the opposite of equality')
    t.check(t.same(p < q, lt), 'points are not ordered by x and then y (<)')
    t.check(t.same(p > q, gt), 'points are not ordered by x and then y (>)')
    t.check(t.same(p <= q, t.any([lt, eq])), '<= does not agree with < and ==')
    t.check(t.same(p >= q, t.any([gt, eq])), '>= does not agree with > and ==')


def itself(t, which):
    (x, y, p), = make(t, which, 'a', False)
    t.check(p == p and p <= p and p >= p and not p < p and not p > p and not p != p, 'a point is not just equal to itself')


def three(t, which, apart):
    a, b, c = make(t, which, 'abc', apart)
    p, q, r = a[2], b[2], c[2]
    if p < q:
        if q < r:
            t.check(p < r and r > p and not r < p and not r <= p, 'the order is not transitive')
            t.check(p != r, 'a point is smaller than one equal to it')
    elif p <= q:
        t.check(t.same(p < r, q < r) and t.same(r < p, r < q), 'equal points are ordered differently against a third')
    else:
        t.check(q < p and p > q, 'neither of two different points is smaller')


def ordered(t, which, n):
    """sorting lists of keys"""
    ps = make(t, which, 'abcd'[:n], False)
    s = sorted([p[2] for p in ps])
    t.check(len(s) == n, 'sorting loses keys')
    for i in range(n - 1):
        u, v = (s[i].x.value, s[i].y.value), (s[i + 1].x.value, s[i + 1].y.value)
        t.check(t.any([u[0] < v[0], t.all([u[0] == v[0], u[1] <= v[1]])]), 'sorted keys are not in order')
    for p in ps:
        t.check(t.any([t.all([p[0] == q.x.value, p[1] == q.y.value]) for q in s]), 'sorting replaces keys')
    m = max([p[2] for p in ps])
    t.check(t.same(m.x.value, s[-1].x.value) and t.same(m.y.value, s[-1].y.value), 'the largest key is not the last one')
