# field, curve, a point of it, order: larger and smaller than the field, and equal to it
GROUPS = [(5, (2, 1), (0, 1), 7), (7, (1, 1), None, 5), (7, (0, 5), None, 7), (7, (1, 6), None, 11), (11, (1, 6), None, 13), (11, (2, 7), None, 7),
          (11, (1, 5), None, 11), (13, (0, 2), None, 19), (13, (0, 6), None, 7), (17, (2, 6), None, 11), (23, (1, 19), None, 19), (23, (1, 4), None, 29)]


def add(p, a, u, v):
    (x1, y1), (x2, y2) = u, v
    if u == (0, 0):
        return v
    if v == (0, 0):
        return u
    if x1 == x2 and (y1 + y2) % p == 0:
        return (0, 0)
    s = (3 * x1 * x1 + a) * pow(2 * y1, -1, p) if u == v else (y2 - y1) * pow(x2 - x1, -1, p)
    x = (s * s - x1 - x2) % p
    return (x, (s * (x1 - x) - y1) % p)


def base(p, ab):
    for x in range(1, p):
        for y in range(1, p):
            if (y * y - x ** 3 - ab[0] * x - ab[1]) % p == 0:
                return (x, y)


def multiples(p, ab, g, n):
    w = [(0, 0)]
    for i in range(1, n):
        w.append(add(p, ab[0], w[-1], g))
    assert add(p, ab[0], w[-1], g) == (0, 0) and len(set(w)) == n
    return w


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for p, ab, g, n in GROUPS:
        if not deep and n > 13:
            continue
        g = g or base(p, ab)
        G = dict(p=p, ab=ab, g=g, n=n)
        w = multiples(p, ab, g, n)
        x = [q[0] % n for q in w]
        tag = '%d %s %d' % (p, ab, n)
        out.append(dict(name='public key %s' % tag, func='calcpub', params=dict(G, lo=0, hi=3 * n)))
        out.append(dict(name='sign %s' % tag, func='sign', params=dict(G, top=2 * n if deep or n < 6 else n - 1 if n < 8 else 1), weight=n * 5))
        if deep and n < 20 or n < 12 and p != 17:
            for k in range(1, n) if deep else sorted({1, n - 2, n - 1}):
                out.append(dict(name='verify %s %d' % (tag, k), func='verify', params=dict(G, x=k, top=n + 2 if n > 6 else 2 * n, mtop=n + 2 if n < 8 or deep else 3), weight=n * 4))
        out.append(dict(name='crack %s' % tag, func='crack', params=G, weight=n))
        good = [k for k in range(1, n) if x[k]]
        for k in good if deep else good[:2]:
            out.append(dict(name='crack2 %s %d' % (tag, k), func='crack2', params=dict(G, k=k), weight=n))
        # the point behind a signature is found from its r when its x coordinate is below the order; there are no roots for fields of 8i+1
        good = [k for k in range(1, n) if 0 < w[k][0] < n and p % 8 != 1]
        for k in good if deep else good[:3]:
            out.append(dict(name='findpk %s %d' % (tag, k), func='findpk', params=dict(G, k=k, flag=w[k][1] & 1), weight=n))
        pairs = [(i, j) for i in good for j in good if w[i][0] != w[j][0]]
        for i, j in pairs[::7] if deep else pairs[:2]:
            out.append(dict(name='findpk2 %s %d %d' % (tag, i, j), func='findpk2', params=dict(G, k=i, k2=j, flag=w[i][1] & 1, flag2=w[j][1] & 1), weight=n))
    for k in (1, 2, 3, 0xC0FFEE, (1 << 255) + 12345, 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632550):
        out.append(dict(name='P-256 %x' % k, func='big', params=dict(k=k, flip=k < 4), cfg=dict(max_ticks=20000000)))
    for which in ('P-256', 'secp256k1'):
        out.append(dict(name='named ' + which, func='named', params=dict(which=which), cfg=dict(max_ticks=20000000)))
    return out


P = dict(cases=cases,
         bounds={'quick': 'prime-order groups of 5 to 13 points on curves over the fields of 5 to 17 elements (orders below, equal to and above the field size): every private key, every secret, messages up to the order '
                          '(0 and 1 for the larger groups), every pair of numbers a little beyond the order (groups of up to 11 points); the constants of P-256 and secp256k1; signing on P-256 with six given secrets and any key and message as polynomial identities',
                 'thorough': 'groups of up to 29 points, every key and messages up to twice the order'},
         outside='large groups; recovery of the public key when the x coordinate behind r is not below the order, and over fields of 8i+1 elements (no square roots there)', assume=[])
