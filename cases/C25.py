PRIME = {5: [((2, 1), 7), ((3, 2), 5), ((4, 2), 3)], 7: [((0, 3), 13), ((1, 1), 5), ((1, 6), 11), ((0, 5), 7)],
         11: [((1, 5), 11), ((1, 6), 13), ((2, 4), 17), ((2, 7), 7)], 13: [((0, 2), 19), ((0, 6), 7), ((1, 6), 13)],
         17: [((1, 3), 17), ((2, 2), 19), ((2, 6), 11)], 19: [((0, 2), 13), ((0, 10), 19)], 23: [((1, 4), 29), ((1, 19), 19)]}


R1 = 0xFFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF
R1N = 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551
R1B = 0x5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for p in (5, 7, 11, 13, 17, 19, 23) if deep else (5, 7, 11):
        for f in ('add', 'double', 'commute', 'neutral', 'subtract', 'membership'):
            if deep or p < 11 or f != 'add':
                out.append(dict(name='%s %d' % (f, p), func=f, params=dict(p=p), weight=p * 10))
    if not deep:
        out += [dict(name='%s 13' % f, func=f, params=dict(p=13), weight=9) for f in ('double', 'neutral', 'membership')]
    for p in (5, 7, 11, 13) if deep else (5, 7):
        for ab, n in PRIME[p]:
            if deep or p * n < 50:
                out.append(dict(name='associate %d %s' % (p, ab), func='associate', params=dict(p=p, ab=ab), weight=p * n * 10))
                out.append(dict(name='any multiple %d %s' % (p, ab), func='any_multiple', params=dict(p=p, ab=ab, g=0, n=n, lo=-5, hi=2 * n), weight=p * n * 3))
            if deep or p * n < 60:
                out.append(dict(name='divide %d %s' % (p, ab), func='divide', params=dict(p=p, ab=ab, n=n), weight=p * n * 2))
    for p in (5, 7, 11) if deep else (5,):
        for n in (-8, -5, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 13, 16):
            for v in (False, True):
                if n < 0 and v:
                    continue
                if deep or abs(n) < 4 and not v:
                    out.append(dict(name='multiply %d %d %s' % (p, n, v), func='multiply', params=dict(p=p, n=n, ab=None, value=v), weight=abs(n)))
                elif abs(n) < 9:
                    out.append(dict(name='multiply %d %d %s' % (p, n, v), func='multiply', params=dict(p=7, n=n, ab=(1, 1), value=v), weight=abs(n)))
    for name, base in (('2^8', 1 << 8), ('2^64', 1 << 64), ('2^128', (1 << 128) + 4), ('2^255', 1 << 255), ('2^256', (1 << 256) - 4), ('order', R1N - 3), ('odd', 0x55 << 250)):
        for p, ab, u, n in ((5, (2, 1), (0, 1), 7), (23, (1, 4), (0, 2), 29)):
            out.append(dict(name='big multiple %s %d' % (name, p), func='big_multiple', params=dict(p=p, ab=ab, u=u, n=n, base=base, span=63 if deep else 15)))
    for k, top in ((1, 255), (2, 3)) + (((2, 15), (3, 1)) if deep else ()):
        out.append(dict(name='text multiple %d %d' % (k, top), func='text_multiple', params=dict(p=5, ab=(2, 1), u=(0, 1), n=7, k=k, top=top)))
    for what in ('double', 'add', 'opposite'):
        out.append(dict(name='formula %s' % what, func='formula', params=dict(p=R1, a=R1 - 3, b=R1B, what=what), weight=20))
    return out


P = dict(cases=cases,
         bounds={'quick': 'every curve y^2 = x^3 + ax + b with b not 0 and every pair of its points over the fields of 5 and 7 elements (11 for differences and commutativity, 13 for one operand); '
                          'associativity, division and all scalars from -5 to twice the order on prime-order curves over 5 and 7 elements; given scalars from -8 to 16 on every curve over 5 elements, '
                          'scalars of up to 258 bits with any last digits, and of one byte and of two as hexadecimal text, on one curve; the formulas for a sum and for a double as polynomial identities modulo the prime of P-256',
                 'thorough': 'fields of up to 23 elements (13 for associativity and scalars, 11 for given scalars)'},
         outside='curves through the origin, composite orders for division, other large scalars', assume=[])
