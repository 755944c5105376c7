R1 = 0xFFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF
K1 = 2 ** 256 - 2 ** 32 - 977


def cases(tier):
    deep = tier == 'thorough'
    out = []
    small = [3, 5, 7, 11, 13, 17, 19, 23] + ([29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 127, 251] if deep else [29, 31])
    for p in small + [10007, 65521, R1, K1]:
        big = p > 1 << 100
        n = 'R1' if p == R1 else 'K1' if p == K1 else p
        out.append(dict(name='ring %s' % n, func='ring', params=dict(p=p, big=big), weight=2))
        if p < 300 or big:
            out.append(dict(name='laws %s' % n, func='laws', params=dict(p=p, big=big), weight=5))
        out.append(dict(name='residues %s' % n, func='residues', params=dict(p=p, big=big), weight=2))
        out.append(dict(name='ints %s' % n, func='ints', params=dict(p=p, big=big, lo=-3 * p, hi=3 * p), weight=2))
        for e in (range(0, 6) if p > 300 else (0, 1, 2, 3, 5, p - 2, p - 1, p, p + 1, 2 * p)):
            if p < 300 or big or e < 4:
                for v in (False, True):
                    if not v or e in (0, 2, 3):
                        out.append(dict(name='power %s %d %s' % (n, e, v), func='power', params=dict(p=p, e=e, big=big, valexp=v)))
    for p in small:
        out.append(dict(name='division %d' % p, func='division', params=dict(p=p), weight=p))
        for g in ('int_by_value', 'value_by_int') + (('quotients',) if p < 20 or deep and p < 50 else ()):
            out.append(dict(name='%s %d' % (g.replace('_', ' '), p), func=g, params=dict(p=p), weight=p))
        out.append(dict(name='inverses %d' % p, func='inverses', params=dict(p=p)))
        if p < 20 or deep and p < 75:
            out.append(dict(name='powers %d' % p, func='powers', params=dict(p=p), weight=p))
            out.append(dict(name='rpower %d' % p, func='rpower', params=dict(p=p), weight=p))
        if p % 8 != 1:
            out.append(dict(name='roots %d' % p, func='roots', params=dict(p=p), weight=p))
        if p % 4 == 3:
            out.append(dict(name='roots cq %d' % p, func='roots_cq', params=dict(p=p), weight=p))
    for p in (101, 103, 107, 109) + ((251, 239, 241, 229, 499, 509) if deep else ()):
        out.append(dict(name='inverses %d' % p, func='inverses', params=dict(p=p)))
        if p % 8 != 1:
            out.append(dict(name='roots %d' % p, func='roots', params=dict(p=p), weight=p))
        if p % 4 == 3:
            out.append(dict(name='roots cq %d' % p, func='roots_cq', params=dict(p=p), weight=p))
    for p, n in ((251, 1), (65521, 1), (65521, 2), (K1, 1), (K1, 3), (K1, 32), (R1, 2), (R1, 32)) + (((R1, 3), (R1, 16), (K1, 31)) if deep else ()):
        out.append(dict(name='texts %d %d' % (p.bit_length(), n), func='texts', params=dict(p=p, n=n)))
    for p, q in ((7, 11), (11, 7), (13, 17)):
        out.append(dict(name='mixed %d %d' % (p, q), func='mixed', params=dict(p=p, q=q)))
    return out


P = dict(cases=cases,
         bounds={'quick': 'all elements of the fields of 3 to 31 elements for every operation, with integers from -3p to 3p on either side (divisors from -2p to 2p), field values made from integers from -2p to 2p (division up to the field of 19 elements), exponents from 0 to 2p; square roots and inverses also modulo 101 to 109; '
                          'the ring operations, integers and powers up to 5 also modulo 10007, 65521 and the primes of P-256 and secp256k1 (products there as canonical polynomials); values given as hexadecimal text of 1 to 32 bytes',
                 'thorough': 'also the fields up to 73 elements, 127 and 251; inverses and roots up to 509'},
         outside='field values constructed from numbers beyond twice the prime; powers and roots of such values; inverses and roots in large fields; roots modulo primes that are 1 modulo 8 (not supported by the code)',
         assume=[])
