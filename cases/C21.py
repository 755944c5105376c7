def cases(tier):
    deep = tier == 'thorough'
    out = [dict(name='plain %s %s' % (k, b), func='plain', params=dict(kind=k, before=b), weight=10)
           for k in ('bytes', 'bytearray') for b in ('', 'k1', 'p256')]
    out += [dict(name='stored %d %s' % (n, k), func='stored', params=dict(n=n, kind=k), weight=20) for n in (96, 104) for k in ('bytes', 'bytearray')]
    out += [dict(name='wallet %s' % b, func='wallet', params=dict(before=b), weight=10) for b in ('', 'k1')]
    out.append(dict(name='two', func='two', weight=20))
    for n in [n for n in range(131 if deep else 108) if n not in (32, 96, 104)]:
        out.append(dict(name='length %d' % n, func='length', params=dict(n=n)))
    return out


P = dict(cases=cases,
         bounds={'quick': 'all 2^256 private keys as bytes and bytearray, whichever of two curves the process used before; every stored public key with coordinates below the prime in 96 and 104 bytes; '
                          'every other length from 0 to 107; every entropy of a new wallet; two key pairs side by side',
                 'thorough': 'lengths to 130'},
         outside='a stored public key that is all zero (the encoding of infinity) or has coordinates of at least the prime; whether a stored public key belongs to the private key',
         assume=['the bitcoin package multiplies points correctly', 'SHA-256 and RIPEMD-160 are functions', 'Base58 is a function'])
