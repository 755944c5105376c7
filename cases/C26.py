def cases(tier):
    deep = tier == 'thorough'
    out = [dict(name='encode', func='encode'), dict(name='infinity', func='infinity')]
    for how in ('hex bytes', 'hex text', 'upper case', 'raw bytes', 'a byte array', 'unchecked', 'the curve', '33 bytes', '65 bytes', '64 bytes', '72 bytes',
                'uncompressed hex', 'uncompressed bytes', 'x and parity', '96 bytes', '104 bytes', 'order', 'stream'):
        out.append(dict(name='trip %s' % how, func='trip', params=dict(how=how), weight=5))
    for how in ('below', 'wide x', 'y wide', 'wide and wide'):
        out.append(dict(name='coordinates %s' % how, func='any_coordinates', params=dict(how=how), weight=5))
    for how in ('stream', 'hex', 'raw', '33 bytes'):
        out.append(dict(name='any x %s' % how, func='any_x', params=dict(how=how), weight=5))
    for n in list(range(0, 4)) + [31, 32, 33, 34, 35, 63, 64, 65, 66, 67] + [97, 98, 128, 129, 130, 131]:
        for kind in ('hex', 'raw', 'key', 'unchecked') if n < 97 or deep else ('hex', 'key'):
            out.append(dict(name='shape %s %d' % (kind, n), func='shapes', params=dict(n=n, kind=kind)))
    for n in [0, 1, 2, 16, 31, 32, 34, 63, 66, 71, 73, 95, 97, 103, 105, 128]:
        out.append(dict(name='from bytes %d' % n, func='from_bytes', params=dict(n=n)))
    for n in (0, 1, 2, 16, 31, 32, 33, 34, 65):
        out.append(dict(name='stream %d' % n, func='stream', params=dict(n=n)))
    for n in (66, 130):
        for i in (0, 1, n // 2, n - 1):
            out.append(dict(name='not hex %d %d' % (n, i), func='not_hex', params=dict(n=n, i=i)))
    for p in (7, 11, 19, 23) + ((31, 43) if deep else ()):
        out.append(dict(name='small %d' % p, func='small', params=dict(p=p, width=1), weight=p))
        out.append(dict(name='small trip %d' % p, func='small_trip', params=dict(p=p), weight=p))
    return out


P = dict(cases=cases, bounds={'quick': 'P-256: every pair of coordinates below the prime (encoding), every point through 18 ways of decoding, every 32 byte x and every pair of 32 byte coordinates (decoding), '
                               'every byte string of 0 to 3, 31 to 35, 63 to 67 bytes and the listed other lengths up to 131, streams of up to 65 bytes, texts of 66 and 130 characters with a wrong one at four places; '
                               'every curve with b not 0 over the fields of 7, 11, 19 and 23 elements with every prefix byte and every one byte x, and every one of their points through a stream',
                 'thorough': 'also the fields of 31 and 43 elements'},
         outside='the uncompressed encoding of (0, 0); other lengths; the field primes that are 1 modulo 4',
         assume=['P-256: the root power of a square, pow(v, (p+1)/4, p), squares to v; no point has y = 0 (the order is odd)'])
