def cases(tier):
    deep = tier == 'thorough'
    out = []
    for n in (20, 32):
        for typed in (True, False):
            out.append(dict(name='serialize %d typed=%s' % (n, typed), func='serialize', params=dict(n=n, typed=typed)))
        out.append(dict(name='serialize_hex %d' % n, func='serialize_hex', params=dict(n=n)))
        for how in ('typed', 'own'):
            out.append(dict(name='read %d %s' % (n, how), func='read', params=dict(n=n, how=how)))
            for k in (range(n) if deep else (0, 1, n // 2, n - 2, n - 1)):
                out.append(dict(name='truncated %d %s %d' % (n, how, k), func='truncated', params=dict(n=n, how=how, k=k)))
        out.append(dict(name='again %d' % n, func='again', params=dict(n=n)))
        for kind in ('bytes', 'bytearray'):
            for k in (range(0, 70) if deep else (0, 1, 19, 20, 21, 31, 32, 33, 40, 64)):
                out.append(dict(name='construct %d from %d %s' % (n, k, kind), func='construct', params=dict(n=n, k=k, kind=kind)))
        out.append(dict(name='default %d' % n, func='default', params=dict(n=n)))
        out.append(dict(name='foreign %d' % n, func='foreign', params=dict(n=n)))
    return out


P = dict(cases=cases,
         bounds={'quick': 'every 20 and 32 byte content; truncations and construction lengths at and around the boundaries',
                 'thorough': 'every 20 and 32 byte content; every truncation; construction lengths 0-69'},
         outside='construction lengths of 70 and more',
         assume=['known finding F1: data consisting only of ASCII hexadecimal digits is written unhexlified (an existing test asserts it)'])
