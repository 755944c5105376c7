def cases(tier):
    kinds = ['Int8', 'UInt8', 'Int16', 'UInt16', 'Int32', 'UInt32', 'Int64', 'UInt64']
    out = []
    for k in kinds:
        n = int(k[k.index('t') + 1:]) // 8
        for e in (None, '<', '>'):
            p = dict(kind=k, endian=e)
            out.append(dict(name='roundtrip %s %s' % (k, e), func='roundtrip', params=p))
            out.append(dict(name='decode %s %s' % (k, e), func='decode', params=p))
            for s in (-1, 1):
                out.append(dict(name='rejects %s %s %d' % (k, e, s), func='rejects', params=dict(p, side=s)))
            for j in range(n):
                out.append(dict(name='truncated %s %s %d' % (k, e, j), func='truncated', params=dict(p, k=j)))
    out += [dict(name='fixed8', func='fixed8'), dict(name='fixed8 rejects', func='fixed8_rejects')]
    out += [dict(name='fixed8 truncated %d' % j, func='fixed8_truncated', params=dict(k=j)) for j in range(8)]
    for e in (None, '>'):
        out.append(dict(name='mixed %s' % e, func='mixed', params=dict(kinds=kinds, endian=e)))
        out.append(dict(name='mixed reversed %s' % e, func='mixed', params=dict(kinds=kinds[::-1], endian=e)))
    return out


P = dict(cases=cases, bounds={'quick': 'every value of every width, pairs and sequences of 8 fields, both byte orders; out-of-range numbers up to 2^80; every truncation'},
         outside='longer sequences; numbers beyond 2^80')
