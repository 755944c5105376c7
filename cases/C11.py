def cases(tier):
    deep = tier == 'thorough'
    out = [dict(name='constants', func='constants', params=dict())]
    top = 140 if deep else 66
    # one case per byte length keeps the queries small
    for k in range(1, top + 1):
        lo, hi = (0 if k == 1 else 1 << (8 * k - 8)), (1 << (8 * k)) - 1
        out.append(dict(name='signed +%d bytes' % k, func='to_signed', params=dict(lo=lo, hi=hi), weight=k))
        out.append(dict(name='signed -%d bytes' % k, func='to_signed', params=dict(lo=-hi - 1, hi=-lo - 1), weight=k))
        out.append(dict(name='unsigned %d bytes' % k, func='to_unsigned', params=dict(lo=lo, hi=hi), weight=k))
    for k in range(0, (141 if deep else 67)):
        for kind in ('bytes', 'bytearray'):
            out.append(dict(name='from_bytes %d %s' % (k, kind), func='from_bytes', params=dict(n=k, kind=kind)))
    return out


P = dict(cases=cases,
         bounds={'quick': 'every integer of up to 528 bits and sign, every byte string of up to 66 bytes',
                 'thorough': 'every integer of up to 1120 bits and sign, every byte string of up to 140 bytes'},
         outside='larger integers and longer byte strings')
