def cases(tier):
    deep = tier == 'thorough'
    out = []
    for w in ('r1', 'k1', 'small'):
        for apart in (False, True):
            out.append(dict(name='pair %s %s' % (w, apart), func='pair', params=dict(which=w, apart=apart)))
            out.append(dict(name='three %s %s' % (w, apart), func='three', params=dict(which=w, apart=apart), weight=5))
        out.append(dict(name='itself %s' % w, func='itself', params=dict(which=w)))
        for n in (2, 3) + ((4,) if deep else ()):
            out.append(dict(name='ordered %s %d' % (w, n), func='ordered', params=dict(which=w, n=n), weight=5))
    return out


P = dict(cases=cases,
         bounds={'quick': 'all pairs and triples of points with any coordinates below the prime (infinity included, whether or not on the curve) of P-256, secp256k1 and a 14 bit prime; sorted lists of up to 3 keys',
                 'thorough': 'sorted lists of up to 4 keys'},
         outside='coordinates of at least the prime', assume=[])
