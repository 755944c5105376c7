def cases(tier):
    deep = tier == 'thorough'
    out = [dict(name='empty', func='empty')]
    ns = list(range(1, 34 if deep else 18)) + ([64, 65, 100, 127, 128, 129, 200] if deep else [31, 33, 64, 65, 100, 129])
    for n in ns:
        out.append(dict(name='build %d' % n, func='build', params=dict(n=n), weight=n))
        out.append(dict(name='shape %d' % n, func='shape', params=dict(n=n), weight=n))
    for n in (1, 2, 3, 4) + ((5,) if deep else ()):
        out.append(dict(name='hash array %d' % n, func='hash_array', params=dict(n=n, eq=list(range(n))), weight=3 * n))
    for n, eq in ((2, [0, 0]), (3, [0, 1, 0]), (3, [0, 0, 0]), (5, [0, 1, 1, 0, 1])):
        out.append(dict(name='hash array %s' % eq, func='hash_array', params=dict(n=n, eq=eq), weight=3 * n))
    for n in (1, 2, 3, 4, 5, 7) + ((8, 9, 11) if deep else ()):
        for at in range(n):
            out.append(dict(name='commits %d %d' % (n, at), func='commits', params=dict(n=n, at=at), weight=n))
    return out


P = dict(cases=cases,
         bounds={'quick': 'every content of lists of 1 to 17, 31, 33, 64, 65, 100 and 129 hashes; distinct-leaf arrays of up to 5 leaves; change of every single leaf of up to 7',
                 'thorough': 'every content of lists of 1 to 33, 64, 65, 100, 127 to 129 and 200 hashes; change of every single leaf of up to 11'},
         outside='longer lists', assume=['SHA-256 is a function; for the commitment cases it is assumed injective on the strings compared'])
