def cases(tier):
    deep = tier == 'thorough'
    out = []
    for n in range(1, 19 if deep else 13):
        for m in range(0, n + 1):
            out.append(dict(name='trim %d by %d' % (n, m), func='trim', params=dict(n=n, m=m, kind='bytes'), weight=2 ** m))
        out.append(dict(name='trim %d by bytearray' % n, func='trim', params=dict(n=n, m=n, kind='bytearray'), weight=2 ** n))
        out.append(dict(name='all flagged %d' % n, func='all_flagged', params=dict(n=n)))
    for n in range(2, 15 if deep else 9):
        for same in (True, 'two'):
            out.append(dict(name='trim %d equal leaves %s' % (n, same), func='trim', params=dict(n=n, m=n, kind='bytes', same=same), weight=2 ** n))
    for n in (16, 17, 33):
        for m in (0, 1, 2, 3):
            out.append(dict(name='trim %d by %d' % (n, m), func='trim', params=dict(n=n, m=m, kind='bytes'), weight=2 ** m))
        out.append(dict(name='all flagged %d' % n, func='all_flagged', params=dict(n=n)))
    for n in (2, 3, 4, 5, 6) + ((7, 8, 9) if deep else ()):
        out.append(dict(name='twice %d' % n, func='twice', params=dict(n=n), weight=4 ** n))
    seen, r = set(), []
    for c in out:
        if c['name'] not in seen:
            seen.add(c['name'])
            r.append(c)
    return r


P = dict(cases=cases,
         bounds={'quick': 'trees of 1 to 12 leaves with every flag array of up to as many bytes, trees of 16, 17, 33 leaves with every flag array of up to 3 bytes, and all leaves flagged; two trims of up to 6 leaves',
                 'thorough': 'trees of 1 to 18 leaves with every flag array of up to as many bytes, two trims of up to 9 leaves'},
         outside='more leaves; flag arrays with more bytes than leaves (their surplus bytes have no documented meaning)')
