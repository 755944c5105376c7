def cases(tier):
    deep = tier == 'thorough'
    out = [dict(name='version', func='version', weight=5)]
    for n in (21, 20, 22, 0, 1, 24, 25) + ((17, 33, 53) if deep else ()):
        for ch in ('none', 'checksum', 'one byte', 'single hash', 'last four'):
            if n == 21 or ch in ('none', 'checksum') or deep:
                out.append(dict(name='payload %d %s' % (n, ch), func='payload', params=dict(n=n, change=ch), weight=n))
    for at in (range(21) if deep else (0, 1, 10, 20)):
        out.append(dict(name='changed %d' % at, func='changed_body', params=dict(at=at)))
    for n in (0, 1, 2, 4):
        for kind in ('ascii', 'unicode'):
            out.append(dict(name='text %d %s' % (n, kind), func='text', params=dict(n=n, kind=kind, first='')))
    for n in (33, 34, 35) + ((16, 30, 40) if deep else ()):
        out.append(dict(name='text %d' % n, func='text', params=dict(n=n, kind='ascii', first='')))
        for at in (0, 1, n // 2, n - 2):
            out.append(dict(name='foreign %d %d' % (n, at), func='foreign', params=dict(n=n, at=at)))
    for n in (34, 35) + ((40,) if deep else ()):
        for ones in (0, 1, 2, 5, 25) + ((3, 10, 24, 26, 30) if deep else ()):
            for tail in (0, 1, 3):
                if n - ones - tail > 3:
                    out.append(dict(name='padded %d %d %d' % (n, ones, tail), func='padded', params=dict(n=n, ones=ones, tail=tail)))
    for n in (0, 1, 3) + ((5,) if deep else ()):
        out.append(dict(name='bytes %d' % n, func='text_bytes', params=dict(n=n)))
    out.append(dict(name='text A+33', func='text', params=dict(n=33, kind='ascii', first='A')))
    return out


P = dict(cases=cases,
         bounds={'quick': 'Base58 texts of every payload of 21 bytes (any version) with any checksum, and of payloads of 0, 1, 20, 22, 24, 25 bytes; every Unicode text of 0, 1, 2, 4 characters, every ASCII text of 33 to 35 characters with at most two leading ones and trailing white space, and those with two arbitrary Unicode characters at four places, and those with selected longer runs of leading ones and trailing white space',
                 'thorough': 'also payloads of 17, 33 and 53 bytes, every changed byte position, texts of 16, 30 and 40 characters, more runs'},
         outside='other lengths', assume=['Base58 is injective', 'SHA-256 is a function; where a payload byte is changed, its checksum is assumed to change'])
