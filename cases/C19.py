def cases(tier):
    deep = tier == 'thorough'
    out = [dict(name='export ' + k, func='export', params=dict(kind=k), weight=20) for k in ('bytes', 'bytearray')]
    out += [dict(name='stored %d' % n, func='stored', params=dict(n=n), weight=20) for n in (96, 104)]
    if deep:
        out.append(dict(name='distinct', func='distinct', weight=20))
    for first, last in ((None, None), (0x80, 1), (0x80, None), (None, 1), (0x81, 1), (0x80, 0)):
        out.append(dict(name='framed %s %s' % (first, last), func='framed', params=dict(first=first, last=last)))
    for n in (34, 33, 35, 0, 1, 32) + ((30, 38, 52, 66) if deep else ()):
        for ch in ('none', 'any checksum', 'one byte', 'single hash', 'last four', 'without the prefix'):
            if n == 34 or ch in ('none', 'any checksum') or deep:
                if n or ch != 'without the prefix':
                    out.append(dict(name='content %d %s' % (n, ch), func='content', params=dict(n=n, change=ch, zeros=None if deep or n < 4 or (n, ch) == (34, 'none') else 1)))
    for at in (range(34) if deep else (0, 1, 17, 32, 33)):
        out.append(dict(name='changed %d' % at, func='changed', params=dict(at=at)))
    for n in (0, 1, 3):
        for kind in ('ascii', 'unicode'):
            out.append(dict(name='text %d %s' % (n, kind), func='text', params=dict(n=n, kind=kind, first='')))
    for n in (51, 52, 53) + ((20, 34, 50, 58, 70) if deep else ()):
        for first in ('', 'K', 'L'):
            out.append(dict(name='text %s%d' % (first, n), func='text', params=dict(n=n, kind='ascii', first=first), weight=5))
        if n == 52 or deep:
            for at in (0, 1, n // 2, n - 2):
                out.append(dict(name='foreign %d %d' % (n, at), func='foreign', params=dict(n=n, at=at)))
    for n in (52, 53) + ((60,) if deep else ()):
        for ones in (0, 1, 5) + ((38, 10) if deep else ()):
            for tail in (0, 1, 2):
                out.append(dict(name='padded %d %d %d' % (n, ones, tail), func='padded', params=dict(n=n, ones=ones, tail=tail)))
    return out


P = dict(cases=cases,
         bounds={'quick': 'every valid private key; Base58 texts of every content of 0, 1, 32 to 35 bytes with any checksum; every ASCII text of 51 to 53 characters '
                          'with at most two leading ones and trailing white space; every Unicode text of 0, 1, 3 characters; 52 character texts with two arbitrary Unicode '
                          'characters at four places; selected runs of leading ones and trailing white space; contents with another checksum, and of 32, 33, 35 bytes, have at most one leading zero byte here',
                 'thorough': 'any number of leading zero bytes; also contents of 30, 38, 52 and 66 bytes, every changed byte position, texts of 20 to 70 characters'},
         outside='other lengths',
         assume=['Base58 is injective', 'SHA-256 is a function; where a byte is changed, its checksum is assumed to change',
                 'the bitcoin package multiplies the generator correctly'])
