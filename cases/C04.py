def cases(tier):
    deep = tier == 'thorough'
    lens = [0, 1, 2, 3, 4, 5, 8, 16, 33, 64] + ([20, 32, 40, 100, 200] if deep else [])
    big = [0xfb, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0x101]
    huge = [0xffff, 0x10000] + ([0xfffe, 0x10001, 70000] if deep else [])
    out = []
    for n in lens:
        for kind in ('bytes', 'bytearray'):
            out.append(dict(name='var_bytes %d %s' % (n, kind), func='var_bytes', params=dict(n=n, m=2, kind=kind)))
            out.append(dict(name='raw %d %s' % (n, kind), func='raw', params=dict(n=n, kind=kind)))
        out.append(dict(name='var_string_bytes %d' % n, func='var_string_bytes', params=dict(n=n, m=3)))
        out.append(dict(name='unhex %d' % n, func='unhex', params=dict(n=n)))
        out.append(dict(name='string8 %d' % n, func='string8', params=dict(n=n, extra=2)))
        out.append(dict(name='sequence %d' % n, func='sequence', params=dict(n=n)))
    for n in big:
        out.append(dict(name='var_bytes %d' % n, func='var_bytes', params=dict(n=n, m=0xfd)))
        for endian in '<>':
            out.append(dict(name='prefix %d %s' % (n, endian), func='prefix_order', params=dict(n=n, endian=endian)))
        out.append(dict(name='var_string_bytes %d' % n, func='var_string_bytes', params=dict(n=n, m=1)))
        if n <= 255:
            out.append(dict(name='string8 %d' % n, func='string8', params=dict(n=n, extra=1)))
        out.append(dict(name='var_string ascii %d' % n, func='var_string', params=dict(n=n, kind='ascii', encoding=None)))
    for n in huge:
        out.append(dict(name='var_bytes %d' % n, func='var_bytes', params=dict(n=n, m=1), weight=50))
        out.append(dict(name='var_string_bytes %d' % n, func='var_string_bytes', params=dict(n=n, m=1), weight=50))
    for n in range(6 if deep else 4):
        out.append(dict(name='var_string unicode %d' % n, func='var_string', params=dict(n=n, kind='unicode', encoding=None)))
        out.append(dict(name='var_string utf-8 %d' % n, func='var_string', params=dict(n=n, kind='unicode', encoding='utf-8')))
    for n in range(3):
        out.append(dict(name='var_string utf-16-le %d' % n, func='var_string', params=dict(n=n, kind='unicode', encoding='utf-16-le')))
    for n in (0, 1, 2, 3, 8, 40):
        out.append(dict(name='var_string latin-1 %d' % n, func='var_string', params=dict(n=n, kind='latin', encoding='latin-1')))
        out.append(dict(name='var_string ascii enc %d' % n, func='var_string', params=dict(n=n, kind='ascii', encoding='ascii')))
        out.append(dict(name='var_string hex digits %d' % n, func='var_string', params=dict(n=n, kind='hex', encoding=None)))
    return out


P = dict(cases=cases, cfg=dict(max_ticks=3000000),
         bounds={'quick': 'every content of byte payloads of lengths 0-5, 8, 16, 33, 64, 251-257, 65535 and 65536; every Unicode text up to 3 characters, every ASCII text of 251-257 characters; utf-8, utf-16-le, latin-1 and ascii encodings; both byte orders of the length',
                 'thorough': 'every content of byte payloads of lengths 0-5, 8, 16, 20, 32, 33, 40, 64, 100, 200, 251-257, 65534-65537 and 70000; every Unicode text up to 5 characters, every ASCII text of 251-257 characters; utf-8, utf-16-le, latin-1 and ascii encodings; both byte orders of the length'},
         outside='other lengths (the code branches on the length only through the prefix form) and other encodings')
