def cases(tier):
    deep = tier == 'thorough'
    out = []
    for n in range(5 if deep else 4):
        for width in range(0, 13 if deep else 9):
            rch = []
            if n <= width:
                rch.append('fits')
            if 4 * n > width:
                rch.append('long')
            out.append(dict(name='write %d in %d' % (n, width), func='write', params=dict(n=n, width=width, kind='unicode'), reach=rch))
    for n, width in ((8, 8), (8, 9), (20, 32), (32, 32), (33, 32), (40, 40), (40, 64), (64, 64), (253, 255), (300, 256)):
        for kind in ('ascii', 'hex'):
            out.append(dict(name='write %s %d in %d' % (kind, n, width), func='write', params=dict(n=n, width=width, kind=kind)))
    for width in list(range(0, 12)) + [16, 32] + ([64, 128] if deep else []):
        out.append(dict(name='read %d' % width, func='read', params=dict(width=width)))
    for n in range(1, 4 if deep else 3):
        for width in (1, 4, 7):
            if n <= width:
                out.append(dict(name='roundtrip %d in %d' % (n, width), func='roundtrip', params=dict(n=n, width=width, kind='unicode')))
    for n, width in ((4, 4), (8, 12), (32, 32)):
        for kind in ('hex', 'ascii'):
            out.append(dict(name='roundtrip %s %d in %d' % (kind, n, width), func='roundtrip', params=dict(n=n, width=width, kind=kind)))
    return out


P = dict(cases=cases,
         bounds={'quick': 'every Unicode text of up to 3 characters in widths 0-8; every ASCII or hex-digit text of lengths 8-300 in ten widths up to 256; every stored content of widths 0-11, 16, 32',
                 'thorough': 'every Unicode text of up to 4 characters in widths 0-12; every ASCII or hex-digit text of lengths 8-300 in ten widths up to 256; every stored content of widths 0-11, 16, 32, 64, 128'},
         outside='longer non-ASCII texts, other widths')
