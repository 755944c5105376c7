def cases(tier):
    deep = tier == 'thorough'
    out = []
    for n in (20, 32):
        for kind in ('bytes', 'bytearray'):
            out.append(dict(name='forms %d %s' % (n, kind), func='forms', params=dict(n=n, kind=kind)))
        for form in ('plain', '0x'):
            out.append(dict(name='back %d %s' % (n, form), func='back', params=dict(n=n, form=form)))
        for prefix in (False, True):
            out.append(dict(name='parse %d %s' % (n, prefix), func='parse', params=dict(n=n, prefix=prefix)))
            ks = range(0, 2 * n + 12) if deep else (0, 1, 2, 3, n, 2 * n - 2, 2 * n - 1, 2 * n, 2 * n + 1, 2 * n + 2, 2 * n + 3, 2 * n + 4)
            for k in ks:
                out.append(dict(name='reject %d %s %d' % (n, prefix, k), func='reject', params=dict(n=n, k=k, prefix=prefix), weight=k))
    return out


P = dict(cases=cases,
         bounds={'quick': 'every 20 and 32 byte value, every hexadecimal text of 40/64 digits in either case, every Unicode text of selected lengths up to 44/68 characters',
                 'thorough': 'every 20 and 32 byte value, every hexadecimal text in either case, every Unicode text of up to 51/75 characters'},
         outside='longer texts')
