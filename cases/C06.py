def cases(tier):
    deep = tier == 'thorough'
    out = []
    for n in [0, 1, 2, 3, 5, 8] + ([13, 252, 253, 254] if deep else [252, 253]):
        for form in ('bytes', 'str'):
            out.append(dict(name='hashes %d %s' % (n, form), func='hashes', params=dict(n=n, form=form), weight=n))
    for lens in ([0], [1], [2, 3], [33], [64], [31, 32, 1]):
        out.append(dict(name='short_hashes %s' % lens, func='short_hashes', params=dict(lens=lens)))
    for n in (0, 1, 2, 3):
        for size in (1, 32, 64):
            out.append(dict(name='write2000 %d x %d' % (n, size), func='write2000', params=dict(n=n, size=size)))
    sets = [[0, 1, 1998, 1999], [7, 255, 256, 1000]] + ([[1023, 1024, 1500, 1501, 1502]] if deep else [])
    for w in sets:
        out.append(dict(name='read2000 %s' % w, func='read2000', params=dict(where=w, upper=False), weight=500))
        out.append(dict(name='write2000full %s' % w, func='write2000full', params=dict(where=w), weight=500))
    out.append(dict(name='read2000 upper', func='read2000', params=dict(where=[3], upper=True), weight=500))
    for sizes in ([], [0], [3], [1, 2], [4, 0, 1], [1] * 9, [253], [0, 254, 1]):
        for limit in (None, len(sizes)):
            out.append(dict(name='array %s max %s' % (sizes, limit), func='array', params=dict(sizes=sizes, limit=limit)))
    out.append(dict(name='array 253 objects', func='array', params=dict(sizes=[0] * 253, limit=None)))
    out.append(dict(name='absent', func='absent'))
    out.append(dict(name='nested', func='nested'))
    return out


P = dict(cases=cases, cfg=dict(max_ticks=3000000),
         bounds={'quick': 'every content of hash lists of 0-3, 5, 8, 252 and 253 hashes; the 2000-entry list with 8 entries of every content at chosen positions and the others fixed; arrays of up to 9 (and of 253) objects with every content',
                 'thorough': 'every content of hash lists of 0-3, 5, 8, 13 and 252-254 hashes; the 2000-entry list with 13 entries of every content at chosen positions and the others fixed; arrays of up to 9 (and of 253) objects with every content'},
         outside='other list lengths; serialization of the objects themselves is theirs')
