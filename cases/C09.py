def cases(tier):
    out = []
    for n in (20, 32):
        for f in ('pair', 'order', 'mutated', 'shared', 'keys'):
            out.append(dict(name='%s %d' % (f, n), func=f, params=dict(n=n), weight=n if f == 'order' else 1))
        for w in ('width', 'bytes', 'bytearray', 'int', 'none', 'text', 'zero', 'obj'):
            out.append(dict(name='foreign %d %s' % (n, w), func='foreign', params=dict(n=n, what=w)))
    return out


P = dict(cases=cases,
         bounds={'quick': 'every pair of 20 or 32 byte values, every overwriting of the source buffer', 'thorough': 'every pair of 20 or 32 byte values, every overwriting of the source buffer'},
         outside='subclasses of the two types; transitivity follows from the proved agreement with the numeric order',
         assume=[])
