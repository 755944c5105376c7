def cases(tier):
    deep = tier == 'thorough'
    out = []
    for bits in ((8, 64, 256) + ((512,) if deep else ())):
        for plain in (False, True):
            for op in '+-':
                out.append(dict(name='%s %d %s' % (op, bits, plain), func='binary', params=dict(op=op, bits=bits, plain=plain)))
    for bits in (8, 64) + ((256,) if deep else ()):
        for plain in (False, True):
            out.append(dict(name='* %d %s' % (bits, plain), func='binary', params=dict(op='*', bits=bits, plain=plain)))
            for op in ('//', '/', '%'):
                out.append(dict(name='%s %d %s' % (op, bits, plain), func='binary', params=dict(op=op, bits=bits, plain=plain), weight=bits))
    for bits, wide in ((5, 5), (7, 4)) + (((6, 6), (10, 4)) if deep else ()):
        for op in ('//', '/', '%'):
            out.append(dict(name='floor %s %d %d' % (op, bits, wide), func='divide_identity', params=dict(op=op, bits=bits, wide=wide), weight=bits))
    for bits in (8, 64, 256):
        out.append(dict(name='unary %d' % bits, func='unary', params=dict(bits=bits)))
        out.append(dict(name='inplace %d' % bits, func='inplace', params=dict(bits=bits)))
        for n in (0, 1, 7, 8, 31, 32, 63, 64, 65, 200):
            out.append(dict(name='shift %d by %d' % (bits, n), func='shift_by', params=dict(bits=bits, n=n)))
    out.append(dict(name='shifts 64', func='shifts', params=dict(bits=64, k=12)))
    for op in ('+', '-', '*', '//', '/', '%'):
        for a in (0, 1, -1, 7, -10, 256, 10 ** 8, -(2 ** 63)):
            for left in (True, False):
                out.append(dict(name='fixed %s %d %s' % (op, a, left), func='fixed', params=dict(op=op, a=a, left=left)))
    return out


P = dict(cases=cases,
         bounds={'quick': 'every pair of integers up to 256 bits for sums, differences, comparisons and up to 64 bits for products and quotients; shifts of 256 bit integers by selected amounts up to 200, of 64 bit ones by every amount up to 12',
                 'thorough': 'every pair of integers up to 512 bits for sums and differences, 256 bits for products and quotients; the floor property of quotients independently of division for quotients and divisors of up to 6 by 6 and 10 by 4 bits'},
         outside='larger integers; products and quotients are compared with the solver\'s own exact multiplication and division')
