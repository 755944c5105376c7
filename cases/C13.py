def cases(tier):
    deep = tier == 'thorough'
    out = [dict(name='negate', func='negate'), dict(name='compare', func='compare'), dict(name='constants', func='constants')]
    for op in ('+', '-', '*', '//', '%', '/'):
        for inplace in (False, True):
            out.append(dict(name='%s%s' % (op, '=' if inplace else ''), func='binary', params=dict(op=op, inplace=inplace), weight=9))
            out.append(dict(name='self %s%s' % (op, '=' if inplace else ''), func='same_object', params=dict(op=op, inplace=inplace)))
            if deep:
                out.append(dict(name='%s%s 120' % (op, '=' if inplace else ''), func='binary',
                                params=dict(op=op, inplace=inplace, lo=-2 ** 120, hi=2 ** 120), weight=9))
            out.append(dict(name='%s%s small' % (op, '=' if inplace else ''), func='binary',
                            params=dict(op=op, inplace=inplace, lo=-40, hi=40), weight=9))
    for op in ('//', '%', '/'):
        for b in (1, -1, 2, 3, -7, 10 ** 8, -10 ** 8, 2 ** 62, -2 ** 63) + ((10, 1000003, -3 * 10 ** 8, 2 ** 53 + 1) if deep else ()):
            out.append(dict(name='%s by %d' % (op, b), func='by_constant', params=dict(op=op, b=b)))
        out.append(dict(name='scaled ' + op, func='scaled', params=dict(op=op), weight=5))
    for e in range(0, 5 if deep else 4):
        for m in (None, 2, 7, -7, 10 ** 8):
            h = 2 ** 31 if e < 3 and m is None else 100
            out.append(dict(name='power %d %s' % (e, m), func='power', params=dict(e=e, m=m, lo=-h, hi=h)))
    return out


P = dict(cases=cases,
         bounds={'quick': 'every pair of 64 bit signed counts; powers 0 to 3 of counts up to 100 (first and second powers: 2^31), with and without a modulus', 'thorough': 'every pair of counts of up to 120 bits'},
         outside='powers beyond the third (thorough: fourth) and of counts beyond 100 (squares: 2^31); exact multiplication and division are the solver\'s own (and checked against the defining equation for 5 bit operands)')
