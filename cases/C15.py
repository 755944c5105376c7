M = 10 ** 15 - 1


def cases(tier):
    deep = tier == 'thorough'
    out = [dict(name='text ' + h, func='text', params=dict(lo=-M, hi=M, how=h), weight=5) for h in ('ToString', 'str')]
    out += [dict(name='json', func='json_text', params=dict(lo=-M, hi=M), weight=5),
            dict(name='special', func='special'), dict(name='whole double', func='whole_double')]
    for lo, hi in ((-20000, 20000), (D8 * 9, D8 * 11), (-D8 - 10 ** 4, -D8 + 10 ** 4)) + (((M - 10 ** 5, M), (-M, M)) if deep else ()):
        out.append(dict(name='shape %d %d' % (lo, hi), func='shape', params=dict(lo=lo, hi=hi), weight=20))
    ab = [(1, 8), (9, 8), (3, 9), (1, 0), (12, 0), (0, 1), (0, 8), (2, 5), (10, 12)]
    if deep:
        ab = [(a, b) for a in (0, 1, 2, 5, 9, 13, 17, 22) for b in (0, 1, 2, 4, 7, 8, 9, 10, 15, 21) if a + b]
    for a, b in ab:
        for sign in ('', '-', '+'):
            out.append(dict(name='digits %s%d.%d' % (sign, a, b), func='digits', params=dict(sign=sign, a=a, b=b), weight=a + b))
        out.append(dict(name='positive digits -%d.%d' % (a, b), func='digits', params=dict(sign='-', a=a, b=b, positive=True), weight=a + b))
        out.append(dict(name='positive digits %d.%d' % (a, b), func='digits', params=dict(sign='', a=a, b=b, positive=True), weight=a + b))
    for ex in (-20, -17, -10, -9, -8, -7, -1, 0, 1, 5, 20) + ((-30, -25, -12, -3, 2, 30, 60) if deep else ()):
        out.append(dict(name='exponent %d' % ex, func='exponent', params=dict(ex=ex)))
    for b in (40, 63, 90) + ((200,) if deep else ()):
        out.append(dict(name='whole %d' % b, func='whole', params=dict(bits=b)))
    for k in (0, 1, 5, 7, 8, 9, 10, 15) + ((2, 3, 4, 6, 11, 12, 20, 27) if deep else ()):
        for n in (15, 27) + ((9, 20) if deep else ()):
            out.append(dict(name='decimal %d.%d' % (n, k), func='decimal_value', params=dict(k=k, digs=n)))
    for k in (1, 5, 7, 8, 9, 10, 15) + ((2, 3, 4, 6, 11, 12, 20, 22) if deep else ()):
        for n in (15,) + ((9, 12) if deep else ()):
            out.append(dict(name='double %d.%d' % (n, k), func='float_value', params=dict(k=k, digs=n)))
    for n in range(0, 6 if deep else 5):
        out.append(dict(name='any text %d' % n, func='any_text', params=dict(n=n), weight=5 ** n))
    return out


D8 = 10 ** 8
P = dict(cases=cases,
         bounds={'quick': 'every count below 10^15 in magnitude; texts of up to 10 digits before and 12 after the point; ASCII texts of up to 4 '
                          'characters; whole numbers of up to 90 bits; decimals of up to 27 digits; doubles nearest to decimals of up to 15 digits',
                 'thorough': 'up to 22 digits before and 21 after the point; ASCII texts of up to 5 characters; whole numbers of up to 200 bits'},
         outside='digit separators (underscores), digits beyond ASCII, exponents of more than 400; doubles that are not nearest to a decimal of at most 15 digits',
         assume=['repr of a double nearest to a decimal of at most 15 digits is that decimal'])
