def cases(tier):
    out = []
    rs = [(-2 ** 63, 2 ** 63 - 1), (-2 ** 40, 2 ** 40)]
    if tier == 'thorough':
        rs.append((-2 ** 100, 2 ** 100))
    for lo, hi in rs:
        for f in ('floor', 'ceil', 'to_int', 'together'):
            out.append(dict(name='%s %d' % (f, hi.bit_length()), func=f, params=dict(lo=lo, hi=hi), weight=hi.bit_length()))
    return out


P = dict(cases=cases,
         bounds={'quick': 'every 64 bit signed count', 'thorough': 'every signed count of up to 100 bits'}, outside='larger counts')
