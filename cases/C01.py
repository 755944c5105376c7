def cases(tier):
    return [dict(name='encode', func='encode'), dict(name='negative', func='negative'), dict(name='too_big', func='too_big'),
            dict(name='limit', func='limit', reach=['accepted', 'rejected']), dict(name='default_limit', func='default_limit'),
            dict(name='not_int', func='not_int'), dict(name='big_endian', func='big_endian')]


P = dict(cases=cases, bounds={'quick': 'every pair of integers in [0,2^64); every negative integer down to -2^70; every integer in [2^64,2^72]; every limit below 2^64'},
         outside='integers beyond those ranges')
