def cases(tier):
    deep = tier == 'thorough'
    out = [dict(name='script byte', func='script_byte', params=dict())]
    for n in (0, 1, 2, 20, 32, 33, 35, 63, 64, 65, 128, 256, 300) + ((3, 10, 55, 56, 100, 200, 1000, 1024) if deep else ()):
        for kind in ('bytes', 'bytearray'):
            out.append(dict(name='hashes %d %s' % (n, kind), func='hashes', params=dict(n=n, kind=kind)))
        out.append(dict(name='script hash raw %d' % n, func='script_hash', params=dict(n=n, raw=True, text='')))
        if n:
            for text in ('lower', 'upper', 'str'):
                out.append(dict(name='script hash %s %d' % (text, n), func='script_hash', params=dict(n=n, raw=False, text=text)))
        out.append(dict(name='redeem %d' % n, func='redeem', params=dict(n=n)))
    top = 40 if deep else 20
    for w in (0, 1, 2, 4, 8, 32):
        out.append(dict(name='base256 negative %d' % w, func='base256', params=dict(lo=-2 ** 64, hi=1000, width=w)))
        for k in range(1, top + 1):
            lo, hi = (0 if k == 1 else 1 << (8 * k - 8)), (1 << (8 * k)) - 1
            out.append(dict(name='base256 %d bytes to %d' % (k, w), func='base256', params=dict(lo=lo, hi=hi, width=w), weight=k))
    for n in (0, 1, 2, 16, 20, 32, 33, 64, 65, 80, 128) + ((256, 300) if deep else ()):
        out.append(dict(name='xor %d' % n, func='xor', params=dict(n=n)))
        for m in (0, 1, 15, 16, 17, 31, 32, 33, 64):
            if m != n:
                out.append(dict(name='xor %d %d' % (n, m), func='xor_lengths', params=dict(n=n, m=m)))
    out += [dict(name='swap', func='swap'), dict(name='swap range', func='swap_range')]
    for bits in (20, 32):
        for b in range(1, (140 if deep else 66), 1 if deep else 4):
            out.append(dict(name='digits %d of %d' % (bits, b), func='digits', params=dict(bits=bits, top=(1 << b) - 1), weight=b))
    return out


P = dict(cases=cases,
         bounds={'quick': 'every byte string of 0 to 2, 20, 32, 33, 35, 63 to 65, 128, 256, 300 bytes; every number of up to 160 bits (base 256) and up to 65 bits (binary digits), requested widths 0, 1, 2, 4, 8, 32; every 32 bit number; xor of 0 to 2, 16, 20, 32, 33, 64, 65, 80 and 128 bytes',
                 'thorough': 'byte strings of up to 1024 bytes, numbers of up to 320 bits (base 256) and 139 bits (binary digits)'},
         outside='other lengths', assume=['SHA-256 and RIPEMD-160 are functions'])
