FIXED = ['ReadInt8', 'ReadUInt8', 'ReadInt16', 'ReadUInt16', 'ReadInt32', 'ReadUInt32', 'ReadInt64', 'ReadUInt64', 'ReadFloat', 'ReadDouble',
         'ReadBool', 'ReadChar', 'ReadFixed8']


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for n in (0, 1, 2, 5, 9) + ((16, 33) if deep else ()):
        out.append(dict(name='read %d' % n, func='read', params=dict(n=n)))
        out.append(dict(name='safe_huge %d' % n, func='safe_huge', params=dict(n=n)))
    for n in range(11):
        out.append(dict(name='varint %d' % n, func='varint', params=dict(n=n)))
        out.append(dict(name='varint_noarg %d' % n, func='varint_noarg', params=dict(n=n)))
    for n in (range(0, 20) if deep else (0, 1, 2, 3, 4, 6, 10, 12)):
        for what in ('bytes', 'string'):
            for limit in (True, False):
                out.append(dict(name='payload %d %s %s' % (n, what, limit), func='payload', params=dict(n=n, what=what, limit=limit)))
    for f in FIXED:
        out.append(dict(name='short ' + f, func='short', params=dict(name=f)))
        out.append(dict(name='exact ' + f, func='exact', params=dict(name=f)))
    for n in (range(0, 20) if deep else (0, 1, 2, 3, 5, 9)):
        out.append(dict(name='string8 %d' % n, func='string8', params=dict(n=n)))
        for k in (0, 1, 4, 8):
            out.append(dict(name='fixed_string %d %d' % (n, k), func='fixed_string', params=dict(n=n, k=k)))
    for k in (64, 100, 128, 252, 255, 256, 257, 511, 512, 1000, 1024, 4096, 65535, 65536, 65537) + ((2048, 8192, 16384, 32768, 100000) if deep else ()):
        for m in (k, k - 1, k + 1):
            for what in ('raw', 'safe', 'bytes', 'string'):
                for form in (1, 3, 5, 9) if what in ('bytes', 'string') else (1,):
                    if form == 1 and k > 252 and what in ('bytes', 'string') or form == 3 and k > 65535 or form > 3 and k > 5000 and not deep and (m != k or k == 65536):
                        continue
                    out.append(dict(name='long %s %d of %d form %d' % (what, k, m, form), func='long', params=dict(k=k, m=m, form=form, what=what), weight=1 + k // 1000))
    return out


P = dict(cases=cases,
         bounds={'quick': 'every stream of up to 10 bytes for numbers and up to 12 bytes for payloads, every requested length and limit; payloads and raw reads of 15 lengths from 64 to 65537 bytes, complete and one byte short, with every content and limit',
                 'thorough': 'every stream of up to 10 bytes for numbers, up to 19 bytes for payloads and 33 bytes for raw reads, every requested length and limit'},
         outside='other lengths of long streams; negative requested lengths; streams other than io.BytesIO')
