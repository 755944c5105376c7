def cases(tier):
    N = 5 if tier == 'quick' else 12
    out = [dict(name=f, func=f) for f in ('byte_int', 'byte_reject', 'char', 'boolean', 'boolean_read')]
    out += [dict(name='byte_raw %d' % n, func='byte_raw', params=dict(n=n)) for n in range(N)]
    out += [dict(name='byte_text %d' % n, func='byte_text', params=dict(n=n)) for n in range(4)]
    for f in ('double', 'double_read', 'single', 'nan', 'double_to_single'):
        out += [dict(name='%s %s' % (f, e), func=f, params=dict(endian=e)) for e in (None, '<', '>')]
    for name, n in (('Bool', 1), ('Char', 1), ('Float', 4), ('Double', 8)):
        out += [dict(name='truncated %s %d' % (name, k), func='truncated', params=dict(name=name, n=k)) for k in range(n)]
    return out


P = dict(cases=cases, bounds={'quick': 'every byte, boolean, character, 32 and 64 bit float pattern; texts up to 3 characters; byte strings up to 4 bytes',
                              'thorough': 'every byte, boolean, character, 32 and 64 bit float pattern; texts up to 3 characters; byte strings up to 11 bytes'},
         outside='longer texts and byte strings in WriteByte')
