def cases(tier):
    deep = tier == 'thorough'
    out = [dict(name='library', func='library'), dict(name='distinct', func='distinct')]
    for k in ('bytes', 'bytearray'):
        out.append(dict(name='there and back ' + k, func='there_and_back', params=dict(kind=k)))
    for form in ('big', 'little', 'bare big'):
        for up in (False, True):
            out.append(dict(name='tool %s %s' % (form, up), func='tool', params=dict(form=form, upper=up)))
    for n in (0, 1, 2, 38, 39, 40, 41, 42) + ((20, 43, 64, 80) if deep else ()):
        for prefix in ('', '0x'):
            for kind in ('ascii', 'unicode'):
                if n < 40 or n in (40, 41, 42) or deep:
                    out.append(dict(name='malformed %d %r %s' % (n, prefix, kind), func='malformed', params=dict(n=n, prefix=prefix, kind=kind), weight=n))
    out.append(dict(name='command address', func='command_to_hash'))
    for form in ('big', 'little'):
        out.append(dict(name='command hash ' + form, func='command_to_address', params=dict(form=form)))
    for n in (0, 1, 2, 20) + ((10, 24) if deep else ()):
        for which in ('address', 'hash'):
            for kind in ('ascii', 'unicode') if n < 20 or deep or which == 'hash' else ():
                out.append(dict(name='command bad %s %d %s' % (which, n, kind), func='command_bad', params=dict(n=n, which=which, kind=kind)))
    return out


P = dict(cases=cases,
         bounds={'quick': 'every 20 byte script hash; every text of 0 to 2 and 38 to 42 characters (ASCII, or any Unicode) with and without 0x in front',
                 'thorough': 'also texts of 20, 43, 64 and 80 characters'},
         outside='texts of other lengths; argument parsing (argparse is taken to hand the texts over), and the Python form of the hash that the tool prints too',
         assume=['Base58 is injective', 'SHA-256 is a function (no property of it beyond that is used)'])
