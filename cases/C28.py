def cases(tier):
    deep = tier == 'thorough'
    out = [dict(name='constants', func='constants')]
    for n in (0, 1, 2, 32, 33, 64, 65, 128, 256) + ((3, 16, 100, 200, 1000) if deep else ()):
        for form in ('str', 'bytes', 'upper', 'bytearray') if n in (1, 32) else ('str', 'bytes'):
            out.append(dict(name='sign %d %s' % (n, form), func='sign', params=dict(n=n, form=form, how='secp256k1', via='static')))
    for how in ('P-256', 'secp256k1', 'other base', 'instance'):
        for via in ('static', 'instance', 'default'):
            out.append(dict(name='sign after %s %s' % (how, via), func='sign', params=dict(n=5, form='str', how=how, via=via)))
    out.append(dict(name='sign twice', func='sign_twice', params=dict(n=4)))
    for n in (0, 1, 2, 32, 33, 64, 65, 128, 256) + ((3, 16, 100, 200, 1000) if deep else ()):
        for form in ('str', 'bytes', 'upper', 'bytearray', 'raw', 'raw array'):
            out.append(dict(name='verify %d %s' % (n, form), func='verify', params=dict(n=n, form=form, kind='bytes', how='secp256k1', via='static')))
    for kind in ('bytes', 'bytearray', 'point'):
        for via in ('static', 'instance', 'default'):
            for how in ('P-256', 'secp256k1'):
                for form in ('str', 'raw'):
                    out.append(dict(name='verify %s %s %s %s' % (kind, via, how, form), func='verify', params=dict(n=4, form=form, kind=kind, how=how, via=via)))
    for m in (0, 1, 63, 65, 128):
        out.append(dict(name='signature of %d bytes' % m, func='verify', params=dict(n=4, form='str', kind='bytes', how='secp256k1', via='static', m=m)))
    for n in (0, 1, 2, 4):
        out.append(dict(name='verify text %d' % n, func='verify_text', params=dict(n=n, via='static')))
        out.append(dict(name='round trip text %d' % n, func='round_trip_text', params=dict(n=n, d=7 + n, via='static')))
    for how in ('P-256', 'secp256k1', 'other base', 'instance'):
        for via in ('static', 'instance'):
            out.append(dict(name='verify compressed %s %s' % (how, via), func='verify_compressed', params=dict(n=4, how=how, via=via), weight=5))
    for n, m in ((0, 64), (1, 64), (32, 64), (34, 64), (63, 64), (65, 64), (66, 64), (128, 64), (33, 63), (33, 65), (33, 0), (64, 0), (64, 63), (64, 65), (65, 65), (32, 32)):
        for via in ('static', 'instance'):
            out.append(dict(name='malformed %d %d %s' % (n, m, via), func='malformed', params=dict(n=n, m=m, via=via)))
    for kind in ('raw', 'compressed', 'point'):
        for how in ('P-256', 'secp256k1'):
            for n in (0, 5, 32) if deep or how == 'secp256k1' else (5,):
                out.append(dict(name='round trip %s %s %d' % (kind, how, n), func='round_trip', params=dict(n=n, kind=kind, how=how), weight=5))
    out.append(dict(name='key pair', func='key_pair', params=dict(n=5), weight=9))
    return out


P = dict(cases=cases,
         bounds={'quick': 'every message of 0, 1, 2, 4, 5, 32, 33, 64, 65, 128 and 256 bytes in its hexadecimal and raw forms, texts of up to 4 characters; every 32 byte private key, every 64 byte and 33 byte public key, every signature of 64 bytes; '
                          'the listed other lengths of keys and signatures; after four histories of the process-wide curve',
                 'thorough': 'messages of up to 1000 bytes'},
         outside='messages that are not hexadecimal though unhexing is on (they are taken as they are); the randomness of the signature; other lengths',
         assume=['signing and verifying on P-256 are functions of the hash, the key and the signature, and a signature verifies under the matching key when r is below the order',
                 'SHA-256 is a function', 'decompression and multiplication on the active curve are functions'])
