def cases(tier):
    deep = tier == 'thorough'
    out = []
    for n, kind in ((2, 'ascii'), (2, 'nfc'), (5, 'ascii')) + (((3, 'nfc'), (4, 'nfc'), (6, 'nfc'), (2, 'unicode'), (9, 'ascii'), (32, 'ascii')) if deep else ()):
        out.append(dict(name='there and back %d %s' % (n, kind), func='there_and_back', params=dict(n=n, kind=kind), weight=30))
    for turn in (False, True):
        out.append(dict(name='normal forms %s' % turn, func='normal_forms', params=dict(turn=turn), weight=20))
    for n in (0, 1):
        for kind in ('ascii', 'unicode'):
            out.append(dict(name='short %d %s' % (n, kind), func='short', params=dict(n=n, kind=kind)))
    for n in (39, 38, 40, 7, 3, 0) + ((35, 36, 32, 55) if deep else ()):
        for ch in ('none', 'any checksum', 'one byte'):
            for frame in (False, True):
                if n >= (3 if frame else 1) and (n == 39 or ch == 'none' or deep):
                    out.append(dict(name='content %d %s %s' % (n, ch, frame), func='content', params=dict(n=n, change=ch, frame=frame), weight=n))
    for at in (range(39) if deep else (0, 1, 2, 3, 6, 7, 22, 23, 38)):
        out.append(dict(name='near %d' % at, func='near', params=dict(at=at), weight=10))
    for n in (2, 3) + ((6,) if deep else ()):
        out.append(dict(name='wrong passphrase %d' % n, func='wrong_passphrase', params=dict(n=n), weight=10))
    for n in (0, 1, 57, 58, 59) + ((30, 52, 70) if deep else ()):
        out.append(dict(name='text %d' % n, func='text', params=dict(n=n), weight=10))
    return out


P = dict(cases=cases, cfg=dict(validate_max=1, replay_timeout=120),
         bounds={'quick': 'every valid private key; every ASCII passphrase of 2 and 5 characters and every passphrase of 2 Unicode characters that normalisation leaves alone, and seven pairs of passphrases that share '
                          'their NFC form; every content of 3, 7, 38, 39, 40 bytes (39: with any checksum); every ASCII text of 0, 1, 57 to 59 characters without leading ones and trailing white space',
                 'thorough': 'passphrases of up to 6 Unicode or 32 ASCII characters; contents of 32 to 55 bytes; every changed byte position'},
         outside='other lengths; Unicode passphrases with combining characters beyond the seven pairs',
         assume=['Base58 is injective', 'SHA-256, RIPEMD-160 and scrypt are functions; AES decryption inverts encryption', 'the bitcoin package multiplies the generator correctly'])
