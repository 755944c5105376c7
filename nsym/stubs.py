"""Contracts standing in for third-party code (base58, bitcoin, ecdsa, scrypt,
pycryptodome, logzero, mpmath).  On concrete arguments each calls the real
library; on symbolic arguments it is an uninterpreted function constrained by the
library's documented contract.  Every contract used is part of the claim and is
listed in the evidence."""
import builtins
import contextlib
import hashlib
import hmac
import importlib
import os
import random
import sys
import types
import z3

from . import core, seqs, models, runtime, instrument
from .core import Sym, mk_int, mk_bool, b_and, b_or, is_sym, is_symint, int_parts, int_bin, int_cmp, is_z3, byte_term, \
    norm_elem, resize, PathIncomplete
from .seqs import SymBytes, SymByteArray, SymStr, mk_bytes, mk_str, els_of, chs_of
from .runtime import to_native, uf_apply, model

SITE = '/opt/venv/lib/python3.12/site-packages'
NAMES = ('base58', 'bitcoin', 'ecdsa', 'scrypt', 'Crypto', 'logzero', 'mpmath')
REAL = {}       # the real libraries' sys.modules entries
R = types.SimpleNamespace()


def E():
    return core.E


def load_real():
    if REAL:
        return
    if SITE not in sys.path:
        sys.path.append(SITE)
    import base58, bitcoin, bitcoin.main, ecdsa, ecdsa.keys, scrypt, Crypto, Crypto.Random, Crypto.Cipher.AES, logzero
    import Crypto.Util.number
    import mpmath.libmp
    R.base58, R.bitcoin, R.ecdsa, R.scrypt, R.AES = base58, bitcoin, ecdsa, scrypt, Crypto.Cipher.AES
    R.b58encode, R.b58decode = base58.b58encode, base58.b58decode
    for n in list(sys.modules):
        if n.split('.')[0] in NAMES:
            REAL[n] = sys.modules[n]


@contextlib.contextmanager
def natives():
    saved = {n: sys.modules.pop(n) for n in list(sys.modules) if n.split('.')[0] in NAMES}
    sys.modules.update(REAL)
    try:
        yield
    finally:
        for n in list(sys.modules):
            if n.split('.')[0] in NAMES:
                del sys.modules[n]
        sys.modules.update(saved)


def mod(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    return m


# -------------------------------------------------------------------------
# generic uninterpreted application with a refinement record
def app(name, args, out_bits, real):
    """args: list of (term); real: python ints (unsigned) -> unsigned int."""
    e = E()
    args = [z3.simplify(a) for a in args]
    out_sort = z3.BoolSort() if out_bits == 0 else z3.BitVecSort(out_bits)
    f = e.uf(name, *([a.sort() for a in args] + [out_sort]))
    e.approx = True
    t = f(*args)
    recs = e.state.setdefault('apps', [])
    if not any(r[0].eq(f) and all(x.eq(y) for x, y in zip(r[1], args)) for r in recs):
        recs.append((f, args, t, real))
    return t


# -------------------------------------------------------------------------
# base58
ALPH = b'123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
RANGES = ((49, 57), (65, 72), (74, 78), (80, 90), (97, 107), (109, 122))


def b58_in_alphabet(c):
    return z3.Or(*[z3.And(z3.UGE(c, a), z3.ULE(c, b)) for a, b in RANGES])


def b58_digit(c, w):
    """char (BV8 or int) -> digit term of width w"""
    if isinstance(c, int):
        return z3.BitVecVal(ALPH.index(c), w)
    acc = z3.BitVecVal(0, 8)
    base = 0
    for a, b in RANGES:
        acc = z3.If(z3.And(z3.UGE(c, a), z3.ULE(c, b)), c - (a - base), acc)
        base += b - a + 1
    return z3.ZeroExt(w - 8, acc) if w > 8 else acc


def ndigits(v, base=58):
    n = 0
    while v:
        v //= base
        n += 1
    return n


def scrub(v):
    if isinstance(v, str):
        v = seqs.encode(chs_of(v), 'ascii', 'strict')
    if not isinstance(v, bytes):
        raise TypeError("a bytes-like object is required (also str), not '%s'" % v.__class__.__name__)
    return list(els_of(v))


def b58encode(v):
    els = scrub(v)
    if not any(is_z3(x) for x in els):
        return R.b58encode(bytes(els))
    e = E()
    i = 0
    while i < len(els):
        c = els[i]
        if isinstance(c, int):
            if c:
                break
        elif not e.fork(c == 0):
            break
        i += 1
    pad, els = i, els[i:]
    if not els:
        return b'1' * pad
    n = len(els)
    w = 8 * n
    val = runtime.term_of_bytes(els)
    if isinstance(els[0], int):
        lo, hi = els[0] << (w - 8), ((els[0] + 1) << (w - 8)) - 1
    else:
        lo, hi = 1 << (w - 8), (1 << w) - 1
    D = ndigits(lo)
    while D < ndigits(hi) and not e.fork(z3.ULT(val, z3.BitVecVal(58 ** D, w))):
        D += 1
    lo, hi = max(lo, 58 ** (D - 1)), min(hi, 58 ** D - 1)

    def real(x, D=D, n=n):
        s = R.b58encode(x.to_bytes(n, 'big'))
        return int.from_bytes((s + b'\0' * D)[:D], 'big')
    tt = app('b58_%d_%d' % (n, D), [val], 8 * D, real)
    out = [norm_elem(z3.simplify(z3.Extract(8 * k + 7, 8 * k, tt))) for k in range(D - 1, -1, -1)]
    recs = e.state.setdefault('b58', [])
    for r in recs:
        if r[2].eq(tt):
            return mk_bytes([49] * pad + list(r[0]))
    for c in out:
        e.add(b58_in_alphabet(c))
    p = 58 ** (D - 1)
    d0, d1 = lo // p, hi // p
    if d0 == d1:
        e.add(out[0] == ALPH[d0])
        out[0] = ALPH[d0]
    else:
        ch = z3.BitVecVal(ALPH[d0], 8)
        for d in range(d0 + 1, d1 + 1):
            ch = z3.If(z3.UGE(val, z3.BitVecVal(d * p, w)), z3.BitVecVal(ALPH[d], 8), ch)
        e.add(out[0] == ch)
    # base58 is injective on digit strings without leading '1'
    for o2, els2, t2, val2 in recs:
        if len(o2) == D:
            if val2.size() == val.size():
                e.add(z3.Implies(t2 == tt, val2 == val))
            else:
                e.add(t2 != tt)
    recs.append((tuple(out), tuple(els), tt, val))
    return mk_bytes([49] * pad + out)


def same_elems(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, int) or isinstance(y, int):
            if not (isinstance(x, int) and isinstance(y, int) and x == y):
                return False
        elif not x.eq(y):
            return False
    return True


LONG = 8


def b58decode(v):
    if isinstance(v, Sym) and isinstance(v, (str, bytes)):
        v = v.rstrip()
    elif isinstance(v, (str, bytes)):
        v = v.rstrip()
    else:
        v = v.rstrip()
    els = scrub(v)
    if not any(is_z3(x) for x in els):
        return R.b58decode(bytes(els))
    e = E()
    i = 0
    while i < len(els):
        c = els[i]
        if isinstance(c, int):
            if c != 49:
                break
        elif not e.fork(c == 49):
            break
        i += 1
    pad, els = i, els[i:]
    for o, payload, tt, val in e.state.get('b58', ()):
        if same_elems(o, els):
            return mk_bytes([0] * pad + list(payload))
    if not els:
        return bytes(pad)
    if any(isinstance(c, int) and c not in ALPH for c in els):
        raise ValueError('subsection not found')
    ok = z3.And(*[b58_in_alphabet(c) for c in els if is_z3(c)])
    if not e.fork(ok):
        raise ValueError('subsection not found')
    D = len(els)
    hi = 58 ** D - 1
    w = hi.bit_length()
    lo = 58 ** (D - 1)
    if D <= LONG:
        w = max(w, 8)
        acc = z3.BitVecVal(0, w)
        for c in els:
            acc = acc * 58 + b58_digit(c, w)
        acc = z3.simplify(acc)
    else:
        # long texts: an uninterpreted function of the text, into the range of D digit numbers
        def real(x, D=D):
            s = x.to_bytes(D, 'big')
            return int.from_bytes(R.b58decode(s), 'big') if all(c in ALPH for c in s) else 0

        def inverse(v, D=D):
            s = R.b58encode(v.to_bytes((v.bit_length() + 7) // 8, 'big'))
            return int.from_bytes(s, 'big') if len(s) == D else None
        T = z3.simplify(z3.Concat(*[byte_term(c) for c in els]))
        acc = app('b58d_%d' % D, [T], w, real)
        e.add(z3.And(z3.UGE(acc, z3.BitVecVal(lo, w)), z3.ULE(acc, z3.BitVecVal(hi, w))))
        # the first character is the leading digit
        p = 58 ** (D - 1)
        if isinstance(els[0], int):
            low = z3.BitVecVal(ALPH.index(els[0]) * p, w)
        else:
            low = z3.BitVecVal(p, w)
            for d in range(2, 58):
                low = z3.If(els[0] == ALPH[d], z3.BitVecVal(d * p, w), low)
        e.add(z3.And(z3.UGE(acc, low), z3.ULT(acc - low, z3.BitVecVal(p, w))))
        for T2, acc2 in e.state.setdefault('b58d', {}).setdefault(D, []):
            if not T2.eq(T):
                e.add(z3.Implies(acc2 == acc, T2 == T))
        if not any(T2.eq(T) for T2, _ in e.state['b58d'][D]):
            e.state['b58d'][D].append((T, acc))
            e.state.setdefault('hints', []).append((acc, T, inverse))
    n = (lo.bit_length() + 7) // 8
    top = (hi.bit_length() + 7) // 8
    while n < top and not e.fork(z3.ULT(acc, z3.BitVecVal(1 << (8 * n), w))):
        n += 1
    W = 8 * n
    acc = resize(acc, 0, W)
    return mk_bytes([0] * pad + [norm_elem(z3.simplify(z3.Extract(8 * k + 7, 8 * k, acc))) for k in range(n - 1, -1, -1)])


def dsha(els):
    h = uf_apply('sha256', els, 32, runtime.HASHES['sha256'][1])
    return uf_apply('sha256', h, 32, runtime.HASHES['sha256'][1])


def b58encode_check(v):
    if isinstance(v, str):
        raise TypeError('Strings must be encoded before hashing')
    els = list(els_of(v))
    s = mk_bytes(els + dsha(els)[:4])
    if isinstance(v, bytearray):
        s = SymByteArray(list(els_of(s)))
    return b58encode(s)


def b58decode_check(v):
    r = list(els_of(b58decode(v)))
    body, chk = r[:-4], r[-4:]
    if runtime.truth(runtime.cmp('!=', mk_bytes(chk), mk_bytes(dsha(body)[:4]))):
        raise ValueError('Invalid checksum')
    return mk_bytes(body)


# -------------------------------------------------------------------------
# bitcoin: the library's own source, instrumented, with the big-number kernels
# replaced by uninterpreted functions of the active curve
_bitcoin_code = {}
R1_P = 115792089210356248762697446949407573530086143415290314195533631308867097853951
R1_N = 115792089210356248762697446949407573529996955224135760342422259061068512044369


def bitcoin_code():
    if not _bitcoin_code:
        for n in ('py3specials', 'main'):
            p = os.path.join(SITE, 'bitcoin', n + '.py')
            src = open(p).read()
            src = '\n'.join(l for l in src.split('\n') if not l.startswith('from .') and not l.startswith('from bitcoin'))
            _bitcoin_code[n] = instrument.compile_instrumented(src, p)[0]
    return _bitcoin_code


def fixed(x, bits):
    return resize(int_parts(x)[0], max(int_parts(x)[1], 0), bits)


def big_val(t, hi):
    return mk_int(z3.ZeroExt(1, t), 0, hi)


def make_bitcoin(builtins_ns):
    codes = bitcoin_code()
    m = mod('bitcoin.main')
    ns = m.__dict__
    ns['__builtins__'] = builtins_ns
    exec(codes['py3specials'], ns)
    ns['RIPEMD160'] = None
    ns['is_python2'] = False
    exec(codes['main'], ns)
    enc0, dec0, mult0 = ns['encode'], ns['decode'], ns['fast_multiply']

    def encode(val, base, minlen=0):
        base, minlen = to_native(base), to_native(minlen)
        if not is_sym(val) or base not in (256, 16):
            with real_curve(ns):
                return R.bitcoin.encode(to_native(val), base, minlen)
        k = 8 if base == 256 else 4
        hi = int_parts(val)[2]
        n = (hi.bit_length() + k - 1) // k
        if n > minlen:
            n = max(minlen, 1)
            while n * k < hi.bit_length() and not runtime.truth(int_cmp('<', val, 1 << (n * k))):
                n += 1
        else:
            n = minlen
        b = core.int_to_bytes(val, (n * k + 7) // 8, 'big', False)
        if base == 256:
            return b
        h = seqs.mk_hex(els_of(b))
        return h[len(h) - n:] if len(h) > n else h

    def decode(s, base):
        base = to_native(base)
        e = els_of(s)
        if base == 256 and e is not None:
            return core.int_from_bytes(mk_bytes(list(e)), 'big')
        if not is_sym(s):
            return dec0(s, base)
        if base == 256 and isinstance(s, str):
            return core.int_from_bytes(runtime.fromhex(bytes, s), 'big')
        if base == 16:
            cs = chs_of(s) if isinstance(s, str) else [seqs.to_char(x) for x in els_of(s)]
            if not cs:
                return 0
            return models.int_of_text(mk_str(list(cs)), 16)
        return dec0(s, base)

    def cid():
        return '%x' % (hash((ns['P'], ns['N'], ns['A'], ns['B'], ns['Gx'], ns['Gy'])) & 0xffffffffffff)

    def curve():
        return (ns['P'], ns['N'], ns['A'], ns['B'], ns['Gx'], ns['Gy'])

    def fast_multiply(a, n):
        if not is_sym(n) and not runtime.deep_sym(a):
            with real_curve(ns):
                return R.bitcoin.main.fast_multiply(a, n)
        if runtime.deep_sym(a) or tuple(a) != tuple(ns['G']):
            a = tuple(to_native(v) for v in a)
        e = E()
        if runtime.truth(int_cmp('==', n, 0)):
            return (0, 0)
        nt = fixed(n, 256)
        c = curve()
        bits = ns['P'].bit_length()

        def real(which, a=a, c=c):
            def f(k):
                with real_curve_of(c):
                    return R.bitcoin.main.fast_multiply(a, k)[which]
            return f
        name = 'ecmul_%s_%x' % (cid(), hash(tuple(a)) & 0xffffffff)
        first = not any(r[0] == name and r[1].eq(nt) for r in e.state.setdefault('ecmul', []))
        x = app(name + '_x', [nt], bits, real(0))
        y = app(name + '_y', [nt], bits, real(1))
        if first:
            e.state['ecmul'].append((name, nt, x, y, n))
            P = z3.BitVecVal(ns['P'], bits)
            e.add(z3.And(z3.ULT(x, P), z3.ULT(y, P), y != 0))
            # the product lies on the curve: its y is one of the two roots for its x
            ev = even_root(x)
            e.add(z3.Or(y == ev, y == P - ev))
            if c[0] == R1_P and c[1] == R1_N and tuple(a) == tuple(ns['G']):
                e.add(point_valid(x, y))
        return (big_val(x, ns['P'] - 1), big_val(y, ns['P'] - 1))

    def even_root(xt):
        """the even candidate root of x^3+Ax+B on the active curve, for any x"""
        e = E()
        P, A, B = ns['P'], ns['A'], ns['B']
        bits = P.bit_length()

        def real(x):
            beta = pow(x * x * x + A * x + B, (P + 1) // 4, P)
            return beta if beta % 2 == 0 else P - beta
        t = app('ecroot_%x' % (hash((P, A, B)) & 0xffffffffffff), [xt], bits, real)
        e.add(z3.And(z3.ULT(t, z3.BitVecVal(P, bits)), z3.Extract(0, 0, t) == 0))
        return t

    dp0 = ns['decode_pubkey']

    def decode_pubkey(pub, formt=None):
        if formt is None:
            formt = ns['get_pubkey_format'](pub)
        if to_native(formt) == 'bin_compressed' and is_sym(pub):
            els = list(els_of(pub))
            x = core.int_from_bytes(mk_bytes(els[1:33]), 'big')
            P = ns['P']
            if not is_sym(x):
                x0 = x
                beta = pow(x0 * x0 * x0 + ns['A'] * x0 + ns['B'], (P + 1) // 4, P)
                ev = z3.BitVecVal(beta if beta % 2 == 0 else P - beta, 256)
                ev = z3.Extract(P.bit_length() - 1, 0, ev)
            else:
                ev = even_root(fixed(x, P.bit_length()))
            par = els[0]
            od = z3.BitVecVal(P, ev.size()) - ev
            if isinstance(par, int):
                y = ev if par % 2 == 0 else od
            else:
                y = z3.If(z3.Extract(0, 0, par) == 0, ev, od)
            return (x, mk_int(z3.ZeroExt(1, y), 0, P))
        return dp0(pub, formt)

    sign0 = ns['ecdsa_raw_sign']

    def ecdsa_raw_sign(msghash, priv):
        f = ns['get_privkey_format'](priv)
        if not (is_sym(msghash) or is_sym(priv)):
            with real_curve(ns):
                return R.bitcoin.main.ecdsa_raw_sign(msghash, priv)
        z = ns['hash_to_int'](msghash)
        d = ns['decode_privkey'](priv)
        if isinstance(msghash, str) is False and els_of(msghash) is None:
            raise TypeError('bad message hash')
        e = E()
        zb = int_parts(z)[2].bit_length()
        if zb > 256:
            z = z.__index__()
        zt, dt = fixed(z, 256), fixed(d, 256)
        c = curve()

        def real(which):
            def g(zv, dv):
                with real_curve_of(c):
                    return R.bitcoin.main.ecdsa_raw_sign('%064x' % zv, '%064x' % dv)[which]
            return g
        n = ns['N'].bit_length()
        r = app('ecsig_%s_r' % cid(), [zt, dt], 256, real(1))
        s = app('ecsig_%s_s' % cid(), [zt, dt], 256, real(2))
        v = app('ecsig_%s_v' % cid(), [zt, dt], 8, real(0))
        N = z3.BitVecVal(ns['N'], 256)
        half = z3.BitVecVal(ns['N'] // 2, 256)
        e.add(z3.And(z3.ULT(r, z3.BitVecVal(ns['P'], 256)), z3.ULE(s, half), z3.UGE(s, 1), z3.UGE(r, 1)))
        if c[0] == R1_P and c[1] == R1_N:
            # ECDSA correctness: verifies under the matching public key
            e.state.setdefault('sigs', []).append((zt, dt, r, s))
            Q = fast_multiply(ns['G'], d)
            if is_sym(Q[0]):
                xt, yt = fixed(Q[0], 256), fixed(Q[1], 256)
            else:
                xt, yt = z3.BitVecVal(Q[0], 256), z3.BitVecVal(Q[1], 256)
            dok = z3.And(z3.UGE(dt, 1), z3.ULT(dt, N))
            e.add(z3.Implies(z3.And(dok, z3.ULT(r, N)), ec_verifies(xt, yt, zt, r, s)))
        return (mk_int(z3.ZeroExt(1, v), 27, 32) if False else big_val(v, 255), big_val(r, ns['P'] - 1), big_val(s, ns['N'] // 2))

    def detk(msghash, priv):
        with real_curve(ns):
            return R.bitcoin.main.deterministic_generate_k(to_native(msghash), to_native(priv))
    ns.update(encode=encode, decode=decode, fast_multiply=fast_multiply, decode_pubkey=decode_pubkey,
              ecdsa_raw_sign=ecdsa_raw_sign, deterministic_generate_k=detk)
    pk = mod('bitcoin')
    for k, v in ns.items():
        if not k.startswith('__'):
            pk.__dict__[k] = v
    pk.main = m
    pk.__path__ = []
    return pk, m


@contextlib.contextmanager
def real_curve_of(c):
    b = R.bitcoin.main
    saved = (b.P, b.N, b.A, b.B, b.Gx, b.Gy)
    b.change_curve(*c)
    try:
        with natives():
            yield
    finally:
        b.change_curve(*saved)


def real_curve(ns):
    return real_curve_of((ns['P'], ns['N'], ns['A'], ns['B'], ns['Gx'], ns['Gy']))


# -------------------------------------------------------------------------
# ecdsa (NIST256p only; other curves run natively on concrete values)
def point_valid(xt, yt):
    def real(x, y):
        with natives():
            import ecdsa.ecdsa as ee
            return int(bool(ee.point_is_valid(R.ecdsa.NIST256p.generator, x, y)))
    return app('p256_valid', [xt, yt], 0, real)


def ec_verifies(xt, yt, zt, r, s):
    def real(x, y, z, rr, ss):
        with natives():
            import ecdsa.ecdsa as ee
            from ecdsa.ellipticcurve import Point
            c = R.ecdsa.NIST256p
            try:
                pt = Point(c.curve, x, y, c.order)
                return int(bool(ee.Public_key(c.generator, pt).verifies(z, ee.Signature(rr, ss))))
            except Exception:
                return 0
    return app('p256_verifies', [xt, yt, zt, r, s], 0, real)


def make_ecdsa():
    real = R.ecdsa
    m = mod('ecdsa')
    for k in dir(real):
        if not k.startswith('__'):
            m.__dict__[k] = getattr(real, k)
    BadSig = real.keys.BadSignatureError

    class VerifyingKey:
        def __init__(self, els, curve, hashfunc):
            self.els, self.curve, self.default_hashfunc = els, curve, hashfunc

        @classmethod
        def from_string(cls, string, curve=None, hashfunc=hashlib.sha1, validate_point=True):
            curve = curve if curve is not None else real.NIST192p
            els = els_of(string)
            if els is None:
                if isinstance(string, str):
                    raise TypeError('string argument without an encoding')
                raise TypeError('key must be bytes')
            els = list(els)
            assert len(els) == curve.verifying_key_length, (len(els), curve.verifying_key_length)
            n = len(els) // 2
            if not any(is_z3(v) for v in els):
                with natives():
                    real.VerifyingKey.from_string(bytes(els), curve=curve, hashfunc=hashfunc)
            else:
                if curve is not real.NIST256p:
                    els = list(mk_bytes(els).native())
                    return cls.from_string(bytes(els), curve, hashfunc)
                xt, yt = runtime.term_of_bytes(els[:n]), runtime.term_of_bytes(els[n:])
                if not E().fork(point_valid(xt, yt)):
                    raise AssertionError()
            return cls(els, curve, hashfunc)

        def to_string(self):
            return mk_bytes(list(self.els))

        def verify(self, signature, data, hashfunc=None, sigdecode=None):
            h = hashfunc or self.default_hashfunc
            d = runtime.call(runtime.call(h, data).digest)
            return self.verify_digest(signature, d)

        def verify_digest(self, signature, digest, sigdecode=None):
            dig = list(els_of(digest))
            if len(dig) > self.curve.baselen:
                raise real.BadDigestError('this curve is too short for your digest')
            se = els_of(signature)
            if se is None:
                raise TypeError('signature must be bytes')
            se = list(se)
            n = self.curve.baselen
            assert len(se) == 2 * n, (len(se), 2 * n)
            allv = self.els + dig + se
            if not any(is_z3(v) for v in allv):
                with natives():
                    vk = real.VerifyingKey.from_string(bytes(self.els), curve=self.curve)
                    return vk.verify_digest(bytes(se), bytes(dig))
            if self.curve is not real.NIST256p:
                raise PathIncomplete('ECDSA on a curve other than NIST256p')
            k = len(self.els) // 2
            z = resize(runtime.term_of_bytes(dig), 0, 256)
            tb = runtime.term_of_bytes
            if E().fork(ec_verifies(tb(self.els[:k]), tb(self.els[k:]), z, tb(se[:n]), tb(se[n:]))):
                return True
            raise BadSig
    m.VerifyingKey = VerifyingKey
    keys = mod('ecdsa.keys')
    for k in dir(real.keys):
        if not k.startswith('__'):
            keys.__dict__[k] = getattr(real.keys, k)
    keys.VerifyingKey = VerifyingKey
    m.keys = keys
    m.__path__ = []
    return m, keys


# -------------------------------------------------------------------------
# scrypt, AES, random
def scrypt_hash(password, salt, N=1 << 14, r=8, p=1, buflen=64):
    def b(x):
        if isinstance(x, str):
            x = seqs.encode(chs_of(x), 'utf-8', 'strict')
        e = els_of(x)
        if e is None or isinstance(x, bytearray):
            raise TypeError('Argument must be bytes or str')
        return list(e)
    pw, sa = b(password), b(salt)
    N, r, p, buflen = [to_native(v) for v in (N, r, p, buflen)]
    k = len(pw)

    def real(raw):
        with natives():
            return R.scrypt.hash(raw[:k], raw[k:], N=N, r=r, p=p, buflen=buflen)
    if not any(is_z3(v) for v in pw + sa):
        with natives():
            return R.scrypt.hash(bytes(pw), bytes(sa), N=N, r=r, p=p, buflen=buflen)
    return mk_bytes(uf_apply('scrypt_%d_%d_%d_%d_%d' % (k, N, r, p, buflen), pw + sa, buflen, real))


class SymAES:
    block_size = 16

    def __init__(self, key, mode):
        self.key = list(els_of(key))
        if len(self.key) not in (16, 24, 32):
            raise ValueError('Incorrect AES key length (%d bytes)' % len(self.key))
        self.mode = mode

    def _run(self, data, enc):
        e = els_of(data)
        if e is None:
            raise TypeError('Object type %s cannot be passed to C code' % type(data))
        e = list(e)
        if len(e) % 16:
            raise ValueError('Data must be aligned to block boundary in ECB mode')
        if not any(is_z3(v) for v in self.key + e):
            with natives():
                c = R.AES.new(bytes(self.key), R.AES.MODE_ECB)
                return c.encrypt(bytes(e)) if enc else c.decrypt(bytes(e))
        out = []
        kt = runtime.term_of_bytes(self.key)
        n = len(self.key)

        def real(which):
            def f(k, d):
                with natives():
                    c = R.AES.new(k.to_bytes(n, 'big'), R.AES.MODE_ECB)
                    d = d.to_bytes(16, 'big')
                    return int.from_bytes(c.encrypt(d) if which else c.decrypt(d), 'big')
            return f
        for i in range(0, len(e), 16):
            dt = runtime.term_of_bytes(e[i:i + 16])
            tt = app('aes%s_%d' % ('e' if enc else 'd', n), [kt, dt], 128, real(enc))
            inv = app('aes%s_%d' % ('d' if enc else 'e', n), [kt, tt], 128, real(not enc))
            E().add(inv == dt)
            # AES is the inverse of itself: enc(k, dec(k, x)) is x syntactically where possible
            recs = E().state.setdefault('aes', [])
            hit = None
            for (en, k2, d2, t2) in recs:
                if en != enc and k2.eq(kt) and t2.eq(dt):
                    hit = d2
            recs.append((enc, kt, dt, tt))
            src = hit if hit is not None else tt
            out += [norm_elem(z3.simplify(z3.Extract(8 * k + 7, 8 * k, src))) for k in range(15, -1, -1)]
        return mk_bytes(out)

    def encrypt(self, data):
        return self._run(data, True)

    def decrypt(self, data):
        return self._run(data, False)


def aes_new(key, mode=None, *a, **k):
    if to_native(mode) != R.AES.MODE_ECB or a or k:
        raise PathIncomplete('AES mode %s' % mode)
    return SymAES(key, mode)


def fresh_random_bytes(n):
    """any n bytes (the OS random source)"""
    e = E()
    n = to_native(n)
    k = e.state['rand_n'] = e.state.get('rand_n', 0) + 1
    v = [z3.BitVec('rand!%d_%d' % (k, i), 8) for i in range(n)]
    return mk_bytes(v)


# -------------------------------------------------------------------------
class Logger:
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


def bitcount(n):
    """mpmath.libmp.bitcount: bit length of abs(n)"""
    if is_symint(n):
        return core.int_bit_length(n)
    return abs(n).bit_length()


def make_stub(top, builtins_ns):
    out = {}
    if top == 'base58':
        out['base58'] = mod('base58', b58encode=b58encode, b58decode=b58decode, b58encode_check=b58encode_check,
                            b58decode_check=b58decode_check, alphabet=ALPH)
    elif top == 'bitcoin':
        out['bitcoin'], out['bitcoin.main'] = make_bitcoin(builtins_ns)
    elif top == 'ecdsa':
        out['ecdsa'], out['ecdsa.keys'] = make_ecdsa()
    elif top == 'scrypt':
        out['scrypt'] = mod('scrypt', hash=scrypt_hash)
    elif top == 'Crypto':
        rnd = mod('Crypto.Random', get_random_bytes=fresh_random_bytes,
                  new=lambda: types.SimpleNamespace(read=fresh_random_bytes))
        aes = mod('Crypto.Cipher.AES', new=aes_new, MODE_ECB=R.AES.MODE_ECB, MODE_CBC=R.AES.MODE_CBC, block_size=16)
        cip = mod('Crypto.Cipher', AES=aes)
        cip.__path__ = []
        cr = mod('Crypto', Random=rnd, Cipher=cip)
        cr.__path__ = []
        out.update({'Crypto': cr, 'Crypto.Random': rnd, 'Crypto.Cipher': cip, 'Crypto.Cipher.AES': aes})
    elif top == 'logzero':
        lg = Logger()
        out['logzero'] = mod('logzero', logger=lg, setup_logger=lambda *a, **k: lg, loglevel=lambda *a, **k: None)
    elif top == 'mpmath':
        lm = mod('mpmath.libmp', bitcount=bitcount)
        out['mpmath'] = mod('mpmath', libmp=lm)
        out['mpmath'].__path__ = []
        out['mpmath.libmp'] = lm
    return out
