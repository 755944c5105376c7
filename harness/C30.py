"""C30 byte and hash helpers"""
import binascii
import hashlib
from neocore.Cryptography import Helper
from neocore.Cryptography.Crypto import Crypto
from neocore.UInt160 import UInt160
from neocore.IO import BinaryWriter as BW


def sha(b):
    return hashlib.sha256(b).digest()


def h160(b):
    return hashlib.new('ripemd160', sha(b)).digest()


def hashes(t, n, kind):
    d = t.bytes('d', n)
    a = bytearray(d) if kind == 'bytearray' else d
    dd, hh = sha(sha(d)), h160(d)
    t.check(t.same(Helper.bin_dbl_sha256(a), dd), 'bin_dbl_sha256 is not the double SHA-256')
    x = Helper.double_sha256(a)
    t.check(type(x) is str and t.same(x, dd.hex()), 'double_sha256 is not the hexadecimal double SHA-256')
    t.check(t.same(Crypto.Hash256(a), dd), 'Hash256 is not the double SHA-256')
    t.check(t.same(Crypto.Default().Hash256(a), dd), 'the instance Hash256 is not the double SHA-256')
    t.check(t.same(Helper.bin_hash160Bytes(a), hh), 'bin_hash160Bytes is not RIPEMD-160 of SHA-256')
    x = Helper.bin_hash160(a)
    t.check(type(x) is str and t.same(x, hh.hex()), 'bin_hash160 is not the hexadecimal RIPEMD-160 of SHA-256')
    t.check(t.same(Crypto.Hash160(a), hh.hex()), 'Hash160 is not the hexadecimal RIPEMD-160 of SHA-256')
    t.check(t.same(Crypto.Hash160Bytes(a), hh), 'Hash160Bytes is not RIPEMD-160 of SHA-256')
    t.check(t.same(Crypto.Default().Hash160(a), hh), 'the instance Hash160 is not RIPEMD-160 of SHA-256')
    t.check(t.same(Helper.redeem_to_scripthash(a), hh), 'redeem_to_scripthash is not RIPEMD-160 of SHA-256')
    t.check(t.same(bytes(a), d), 'hashing changed its argument')


def script_hash(t, n, raw, text):
    """ToScriptHash of raw bytes and of hexadecimal text"""
    d = t.bytes('d', n)
    if raw:
        r = Crypto.ToScriptHash(d, unhex=False)
    else:
        h = binascii.hexlify(d)
        if text == 'upper':
            h = h.upper()
        elif text == 'str':
            h = h.decode()
        r = Crypto.ToScriptHash(h)
    t.check(type(r) is UInt160 and t.same(bytes(r.Data), h160(d)), 'the script hash is not RIPEMD-160 of SHA-256 of the script')


def redeem(t, n):
    k = t.bytes('k', n)
    h = binascii.hexlify(k)
    r = Helper.pubkey_to_redeem(h)
    want = b'\x21' + k + b'\xac'
    t.check(t.same(r, want), 'the redeem script is not 0x21, key, 0xac')
    t.check(t.same(Helper.pubkey_to_pubhash(h), h160(want)), 'the script hash of a key is not that of its redeem script')
    t.check(t.same(Helper.redeem_to_scripthash(r), h160(want)), 'the script hash of a redeem script is wrong')


def base256(t, lo, hi, width):
    n = t.int('n', lo, hi)
    ok, r = t.attempt(lambda: Helper.base256_encode(n, width))
    t.check(t.same(ok, n >= 0), 'a negative number was encoded, or a proper one was not')
    if not ok:
        t.check(isinstance(r, ValueError), 'a negative number is not rejected with a ValueError')
        return
    t.check(type(r) is bytearray, 'base256_encode gives another type')
    k = len(r)
    t.check(t.same(n < (1 << (8 * k)), True) and t.same(bytes(r), n.to_bytes(k, 'little')), 'the bytes are not the little-endian number')
    t.check(k >= max(width, 1), 'fewer bytes than requested')
    if k > max(width, 1):
        t.check(t.same(n >= 1 << (8 * k - 8), True), 'more bytes than needed')


def xor(t, n):
    a, b = t.bytes('a', n), t.bytes('b', n)
    r = Helper.xor_bytes(a, b)
    t.check(type(r) is bytes and len(r) == n, 'the result has another length or type')
    t.check(t.all([t.same(x, y ^ z) for x, y, z in zip(r, a, b)]), 'the result is not the bytewise exclusive or')
    t.check(t.same(Helper.xor_bytes(r, b), a), 'xor with the same bytes does not give the original')
    t.check(t.same(Helper.xor_bytes(b, a), r), 'xor is not commutative')


def xor_lengths(t, n, m):
    a, b = t.bytes('a', n), t.bytes('b', m)
    ok, r = t.attempt(lambda: Helper.xor_bytes(a, b))
    t.check(not ok, 'byte strings of different lengths were combined')


def swap(t):
    n = t.int('n', 0, 2 ** 32 - 1)
    r = BW.swap32(n)
    t.check(t.same(r, int.from_bytes(n.to_bytes(4, 'big'), 'little')), 'swap32 does not reverse the bytes')
    t.check(t.same(BW.swap32(r), n), 'swap32 is not its own inverse')


def swap_range(t):
    n = t.int('n', -2 ** 40, 2 ** 40)
    ok, r = t.attempt(lambda: BW.swap32(n))
    t.check(t.same(ok, t.all([n >= 0, n < 2 ** 32])), 'swap32 accepts what does not have 32 bits')


def digits(t, bits, top):
    """the last 20 and 32 binary digits"""
    n = t.int('n', 0, top)
    f = BW.convert_to_uint160 if bits == 20 else BW.convert_to_uint256
    r = f(n)
    t.check(type(r) is str and len(r) == bits, 'not the requested number of digits')
    t.check(t.all([t.same(r[bits - 1 - i] == '1', (n >> i) % 2 == 1) for i in range(bits)]), 'a digit is wrong')
    t.check(t.all([t.any([c == '0', c == '1']) for c in r]), 'not a binary digit')


def script_byte(t):
    """a script of a single byte is no hexadecimal text"""
    d = t.bytes('d', 1)
    r = Crypto.ToScriptHash(d)
    t.check(type(r) is UInt160 and t.same(bytes(r.Data), h160(d)), 'the script hash of a single byte is not RIPEMD-160 of SHA-256 of it')
    t.check(t.same(bytes(Crypto.ToScriptHash(b'').Data), h160(b'')), 'the script hash of nothing is not RIPEMD-160 of SHA-256 of nothing')
