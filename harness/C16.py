"""C16 addresses and script hashes"""
import hashlib
import base58
from neocore.Cryptography import Helper
from neocore.Cryptography.Crypto import Crypto
from neocore.UInt160 import UInt160
from neocore.Utils import isValidPublicAddress
from neocore.bin import cli


def dsha(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def expected(h):
    p = b'\x17' + bytes(h)
    return base58.b58encode(p + dsha(p)[:4]).decode()


def there_and_back(t, kind):
    h = t.bytes('h', 20)
    want = expected(h)
    arg = bytearray(h) if kind == 'bytearray' else h
    a = Helper.scripthash_to_address(arg)
    t.check(type(a) is str and t.same(a, want), 'the address is not the Base58 text of version, hash and checksum')
    t.check(t.same(arg, h), 'making the address changed the hash')
    t.check(t.same(len(a), 34), 'an address does not have 34 characters')
    ok, v = t.attempt(lambda: isValidPublicAddress(a))
    t.check(ok and t.same(v, True), 'the address of a script hash is not accepted as valid')
    ok, b = t.attempt(lambda: cli.address_to_scripthash(a))
    t.check(ok and t.same(b, h), 'converting an address back does not give the script hash')
    b2 = cli.address_to_scripthash(a.encode())
    t.check(t.same(b2, h), 'converting an address given as bytes does not give the script hash')
    t.check(type(b) is bytes, 'the script hash is not bytes')


def library(t):
    h = t.bytes('h', 20)
    u = UInt160(data=h)
    a = Crypto.ToAddress(u)
    t.check(t.same(a, expected(h)), 'ToAddress is not the Base58 text of version, hash and checksum')
    t.check(t.same(bytes(u.Data), h), 'ToAddress changed the script hash')
    t.check(t.same(Crypto.ToAddress(UInt160(data=bytearray(h))), a), 'ToAddress depends on history')


def distinct(t):
    """different hashes have different addresses"""
    h, g = t.bytes('h', 20), t.bytes('g', 20)
    a, b = Crypto.ToAddress(UInt160(data=h)), Helper.scripthash_to_address(g)
    t.check(t.same(a == b, h == g), 'two script hashes share an address')


def tool(t, form, upper):
    """np-utils --scripthash-to-address"""
    h = t.bytes('h', 20)
    s = h[::-1].hex() if form != 'little' else h.hex()
    if upper:
        s = s.upper()
    if form == 'big':
        s = '0x' + s
    ok, a = t.attempt(lambda: cli.scripthash_to_address(s))
    if form == 'bare big':
        # without 0x the text is taken to be little endian
        t.check(ok and t.same(a, expected(h[::-1])), 'a script hash text without 0x is not taken as little endian')
    else:
        t.check(ok and t.same(a, expected(h)), 'the tool gives another address than the library')


def malformed(t, n, prefix, kind):
    """any text that is not 40 hexadecimal digits behind an optional 0x"""
    s = prefix + t.str('s', n, kind)
    digits = s[2:] if prefix or n == 42 else s
    good = len(digits) == 40 and t.all([t.any([(c >= '0') & (c <= '9'), (c >= 'a') & (c <= 'f'), (c >= 'A') & (c <= 'F')]) for c in digits])
    if n == 42 and not prefix:
        good = t.all([good, s[0] == '0', s[1] == 'x'])
    ok, a = t.attempt(lambda: cli.scripthash_to_address(s))
    t.check(t.same(ok, good), 'a malformed script hash text was converted, or a proper one was not')
    if not ok:
        t.check(type(a) is cli.ConversionError, 'a malformed script hash text is not reported as a conversion error')


class Stop(BaseException):
    """stands for the end of the process"""

    def __init__(self, code):
        self.code = code


class Stand:
    """stands for argparse: hands over the texts given on the command line"""
    words = None

    class ArgumentParser:
        def __init__(self, *a, **k):
            pass

        def add_argument(self, *a, **k):
            pass

        def print_help(self, *a):
            pass

        def parse_args(self, *a):
            return Stand.words


class Words:
    def __init__(self, a, b):
        self.address_to_scripthash = a
        self.scripthash_to_address = b
        self.create_wallet = False
        self.version = False


def run_tool(words):
    """main with the given arguments: what it printed and its exit status"""
    out = []

    def show(*a, **k):
        out.append(a)

    def leave(code=0):
        raise Stop(code)
    ns = vars(cli)
    old = {k: ns[k] for k in ('argparse', 'print', 'exit', 'sys') if k in ns}
    argv = cli.sys.argv
    cli.sys.argv = ['np-utils', '--option', 'value']
    cli.argparse, cli.print, cli.exit = Stand, show, leave
    Stand.words = words
    status = 0
    try:
        cli.main()
    except Stop as e:
        status = e.code
    except SystemExit as e:
        status = e.code
    finally:
        cli.sys.argv = argv
        for k in ('argparse', 'print', 'exit'):
            if k in old:
                ns[k] = old[k]
            else:
                del ns[k]
    return out, status


def shows(t, out, want):
    """some printed text ends with the wanted one, behind a space or alone"""
    for a in out:
        for s in a:
            if isinstance(s, str) and (t.same(s, want) or (len(s) > len(want) and t.same(s[-len(want) - 1:], ' ' + want))):
                return True
    return False


def command_to_hash(t):
    h = t.bytes('h', 20)
    out, status = run_tool(Words([expected(h)], None))
    t.check(status in (0, None), 'the tool fails on a good address')
    t.check(shows(t, out, '0x' + h[::-1].hex()), 'the tool does not print the script hash in big endian form')
    t.check(shows(t, out, h.hex()), 'the tool does not print the script hash in little endian form')


def command_to_address(t, form):
    h = t.bytes('h', 20)
    out, status = run_tool(Words(None, ['0x' + h[::-1].hex() if form == 'big' else h.hex()]))
    t.check(status in (0, None), 'the tool fails on a good script hash')
    t.check(shows(t, out, expected(h)), 'the tool does not print the address of the script hash')


def command_bad(t, n, which, kind):
    """texts that are no address or script hash: status 1 and neither is printed"""
    s = t.str('s', n, kind)
    out, status = run_tool(Words([s], None) if which == 'address' else Words(None, [s]))
    t.check(t.same(status, 1), 'the tool does not fail with status 1')
