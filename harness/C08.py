"""C08 UInt text forms and parsing"""
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256

from harness.common import hexbyte

CLS = {20: UInt160, 32: UInt256}


def low_hex(d):
    return ''.join([hexbyte(b) for b in d])


def forms(t, n, kind):
    d = t.bytes('d', n)
    x = CLS[n](bytearray(d) if kind == 'bytearray' else d)
    h = low_hex(d[::-1])
    t.check(t.same(x.ToString(), h), 'ToString is not the reversed hexadecimal')
    t.check(t.same(str(x), h), 'str() is not the reversed hexadecimal')
    t.check(t.same(x.To0xString(), '0x' + h), 'To0xString is not the prefixed reversed hexadecimal')
    t.check(t.same(x.ToBytes(), h.encode('ascii')), 'ToBytes is not the reversed hexadecimal in ASCII')
    t.check(t.same(x.ToString2(), low_hex(d)), 'ToString2 is not the hexadecimal in storage order')
    t.check(t.same(x.ToArray(), d), 'forming the text changed the UInt')
    t.check(t.same(x.ToString(), h), 'ToString changes from call to call')
    t.check(t.same(x == CLS[n](d), True), 'forming the text changed the UInt')


def back(t, n, form):
    d = t.bytes('d', n)
    x = CLS[n](d)
    s = {'plain': x.ToString, '0x': x.To0xString}[form]()
    y = CLS[n].ParseString(s)
    t.check(type(y) is CLS[n], 'parsing gives another type')
    t.check(t.same(y.ToArray(), d), 'parsing the text of a UInt gives other bytes')
    t.check(t.same(x == y, True), 'parsing the text of a UInt gives a different value')
    t.check(t.same(y.ToString(), x.ToString()), 'the parsed value has another text')


def parse(t, n, prefix):
    """every text of hexadecimal digits in either letter case"""
    s = t.str('s', 2 * n, 'any')
    t.assume(t.all([((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')) for c in s]))
    nib = [((ord(c) & 15) + 9 * (ord(c) >> 6)) & 15 for c in s]
    y = CLS[n].ParseString(('0x' if prefix else '') + s)
    exp = bytes([nib[2 * i] * 16 + nib[2 * i + 1] for i in range(n)])[::-1]
    t.check(type(y) is CLS[n], 'parsing gives another type')
    t.check(t.same(y.ToArray(), exp), 'parsing hexadecimal text gives other bytes')
    t.check(y.Size == n, 'parsing gives another width')


def reject(t, n, k, prefix):
    """any text of k characters"""
    s = t.str('s', k, 'any')
    text = ('0x' if prefix else '') + s
    body = s
    if not prefix and k >= 2:
        pre = t.all([s[0] == '0', s[1] == 'x'])
    else:
        pre = False
    digs = [((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')) for c in s]
    if k == 2 * n:
        good = t.all(digs)
    elif not prefix and k == 2 * n + 2:
        good = t.all([pre] + digs[2:])
    else:
        good = False
    ok, y = t.attempt(lambda: CLS[n].ParseString(text))
    t.check(t.same(ok, good), 'a text that is not exactly the hexadecimal digits was accepted, or a well-formed one rejected')
