"""C10 reading untrusted streams"""
import io

from neocore.IO.BinaryReader import BinaryReader

HUGE = 2 ** 66


def read(t, n):
    """ReadBytes and SafeReadBytes at every position"""
    d = t.bytes('d', n)
    st = io.BytesIO(d)
    p = t.concrete(t.int('p', 0, n + 1))
    st.seek(p)
    k = t.int('k', 0, n + 3)
    r = BinaryReader(st)
    safe = t.choice('safe', [False, True])
    left = max(0, n - p)
    if safe:
        ok, v = t.attempt(lambda: r.SafeReadBytes(k))
        t.check(t.same(ok, k <= left), 'SafeReadBytes gives a value exactly when enough bytes are left')
        if ok:
            t.check(t.same(v, d[p:p + t.concrete(k)]), 'SafeReadBytes returns other bytes')
            t.check(t.same(st.tell(), p + k), 'SafeReadBytes consumed a wrong number of bytes')
    else:
        v = r.ReadBytes(k)
        t.check(t.same(v, d[p:p + t.concrete(k)]), 'ReadBytes does not return exactly the next bytes')
        t.check(t.same(st.tell(), min(p + k, max(p, n))), 'ReadBytes consumed a wrong number of bytes')


def safe_huge(t, n):
    d = t.bytes('d', n)
    k = t.int('k', n + 1, 2 ** 63 - 1)
    ok, v = t.attempt(lambda: BinaryReader(io.BytesIO(d)).SafeReadBytes(k))
    t.check(not ok, 'SafeReadBytes gave too few bytes')


def announced(d):
    """reference decoding of a variable-length number: (value, width) or None"""
    if len(d) < 1:
        return None
    f = d[0]
    if f < 0xfd:
        return (f, 1)
    w = 2 if f == 0xfd else 4 if f == 0xfe else 8
    if len(d) < 1 + w:
        return None
    return (int.from_bytes(d[1:1 + w], 'little'), 1 + w)


def varint(t, n):
    """any stream: a value not above the limit or an error"""
    d = t.bytes('d', n)
    lim = t.int('lim', 0, HUGE)
    st = io.BytesIO(d)
    ok, v = t.attempt(lambda: BinaryReader(st).ReadVarInt(lim))
    ref = announced(d)
    if ref is None:
        if n > 0:
            t.check(not ok, 'a truncated variable-length number gave a value')
        else:
            t.check(t.same(v, 0) if ok else True, 'a number was read from an empty stream')
    else:
        t.check(t.same(ok, ref[0] <= lim), 'the limit of a variable-length number is not enforced')
        if ok:
            t.check(t.same(v, ref[0]), 'a variable-length number has a wrong value')
            t.check(st.tell() == ref[1], 'a variable-length number consumed a wrong number of bytes')


def payload(t, n, what, limit):
    """length-prefixed payloads from any stream"""
    d = t.bytes('d', n)
    lim = t.int('lim', 0, 2 * n + 3) if limit else None
    st = io.BytesIO(d)
    r = BinaryReader(st)
    f = r.ReadVarBytes if what == 'bytes' else r.ReadVarString
    ok, v = t.attempt(lambda: f(lim) if limit else f())
    ref = announced(d)
    if ref is None:
        if n > 0:
            t.check(not ok, 'a truncated length gave a payload')
        elif ok:
            t.check(len(v) == 0, 'a payload was read from an empty stream')
        else:
            t.check(True, 'an empty stream is rejected')
        return
    size, w = ref
    if limit and size > lim:
        t.check(not ok, 'a payload longer than the limit was read')
        return
    if size > n - w:
        t.check(st.tell() <= n, 'reading went beyond the stream')
        if what == 'string':
            t.check(not ok, 'a string cut short was read')
        if ok:
            t.check(t.same(v, d[w:]), 'a payload has bytes that are not in the stream')
        return
    t.check(ok, 'a complete payload within the limit was rejected')
    if ok:
        k = t.concrete(size)
        t.check(t.same(v, d[w:w + k]), 'a payload has other bytes than the stream')
        t.check(st.tell() == w + k, 'a payload consumed a wrong number of bytes')


FIXED = {'ReadInt8': 1, 'ReadUInt8': 1, 'ReadInt16': 2, 'ReadUInt16': 2, 'ReadInt32': 4, 'ReadUInt32': 4, 'ReadInt64': 8, 'ReadUInt64': 8,
         'ReadFloat': 4, 'ReadDouble': 8, 'ReadBool': 1, 'ReadChar': 1, 'ReadFixed8': 8}


def short(t, name):
    """a fixed-width field cut short"""
    w = FIXED[name]
    k = t.concrete(t.int('k', 0, w - 1))
    d = t.bytes('d', k)
    st = io.BytesIO(d)
    ok, v = t.attempt(lambda: getattr(BinaryReader(st), name)())
    t.check(not ok, '%s gave a value for a truncated field' % name)


def exact(t, name):
    """a complete field consumes exactly its width whatever follows"""
    w = FIXED[name]
    d = t.bytes('d', w + 3)
    st = io.BytesIO(d)
    st.seek(t.concrete(t.int('p', 0, 3)))
    p = st.tell()
    getattr(BinaryReader(st), name)()
    t.check(st.tell() == p + w, '%s consumed a wrong number of bytes' % name)


def string8(t, n):
    """the one-byte-length string reader on any stream"""
    d = t.bytes('d', n)
    st = io.BytesIO(d)
    ok, v = t.attempt(lambda: BinaryReader(st).ReadString())
    if n == 0:
        t.check(not ok, 'a string was read from an empty stream')
        return
    k = d[0]
    if k > n - 1:
        t.check(not ok, 'a string shorter than announced was read')
        return
    t.check(ok, 'a complete string was rejected')
    k = t.concrete(k)
    if ok:
        t.check(t.same(v, d[1:1 + k]), 'a string has other bytes than the stream')
        t.check(st.tell() == 1 + k, 'a string consumed a wrong number of bytes')


def fixed_string(t, n, k):
    """ReadFixedString never consumes more than its width and never invents bytes"""
    d = t.bytes('d', n)
    st = io.BytesIO(d)
    ok, v = t.attempt(lambda: BinaryReader(st).ReadFixedString(k))
    t.check(st.tell() <= k and st.tell() <= n, 'ReadFixedString consumed too much')
    if ok:
        t.check(len(v) <= min(n, k), 'ReadFixedString gives bytes that are not in the stream')
        t.check(t.same(v, d[:len(v)]), 'ReadFixedString gives other bytes than the stream')


def varint_noarg(t, n):
    """without a limit every complete encoding gives its value"""
    d = t.bytes('d', n)
    st = io.BytesIO(d)
    ok, v = t.attempt(lambda: BinaryReader(st).ReadVarInt())
    ref = announced(d)
    if ref is None:
        if n > 0:
            t.check(not ok, 'a truncated variable-length number gave a value')
        else:
            t.check(t.same(v, 0) if ok else True, 'a number was read from an empty stream')
        return
    if ok:
        t.check(t.same(v, ref[0]), 'a variable-length number has a wrong value')
        t.check(st.tell() == ref[1], 'a variable-length number consumed a wrong number of bytes')
    t.check(t.implies(ref[0] <= 2 ** 63 - 1, ok), 'a complete variable-length number was rejected')


def long(t, k, m, form, what):
    """a payload of k bytes announced in the given form, of which m are there"""
    d = t.bytes('d', m)
    head = b'' if what in ('raw', 'safe') else {1: b'', 3: b'\xfd', 5: b'\xfe', 9: b'\xff'}[form] + k.to_bytes(max(1, form - 1), 'little')
    lim = t.int('lim', 0, 2 ** 64)
    st = io.BytesIO(head + d)
    r = BinaryReader(st)
    if what == 'raw':
        v = r.ReadBytes(k)
        t.check(t.same(v, d[:k]), 'ReadBytes does not return exactly the next bytes')
        t.check(st.tell() == min(k, m), 'ReadBytes consumed a wrong number of bytes')
        return
    if what == 'safe':
        ok, v = t.attempt(lambda: r.SafeReadBytes(k))
        t.check(ok == (k <= m), 'SafeReadBytes gives a value exactly when enough bytes are left')
        if ok:
            t.check(t.same(v, d[:k]) and st.tell() == k, 'SafeReadBytes returns other bytes')
        return
    ok, v = t.attempt(lambda: (r.ReadVarBytes if what == 'bytes' else r.ReadVarString)(lim))
    if k > lim:
        t.check(not ok, 'a payload longer than the limit was read')
        return
    if m < k:
        t.check(what == 'bytes' or not ok, 'a string cut short was read')
        if ok:
            t.check(t.same(v, d), 'a payload has bytes that are not in the stream')
        return
    t.check(ok, 'a complete payload within the limit was rejected')
    if ok:
        t.check(t.same(v, d[:k]), 'a payload has other bytes than the stream')
        t.check(st.tell() == len(head) + k, 'a payload consumed a wrong number of bytes')
