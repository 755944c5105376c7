"""C06 hash lists and serializable arrays"""
import io

from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
from neocore.IO.Mixins import SerializableMixin

from harness.common import varint


class Item(SerializableMixin):
    """a serializable object with a number and a payload"""

    def __init__(self, n=0, data=b''):
        self.n = n
        self.data = data

    def Serialize(self, writer):
        writer.WriteUInt32(self.n)
        writer.WriteVarBytes(self.data)

    def Deserialize(self, reader):
        self.n = reader.ReadUInt32()
        self.data = reader.ReadVarBytes()

    def __len__(self):
        return len(self.data)


def hashes(t, n, form):
    hs = [t.bytes('h%d' % i, 32) for i in range(n)]
    texts = [h.hex() for h in hs]
    arg = [x.encode('ascii') for x in texts] if form == 'bytes' else list(texts)
    st = io.BytesIO()
    w = BinaryWriter(st)
    w.WriteHashes(arg)
    exp = varint(n) + b''.join([h[::-1] for h in hs])
    t.check(t.same(st.getvalue(), exp), 'WriteHashes does not emit the count and the reversed hashes')
    t.check(len(arg) == n, 'WriteHashes changed its argument')
    st = io.BytesIO(exp + b'\x01\x02')
    got = BinaryReader(st).ReadHashes()
    t.check(len(got) == n, 'ReadHashes restored a wrong number of hashes')
    t.check(t.same(got, texts), 'ReadHashes does not restore the hashes in order')
    t.check(st.tell() == len(exp), 'ReadHashes consumed a wrong number of bytes')


def short_hashes(t, lens):
    """entries of other sizes are reversed as they are"""
    hs = [t.bytes('h%d' % i, n) for i, n in enumerate(lens)]
    st = io.BytesIO()
    BinaryWriter(st).WriteHashes([h.hex().encode('ascii') for h in hs])
    t.check(t.same(st.getvalue(), varint(len(lens)) + b''.join([h[::-1] for h in hs])), 'WriteHashes does not emit the reversed entries')


def write2000(t, n, size):
    hs = [t.bytes('h%d' % i, size) for i in range(n)]
    st = io.BytesIO()
    BinaryWriter(st).Write2000256List([h.hex().encode('ascii') for h in hs])
    t.check(t.same(st.getvalue(), b''.join([h[::-1] for h in hs])), 'Write2000256List does not emit the reversed entries')


def read2000(t, where, upper):
    """2000 entries of 64 hexadecimal digits"""
    free = {i: t.bytes('h%d' % i, 32) for i in where}
    hs = [free[i] if i in free else bytes([i & 255, i >> 8]) * 16 for i in range(2000)]
    texts = [h.hex().upper() if upper else h.hex() for h in hs]
    st = io.BytesIO(''.join(texts).encode('ascii') + b'rest')
    got = BinaryReader(st).Read2000256List()
    t.check(len(got) == 2000, 'Read2000256List gives a wrong number of entries')
    t.check(t.all([t.same(g, h[::-1].hex().encode('ascii')) for g, h in zip(got, hs)]),
            'Read2000256List does not give the reversed entries in order')
    t.check(st.tell() == 2000 * 64, 'Read2000256List consumed a wrong number of bytes')


def write2000full(t, where):
    free = {i: t.bytes('h%d' % i, 32) for i in where}
    hs = [free[i] if i in free else bytes([i & 255, i >> 8]) * 16 for i in range(2000)]
    st = io.BytesIO()
    BinaryWriter(st).Write2000256List([h.hex().encode('ascii') for h in hs])
    t.check(t.same(st.getvalue(), b''.join([h[::-1] for h in hs])), 'Write2000256List does not emit the reversed entries')


def array(t, sizes, limit):
    items = [Item(t.int('n%d' % i, 0, 2 ** 32 - 1), t.bytes('d%d' % i, k)) for i, k in enumerate(sizes)]
    st = io.BytesIO()
    BinaryWriter(st).WriteSerializableArray(items)
    exp = varint(len(sizes))
    for it, k in zip(items, sizes):
        exp = exp + it.n.to_bytes(4, 'little') + varint(k) + it.data
    t.check(t.same(st.getvalue(), exp), 'WriteSerializableArray does not emit the count and the objects in order')
    st = io.BytesIO(exp + b'\x09')
    r = BinaryReader(st)
    got = r.ReadSerializableArray('harness.C06.Item', max=limit) if limit is not None else r.ReadSerializableArray('harness.C06.Item')
    t.check(len(got) == len(items), 'ReadSerializableArray restored a wrong number of objects')
    t.check(t.all([t.same(g.n, i.n) for g, i in zip(got, items)]), 'ReadSerializableArray does not restore the objects')
    t.check(t.all([t.same(g.data, i.data) for g, i in zip(got, items)]), 'ReadSerializableArray does not restore the objects')
    t.check(all([type(g) is Item for g in got]), 'ReadSerializableArray gives objects of another class')
    t.check(st.tell() == len(exp), 'ReadSerializableArray consumed a wrong number of bytes')


def absent(t):
    st = io.BytesIO()
    BinaryWriter(st).WriteSerializableArray(None)
    t.check(t.same(st.getvalue(), b'\x00'), 'an absent array is not written as a zero byte')
    got = BinaryReader(io.BytesIO(b'\x00' + t.bytes('d', 4))).ReadSerializableArray('harness.C06.Item')
    t.check(t.same(got, []), 'an empty array is not restored as an empty list')


def nested(t):
    """hash lists and arrays between other fields"""
    h = t.bytes('h', 32)
    v = t.int('v', 0, 2 ** 16 - 1)
    it = Item(t.int('n', 0, 2 ** 32 - 1), t.bytes('d', 2))
    st = io.BytesIO()
    w = BinaryWriter(st)
    w.WriteHashes([h.hex()])
    w.WriteUInt16(v)
    w.WriteSerializableArray([it, it])
    w.WriteHashes([])
    st.seek(0)
    r = BinaryReader(st)
    t.check(t.same(r.ReadHashes(), [h.hex()]), 'the hash list is not restored')
    t.check(t.same(r.ReadUInt16(), v), 'the number behind a hash list is not restored')
    got = r.ReadSerializableArray('harness.C06.Item')
    t.check(len(got) == 2, 'the array is not restored')
    t.check(t.all([t.same(g.data, it.data) for g in got]), 'the array is not restored')
    t.check(t.same(r.ReadHashes(), []), 'an empty hash list is not restored')
