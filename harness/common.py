"""shared, independently written reference pieces"""


def varint(v):
    if v < 0xfd:
        return v.to_bytes(1, 'little')
    if v <= 0xffff:
        return b'\xfd' + v.to_bytes(2, 'little')
    if v <= 0xffffffff:
        return b'\xfe' + v.to_bytes(4, 'little')
    return b'\xff' + v.to_bytes(8, 'little')


HEX = '0123456789abcdef'


def hexbyte(b):
    return '0123456789abcdef'[b >> 4] + '0123456789abcdef'[b & 15]
