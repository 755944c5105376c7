"""The harness interface: symbolic side (SymCtx) and concrete replay side (NatCtx).
A harness is an ordinary function h(t, **params) in /verif/harness; the same source
runs under the symbolic engine and, unchanged, on the real code in native Python."""


class AssumeFailed(BaseException):
    pass


class CheckFailed(BaseException):
    def __init__(self, msg):
        self.msg = msg


class NatCtx:
    """concrete execution on the unmodified code with the given input values"""
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.obs = []
        self.checks = 0
        self.known = {}
        self.labels = []

    def _get(self, name, default):
        v = self.inputs.get(name)
        return default if v is None else v

    def int(self, name, lo, hi):
        v = int(self._get(name, str(lo)))
        if not lo <= v <= hi:
            raise AssumeFailed()
        return v

    def bytes(self, name, n):
        v = bytes.fromhex(self._get(name, '00' * n))
        return v

    def bytearray(self, name, n):
        return bytearray(self.bytes(name, n))

    def str(self, name, n, kind='unicode'):
        return ''.join(map(chr, self._get(name, [97] * n)))

    def bool(self, name):
        return bool(self._get(name, False))

    def f64(self, name):
        import struct
        return struct.unpack('<d', struct.pack('<Q', int(self._get(name, '0'))))[0]

    def choice(self, name, values):
        return values[int(self._get(name, '0'))]

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, c, msg, known=None):
        self.checks += 1
        if not c:
            if known is not None and known[1]:
                self.known[known[0]] = msg
                return
            raise CheckFailed(msg)

    def fail(self, msg):
        raise CheckFailed(msg)

    def reach(self, label):
        self.labels.append(label)

    def observe(self, name, v):
        self.obs.append((name, enc_obs(v)))

    def abstract(self):
        pass

    def injective(self, *names):
        pass

    def attempt(self, f):
        try:
            return True, f()
        except Exception as e:
            return False, e

    def same(self, a, b):
        return a == b

    def all(self, cs):
        return all(cs)

    def any(self, cs):
        return any(cs)

    def implies(self, a, b):
        return (not a) or b

    def ite(self, c, a, b):
        return a if c else b

    def concrete(self, x):
        return x


def enc_obs(v, d=0):
    """a comparable text form of a value (both sides produce the same)"""
    if isinstance(v, bool) or v is None:
        return repr(v)
    if isinstance(v, int):
        return 'i%d' % int(v)
    if isinstance(v, (bytes, bytearray)):
        return 'b' + bytes(v).hex()
    if isinstance(v, str):
        return 's' + ','.join('%x' % ord(c) for c in v)
    if isinstance(v, float):
        import struct
        if v != v:
            return 'fnan'
        return 'f' + struct.pack('<d', v).hex()
    if isinstance(v, (list, tuple)) and d < 5:
        return '[' + ';'.join(enc_obs(x, d + 1) for x in v) + ']'
    if isinstance(v, BaseException):
        return 'X'
    return '?'
