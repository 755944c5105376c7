"""C14 Fixed8 ceiling, floor, integer part, stated by their defining inequalities"""
from neocore.Fixed8 import Fixed8

D = 10 ** 8


def floor(t, lo, hi):
    v = t.int('v', lo, hi)
    x = Fixed8(v)
    a = x.Floor()
    t.check(type(a) is Fixed8 and isinstance(a.value, int), 'Floor gives another type')
    t.check(t.all([a.value <= v, v - a.value < D]), 'Floor is not next below the amount')
    t.check(t.same(a.value % D, 0), 'Floor is not whole')
    t.check(t.same(x.value, v), 'Floor changed the amount')


def ceil(t, lo, hi):
    v = t.int('v', lo, hi)
    x = Fixed8(v)
    a = x.Ceil()
    t.check(type(a) is Fixed8 and isinstance(a.value, int), 'Ceil gives another type')
    t.check(t.all([a.value >= v, a.value - v < D]), 'Ceil is not next above the amount')
    t.check(t.same(a.value % D, 0), 'Ceil is not whole')
    t.check(t.same(x.value, v), 'Ceil changed the amount')


def to_int(t, lo, hi):
    v = t.int('v', lo, hi)
    x = Fixed8(v)
    i = x.ToInt()
    t.check(isinstance(i, int), 'ToInt gives another type')
    m = i * D
    t.check(t.ite(v >= 0, m, -m) <= t.ite(v >= 0, v, -v), 'ToInt does not drop the fractional part')
    t.check(t.ite(v >= 0, v - m, m - v) < D, 'ToInt drops more than the fractional part')
    t.check(t.implies(i > 0, v > 0) and t.implies(i < 0, v < 0), 'ToInt changes the sign')
    t.check(t.same(x.value, v), 'ToInt changed the amount')


def together(t, lo, hi):
    """the three agree on every amount"""
    v = t.int('v', lo, hi)
    x = Fixed8(v)
    a, b, i = x.Floor().value, x.Ceil().value, x.ToInt()
    t.check(t.all([a <= v, v - a < D, b >= v, b - v < D]), 'Floor or Ceil is not next to the amount')
    t.check(t.same(i * D, t.ite(v >= 0, a, b)), 'ToInt is not the whole part')
