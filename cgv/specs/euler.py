"""Euler (Tait-Bryan, intrinsic) angles."""
from .lib import *
from .quat import qmul
P('C14')
def qx(a): return V([sin(a / 2), ZERO, ZERO, cos(a / 2)])
def qy(a): return V([ZERO, sin(a / 2), ZERO, cos(a / 2)])
def qz(a): return V([ZERO, ZERO, sin(a / 2), cos(a / 2)])
ORD = {'xyz': 0x24, 'xzy': 0x18, 'yzx': 0x09, 'yxz': 0x21, 'zxy': 0x12, 'zyx': 0x06}
def order(o):
    r = None
    axes = ['xyz'.index(c) for c in o]
    return axes[0] | axes[1] << 2 | axes[2] << 4
def eul(o, a):
    m = dict(x=rotx(a[0]), y=roty(a[1]), z=rotz(a[2]))
    return ext4(mmul(m[o[0]], m[o[1]], m[o[2]]))
def eulq(o, a, hand):
    m = dict(x=qx(a[0]), y=qy(a[1]), z=qz(a[2] if hand == 'rh' else -a[2]))
    return qmul(qmul(m[o[0]], m[o[1]]), m[o[2]])
ORDERS = ('xyz', 'xzy', 'yzx', 'yxz', 'zxy', 'zyx')
for o in ORDERS:
    S('glm_euler_%s(vec3 a, >mat4 dest)' % o, lambda a, o=o: eul(o, a))
    for h in ('rh', 'lh'):
        S('glm_euler_%s_quat_%s(vec3 a, >versor dest)' % (o, h), lambda a, o=o, h=h: eulq(o, a, h))
    S('glm_euler_%s_quat(vec3 a, >versor dest)' % o, lambda a, o=o: eulq(o, a, CTX.hand()))
S('glm_euler(vec3 a, >mat4 dest)', lambda a: eul('xyz', a))
S('glm_euler_order(int ord[3]) -> int', lambda o: iwrap(D.iop('or', D.iop('or', D._unw(o[0]), D.iop('shl', D._unw(o[1]), 2, 32), 32), D.iop('shl', D._unw(o[2]), 4, 32), 32)),
  requires=lambda o: [D.icmp('ult', D._unw(x), 3, 32) for x in o])
def by_order(a, k):
    k = k.args[0] if isinstance(k, D.Node) else k
    r = eul(next(o for o in ORDERS if order(o) == k), a)
    return r
S('glm_euler_by_order(vec3 a, int ord, >mat4 dest)', by_order, enum=dict(ord=[order(o) for o in ORDERS]))
def angles(m):
    s = m[2][0]; at = lambda y, x: ffn('atan2', y, x)
    h = const(PI / 2)
    mid = V([at(-m[2][1], m[2][2]), ffn('asin', s), at(-m[1][0], m[0][0])])
    lo = V([-at(m[0][1], m[1][1]), -h, ZERO]); hi = V([at(m[0][1], m[1][1]), h, ZERO])
    return vite(flt(s, 1), vite(flt(-1, s), mid, lo), hi)
S('glm_euler_angles(mat4 m, >vec3 dest)', angles)
