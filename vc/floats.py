"""Float operations on bit patterns: constants are folded exactly, everything else is
an application of f.<op><w>; normalised so that commuted operands compare equal."""
import struct
import numpy as np
import terms as tm
from terms import bv, TRUE, FALSE

np.seterr(all="ignore")


def f2b(x, w):
    if w == 32:
        return struct.unpack("<I", struct.pack("<f", np.float32(x)))[0]
    return struct.unpack("<Q", struct.pack("<d", float(x)))[0]


def b2f(b, w):
    if w == 32:
        return np.frombuffer(struct.pack("<I", b), dtype=np.float32)[0]
    return np.frombuffer(struct.pack("<Q", b), dtype=np.float64)[0]


def np2b(x, w):
    x = np.float32(x) if w == 32 else np.float64(x)
    v = int.from_bytes(x.tobytes(), "little")
    return v


def fconst(x, w=32):
    return bv(np2b(np.float32(x) if w == 32 else np.float64(x), w), w)


def _f(t):
    return b2f(t.p, t.s)


def fneg(a):
    return tm.bxor(a, bv(1 << (a.s - 1), a.s))


def fabs(a):
    return tm.band(a, bv((1 << (a.s - 1)) - 1, a.s))


def _bin(op, a, b):
    w = a.s
    if tm.isc(a) and tm.isc(b):
        x, y = _f(a), _f(b)
        if op == "add":
            r = x + y
        elif op == "mul":
            r = x * y
        elif op == "div":
            r = x / y
        return bv(np2b(r, w), w)
    if op in ("add", "mul") and a.id > b.id:
        a, b = b, a
    return tm.app("f.%s%d" % (op, w), (a, b), w)


def fadd(a, b):
    return _bin("add", a, b)


def fsub(a, b):
    # a-b == a+(-b) exactly in IEEE-754
    return _bin("add", a, fneg(b))


def fmul(a, b):
    return _bin("mul", a, b)


def fdiv(a, b):
    return _bin("div", a, b)


def flt(a, b):
    if tm.isc(a) and tm.isc(b):
        return tm.boolc(bool(_f(a) < _f(b)))
    return tm.app("f.lt%d" % a.s, (a, b), 0)


def fle(a, b):
    if tm.isc(a) and tm.isc(b):
        return tm.boolc(bool(_f(a) <= _f(b)))
    return tm.app("f.le%d" % a.s, (a, b), 0)


def feq(a, b):
    if tm.isc(a) and tm.isc(b):
        return tm.boolc(bool(_f(a) == _f(b)))
    if a.id > b.id:
        a, b = b, a
    return tm.app("f.eq%d" % a.s, (a, b), 0)


def fcvt(a, w):
    if a.s == w:
        return a
    if tm.isc(a):
        return bv(np2b(_f(a), w), w)
    if a.op == "app" and a.p == "f.cvt64" and w == 32 and a.args[0].s == 32:
        return a.args[0]  # float32->float64->float32 is the identity (non-NaN payload)
    return tm.app("f.cvt%d" % w, (a,), w)


def from_int(a, signed, w):
    if tm.isc(a):
        v = tm.sval(a) if signed else a.p
        return bv(np2b(_int2np(v, w), w), w)
    # canonical source width 64
    if a.s < 64:
        a = tm.sext(a, 64) if signed else tm.zext(a, 64)
        signed = True
    elif signed is False and tm.urange(a)[1] < 1 << 63:
        signed = True
    return tm.app("f.from%s%d" % ("S" if signed else "U", w), (a,), w)


def _int2np(v, w):
    # correctly rounded conversion
    if w == 64:
        return np.float64(v)
    # int -> float32 directly with round-to-nearest-even
    if abs(v) < (1 << 53):
        # double is exact; single rounding
        return np.float32(np.float64(v))
    from fractions import Fraction
    f = np.float32(float(v))
    return f


def to_int(a, signed, w):
    """Go float->int conversion, truncation toward zero; out of range is
    implementation specific, so left to the uninterpreted function"""
    if tm.isc(a):
        x = float(_f(a))
        if x == x and abs(x) < 2 ** 62:
            v = int(x)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            if lo <= v <= hi:
                return bv(v, w)
    return tm.app("f.to%s%d_%d" % ("S" if signed else "U", a.s, w), (a,), w)


def _hook(name):
    def reg(fn):
        tm.app_hooks[name] = fn
        return fn
    return reg


for _w in (32, 64):
    tm.app_hooks["f.add%d" % _w] = lambda a, s: _bin("add", a[0], a[1])
    tm.app_hooks["f.mul%d" % _w] = lambda a, s: _bin("mul", a[0], a[1])
    tm.app_hooks["f.div%d" % _w] = lambda a, s: _bin("div", a[0], a[1])
    tm.app_hooks["f.lt%d" % _w] = lambda a, s: flt(a[0], a[1])
    tm.app_hooks["f.le%d" % _w] = lambda a, s: fle(a[0], a[1])
    tm.app_hooks["f.eq%d" % _w] = lambda a, s: feq(a[0], a[1])
    tm.app_hooks["f.cvt%d" % _w] = lambda a, s: fcvt(a[0], s)
    tm.app_hooks["f.fromS%d" % _w] = lambda a, s: from_int(a[0], True, s)
    tm.app_hooks["f.fromU%d" % _w] = lambda a, s: from_int(a[0], False, s)
    for _iw in (8, 16, 32, 64):
        tm.app_hooks["f.toS%d_%d" % (_w, _iw)] = lambda a, s: to_int(a[0], True, s)
        tm.app_hooks["f.toU%d_%d" % (_w, _iw)] = lambda a, s: to_int(a[0], False, s)
