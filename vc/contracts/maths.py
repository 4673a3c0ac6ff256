from contract import *
import floats as fl
from contracts.util import ext, PM

PN = "P71"


class N(Contract):
    prop = PN


def ceil_div(n, d):
    """n = 0: 0, else floor((n-1)/d) + 1"""
    one = bv(1, n.s)
    return tm.ite(tm.eq(n, bv(0, n.s)), bv(0, n.s), tm.add(tm.udiv(tm.sub(n, one), d), one))


@contract
class CeilDiv(N):
    """ceil(n/d) for d > 0"""
    func = "util.CeilDiv"

    def inputs(self, x):
        return [x.u32("n"), x.u32("d", 1)]

    def spec(self, x, n, d):
        return [ceil_div(n, d)]


def topbit(v, none, off=0):
    """index of the highest set bit of the 64-bit term v, plus off; none for 0"""
    r = bv(none, 64)
    for i in range(64):
        r = tm.ite(tm.eq(tm.extract(i, i, v), bv(1, 1)), bv(i + off, 64), r)
    return r


def log1p(v):
    """smallest k with v+1 <= 2^k (the number of bits of v)"""
    return abbrev("bitlen", lambda t: topbit(t, 0, 1), v)


def floor1p(v):
    """largest k with 2^k <= v+1"""
    def fact(f, v):
        # below 2^64-1: 2^f <= v+1 < 2^(f+1), and v has its highest bit at f or f-1
        u = tm.add(v, bv(1, 64))
        five = bv(5, 64)
        small = tm.ult(tm.lshr(v, tm.sub(f, five)), bv(64, 64))
        return tm.or_([tm.eq(u, bv(0, 64)), tm.and_([
            tm.ult(f, bv(64, 64)), tm.eq(tm.lshr(u, f), bv(1, 64)),
            tm.ite(tm.ult(f, five), tm.ult(v, bv(31, 64)), small)])])
    return abbrev("floorlog1p", lambda t: topbit(tm.add(t, bv(1, 64)), 64), v, fact=fact)


def ceil2(v):
    """smallest k with v <= 2^k"""
    return log1p(tm.sub(v, bv(1, 64)))


def mk1(fn, w, signed, f, lo=None):
    class L(N):
        func = "util." + fn

        def inputs(self, x):
            return [x.int("x", w, lo, None, signed)]

        def spec(self, x, v):
            return [f(ext(v, signed))]
    contract(L)


mk1("CeilLog1pUint64", 64, False, log1p)
mk1("FloorLog1pUint64", 64, False, floor1p)
for w, s, n in ((32, True, "int32"), (64, True, "int64"), (32, False, "uint32")):
    mk1("CeilLog1p[%s]" % n, w, s, log1p, 0 if s else None)
    mk1("CeilLog2[%s]" % n, w, s, ceil2, 1)
mk1("FloorLog1p[int64]", 64, True, floor1p, 0)


def mm(nm, op):
    def f(t):
        signed = t == "int32"

        class M(N):
            func = "util.%s[%s]" % (nm, t)
            opts = {"closed": True}

            def inputs(self, x):
                n = x.i64("n", 0, 3, sample=(0, 3))
                self.nn = n
                return [x.slice("a", t, n)]
            split = {"n": [0, 1, 2, 3]}

            def spec(self, x, a):
                n = x.E.vlen(a)
                if not tm.isc(n):
                    raise Unsupported("needs a fixed number of arguments")
                r = x.sref(a, t)
                z = bv(0, 32)
                for i in range(n.p):
                    v = r.val(i)
                    if t == "float32":
                        better = fl.flt(z, v) if nm == "Max" else fl.flt(v, z)
                        raise Unsupported("float")
                    z = v if i == 0 else op(z, v, signed)
                return [z]
        M.__name__ = nm + t
        contract(M)
    return f


def smax(a, b, s):
    return tm.ite(tm.slt(a, b) if s else tm.ult(a, b), b, a)


def smin(a, b, s):
    return tm.ite(tm.slt(b, a) if s else tm.ult(b, a), b, a)


for t in ("int32", "uint32"):
    for nm, op in (("Max", smax), ("Min", smin)):
        mm(nm, op)(t)


def lo_hi(a, b, lt):
    c = lt(a, b)
    return tm.ite(c, a, b), tm.ite(c, b, a)


def clamp3(v, a, b):
    lo, hi = lo_hi(a, b, tm.slt)
    return tm.ite(tm.slt(v, lo), lo, tm.ite(tm.slt(hi, v), hi, v))


def clamp4(v, a, b, c):
    lo, hi = lo_hi(a, b, tm.slt)
    lo = tm.ite(tm.slt(c, lo), c, lo)
    hi = tm.ite(tm.slt(hi, c), c, hi)
    return tm.ite(tm.slt(v, lo), lo, tm.ite(tm.slt(hi, v), hi, v))


def absv(a):
    return tm.ite(tm.slt(a, bv(0, 32)), tm.sub(bv(0, 32), a), a)


@contract
class Clamp3(N):
    """v limited to the interval spanned by a and b"""
    func = "util.Clamp3"

    def inputs(self, x):
        return [x.i32("v"), x.i32("a"), x.i32("b")]

    def spec(self, x, v, a, b):
        return [clamp3(v, a, b)]


@contract
class Clamp(N):
    """v limited to the interval spanned by a, b and c"""
    func = "util.Clamp"

    def inputs(self, x):
        return [x.i32("v"), x.i32("a"), x.i32("b"), x.i32("c")]

    def spec(self, x, v, a, b, c):
        return [clamp4(v, a, b, c)]


@contract
class Clamp3F(N):
    func = "util.Clamp3Float32"

    def inputs(self, x):
        return [x.f32("v"), x.f32("a"), x.f32("b")]

    def spec(self, x, v, a, b):
        c = fl.flt(a, b)
        lo, hi = tm.ite(c, a, b), tm.ite(c, b, a)
        return [tm.ite(fl.flt(v, lo), lo, tm.ite(fl.flt(hi, v), hi, v))]


@contract
class Abs(N):
    func = "util.Abs[int32]"

    def inputs(self, x):
        return [x.i32("a")]

    def spec(self, x, a):
        return [absv(a)]


for n, w in (("int", 64), ("uint64", 64)):
    def ite(n=n, w=w):
        class IfThenElse(N):
            func = "util.IfThenElse[%s]" % n

            def inputs(self, x):
                return [x.bool("c"), x.int("a", w), x.int("b", w)]

            def spec(self, x, c, a, b):
                return [tm.ite(c, a, b)]
        contract(IfThenElse)
    ite()


@contract
class NewPoint(N):
    func = "util.NewPoint"

    def inputs(self, x):
        return [x.i32("y"), x.i32("x")]

    def spec(self, x, yy, xx):
        return [x.new("util.Point", X=xx, Y=yy)]


@contract
class LowerCorner(N):
    func = "(util.Rectangle).ComputeLowerCorner"

    def inputs(self, x):
        return [x.any("r", "util.Rectangle")]

    def spec(self, x, r):
        o, s = r.f[0], r.f[1]
        return [x.mk("util.Point", X=tm.add(o.f[0], s.f[0]), Y=tm.add(o.f[1], s.f[1]))]
