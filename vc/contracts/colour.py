from contract import *
import floats as fl
from contracts.util import ext

PC = "P04"


def case(k, table, default):
    """value of table (int -> float constant or term) selected by k"""
    r = default
    for v, t in table.items():
        r = tm.ite(tm.eq(k, bv(v, k.s)), t if isinstance(t, tm.T) else fl.fconst(t), r)
    return r


def unpack(u):
    """zig-zag decoding of a 32-bit value"""
    h = tm.lshr(u, bv(1, 32))
    return tm.ite(tm.eq(tm.trunc(u, 1), bv(0, 1)), h, tm.sub(bv(-1, 32), h))


def custom_xy(x, r, when=TRUE):
    """two zig-zag coded values in units of 1e-6"""
    out = []
    for _ in range(2):
        u = r.u32(0, 19, 524288, 19, 1048576, 20, 2097152, 21, when)
        out.append(fl.fmul(fl.from_int(unpack(u), True, 32), fl.fconst(1e-6)))
    return out


def ciexy(x, X, Y):
    return x.new("colour.CIEXY", X=X, Y=Y)


@contract
class ReadCustom(Contract):
    prop = PC
    func = "(*colour.CustomXY).readCustom"

    def inputs(self, x):
        return [x.new("colour.CustomXY"), x.reader()]

    def spec(self, x, c, r):
        return [ciexy(x, *custom_xy(x, x.rd(r)))]


@contract
class CustomXYc(Contract):
    prop = PC
    func = "colour.NewCustomXY"

    def inputs(self, x):
        return [x.reader()]

    def spec(self, x, r):
        X, Y = custom_xy(x, x.rd(r))
        return [x.new("colour.CustomXY", CIEXY=x.mk("colour.CIEXY", X=X, Y=Y))]


def tone_mapping(x, r, when=TRUE):
    dflt = r.bool(when)
    w = tm.and_(when, tm.not_(dflt))
    zero = fl.fconst(0)
    it = r.f16(w)
    x.fail(fl.fle(it, zero), w)
    mn = r.f16(w)
    x.fail(fl.flt(mn, zero), w)
    x.fail(fl.flt(it, mn), w)
    rel = tm.and_(w, r.bool(w))
    lb = r.f16(w)
    x.fail(fl.flt(lb, zero), w)
    x.fail(fl.flt(fl.fconst(1.0), lb), tm.and_(w, rel))
    it = tm.ite(w, it, fl.fconst(255.0))
    return x.new("colour.ToneMapping", IntensityTarget=it, MinNits=mn, LinearBelow=lb, RelativeToMaxDisplay=rel)


def tone_default(x):
    return x.new("colour.ToneMapping", IntensityTarget=fl.fconst(255.0))


@contract
class ToneDefault(Contract):
    prop = PC
    func = "colour.NewToneMapping"

    def inputs(self, x):
        return []

    def spec(self, x):
        return [tone_default(x)]


@contract
class ToneMapping(Contract):
    prop = PC
    func = "colour.NewToneMappingWithReader"

    def inputs(self, x):
        return [x.reader()]

    def spec(self, x, r):
        return [tone_mapping(x, x.rd(r))]


WPX = {1: 0.3127, 10: 1.0 / 3.0, 11: 0.314}
WPY = {1: 0.3290, 10: 1.0 / 3.0, 11: 0.351}
PRI = {1: ((0.639998686, 0.330010138), (0.300003784, 0.600003357), (0.150002046, 0.059997204)),
       9: ((0.708, 0.292), (0.170, 0.797), (0.131, 0.046)),
       11: ((0.680, 0.320), (0.265, 0.690), (0.150, 0.060))}


def prims(x, k, custom=None):
    """primaries of enumeration value k"""
    ps = []
    for i in range(3):
        xy = []
        for j in range(2):
            d = custom[i][j] if custom else bv(0, 32)
            xy.append(case(k, {n: v[i][j] for n, v in PRI.items()}, d))
        ps.append(ciexy(x, *xy))
    return x.new("colour.CIEPrimaries", Red=ps[0], Green=ps[1], Blue=ps[2])


def isin(k, vals):
    return tm.or_([tm.eq(k, bv(v, k.s)) for v in vals])


def white(x, k):
    return ciexy(x, case(k, WPX, bv(0, 32)), case(k, WPY, bv(0, 32)))


def enc_default(x):
    return x.new("colour.ColourEncodingBundle", WhitePoint=bv(1, 32), White=white(x, bv(1, 32)), Primaries=bv(1, 32),
                 Prim=prims(x, bv(1, 32)), Tf=bv((1 << 24) + 13, 32), RenderingIntent=bv(1, 32))


def colour_encoding(x, r, when=TRUE):
    dflt = r.bool(when)
    w = tm.and_(when, tm.not_(dflt))
    icc = tm.and_(w, r.bool(w))
    ce = r.enum(w)
    x.fail(tm.ugt(ce, bv(3, 32)), w)
    xyb, gray = tm.eq(ce, bv(2, 32)), tm.eq(ce, bv(1, 32))
    own = tm.and_(w, tm.not_(icc))
    w1 = tm.and_(own, tm.not_(xyb))
    wp = tm.ite(w1, r.enum(w1), bv(1, 32))
    x.fail(tm.not_(isin(wp, (1, 2, 10, 11))), when)
    wc = tm.and_(w1, tm.eq(wp, bv(2, 32)))
    X, Y = custom_xy(x, r, wc)
    wh = ciexy(x, tm.ite(wc, X, case(wp, WPX, bv(0, 32))), tm.ite(wc, Y, case(wp, WPY, bv(0, 32))))
    w2 = tm.and_(w1, tm.not_(gray))
    pr = tm.ite(w2, r.enum(w2), bv(1, 32))
    x.fail(tm.not_(isin(pr, (1, 2, 9, 11))), when)
    pc = tm.and_(w2, tm.eq(pr, bv(2, 32)))
    cu = [custom_xy(x, r, pc) for _ in range(3)]
    pm = prims(x, pr, cu)
    gamma = tm.and_(own, r.bool(own))
    g = tm.trunc(r.u(24, gamma), 32)
    w3 = tm.and_(own, tm.not_(gamma))
    e = r.enum(w3)
    x.fail(tm.ugt(g, bv(10000000, 32)), gamma)
    x.fail(tm.not_(isin(e, (1, 2, 8, 13, 16, 17, 18))), w3)
    tf = tm.ite(gamma, g, tm.ite(w3, tm.add(e, bv(1 << 24, 32)), bv((1 << 24) + 13, 32)))
    ri = r.enum(own)
    x.fail(tm.ugt(ri, bv(3, 32)), own)
    return x.new("colour.ColourEncodingBundle", UseIccProfile=icc, ColourEncoding=ce, WhitePoint=wp, White=wh, Primaries=pr,
                 Prim=pm, Tf=tf, RenderingIntent=tm.ite(own, ri, bv(1, 32)))


@contract
class EncDefault(Contract):
    prop = PC
    func = "colour.NewColourEncodingBundle"

    def inputs(self, x):
        return []

    def spec(self, x):
        return [enc_default(x)]


@contract
class Enc(Contract):
    prop = PC
    func = "colour.NewColourEncodingBundleWithReader"
    samples = 600

    def inputs(self, x):
        return [x.reader()]

    def spec(self, x, r):
        return [colour_encoding(x, x.rd(r))]


MATRIX = [[11.031566901960783, -9.866943921568629, -0.16462299647058826],
          [-3.254147380392157, 4.418770392156863, -0.16462299647058826],
          [-3.6588512862745097, 2.7129230470588235, 1.9459282392156863]]
BIAS = -0.0037930732552754493
QBIAS = [1.0 - 0.05465007330715401, 1.0 - 0.07005449891748593, 1.0 - 0.049935103337343655]


def signed_pow(b, e):
    neg = fl.flt(b, fl.fconst(0))

    def pw(v):
        return fl.fcvt(powf(fl.fcvt(v, 64), fl.fcvt(e, 64)), 32)
    return tm.ite(neg, fl.fneg(pw(fl.fneg(b))), pw(b))


def powf(a, b):
    if tm.isc(a) and tm.isc(b):
        import math
        try:
            return fl.fconst(math.pow(fl._f(a), fl._f(b)), 64)
        except (ValueError, OverflowError, ZeroDivisionError):
            pass
    return tm.app("f.math.Pow", (a, b), 64)


@contract
class SignedPow(Contract):
    prop = PC
    func = "util.SignedPow"
    no_replay = True

    def inputs(self, x):
        return [x.f32("base"), x.f32("exponent")]

    def spec(self, x, b, e):
        return [signed_pow(b, e)]


def opsin(x, m, ob, qb, qn):
    third = fl.fconst(1.0 / 3.0)
    cb = [signed_pow(b, third) for b in ob]
    return x.new("colour.OpsinInverseMatrix", Matrix=x.list([x.list(r) for r in m]), OpsinBias=x.list(ob), QuantBias=x.list(qb),
                 CbrtOpsinBias=x.list(cb), QuantBiasNumerator=qn,
                 Primaries=x.E.load(x.s, prims(x, bv(1, 32))), WhitePoint=x.mk("colour.CIEXY", X=fl.fconst(0.3127), Y=fl.fconst(0.3290)))


def opsin_default(x):
    return opsin(x, [[fl.fconst(v) for v in r] for r in MATRIX], [fl.fconst(BIAS)] * 3, [fl.fconst(v) for v in QBIAS], fl.fconst(0.145))


def opsin_read(x, r, when=TRUE):
    d = tm.or_(r.bool(when), tm.not_(when))
    w = tm.not_(d)

    def rd(dv):
        return tm.ite(w, r.f16(w), fl.fconst(dv))
    m = [[rd(v) for v in row] for row in MATRIX]
    ob = [rd(BIAS) for _ in range(3)]
    qb = [rd(v) for v in QBIAS]
    return opsin(x, m, ob, qb, rd(0.145))


@contract
class OpsinDefault(Contract):
    prop = PC
    func = "colour.NewOpsinInverseMatrix"

    def inputs(self, x):
        return []

    def spec(self, x):
        return [opsin_default(x)]


@contract
class OpsinRead(Contract):
    prop = PC
    func = "colour.NewOpsinInverseMatrixWithReader"

    def inputs(self, x):
        return [x.reader()]

    def spec(self, x, r):
        return [opsin_read(x, x.rd(r))]
