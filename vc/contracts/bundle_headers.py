"""Image header bundles."""
from contract import *
from contracts.util import ext

P = "P03"


def bit_depth_vals(x, r, when=TRUE):
    fl = tm.and_(when, r.bool(when))
    nf = tm.and_(when, tm.not_(fl))
    bits_i = r.u32(8, 0, 10, 0, 12, 0, 1, 6, nf)
    bits_f = r.u32(32, 0, 16, 0, 24, 0, 1, 6, fl)
    exp = tm.trunc(tm.add(bv(1, 64), r.u(4, fl)), 32)
    return [fl, tm.ite(fl, bits_f, bits_i), tm.ite(fl, exp, bv(0, 32))]


def bd_struct(x, v):
    return x.mk("bundle.BitDepthHeader", UsesFloatSamples=v[0], BitsPerSample=v[1], ExpBits=v[2])


def bd_default():
    return [FALSE, bv(8, 32), bv(0, 32)]


@contract
class BitDepth(Contract):
    prop = P
    func = "bundle.NewBitDepthHeaderWithReader"

    def inputs(self, x):
        return [x.reader()]

    def spec(self, x, r):
        return [x.alloc(bd_struct(x, x.rd(r).named("bitdepth", bit_depth_vals)))]


@contract
class BitDepthDefault(Contract):
    prop = P
    func = "bundle.NewBitDepthHeader"

    def inputs(self, x):
        return []

    def spec(self, x):
        return [x.alloc(bd_struct(x, bd_default()))]


def ratio_width(r, h):
    h64 = tm.zext(h, 64)
    out = bv(0, 32)
    for k, (a, b) in {2: (6, 5), 3: (4, 3), 4: (3, 2), 5: (16, 9), 6: (5, 4)}.items():
        out = tm.ite(tm.eq(r, bv(k, 32)), tm.trunc(tm.udiv(tm.mul(h64, bv(a, 64)), bv(b, 64)), 32), out)
    out = tm.ite(tm.eq(r, bv(1, 32)), h, out)
    return tm.ite(tm.eq(r, bv(7, 32)), tm.add(h, h), out)


@contract
class RatioWidth(Contract):
    prop = P
    func = "bundle.getWidthFromRatio"

    def inputs(self, x):
        return [x.u32("ratio", sample=(0, 9)), x.u32("height")]

    def spec(self, x, r, h):
        x.fail(tm.or_(tm.eq(r, bv(0, 32)), tm.ugt(r, bv(7, 32))))
        return [ratio_width(r, h)]


def size_vals(x, r, when, level):
    """level: 32-bit term"""
    d8 = tm.and_(when, r.bool(when))
    nd = tm.and_(when, tm.not_(d8))

    def dim(when):
        a, b = tm.and_(d8, when), tm.and_(nd, when)
        s = tm.shl(tm.add(bv(1, 32), tm.trunc(r.u(5, a), 32)), bv(3, 32))
        return tm.ite(a, s, r.u32(1, 9, 1, 13, 1, 18, 1, 30, b))
    h = dim(when)
    ratio = tm.trunc(r.u(3, when), 32)
    exp = tm.and_(when, tm.eq(ratio, bv(0, 32)))
    ew = dim(exp)
    w = tm.ite(exp, ew, ratio_width(ratio, h))
    l5 = tm.sle(level, bv(5, 32))
    md = tm.ite(l5, bv(1 << 18, 32), bv(1 << 28, 32))
    mt = tm.ite(l5, bv(1 << 30, 64), bv(1 << 40, 64))
    x.fail(tm.or_(tm.ugt(w, md), tm.ugt(h, md), tm.ugt(tm.mul(tm.zext(w, 64), tm.zext(h, 64)), mt)), when)
    return [w, h]


def size_header(x, r, level, when=TRUE):
    return r.named("size", size_vals, when, (level,))


def preview_vals(x, r, when):
    d8 = tm.and_(when, r.bool(when))
    nd = tm.and_(when, tm.not_(d8))

    def dim(when):
        a, b = tm.and_(d8, when), tm.and_(nd, when)
        s = tm.shl(r.u32(16, 0, 32, 0, 1, 5, 33, 9, a), bv(3, 32))
        return tm.ite(a, s, r.u32(1, 6, 65, 8, 321, 10, 1345, 12, b))
    h = dim(when)
    ratio = tm.trunc(r.u(3, when), 32)
    exp = tm.and_(when, tm.eq(ratio, bv(0, 32)))
    ew = dim(exp)
    w = tm.ite(exp, ew, ratio_width(ratio, h))
    x.fail(tm.or_(tm.ugt(w, bv(4096, 32)), tm.ugt(h, bv(4096, 32))), when)
    return [w, h]


def dimension(x, v):
    return x.mk("util.Dimension", Width=v[0], Height=v[1])


@contract
class SizeHeader(Contract):
    prop = P
    func = "bundle.readSizeHeader"

    def inputs(self, x):
        return [x.reader(), x.i32("level", sample=(4, 11))]

    def spec(self, x, r, level):
        return [dimension(x, size_header(x, x.rd(r), level))]


@contract
class PreviewHeader(Contract):
    prop = P
    func = "bundle.readPreviewHeader"

    def inputs(self, x):
        return [x.reader()]

    def spec(self, x, r):
        return [x.alloc(dimension(x, x.rd(r).named("preview", preview_vals)))]


ALPHA, DEPTH, SPOT, SELECTION, BLACK, CFA, THERMAL = range(7)


def eci_head(x, r, when):
    dflt = tm.and_(when, r.bool(when))
    own = tm.and_(when, tm.not_(dflt))
    ty = r.enum(own)
    x.fail(tm.not_(tm.or_(tm.ule(ty, bv(6, 32)), tm.eq(ty, bv(15, 32)), tm.eq(ty, bv(16, 32)))), own)
    bd = r.named("bitdepth", bit_depth_vals, own)
    sh = r.u32(0, 0, 3, 0, 4, 0, 1, 3, own)
    nl = r.u32(0, 0, 0, 4, 16, 5, 48, 10, own)
    dd = bd_default()
    return [ty, tm.ite(own, bd[0], dd[0]), tm.ite(own, bd[1], dd[1]), tm.ite(own, bd[2], dd[2]), sh, nl, own]


def eci_tail(x, r, when, ty, own):
    al = tm.and_(own, r.bool(tm.and_(when, own, tm.eq(ty, bv(ALPHA, 32)))))
    al = tm.and_(al, tm.eq(ty, bv(ALPHA, 32)))
    sp = tm.and_(when, tm.eq(ty, bv(SPOT, 32)))
    col = [r.f16(sp) for _ in range(4)]
    ca = tm.and_(when, tm.eq(ty, bv(CFA, 32)))
    cfa = tm.ite(ca, r.u32(1, 0, 0, 2, 3, 4, 19, 8, ca), bv(1, 32))
    return [al] + col + [cfa]


def eci(x, r):
    """ExtraChannelInfo struct value"""
    ty, b0, b1, b2, sh, nl, own = r.named("eci.head", eci_head)
    base = r.pos
    n = tm.zext(nl, 64)
    end = tm.add(base, tm.shl(n, bv(3, 64)))
    x.fail(tm.ugt(end, r.src.len))
    r.pos = end
    src = r.src
    if tm.isc(n):
        name = StrV("".join(chr(src.window(tm.add(base, bv(8 * i, 64))).p & 255) for i in range(n.p))) if x.err is not TRUE else StrV("")
    else:
        name = StrV(None, n, FBase(1, lambda i: tm.trunc(src.window(tm.add(base, tm.shl(i, bv(3, 64)))), 8), "name"))
    al, c0, c1, c2, c3, cfa = r.named("eci.tail", eci_tail, TRUE, (ty, own))
    return x.mk("bundle.ExtraChannelInfo", EcType=ty, BitDepth=bd_struct(x, (b0, b1, b2)), DimShift=sh, Name=name,
                AlphaAssociated=al, Red=c0, Green=c1, Blue=c2, Solidity=c3, CfaIndex=cfa)


@contract
class ECI(Contract):
    prop = P
    func = "bundle.NewExtraChannelInfoWithReader"
    opts = {"closed": True}
    samples = 800

    def inputs(self, x):
        return [x.reader()]

    def spec(self, x, r):
        return [x.alloc(eci(x, x.rd(r)))]


def up_index(l, ky, kx, iy, ix):
    k = 2 << l
    j = iy + 5 * ky if ky < k // 2 else 4 - iy + 5 * (k - 1 - ky)
    i = ix + 5 * kx if kx < k // 2 else 4 - ix + 5 * (k - 1 - kx)
    y, xx = min(i, j), max(i, j)
    return 5 * k * y // 2 - y * (y - 1) // 2 + xx - y


@contract
class ICCContext(Contract):
    prop = P
    func = "bundle.GetICCContext"

    def inputs(self, x):
        n = x.i64("len", 0, 1 << 30, sample=(0, 400))
        i = x.i64("index", 0, 1 << 30, sample=(0, 400))
        x.require(tm.ult(i, n))
        return [x.slice("buf", "uint8", n), i]

    def spec(self, x, buf, i):
        deep = tm.ugt(i, bv(128, 64))
        b = x.sref(buf, "uint8")
        if deep is FALSE:
            return [bv(0, 64)]
        b1, b2 = [tm.zext(b[tm.sub(i, bv(d, 64))], 64) for d in (1, 2)]

        def rng(v, lo, hi):
            return tm.and_(tm.ule(bv(lo, 64), v), tm.ule(v, bv(hi, 64)))

        def cls(v, tail):
            p = tail
            p = tm.ite(tm.or_(rng(v, 0x30, 0x39), tm.eq(v, bv(0x2e, 64)), tm.eq(v, bv(0x2c, 64))), bv(1, 64), p)
            return tm.ite(tm.or_(rng(v, 0x61, 0x7a), rng(v, 0x41, 0x5a)), bv(0, 64), p)
        t1 = tm.ite(rng(b1, 0, 1), tm.add(b1, bv(2, 64)),
                    tm.ite(rng(b1, 2, 15), bv(4, 64), tm.ite(rng(b1, 241, 254), bv(5, 64),
                           tm.ite(tm.eq(b1, bv(255, 64)), bv(6, 64), bv(7, 64)))))
        t2 = tm.ite(rng(b2, 0, 15), bv(2, 64), tm.ite(rng(b2, 241, 255), bv(3, 64), bv(4, 64)))
        p = tm.add(bv(1, 64), cls(b1, t1), tm.shl(cls(b2, t2), bv(3, 64)))
        return [tm.ite(deep, p, bv(0, 64))]


def extensions(x, r, when=TRUE):
    """64-bit set of extensions, their lengths in bits, then the payloads (zero padded to bytes)"""
    if r.src.bits is None:
        # callers only pass the bundle on: an uninterpreted function of the position
        key, pay = None, []
        src, pos = r.src.name, r.at(when)
        x.fail(tm.app("ext.bad." + src, (pos,), 0), when)
        for i in range(64):
            n = tm.app("ext.len." + src, (pos, bv(i, 64)), 64)
            tm.set_app_range("ext.len." + src, 0, 1 << 29)
            n = tm.ite(when, n, bv(0, 64))
            pay.append(x.slice("payload", "uint8", n, fn=lambda j, i=i: tm.app("ext.byte." + src, (pos, bv(i, 64), j), 8)))
        r.pos = tm.ite(when, tm.app("ext.end." + src, (pos,), 64), r.pos)
        tm.set_app_range("ext.end." + src, 0, MAXLEN)
        key = tm.ite(when, tm.app("ext.key." + src, (pos,), 64), bv(0, 64))
        return x.new("bundle.Extensions", ExtensionsKey=key, Payloads=ArrV(pay))
    key = r.u64(when)
    lens = []
    for i in range(64):
        on = tm.and_(when, tm.eq(tm.extract(i, i, key), bv(1, 1)))
        n = r.u64(on)
        x.fail(tm.ugt(n, bv(0xffffffff, 64)), on)
        lens.append(tm.ite(on, n, bv(0, 64)).p)
        if x.err is TRUE:
            break
    pay = []
    for n in lens:
        if x.err is TRUE:
            break
        b = []
        while n > 0 and x.err is not TRUE:
            b.append(tm.trunc(r.u(min(n, 8)), 8))
            n -= 8
        pay.append(x.list(b) if b else NILSLICE)
    return x.new("bundle.Extensions", ExtensionsKey=key, Payloads=ArrV(pay + [NILSLICE] * (64 - len(pay))))


@contract
class Extensions(Contract):
    prop = P
    func = "bundle.NewExtensionsWithReader"
    sampled = True
    bounded = "600 sampled bit streams of up to 100 bytes"
    samples = 600

    def inputs(self, x):
        return [x.reader()]

    def spec(self, x, r):
        return [extensions(x, x.rd(r))]


@contract
class ExtensionsDefault(Contract):
    prop = P
    func = "bundle.NewExtensions"

    def inputs(self, x):
        return []

    def spec(self, x):
        return [x.new("bundle.Extensions")]
