from contract import *
import floats as fl
from contracts.util import ext
from contracts.maths import clamp3, clamp4, absv
from contracts.image import matval

PP = "P12"
PW = "P13"
DIM = 1 << 24
Z32 = bv(0, 32)
c32 = lambda v: bv(v, 32)


def chan(x, nm="mc", h=None, w=None, hs=None, vs=None, buf=None, wp=False, dims=(0, 4), decoded=None):
    """modular channel with a Height x Width sample buffer"""
    if h is None:
        h = x.u32(nm + ".h", 1, DIM, sample=dims)
        w = x.u32(nm + ".w", 1, DIM, sample=dims)
    H, W = tm.zext(h, 64), tm.zext(w, 64)
    d = dict(hshift=x.i32(nm + ".hs", -4, 31) if hs is None else hs, vshift=x.i32(nm + ".vs", -4, 31) if vs is None else vs,
             origin=x.any(nm + ".origin", "util.Point"), forceWP=x.bool(nm + ".fwp"), size=x.mk("util.Dimension", Width=w, Height=h),
             buffer=x.matrix(nm + ".buf", "int32", H, W) if buf is None else buf, decoded=x.bool(nm + ".dec") if decoded is None else decoded)
    if wp:
        pl = []
        for e in range(5):
            pl.append(x.matrix("%s.err%d" % (nm, e), "int32", H, W, wp[e] if isinstance(wp, list) else None))
        d["err"] = x.list(pl)
        d["pred"] = x.matrix(nm + ".pred", "int32", H, W)
        d["subpred"] = x.slice(nm + ".subpred", "int32", 4)
        d["weight"] = x.slice(nm + ".weight", "int32", 4)
    return x.new("frame.ModularChannel", **d)


def coords(x, h=DIM, w=DIM, smp=(0, 4)):
    return x.i32("y", 0, DIM - 1, sample=smp), x.i32("x", 0, DIM - 1, sample=smp)


def inside(x, mc, yy, xx):
    r = x.ref(mc, "frame.ModularChannel")
    return [("coordinates inside the channel", tm.and_(tm.sle(Z32, yy), tm.sle(Z32, xx), tm.ult(yy, r.size.Height), tm.ult(xx, r.size.Width)))]


class Nb:
    """neighbours of (y, x) as the format defines them; missing ones are substituted"""

    def __init__(self, x, mc, yy, xx):
        r = x.ref(mc, "frame.ModularChannel")
        self.x, self.W = x, r.size.Width
        self.buf = matval(x, r._raws("buffer"), "int32")
        self.yy, self.xx = yy, xx

    def at(self, dy, dx, cond):
        if cond is FALSE:
            return Z32
        y, x = tm.add(self.yy, c32(dy)), tm.add(self.xx, c32(dx))
        if self.x.mode == "conc" and cond is not TRUE:
            return Z32
        return self.buf(tm.sext(y, 64), tm.sext(x, 64))

    def pick(self, alts, default):
        """first alternative whose condition holds"""
        r = default
        for c, dy, dx in reversed(alts):
            r = tm.ite(c, self.at(dy, dx, c), r)
        return r

    @property
    def L(self):
        return tm.slt(Z32, self.xx)

    @property
    def T(self):
        return tm.slt(Z32, self.yy)

    def west(self):
        return self.pick([(self.L, 0, -1), (self.T, -1, 0)], Z32)

    def north(self):
        return self.pick([(self.T, -1, 0), (self.L, 0, -1)], Z32)

    def northwest(self):
        return self.pick([(tm.and_(self.L, self.T), -1, -1), (self.L, 0, -1), (self.T, -1, 0)], Z32)

    def right(self, n):
        return tm.and_(self.T, tm.slt(tm.add(self.xx, c32(n)), self.W))

    def northeast(self):
        return self.pick([(self.right(1), -1, 1)], self.north())

    def northnorth(self):
        return self.pick([(tm.slt(c32(1), self.yy), -2, 0)], self.north())

    def northeasteast(self):
        return self.pick([(self.right(2), -1, 2)], self.northeast())

    def westwest(self):
        return self.pick([(tm.slt(c32(1), self.xx), 0, -2)], self.west())


for go, meth in (("west", "west"), ("north", "north"), ("northWest", "northwest"), ("northEast", "northeast"),
                 ("northNorth", "northnorth"), ("northEastEast", "northeasteast"), ("westWest", "westwest")):
    def neighbour(go=go, meth=meth):
        class Neighbour(Contract):
            prop = PP
            func = "(*frame.ModularChannel)." + go

            def inputs(self, x):
                mc = chan(x, dims=(1, 5))
                yy, xx = coords(x)
                return [mc, xx, yy]

            def pre(self, x, mc, xx, yy):
                return inside(x, mc, yy, xx)

            def spec(self, x, mc, xx, yy):
                return [getattr(Nb(x, mc, yy, xx), meth)()]
        contract(Neighbour)
    neighbour()


def sdiv2(v):
    """/2 rounding toward zero"""
    return tm.sdiv(v, c32(2))


def predict(x, mc, yy, xx, k):
    """-> (value, illegal)"""
    n = Nb(x, mc, yy, xx)
    W, N, NW, NE, NN, NEE, WW = n.west(), n.north(), n.northwest(), n.northeast(), n.northnorth(), n.northeasteast(), n.westwest()
    add, sub = tm.add, tm.sub
    grad = add(W, sub(N, NW))
    r = x.ref(mc, "frame.ModularChannel")
    wpv = r._raws("pred")
    if isinstance(wpv, SliceV) and wpv.obj is not None:
        wp = tm.ashr(add(matval(x, wpv, "int32")(tm.sext(yy, 64), tm.sext(xx, 64)), c32(3)), c32(3))
    else:
        wp = Z32

    def m(a, t):
        return tm.mul(c32(a), t)
    s13 = sub(m(6, N), m(2, NN))
    for t in (m(7, W), WW, NEE, m(3, NE), c32(8)):
        s13 = add(s13, t)
    table = [Z32, W, N, sdiv2(add(W, N)),
             tm.ite(tm.slt(absv(sub(N, NW)), absv(sub(W, NW))), W, N),
             clamp3(grad, N, W), wp, NE, NW, WW, sdiv2(add(W, NW)), sdiv2(add(N, NW)), sdiv2(add(N, NE)), tm.sdiv(s13, c32(16))]
    v = Z32
    for i in reversed(range(14)):
        v = tm.ite(tm.eq(k, c32(i)), table[i], v)
    return v, tm.not_(tm.ult(k, c32(14)))


@contract
class Prediction(Contract):
    prop = PP
    func = "(*frame.ModularChannel).prediction"

    def inputs(self, x):
        mc = chan(x, dims=(1, 5), wp=True)
        yy, xx = coords(x)
        return [mc, yy, xx, x.i32("k", sample=(-1, 15))]

    def pre(self, x, mc, yy, xx, k):
        return inside(x, mc, yy, xx)

    def spec(self, x, mc, yy, xx, k):
        v, bad = predict(x, mc, yy, xx, k)
        x.fail(bad)
        return [v]


# ------------------------------------------------------------------ weighted (self-correcting) predictor
def floorlog(v):
    """floor(log2(v+1)), 64-bit"""
    import contracts.maths as ma
    return ma.floor1p(v)


def err_at(x, mc, yy, xx):
    r = x.ref(mc, "frame.ModularChannel")
    W = r.size.Width
    pl = r.err
    planes = [matval(x, pl.val(e), "int32") for e in range(5)]
    L, T = tm.slt(Z32, xx), tm.slt(Z32, yy)

    def at(e, dy, dx, cond):
        if cond is FALSE or x.mode == "conc" and cond is not TRUE:
            return Z32
        return planes[e](tm.sext(tm.add(yy, c32(dy)), 64), tm.sext(tm.add(xx, c32(dx)), 64))

    def g(e, dy, dx, cond, other=Z32):
        return tm.ite(cond, at(e, dy, dx, cond), other)
    N = lambda e: g(e, -1, 0, T)
    return dict(N=N, W=lambda e: g(e, 0, -1, L), WW=lambda e: g(e, 0, -2, tm.slt(c32(1), xx)),
                NW=lambda e: g(e, -1, -1, tm.and_(L, T), N(e)),
                NE=lambda e: g(e, -1, 1, tm.and_(T, tm.slt(tm.add(xx, c32(1)), W)), N(e)))


def bounded28(x, nm):
    tid = x.tid("int32")
    return lambda y, xx: tm.zext(tm.trunc(x.any(nm, tid, None, (y, xx)), 28), 32)


for nm, key in (("errorNorth", "N"), ("errorWest", "W"), ("errorWestWest", "WW"), ("errorNorthWest", "NW"), ("errorNorthEast", "NE")):
    def errc(nm=nm, key=key):
        class Err(Contract):
            prop = PW
            func = "(*frame.ModularChannel)." + nm
            split = {"e": [0, 1, 2, 3, 4]}

            def inputs(self, x):
                mc = chan(x, dims=(1, 5), wp=True)
                yy, xx = coords(x)
                return [mc, xx, yy, x.i32("e", 0, 4)]

            def pre(self, x, mc, xx, yy, e):
                return inside(x, mc, yy, xx)

            def spec(self, x, mc, xx, yy, e):
                return [err_at(x, mc, yy, xx)[key](e.p)]
        contract(Err)
    errc()


def wp_params(x):
    d = {}
    for n in ("param1", "param2"):
        d[n] = x.i64("wp." + n, 0, 31)
    for n in "abcde":
        d["param3" + n] = x.i32("wp.param3" + n, 0, 31)
    return x.new("frame.WPParams", weight=ArrV([x.i64("wp.w%d" % i, 0, 15) for i in range(4)]), **d)


def recip(x, i):
    """floor(2^24 / (i+1)) for i < 64"""
    o = x.E.new_obj(x.s, ArrV([bv((1 << 24) // (k + 1), 64) for k in range(64)]), "recip")
    return x.E.elem(x.s, SliceV(o, (), Z64, bv(64, 64), bv(64, 64)), i)


def wp_predict(x, mc, wp, xx, yy):
    """-> (prediction << 3, sub-predictions, weights, maximum error)"""
    add, sub, mul, ashr = tm.add, tm.sub, tm.mul, tm.ashr
    n = Nb(x, mc, yy, xx)
    r = x.ref(mc, "frame.ModularChannel")
    p = x.ref(wp, "frame.WPParams")
    e = err_at(x, mc, yy, xx)
    sh3 = lambda v: tm.shl(v, c32(3))
    n3, nw3, ne3, w3, nn3 = [sh3(v) for v in (n.north(), n.northwest(), n.northeast(), n.west(), n.northnorth())]
    tN, tW, tNE, tNW = e["N"](4), e["W"](4), e["NE"](4), e["NW"](4)
    p1, p2 = tm.trunc(p.param1, 32), tm.trunc(p.param2, 32)
    five = c32(5)
    subp = [sub(add(w3, ne3), n3),
            sub(n3, ashr(mul(add(add(tW, tN), tNE), p1), five)),
            sub(w3, ashr(mul(add(add(tW, tN), tNW), p2), five))]
    acc = mul(tNW, p.param3a)
    for a, b in ((tN, p.param3b), (tNE, p.param3c), (sub(nn3, n3), p.param3d), (sub(nw3, w3), p.param3e)):
        acc = add(acc, mul(a, b))
    subp.append(sub(n3, ashr(acc, five)))
    last = tm.eq(add(xx, c32(1)), r.size.Width)
    ws = []
    for i in range(4):
        es = add(add(add(add(e["N"](i), e["W"](i)), e["NW"](i)), e["WW"](i)), e["NE"](i))
        es = tm.ite(last, add(es, e["W"](i)), es)
        es64 = tm.sext(es, 64)
        sh = sub(floorlog(es64), bv(5, 64))
        sh = tm.ite(tm.slt(sh, Z64), Z64, sh)
        k = x.E.shift(">>", es, sh, True)
        w = add(bv(4, 64), x.E.shift(">>", mul(p.weight[i], recip(x, tm.sext(k, 64))), sh, True))
        ws.append(tm.trunc(w, 32))
    tot = add(add(add(ws[0], ws[1]), ws[2]), ws[3])
    lw = sub(floorlog(sub(tm.sext(tot, 64), bv(1, 64))), bv(4, 64))
    ws = [x.E.shift(">>", w, lw, True) for w in ws]
    tot = add(add(add(ws[0], ws[1]), ws[2]), ws[3])
    s = Z32
    for a, b in zip(subp, ws):
        s = add(s, mul(a, b))
    s = add(s, sub(ashr(tot, c32(1)), c32(1)))
    pred = tm.trunc(ashr(mul(tm.sext(s, 64), recip(x, tm.sext(sub(tot, c32(1)), 64))), bv(24, 64)), 32)
    same = tm.sle(tm.bor(tm.bxor(tN, tW), tm.bxor(tN, tNW)), Z32)
    pred = tm.ite(same, clamp4(pred, w3, n3, ne3), pred)
    mx, am = tW, absv(tW)
    for t in (tN, tNW, tNE):
        c = tm.slt(am, absv(t))
        mx, am = tm.ite(c, t, mx), tm.ite(c, absv(t), am)
    return pred, subp, ws, mx


@contract
class PrePredict(Contract):
    prop = PW
    func = "(*frame.ModularChannel).prePredictWP"
    assumes = ["entries of the sub-predictor error planes lie in 0..2^28-1 (the decoder stores (|x|+3)>>3 of 32-bit values)"]

    def inputs(self, x):
        errs = [bounded28(x, "mc.err%d" % e) for e in range(4)] + [None]
        mc = chan(x, dims=(1, 5), wp=errs)
        yy, xx = coords(x)
        return [mc, wp_params(x), xx, yy]

    def pre(self, x, mc, wp, xx, yy):
        return inside(x, mc, yy, xx)

    def spec(self, x, mc, wp, xx, yy):
        pred, subp, ws, mx = wp_predict(x, mc, wp, xx, yy)
        r = x.ref(mc, "frame.ModularChannel")
        for i in range(4):
            r.subpred[i] = subp[i]
            r.weight[i] = ws[i]
        row = x.sref(r.pred.val(tm.sext(yy, 64)), "int32")
        row[tm.sext(xx, 64)] = pred
        return [mx]


# ------------------------------------------------------------------ tree properties
@contract
class Walker(Contract):
    prop = "P11"
    func = "(*frame.ModularChannel).getWalkerFunc"
    variant = "properties 0 to 15"
    apply = 1
    goexpr = ("func(mc *ModularChannel, a, b, c, d, e int32, p *ModularStream, k int32) (int32, error) { return mc.getWalkerFunc(a, b, c, d, e, p)(k) }")

    def inputs(self, x):
        mc = chan(x, dims=(1, 5))
        yy, xx = coords(x)
        return [mc, x.i32("channel"), x.i32("stream"), xx, yy, x.i32("maxError"), NIL, x.i32("k", 0, 15)]

    def pre(self, x, mc, ci, si, xx, yy, me, parent, k):
        return inside(x, mc, yy, xx)

    def spec(self, x, mc, ci, si, xx, yy, me, parent, k):
        n = Nb(x, mc, yy, xx)
        sub, add = tm.sub, tm.add
        W, N, NW, NE, NN, WW = n.west(), n.north(), n.northwest(), n.northeast(), n.northnorth(), n.westwest()
        n1 = Nb(x, mc, yy, sub(xx, c32(1)))
        hasl = tm.slt(Z32, xx)
        if hasl is FALSE:
            p8 = W
        else:
            p8 = tm.ite(hasl, sub(W, sub(add(n1.west(), n1.north()), n1.northwest())), W)
        t = [ci, si, yy, xx, absv(N), absv(W), N, W, p8, sub(add(W, N), NW), sub(W, NW), sub(NW, N), sub(N, NE), sub(N, NN), sub(W, WW), me]
        v = Z32
        for i in reversed(range(16)):
            v = tm.ite(tm.eq(k, c32(i)), t[i], v)
        return [v]
