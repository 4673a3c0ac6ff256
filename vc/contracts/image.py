from contract import *
import floats as fl
from contracts.util import ext

PI = "P60"
DIM = 1 << 30
INT, FLT = 0, 1


def fim(x, h, w, fn):
    return x.fmatrix(h, w, fn)


def imgbuf(x, nm, kind=None, both=False, dims=None, smp=(0, 5)):
    """well formed image buffer: the buffer of its type is Height x Width"""
    if dims is None:
        h, w = x.i32(nm + ".h", 0, DIM, sample=smp), x.i32(nm + ".w", 0, DIM, sample=smp)
    else:
        h, w = dims
    H, W = ext(h), ext(w)
    ib = fb = NILSLICE
    if kind is None:
        kind = x.i64(nm + ".type", 0, 1)
        both = True
    else:
        kind = bv(kind, 64)
    if both or kind.p == INT:
        ib = x.matrix(nm + ".ib", "int32", H, W)
    if both or kind.p == FLT:
        fb = x.matrix(nm + ".fb", "float32", H, W)
    return x.new("image.ImageBuffer", Width=w, Height=h, BufferType=kind, FloatBuffer=fb, IntBuffer=ib)


def flt_of(v):
    return fl.from_int(v, True, 32)


class IB(Contract):
    prop = PI
    opts = {"closed": True}


@contract
class NewIB(IB):
    func = "image.NewImageBuffer"

    def inputs(self, x):
        return [x.i64("type", -3, 5), x.i32("h", sample=(-2, 7)), x.i32("w", sample=(-2, 7))]

    def spec(self, x, t, h, w):
        x.fail(tm.and_(tm.ne(t, bv(0, 64)), tm.ne(t, bv(1, 64))))
        lim = bv(DIM, 32)
        x.fail(tm.or_(tm.sgt(h, lim), tm.sgt(w, lim), tm.slt(h, bv(0, 32)), tm.slt(w, bv(0, 32))))
        H, W = ext(h), ext(w)
        if x.err is TRUE:
            return [NIL]
        isint = tm.eq(t, bv(0, 64))
        return [x.new("image.ImageBuffer", Width=w, Height=h, BufferType=t,
                      IntBuffer=merge(isint, x.fmatrix(H, W, lambda i, j: bv(0, 32)), NILSLICE),
                      FloatBuffer=merge(isint, NILSLICE, x.fmatrix(H, W, lambda i, j: bv(0, 32))))]


def frombuf(nm, et, fld, kind):
    class FromBuf(IB):
        func = "image.NewImageBufferFrom" + nm

        def inputs(self, x):
            h, w = x.i64("h", 1, DIM, sample=(1, 5)), x.i64("w", 0, DIM, sample=(0, 5))
            return [x.matrix("b", et, h, w)]

        def spec(self, x, b):
            s = x.sref(b, "[]" + et)
            return [x.new("image.ImageBuffer", Height=tm.trunc(s.len, 32), Width=tm.trunc(s[0].len, 32),
                          BufferType=bv(kind, 64), **{fld: b})]
    return contract(FromBuf)


frombuf("Ints", "int32", "IntBuffer", INT)
frombuf("Floats", "float32", "FloatBuffer", FLT)


def matval(x, sl, et):
    r = x.sref(sl, "[]" + et)
    return lambda i, j: x.sref(r.val(i), et).val(j)


def copymat(x, sl, et, H, W):
    old = State(dict(x.s.heap), {}, ())
    xo = Ctx(x.E, x.mode, x.src)
    xo.s = old
    if isinstance(sl, SliceV) and sl.obj is None:
        return x.list([])
    return x.fmatrix(H, W, matval(xo, sl, et))


def copyfn(nm, et):
    class CopyM(IB):
        func = "image.copy%sMatrix2D" % nm

        def inputs(self, x):
            h, w = x.i64("h", 0, DIM, sample=(0, 5)), x.i64("w", 0, DIM, sample=(0, 5))
            return [x.matrix("src", et, h, w)]

        def spec(self, x, src):
            if isinstance(src, SliceV) and src.obj is None:
                return [x.list([])]
            s = x.sref(src, "[]" + et)
            if x.mode == "conc" and s.len is Z64:
                return [x.list([])]
            W = s[0].len
            return [copymat(x, src, et, s.len, W)]
    return contract(CopyM)


copyfn("Int32", "int32")
copyfn("Float32", "float32")


def fromib(copyb, kind):
    class FromIB(IB):
        func = "image.NewImageBufferFromImageBuffer"
        variant = "%s-%s" % ("copy" if copyb else "blank", kind)

        def inputs(self, x):
            return [imgbuf(x, "b", kind), tm.boolc(copyb)]

        def spec(self, x, b, c):
            r = x.ref(b, "image.ImageBuffer")
            H, W = ext(r.Height), ext(r.Width)
            if not copyb:
                z = lambda i, j: bv(0, 32)
                i, f = x.fmatrix(H, W, z), x.fmatrix(H, W, z)
            else:
                i = copymat(x, r._raws("IntBuffer"), "int32", H, W)
                f = copymat(x, r._raws("FloatBuffer"), "float32", H, W)
            return [x.new("image.ImageBuffer", Height=r.Height, Width=r.Width, BufferType=r.BufferType, IntBuffer=i, FloatBuffer=f)]
    return contract(FromIB)


for cb in (True, False):
    for kd in (INT, FLT):
        fromib(cb, kd)


@contract
class CastF(IB):
    func = "(*image.ImageBuffer).castToFloatBuffer"

    def inputs(self, x):
        return [imgbuf(x, "b"), x.i32("max")]

    def spec(self, x, b, mx):
        r = x.ref(b, "image.ImageBuffer")
        x.fail(tm.eq(r.BufferType, bv(FLT, 64)))
        x.fail(tm.slt(mx, bv(1, 32)))
        cast_f(x, r, mx, tm.not_(x.err))
        return []


def cast_f(x, r, mx, when):
    """integer samples become sample * (1/max)"""
    v = matval(x, r._raws("IntBuffer"), "int32")
    sc = fl.fdiv(fl.fconst(1.0), flt_of(mx))
    f = x.fmatrix(ext(r.Height), ext(r.Width), lambda i, j: fl.fmul(flt_of(v(i, j)), sc))
    r.FloatBuffer = merge(when, f, r._raws("FloatBuffer"))
    r.BufferType = tm.ite(when, bv(FLT, 64), r.BufferType)


def cast_i(x, r, mx, when):
    """float samples become round-half-up(sample*max) clamped to 0..max"""
    v = matval(x, r._raws("FloatBuffer"), "float32")
    sc = flt_of(mx)

    def px(i, j):
        q = fl.to_int(fl.fadd(fl.fmul(v(i, j), sc), fl.fconst(0.5)), True, 32)
        return clamp(q, bv(0, 32), mx)
    f = x.fmatrix(ext(r.Height), ext(r.Width), px)
    r.IntBuffer = merge(when, f, r._raws("IntBuffer"))
    r.BufferType = tm.ite(when, bv(INT, 64), r.BufferType)


def clamp(v, lo, hi):
    return tm.ite(tm.slt(v, lo), lo, tm.ite(tm.sgt(v, hi), hi, v))


@contract
class CastFM(IB):
    func = "(*image.ImageBuffer).CastToFloatIfMax"

    def inputs(self, x):
        return [imgbuf(x, "b"), x.i32("max")]

    def spec(self, x, b, mx):
        r = x.ref(b, "image.ImageBuffer")
        isint = tm.eq(r.BufferType, bv(INT, 64))
        x.fail(tm.slt(mx, bv(1, 32)), isint)
        cast_f(x, r, mx, tm.and_(isint, tm.not_(x.err)))
        return []


@contract
class CastI(IB):
    func = "(*image.ImageBuffer).castToIntBuffer"

    def inputs(self, x):
        return [imgbuf(x, "b"), x.i32("max")]

    def spec(self, x, b, mx):
        r = x.ref(b, "image.ImageBuffer")
        x.fail(tm.eq(r.BufferType, bv(INT, 64)))
        x.fail(tm.slt(mx, bv(1, 32)))
        cast_i(x, r, mx, tm.not_(x.err))
        return []


@contract
class CastIM(IB):
    func = "(*image.ImageBuffer).CastToIntIfMax"

    def inputs(self, x):
        return [imgbuf(x, "b"), x.i32("max")]

    def spec(self, x, b, mx):
        r = x.ref(b, "image.ImageBuffer")
        isf = tm.eq(r.BufferType, bv(FLT, 64))
        x.fail(tm.slt(mx, bv(1, 32)), isf)
        cast_i(x, r, mx, tm.and_(isf, tm.not_(x.err)))
        return []


@contract
class ClampIB(IB):
    func = "(*image.ImageBuffer).Clamp"

    def inputs(self, x):
        return [imgbuf(x, "b"), x.i32("max")]

    def spec(self, x, b, mx):
        r = x.ref(b, "image.ImageBuffer")
        x.fail(tm.eq(r.BufferType, bv(FLT, 64)))
        v = matval(x, r._raws("IntBuffer"), "int32")
        zero = bv(0, 32)
        f = x.fmatrix(ext(r.Height), ext(r.Width),
                      lambda i, j: tm.ite(tm.slt(v(i, j), zero), zero, tm.ite(tm.sgt(v(i, j), mx), mx, v(i, j))))
        r.IntBuffer = merge(tm.not_(x.err), f, r._raws("IntBuffer"))
        return []


for nm, k in (("IsInt", INT), ("IsFloat", FLT)):
    def mk(nm=nm, k=k):
        class Is(IB):
            func = "(*image.ImageBuffer)." + nm

            def inputs(self, x):
                return [imgbuf(x, "b")]

            def spec(self, x, b):
                return [tm.eq(x.ref(b, "image.ImageBuffer").BufferType, bv(k, 64))]
        contract(Is)
    mk()
