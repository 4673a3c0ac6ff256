from contract import *
import floats as fl

MAXN = 1 << 20


def ext(t, signed=True):
    return t if t.s == 64 else tm.sext(t, 64) if signed else tm.zext(t, 64)


PM = "P70"
MAT2 = [("float32", "int32", 32, True), ("float32", "int", 64, True), ("float32", "uint32", 32, False),
        ("int32", "int32", 32, True), ("int32", "int", 64, True), ("int32", "uint32", 32, False), ("util.Point", "int", 64, True),
        ("frame.PassGroup", "int", 64, True), ("*frame.TransformType", "uint32", 32, False)]


def etid(x, et):
    return x.tid(et)


def mm2(et, it, w, signed):
    class MM2(Contract):
        prop = PM
        func = "util.MakeMatrix2D[%s, %s]" % (et, it)
        opts = {"closed": True}
        no_replay = "frame" in et

        def inputs(self, x):
            return [x.int("a", w, 0, MAXN, signed, sample=(0, 6)), x.int("b", w, 0, MAXN, signed, sample=(0, 6))]

        def pre(self, x, a, b):
            return [("dimensions are not negative", tm.and_(tm.sge(ext(a, signed), Z64), tm.sge(ext(b, signed), Z64)))]

        def spec(self, x, a, b):
            z = x.E.zero(x.tid(et))
            return [x.fmatrix(ext(a, signed), ext(b, signed), lambda i, j: z)]
    return contract(MM2)


for m in MAT2:
    mm2(*m)


def mm3(et):
    class MM3(Contract):
        prop = PM
        func = "util.MakeMatrix3D[%s]" % et
        opts = {"closed": True}

        def inputs(self, x):
            return [x.i64("a", 0, MAXN, sample=(0, 4)), x.i64("b", 0, MAXN, sample=(0, 5)), x.i64("c", 0, MAXN, sample=(0, 5))]

        def pre(self, x, a, b, c):
            return [("dimensions are not negative", tm.and_([tm.sge(t, Z64) for t in (a, b, c)]))]

        def spec(self, x, a, b, c):
            z = x.E.zero(x.tid(et))
            return [fmat3(x, a, b, c, lambda i, j, k: z)]
    return contract(MM3)


def fmat3(x, a, b, c, fn, info="f3"):
    """a x b x c matrix given by fn(i, j, k)"""
    if tm.isc(a) and a.p <= 64:
        return x.list([x.fmatrix(b, c, lambda j, k, i=i: fn(bv(i, 64), j, k), info) for i in range(a.p)], info)
    od = x.E.new_obj(x.s, FBase(3, fn, info), info + "_data")
    orow = x.E.new_obj(x.s, FBase(2, lambda i, j: SliceV(od, (i, j), Z64, c, c), info + "_rows"), info + "_rows")
    opl = x.E.new_obj(x.s, FBase(1, lambda i: SliceV(orow, (i,), Z64, b, b), info + "_planes"), info + "_planes")
    return SliceV(opl, (), Z64, a, a)


for t in ("float32", "int32", "util.Point"):
    mm3(t)
