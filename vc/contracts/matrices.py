from contract import *
import floats as fl
from contracts.util import ext, fmat3
from contracts.image import matval, copymat

PX = "P72"
BIG = 1 << 24


class M(Contract):
    prop = PX
    opts = {"closed": True}


def point(x, nm, lo, hi, smp=(0, 4)):
    return x.mk("util.Point", X=x.i32(nm + ".x", lo, hi, sample=smp), Y=x.i32(nm + ".y", lo, hi, sample=smp))


def snap(x):
    """reader of the heap as it is now"""
    xo = Ctx(x.E, x.mode, x.src)
    xo.s = State(dict(x.s.heap), {}, ())
    return xo


def rows_overwrite(x, dest, fn, inside):
    """dest[y][x] = fn(y,x) where inside(y,x)"""
    raise NotImplementedError


def write_block(x, dest, et, y0, x0, h, w, fn):
    """dest[y0+i][x0+j] = fn(i, j) for i < h, j < w (rows of dest are distinct)"""
    if x.mode == "conc":
        r = x.sref(dest, "[]" + et)
        for i in range(h.p if w.p else 0):
            row = x.sref(r.val(tm.add(y0, bv(i, 64))), et)
            for j in range(w.p):
                row[tm.add(x0, bv(j, 64))] = fn(bv(i, 64), bv(j, 64))
        return
    row0 = x.E.elem(x.s, dest, Z64)
    obj = row0.obj
    old = x.s.heap[obj]
    xo = snap(x)
    v = matval(xo, dest, et)

    def new(a, b):
        i, j = tm.sub(a, y0), tm.sub(b, x0)
        return tm.ite(tm.and_(tm.ult(i, h), tm.ult(j, w)), fn(i, j), v(a, b))
    x.s.heap[obj] = FBase(2, new, "blk")


@contract
class TransposeInto(M):
    """dest[dy+x][dx+y] = src[sy+y][sx+x] for the given size, everything else untouched"""
    func = "util.TransposeMatrixInto"

    def inputs(self, x):
        sh, sw = x.i64("sh", 1, BIG, sample=(1, 6)), x.i64("sw", 1, BIG, sample=(1, 6))
        dh, dw = x.i64("dh", 1, BIG, sample=(1, 6)), x.i64("dw", 1, BIG, sample=(1, 6))
        return [x.matrix("src", "float32", sh, sw), x.matrix("dest", "float32", dh, dw), point(x, "ss", 0, BIG, (0, 2)), point(x, "ds", 0, BIG, (0, 2)),
                point(x, "size", 0, BIG)]

    def pre(self, x, src, dest, ss, ds, size):
        H, W = x.E.vlen(src), x.E.vlen(x.sref(src, "[]float32").val(0))
        DH, DW = x.E.vlen(dest), x.E.vlen(x.sref(dest, "[]float32").val(0))
        f = lambda p: (ext(p.f[1]), ext(p.f[0]))
        (sy, sx), (dy, dx), (h, w) = f(ss), f(ds), f(size)
        nn = tm.and_([tm.sle(Z64, t) for t in (sy, sx, dy, dx, h, w)])
        emp = tm.or_(tm.eq(h, Z64), tm.eq(w, Z64))
        return [("coordinates are not negative", nn),
                ("source block inside the source", tm.or_(tm.eq(h, Z64), tm.and_(tm.sle(tm.add(sy, h), H), tm.sle(tm.add(sx, w), W)))),
                ("destination block inside the destination", tm.or_(emp, tm.and_(tm.sle(tm.add(dy, w), DH), tm.sle(tm.add(dx, h), DW))))]

    def spec(self, x, src, dest, ss, ds, size):
        v = matval(snap(x), src, "float32")
        f = lambda p: (ext(p.f[1]), ext(p.f[0]))
        (sy, sx), (dy, dx), (h, w) = f(ss), f(ds), f(size)
        write_block(x, dest, "float32", dy, dx, w, h, lambda i, j: v(tm.add(sy, j), tm.add(sx, i)))
        return []


@contract
class Transpose(M):
    func = "util.TransposeMatrix"

    def inputs(self, x):
        sh, sw = x.i64("sh", 1, BIG, sample=(1, 6)), x.i64("sw", 1, BIG, sample=(1, 6))
        return [x.matrix("src", "float32", sh, sw), point(x, "size", 0, BIG)]

    def pre(self, x, src, size):
        H, W = x.E.vlen(src), x.E.vlen(x.sref(src, "[]float32").val(0))
        w, h = ext(size.f[0]), ext(size.f[1])
        return [("block inside the source", tm.and_(tm.sle(Z64, h), tm.sle(Z64, w), tm.sle(h, H), tm.sle(w, W)))]

    def spec(self, x, src, size):
        v = matval(snap(x), src, "float32")
        w, h = ext(size.f[0]), ext(size.f[1])
        emp = tm.or_(tm.eq(h, Z64), tm.eq(w, Z64))
        return [merge(emp, NILSLICE, x.fmatrix(w, h, lambda i, j: v(j, i)))]


@contract
class Identity(M):
    func = "util.MatrixIdentity"

    def inputs(self, x):
        return [x.i64("n", 0, BIG, sample=(0, 6))]

    def spec(self, x, n):
        return [x.fmatrix(n, n, lambda i, j: tm.ite(tm.eq(i, j), fl.fconst(1.0), fl.fconst(0.0)))]


def m33(x, nm):
    return x.matrix(nm, "float32", 3, 3)


@contract
class Inv33(M):
    """adjugate times 1/determinant, nil for a zero determinant"""
    func = "util.InvertMatrix3x3"
    opts = {}

    def inputs(self, x):
        return [m33(x, "m")]

    def pre(self, x, m):
        return [("3 rows", tm.eq(x.E.vlen(m), bv(3, 64)))]

    def spec(self, x, m):
        v = matval(x, m, "float32")
        e = lambda i, j: v(bv(i, 64), bv(j, 64))
        mul, sub = fl.fmul, fl.fsub

        def t3(a, b, c):
            return mul(mul(e(*a), e(*b)), e(*c))
        det = fl.fadd(fl.fadd(t3((0, 0), (1, 1), (2, 2)), t3((0, 1), (1, 2), (2, 0))), t3((0, 2), (1, 0), (2, 1)))
        for a in (((0, 2), (1, 1), (2, 0)), ((0, 1), (1, 0), (2, 2)), ((0, 0), (1, 2), (2, 1))):
            det = sub(det, t3(*a))
        inv = fl.fdiv(fl.fconst(1.0), det)

        def cof(i, j):
            # entry (i, j) of the adjugate: minor (j, i) with its sign, rows/columns taken cyclically
            a, b = [(j + 1) % 3, (j + 2) % 3], [(i + 1) % 3, (i + 2) % 3]
            if a[0] > a[1]:
                a = a[::-1]
                b = b[::-1]
            p, q = (e(a[0], b[0]), e(a[1], b[1])), (e(a[0], b[1]), e(a[1], b[0]))
            return mul(sub(mul(*p), mul(*q)), inv)
        r = x.list([x.list([cof(i, j) for j in range(3)]) for i in range(3)])
        return [merge(fl.feq(det, fl.fconst(0.0)), NILSLICE, r)]


@contract
class Mul33(M):
    func = "util.MatrixMatrixMultiply"
    opts = {}

    def inputs(self, x):
        return [m33(x, "a"), m33(x, "b")]

    def spec(self, x, a, b):
        v, w = matval(x, a, "float32"), matval(x, b, "float32")

        def el(i, j):
            s = fl.fconst(0.0)
            for k in range(3):
                s = fl.fadd(s, fl.fmul(v(bv(i, 64), bv(k, 64)), w(bv(k, 64), bv(j, 64))))
            return s
        return [x.list([x.list([el(i, j) for j in range(3)]) for i in range(3)])]


@contract
class MulV(M):
    func = "util.MatrixVectorMultiply"
    opts = {}

    def inputs(self, x):
        return [m33(x, "a"), x.slice("v", "float32", 3)]

    def spec(self, x, a, b):
        v, w = matval(x, a, "float32"), x.sref(b, "float32")

        def el(i):
            s = fl.fconst(0.0)
            for k in range(3):
                s = fl.fadd(s, fl.fmul(v(bv(i, 64), bv(k, 64)), w.val(k)))
            return s
        return [x.list([el(i) for i in range(3)])]


def deque(x, n):
    return x.new("util.Deque[int32]", data=x.slice("data", "int32", n))


@contract
class DqAdd(M):
    func = "(*util.Deque[int32]).AddFirst"

    def inputs(self, x):
        return [deque(x, x.i64("n", 0, BIG, sample=(0, 8))), x.i32("item")]

    def spec(self, x, d, it):
        r = x.ref(d, "util.Deque[int32]")
        o = x.sref(r._raws("data"), "int32")
        xo = snap(x)
        old = SRef(xo, r._raws("data"), o.et)
        r.data = x.fslice(tm.add(o.len, bv(1, 64)), lambda i: it if i is Z64 else tm.ite(tm.eq(i, Z64), it, old.val(tm.sub(i, bv(1, 64)))))
        return []


@contract
class DqEmpty(M):
    func = "(*util.Deque[int32]).IsEmpty"

    def inputs(self, x):
        return [deque(x, x.i64("n", 0, BIG, sample=(0, 3)))]

    def spec(self, x, d):
        return [tm.eq(x.ref(d, "util.Deque[int32]").data.len, Z64)]


@contract
class DqRemove(M):
    func = "(*util.Deque[int32]).RemoveFirst"

    def inputs(self, x):
        return [deque(x, x.i64("n", 0, BIG, sample=(0, 5)))]

    def spec(self, x, d):
        r = x.ref(d, "util.Deque[int32]")
        o = r.data
        emp = tm.eq(o.len, Z64)
        one = bv(1, 64)
        raw = r._raws("data")
        if x.mode == "conc":
            if emp is TRUE:
                return [NIL]
            v = o.val(0)
            xo = snap(x)
            old = SRef(xo, raw, o.et)
            r.data = x.fslice(tm.sub(o.len, one), lambda i: old.val(tm.add(i, one)))
            return [x.alloc(v)]
        first = o.val(0)
        r.data = merge(emp, raw, SliceV(raw.obj, raw.path, tm.add(raw.off, one), tm.sub(raw.len, one), tm.sub(raw.cap, one)))
        return [merge(emp, NIL, x.alloc(first))]
