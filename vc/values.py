"""Value layer: scalars are terms; composites are small immutable objects."""
import terms as tm
from terms import bv, TRUE, FALSE


class Unsupported(Exception):
    pass


class Ptr:
    __slots__ = ("obj", "path")

    def __init__(self, obj, path=()):
        self.obj = obj
        self.path = path

    def __repr__(self):
        return "&%s%s" % (self.obj, list(self.path))


class Nil:
    __slots__ = ()

    def __repr__(self):
        return "nil"


NIL = Nil()  # nil pointer / func / map / chan / interface (non-error)


class IteV:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "IteV(%s,%s,%s)" % (tm.show(self.c, 2), self.a, self.b)


class SliceV:
    """obj None = nil slice.  element i lives at obj/path+(off+i,)"""
    __slots__ = ("obj", "path", "off", "len", "cap")

    def __init__(self, obj, path, off, ln, cap):
        self.obj, self.path, self.off, self.len, self.cap = obj, path, off, ln, cap

    def __repr__(self):
        if self.obj is None:
            return "nilslice"
        return "%s%s[%s:+%s]" % (self.obj, list(self.path), self.off, self.len)


Z64 = bv(0, 64)
NILSLICE = SliceV(None, (), Z64, Z64, Z64)


class StructV:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = tuple(f)

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self.f))


class ArrV:
    """array with concrete length"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)

    def __repr__(self):
        if len(self.e) > 8:
            return "[%d elems]" % len(self.e)
        return "[%s]" % ", ".join(map(repr, self.e))


class FArr:
    """functional array of dimension nd: get(idx tuple of 64-bit terms) -> Value"""
    __slots__ = ("nd", "memo")

    def __init__(self, nd):
        self.nd = nd
        self.memo = {}

    def get(self, idx):
        k = tuple([i.id for i in idx])
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self._get(idx)
        return r


class FBase(FArr):
    __slots__ = ("fn", "name")

    def __init__(self, nd, fn, name=""):
        FArr.__init__(self, nd)
        self.fn = fn
        self.name = name

    def _get(self, idx):
        return self.fn(*idx)

    def __repr__(self):
        return "<%s>" % self.name


class FStore(FArr):
    __slots__ = ("prev", "idx", "val")

    def __init__(self, prev, idx, val):
        FArr.__init__(self, prev.nd)
        self.prev, self.idx, self.val = prev, idx, val

    def _get(self, idx):
        c = tm.and_([tm.eq(a, b) for a, b in zip(idx, self.idx)])
        if c is TRUE:
            return self.val
        p = self.prev.get(idx)
        if c is FALSE:
            return p
        return merge(c, self.val, p)


class FIte(FArr):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        FArr.__init__(self, a.nd)
        self.c, self.a, self.b = c, a, b

    def _get(self, idx):
        return merge(self.c, self.a.get(idx), self.b.get(idx))


class FMap(FArr):
    """pred(*idx) -> Bool term, val(*idx) -> Value, elsewhere prev"""
    __slots__ = ("prev", "pred", "val")

    def __init__(self, prev, pred, val):
        FArr.__init__(self, prev.nd)
        self.prev, self.pred, self.val = prev, pred, val

    def _get(self, idx):
        c = self.pred(*idx)
        if c is FALSE:
            return self.prev.get(idx)
        v = self.val(*idx)
        if c is TRUE:
            return v
        return merge(c, v, self.prev.get(idx))


class IfaceV:
    __slots__ = ("dyn", "val")

    def __init__(self, dyn, val):
        self.dyn, self.val = dyn, val

    def __repr__(self):
        return "iface(%s,%s)" % (self.dyn, self.val)


class AbsV:
    """abstract interface value: behaviour given by assumed contracts of kind"""
    __slots__ = ("kind", "obj", "data")

    def __init__(self, kind, obj=None, data=None):
        self.kind, self.obj, self.data = kind, obj, data

    def __repr__(self):
        return "abs(%s)" % self.kind


class FuncV:
    __slots__ = ("name", "binds", "py")

    def __init__(self, name, binds=(), py=None):
        self.name, self.binds, self.py = name, tuple(binds), py

    def __repr__(self):
        return "func(%s)" % self.name


class StrV:
    """s: python str (one byte per character) or None; then ln/arr: length and bytes, or opaque"""
    __slots__ = ("s", "ln", "arr")

    def __init__(self, s, ln=None, arr=None):
        self.s, self.ln, self.arr = s, ln, arr

    def known(self):
        return self.s is not None or self.arr is not None

    def bytes(self):
        """-> (length term, fn index -> 8-bit term)"""
        if self.s is not None:
            bs = [tm.bv(c, 8) for c in self.s.encode("latin-1", "replace")]
            return tm.bv(len(bs), 64), (lambda i: select_list(bs, i) if bs else tm.bv(0, 8))
        return self.ln, lambda i: self.arr.get((i,))

    def __repr__(self):
        return "str(%r)" % (self.s,)


class TupleV:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)

    def __repr__(self):
        return "(%s)" % ", ".join(map(repr, self.e))


class MapV:
    """finite map with concrete keys (immutable); default None"""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d


class Opaque:
    """value outside the modelled subset (e.g. results of logging calls)"""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "opaque(%s)" % self.why


def merge(c, a, b):
    """if c then a else b"""
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if isinstance(a, tm.T) and isinstance(b, tm.T):
        return tm.ite(c, a, b)
    ta, tb = type(a), type(b)
    if ta is tb:
        if ta is StructV:
            return StructV([merge(c, x, y) for x, y in zip(a.f, b.f)])
        if ta is ArrV:
            if len(a.e) == len(b.e):
                return ArrV([merge(c, x, y) for x, y in zip(a.e, b.e)])
            raise Unsupported("merge of arrays of different length")
        if isinstance(a, Ptr):
            if a.obj == b.obj and len(a.path) == len(b.path):
                p = mpath(c, a.path, b.path)
                if p is not None:
                    return Ptr(a.obj, p)
            return IteV(c, a, b)
        if ta is SliceV:
            if a.obj is None and b.obj is None:
                return a
            if a.obj == b.obj and len(a.path) == len(b.path):
                p = mpath(c, a.path, b.path)
                if p is not None:
                    return SliceV(a.obj, p, tm.ite(c, a.off, b.off), tm.ite(c, a.len, b.len), tm.ite(c, a.cap, b.cap))
            return IteV(c, a, b)
        if ta is IfaceV and a.dyn == b.dyn:
            return IfaceV(a.dyn, merge(c, a.val, b.val))
        if ta is TupleV:
            return TupleV([merge(c, x, y) for x, y in zip(a.e, b.e)])
        if ta is FuncV and a.name == b.name and a.name is not None and all(x is y for x, y in zip(a.binds, b.binds)):
            return a
        if ta is StrV:
            if a.s == b.s and a.s is not None:
                return a
            if a.known() and b.known():
                (la, fa), (lb, fb) = a.bytes(), b.bytes()
                return StrV(None, tm.ite(c, la, lb), FIte(c, FBase(1, fa, "str"), FBase(1, fb, "str")))
            return StrV(None)
        if ta is AbsV and a.kind == b.kind and a.obj == b.obj and a.data is b.data:
            return a
        if ta is MapV:
            if a.d.keys() == b.d.keys():
                return MapV({k: merge(c, a.d[k], b.d[k]) for k in a.d})
            raise Unsupported("merge of maps")
    if isinstance(a, FArr) and isinstance(b, FArr):
        return FIte(c, a, b)
    if isinstance(a, FArr) and ta is not tb and isinstance(b, ArrV):
        return FIte(c, a, arr_to_farr(b))
    if isinstance(b, FArr) and isinstance(a, ArrV):
        return FIte(c, arr_to_farr(a), b)
    if ta is Opaque or tb is Opaque:
        return Opaque("merge")
    return IteV(c, a, b)


def mpath(c, p, q):
    r = []
    for x, y in zip(p, q):
        if isinstance(x, tm.T) and isinstance(y, tm.T):
            r.append(tm.ite(c, x, y))
        elif not isinstance(x, tm.T) and not isinstance(y, tm.T) and x == y:
            r.append(x)
        else:
            return None
    return tuple(r)


def arr_to_farr(a):
    elems = a.e

    def fn(i):
        return select_list(elems, i)
    return FBase(1, fn, "lst%d" % len(elems))


def select_list(elems, i):
    """elems[i] for symbolic i (assumed in range)"""
    if tm.isc(i):
        if i.p < len(elems):
            return elems[i.p]
        return elems[-1]  # unreachable under the bounds obligation
    n = len(elems)
    if n == 0:
        raise Unsupported("index into empty array")
    lo, hi = tm.urange(i)
    hi = min(hi, n - 1)
    lo = min(lo, hi)
    # balanced decision tree on index
    return _sel(elems, i, lo, hi)


def _sel(elems, i, lo, hi):
    if hi - lo < 4:
        r = elems[hi]
        for k in range(hi - 1, lo - 1, -1):
            r = merge(tm.eq(i, bv(k, i.s)), elems[k], r)
        return r
    # all equal?
    f = elems[lo]
    if all(elems[k] is f for k in range(lo, hi + 1)):
        return f
    mid = (lo + hi + 1) // 2
    return merge(tm.ult(i, bv(mid, i.s)), _sel(elems, i, lo, mid - 1), _sel(elems, i, mid, hi))


def mapv(v, f):
    """apply f to each scalar term in a value tree (pointers' path included)"""
    if isinstance(v, tm.T):
        return f(v)
    t = type(v)
    if t is StructV:
        return StructV([mapv(x, f) for x in v.f])
    if t is ArrV:
        return ArrV([mapv(x, f) for x in v.e])
    if t is SliceV:
        if v.obj is None:
            return v
        return SliceV(v.obj, tuple([f(x) if isinstance(x, tm.T) else x for x in v.path]), f(v.off), f(v.len), f(v.cap))
    if t is Ptr:
        return Ptr(v.obj, tuple([f(x) if isinstance(x, tm.T) else x for x in v.path]))
    if t is IteV:
        return merge(f(v.c), mapv(v.a, f), mapv(v.b, f))
    if t is IfaceV:
        return IfaceV(v.dyn, mapv(v.val, f))
    if t is TupleV:
        return TupleV([mapv(x, f) for x in v.e])
    if t is StrV and v.arr is not None:
        return StrV(None, f(v.ln), mapv(v.arr, f))
    if isinstance(v, FArr):
        return FBase(v.nd, lambda *idx: _farr_sub(v, f, idx), "sub")
    return v


def _farr_sub(v, f, idx):
    # substitute in the element read at fresh index variables, then instantiate
    js = [tm.fresh("j", 64) for _ in idx]
    raw = v.get(tuple(js))
    sub = mapv(raw, f)
    m = dict(zip(js, idx))
    return mapv(sub, lambda t: tm.subst(t, m))
