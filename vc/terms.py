"""Hash-consed term DAG: booleans (sort 0), bit-vectors (sort n), uninterpreted
functions.  Smart constructors normalise (linear forms, constant folding,
ite/boolean simplification) so that many obligations become syntactically true.
All bit-vector arithmetic is exact machine arithmetic (mod 2^w)."""
import sys
sys.setrecursionlimit(200000)

_table = {}
_next = [0]


class T:
    __slots__ = ("op", "args", "p", "s", "id", "_ur", "_lin")

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError("symbolic term used as a Python bool: %s" % show(self)[:200])


def _mk(op, args, p, s):
    k = (op, tuple([a.id for a in args]), p, s)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.p = p
        t.s = s
        t.id = _next[0]
        _next[0] += 1
        t._ur = None
        t._lin = None
        _table[k] = t
    return t


TRUE = _mk("true", (), None, 0)
FALSE = _mk("false", (), None, 0)


def bv(v, w):
    return _mk("c", (), v & ((1 << w) - 1), w)


def boolc(b):
    return TRUE if b else FALSE


_ranges = {}


def var(name, s, lo=None, hi=None):
    """lo/hi: unsigned range the variable is *declared* to lie in (a precondition)."""
    t = _mk("v", (), name, s)
    if lo is not None or hi is not None:
        _ranges[t.id] = (lo or 0, hi if hi is not None else (1 << s) - 1)
        t._ur = None
    return t


_fresh = [0]


def fresh(name, s):
    _fresh[0] += 1
    return var("%s!%d" % (name, _fresh[0]), s)


_app_ranges = {}


def app(fname, args, s):
    return _mk("app", tuple(args), fname, s)


def set_app_range(fname, lo, hi):
    _app_ranges[fname] = (lo, hi)


def isc(t):
    return t.op == "c"


def cval(t):
    return t.p


def sval(t):
    v = t.p
    return v - (1 << t.s) if v >> (t.s - 1) else v


def tosigned(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


# ---------------------------------------------------------------- booleans
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,), None, 0)


def _flat(op, ts):
    out = []
    seen = {}
    st = list(reversed(ts))
    while st:
        t = st.pop()
        if t.op == op:
            st.extend(reversed(t.args))
            continue
        if t.id in seen:
            continue
        seen[t.id] = t
        out.append(t)
    return out, seen


def and_(*ts):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = ts[0]
    out, seen = _flat("and", ts)
    r = []
    for t in out:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        n = not_(t)
        if n.id in seen:
            return FALSE
        r.append(t)
    # absorb: a & (not a | b) -> a & b
    if len(r) > 1:
        r2 = []
        for t in r:
            if t.op == "or":
                if any(x.id in seen for x in t.args):
                    continue
                keep = [x for x in t.args if not_(x).id not in seen]
                if len(keep) != len(t.args):
                    nt = or_(keep)
                    if nt is FALSE:
                        return FALSE
                    r2.append(nt)
                    continue
            r2.append(t)
        if len(r2) != len(r) or any(a is not b for a, b in zip(r, r2)):
            return and_(r2)
    if not r:
        return TRUE
    if len(r) == 1:
        return r[0]
    r.sort(key=lambda t: t.id)
    return _mk("and", tuple(r), None, 0)


def or_(*ts):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = ts[0]
    out, seen = _flat("or", ts)
    r = []
    for t in out:
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        n = not_(t)
        if n.id in seen:
            return TRUE
        r.append(t)
    if len(r) > 1:
        r2 = []
        for t in r:
            if t.op == "and":
                if any(x.id in seen for x in t.args):
                    continue
                keep = [x for x in t.args if not_(x).id not in seen]
                if len(keep) != len(t.args):
                    nt = and_(keep)
                    if nt is TRUE:
                        return TRUE
                    r2.append(nt)
                    continue
            r2.append(t)
        if len(r2) != len(r) or any(a is not b for a, b in zip(r, r2)):
            return or_(r2)
    if not r:
        return FALSE
    if len(r) == 1:
        return r[0]
    # (c & a) | (!c & a) -> a   (two-element case)
    if len(r) == 2:
        a, b = r
        sa = {x.id: x for x in (a.args if a.op == "and" else (a,))}
        sb = {x.id: x for x in (b.args if b.op == "and" else (b,))}
        common = [sa[i] for i in sa if i in sb]
        if common:
            ra = [sa[i] for i in sa if i not in sb]
            rb = [sb[i] for i in sb if i not in sa]
            return and_(common + [or_(and_(ra), and_(rb))])
    r.sort(key=lambda t: t.id)
    return _mk("or", tuple(r), None, 0)


def implies(a, b):
    return or_(not_(a), b)


def xor_(a, b):
    return not_(iff(a, b))


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    if not_(a) is b:
        return FALSE
    if a.op == "not" and b.op == "not":
        return iff(a.args[0], b.args[0])
    if a.op == "not":
        return not_(iff(a.args[0], b))
    if b.op == "not":
        return not_(iff(a, b.args[0]))
    if a.id > b.id:
        a, b = b, a
    return _mk("iff", (a, b), None, 0)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.s == 0:
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
        if c is a:
            return or_(c, b)
        if c is b:
            return and_(c, a)
        if not_(a) is b:
            return iff(c, a)
    if a.s != b.s:
        raise TypeError("ite sort mismatch %s vs %s" % (a.s, b.s))
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if b.op == "ite":
        # ite(c,a,ite(d,a,x)) -> ite(c|d,a,x)
        if b.args[1] is a:
            return ite(or_(c, b.args[0]), a, b.args[2])
    if a.op == "ite":
        # ite(c, ite(d,x,b), b) -> ite(c&d, x, b)
        if a.args[2] is b:
            return ite(and_(c, a.args[0]), a.args[1], b)
        if a.args[1] is b:
            return ite(and_(c, not_(a.args[0])), a.args[2], b)
    if a.s >= 32 and (a.op == "lin" or b.op == "lin"):
        # pull the common linear part out: ite(c, p+x, p+y) -> p + ite(c,x,y)
        ca, la = _linof(a)
        cb, lb = _linof(b)
        com = {i: v for i, v in la.items() if i in lb and lb[i][1] == v[1]}
        if com:
            k = ca if ca == cb else 0
            base = _mklin(k, com, a.s)
            ra = _mklin(ca - k, {i: v for i, v in la.items() if i not in com}, a.s)
            rb = _mklin(cb - k, {i: v for i, v in lb.items() if i not in com}, a.s)
            return add(base, ite(c, ra, rb))
    return _mk("ite", (c, a, b), None, a.s)


# ---------------------------------------------------------------- linear forms
def _linof(t):
    """-> (const, {id:(term,coef)})"""
    if t.op == "c":
        return t.p, {}
    if t.op == "lin":
        if t._lin is None:
            t._lin = {a.id: (a, c) for a, c in zip(t.args, t.p[1])}
        return t.p[0], t._lin
    return 0, {t.id: (t, 1)}


def _mklin(const, d, w):
    m = (1 << w) - 1
    const &= m
    items = [(a, c & m) for a, c in d.values() if c & m]
    if not items:
        return bv(const, w)
    if const == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda x: x[0].id)
    return _mk("lin", tuple([a for a, _ in items]), (const, tuple([c for _, c in items])), w)


def add(*ts):
    w = ts[0].s
    m = (1 << w) - 1
    const = 0
    d = {}
    for t in ts:
        if t.s != w:
            raise TypeError("add width %d vs %d" % (w, t.s))
        c, dd = _linof(t)
        const += c
        for i, (a, k) in dd.items():
            if i in d:
                d[i] = (a, (d[i][1] + k) & m)
            else:
                d[i] = (a, k)
    return _mklin(const, d, w)


def scale(t, k):
    w = t.s
    m = (1 << w) - 1
    k &= m
    if k == 1:
        return t
    if t.op == "ite" and isc(t.args[1]) and isc(t.args[2]):
        return ite(t.args[0], bv(t.args[1].p * k, w), bv(t.args[2].p * k, w))
    c, d = _linof(t)
    return _mklin(c * k, {i: (a, (kk * k) & m) for i, (a, kk) in d.items()}, w)


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def bvnot(t):
    return add(neg(t), bv(-1, t.s))


def mul(a, b):
    if isc(a):
        return scale(b, a.p)
    if isc(b):
        return scale(a, b.p)
    w = a.s
    # x * ite(c,1,0) etc.
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and isc(x.args[1]) and isc(x.args[2]):
            return ite(x.args[0], scale(y, x.args[1].p), scale(y, x.args[2].p))
    if a.id > b.id:
        a, b = b, a
    # pull out constants / distribute is avoided: keep products opaque but factor scalar
    ca, da = _linof(a)
    cb, db = _linof(b)
    if ca == 0 and len(da) == 1 and a.op == "lin":
        (x, k), = da.values()
        return scale(mul(x, b), k)
    if cb == 0 and len(db) == 1 and b.op == "lin":
        (x, k), = db.values()
        return scale(mul(a, x), k)
    # distribute over small sums (<=3 terms on each side) to get polynomial normal form
    if (a.op == "lin" or b.op == "lin") and len(da) <= 4 and len(db) <= 4:
        r = [bv(ca * cb, w)]
        for x, k in da.values():
            if cb:
                r.append(scale(x, k * cb))
            for y, l in db.values():
                r.append(scale(mul(x, y), k * l))
        for y, l in db.values():
            if ca:
                r.append(scale(y, l * ca))
        return add(*r)
    # flatten monomials
    fs = []
    for x in (a, b):
        if x.op == "mul":
            fs.extend(x.args)
        else:
            fs.append(x)
    fs.sort(key=lambda t: t.id)
    return _mk("mul", tuple(fs), None, w)


# ---------------------------------------------------------------- ranges
def urange(t):
    r = t._ur
    if r is None:
        r = t._ur = _urange(t)
    return r


def _urange(t):
    full = (0, (1 << t.s) - 1)
    op = t.op
    if op == "c":
        return (t.p, t.p)
    if op == "v":
        return _ranges.get(t.id, full)
    if op == "app":
        return _app_ranges.get(t.p, full)
    if op == "ite":
        a, b = urange(t.args[1]), urange(t.args[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    if op == "zext":
        return urange(t.args[0])
    if op == "sext":
        a = urange(t.args[0])
        if a[1] < 1 << (t.args[0].s - 1):
            return a
        return full
    if op == "band":
        hi = min(urange(a)[1] for a in t.args)
        return (0, hi)
    if op == "bor" or op == "bxor":
        hi = 0
        lo = 0
        for a in t.args:
            r = urange(a)
            hi = max(hi, r[1])
            lo = max(lo, r[0])
        return (lo if op == "bor" else 0, (1 << hi.bit_length()) - 1)
    if op == "lin":
        c, d = _linof(t)
        lo = hi = c
        half = 1 << (t.s - 1)
        neg_ = False
        for a, k in d.values():
            r = urange(a)
            if k >= half:
                kk = k - (1 << t.s)
                lo += kk * r[1]
                hi += kk * r[0]
                neg_ = True
            else:
                lo += k * r[0]
                hi += k * r[1]
        if lo >= 0 and hi < (1 << t.s):
            return (lo, hi)
        if c >= half:
            lo -= 1 << t.s
            hi -= 1 << t.s
            if lo >= 0 and hi < (1 << t.s):
                return (lo, hi)
        return full
    if op == "mul":
        lo = hi = 1
        for a in t.args:
            r = urange(a)
            lo *= r[0]
            hi *= r[1]
        if hi < (1 << t.s):
            return (lo, hi)
        return full
    if op == "lshr":
        a, b = urange(t.args[0]), urange(t.args[1])
        return (a[0] >> min(b[1], t.s), a[1] >> min(b[0], t.s))
    if op == "shl":
        a, b = urange(t.args[0]), urange(t.args[1])
        if b[1] < t.s and (a[1] << b[1]) < (1 << t.s):
            return (a[0] << b[0], a[1] << b[1])
        return full
    if op == "ashr":
        a, b = urange(t.args[0]), urange(t.args[1])
        if a[1] < 1 << (t.s - 1):
            return (a[0] >> min(b[1], t.s), a[1] >> min(b[0], t.s))
        return full
    if op == "udiv":
        a, b = urange(t.args[0]), urange(t.args[1])
        if b[0] > 0:
            return (a[0] // b[1], a[1] // b[0])
        return full
    if op == "urem":
        a, b = urange(t.args[0]), urange(t.args[1])
        if b[0] > 0:
            return (0, min(a[1], b[1] - 1))
        return (0, a[1])
    if op == "sdiv" or op == "srem":
        a, b = urange(t.args[0]), urange(t.args[1])
        h = 1 << (t.s - 1)
        if a[1] < h and b[1] < h and b[0] > 0:
            if op == "sdiv":
                return (a[0] // b[1], a[1] // b[0])
            return (0, min(a[1], b[1] - 1))
        return full
    if op == "extract":
        hi, lo = t.p
        a = urange(t.args[0])
        if lo == 0 and a[1] < (1 << t.s):
            return a
        if hi == t.args[0].s - 1:
            return (a[0] >> lo, a[1] >> lo)
        return full
    if op == "concat":
        a, b = urange(t.args[0]), urange(t.args[1])
        w = t.args[1].s
        return ((a[0] << w) + b[0], (a[1] << w) + b[1])
    return full


def srange(t):
    w = t.s
    h = 1 << (w - 1)
    u = urange(t)
    if u[1] < h:
        return u
    if u[0] >= h:
        return (u[0] - (1 << w), u[1] - (1 << w))
    op = t.op
    if op == "sext":
        return srange(t.args[0])
    if op == "ite":
        a, b = srange(t.args[1]), srange(t.args[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    if op == "lin":
        c, d = _linof(t)
        lo = hi = tosigned(c, w)
        for a, k in d.values():
            k = tosigned(k, w)
            r = srange(a)
            if k < 0:
                lo += k * r[1]
                hi += k * r[0]
            else:
                lo += k * r[0]
                hi += k * r[1]
        if -h <= lo and hi < h:
            return (lo, hi)
    if op == "ashr":
        a, b = srange(t.args[0]), urange(t.args[1])
        k0, k1 = min(b[0], w - 1), min(b[1], w - 1)
        return (min(a[0] >> k0, a[0] >> k1), max(a[1] >> k0, a[1] >> k1))
    if op == "v" and t.id in _sranges:
        return _sranges[t.id]
    if op == "app" and t.p in _app_sranges:
        return _app_sranges[t.p]
    if op == "mul" and len(t.args) == 2:
        a, b = srange(t.args[0]), srange(t.args[1])
        ps = [x * y for x in a for y in b]
        if -h <= min(ps) and max(ps) < h:
            return (min(ps), max(ps))
    return (-h, h - 1)


_sranges = {}
_app_sranges = {}


def set_srange(t, lo, hi):
    _sranges[t.id] = (lo, hi)
    if lo >= 0:
        _ranges[t.id] = (lo, hi)
        t._ur = None


def set_app_srange(fname, lo, hi):
    _app_sranges[fname] = (lo, hi)
    if lo >= 0:
        _app_ranges[fname] = (lo, hi)


# ---------------------------------------------------------------- comparisons
def eq(a, b):
    if a is b:
        return TRUE
    if a.s == 0:
        return iff(a, b)
    w = a.s
    if b.s != w:
        raise TypeError("eq width %d vs %d" % (w, b.s))
    if isc(a) and isc(b):
        return FALSE
    ua, ub = urange(a), urange(b)
    if ua[1] < ub[0] or ub[1] < ua[0]:
        return FALSE
    sa, sb = srange(a), srange(b)
    if sa[1] < sb[0] or sb[1] < sa[0]:
        return FALSE
    if a.op == "lin" or b.op == "lin":
        d = sub(a, b)
        if isc(d):
            return boolc(d.p == 0)
        ud = urange(d)
        if ud[0] > 0:
            return FALSE
        # x + c == y form: keep canonical: move everything to one side if shares terms
        ca, da = _linof(a)
        cb, db = _linof(b)
        shared = any(i in db for i in da)
        if shared or (ca and cb):
            # canonical: lhs = terms with smaller id sign
            if d.op == "lin":
                k0 = d.p[1][0]
                if k0 >= 1 << (w - 1):
                    d = neg(d)
                c, dd = _linof(d)
                pos = {i: v for i, v in dd.items() if v[1] < 1 << (w - 1)}
                ng = {i: (x, (-k) & ((1 << w) - 1)) for i, (x, k) in dd.items() if k >= 1 << (w - 1)}
                a = _mklin(0, pos, w)
                b = _mklin(-c, ng, w)
                if a is b:
                    return TRUE
            else:
                a, b = d, bv(0, w)
    if isc(a):
        a, b = b, a
    if isc(b):
        if a.op == "ite":
            x, y = a.args[1], a.args[2]
            if isc(x) or isc(y) or x.op == "ite" or y.op == "ite":
                ex, ey = eq(x, b), eq(y, b)
                if ex.op in ("true", "false") or ey.op in ("true", "false"):
                    return ite(a.args[0], ex, ey)
        if a.op == "lin":
            c, d = _linof(a)
            if len(d) == 1:
                (x, k), = d.values()
                if c and k == 1:
                    return eq(x, bv(b.p - c, w))
                if k & 1 and k != 1:
                    inv = pow(k, -1, 1 << w)
                    return eq(x, bv((b.p - c) * inv, w))
            elif c:
                return eq(_mklin(0, d, w), bv(b.p - c, w))
        if a.op == "zext":
            x = a.args[0]
            if b.p >> x.s:
                return FALSE
            return eq(x, bv(b.p, x.s))
        if a.op == "sext":
            x = a.args[0]
            v = sval(b)
            if not (-(1 << (x.s - 1)) <= v < (1 << (x.s - 1))):
                return FALSE
            return eq(x, bv(v, x.s))
        if a.op == "concat":
            hi, lo = a.args
            return and_(eq(hi, bv(b.p >> lo.s, hi.s)), eq(lo, bv(b.p, lo.s)))
    if a.op == "zext" and b.op == "zext" and a.args[0].s == b.args[0].s:
        return eq(a.args[0], b.args[0])
    if a.op == "sext" and b.op == "sext" and a.args[0].s == b.args[0].s:
        return eq(a.args[0], b.args[0])
    if a.op == "ite" and b.op == "ite" and a.args[0] is b.args[0]:
        return ite(a.args[0], eq(a.args[1], b.args[1]), eq(a.args[2], b.args[2]))
    if a.op == "concat" and b.op == "concat" and a.args[1].s == b.args[1].s:
        return and_(eq(a.args[0], b.args[0]), eq(a.args[1], b.args[1]))
    if a.id > b.id:
        a, b = b, a
    return _mk("eq", (a, b), None, 0)


def ne(a, b):
    return not_(eq(a, b))


def ult(a, b):
    if a is b:
        return FALSE
    if a.s != b.s:
        raise TypeError("ult width %d vs %d" % (a.s, b.s))
    ra, rb = urange(a), urange(b)
    if ra[1] < rb[0]:
        return TRUE
    if ra[0] >= rb[1]:
        return FALSE
    if isc(b) and b.p == 1:
        return eq(a, bv(0, a.s))
    if isc(a) and a.p == 0:
        return ne(b, bv(0, a.s))
    if a.op == "zext" and b.op == "zext" and a.args[0].s == b.args[0].s:
        return ult(a.args[0], b.args[0])
    if a.op == "zext" and isc(b) and b.p < (1 << a.args[0].s):
        return ult(a.args[0], bv(b.p, a.args[0].s))
    if b.op == "zext" and isc(a) and a.p < (1 << b.args[0].s):
        return ult(bv(a.p, b.args[0].s), b.args[0])
    if isc(b) and a.op == "ite" and (isc(a.args[1]) or isc(a.args[2])):
        return ite(a.args[0], ult(a.args[1], b), ult(a.args[2], b))
    if isc(a) and b.op == "ite" and (isc(b.args[1]) or isc(b.args[2])):
        return ite(b.args[0], ult(a, b.args[1]), ult(a, b.args[2]))
    # x + c < y + c style with ranges known not to wrap
    h = 1 << (a.s - 1)
    if ra[1] < h and rb[1] < h:
        d = sub(a, b)
        rd = srange(d)
        if rd[1] < 0:
            return TRUE
        if rd[0] >= 0:
            return FALSE
        return slt_core(a, b)
    return _mk("ult", (a, b), None, 0)


def slt_core(a, b):
    """both known non-negative (signed) : canonical signed comparison"""
    return _slt_canon(a, b)


def _slt_canon(a, b):
    return _mk("slt", (a, b), None, 0)


def ule(a, b):
    return not_(ult(b, a))


def ugt(a, b):
    return ult(b, a)


def uge(a, b):
    return not_(ult(a, b))


def slt(a, b):
    if a is b:
        return FALSE
    if a.s != b.s:
        raise TypeError("slt width %d vs %d" % (a.s, b.s))
    ra, rb = srange(a), srange(b)
    if ra[1] < rb[0]:
        return TRUE
    if ra[0] >= rb[1]:
        return FALSE
    w = a.s
    if ra[0] >= 0 and isc(b) and sval(b) == 1:
        return eq(a, bv(0, w))
    if rb[0] >= 0 and isc(a) and a.p == 0:
        return ne(b, bv(0, w))
    if a.op == "sext" and b.op == "sext" and a.args[0].s == b.args[0].s:
        return slt(a.args[0], b.args[0])
    if a.op == "zext" and b.op == "zext" and a.args[0].s == b.args[0].s:
        return ult(a.args[0], b.args[0])
    if a.op == "zext" and isc(b) and 0 <= sval(b) < (1 << a.args[0].s):
        return ult(a.args[0], bv(b.p, a.args[0].s))
    if b.op == "zext" and isc(a) and 0 <= sval(a) < (1 << b.args[0].s):
        return ult(bv(a.p, b.args[0].s), b.args[0])
    if a.op == "sext" and isc(b):
        x = a.args[0]
        v = sval(b)
        if -(1 << (x.s - 1)) <= v < (1 << (x.s - 1)):
            return slt(x, bv(v, x.s))
    if b.op == "sext" and isc(a):
        x = b.args[0]
        v = sval(a)
        if -(1 << (x.s - 1)) <= v < (1 << (x.s - 1)):
            return slt(bv(v, x.s), x)
    if isc(b) and a.op == "ite" and (isc(a.args[1]) or isc(a.args[2])):
        return ite(a.args[0], slt(a.args[1], b), slt(a.args[2], b))
    if isc(a) and b.op == "ite" and (isc(b.args[1]) or isc(b.args[2])):
        return ite(b.args[0], slt(a, b.args[1]), slt(a, b.args[2]))
    # difference constant and no wrap
    d = sub(a, b)
    h = 1 << (w - 1)
    if isc(d):
        dv = sval(d)
        lo, hi = rb
        if lo + dv >= -h and hi + dv < h:
            return boolc(dv < 0)
    else:
        # signed range of the exact difference
        c, dd = _linof(d)
        # only valid if both sides do not wrap, which srange(lin) accounts for
        la, lb = _exact(a), _exact(b)
        if la and lb:
            rd = _diff_range(a, b)
            if rd is not None:
                if rd[1] < 0:
                    return TRUE
                if rd[0] >= 0:
                    return FALSE
    # a < b+1 <=> a <= b <=> not(b < a) if no wrap
    if b.op == "lin" and b.p[0] == 1 and rb[0] > -h:
        return not_(slt(_mklin(0, _linof(b)[1], w), a))
    if a.op == "lin" and a.p[0] == (1 << w) - 1 and ra[1] < h - 1:
        return not_(slt(b, _mklin(0, _linof(a)[1], w)))
    return _slt_canon(a, b)


def _exact(t):
    """signed value of t equals the exact integer linear combination"""
    if t.op != "lin":
        return True
    c, d = _linof(t)
    w = t.s
    if w == 1:
        return False
    h = 1 << (w - 1)
    lo = hi = tosigned(c, w)
    for a, k in d.values():
        k = tosigned(k, w)
        r = srange(a)
        if k < 0:
            lo += k * r[1]
            hi += k * r[0]
        else:
            lo += k * r[0]
            hi += k * r[1]
    return -h <= lo and hi < h


def _diff_range(a, b):
    w = a.s
    if w == 1:
        return None
    ca, da = _linof(a)
    cb, db = _linof(b)
    k = {}
    for i, (t, c) in da.items():
        k[i] = [t, tosigned(c, w)]
    for i, (t, c) in db.items():
        if i in k:
            k[i][1] -= tosigned(c, w)
        else:
            k[i] = [t, -tosigned(c, w)]
    lo = hi = tosigned(ca, w) - tosigned(cb, w)
    for t, c in k.values():
        r = srange(t)
        if c < 0:
            lo += c * r[1]
            hi += c * r[0]
        else:
            lo += c * r[0]
            hi += c * r[1]
    return (lo, hi)


def sle(a, b):
    return not_(slt(b, a))


def sgt(a, b):
    return slt(b, a)


def sge(a, b):
    return not_(slt(a, b))


# ---------------------------------------------------------------- width changes
def zext(t, w):
    if t.s == w:
        return t
    if t.s > w:
        raise TypeError("zext %d -> %d" % (t.s, w))
    if isc(t):
        return bv(t.p, w)
    if t.op == "zext":
        return zext(t.args[0], w)
    if t.op == "extract" and t.p[1] == 0 and urange(t.args[0])[1] < 1 << t.s:
        a = t.args[0]
        return a if a.s == w else zext(a, w) if a.s < w else trunc(a, w)
    if t.op == "ite" and (isc(t.args[1]) or isc(t.args[2])):
        return ite(t.args[0], zext(t.args[1], w), zext(t.args[2], w))
    if t.op == "lin":
        # distribute when exact (no wrap in unsigned sense)
        c, d = _linof(t)
        lo = hi = c
        h = 1 << (t.s - 1)
        for v in (c, c - (1 << t.s)):
            lo = hi = v
            for a, k in d.values():
                r = urange(a)
                if k >= h:
                    kk = k - (1 << t.s)
                    lo += kk * r[1]
                    hi += kk * r[0]
                else:
                    lo += k * r[0]
                    hi += k * r[1]
            if lo >= 0 and hi < (1 << t.s):
                return add(bv(v, w), *[scale(zext(a, w), k if k < h else k - (1 << t.s)) for a, k in d.values()])
            if v == c and c < h:
                break
    if t.op == "mul":
        hi = 1
        for a in t.args:
            hi *= urange(a)[1]
        if hi < (1 << t.s):
            r = zext(t.args[0], w)
            for a in t.args[1:]:
                r = mul(r, zext(a, w))
            return r
    return _mk("zext", (t,), None, w)


def sext(t, w):
    if t.s == w:
        return t
    if t.s > w:
        raise TypeError("sext")
    if isc(t):
        return bv(sval(t), w)
    if t.op == "sext":
        return sext(t.args[0], w)
    if t.op == "zext":
        return zext(t.args[0], w)
    if t.op == "ite" and (isc(t.args[1]) or isc(t.args[2])):
        return ite(t.args[0], sext(t.args[1], w), sext(t.args[2], w))
    if t.op == "lin" and _exact(t):
        c, d = _linof(t)
        return add(bv(tosigned(c, t.s), w), *[scale(sext(a, w), tosigned(k, t.s)) for a, k in d.values()])
    if srange(t)[0] >= 0:
        return zext(t, w)
    if t.op == "mul" and len(t.args) == 2:
        a, b = srange(t.args[0]), srange(t.args[1])
        ps = [x * y for x in a for y in b]
        h = 1 << (t.s - 1)
        if -h <= min(ps) and max(ps) < h:
            return mul(sext(t.args[0], w), sext(t.args[1], w))
    return _mk("sext", (t,), None, w)


def extract(hi, lo, t):
    w = hi - lo + 1
    if w == t.s:
        return t
    if isc(t):
        return bv(t.p >> lo, w)
    if t.op == "extract":
        l0 = t.p[1]
        return extract(hi + l0, lo + l0, t.args[0])
    if t.op == "zext":
        x = t.args[0]
        if lo >= x.s:
            return bv(0, w)
        if hi < x.s:
            return extract(hi, lo, x)
        return zext(extract(x.s - 1, lo, x), w)
    if t.op == "sext":
        x = t.args[0]
        if hi < x.s:
            return extract(hi, lo, x)
        if lo == 0:
            return sext(x, w)
    if t.op == "concat":
        a, b = t.args
        if hi < b.s:
            return extract(hi, lo, b)
        if lo >= b.s:
            return extract(hi - b.s, lo - b.s, a)
        return concat(extract(hi - b.s, 0, a), extract(b.s - 1, lo, b))
    if t.op == "ite":
        return ite(t.args[0], extract(hi, lo, t.args[1]), extract(hi, lo, t.args[2]))
    if lo == 0 and t.op == "lin":
        c, d = _linof(t)
        return add(bv(c, w), *[scale(extract(hi, 0, a), k) for a, k in d.values()])
    if lo == 0 and t.op == "mul":
        r = extract(hi, 0, t.args[0])
        for a in t.args[1:]:
            r = mul(r, extract(hi, 0, a))
        return r
    if t.op in ("band", "bor", "bxor"):
        xs = [extract(hi, lo, a) for a in t.args]
        return {"band": band, "bor": bor, "bxor": bxor}[t.op](*xs)
    if urange(t)[1] < (1 << lo):
        return bv(0, w)
    return _mk("extract", (t,), (hi, lo), w)


def trunc(t, w):
    if w == t.s:
        return t
    return extract(w - 1, 0, t)


def concat(a, b):
    w = a.s + b.s
    if isc(a) and isc(b):
        return bv((a.p << b.s) | b.p, w)
    if isc(a) and a.p == 0:
        return zext(b, w)
    if a.op == "extract" and b.op == "extract" and a.args[0] is b.args[0] and a.p[1] == b.p[0] + 1:
        return extract(a.p[0], b.p[1], a.args[0])
    return _mk("concat", (a, b), None, w)


# ---------------------------------------------------------------- bitwise
def band(*ts):
    w = ts[0].s
    c = (1 << w) - 1
    out, seen = _flat("band", ts)
    r = []
    for t in out:
        if isc(t):
            c &= t.p
        else:
            r.append(t)
    if c == 0 or not r:
        return bv(c, w)
    if len(r) == 1:
        t = r[0]
        if c == (1 << w) - 1:
            return t
        u = urange(t)
        if c & (c + 1) == 0:
            if u[1] <= c:
                return t
            k = c.bit_length()
            return zext(extract(k - 1, 0, t), w)
        if c & ((1 << u[1].bit_length()) - 1) == (1 << u[1].bit_length()) - 1:
            return t
        if t.op == "ite" and (isc(t.args[1]) or isc(t.args[2])):
            return ite(t.args[0], band(t.args[1], bv(c, w)), band(t.args[2], bv(c, w)))
    if c != (1 << w) - 1:
        r.append(bv(c, w))
    r.sort(key=lambda t: t.id)
    return _mk("band", tuple(r), None, w)


def bor(*ts):
    w = ts[0].s
    c = 0
    out, seen = _flat("bor", ts)
    r = []
    for t in out:
        if isc(t):
            c |= t.p
        else:
            r.append(t)
    full = (1 << w) - 1
    if c == full or not r:
        return bv(c, w)
    if c:
        r.append(bv(c, w))
    if len(r) == 1:
        return r[0]
    # disjoint bits -> addition (canonical form)
    if len(r) == 2:
        a, b = r
        if _bitmask(a) & _bitmask(b) == 0:
            return add(a, b)
    else:
        ms = [_bitmask(x) for x in r]
        acc = 0
        ok = True
        for m in ms:
            if acc & m:
                ok = False
                break
            acc |= m
        if ok:
            return add(*r)
    r.sort(key=lambda t: t.id)
    return _mk("bor", tuple(r), None, w)


def _bitmask(t, depth=0):
    """over-approximation of the bits that may be set"""
    w = t.s
    full = (1 << w) - 1
    op = t.op
    if op == "c":
        return t.p
    if depth > 12:
        return full
    if op == "zext":
        return _bitmask(t.args[0], depth + 1)
    if op == "ite":
        return _bitmask(t.args[1], depth + 1) | _bitmask(t.args[2], depth + 1)
    if op == "band":
        m = full
        for a in t.args:
            m &= _bitmask(a, depth + 1)
        return m
    if op in ("bor", "bxor"):
        m = 0
        for a in t.args:
            m |= _bitmask(a, depth + 1)
        return m
    if op == "lin":
        c, d = _linof(t)
        ms = [c]
        for a, k in d.values():
            if k & (k - 1) == 0:
                m = _bitmask(a, depth + 1) << (k.bit_length() - 1)
                if m > full:
                    m = full
                ms.append(m)
            else:
                ms.append(full)
        acc = 0
        for m in ms:
            if acc & m:
                acc = None
                break
            acc |= m
        if acc is not None:
            return acc
        # trailing zeros common
        tz = w
        for m in ms:
            if m:
                tz = min(tz, (m & -m).bit_length() - 1)
        return (full >> tz << tz) & ((1 << urange(t)[1].bit_length()) - 1 | 0)
    if op == "shl" and isc(t.args[1]):
        return (_bitmask(t.args[0], depth + 1) << t.args[1].p) & full
    if op == "lshr" and isc(t.args[1]):
        return _bitmask(t.args[0], depth + 1) >> t.args[1].p
    if op == "concat":
        return (_bitmask(t.args[0], depth + 1) << t.args[1].s) | _bitmask(t.args[1], depth + 1)
    if op == "extract":
        return (_bitmask(t.args[0], depth + 1) >> t.p[1]) & full
    return (1 << urange(t)[1].bit_length()) - 1


def bxor(*ts):
    w = ts[0].s
    c = 0
    cnt = {}
    st = list(ts)
    while st:
        t = st.pop()
        if t.op == "bxor":
            st.extend(t.args)
        elif isc(t):
            c ^= t.p
        elif t.id in cnt:
            del cnt[t.id]
        else:
            cnt[t.id] = t
    r = list(cnt.values())
    if not r:
        return bv(c, w)
    if c == (1 << w) - 1:
        return bvnot(bxor(*r) if len(r) > 1 else r[0])
    if c:
        r.append(bv(c, w))
    if len(r) == 1:
        return r[0]
    r.sort(key=lambda t: t.id)
    return _mk("bxor", tuple(r), None, w)


# shifts: amounts have the same width as the value here (engine adapts); result is
# the mathematical Go shift (amount >= w gives 0 / sign fill)
def shl(a, b):
    w = a.s
    if isc(b):
        if b.p >= w:
            return bv(0, w)
        return scale(a, 1 << b.p)
    if isc(a) and a.p == 0:
        return a
    if b.op == "ite" and (isc(b.args[1]) and isc(b.args[2])):
        return ite(b.args[0], shl(a, b.args[1]), shl(a, b.args[2]))
    # small-range shift amounts of a constant/any value: expand to ite chain if few values
    if isc(a) or True:
        lo, hi = urange(b)
        if hi - lo <= 3 and b.op != "c":
            r = shl(a, bv(hi, w))
            for v in range(hi - 1, lo - 1, -1):
                r = ite(eq(b, bv(v, w)), shl(a, bv(v, w)), r)
            return r
    return _mk("shl", (a, b), None, w)


def lshr(a, b):
    w = a.s
    if isc(b):
        k = b.p
        if k == 0:
            return a
        if k >= w:
            return bv(0, w)
        if isc(a):
            return bv(a.p >> k, w)
        return zext(extract(w - 1, k, a), w)
    if isc(a) and a.p == 0:
        return a
    if b.op == "ite" and (isc(b.args[1]) and isc(b.args[2])):
        return ite(b.args[0], lshr(a, b.args[1]), lshr(a, b.args[2]))
    lo, hi = urange(b)
    if hi - lo <= 3:
        r = lshr(a, bv(hi, w))
        for v in range(hi - 1, lo - 1, -1):
            r = ite(eq(b, bv(v, w)), lshr(a, bv(v, w)), r)
        return r
    return _mk("lshr", (a, b), None, w)


def ashr(a, b):
    w = a.s
    if srange(a)[0] >= 0:
        return lshr(a, b)
    if isc(b):
        k = min(b.p, w - 1)
        if k == 0:
            return a
        if isc(a):
            return bv(sval(a) >> k, w)
        if a.op == "sext" and a.args[0].s > k:
            x = a.args[0]
            return sext(extract(x.s - 1, k, x), w)
        if a.op == "ashr" and isc(a.args[1]):
            return ashr(a.args[0], bv(min(w - 1, k + a.args[1].p), w))
        return sext(extract(w - 1, k, a), w)
    if b.op == "ite" and (isc(b.args[1]) and isc(b.args[2])):
        return ite(b.args[0], ashr(a, b.args[1]), ashr(a, b.args[2]))
    lo, hi = urange(b)
    if hi - lo <= 3:
        r = ashr(a, bv(hi, w))
        for v in range(hi - 1, lo - 1, -1):
            r = ite(eq(b, bv(v, w)), ashr(a, bv(v, w)), r)
        return r
    return _mk("ashr", (a, b), None, w)


def udiv(a, b):
    w = a.s
    if isc(b) and b.p:
        if isc(a):
            return bv(a.p // b.p, w)
        if b.p & (b.p - 1) == 0:
            return lshr(a, bv(b.p.bit_length() - 1, w))
        if urange(a)[1] < b.p:
            return bv(0, w)
    return _mk("udiv", (a, b), None, w)


def urem(a, b):
    w = a.s
    if isc(b) and b.p:
        if isc(a):
            return bv(a.p % b.p, w)
        if b.p & (b.p - 1) == 0:
            return band(a, bv(b.p - 1, w))
        if urange(a)[1] < b.p:
            return a
    return _mk("urem", (a, b), None, w)


def sdiv(a, b):
    w = a.s
    if isc(a) and isc(b) and b.p:
        x, y = sval(a), sval(b)
        q = abs(x) // abs(y)
        return bv(q if (x < 0) == (y < 0) else -q, w)
    if srange(a)[0] >= 0 and srange(b)[0] >= 0:
        return udiv(a, b)
    if isc(b) and b.p == 1:
        return a
    return _mk("sdiv", (a, b), None, w)


def srem(a, b):
    w = a.s
    if isc(a) and isc(b) and b.p:
        x, y = sval(a), sval(b)
        r = abs(x) % abs(y)
        return bv(-r if x < 0 else r, w)
    if srange(a)[0] >= 0 and srange(b)[0] >= 0:
        return urem(a, b)
    return _mk("srem", (a, b), None, w)


# ---------------------------------------------------------------- utilities
def show(t, depth=6):
    if t.op == "c":
        return "%d:%d" % (sval(t) if t.s > 1 else t.p, t.s)
    if t.op in ("true", "false"):
        return t.op
    if t.op == "v":
        return t.p
    if depth == 0:
        return "…"
    if t.op == "lin":
        c, ks = t.p
        parts = []
        for a, k in zip(t.args, ks):
            k = tosigned(k, t.s)
            parts.append(("%d*" % k if k != 1 else "") + show(a, depth - 1))
        if c:
            parts.append(str(tosigned(c, t.s)))
        return "(" + " + ".join(parts) + ")"
    nm = t.op if t.op != "app" else t.p
    if t.op == "extract":
        nm = "extract[%d:%d]" % t.p
    if t.op in ("zext", "sext"):
        nm = "%s%d" % (t.op, t.s)
    return nm + "(" + ", ".join(show(a, depth - 1) for a in t.args) + ")"


_REB = {
    "not": lambda a, p, s: not_(a[0]), "and": lambda a, p, s: and_(a), "or": lambda a, p, s: or_(a),
    "iff": lambda a, p, s: iff(*a), "ite": lambda a, p, s: ite(*a), "eq": lambda a, p, s: eq(*a),
    "ult": lambda a, p, s: ult(*a), "slt": lambda a, p, s: slt(*a), "mul": lambda a, p, s: _mulN(a),
    "zext": lambda a, p, s: zext(a[0], s), "sext": lambda a, p, s: sext(a[0], s),
    "extract": lambda a, p, s: extract(p[0], p[1], a[0]), "concat": lambda a, p, s: concat(*a),
    "band": lambda a, p, s: band(*a), "bor": lambda a, p, s: bor(*a), "bxor": lambda a, p, s: bxor(*a),
    "shl": lambda a, p, s: shl(*a), "lshr": lambda a, p, s: lshr(*a), "ashr": lambda a, p, s: ashr(*a),
    "udiv": lambda a, p, s: udiv(*a), "urem": lambda a, p, s: urem(*a), "sdiv": lambda a, p, s: sdiv(*a),
    "srem": lambda a, p, s: srem(*a), "app": lambda a, p, s: rebuild_app(p, a, s),
    "lin": lambda a, p, s: add(bv(p[0], s), *[scale(x, k) for x, k in zip(a, p[1])]),
}

app_hooks = {}


def rebuild_app(p, a, s):
    h = app_hooks.get(p)
    if h is not None:
        return h(a, s)
    return app(p, a, s)


def _mulN(a):
    r = a[0]
    for x in a[1:]:
        r = mul(r, x)
    return r


def subst(t, m, memo=None):
    """m: {var term: term}"""
    if memo is None:
        memo = {}
    mm = {k.id: v for k, v in m.items()} if not isinstance(m, _IdMap) else m
    return _subst(t, mm, memo)


class _IdMap(dict):
    pass


def _subst(t, m, memo):
    if t.id in m:
        return m[t.id]
    if not t.args:
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    # iterative post-order to avoid deep recursion
    stack = [(t, False)]
    while stack:
        x, done = stack.pop()
        if x.id in memo:
            continue
        if x.id in m:
            memo[x.id] = m[x.id]
            continue
        if not x.args:
            memo[x.id] = x
            continue
        if done:
            na = tuple([memo[a.id] for a in x.args])
            if all(n is o for n, o in zip(na, x.args)):
                memo[x.id] = x
            else:
                memo[x.id] = _REB[x.op](na, x.p, x.s)
        else:
            stack.append((x, True))
            for a in x.args:
                if a.id not in memo:
                    stack.append((a, False))
    return memo[t.id]


def leaves(t, out=None):
    """all variables / apps below t"""
    seen = set()
    st = [t]
    r = []
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "v" or x.op == "app":
            r.append(x)
        st.extend(x.args)
    return r


def contains(t, ids):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        if x.id in ids:
            return True
        seen.add(x.id)
        st.extend(x.args)
    return False


# concrete evaluation -----------------------------------------------------
def evaluate(t, env, appfn=None):
    """env: var name -> int/bool ; appfn(name, argvals, sort)->int"""
    memo = {}
    st = [(t, False)]
    while st:
        x, done = st.pop()
        if x.id in memo:
            continue
        if not done and x.args:
            st.append((x, True))
            for a in x.args:
                st.append((a, False))
            continue
        memo[x.id] = _ev1(x, [memo[a.id] for a in x.args], env, appfn)
    return memo[t.id]


def _ev1(x, a, env, appfn):
    op, s = x.op, x.s
    M = (1 << s) - 1 if s else 1
    if op == "c":
        return x.p
    if op == "true":
        return True
    if op == "false":
        return False
    if op == "v":
        return env(x) if callable(env) else env[x.p]
    if op == "app":
        return appfn(x.p, a, s)
    if op == "not":
        return not a[0]
    if op == "and":
        return all(a)
    if op == "or":
        return any(a)
    if op == "iff" or op == "eq":
        return a[0] == a[1]
    if op == "ite":
        return a[1] if a[0] else a[2]
    if op == "lin":
        return (x.p[0] + sum(k * v for k, v in zip(x.p[1], a))) & M
    if op == "mul":
        r = 1
        for v in a:
            r *= v
        return r & M
    if op == "ult":
        return a[0] < a[1]
    if op == "slt":
        w = x.args[0].s
        return tosigned(a[0], w) < tosigned(a[1], w)
    if op == "zext":
        return a[0]
    if op == "sext":
        return tosigned(a[0], x.args[0].s) & M
    if op == "extract":
        return (a[0] >> x.p[1]) & M
    if op == "concat":
        return (a[0] << x.args[1].s) | a[1]
    if op == "band":
        r = M
        for v in a:
            r &= v
        return r
    if op == "bor":
        r = 0
        for v in a:
            r |= v
        return r
    if op == "bxor":
        r = 0
        for v in a:
            r ^= v
        return r
    if op == "shl":
        return (a[0] << a[1]) & M if a[1] < s else 0
    if op == "lshr":
        return a[0] >> a[1] if a[1] < s else 0
    if op == "ashr":
        return (tosigned(a[0], s) >> min(a[1], s - 1)) & M
    if op == "udiv":
        return a[0] // a[1] if a[1] else M
    if op == "urem":
        return a[0] % a[1] if a[1] else a[0]
    if op in ("sdiv", "srem"):
        u, v = tosigned(a[0], s), tosigned(a[1], s)
        if v == 0:
            return (M if u >= 0 else 1) if op == "sdiv" else a[0]
        q = abs(u) // abs(v)
        if op == "sdiv":
            return (q if (u < 0) == (v < 0) else -q) & M
        r = abs(u) % abs(v)
        return (-r if u < 0 else r) & M
    raise ValueError(op)


# ------------------------------------------------------------------ simplification under literals
def lit_map(lits):
    """substitution that every model of the literals justifies"""
    m = _IdMap()
    st = list(lits)
    while st:
        l = st.pop()
        if l.op == "and":
            st.extend(l.args)
            continue
        if l.op == "not":
            a = l.args[0]
            if a.op == "or":
                st.extend(not_(x) for x in a.args)
                continue
            m[a.id] = FALSE
            continue
        if l.op in ("true", "false"):
            continue
        m[l.id] = TRUE
        if l.op == "eq":
            u, v = l.args
            if isc(v) and not isc(u):
                m[u.id] = v
            elif isc(u) and not isc(v):
                m[v.id] = u
    return m


_under_memo = {}


def under(t, lits):
    """t simplified under the conjunction of lits (equal to t whenever they hold)"""
    if not t.args or not lits:
        return t
    key = tuple(l.id for l in lits)
    ent = _under_memo.get(key)
    if ent is None:
        if len(_under_memo) > 200:
            _under_memo.clear()
        ent = _under_memo[key] = (lit_map(lits), {}, tuple(lits))
    if not ent[0]:
        return t
    return _subst(t, ent[0], ent[1])


# ------------------------------------------------------------------ defined functions
# an app whose name is in _defs abbreviates its body: sound to leave uninterpreted when
# proving, expanded when the uninterpreted query is satisfiable
_defs = {}
_expmemo = {}
_hasdef = {}


def define(name, params, body, level=0):
    """params: variable terms; level: nesting depth shared by the functions of one group"""
    _defs[name] = (tuple(params), body, max(level, 1 + def_level([body])))
    if body.s:
        lo, hi = srange(body)
        ul, uh = urange(body)
        if (ul, uh) != (0, (1 << body.s) - 1):
            set_app_range(name, ul, uh)
        elif (lo, hi) != (-(1 << body.s - 1), (1 << body.s - 1) - 1):
            set_app_srange(name, lo, hi)


def apply_def(name, args):
    b = _defs[name][1]
    if not contains(b, {p.id for p in _defs[name][0]}):
        return b
    return app(name, args, b.s)


# lemmas about defined functions: name -> (parameters, formula over parameters and the application)
lemmas = {}


def lemma_instances(ts):
    out = []
    seen = set()
    st = list(ts)
    while st:
        x = st.pop()
        if x.id in seen or not _lvl(x):
            continue
        seen.add(x.id)
        if x.op == "app" and x.p in lemmas:
            ps, body = lemmas[x.p]
            out.append((x.p, _subst(body, _IdMap({p.id: a for p, a in zip(ps, x.args)}), {})))
        st.extend(x.args)
    return out


def abstract(ts):
    """ts with products (and products scaled by a shift) replaced by fresh variables of the same range:
    if the result is unsatisfiable, so is ts"""
    m = {}
    facts = []
    seen = set()
    st = list(ts)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        hit = x.s and (x.op == "mul" or (x.op in ("lshr", "ashr") and x.args[0].op == "mul"))
        if hit:
            v = var("abs!%d" % x.id, x.s)
            m[x] = v
            lo, hi = urange(x)
            if (lo, hi) != (0, (1 << x.s) - 1):
                facts += [ule(bv(lo, x.s), v), ule(v, bv(hi, x.s))]
            lo, hi = srange(x)
            if (lo, hi) != (-(1 << x.s - 1), (1 << x.s - 1) - 1):
                facts += [sle(bv(lo, x.s), v), sle(v, bv(hi, x.s))]
            continue
        st.extend(x.args)
    if not m:
        return None
    memo = {}
    return [subst(t, m, memo) for t in ts] + facts


def has_defs(t):
    return _lvl(t) > 0


def def_level(ts):
    return max([_lvl(t) for t in ts] + [0])


def _lvl(t):
    """nesting depth of abbreviations in t"""
    st = [(t, False)]
    m = _hasdef
    while st:
        x, done = st.pop()
        if x.id in m:
            continue
        if not x.args:
            m[x.id] = 0
        elif done:
            v = max(m[a.id] for a in x.args)
            if x.op == "app" and x.p in _defs:
                v = max(v, _defs[x.p][2])
            m[x.id] = v
        else:
            st.append((x, True))
            st.extend((a, False) for a in x.args)
    return m[t.id]


def expand(t, level=1):
    """unfold the abbreviations of at least this level"""
    memo = _expmemo.setdefault(level, {})
    st = [(t, False)]
    while st:
        x, done = st.pop()
        if x.id in memo:
            continue
        if not x.args or _lvl(x) < level:
            memo[x.id] = x
            continue
        if not done:
            st.append((x, True))
            st.extend((a, False) for a in x.args)
            continue
        na = tuple([memo[a.id] for a in x.args])
        if x.op == "app" and x.p in _defs and _defs[x.p][2] >= level:
            ps, body, _ = _defs[x.p]
            body = expand(body, level)
            memo[x.id] = _subst(body, _IdMap({p.id: a for p, a in zip(ps, na)}), {})
        else:
            memo[x.id] = _REB[x.op](na, x.p, x.s)
    return memo[t.id]
