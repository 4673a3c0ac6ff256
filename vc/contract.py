"""Contracts: executable specifications written over terms.

A contract gives  inputs(x)  (an arbitrary typed pre-state),  pre(x,*args)  (requires) and
spec(x,*args)  (the strongest postcondition in constructive form: expected results, error
condition and expected heap).  The same text is used in three ways:
  * verification: the real body, executed symbolically from an arbitrary pre-state, must
    agree with spec on every result, the error condition and every pre-existing object;
  * call sites: callers are executed against spec, never against the body (pre is obliged);
  * replay: with constants for the inputs the specification evaluates to constants that are
    compared with what the real compiled function does."""
import random
import terms as tm
from terms import bv, TRUE, FALSE
import floats as fl
import engine as en
import solver
from engine import ERR_NIL, ERR_SOME, State
from values import *


class Reject(Exception):
    """sample outside the precondition"""


def C(v, w=64):
    return v if isinstance(v, tm.T) else bv(int(v), w)


# ------------------------------------------------------------------ bit sources
class BitSrc:
    """The bits behind an abstract BitReader.  window(pos): the 64 bits starting at pos
    (bits past the end are unspecified)."""

    def __init__(self, name, length, bits=None):
        self.name, self.len, self.bits = name, length, bits

    def window(self, pos):
        if self.bits is None:
            return tm.app("bits_" + self.name, (pos,), 64)
        if not tm.isc(pos):
            raise Unsupported("symbolic position in concrete run")
        return bv((self.bits >> pos.p), 64)


MAXLEN = 1 << 40


_templates = {}


class Rd:
    """specification-side view of an abstract bit reader"""

    def __init__(self, x, absv):
        self.x, self.obj, self.src = x, absv.obj, absv.data

    @property
    def pos(self):
        return self.x.s.heap[self.obj].f[0]

    @pos.setter
    def pos(self, p):
        self.x.s.heap[self.obj] = StructV([p])

    def lits(self, when):
        return self.x.s.pc + ((when,) if when is not TRUE else ())

    def at(self, when):
        """the position, simplified under the conditions of this read"""
        return tm.under(self.pos, self.lits(when))

    def u(self, n, when=TRUE, w=64):
        """n bits (n term or int)"""
        x = self.x
        if isinstance(n, int):
            if n == 0:
                return bv(0, w)
            if n > 64:
                x.fail(TRUE, when)
                return bv(0, w)
            pos = self.at(when)
            win = self.src.window(pos)
            v = tm.zext(tm.trunc(win, n), 64) if n < 64 else win
            nn = bv(n, 64)
        else:
            nn = tm.zext(n, 64) if n.s < 64 else n
            nn = tm.under(nn, self.lits(when))
            if tm.isc(nn):
                return self.u(nn.p, when, w)
            x.fail(tm.ugt(nn, bv(64, 64)), when)
            pos = self.at(when)
            win = self.src.window(pos)
            v = tm.band(win, lowmask(nn))
        np = tm.add(pos, nn)
        x.fail(tm.ugt(np, self.src.len), when)
        self.pos = tm.ite(when, np, self.pos)
        v = tm.ite(when, v, bv(0, 64))
        return tm.trunc(v, w) if w < 64 else v

    def bool(self, when=TRUE):
        return tm.eq(self.u(1, when), bv(1, 64))

    def named(self, key, fn, when=TRUE, args=()):
        """fn(x, r, when, *args) -> terms, abbreviated by functions of the position"""
        x = self.x
        if self.src.bits is not None or not x.E.opt.get("opaque", True):
            return fn(x, self, when, *args)
        args = [C(a) if not isinstance(a, tm.T) else a for a in args]
        lits = self.lits(when)
        args = [tm.under(a, lits) for a in args]
        full = "d:%s(%s)%s" % (key, ",".join(str(a.p) if tm.isc(a) else "_%d" % a.s for a in args), self.src.name)
        sym = [a for a in args if not tm.isc(a)]
        tpl = _templates.get(full)
        if tpl is None or tpl[3] is not self.src.len:
            x2 = Ctx(x.E, "sym")
            x2.intpl = True
            p = tm.var("p!" + full, 64, 0, 2 * MAXLEN)
            ps = [tm.var("a%d!%s" % (i, full), a.s) for i, a in enumerate(sym)]
            o = x.E.new_obj(x2.s, StructV([p]), "tpl")
            r2 = Rd(x2, AbsV("BitReader", o, self.src))
            it = iter(ps)
            vals = list(fn(x2, r2, TRUE, *[a if tm.isc(a) else next(it) for a in args]))
            if x2.facts or x2.covers:
                raise Unsupported("facts in a named specification function")
            bodies = vals + [x2.err, r2.pos]
            lv = 1 + tm.def_level(bodies)
            for i, v in enumerate(bodies):
                tm.define("%s.%d" % (full, i), [p] + ps, v, lv)
            # an application that succeeds ends inside the stream
            inside = tm.and_(tm.not_(x2.err), tm.ule(p, self.src.len), tm.ult(self.src.len, r2.pos))
            tpl = _templates[full] = (len(vals), p, ps, self.src.len, solver.check([inside], timeout=3.0).status == "unsat")
        pos = self.at(when)
        aa = [pos] + sym
        n = tpl[0]
        x.fail(tm.apply_def("%s.%d" % (full, n), aa), when)
        vals = []
        for i in range(n):
            v = tm.apply_def("%s.%d" % (full, i), aa)
            vals.append(tm.ite(when, v, bv(0, v.s) if v.s else FALSE))
        end = tm.apply_def("%s.%d" % (full, n + 1), aa)
        if tpl[4] and not x.intpl:
            bad = tm.apply_def("%s.%d" % (full, n), aa)
            x.E.assume(tm.or_(bad, tm.ult(self.src.len, pos), tm.ule(end, self.src.len)))
        self.pos = tm.ite(when, end, self.pos)
        return vals

    def u32(self, c0, u0, c1, u1, c2, u2, c3, u3, when=TRUE):
        """-> 32-bit term"""
        return self.named("u32", lambda x, r, w, *a: [r.u32x(*a, when=w)], when, (c0, u0, c1, u1, c2, u2, c3, u3))[0]

    def enum(self, when=TRUE):
        def f(x, r, w):
            v = r.u32x(0, 0, 1, 0, 2, 4, 18, 6, w)
            x.fail(tm.ugt(v, bv(63, 32)), w)
            return [v]
        return self.named("enum", f, when)[0]

    def u8(self, when=TRUE):
        """-> 64-bit term"""
        return self.named("u8", lambda x, r, w: [r.u8x(w)], when)[0]

    def f16(self, when=TRUE):
        return self.named("f16", lambda x, r, w: [r.f16x(w)], when)[0]

    def u64(self, when=TRUE):
        return self.named("u64", lambda x, r, w: [r.u64x(w)], when)[0]

    def u32x(self, c0, u0, c1, u1, c2, u2, c3, u3, when=TRUE):
        """-> 32-bit term"""
        k = self.u(2, when)
        k0, k1, k2 = [tm.eq(k, bv(i, 64)) for i in range(3)]

        def sel(a, b, c, d, w):
            a, b, c, d = [tm.trunc(C(z), w) for z in (a, b, c, d)]
            return tm.ite(k0, a, tm.ite(k1, b, tm.ite(k2, c, d)))
        n = sel(u0, u1, u2, u3, 64)
        v = self.u(n, when)
        r = tm.add(sel(c0, c1, c2, c3, 32), tm.trunc(v, 32))
        return tm.ite(when, r, bv(0, 32))

    def u8x(self, when=TRUE):
        """-> 64-bit term"""
        b = self.bool(when)
        w2 = tm.and_(when, b)
        n = self.u(3, w2)
        v = self.u(n, w2)
        one = bv(1, 64)
        return tm.ite(w2, tm.ite(tm.eq(n, bv(0, 64)), one, tm.add(v, tm.shl(one, n))), bv(0, 64))

    def f16x(self, when=TRUE):
        v = self.u(16, when)
        r, bad = f16_to_f32(v)
        self.x.fail(bad, when)
        return tm.ite(when, r, bv(0, 32))

    def u64x(self, when=TRUE):
        """positions are base + constant on every alternative"""
        x = self.x
        base = self.at(when)
        L = self.src.len

        def at(off, n):
            win = self.src.window(tm.add(base, bv(off, 64)))
            return tm.zext(tm.trunc(win, n), 64)

        def over(end):
            return tm.ugt(tm.add(base, bv(end, 64)), L)
        k = at(0, 2)
        x.fail(over(2), when)
        w1, w2, w3 = [tm.eq(k, bv(i, 64)) for i in (1, 2, 3)]
        x.fail(over(6), tm.and_(when, w1))
        x.fail(over(10), tm.and_(when, w2))
        x.fail(over(14), tm.and_(when, w3))
        v3 = at(2, 12)
        total = bv(14, 64)
        c = w3
        off = 14
        for sh in range(12, 64, 8):
            nb = 8 if sh < 60 else 4
            x.fail(over(off + 1), tm.and_(when, c))
            total = tm.ite(c, bv(off + 1, 64), total)
            c = tm.and_(c, tm.eq(at(off, 1), bv(1, 64)))
            x.fail(over(off + 1 + nb), tm.and_(when, c))
            total = tm.ite(c, bv(off + 1 + nb, 64), total)
            v3 = tm.ite(c, tm.bor(v3, tm.shl(at(off + 1, nb), bv(sh, 64))), v3)
            off += 1 + nb
        z = bv(0, 64)
        adv = tm.ite(w3, total, tm.ite(w2, bv(10, 64), tm.ite(w1, bv(6, 64), bv(2, 64))))
        self.pos = tm.ite(when, tm.add(base, adv), self.pos)
        v = tm.ite(w1, tm.add(bv(1, 64), at(2, 4)), tm.ite(w2, tm.add(bv(17, 64), at(2, 8)), tm.ite(w3, v3, z)))
        return tm.ite(when, v, z)


def lowmask(n):
    return tm.sub(tm.shl(bv(1, 64), n), bv(1, 64))


def f16_to_f32(v):
    """IEEE half (16 low bits of v) -> (float32 bits, illegal)"""
    m = tm.trunc(v, 10)
    e = tm.extract(14, 10, v)
    s = tm.extract(15, 15, v)
    bad = tm.eq(e, bv(31, 5))
    # subnormal: m * 2^-24 normalised exactly
    mz = tm.eq(m, bv(0, 10))
    m32 = tm.zext(m, 32)
    top = bv(0, 32)
    for i in range(10):
        top = tm.ite(tm.eq(tm.extract(i, i, m), bv(1, 1)), bv(i, 32), top)
    frac = tm.band(tm.shl(m32, tm.sub(bv(23, 32), top)), bv(0x7fffff, 32))
    sub = tm.bor(tm.shl(tm.add(top, bv(127 - 24, 32)), bv(23, 32)), frac)
    sub = tm.ite(mz, bv(0, 32), sub)
    nrm = tm.bor(tm.shl(tm.add(tm.zext(e, 32), bv(112, 32)), bv(23, 32)), tm.shl(m32, bv(13, 32)))
    r = tm.ite(tm.eq(e, bv(0, 5)), sub, nrm)
    return tm.bor(r, tm.shl(tm.zext(s, 32), bv(31, 32))), bad


# ------------------------------------------------------------------ value sources
class Source:
    """concrete input values: random (with boundary bias) or from a solver model"""

    def __init__(self, seed=None, model=None, size=0):
        self.rng = random.Random(seed)
        self.model = model
        self.size = size

    def int(self, name, w, lo, hi, sample=None):
        if self.model is not None:
            v = self.model(name, w)
            if v is not None:
                return v
        r = self.rng
        if sample:
            lo, hi = max(lo, sample[0]), min(hi, sample[1])
        k = r.random()
        span = hi - lo
        if span <= 0:
            return lo
        if k < 0.18:
            return lo + r.randint(0, min(span, 3))
        if k < 0.30:
            return hi - r.randint(0, min(span, 3))
        if k < 0.42 and lo < 0 < hi:
            return max(lo, min(hi, r.randint(-3, 3)))
        if k < 0.62:
            b = r.randint(0, max(1, span.bit_length()))
            v = (1 << b) + r.randint(-2, 2)
            if lo < 0 and r.random() < 0.5:
                v = -v
            return max(lo, min(hi, v))
        if k < 0.8:
            return lo + min(span, int(r.expovariate(1 / 40.0)))
        return r.randint(lo, hi)

    def bits(self, name, n):
        r = self.rng
        k = r.random()
        if k < 0.1:
            return 0
        if k < 0.15:
            return (1 << n) - 1
        v = r.getrandbits(n)
        if k < 0.35:
            v &= r.getrandbits(n)
        elif k < 0.5:
            v |= r.getrandbits(n)
        return v


def abbrev(name, fn, *args, **kw):
    """fn(*args) written as one application of a defined function (expanded by the prover on demand).
    fact(value, *args): a lemma about it, proved once and then available at every application"""
    if all(tm.isc(a) for a in args):
        return fn(*args)
    full = "d:%s(%s)" % (name, ",".join(str(a.s) for a in args))
    if full not in _abbrevs:
        ps = [tm.var("a%d!%s" % (i, full), a.s) for i, a in enumerate(args)]
        tm.define(full, ps, fn(*ps), 1)
        _abbrevs.add(full)
        if kw.get("fact"):
            tm.lemmas[full] = (ps, kw["fact"](tm.apply_def(full, ps), *ps))
    return tm.apply_def(full, list(args))


_abbrevs = set()


class Ctx:
    def __init__(self, E, mode="sym", src=None):
        self.E, self.p, self.mode, self.src = E, E.p, mode, src
        self.s = State({}, {}, ())
        self.err = FALSE
        self.facts = []
        self.named = {}
        self.readers = []
        self.covers = []
        self.case = {}
        self.splitok = {}
        self.intpl = False

    # --- inputs ---------------------------------------------------------------
    def int(self, name, w=32, lo=None, hi=None, signed=None, sample=None):
        """integer input.  lo/hi are part of the precondition"""
        if signed is None:
            signed = lo is not None and lo < 0
        dl, dh = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        l, h = dl if lo is None else lo, dh if hi is None else hi
        if self.mode == "sym":
            self.splitok[name] = (l, h)
            if name in self.case:
                cv = self.case[name]
                if isinstance(cv, tuple):
                    l, h = cv
                    name = "%s~%d" % (name, l)
                else:
                    return bv(cv, w)
            if not signed or l >= 0:
                t = tm.var(name, w, l, h)
            else:
                t = tm.var(name, w)
                if (l, h) != (dl, dh):
                    tm.set_srange(t, l, h)
            self.named[name] = t
            return t
        v = self.src.int(name, w, l, h, sample)
        if signed and v >> (w - 1) and v > 0:
            v -= 1 << w
        if not l <= v <= h:
            raise Reject()
        return bv(v, w)

    def i32(self, name, lo=None, hi=None, sample=None):
        return self.int(name, 32, lo, hi, True, sample)

    def i64(self, name, lo=None, hi=None, sample=None):
        return self.int(name, 64, lo, hi, True, sample)

    def u32(self, name, lo=None, hi=None, sample=None):
        return self.int(name, 32, lo, hi, False, sample)

    def u64(self, name, lo=None, hi=None, sample=None):
        return self.int(name, 64, lo, hi, False, sample)

    def u8(self, name, lo=None, hi=None):
        return self.int(name, 8, lo, hi, False)

    def bool(self, name):
        if self.mode == "sym":
            t = tm.var(name, 0)
            self.named[name] = t
            return t
        return tm.boolc(self.src.int(name, 0, 0, 1))

    def f32(self, name, sample=None):
        if self.mode == "sym":
            t = self.named[name] = tm.var(name, 32)
            return t
        if self.src.model is not None:
            v = self.src.model(name, 32)
            if v is not None:
                return bv(v, 32)
        r = self.src.rng
        k = r.random()
        if k < 0.1:
            x = r.choice([0.0, 1.0, -1.0, 0.5, 2.0])
        elif k < 0.8:
            x = r.uniform(*(sample or (-2, 2)))
        else:
            x = r.uniform(-1, 1) * 2.0 ** r.randint(-20, 20)
        return fl.fconst(x, 32)

    def f64(self, name, sample=None):
        if self.mode == "sym":
            t = self.named[name] = tm.var(name, 64)
            return t
        r = self.src.rng
        return fl.fconst(r.uniform(*(sample or (-2, 2))), 64)

    def require(self, t):
        if t is TRUE:
            return
        if self.mode == "conc":
            if t is FALSE:
                raise Reject()
            if t is not TRUE:
                raise Unsupported("precondition did not evaluate: %s" % tm.show(t))
        self.facts.append(t)

    def tid(self, name):
        return name if isinstance(name, int) else self.p.tid(name)

    def scalar(self, name, tid, idx=None):
        """arbitrary scalar of Go type tid; idx: index terms -> element of an input array"""
        t = self.p.types[tid]
        w = {"int": t.get("w"), "float": t.get("w"), "bool": 0}.get(t["k"])
        if t["name"] == "error":
            return ERR_NIL
        if w is None:
            return self.E.zero(tid)
        if self.mode == "sym":
            if idx is None:
                return tm.var(name, w)
            return tm.app(name, tuple(idx), w)
        nm = name if idx is None else (name, tuple(i.p for i in idx))
        if t["k"] == "float" and self.src.model is None:
            return self.f32(nm) if w == 32 else self.f64(nm)
        if w == 0:
            return tm.boolc(self.src.int(nm, 0, 0, 1))
        if t["k"] == "int" and t["s"]:
            return bv(self.src.int(nm, w, -(1 << (w - 1)), (1 << (w - 1)) - 1), w)
        return bv(self.src.int(nm, w, 0, (1 << w) - 1), w)

    def any(self, name, tid, over=None, idx=None):
        """arbitrary value of a type without pointers (pointers, slices, funcs: over or nil)"""
        tid = self.tid(tid)
        t = self.p.types[tid]
        if t["k"] == "struct":
            fs = []
            for fn, ft in t["f"]:
                if over and fn in over:
                    v = over[fn]
                    if isinstance(v, dict):
                        v = self.any(name + "." + fn, ft, v, idx)
                    fs.append(v)
                else:
                    fs.append(self.any(name + "." + fn, ft, None, idx))
            if over:
                for k in over:
                    if k not in [f[0] for f in t["f"]]:
                        raise Unsupported("type %s has no field %s" % (t["name"], k))
            return StructV(fs)
        if t["k"] == "array":
            return ArrV([self.any("%s.%d" % (name, i), t["e"], None, idx) for i in range(t["n"])])
        if t["k"] in ("int", "float", "bool"):
            return self.scalar(name, tid, idx)
        return self.E.zero(tid)

    def mk(self, tn, **kw):
        """struct value; unnamed fields are zero"""
        tid = self.tid(tn)
        t = self.p.types[tid]
        d = dict(kw)
        r = StructV([d.pop(fn) if fn in d else self.E.zero(ft) for fn, ft in t["f"]])
        if d:
            raise Unsupported("type %s has no fields %s" % (t["name"], list(d)))
        return r

    def alloc(self, v, info="in"):
        return Ptr(self.E.new_obj(self.s, v, info))

    def new(self, tn, **kw):
        return self.alloc(self.mk(tn, **kw), "new")

    def anynew(self, name, tn, **over):
        return self.alloc(self.any(name, tn, over), name)

    def slice(self, name, et, n, fn=None, cap=None, sample=None):
        """arbitrary slice of length n (term); elements fn(i) or arbitrary scalars/structs"""
        et = self.tid(et)
        n = C(n)
        if fn is None:
            def fn(i):
                if sample and self.mode == "conc" and self.src.model is None:
                    w = self.p.types[et]["w"]
                    return bv(self.src.int((name, (i.p,)), w, *sample), w)
                return self.any(name, et, None, (i,))
        if tm.isc(n) and n.p <= 4096:
            o = self.E.new_obj(self.s, ArrV([fn(bv(i, 64)) for i in range(n.p)]), name)
        elif self.mode == "conc":
            raise Reject()
        else:
            o = self.E.new_obj(self.s, FBase(1, fn, name), name)
        return SliceV(o, (), Z64, n, n if cap is None else cap)

    def list(self, vals, info="lst"):
        o = self.E.new_obj(self.s, ArrV(vals), info)
        n = bv(len(vals), 64)
        return SliceV(o, (), Z64, n, n)

    def fslice(self, n, fn, info="fn"):
        """slice of n elements given by fn(index term)"""
        if tm.isc(n) and n.p <= 4096:
            return self.list([fn(bv(i, 64)) for i in range(n.p)], info)
        o = self.E.new_obj(self.s, FBase(1, fn, info), info)
        return SliceV(o, (), Z64, n, n)

    def matrix(self, name, et, h, w, fn=None):
        """h x w matrix ([][]T, rows are distinct slices)"""
        et = self.tid(et)
        h, w = C(h), C(w)
        if fn is None:
            def fn(y, xx):
                return self.any(name, et, None, (y, xx))
        if self.mode == "conc" or (tm.isc(h) and tm.isc(w) and h.p * w.p <= 1024 and h.p <= 64):
            rows = []
            if h.p * w.p > 20000:
                raise Reject()
            for i in range(h.p):
                rows.append(self.list([fn(bv(i, 64), bv(j, 64)) for j in range(w.p)], "%s_r%d" % (name, i)))
            return self.list(rows, name)
        od = self.E.new_obj(self.s, FBase(2, fn, name), name + "_data")
        orow = self.E.new_obj(self.s, FBase(1, lambda y: SliceV(od, (y,), Z64, w, w), name + "_rows"), name + "_rows")
        return SliceV(orow, (), Z64, h, h)

    def fmatrix(self, h, w, fn, info="fm"):
        if tm.isc(h) and tm.isc(w) and h.p * w.p <= 4096 and (self.mode == "conc" or h.p <= 64):
            return self.list([self.list([fn(bv(i, 64), bv(j, 64)) for j in range(w.p)], info) for i in range(h.p)], info)
        od = self.E.new_obj(self.s, FBase(2, fn, info), info + "_data")
        orow = self.E.new_obj(self.s, FBase(1, lambda y: SliceV(od, (y,), Z64, w, w), info + "_rows"), info + "_rows")
        return SliceV(orow, (), Z64, h, h)

    def reader(self, name="r", maxbits=None, aligned=False, sample=(0, 400)):
        """arbitrary bit reader at an arbitrary position"""
        if self.mode == "sym":
            ln = tm.var(name + ".len", 64, 0, MAXLEN)
            pos = tm.var(name + ".pos", 64, 0, MAXLEN)
            self.named[name + ".len"] = ln
            self.named[name + ".pos"] = pos
            self.facts.append(tm.ule(pos, ln))
            self.facts.append(tm.eq(tm.trunc(ln, 3), bv(0, 3)))
            if aligned:
                self.facts.append(tm.eq(tm.trunc(pos, 3), bv(0, 3)))
            src = BitSrc(name, ln)
        elif self.src.model is not None:
            bits, nbits, p = self.src.model.bits(name)
            src = BitSrc(name, bv(nbits, 64), bits)
            pos = bv(p, 64)
        else:
            r = self.src.rng
            n = 8 * r.choice([r.randint(0, 6), r.randint(0, sample[1] // 8), sample[1] // 8, 2 * sample[1] // 8])
            bits = self.src.bits(name, n) if n else 0
            p = min(n, r.choice([0, 0, r.randint(0, 7), r.randint(0, 40)]))
            if aligned:
                p &= ~7
            src = BitSrc(name, bv(n, 64), bits)
            pos = bv(p, 64)
        o = self.E.new_obj(self.s, StructV([pos]), "reader_" + name)
        v = AbsV("BitReader", o, src)
        self.readers.append(v)
        return v

    # --- specification helpers --------------------------------------------------
    def fail(self, c, when=TRUE):
        self.err = tm.or_(self.err, tm.and_(when, c))

    def rd(self, absv):
        if isinstance(absv, IteV):
            raise Unsupported("conditional reader")
        return Rd(self, absv)

    def ref(self, ptr, tn):
        return Ref(self, ptr, self.tid(tn))

    def sref(self, sl, et):
        return SRef(self, sl, self.tid(et))

    def loop(self, n, step, guard=None, **state):
        """n iterations of step(k, s); s has the named scalars, the heap is self.s"""
        import ghost
        return ghost.loop(self, n, step, guard, state)

    def cover(self, t, name):
        self.covers.append((name, t))


class Ref:
    """typed view of a struct in the heap of the context"""

    def __init__(self, x, ptr, tid):
        object.__setattr__(self, "_x", x)
        object.__setattr__(self, "_p", ptr)
        object.__setattr__(self, "_t", tid)

    def _field(self, n):
        fs = self._x.p.types[self._t]["f"]
        for i, f in enumerate(fs):
            if f[0] == n:
                return i, f[1]
        raise Unsupported("type %s has no field %s" % (self._x.p.types[self._t]["name"], n))

    def _at(self, i):
        return self._x.E.addr(self._x.s, self._p, i, "spec")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        i, ft = self._field(n)
        x = self._x
        return view(x, x.E.load(x.s, self._at(i)), ft, self._at(i))

    def __setattr__(self, n, v):
        i, ft = self._field(n)
        x = self._x
        if isinstance(v, (Ref, SRef)):
            v = v._raw()
        x.E.store(x.s, self._at(i), v)

    def _raw(self):
        return self._p

    def _val(self):
        return self._x.E.load(self._x.s, self._p)

    def _raws(self, n):
        i, ft = self._field(n)
        return self._x.E.load(self._x.s, self._at(i))


def view(x, v, tid, at=None):
    t = x.p.types[tid]
    k = t["k"]
    if k == "struct" and at is not None:
        return Ref(x, at, tid)
    if k == "ptr" and x.p.types[t["e"]]["k"] == "struct":
        return Ref(x, v, t["e"])
    if k == "slice":
        return SRef(x, v, t["e"])
    if k == "array" and at is not None:
        return ARef(x, at, t["e"], t["n"])
    return v


class SRef:
    def __init__(self, x, sl, et):
        self.x, self.sl, self.et = x, sl, et

    @property
    def len(self):
        return self.x.E.vlen(self.sl)

    def _raw(self):
        return self.sl

    def __getitem__(self, i):
        i = C(i)
        v = self.x.E.elem(self.x.s, self.sl, i)
        at = None
        if isinstance(self.sl, SliceV) and self.sl.obj is not None:
            at = Ptr(self.sl.obj, self.sl.path + (en.cstep(tm.add(self.sl.off, i)),))
        return view(self.x, v, self.et, at)

    def val(self, i):
        return self.x.E.elem(self.x.s, self.sl, C(i))

    def __setitem__(self, i, v):
        i = C(i)
        if isinstance(v, (Ref, SRef)):
            v = v._raw()
        x = self.x
        x.E.store(x.s, Ptr(self.sl.obj, self.sl.path + (en.cstep(tm.add(self.sl.off, i)),)), v)

    def fill(self, n, fn, start=Z64):
        """self[start+i] = fn(i), i < n"""
        x = self.x
        x.E.write_range(x.s, self.sl, C(start), C(n), fn)


class ARef:
    def __init__(self, x, at, et, n):
        self.x, self.at, self.et, self.n = x, at, et, n

    def _p(self, i):
        return Ptr(self.at.obj, self.at.path + (en.cstep(C(i)),))

    def __getitem__(self, i):
        return view(self.x, self.x.E.load(self.x.s, self._p(i)), self.et, self._p(i))

    def __setitem__(self, i, v):
        self.x.E.store(self.x.s, self._p(i), v)


# ------------------------------------------------------------------ contracts
class Contract:
    prop = None          # property id(s)
    func = None          # SSA function name
    opts = {}            # engine options
    uses = ()            # further functions summarised in this proof (all contracts by default)
    inline = ()          # functions executed although they have a contract
    timeout = 20.0
    err_last = True      # last result of type error
    loops = {}           # loop specs: (function, ordinal) -> spec
    no_replay = False
    results_on_err = False
    samples = 300
    no_error_cover = False
    split = {}           # input name -> values / (lo, hi) ranges that together cover its declared range
    sampled = False      # no proof: the contract is only replayed on sampled inputs (then bounded says so)
    bounded = None       # text: stated bound (then never counted as proved)

    def pre(self, x, *a):
        return []

    def inputs(self, x):
        raise NotImplementedError

    def spec(self, x, *a):
        raise NotImplementedError

    def name(self):
        return self.func

    def setup(self, E):
        pass


REG = {}        # func -> contract
ALL = []


def contract(cls):
    c = cls()
    ALL.append(c)
    if c.func and not getattr(c, "variant", None):
        REG.setdefault(c.func, c)
    return cls


def summary_of(c):
    """call-site behaviour of a function under contract"""
    def summ(E, st, args, ins):
        x = Ctx(E, "sym")
        x.s = st
        x.noreg = True
        for nm, t in c.pre(x, *args):
            E.oblige(st, t, "precondition of %s: %s" % (c.func, nm), "pre", ins.get("pos", ""))
        res = c.spec(x, *args)
        for f in x.facts:
            E.assume(f)
        res = [] if res is None else list(res)
        res = [r._raw() if isinstance(r, (Ref, SRef)) else r for r in res]
        if has_err(E, c.func):
            res.append(tm.ite(x.err, ERR_SOME, ERR_NIL))
        return res
    return summ


def signature(p, c):
    """(parameter types, result types) of a contract; with `apply` = n the last n arguments are
    those of the function value the call returns"""
    f = p.func(c.func)
    ps, rs = [q[1] for q in f.params], list(f.results)
    if getattr(c, "apply", None) is not None:
        t = p.types[rs[0]]
        if t["k"] != "func":
            raise Unsupported("%s no longer returns a function" % c.func)
        ps, rs = ps + t["ps"], t["rs"]
    return ps, rs


def fails(p, c):
    rs = signature(p, c)[1]
    return bool(rs) and p.types[rs[-1]]["name"] == "error"


def has_err(E, fn):
    f = E.p.raw.get(fn)
    if f is None or not f["results"]:
        return False
    return E.p.types[f["results"][-1]]["name"] == "error"


# abstract BitReader: each method is the contract proved for *jxlio.BitStreamReader (P01/P02)
def _absread(fn):
    def h(E, st, recv, args, ins):
        x = Ctx(E, "sym")
        x.s = st
        r = fn(x, Rd(x, recv), args)
        return list(r) + [tm.ite(x.err, ERR_SOME, ERR_NIL)]
    return h


def rd_show(x, r, a):
    p = r.pos
    v = r.u(tm.trunc(a[0], 32))
    r.pos = p
    return [v]


def rd_zero(x, r, a):
    rem = tm.zext(tm.trunc(tm.neg(r.pos), 3), 64)
    r.u(rem)
    return []


def rd_skip(x, r, a):
    np = tm.add(r.pos, tm.zext(a[0], 64))
    x.fail(tm.ugt(np, r.src.len))
    r.pos = np
    return []


def rd_skipbytes(x, r, a):
    np = tm.add(r.pos, tm.shl(tm.zext(a[0], 64), bv(3, 64)))
    x.fail(tm.ugt(np, r.src.len))
    r.pos = np
    return [tm.zext(a[0], 64)]


ABS_READER = {
    "ReadBits": lambda x, r, a: [r.u(a[0])],
    "ReadBool": lambda x, r, a: [r.bool()],
    "ReadByte": lambda x, r, a: [r.u(8, w=8)],
    "ReadU32": lambda x, r, a: [r.u32(*a)],
    "ReadU64": lambda x, r, a: [r.u64()],
    "ReadU8": lambda x, r, a: [r.u8()],
    "ReadF16": lambda x, r, a: [r.f16()],
    "ReadEnum": lambda x, r, a: [r.enum()],
    "ShowBits": rd_show,
    "SkipBits": rd_skip,
    "Skip": rd_skipbytes,
    "ZeroPadToByte": rd_zero,
}


def install_reader(E):
    for k, f in ABS_READER.items():
        E.absm[("BitReader", k)] = _absread(f)

    def pos(E_, st, recv, args, ins):
        return [st.heap[recv.obj].f[0]]
    E.absm[("BitReader", "BitsRead")] = pos
    E.absm[("BitReader", "GetBitsCount")] = pos


# ------------------------------------------------------------------ deep comparison
class Cmp:
    """generate equality obligations between two values in two heaps"""

    def __init__(self, E, sa, sb, initial):
        self.E, self.sa, self.sb, self.initial = E, sa, sb, initial
        self.out = []       # (name, guard, goal, fp)
        self.seen = set()

    def eq(self, a, b, tid, name, g=TRUE):
        E = self.E
        if g is FALSE:
            return
        if a is b and not isinstance(a, (Ptr, SliceV, IfaceV)):
            E.trivial = getattr(E, "trivial", 0) + 1
            return
        t = E.p.types[tid] if tid is not None else None
        if isinstance(b, AnyV) or isinstance(a, AnyV):
            return
        if isinstance(a, tm.T) and isinstance(b, tm.T):
            if a.s != b.s:
                self.out.append((name + " (sort)", g, FALSE))
                return
            self.out.append((name, g, tm.eq(a, b) if a.s else tm.iff(a, b)))
            return
        if isinstance(a, IteV):
            self.eq(a.a, b, tid, name, tm.and_(g, a.c))
            self.eq(a.b, b, tid, name, tm.and_(g, tm.not_(a.c)))
            return
        if isinstance(b, IteV):
            self.eq(a, b.a, tid, name, tm.and_(g, b.c))
            self.eq(a, b.b, tid, name, tm.and_(g, tm.not_(b.c)))
            return
        if isinstance(a, StructV) and isinstance(b, StructV):
            for i, (x, y) in enumerate(zip(a.f, b.f)):
                fn, ft = t["f"][i] if t is not None and "f" in t else (str(i), None)
                self.eq(x, y, ft, name + "." + fn, g)
            return
        if isinstance(a, SliceV) and isinstance(b, SliceV):
            if not (a.len is b.len):
                self.out.append((name + ".len", g, tm.eq(a.len, b.len)))
            if b.obj is None or a.obj is None:
                return
            if a.obj == b.obj and a.obj in self.initial:
                # same backing object: contents are compared by the frame check
                for x, y in zip(a.path + (a.off,), b.path + (b.off,)):
                    x = x if isinstance(x, tm.T) else bv(x, 64)
                    y = y if isinstance(y, tm.T) else bv(y, 64)
                    self.out.append((name + ".off", tm.and_(g, tm.ne(b.len, Z64)), tm.eq(x, y)))
                return
            key = ("s", a.obj, b.obj, a.path, b.path, a.off.id, b.off.id, g.id)
            if key in self.seen:
                return
            self.seen.add(key)
            et = t["e"] if t is not None and "e" in t else None
            n = b.len
            if tm.isc(n) and n.p <= 512:
                for i in range(n.p):
                    self.eq(E.elem(self.sa, a, bv(i, 64)), E.elem(self.sb, b, bv(i, 64)), et, "%s[%d]" % (name, i), g)
                return
            i = tm.fresh("ix_" + "".join(c for c in name if c.isalnum())[-12:], 64)
            gi = tm.and_(g, tm.ult(i, n), tm.ult(i, a.len))
            self.eq(E.elem(self.sa, a, i), E.elem(self.sb, b, i), et, name + "[i]", gi)
            return
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj and a.obj in self.initial:
                if len(a.path) == len(b.path):
                    gl = []
                    for x, y in zip(a.path, b.path):
                        gl.append(tm.eq(x if isinstance(x, tm.T) else bv(x, 64), y if isinstance(y, tm.T) else bv(y, 64)))
                    self.out.append((name + " (pointer)", g, tm.and_(gl)))
                else:
                    self.out.append((name + " (pointer)", g, FALSE))
                return
            if a.obj in self.initial or b.obj in self.initial:
                self.out.append((name + " (pointer identity)", g, FALSE))
                return
            key = ("p", a.obj, b.obj, a.path, b.path, g.id)
            if key in self.seen:
                return
            self.seen.add(key)
            et = t["e"] if t is not None and "e" in t else None
            self.eq(E.load(self.sa, a), E.load(self.sb, b), et, name + "^", g)
            return
        if isinstance(a, ArrV) and isinstance(b, ArrV) and len(a.e) == len(b.e):
            et = t["e"] if t is not None and "e" in t else None
            for i, (x, y) in enumerate(zip(a.e, b.e)):
                self.eq(x, y, et, "%s[%d]" % (name, i), g)
            return
        if isinstance(a, (FArr, ArrV)) and isinstance(b, (FArr, ArrV)):
            n = len(a.e) if isinstance(a, ArrV) else len(b.e) if isinstance(b, ArrV) else None
            if isinstance(a, ArrV):
                a = arr_to_farr(a)
            if isinstance(b, ArrV):
                b = arr_to_farr(b)
            if n is not None and n <= 512:
                for i in range(n):
                    self.eq(a.get((bv(i, 64),)), b.get((bv(i, 64),)), None, "%s[%d]" % (name, i), g)
                return
            js = tuple(tm.fresh("jx", 64) for _ in range(a.nd))
            if n is not None:
                g = tm.and_(g, tm.ult(js[0], bv(n, 64)))
            self.eq(a.get(js), b.get(js), None, name + "[j]", g)
            return
        if isinstance(a, IfaceV) and isinstance(b, IfaceV):
            if a.dyn != b.dyn:
                self.out.append((name + " (dynamic type)", g, FALSE))
                return
            self.eq(a.val, b.val, a.dyn, name, g)
            return
        if a is NIL and b is NIL:
            return
        if isinstance(a, AbsV) and isinstance(b, AbsV):
            self.out.append((name + " (object)", g, tm.boolc(a.kind == b.kind and a.obj == b.obj)))
            return
        if isinstance(a, FuncV) and isinstance(b, FuncV):
            self.out.append((name + " (function)", g, tm.boolc(a.name == b.name)))
            return
        if isinstance(a, StrV) and isinstance(b, StrV):
            if a.s is not None and b.s is not None or not a.known() or not b.known():
                self.out.append((name, g, tm.boolc(a.s == b.s and a.known())))
                return
            (la, fa), (lb, fb) = a.bytes(), b.bytes()
            self.out.append((name + ".len", g, tm.eq(la, lb)))
            i = tm.fresh("ix_str", 64)
            self.out.append((name + "[i]", tm.and_(g, tm.ult(i, la), tm.ult(i, lb)), tm.eq(fa(i), fb(i))))
            return
        if isinstance(a, MapV) and isinstance(b, MapV) and a.d.keys() == b.d.keys():
            for k in a.d:
                self.eq(a.d[k], b.d[k], t["e"] if t and "e" in t else None, "%s[%s]" % (name, k), g)
            return
        self.out.append((name + " (shape: %s vs %s)" % (type(a).__name__, type(b).__name__), g, FALSE))


class AnyV:
    """specification leaves this value open"""

    def __repr__(self):
        return "any"


ANY = AnyV()
