"""Closed-form summaries of loops with a symbolic trip count.

The loop body is executed from an arbitrary iteration K.  Registers and heap cells changed by
the body are given closed forms in K (linear induction variables, last values, folds defined by
primitive recursion, arrays written at an index from which the writing iteration can be
computed).  The forms are candidates only: the final pass executes the body once more from the
header state given by the forms at K and the solver must accept that the resulting state is
the forms at K+1 (the loop invariant is inductive), and that the guard holds exactly for K < N."""
import hashlib
import terms as tm
from terms import bv, TRUE, FALSE
from values import *
import values as vl
import engine as en

_n = [0]
MAXK = (1 << 63) - 1


def uid():
    _n[0] += 1
    return _n[0]


JV = [tm.var("J%d!c" % i, 64) for i in range(6)]


class FClosed(FArr):
    """prev overwritten by writes: list of (cond, val) over JV, evaluated in order"""
    __slots__ = ("prev", "writes")

    def __init__(self, prev, writes):
        FArr.__init__(self, prev.nd)
        self.prev, self.writes = prev, writes

    def _get(self, idx):
        m = dict(zip(JV, idx))
        r = self.prev.get(idx)
        for cond, val in self.writes:
            c = tm.subst(cond, m)
            if c is FALSE:
                continue
            r = merge(c, mapv_deep(val, m), r)
        return r


def mapv_deep(v, m):
    memo = {}
    return mapv(v, lambda t: tm.subst(t, m, memo))


class Cannot(Unsupported):
    pass


def run(E, frame, L, ents, spec):
    f = frame.f
    st0 = E.enter(f, L.header, ents)
    if st0 is None:
        return []
    gs = getattr(E, "ghosts", [])
    why = []
    if gs:
        import loops
        objs = modified(E, frame, L, st0, spec)
        pref = [G for G in gs if not getattr(G, "used", False)] + [G for G in gs if getattr(G, "used", False)]
        for G in pref:
            common = {sl[1] for sl in G.order if sl[0] == "h" and sl[1] in st0.heap}
            if objs is not None and {o for o in objs if o in G.heap0} != common:
                continue
            snap = loops.Snapshot(E, frame, [(None, st0)])
            npr = len(E.proved)
            try:
                r = GhostSummary(E, frame, L, en.State(dict(st0.heap), dict(st0.env), st0.pc), spec or {}, G).go()
                G.used = True
                return r
            except Cannot as e:
                why.append(str(e))
                snap.restore(E, frame)
                del E.proved[npr:]
    try:
        return Summary(E, frame, L, st0, spec or {}).go()
    except Cannot as e:
        raise Cannot(" || ".join([str(e)] + why))


def modified(E, frame, L, st0, spec):
    """objects the body may change (one iteration from a generic state), None if unknown"""
    S = Summary(E, frame, L, st0, spec or {})
    try:
        S.reset()
        objs = set()
        for _ in range(6):
            h0, e0, (post, ex, rets) = S.dry(S.K)
            if post is None:
                return None
            for o, v in h0.items():
                if post.heap.get(o) is not v and o in st0.heap:
                    objs.add(o)
            if not S.step(h0, e0, post):
                break
        return objs
    except Cannot:
        return None


class Narrowed(Exception):
    pass


class Summary:
    gmap = {}

    def __init__(self, E, frame, L, st0, spec):
        self.E, self.frame, self.L, self.st0, self.spec = E, frame, L, st0, spec
        self.f = frame.f
        self.name = "%s loop %d" % (self.f.name, L.ordinal)
        self.phis = [i["n"] for i in self.f.blocks[L.header]["ins"] if i["op"] == "Phi"]
        self.base = st0.pc
        self.hi = MAXK
        self.narrowed = False
        self.fresh0 = tm._fresh[0]

    # ---------------------------------------------------------------- passes
    def newk(self):
        self.K = tm.var("k!%d" % uid(), 64, 0, self.hi)

    def reset(self):
        self.newk()
        self.slots = {}          # slot -> v0
        self.closed = {}         # (slot, path) -> term in K
        self.gen = {}            # (slot, path) -> var
        self.whole = {}          # (slot, path) -> value in K (last values)
        self.arr = {}            # (slot, path) -> [nd, H placeholder, v0 farr, writes or None]
        self.famof = {}          # object allocated in the body -> family object
        self.fams = {}
        self.apnd = {}           # (slot, path) -> generic object name (slices rebuilt by append)
        for r in self.phis:
            self.slots[("r", r)] = self.st0.env[r]

    def build(self, slot, v0, K, path=()):
        """header value of a slot at iteration K"""
        key = (slot, path)
        if key in self.gmap:
            return self.gvalue(key, K)
        if key in self.whole:
            return self.at(self.whole[key], K)
        if isinstance(v0, tm.T):
            if key in self.closed:
                return tm.subst(self.closed[key], {self.K: K}) if K is not self.K else self.closed[key]
            if key in self.gen:
                return self.gen[key]
            return v0
        if isinstance(v0, StructV):
            return StructV([self.build(slot, x, K, path + (i,)) for i, x in enumerate(v0.f)])
        if key in self.arr:
            nd, H, base, writes = self.arr[key]
            if writes is None:
                return H
            return FClosed(base, [(tm.and_(tm.ult(k, K), c), self.at(v, None)) for k, c, v in writes])
        if isinstance(v0, ArrV):
            return ArrV([self.build(slot, x, K, path + (i,)) for i, x in enumerate(v0.e)])
        if isinstance(v0, SliceV):
            if key in self.apnd:
                ln = self.build(slot, v0.len, K, path + ("len",))
                return SliceV(self.apnd[key], (), Z64, ln, ln)
            if v0.obj is None:
                return v0
            return SliceV(v0.obj, tuple(self.build(slot, x, K, path + ("p", i)) if self.touched(slot, path + ("p", i)) else x for i, x in enumerate(v0.path)),
                          self.build(slot, v0.off, K, path + ("off",)), self.build(slot, v0.len, K, path + ("len",)),
                          self.build(slot, v0.cap, K, path + ("cap",)))
        if isinstance(v0, Ptr):
            return Ptr(v0.obj, tuple(self.build(slot, x if isinstance(x, tm.T) else bv(x, 64), K, path + ("p", i)) if self.touched(slot, path + ("p", i)) else x for i, x in enumerate(v0.path)))
        return v0

    def touched(self, slot, path):
        return (slot, path) in self.closed or (slot, path) in self.gen

    def at(self, v, K):
        if K is None or K is self.K:
            return v
        return mapv_deep(v, {self.K: K})

    def header(self, K, extra=()):
        heap = dict(self.st0.heap)
        env = dict(self.st0.env)
        for key, go in self.apnd.items():
            heap[go] = self.build(("a", key), self.slots[("a", key)], K)
        for slot, v0 in self.slots.items():
            if slot[0] == "r":
                env[slot[1]] = self.build(slot, v0, K)
            elif slot[0] == "h":
                heap[slot[1]] = self.build(slot, v0, K)
        for fam, content in self.fams.items():
            heap[fam] = content
        return en.State(heap, env, self.base + tuple(extra))

    def body(self, st):
        """one iteration -> (merged back-edge state or None, exits, returns)"""
        E, frame, L, f = self.E, self.frame, self.L, self.f
        nret = len(frame.returns)
        back, ex = E.run_region(frame, L, {L.header: [("gen", st)]})
        rets = frame.returns[nret:]
        del frame.returns[nret:]
        ss = []
        bl = f.blocks[L.header]
        ph = [i for i in bl["ins"] if i["op"] == "Phi"]
        for pred, s in back:
            if FALSE in s.pc:
                continue
            k = bl["p"].index(pred)
            vals = [E.val(p["e"][k], s) for p in ph]
            for p, v in zip(ph, vals):
                s.env[p["n"]] = v
            ss.append(s)
        post = None
        if ss:
            post = ss[0] if len(ss) == 1 else E.merge_states(ss, self.phis)
        return post, [e for e in ex if FALSE not in e[2].pc], [r for r in rets if FALSE not in r[0].pc]

    def dry(self, K, extra=()):
        E = self.E
        nf, nt, no = len(E.facts), getattr(E, "trivial", 0), len(E.obls)
        E.dry += 1
        try:
            st = self.header(K, extra)
            h0 = st.heap.copy()
            e0 = dict(st.env)
            r = self.body(st)
        finally:
            E.dry -= 1
            del E.facts[nf:]
            del E.obls[no:]
            E.trivial = nt
        return h0, e0, r

    # ---------------------------------------------------------------- discovery
    def narrow(self):
        """bound of the iteration counter from a trip count known early"""
        if self.narrowed:
            return False
        N = self.trip()
        if N is None:
            return False
        self.narrowed = True
        hi = tm.urange(N)[1]
        if hi < self.hi:
            self.hi = hi
            return True
        return False

    def go(self):
        for attempt in range(5):
            self.reset()
            try:
                more = self.discover()
            except Narrowed:
                continue
            if not more:
                # the body never comes back: at most one iteration, execute it directly
                return self.single()
            N = self.trip()
            hi = tm.urange(N)[1] if N is not None else MAXK
            if hi < self.hi:
                self.hi = hi
                continue
            break
        return self.final(N)

    def single(self):
        E = self.E
        self.reset()
        self.fams = {}
        st = en.State(dict(self.st0.heap), dict(self.st0.env), self.base)
        back, ex = E.run_region(self.frame, self.L, {self.L.header: [("gen", st)]})
        if back:
            raise Cannot("loop summary of %s: unexpected back edge" % self.name)
        return ex

    def discover(self):
        E = self.E
        self.guard = TRUE
        for it in range(24):
            h0, e0, (post, ex, rets) = self.dry(self.K)
            self.guard = TRUE
            for src, dst, s in ex:
                if src == self.L.header:
                    self.guard = tm.not_(tm.and_(list(s.pc[len(self.base):])))
            if post is None:
                if it == 0:
                    return False
                raise Cannot("loop summary of %s: back edge vanishes" % self.name)
            if self.step(h0, e0, post):
                continue
            if self.narrow():
                raise Narrowed()
            if self.do_arrays(h0, post):
                continue
            if self.do_folds(h0, e0, post):
                continue
            return True
        raise Cannot("loop summary of %s does not stabilise" % self.name)

    def step(self, h0, e0, post):
        ch = False
        for o, v in h0.items():
            w = post.heap.get(o)
            if w is not v and ("h", o) not in self.slots and o in self.st0.heap:
                self.slots[("h", o)] = self.st0.heap[o]
                self.generalise(("h", o), self.st0.heap[o], v, w, ())
                ch = True
        if ch:
            return True
        for slot, v0 in list(self.slots.items()):
            if slot[0] == "r":
                ch |= self.compare(slot, v0, e0[slot[1]], post.env[slot[1]], (), post)
            elif slot[0] == "h":
                ch |= self.compare(slot, v0, h0[slot[1]], post.heap[slot[1]], (), post)
        return ch

    def generalise(self, slot, v0, hv, pv, path):
        """hv: header value, pv: value after the iteration; make what differs generic"""
        if pv is hv:
            return
        key = (slot, path)
        if key in self.gmap:
            return
        if isinstance(v0, tm.T):
            if isinstance(pv, tm.T):
                if pv is not hv and key not in self.gen and key not in self.closed:
                    self.gen[key] = tm.fresh("g", v0.s)
            return
        if isinstance(v0, StructV) and isinstance(pv, StructV):
            for i, x in enumerate(v0.f):
                self.generalise(slot, x, hv.f[i], pv.f[i], path + (i,))
            return
        if isinstance(v0, (ArrV, FArr)):
            self.genarr(key, v0)

    def genarr(self, key, v0):
        base = arr_to_farr(v0) if isinstance(v0, ArrV) else v0
        idx = tuple(tm.fresh("j", 64) for _ in range(base.nd))
        sample = base.get(idx)
        u = uid()
        ok = [True]

        def leafy(v):
            if isinstance(v, tm.T):
                return
            if isinstance(v, (StructV, ArrV)):
                for x in (v.f if isinstance(v, StructV) else v.e):
                    leafy(x)
                return
            ok[0] = False
        leafy(sample)
        if ok[0]:
            def mk(v, path, ix):
                if isinstance(v, tm.T):
                    return tm.app("H!%d%s" % (u, "".join("_%d" % p for p in path)), ix, v.s)
                if isinstance(v, StructV):
                    return StructV([mk(x, path + (i,), ix) for i, x in enumerate(v.f)])
                return ArrV([mk(x, path + (i,), ix) for i, x in enumerate(v.e)])
            H = FBase(base.nd, lambda *ix: mk(sample, (), ix), "H!%d" % u)
        else:
            H = FBase(base.nd, lambda *ix: base.get(ix), "H0!%d" % u)
        self.arr[key] = [base.nd, H, base, None]

    def isgeneric(self, t, allowK=False):
        """does t depend on values of the running iteration?"""
        gv = {v.id for v in self.gen.values()}
        if not allowK:
            gv.add(self.K.id)
        for x in tm.leaves(t):
            if x.id in gv:
                return True
            if x.op == "app" and x.p.startswith("H!"):
                for a in self.arr.values():
                    if a[3] is None and isinstance(a[1], FBase) and x.p.split("_")[0] == a[1].name:
                        return True
            if x.op == "v" and "!" in x.p and x.id != self.K.id and self.freshno(x.p) > self.fresh0 and not x.p.startswith("k!"):
                return True
        return False

    @staticmethod
    def freshno(n):
        try:
            return int(n.rsplit("!", 1)[1])
        except ValueError:
            return -1

    def compare(self, slot, v0, hv, pv, path, post):
        key = (slot, path)
        if key in self.whole or key in self.gmap:
            return False
        if isinstance(v0, tm.T) and isinstance(hv, tm.T) and isinstance(pv, tm.T):
            if key in self.closed:
                return False
            if key not in self.gen:
                if pv is hv:
                    return False
                self.gen[key] = tm.fresh("g", v0.s)
                return True
            g = self.gen[key]
            w = v0.s
            if pv is g:
                self.setclosed(key, v0)
                return True
            if w > 0:
                d = tm.sub(pv, g)
                if not self.isgeneric(d):
                    kk = self.K if w == 64 else tm.trunc(self.K, w) if w < 64 else tm.zext(self.K, w)
                    self.setclosed(key, tm.add(v0, tm.mul(d, kk)))
                    return True
            if not self.isgeneric(pv, allowK=True):
                prev = tm.subst(pv, {self.K: tm.sub(self.K, bv(1, 64))})
                self.setclosed(key, tm.ite(tm.eq(self.K, bv(0, 64)), v0, prev))
                return True
            return False
        if pv is hv:
            return False
        if isinstance(v0, StructV) and isinstance(pv, StructV) and isinstance(hv, StructV):
            ch = False
            for i, x in enumerate(v0.f):
                ch |= self.compare(slot, x, hv.f[i], pv.f[i], path + (i,), post)
            return ch
        if key in self.arr:
            return False
        if isinstance(v0, (ArrV, FArr)) and isinstance(pv, (ArrV, FArr)):
            self.genarr(key, v0)
            return True
        if isinstance(v0, SliceV) and isinstance(pv, SliceV):
            if isinstance(hv, SliceV) and hv.obj == pv.obj and pv.obj is not None and len(hv.path) == len(pv.path):
                ch = False
                ch |= self.compare(slot, v0.off, hv.off, pv.off, path + ("off",), post)
                ch |= self.compare(slot, v0.len, hv.len, pv.len, path + ("len",), post)
                ch |= self.compare(slot, v0.cap, hv.cap, pv.cap, path + ("cap",), post)
                for i, (a, b, c) in enumerate(zip(v0.path, hv.path, pv.path)):
                    a, b, c = [z if isinstance(z, tm.T) else bv(z, 64) for z in (a, b, c)]
                    ch |= self.compare(slot, a, b, c, path + ("p", i), post)
                return ch
            if key in self.apnd:
                # the new backing array must be the old one with elements stored
                ch = self.compare(slot, v0.len, hv.len, pv.len, path + ("len",), post)
                ak = ("a", key)
                if (ak, ()) in self.arr and self.arr[(ak, ())][3] is None:
                    self.apost[key] = pv
                return ch
            if pv.obj is not None and pv.obj not in self.st0.heap and isinstance(post.heap.get(pv.obj), (FArr, ArrV)) and pv.path == () and pv.off is Z64:
                return self.start_append(slot, v0, path)
        if isinstance(pv, (SliceV, Ptr)) and isinstance(v0, (SliceV, Ptr)) or pv is NIL or v0 is NIL:
            objs = [pv.obj] if isinstance(pv, (SliceV, Ptr)) else []
            if all(o is None or o in self.st0.heap for o in objs):
                bad = []
                mapv(pv, lambda t: (bad.append(1) if self.isgeneric(t, True) else None, t)[1])
                if not bad:
                    self.whole[key] = merge(tm.eq(self.K, bv(0, 64)), v0, mapv_deep(pv, {self.K: tm.sub(self.K, bv(1, 64))}))
                    return True
        raise Cannot("loop summary of %s: value %s changes shape (%r -> %r)" % (self.name, slot, hv, pv))

    apost = {}

    def start_append(self, slot, v0, path):
        E = self.E
        key = (slot, path)
        go = "app!%d" % uid()
        self.apnd[key] = go
        self.apost = dict(self.apost)
        if v0.obj is None:
            et = None
            base = FBase(1, lambda i: self.elem_zero(key), "nil")
        else:
            st = self.st0
            base = FBase(1, lambda i: E.elem(st, v0, i), "app0")
        self.slots[("a", key)] = base
        self.genarr((("a", key), ()), base) if v0.obj is not None else self.genarr_typed(key, base)
        return True

    def elem_zero(self, key):
        slot, path = key
        if slot[0] == "r":
            for ins in self.f.blocks[self.L.header]["ins"]:
                if ins.get("n") == slot[1]:
                    t = self.E.p.types[ins["t"]]
                    return self.E.zero(t["e"])
        raise Cannot("loop summary of %s: append to a nil slice in the heap" % self.name)

    def genarr_typed(self, key, base):
        self.genarr((("a", key), ()), base)

    def setclosed(self, key, t):
        self.gen.pop(key, None)
        self.closed[key] = t

    # ---------------------------------------------------------------- arrays
    def do_arrays(self, h0, post):
        ch = False
        for key, a in list(self.arr.items()):
            if a[3] is not None:
                continue
            slot, path = key
            if slot[0] == "a":
                pv = self.apost.get(slot[1])
                if pv is None:
                    raise Cannot("loop summary of %s: appended slice" % self.name)
                content = post.heap[pv.obj]
            else:
                content = post.heap[slot[1]]
                for p in path:
                    content = content.f[p] if isinstance(content, StructV) else content.e[p]
            ws = self.collect(content, a[1])
            out = []
            for cond, val in ws:
                ks, res = self.solve(cond, a[0])
                val = self.resolve(mapv_deep(self.tofam(val, post), {self.K: ks}))
                res = self.resolve_t(res)
                out.append((ks, res, val))
            a[3] = out
            ch = True
        return ch

    def resolve(self, v):
        return mapv(v, self.resolve_t)

    def resolve_t(self, t):
        """reads of an array being written are reads of its value before the loop (candidate)"""
        for _ in range(8):
            m = tm._IdMap()
            for x in tm.leaves(t):
                if x.op != "app" or not x.p.startswith("H!"):
                    continue
                for key, a in self.arr.items():
                    nm = a[1].name
                    if x.p.split("_")[0] == nm:
                        path = [int(p) for p in x.p.split("_")[1:]]
                        v = a[2].get(x.args)
                        for p in path:
                            v = v.f[p] if isinstance(v, StructV) else v.e[p]
                        m[x.id] = v
            if not m:
                return t
            t = tm.subst(t, m)
        raise Cannot("loop summary of %s: nested array reads" % self.name)

    def collect(self, c, H):
        """writes on top of H, in order: list of (cond over JV, value)"""
        if c is H:
            return []
        js = tuple(JV[:c.nd]) if isinstance(c, FArr) else (JV[0],)
        if isinstance(c, FStore):
            return self.collect(c.prev, H) + [(tm.and_([tm.eq(j, x) for j, x in zip(js, c.idx)]), c.val)]
        if isinstance(c, FMap):
            return self.collect(c.prev, H) + [(c.pred(*js), c.val(*js))]
        if isinstance(c, FClosed):
            return self.collect(c.prev, H) + list(c.writes)
        if isinstance(c, FIte):
            a, b = self.collect(c.a, H), self.collect(c.b, H)
            i = 0
            while i < len(a) and i < len(b) and a[i][0] is b[i][0] and a[i][1] is b[i][1]:
                i += 1
            r = a[:i]
            # same location written on both branches
            ra, rb = a[i:], b[i:]
            if len(ra) == 1 and len(rb) == 1 and ra[0][0] is rb[0][0]:
                return r + [(ra[0][0], merge(c.c, ra[0][1], rb[0][1]))]
            n = tm.not_(c.c)
            return r + [(tm.and_(c.c, w), v) for w, v in ra] + [(tm.and_(n, w), v) for w, v in rb]
        raise Cannot("loop summary of %s: array update of unknown form %r" % (self.name, c))

    def lin(self, t):
        """t = rest + coeff*K (64 bit) -> (coeff, rest) or None"""
        c, d = tm._linof(t)
        co = 0
        if self.K.id in d:
            co = d[self.K.id][1]
            rest = tm.sub(t, tm.scale(self.K, co))
        else:
            rest = t
        if tm.contains(rest, {self.K.id}):
            return None
        return tm.tosigned(co, 64), rest

    def solve(self, cond, nd):
        """iteration that writes location JV: (k*, residual condition)"""
        conj = list(cond.args) if cond.op == "and" else [cond]
        K = self.K
        if not tm.contains(cond, {K.id}):
            return tm.sub(K, bv(1, 64)) if False else self.lastk(), cond
        for i, c in enumerate(conj):
            if c.op == "eq" and c.args[0].s == 64:
                l = self.lin(tm.sub(c.args[0], c.args[1]))
                if l is None or l[0] == 0:
                    continue
                co, rest = l           # rest + co*K == 0
                if abs(co) == 1:
                    ks = tm.neg(rest) if co == 1 else rest
                    others = conj[:i] + conj[i + 1:]
                    res = tm.subst(tm.and_(others), {K: ks})
                    return ks, res
                # rest = -co*K
                t = rest if co < 0 else tm.neg(rest)
                a = abs(co)
                ks = tm.udiv(t, bv(a, 64))
                others = conj[:i] + conj[i + 1:]
                res = tm.and_(tm.eq(tm.urem(t, bv(a, 64)), bv(0, 64)), tm.subst(tm.and_(others), {K: ks}))
                return ks, res
        for i, c in enumerate(conj):
            if c.op == "ult" and c.args[0].s == 64 and tm.isc(c.args[1]):
                l = self.lin(c.args[0])
                if l is None or l[0] >= 0 or c.args[1].p > -l[0]:
                    continue
                a = -l[0]
                ks = tm.udiv(l[1], bv(a, 64))
                res = tm.subst(tm.and_(conj), {K: ks})
                return ks, res
        raise Cannot("loop summary of %s: cannot invert the write condition %s" % (self.name, tm.show(cond, 5)))

    def lastk(self):
        raise Cannot("loop summary of %s: the same cell is written in every iteration" % self.name)

    # objects allocated in the body and kept: one family object indexed by the iteration
    def tofam(self, v, post):
        t = type(v)
        if t in (SliceV, Ptr):
            o = v.obj
            if o is None or o in self.st0.heap or o in self.fams or o.startswith("app!") or o.startswith("g:"):
                return v
            if o in self.E.init_state_heap and o not in post.heap:
                return v
            fam, arr = self.famobj(o, post)
            pth = (self.K,) + v.path
            if t is Ptr:
                return Ptr(fam, pth)
            return SliceV(fam, pth, v.off, v.len, v.cap)
        if t is StructV:
            return StructV([self.tofam(x, post) for x in v.f])
        if t is ArrV:
            return ArrV([self.tofam(x, post) for x in v.e])
        if t is IteV:
            return merge(v.c, self.tofam(v.a, post), self.tofam(v.b, post))
        if t is IfaceV:
            return IfaceV(v.dyn, self.tofam(v.val, post))
        return v

    def famobj(self, o, post):
        if o in self.famof:
            return self.famof[o], None
        fam = "fam!%d" % uid()
        self.famof[o] = fam
        content = post.heap[o]
        if isinstance(content, ArrV):
            content = arr_to_farr(content)
        nd = content.nd if isinstance(content, FArr) else 0
        js = tuple(tm.fresh("fj", 64) for _ in range(nd))
        K = self.K
        cell = []

        def fn(k, *idx):
            if not cell:
                raw = content.get(js) if nd else content
                cell.append(self.resolve(self.tofam(raw, post)))
            m = dict(zip(js, idx))
            m[K] = k
            return mapv_deep(cell[0], m)
        # evaluate once now, so that nested families exist before the next pass
        fn(K, *js)
        self.fams[fam] = FBase(1 + nd, fn, fam)
        return fam, None

    # ---------------------------------------------------------------- folds
    def do_folds(self, h0, e0, post):
        if not self.gen:
            return False
        keys = sorted(self.gen, key=str)
        steps, v0s = [], []
        for slot, path in keys:
            pv = post.env[slot[1]] if slot[0] == "r" else post.heap[slot[1]]
            v0 = self.slots[slot]
            for p in path:
                pv, v0 = sub_at(pv, p), sub_at(v0, p)
            steps.append(pv)
            v0s.append(v0)
        # split into dependency-connected components
        gv = {self.gen[k].id: i for i, k in enumerate(keys)}
        deps = []
        for s in steps:
            deps.append({gv[x.id] for x in tm.leaves(s) if x.id in gv})
        todo = set(range(len(keys)))
        ch = False
        while todo:
            # a component closed under dependencies: pick a minimal closure
            best = None
            for i in todo:
                c = {i}
                st = [i]
                while st:
                    a = st.pop()
                    for d in deps[a]:
                        if d not in c:
                            c.add(d)
                            st.append(d)
                if best is None or len(c) < len(best):
                    best = c
            comp = sorted(best)
            self.fold(keys, steps, v0s, comp)
            return True
        return ch

    def fold(self, keys, steps, v0s, comp):
        E = self.E
        K = self.K
        m = {}
        for n, i in enumerate(comp):
            m[self.gen[keys[i]]] = tm.var("fold_in%d" % n, v0s[i].s)
        m[K] = tm.var("fold_k", 64)
        params = []
        for t in [steps[i] for i in comp] + [v0s[i] for i in comp]:
            for x in tm.leaves(t):
                if x.op == "v" and x not in m and "!" in x.p and x not in params:
                    params.append(x)
                if x.op == "app" and x.p.startswith("H!"):
                    raise Cannot("loop summary of %s: recurrence through an array" % self.name)
        for n, x in enumerate(params):
            if not (x.p.startswith("k!") or x.p.startswith("J") or x.p.startswith("j") or self.freshno(x.p) <= self.fresh0):
                raise Cannot("loop summary of %s: recurrence over an unspecified value %s" % (self.name, x.p))
            m[x] = tm.var("fold_p%d_%d" % (n, x.s), x.s)
        ce = [tm.subst(steps[i], m) for i in comp]
        cv = [tm.subst(v0s[i], m) for i in comp]
        sig = ",".join("%d" % t.id for t in ce + cv)
        apps = []
        for n, i in enumerate(comp):
            nm = "fold{%s}.%d" % (sig, n)
            apps.append(lambda k, nm=nm, s=v0s[i].s: tm.app(nm, (k,) + tuple(params), s))
        for n, i in enumerate(comp):
            self.setclosed(keys[i], apps[n](K))
        self.folds.append((comp, [keys[i] for i in comp], apps, [(tm.subst(v0s[i], {})) for i in comp], ce, m, params))

    @property
    def folds(self):
        if not hasattr(self, "_folds") or self._foldk is not self.K:
            self._folds, self._foldk = [], self.K
        return self._folds

    def fold_facts(self, K):
        """S(0)=v0, S(K+1)=e(S(K),K)"""
        out = []
        for comp, keys, apps, v0s, ce, m, params in self.folds:
            back = {}
            for n in range(len(comp)):
                back[tm.var("fold_in%d" % n, v0s[n].s)] = apps[n](K)
            back[tm.var("fold_k", 64)] = K
            for n, x in enumerate(params):
                back[tm.var("fold_p%d_%d" % (n, x.s), x.s)] = x
            for n in range(len(comp)):
                e = tm.subst(ce[n], back)
                out.append(same(apps[n](tm.add(K, bv(1, 64))), e))
                out.append(same(apps[n](bv(0, 64)), v0s[n]))
        return out

    # ---------------------------------------------------------------- trip count
    def trip(self):
        g = self.guard
        K = self.K
        if g is TRUE:
            return None
        if not tm.contains(g, {K.id}):
            return None
        neg = False
        if g.op == "not":
            neg, g = True, g.args[0]
        c0 = tm.subst(self.guard, {K: bv(0, 64)})
        if g.op in ("ult", "slt"):
            p, q = g.args
            d = tm.sub(p, q) if neg else tm.sub(q, p)    # decreases
        elif g.op == "eq":
            if not neg:
                return None
            p, q = g.args
            d = tm.sub(p, q)
        else:
            return None
        w = d.s
        katom = K if w == 64 else tm.trunc(K, w)
        lc, ld = tm._linof(d)
        if katom.id not in ld:
            return None
        co = tm.tosigned(ld[katom.id][1], w)
        if g.op == "eq":
            if co == 1:
                d, co = tm.neg(d), -1
            if co != -1:
                return None
        if co >= 0:
            return None
        s = -co
        d0 = tm.subst(d, {K: bv(0, 64)})
        if tm.contains(d0, {K.id}):
            return None
        z = tm.zext(d0, 64) if w < 64 else d0
        if neg and g.op != "eq":
            n = tm.add(tm.udiv(z, bv(s, 64)) if s > 1 else z, bv(1, 64))
            empty = FALSE
        else:
            n = z if s == 1 else tm.udiv(tm.add(z, bv(s - 1, 64)), bv(s, 64))
            empty = tm.eq(d0, bv(0, w))
        if g.op == "eq":
            return n
        if c0 is TRUE:
            return n
        if c0 is FALSE:
            return bv(0, 64)
        if empty is not FALSE and self.E.valid(self.base, tm.or_(c0, empty), timeout=3.0):
            return n
        if neg and self.E.valid(self.base, c0, timeout=3.0):
            return n
        return tm.ite(c0, n, bv(0, 64))

    # ---------------------------------------------------------------- final pass
    def final(self, N):
        E, L, frame = self.E, self.L, self.frame
        K = self.K
        one = bv(1, 64)
        symN = N
        if N is None:
            N = tm.fresh("trip", 64)
        inb = tm.ule(K, N)
        for fct in self.fold_facts(K):
            E.assume(fct)
        st = self.header(K, (inb,) if inb is not TRUE else ())
        h0 = dict(st.heap)
        post, ex, rets = self.body(st)
        nb = len(self.base)
        normal = [e for e in ex if e[0] == L.header]
        breaks = [e for e in ex if e[0] != L.header]
        check = not E.dry
        if check and symN is not None:
            self.check_guard(inb, N)
        if post is not None and check:
            self.inductive(post, h0, K, inb)
        out = []
        brk = None
        if breaks or rets:
            brk = self.brkvar()
            bc = []
            for lst, ix in ((breaks, 2), (rets, 0)):
                for e in lst:
                    s = e[ix]
                    bc.append(tm.and_(list(s.pc[nb:])))
                    s.pc = self.base + (brk,) + s.pc[nb:]
            B = tm.or_(bc)
            self.check_brk(B, inb, check)
            E.assume(tm.implies(brk, tm.or_(bc)))
            if symN is not None:
                E.assume(tm.implies(brk, tm.ult(K, N)) if all(True for _ in bc) else TRUE)
                nz = tm.ne(N, bv(0, 64))
                E.assume(tm.implies(tm.and_(tm.not_(brk), nz), tm.not_(self.instance(B, tm.sub(N, one)))))
                E.assume(tm.implies(tm.and_(tm.not_(brk), nz), tm.not_(self.instance(B, bv(0, 64)))))
                kp = tm.sub(K, one)
                E.assume(tm.implies(tm.and_(brk, tm.ne(K, bv(0, 64))), tm.not_(self.instance(B, kp))))
            for e in breaks:
                out.append(e)
            frame.returns.extend(rets)
        if self.guard is not TRUE:
            # normal termination: header state at K = N
            lit = tm.not_(self.guard_at(N))
            stn = self.header(N, ((tm.not_(brk),) if brk is not None else ()) + ((lit,) if lit is not TRUE else ()))
            stn.env = dict(stn.env)
            nret = len(frame.returns)
            back, exn = E.run_region(frame, L, {L.header: [("gen", stn)]})
            back = [b for b in back if FALSE not in b[1].pc]
            exn = [e for e in exn if FALSE not in e[2].pc]
            if symN is None:
                E.assume(tm.implies(tm.and_(list(self.base) + ([tm.not_(brk)] if brk is not None else [])), lit))
            good = []
            for src, dst, s in exn:
                if src == L.header:
                    s.pc = tuple(l for l in s.pc if l is not lit)
                    good.append((src, dst, s))
            del frame.returns[nret:]
            if symN is not None and lit is not TRUE:
                E.assume(tm.implies(tm.and_(list(self.base)), lit))
            out.extend(good)
        return out

    def brkvar(self):
        return tm.fresh("brk", 0)

    def check_brk(self, B, inb, check):
        pass

    def check_guard(self, inb, N):
        self.prove((inb,), tm.iff(self.guard, tm.ult(self.K, N)), "the guard holds exactly in the first N iterations")

    def guard_at(self, k):
        return tm.subst(self.guard, {self.K: k})

    def instance(self, t, k):
        """t at iteration k; values chosen inside the body are renamed"""
        m = {self.K: k}
        for x in tm.leaves(t):
            if x.op == "v" and x is not self.K and "!" in x.p and self.freshno(x.p) > self.fresh0 and not x.p.endswith("!c"):
                if x.p.startswith("k!"):
                    lo, hi = tm._ranges.get(x.id, (0, MAXK))
                    m[x] = tm.var("k!%d" % uid(), 64, lo, hi)
                else:
                    m[x] = tm.fresh("i", x.s)
        return tm.subst(t, m)

    def prove(self, extra, goal, what, pc=None):
        E = self.E
        import solver
        pc = list(pc if pc is not None else self.base) + list(extra)
        if goal is TRUE:
            E.trivial = getattr(E, "trivial", 0) + 1
            return
        neg = tm.and_(pc + [tm.not_(goal)])
        if neg is FALSE:
            E.trivial = getattr(E, "trivial", 0) + 1
            return
        r = solver.check([neg] + solver.relevant([neg], E.facts), timeout=E.opt.get("loop_timeout", 15.0))
        if r.status != "unsat":
            raise Cannot("loop invariant of %s not inductive (%s): %s | %s" % (self.name, r.status, what, tm.show(goal, 6)[:400]))
        E.proved.append(("%s: %s" % (self.name, what), r.backend, r.time))

    def inductive(self, post, h0, K, inb):
        E = self.E
        nxt = self.header(tm.add(K, bv(1, 64)))
        import contract
        c = contract.Cmp(E, post, nxt, set(self.st0.heap) | set(self.apnd.values()))
        for slot, v0 in self.slots.items():
            if slot[0] == "r":
                c.eq(post.env[slot[1]], nxt.env[slot[1]], None, "register " + slot[1])
            elif slot[0] == "h":
                c.eq(post.heap[slot[1]], nxt.heap[slot[1]], None, "object " + slot[1])
        for o, v in h0.items():
            if post.heap.get(o) is not v and ("h", o) not in self.slots and o not in self.apnd.values():
                raise Cannot("loop summary of %s: %s is modified" % (self.name, o))
        for nm, g, goal in c.out:
            self.prove((g,) if g is not TRUE else (), goal, "inductive: " + nm, post.pc)


def sub_at(v, p):
    if isinstance(v, StructV):
        return v.f[p]
    if isinstance(v, ArrV):
        return v.e[p]
    if isinstance(v, SliceV):
        return {"len": v.len, "off": v.off, "cap": v.cap}[p]
    raise Cannot("fold over %r" % (v,))


def same(a, b):
    return tm.eq(a, b) if a.s else tm.iff(a, b)


class GhostSummary(Summary):
    """the loop simulates a specification loop (ghost.py)"""

    def __init__(self, E, frame, L, st0, spec, G):
        Summary.__init__(self, E, frame, L, st0, spec)
        self.G = G
        self.assigned = {}
        self.narrowed = True

    def newk(self):
        self.K = self.G.K
        self.hi = MAXK

    def gvalue(self, key, K):
        return self.G.value(self.gmap[key], self.K if K is None else K)

    def reset(self):
        Summary.reset(self)
        self.gmap = dict(self.assigned)
        for sl in self.G.order:
            if sl[0] == "h" and sl[1] in self.st0.heap:
                slot = ("h", sl[1])
                self.slots[slot] = self.st0.heap[sl[1]]
                self.gmap[(slot, sl[2])] = sl

    def go(self):
        self.reset()
        if not self.discover():
            raise Cannot("no iteration to compare with the specification loop")
        for key, sl in self.gmap.items():
            v0 = self.slots[key[0]]
            for p in key[1]:
                v0 = sub_at(v0, p)
            if not self.init_equal(v0, self.G.init[sl]):
                raise Cannot("loop of %s and specification loop start from different states" % self.name)
        return self.final(self.G.N)

    def init_equal(self, a, b):
        import contract
        E = self.E
        if isinstance(a, ArrV) and ghost_is_arr(b):
            a = arr_to_farr(a)
        c = contract.Cmp(E, self.st0, self.st0, set())
        c.eq(a, b, None, "init")
        return all(E.valid(self.base + ((g,) if g is not TRUE else ()), goal, 5.0) for _, g, goal in c.out)

    def trip(self):
        return self.G.N

    def check_guard(self, inb, N):
        if self.G.guard is None:
            Summary.check_guard(self, inb, N)
        else:
            self.prove((inb,), tm.iff(self.guard, self.G.guard), "the guard agrees with the specification loop")

    def brkvar(self):
        return self.G.gerr if self.G.gerr is not FALSE else tm.fresh("brk", 0)

    def check_brk(self, B, inb, check):
        if check:
            self.prove((inb, tm.ult(self.K, self.G.N)), tm.iff(B, self.G.estep), "an iteration fails exactly when that of the specification does")

    def final(self, N):
        r = Summary.final(self, N)
        if self.G.gerr is not FALSE and not self.E.dry and not self.sawbrk:
            self.prove((tm.ult(self.K, N),), tm.not_(self.G.estep), "no iteration fails")
        return r

    @property
    def sawbrk(self):
        return any(n.startswith(self.name) and "fails exactly" in n for n, _, _ in self.E.proved) or self._triv

    _triv = False

    def prove(self, extra, goal, what, pc=None):
        if "fails exactly" in what:
            self._triv = True
        Summary.prove(self, extra, goal, what, pc)

    # ------------------------------------------------ matching of local state
    def free_slots(self):
        u = set(self.gmap.values())
        return [sl for sl in self.G.order if sl not in u]

    def do_folds(self, h0, e0, post):
        if not self.gen:
            return False
        for key in sorted(self.gen, key=str):
            slot, path = key
            v0 = self.slots[slot]
            pv = post.env[slot[1]] if slot[0] == "r" else post.heap[slot[1]]
            for p in path:
                pv, v0 = sub_at(pv, p), sub_at(v0, p)
            cands = []
            for sl in self.free_slots():
                b = self.G.init[sl]
                if isinstance(b, tm.T) and b.s == v0.s and self.init_equal(v0, b):
                    q = tm.subst(pv, {self.gen[key]: self.G.gen(sl, self.K)})
                    if any(g.id in {l.id for l in tm.leaves(q)} for g in self.gen.values()) or self.E.valid(post.pc, same(q, self.G.post[sl]), 5.0):
                        cands.append(sl)
            if cands:
                self.gmap[key] = cands[0]
                del self.gen[key]
                return True
        return Summary.do_folds(self, h0, e0, post)

    def do_arrays(self, h0, post):
        for key, a in list(self.arr.items()):
            if a[3] is not None:
                continue
            for sl in self.free_slots():
                b = self.G.init[sl]
                if ghost_is_arr(b) and (b.nd if isinstance(b, FArr) else 1) == a[0]:
                    try:
                        ok = self.init_equal(a[2], b)
                    except Unsupported:
                        ok = False
                    if ok:
                        self.gmap[key] = sl
                        del self.arr[key]
                        return True
        return Summary.do_arrays(self, h0, post)


def ghost_is_arr(v):
    return isinstance(v, FArr) or isinstance(v, ArrV) and len(v.e) > 24
