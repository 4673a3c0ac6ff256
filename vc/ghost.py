"""Loops of specifications.

x.loop(n, step, ...) is the n-fold iteration of step.  Over terms the state after k iterations
is a family of uninterpreted functions of k, named by the text of the step (equal steps from
equal initial states are the same functions, also across callers and callees).  A loop of the
code is matched with a specification loop (loops_closed.GhostSummary) by simulation: equal
initial states, and one iteration of each from equal states gives equal states, the same
continuation and the same error condition."""
import terms as tm
from terms import bv, TRUE, FALSE
from values import *

_sig = {}
_uid = [0]
UNROLL = 40


class NS:
    def __init__(self, d):
        self.__dict__.update(d)


def set_at(v, path, new):
    if not path:
        return new
    if isinstance(v, StructV):
        f = list(v.f)
        f[path[0]] = set_at(f[path[0]], path[1:], new)
        return StructV(f)
    e = list(v.e)
    e[path[0]] = set_at(e[path[0]], path[1:], new)
    return ArrV(e)


def get_at(v, path):
    for p in path:
        v = v.f[p] if isinstance(v, StructV) else v.e[p]
    return v


def gen_value(v, nm, args):
    if isinstance(v, tm.T):
        return tm.app(nm, args, v.s)
    if isinstance(v, StructV):
        return StructV([gen_value(x, "%s.%d" % (nm, i), args) for i, x in enumerate(v.f)])
    if isinstance(v, ArrV):
        return ArrV([gen_value(x, "%s.%d" % (nm, i), args) for i, x in enumerate(v.e)])
    if isinstance(v, StrV):
        return StrV(None, tm.app(nm + ".len", args, 64), FBase(1, lambda i: tm.app(nm + ".b", args + (i,), 8), nm))
    if v is NIL or v is NILSLICE:
        return v
    raise Unsupported("loop state of the form %r" % (v,))


def terms_of(v, out):
    if isinstance(v, StrV):
        n, fn = v.bytes()
        out.append(n)
        out.append(fn(tm.var("jstr", 64)))
    elif isinstance(v, tm.T):
        out.append(v)
    elif isinstance(v, StructV):
        for x in v.f:
            terms_of(x, out)
    elif isinstance(v, ArrV):
        for x in v.e:
            terms_of(x, out)
    elif isinstance(v, FArr):
        terms_of(v.get(tuple(tm.var("jsig%d" % i, 64) for i in range(v.nd))), out)
    elif v is NIL or v is NILSLICE or isinstance(v, (FuncV, Opaque)):
        pass
    elif isinstance(v, IteV):
        out.append(v.c)
        terms_of(v.a, out)
        terms_of(v.b, out)
    else:
        raise Unsupported("loop state of the form %r" % (v,))


def diff(a, b, path, out):
    if a is b:
        return
    if isinstance(a, tm.T) and isinstance(b, tm.T):
        out.append(path)
    elif isinstance(a, StructV) and isinstance(b, StructV):
        for i, (p, q) in enumerate(zip(a.f, b.f)):
            diff(p, q, path + (i,), out)
    elif isinstance(a, ArrV) and isinstance(b, ArrV) and len(a.e) <= 24:
        for i, (p, q) in enumerate(zip(a.e, b.e)):
            diff(p, q, path + (i,), out)
    elif isinstance(a, (FArr, ArrV)) and isinstance(b, (FArr, ArrV)):
        out.append(path)
    elif isinstance(a, StrV) and isinstance(b, StrV):
        out.append(path)
    else:
        raise Unsupported("loop state changes from %r to %r" % (a, b))


class Ghost:
    def value(self, slot, k):
        if k is self.K1:
            return self.post[slot]
        return self.gen(slot, k)

    def gen(self, slot, k):
        nm = "%s.%d" % (self.nm, self.order.index(slot))
        init = self.init[slot]
        if isinstance(init, (FArr, ArrV)) and not (isinstance(init, ArrV) and len(init.e) <= 24):
            fa = arr_to_farr(init) if isinstance(init, ArrV) else init
            key = (slot, k.id)
            r = self.memo.get(key)
            if r is None:
                def fn(*idx):
                    return gen_value(fa.get(idx), nm, (k,) + idx + self.extra)
                r = self.memo[key] = FBase(fa.nd, fn, "ghost")
            return r
        return gen_value(init, nm, (k,) + self.extra)


def is_arr(v):
    return isinstance(v, FArr) or isinstance(v, ArrV) and len(v.e) > 24


def ghost_loop(x, n, step, guard, state):
    E = x.E
    outer_err, heap0 = x.err, dict(x.s.heap)
    names = list(state)
    E.ghosts = getattr(E, "ghosts", [])
    mark = len(E.ghosts)
    hi = (1 << 40) if n is None else tm.urange(n)[1]

    def newk():
        _uid[0] += 1
        return tm.var("k!g%d" % _uid[0], 64, 0, min(hi, (1 << 63) - 1))

    def run(g, K):
        """one step from generic slots"""
        del E.ghosts[mark:]
        x.s.heap = dict(heap0)
        for sl, v in g.items():
            if sl[0] == "h":
                x.s.heap[sl[1]] = set_at(x.s.heap[sl[1]], sl[2], v)
        ns = NS({nm: g.get(("s", nm), state[nm]) for nm in names})
        h = dict(x.s.heap)
        s0 = dict(ns.__dict__)
        x.err = FALSE
        gd = guard(ns) if guard else None
        step(K, ns)
        e = x.err
        new = {}
        for nm in names:
            a, b = s0[nm], getattr(ns, nm)
            if a is not b or ("s", nm) in g:
                new[("s", nm)] = b
        for o, v in h.items():
            w = x.s.heap[o]
            if w is not v:
                ps = []
                diff(v, w, (), ps)
                for p in ps:
                    new[("h", o, p)] = get_at(w, p)
        for sl in g:
            if sl not in new:
                new[sl] = get_at(x.s.heap[sl[1]], sl[2]) if sl[0] == "h" else getattr(ns, sl[1])
        return new, e, gd

    G = Ghost()
    G.memo, G.extra, G.nm = {}, (), "gtmp%d" % len(getattr(E, "gstack", ()))
    E.gstack = getattr(E, "gstack", []) + [G]
    try:
        K = newk()
        init = {}
        while True:
            G.init, G.order, G.memo = init, list(init), {}
            new, e, gd = run({sl: G.gen(sl, K) for sl in init}, K)
            more = [sl for sl in new if sl not in init]
            if not more:
                break
            for sl in more:
                init[sl] = state[sl[1]] if sl[0] == "s" else get_at(heap0[sl[1]], sl[2])
        # canonical text of the step
        ts = []
        for sl in G.order:
            terms_of(new[sl], ts)
        ninit0 = len(ts)
        scal = [init[sl] for sl in G.order if isinstance(init[sl], tm.T)]
        for sl in G.order:
            if not isinstance(init[sl], tm.T):
                terms_of(init[sl], ts)
        ts.append(e)
        if gd is not None:
            ts.append(gd)
        params = []
        seen = set()
        for t in ts:
            for l in tm.leaves(t):
                if l.op == "v" and l is not K and "!" in l.p and l.id not in seen:
                    seen.add(l.id)
                    params.append(l)
        m = {K: tm.var("gk", 64)}
        for i, p in enumerate(params):
            m[p] = tm.var("gp%d_%d" % (i, p.s), p.s)
        memo = {}
        sig = tuple(tm.subst(t, m, memo).id for t in ts) + (tuple((str(sl[0]), sl[2] if sl[0] == "h" else 0) for sl in G.order),)
        G.nm = "gh%d" % _sig.setdefault(sig, len(_sig))
        G.extra = tuple(scal) + tuple(params)
        G.K = newk()
        G.K1 = tm.add(G.K, bv(1, 64))
        G.memo = {}
        new, e, gd = run({sl: G.gen(sl, G.K) for sl in init}, G.K)
        G.post, G.estep, G.guard = new, e, gd
        if G.nm.startswith("gh"):
            for sl in G.order:
                if isinstance(init[sl], tm.T):
                    a = G.gen(sl, bv(0, 64))
                    E.assume(tm.eq(a, init[sl]) if a.s else tm.iff(a, init[sl]))
        if n is None:
            n = tm.app(G.nm + ".trip", G.extra, 64)
            tm.set_app_range(G.nm + ".trip", 0, hi)
            E.assume(tm.not_(subst_k(G, gd, n)))
            E.assume(tm.implies(tm.ult(G.K, n), gd))
        G.N = n
        G.gerr = FALSE if e is FALSE else tm.app(G.nm + ".err", (n,) + G.extra, 0)
        if e is not FALSE:
            z = tm.eq(n, bv(0, 64))
            E.assume(tm.implies(z, tm.not_(G.gerr)))
    finally:
        E.gstack = E.gstack[:-1]
    heap = dict(heap0)
    for sl in G.order:
        if sl[0] == "h":
            heap[sl[1]] = set_at(heap[sl[1]], sl[2], G.gen(sl, n))
    x.s.heap = heap
    x.err = tm.or_(outer_err, G.gerr)
    if getattr(x, "noreg", False):
        del E.ghosts[mark:]
    else:
        G.heap0 = heap0
        E.ghosts.append(G)
    return NS({nm: G.gen(("s", nm), n) if ("s", nm) in init else state[nm] for nm in names})


def subst_k(G, t, k):
    return tm.subst(t, {G.K: k})


def loop(x, n, step, guard=None, state=None):
    state = dict(state or {})
    if x.mode == "conc" or n is not None and tm.isc(n) and n.p <= UNROLL:
        s = NS(state)
        k = 0
        while n is None or k < n.p:
            if guard is not None:
                g = guard(s)
                if g is FALSE:
                    break
                if g is not TRUE:
                    raise Unsupported("loop guard did not evaluate")
            if x.err is TRUE:
                break
            step(bv(k, 64), s)
            k += 1
            if k > 300000:
                raise Unsupported("specification loop too long")
        return s
    return ghost_loop(x, n, step, guard, state)
