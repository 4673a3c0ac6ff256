"""Symbolic execution / verification-condition generation over go/ssa (JSON).

Acyclic code is executed once with guarded state merging; loops are either unrolled
(while the continuation condition is decided or until the solver shows that no further
iteration is possible) or summarised by closed forms / contract invariants whose
inductiveness is itself an obligation."""
import json
import re
import time
import terms as tm
from terms import bv, TRUE, FALSE
import floats as fl
import solver
from values import *

ERR_NIL = bv(0, 16)
ERR_SOME = bv(1, 16)
ERR_EOF = bv(2, 16)


class Loop:
    def __init__(self, header):
        self.header = header
        self.blocks = {header}
        self.parent = None
        self.inner = []
        self.ordinal = None


class Func:
    def __init__(self, j):
        self.name = j["name"]
        self.params = j["params"]
        self.free = j["free"]
        self.results = j["results"]
        self.blocks = {b["i"]: b for b in j["blocks"]}
        self.pos = j.get("pos", "")
        self.pkg = j.get("pkg", "")
        self.syn = j.get("syn")
        self._analyse()

    def _analyse(self):
        bl = self.blocks
        # reverse post-order
        seen = set()
        order = []
        st = [(0, iter(bl[0]["s"]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(bl[s]["s"])))
                    break
            else:
                order.append(b)
                st.pop()
        self.rpo = list(reversed(order))
        idx = {b: i for i, b in enumerate(self.rpo)}
        self.rpoidx = idx
        # dominators
        dom = {0: 0}
        ch = True
        preds = {b: [p for p in bl[b]["p"] if p in idx] for b in self.rpo}
        while ch:
            ch = False
            for b in self.rpo[1:]:
                nd = None
                for p in preds[b]:
                    if p in dom:
                        if nd is None:
                            nd = p
                        else:
                            x, y = p, nd
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = dom[x]
                                while idx[y] > idx[x]:
                                    y = dom[y]
                            nd = x
                if dom.get(b) != nd:
                    dom[b] = nd
                    ch = True
        self.dom = dom

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = dom[b]
        loops = {}
        for b in self.rpo:
            for s in bl[b]["s"]:
                if dominates(s, b):
                    L = loops.setdefault(s, Loop(s))
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in L.blocks:
                            continue
                        L.blocks.add(x)
                        st.extend(preds[x])
                elif idx[s] <= idx[b]:
                    raise Unsupported("irreducible control flow in " + self.name)
        self.loops = loops
        ls = sorted(loops.values(), key=lambda L: len(L.blocks))
        for i, L in enumerate(ls):
            for M in ls[i + 1:]:
                if L.header in M.blocks and L is not M:
                    L.parent = M
                    M.inner.append(L)
                    break
        # loop ordinals in order of header position in RPO
        for i, L in enumerate(sorted(loops.values(), key=lambda L: idx[L.header])):
            L.ordinal = i
        # liveness
        use, dfn, phiuse = {}, {}, {}
        for b in self.rpo:
            u, d = set(), set()
            for ins in bl[b]["ins"]:
                if ins["op"] == "Phi":
                    d.add(ins["n"])
                    for k, e in enumerate(ins["e"]):
                        if e and e["k"] == "r":
                            phiuse.setdefault(bl[b]["p"][k], set()).add(e["n"])
                    continue
                for r in regs_used(ins):
                    if r not in d:
                        u.add(r)
                if "n" in ins:
                    d.add(ins["n"])
            use[b], dfn[b] = u, d
        live = {b: set(use[b]) for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                out = set(phiuse.get(b, ()))
                for s in bl[b]["s"]:
                    out |= live[s]
                n = use[b] | (out - dfn[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = {}
        for b in self.rpo:
            ph = {i["n"] for i in bl[b]["ins"] if i["op"] == "Phi"}
            out = set(phiuse.get(b, ()))
            for s in bl[b]["s"]:
                out |= live[s]
            # registers needed after the phis have been evaluated
            nd = set()
            d = set()
            for ins in bl[b]["ins"]:
                if ins["op"] == "Phi":
                    continue
                for r in regs_used(ins):
                    if r not in d:
                        nd.add(r)
                if "n" in ins:
                    d.add(ins["n"])
            self.live[b] = (nd | (out - d)) | (ph & (nd | out))
        self.livein = live


def regs_used(ins):
    out = []

    def v(x):
        if isinstance(x, dict):
            if x.get("k") == "r":
                out.append(x["n"])
        elif isinstance(x, list):
            for y in x:
                v(y)
    for k in ("x", "y", "i", "v", "lo", "hi", "max", "len", "cap", "recv", "fn", "args", "b", "r", "e"):
        if k in ins:
            v(ins[k])
    return out


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.raw = d["funcs"]
        self._f = {}
        self.methods = d["methods"]
        self.globals = d["globals"]
        self.tn = d["typenames"]
        self._basic = {}
        for i, t in enumerate(self.types):
            self._basic.setdefault(t["name"], i)

    def func(self, name):
        f = self._f.get(name)
        if f is None:
            if name not in self.raw:
                return None
            f = self._f[name] = Func(self.raw[name])
        return f

    def tid(self, name):
        if name in self.tn:
            return self.tn[name]
        if name in self._basic:
            return self._basic[name]
        raise KeyError("type %s not in program" % name)

    def fields(self, tid):
        return [f[0] for f in self.types[tid]["f"]]


class State:
    __slots__ = ("heap", "env", "pc", "dead")

    def __init__(self, heap, env, pc):
        self.heap, self.env, self.pc = heap, env, pc

    def fork(self, lit=None):
        return State(dict(self.heap), dict(self.env), self.pc + ((lit,) if lit is not None else ()))


class Obligation:
    __slots__ = ("name", "kind", "pc", "goal", "pos", "facts", "result", "fp")

    def __init__(self, name, kind, pc, goal, pos, nfacts, fp="uf"):
        self.name, self.kind, self.pc, self.goal, self.pos, self.facts = name, kind, pc, goal, pos, nfacts
        self.result = None
        self.fp = fp


class Engine:
    def __init__(self, prog, **opt):
        self.p = prog
        self.opt = opt
        self.facts = []          # assumptions (preconditions, loop facts)
        self.obls = []
        self.dry = 0
        self.nobj = 0
        self.objinfo = {}
        self.summaries = {}      # function name -> python summary
        self.absm = {}           # (kind, method) -> python
        self.loopspecs = {}      # (function, ordinal) -> spec
        self.depth = 0
        self.used_summaries = set()
        self.inlined = set()
        self.trusted = set()
        self.globals_cache = {}
        self.unroll_limit = opt.get("unroll", 6000)
        self.loopstack = []      # active closed-form loop counters (terms)
        self.assume_log = []
        self.cur_fn = []
        self.loops_done = set()
        self.init_state_heap = {}
        self.deadline = None
        self.split_errors = False
        self.error_returns = []  # path conditions of the error returns (split_errors)
        self.proved = []         # loop invariants proved during generation: (name, back end, time)
        install_intrinsics(self)

    # ------------------------------------------------------------ heap
    def new_obj(self, st, content, info=""):
        self.nobj += 1
        o = "o%d%s" % (self.nobj, ("_" + info) if info else "")
        st.heap[o] = content
        return o

    def zero(self, tid):
        t = self.p.types[tid]
        k = t["k"]
        if k == "int":
            return bv(0, t["w"])
        if k == "bool":
            return FALSE
        if k == "float":
            return bv(0, t["w"])
        if k == "string":
            return StrV("")
        if k == "slice":
            return NILSLICE
        if k == "struct":
            return StructV([self.zero(f[1]) for f in t["f"]])
        if k == "array":
            z = self.zero(t["e"])
            return ArrV([z] * t["n"])
        if k == "iface":
            if t["name"] == "error":
                return ERR_NIL
            return NIL
        if k == "tuple":
            return TupleV([self.zero(e) for e in t["es"]])
        return NIL

    def load_path(self, content, path):
        i = 0
        n = len(path)
        while i < n:
            if isinstance(content, StructV):
                content = content.f[path[i]]
                i += 1
            elif isinstance(content, ArrV):
                s = path[i]
                if isinstance(s, tm.T):
                    content = select_list(content.e, s)
                else:
                    content = content.e[s]
                i += 1
            elif isinstance(content, FArr):
                nd = content.nd
                idx = path[i:i + nd]
                if len(idx) < nd:
                    raise Unsupported("partial index of functional array")
                content = content.get(tuple(x if isinstance(x, tm.T) else bv(x, 64) for x in idx))
                i += nd
            elif isinstance(content, IteV):
                return merge(content.c, self.load_path(content.a, path[i:]), self.load_path(content.b, path[i:]))
            else:
                raise Unsupported("load path through %r" % (content,))
        return content

    def store_path(self, content, path, val):
        if not path:
            return val
        s = path[0]
        if isinstance(content, StructV):
            f = list(content.f)
            f[s] = self.store_path(f[s], path[1:], val)
            return StructV(f)
        if isinstance(content, ArrV):
            e = list(content.e)
            if isinstance(s, tm.T) and tm.isc(s):
                s = s.p
            if isinstance(s, tm.T):
                if len(e) > 300:
                    return self.store_path(arr_to_farr(content), path, val)
                lo, hi = tm.urange(s)
                for k in range(lo, min(len(e), hi + 1)):
                    e[k] = merge(tm.eq(s, bv(k, 64)), self.store_path(e[k], path[1:], val), e[k])
                return ArrV(e)
            if s >= len(e):
                return content  # out of range: reported by the bounds obligation
            e[s] = self.store_path(e[s], path[1:], val)
            return ArrV(e)
        if isinstance(content, FArr):
            nd = content.nd
            idx = tuple(x if isinstance(x, tm.T) else bv(x, 64) for x in path[:nd])
            if len(idx) < nd:
                raise Unsupported("partial store into functional array")
            rest = path[nd:]
            if rest:
                val = self.store_path(content.get(idx), rest, val)
            return FStore(content, idx, val)
        if isinstance(content, IteV):
            return merge(content.c, self.store_path(content.a, path, val), self.store_path(content.b, path, val))
        raise Unsupported("store path through %r" % (content,))

    def load(self, st, ptr, pos=""):
        if isinstance(ptr, IteV):
            ca = self.nonnil(ptr.a)
            cb = self.nonnil(ptr.b)
            if ca is FALSE:
                self.oblige(st, tm.not_(ptr.c), "nil dereference", "panic", pos)
                return self.load(st, ptr.b, pos)
            if cb is FALSE:
                self.oblige(st, ptr.c, "nil dereference", "panic", pos)
                return self.load(st, ptr.a, pos)
            return merge(ptr.c, self.load(st, ptr.a, pos), self.load(st, ptr.b, pos))
        if ptr is NIL:
            self.oblige(st, FALSE, "nil dereference", "panic", pos)
            raise Dead()
        if not isinstance(ptr, Ptr):
            raise Unsupported("load via %r" % (ptr,))
        if ptr.obj not in st.heap:
            self.need_obj(st, ptr.obj)
        return self.load_path(st.heap[ptr.obj], ptr.path)

    def store(self, st, ptr, val, pos=""):
        if isinstance(ptr, IteV):
            if self.nonnil(ptr.a) is FALSE:
                self.oblige(st, tm.not_(ptr.c), "nil dereference", "panic", pos)
                return self.store(st, ptr.b, val, pos)
            if self.nonnil(ptr.b) is FALSE:
                self.oblige(st, ptr.c, "nil dereference", "panic", pos)
                return self.store(st, ptr.a, val, pos)
            h0 = dict(st.heap)
            self.store(st, ptr.a, val, pos)
            ha = st.heap
            st.heap = h0
            self.store(st, ptr.b, val, pos)
            st.heap = self.merge_heap(ptr.c, ha, st.heap)
            return
        if ptr is NIL:
            self.oblige(st, FALSE, "nil dereference", "panic", pos)
            raise Dead()
        if not isinstance(ptr, Ptr):
            raise Unsupported("store via %r" % (ptr,))
        if ptr.obj not in st.heap:
            self.need_obj(st, ptr.obj)
        st.heap[ptr.obj] = self.store_path(st.heap[ptr.obj], ptr.path, val)

    def need_obj(self, st, obj):
        if obj.startswith("g:"):
            st.heap[obj] = self.global_init(obj[2:])
            return
        if obj in self.init_state_heap:
            st.heap[obj] = self.init_state_heap[obj]
            return
        raise Unsupported("unknown object " + obj)

    def nonnil(self, v):
        """Bool term: v is not nil"""
        if v is NIL:
            return FALSE
        if isinstance(v, IteV):
            return tm.ite(v.c, self.nonnil(v.a), self.nonnil(v.b))
        if isinstance(v, SliceV):
            return tm.boolc(v.obj is not None)
        if isinstance(v, tm.T) and v.s == 16:
            return tm.ne(v, ERR_NIL)
        return TRUE

    def merge_heap(self, c, ha, hb):
        out = {}
        for o, v in ha.items():
            w = hb.get(o)
            if w is None:
                out[o] = v
            elif v is w:
                out[o] = v
            else:
                out[o] = merge(c, v, w)
        for o, w in hb.items():
            if o not in ha:
                out[o] = w
        return out

    # ------------------------------------------------------------ states
    def merge_states(self, sts, live):
        """sts: list of State (guards disjoint) -> State"""
        sts = [s for s in sts if FALSE not in s.pc]
        if not sts:
            return None
        while len(sts) > 1:
            # merge the two states with the longest common prefix
            best = None
            for i in range(len(sts) - 1):
                a, b = sts[i].pc, sts[i + 1].pc
                k = 0
                while k < len(a) and k < len(b) and a[k] is b[k]:
                    k += 1
                if best is None or k > best[0]:
                    best = (k, i)
            # consider non adjacent pairs if few
            if len(sts) <= 12:
                for i in range(len(sts)):
                    for j in range(i + 2, len(sts)):
                        a, b = sts[i].pc, sts[j].pc
                        k = 0
                        while k < len(a) and k < len(b) and a[k] is b[k]:
                            k += 1
                        if k > best[0]:
                            best = (k, i, j)
            k, i = best[0], best[1]
            j = best[2] if len(best) > 2 else i + 1
            a, b = sts[i], sts[j]
            ra, rb = a.pc[k:], b.pc[k:]
            if not ra or not rb:
                # overlapping guards: can only happen after assumptions were dropped
                sel = tm.and_(list(ra)) if ra else tm.not_(tm.and_(list(rb)))
            elif tm.not_(ra[0]) is rb[0]:
                sel = ra[0]
            else:
                sel = tm.and_(list(ra))
            rest = tm.or_(tm.and_(list(ra)), tm.and_(list(rb)))
            pc = a.pc[:k] + ((rest,) if rest is not TRUE else ())
            env = {}
            for r in (live if live is not None else a.env):
                if r in a.env and r in b.env:
                    env[r] = merge(sel, a.env[r], b.env[r])
                elif r in a.env:
                    env[r] = a.env[r]
                elif r in b.env:
                    env[r] = b.env[r]
            m = State(self.merge_heap(sel, a.heap, b.heap), env, pc)
            sts = [s for n, s in enumerate(sts) if n not in (i, j)]
            sts.insert(i, m)
        return sts[0]

    # ------------------------------------------------------------ obligations
    def oblige(self, st, goal, name, kind="post", pos="", fp=None):
        if self.dry:
            return
        if goal is TRUE:
            self.trivial = getattr(self, "trivial", 0) + 1
            return
        if any(l is goal for l in st.pc):
            self.trivial = getattr(self, "trivial", 0) + 1
            return
        fn = self.cur_fn[-1] if self.cur_fn else ""
        self.obls.append(Obligation("%s: %s" % (fn, name) if kind == "panic" else name, kind, st.pc, goal, pos,
                                    len(self.facts), fp or self.opt.get("fp", "uf")))
        if kind == "panic":
            f = tm.implies(tm.and_(list(st.pc)), goal)
            if f is not FALSE and f is not TRUE:
                self.facts.append(f)

    def assume(self, t, why=""):
        if t is not TRUE:
            self.facts.append(t)

    def feasible(self, pc, extra=TRUE, timeout=5.0):
        """solver check: is pc & facts & extra satisfiable (unknown counts as feasible)"""
        c = tm.and_(list(pc) + [extra])
        if c is FALSE:
            return False
        r = solver.check([c] + solver.relevant([c], self.facts), timeout=timeout)
        return r.status != "unsat"

    def valid(self, pc, goal, timeout=5.0):
        if goal is TRUE:
            return True
        return not self.feasible(pc, tm.not_(goal), timeout)

    # ------------------------------------------------------------ values
    def const(self, c):
        v = c.get("_v")
        if v is not None:
            return v
        t = self.p.types[c["t"]]
        k = t["k"]
        x = c["v"]
        if x is None:
            v = self.zero(c["t"])
        elif k == "int":
            v = bv(int(x), t["w"])
        elif k == "bool":
            v = tm.boolc(x)
        elif k == "float":
            v = bv(int(x), t["w"])
        elif k == "string":
            v = StrV(x.encode("utf-8").decode("latin-1"))
        else:
            raise Unsupported("constant of type " + t["name"])
        c["_v"] = v
        return v

    def val(self, x, st):
        k = x["k"]
        if k == "r":
            try:
                return st.env[x["n"]]
            except KeyError:
                raise Unsupported("register %s undefined in %s" % (x["n"], self.cur_fn[-1]))
        if k == "c":
            return self.const(x)
        if k == "f":
            return FuncV(x["n"])
        if k == "b":
            return FuncV("builtin:" + x["n"])
        if k == "g":
            return Ptr("g:" + x["n"])
        raise Unsupported("value kind " + k)

    # ------------------------------------------------------------ globals
    def global_init(self, name):
        """value of a package-level variable after package initialisation (evaluated by
        executing the package's init code); trusted to be unmodified afterwards -
        checked mechanically by immutable_globals()"""
        if name in self.globals_cache:
            return self.globals_cache[name]
        if name == "io.EOF":
            return ERR_EOF
        if name == "io.ErrUnexpectedEOF":
            return bv(3, 16)
        if name.startswith("encoding/binary."):
            return StructV([])
        if name not in self.p.globals:
            raise Unsupported("external global " + name)
        pkg = name.rsplit(".", 1)[0]
        # slice the init function: execute it once per package, lazily
        self.run_init(pkg)
        if name not in self.globals_cache:
            raise Unsupported("global %s not initialised" % name)
        return self.globals_cache[name]

    def run_init(self, pkg):
        f = self.p.func(pkg + ".init")
        done = {g: self.zero(t) for g, t in self.p.globals.items() if g.rsplit(".", 1)[0] == pkg}
        for g, v in done.items():
            self.globals_cache.setdefault(g, v)
        if f is None:
            return
        st = State({"g:" + g: v for g, v in done.items()}, {}, ())
        saved = (self.dry, self.cur_fn, self.loopspecs, self.summaries)
        self.dry += 1
        self.cur_fn = self.cur_fn + [pkg + ".init"]
        ig = pkg + ".init$guard"
        bad = set()
        try:
            # straight-line body; skip calls to other packages' init and failures
            for b in f.rpo:
                for ins in f.blocks[b]["ins"]:
                    if ins["op"] in ("Jump", "If", "Return"):
                        continue
                    try:
                        if ins["op"] == "Call" and ins.get("fn", {}).get("k") == "f" and ins["fn"]["n"].endswith(".init"):
                            continue
                        self.step(f, ins, st)
                    except (Unsupported, Dead, KeyError) as e:
                        if "n" in ins:
                            st.env[ins["n"]] = Opaque(str(e))
                        if ins["op"] == "Store" and ins["x"]["k"] == "g":
                            st.heap["g:" + ins["x"]["n"]] = Opaque(str(e))
        finally:
            self.dry, self.cur_fn = saved[0], saved[1]
        for g in done:
            self.globals_cache[g] = st.heap["g:" + g]
        for o, v in st.heap.items():
            if not o.startswith("g:"):
                self.init_state_heap[o] = v

    # ------------------------------------------------------------ calls
    def call(self, st, fname, args, binds=(), pos=""):
        """execute/inline; returns (state, [results]) or (None, None)"""
        f = self.p.func(fname)
        if f is None:
            raise Unsupported("call of external function " + fname)
        if self.depth > 60:
            raise Unsupported("recursion in " + fname)
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the symbolic execution exceeded")
        self.inlined.add(fname)
        env = {}
        for (n, _), a in zip(f.params, args):
            env[n] = a
        for (n, _), a in zip(f.free, binds):
            env[n] = a
        s = State(dict(st.heap), env, st.pc)
        self.depth += 1
        self.cur_fn.append(fname)
        try:
            frame = Frame(f)
            self.run_region(frame, None, {0: [(None, s)]})
            n = len(f.results)
            returns = frame.returns
            if self.depth == 1 and self.split_errors and n and self.p.types[f.results[-1]]["name"] == "error":
                returns = self.divide(returns)
            if not returns:
                return None, None
            ss = []
            for rs, vals in returns:
                e = {}
                for i, v in enumerate(vals):
                    e["ret%d" % i] = v
                rs.env = e
                ss.append(rs)
            m = self.merge_states(ss, ["ret%d" % i for i in range(n)])
            if m is None:
                return None, None
            res = [m.env["ret%d" % i] for i in range(n)]
            out = State(m.heap, st.env, m.pc)
            return out, res
        finally:
            self.depth -= 1
            self.cur_fn.pop()

    def divide(self, returns):
        """the error returns of the function under verification are kept apart from the
        normal ones (self.error_returns: path conditions)"""
        normal = []
        for rs, vals in returns:
            code = vals[-1]
            if not isinstance(code, tm.T):
                normal.append((rs, vals))
                continue
            bad = self.decide(tm.under(tm.ne(code, ERR_NIL), rs.pc), rs.pc)
            if bad is not FALSE:
                self.error_returns.append(rs.pc + ((bad,) if bad is not TRUE else ()))
            if bad is not TRUE:
                if bad is not FALSE:
                    rs = State(rs.heap, rs.env, rs.pc + (tm.not_(bad),))
                normal.append((rs, list(vals[:-1]) + [ERR_NIL]))
        return normal

    def run_region(self, frame, loop, pending):
        """process the blocks of the function (loop None) or of one loop body in RPO.
        pending: block -> list of (pred, State).  Returns (backedges, exits)."""
        f = frame.f
        blocks = set(f.rpo) if loop is None else loop.blocks
        inner = [L for L in f.loops.values() if L.parent is loop]
        inhdr = {L.header: L for L in inner}
        inblk = {}
        for L in inner:
            for b in L.blocks:
                inblk[b] = L
        back, exits = [], []
        first = loop.header if loop is not None else 0

        def route(src, dst, s):
            if loop is not None and dst == loop.header:
                back.append((src, s))
            elif dst not in blocks:
                exits.append((src, dst, s))
            else:
                pending.setdefault(dst, []).append((src, s))
        for b in f.rpo:
            if b not in blocks or b not in pending:
                continue
            if b in inhdr and b != (loop.header if loop else None):
                ents = pending.pop(b)
                for (src, dst, s) in self.run_loop(frame, inhdr[b], ents):
                    route(src, dst, s)
                continue
            if b in inblk:
                raise Unsupported("entry into loop body")
            ents = pending.pop(b)
            st = self.enter(f, b, ents)
            if st is None:
                continue
            self.run_block(frame, b, st, route)
        return back, exits

    def enter(self, f, b, ents):
        bl = f.blocks[b]
        ss = []
        phis = [i for i in bl["ins"] if i["op"] == "Phi"]
        for pred, s in ents:
            if phis and pred != "gen":
                k = bl["p"].index(pred)
                vals = [self.val(ph["e"][k], s) for ph in phis]
                for ph, v in zip(phis, vals):
                    s.env[ph["n"]] = v
            ss.append(s)
        if len(ss) == 1:
            return ss[0] if FALSE not in ss[0].pc else None
        return self.merge_states(ss, f.live[b])

    def decide(self, cond, pc):
        if cond is TRUE or cond is FALSE:
            return cond
        n = tm.not_(cond)
        for l in pc:
            if l is cond:
                return TRUE
            if l is n:
                return FALSE
            if l.op == "and":
                for x in l.args:
                    if x is cond:
                        return TRUE
                    if x is n:
                        return FALSE
        return cond

    def run_block(self, frame, b, st, route):
        f = frame.f
        bl = f.blocks[b]
        try:
            for ins in bl["ins"]:
                op = ins["op"]
                if op == "Phi":
                    continue
                if op == "Jump":
                    route(b, bl["s"][0], st)
                    return
                if op == "If":
                    c = self.decide(self.val(ins["x"], st), st.pc)
                    t, e = bl["s"]
                    if c is TRUE:
                        route(b, t, st)
                    elif c is FALSE:
                        route(b, e, st)
                    else:
                        s2 = st.fork(tm.not_(c))
                        st.pc = st.pc + (c,)
                        route(b, t, st)
                        route(b, e, s2)
                    return
                if op == "Return":
                    vals = [self.val(x, st) for x in ins["r"]]
                    frame.returns.append((st, vals))
                    return
                if op == "Panic":
                    self.oblige(st, FALSE, "explicit panic reachable", "panic", ins.get("pos", ""))
                    return
                self.step(f, ins, st)
        except Dead:
            return

    # ------------------------------------------------------------ instructions
    def step(self, f, ins, st):
        op = ins["op"]
        m = getattr(self, "i_" + op, None)
        if m is None:
            raise Unsupported("%s in %s (%s)" % (op, f.name, ins.get("pos", "")))
        r = m(f, ins, st)
        if "n" in ins:
            st.env[ins["n"]] = r

    def i_Alloc(self, f, ins, st):
        t = self.p.types[ins["t"]]
        return Ptr(self.new_obj(st, self.zero(t["e"]), self.p.types[t["e"]].get("named", "")))

    def i_BinOp(self, f, ins, st):
        x = self.val(ins["x"], st)
        y = self.val(ins["y"], st)
        t = self.p.types[ins["xt"]]
        return self.binop(ins["o"], x, y, t, self.p.types[ins["yt"]], st, ins.get("pos", ""))

    def binop(self, o, x, y, t, ty, st, pos):
        k = t["k"]
        if o in ("==", "!="):
            r = self.equal(x, y, t)
            return r if o == "==" else tm.not_(r)
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            raise Unsupported("arithmetic on opaque value")
        if k == "float":
            if o == "+":
                return fl.fadd(x, y)
            if o == "-":
                return fl.fsub(x, y)
            if o == "*":
                return fl.fmul(x, y)
            if o == "/":
                return fl.fdiv(x, y)
            if o == "<":
                return fl.flt(x, y)
            if o == "<=":
                return fl.fle(x, y)
            if o == ">":
                return fl.flt(y, x)
            if o == ">=":
                return fl.fle(y, x)
        if k == "int":
            s = t["s"]
            w = t["w"]
            if o == "+":
                return tm.add(x, y)
            if o == "-":
                return tm.sub(x, y)
            if o == "*":
                return tm.mul(x, y)
            if o in ("/", "%"):
                self.oblige(st, tm.ne(y, bv(0, w)), "division by zero", "panic", pos)
                if o == "/":
                    return tm.sdiv(x, y) if s else tm.udiv(x, y)
                return tm.srem(x, y) if s else tm.urem(x, y)
            if o == "&":
                return tm.band(x, y)
            if o == "|":
                return tm.bor(x, y)
            if o == "^":
                return tm.bxor(x, y)
            if o == "&^":
                return tm.band(x, tm.bvnot(y))
            if o == "<":
                return tm.slt(x, y) if s else tm.ult(x, y)
            if o == "<=":
                return tm.sle(x, y) if s else tm.ule(x, y)
            if o == ">":
                return tm.slt(y, x) if s else tm.ult(y, x)
            if o == ">=":
                return tm.sle(y, x) if s else tm.ule(y, x)
            if o in ("<<", ">>"):
                if ty["s"]:
                    self.oblige(st, tm.sge(y, bv(0, y.s)), "negative shift amount", "panic", pos)
                return self.shift(o, x, y, s)
        if k == "bool":
            if o == "&":
                return tm.and_(x, y)
            if o == "|":
                return tm.or_(x, y)
        raise Unsupported("binop %s on %s" % (o, t["name"]))

    def shift(self, o, x, y, signed):
        w = x.s
        # bring the (non-negative) amount to width w, saturating
        if y.s > w:
            if tm.urange(y)[1] < (1 << w):
                y2 = tm.trunc(y, w)
            else:
                y2 = tm.ite(tm.ult(y, bv(w, y.s)), tm.trunc(y, w), bv(w, w))
        else:
            y2 = tm.zext(y, w)
        if o == "<<":
            return tm.shl(x, y2)
        return tm.ashr(x, y2) if signed else tm.lshr(x, y2)

    def equal(self, x, y, t=None):
        if isinstance(x, tm.T) and isinstance(y, tm.T):
            if t is not None and t["k"] == "float":
                return fl.feq(x, y)
            return tm.eq(x, y)
        if isinstance(x, IteV):
            return tm.ite(x.c, self.equal(x.a, y, t), self.equal(x.b, y, t))
        if isinstance(y, IteV):
            return tm.ite(y.c, self.equal(x, y.a, t), self.equal(x, y.b, t))
        if x is NIL or y is NIL:
            if x is y:
                return TRUE
            o = y if x is NIL else x
            if isinstance(o, SliceV):
                return tm.boolc(o.obj is None)
            if isinstance(o, Opaque):
                raise Unsupported("nil test of opaque value")
            return FALSE
        if isinstance(x, SliceV) and isinstance(y, SliceV):
            if y.obj is None:
                return tm.boolc(x.obj is None)
            if x.obj is None:
                return tm.boolc(y.obj is None)
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.obj != y.obj or len(x.path) != len(y.path):
                return FALSE
            r = []
            for a, b in zip(x.path, y.path):
                if isinstance(a, tm.T) or isinstance(b, tm.T):
                    r.append(tm.eq(a if isinstance(a, tm.T) else bv(a, 64), b if isinstance(b, tm.T) else bv(b, 64)))
                elif a != b:
                    return FALSE
            return tm.and_(r)
        if isinstance(x, StructV) and isinstance(y, StructV):
            fs = t["f"] if t is not None and t["k"] == "struct" else None
            return tm.and_([self.equal(a, b, self.p.types[fs[i][1]] if fs else None) for i, (a, b) in enumerate(zip(x.f, y.f))])
        if isinstance(x, ArrV) and isinstance(y, ArrV):
            et = self.p.types[t["e"]] if t is not None and "e" in t else None
            return tm.and_([self.equal(a, b, et) for a, b in zip(x.e, y.e)])
        if isinstance(x, StrV) and isinstance(y, StrV):
            if x.s is not None and y.s is not None:
                return tm.boolc(x.s == y.s)
            if x.known() and y.known() and (x.s is not None or y.s is not None):
                (la, fa), (lb, fb) = x.bytes(), y.bytes()
                n = la.p if tm.isc(la) else lb.p
                return tm.and_([tm.eq(la, lb)] + [tm.eq(fa(bv(i, 64)), fb(bv(i, 64))) for i in range(n)])
        raise Unsupported("equality of %r and %r" % (x, y))

    def i_UnOp(self, f, ins, st):
        o = ins["o"]
        x = self.val(ins["x"], st)
        if o == "*":
            return self.load(st, x, ins.get("pos", ""))
        t = self.p.types[ins["xt"]]
        if o == "!":
            return tm.not_(x)
        if o == "-":
            if t["k"] == "float":
                return fl.fneg(x)
            return tm.neg(x)
        if o == "^":
            return tm.bvnot(x)
        raise Unsupported("unop " + o)

    def i_ChangeType(self, f, ins, st):
        return self.val(ins["x"], st)

    def i_ChangeInterface(self, f, ins, st):
        return self.val(ins["x"], st)

    def i_Convert(self, f, ins, st):
        x = self.val(ins["x"], st)
        ft, tt = self.p.types[ins["xt"]], self.p.types[ins["t"]]
        if tt["k"] == "string" and ft["k"] == "slice" and self.p.types[ft["e"]].get("w") == 8:
            return self.bytes_str(st, x)
        if ft["k"] == "string" and tt["k"] == "slice" and self.p.types[tt["e"]].get("w") == 8 and isinstance(x, StrV) and x.known():
            n, fn = x.bytes()
            if tm.isc(n):
                o = self.new_obj(st, ArrV([fn(bv(i, 64)) for i in range(n.p)]), "bytes")
            else:
                o = self.new_obj(st, FBase(1, fn, "bytes"), "bytes")
            return SliceV(o, (), Z64, n, n)
        return self.convert(x, ft, tt)

    def bytes_str(self, st, x):
        if isinstance(x, IteV):
            return merge(x.c, self.bytes_str(st, x.a), self.bytes_str(st, x.b))
        if x.obj is None:
            return StrV("")
        if tm.isc(x.len) and x.len.p <= 4096:
            bs = [self.elem(st, x, bv(i, 64)) for i in range(x.len.p)]
            if all(tm.isc(b) for b in bs):
                return StrV("".join(chr(b.p) for b in bs))
            return StrV(None, x.len, arr_to_farr(ArrV(bs)))
        snap = State(st.heap.copy(), {}, ())
        return StrV(None, x.len, FBase(1, lambda i: self.elem(snap, x, i), "string"))

    def convert(self, x, ft, tt):
        if isinstance(x, Opaque):
            return x
        fk, tk = ft["k"], tt["k"]
        if fk == "int" and tk == "int":
            if tt["w"] <= ft["w"]:
                return tm.trunc(x, tt["w"])
            return tm.sext(x, tt["w"]) if ft["s"] else tm.zext(x, tt["w"])
        if fk == "int" and tk == "float":
            return fl.from_int(x, ft["s"], tt["w"])
        if fk == "float" and tk == "float":
            return fl.fcvt(x, tt["w"])
        if fk == "float" and tk == "int":
            return fl.to_int(x, tt["s"], tt["w"])
        if fk == tk:
            return x
        return Opaque("convert %s -> %s" % (ft["name"], tt["name"]))

    def i_MultiConvert(self, f, ins, st):
        return self.i_Convert(f, ins, st)

    def i_Extract(self, f, ins, st):
        x = self.val(ins["x"], st)
        if isinstance(x, Opaque):
            return x
        return x.e[ins["i"]]

    def i_Field(self, f, ins, st):
        x = self.val(ins["x"], st)
        if isinstance(x, IteV):
            return merge(x.c, x.a.f[ins["i"]], x.b.f[ins["i"]])
        return x.f[ins["i"]]

    def i_FieldAddr(self, f, ins, st):
        x = self.val(ins["x"], st)
        return self.addr(st, x, ins["i"], ins.get("pos", ""))

    def addr(self, st, x, step, pos):
        if isinstance(x, IteV):
            if self.nonnil(x.a) is FALSE:
                self.oblige(st, tm.not_(x.c), "nil dereference", "panic", pos)
                return self.addr(st, x.b, step, pos)
            if self.nonnil(x.b) is FALSE:
                self.oblige(st, x.c, "nil dereference", "panic", pos)
                return self.addr(st, x.a, step, pos)
            return merge(x.c, self.addr(st, x.a, step, pos), self.addr(st, x.b, step, pos))
        if x is NIL:
            self.oblige(st, FALSE, "nil dereference", "panic", pos)
            raise Dead()
        if not isinstance(x, Ptr):
            raise Unsupported("address of field of %r" % (x,))
        return Ptr(x.obj, x.path + (step,))

    def idx64(self, i, it):
        t = self.p.types[it]
        if i.s == 64:
            return i
        return tm.sext(i, 64) if t["s"] else tm.zext(i, 64)

    def i_IndexAddr(self, f, ins, st):
        x = self.val(ins["x"], st)
        i = self.idx64(self.val(ins["i"], st), ins["it"])
        return self.index_addr(st, x, i, self.p.types[ins["xt"]], ins.get("pos", ""))

    def index_addr(self, st, x, i, xt, pos):
        if isinstance(x, IteV):
            if isinstance(x.a, SliceV) and x.a.obj is None:
                self.oblige(st, tm.not_(x.c), "index out of range", "panic", pos)
                return self.index_addr(st, x.b, i, xt, pos)
            if isinstance(x.b, SliceV) and x.b.obj is None:
                self.oblige(st, x.c, "index out of range", "panic", pos)
                return self.index_addr(st, x.a, i, xt, pos)
            sa, sb = st.fork(x.c), st.fork(tm.not_(x.c))
            a = b = None
            try:
                a = self.index_addr(sa, x.a, i, xt, pos)
            except Dead:
                pass
            try:
                b = self.index_addr(sb, x.b, i, xt, pos)
            except Dead:
                pass
            if a is None and b is None:
                raise Dead()
            if a is None:
                return b
            if b is None:
                return a
            return merge(x.c, a, b)
        if isinstance(x, SliceV):
            if x.obj is None:
                self.oblige(st, FALSE, "index out of range", "panic", pos)
                raise Dead()
            g = tm.ult(i, x.len)
            self.oblige(st, g, "index out of range", "panic", pos)
            if g is FALSE:
                raise Dead()
            return Ptr(x.obj, x.path + (cstep(tm.add(x.off, i)),))
        if isinstance(x, Ptr) or x is NIL:
            # pointer to array
            n = self.p.types[xt["e"]]["n"] if xt["k"] == "ptr" else xt["n"]
            g = tm.ult(i, bv(n, 64))
            self.oblige(st, g, "index out of range", "panic", pos)
            if g is FALSE:
                raise Dead()
            return self.addr(st, x, cstep(i), pos)
        raise Unsupported("index address of %r" % (x,))

    def i_Index(self, f, ins, st):
        x = self.val(ins["x"], st)
        i = self.idx64(self.val(ins["i"], st), ins["it"])
        xt = self.p.types[ins["xt"]]
        if isinstance(x, ArrV):
            self.oblige(st, tm.ult(i, bv(len(x.e), 64)), "index out of range", "panic", ins.get("pos", ""))
            return select_list(x.e, i)
        if isinstance(x, StrV) and x.known():
            n, fn = x.bytes()
            self.oblige(st, tm.ult(i, n), "index out of range", "panic", ins.get("pos", ""))
            return fn(i)
        raise Unsupported("index of %r" % (x,))

    def i_Lookup(self, f, ins, st):
        x = self.val(ins["x"], st)
        i = self.val(ins["i"], st)
        if isinstance(x, StrV) and x.known():
            n, fn = x.bytes()
            i = self.idx64(i, ins["it"]) if "it" in ins else i
            self.oblige(st, tm.ult(i, n), "index out of range", "panic", ins.get("pos", ""))
            return fn(i)
        if isinstance(x, Ptr) and isinstance(st.heap.get(x.obj), MapV):
            mp = st.heap[x.obj]
            et = self.p.types[ins["xt"]]["e"]
            r = self.zero(et)
            ok = FALSE
            for k, v in mp.d.items():
                c = tm.eq(i, bv(k, i.s))
                r = merge(c, v, r)
                ok = tm.or_(ok, c)
            return TupleV([r, ok]) if ins["ok"] else r
        raise Unsupported("map lookup")

    def i_MakeMap(self, f, ins, st):
        return Ptr(self.new_obj(st, MapV({}), "map"))

    def i_MapUpdate(self, f, ins, st):
        x = self.val(ins["x"], st)
        i = self.val(ins["i"], st)
        v = self.val(ins["v"], st)
        if isinstance(x, Ptr) and isinstance(i, tm.T) and tm.isc(i):
            d = dict(st.heap[x.obj].d)
            d[i.p] = v
            st.heap[x.obj] = MapV(d)
            return None
        raise Unsupported("map update with symbolic key")

    def i_MakeSlice(self, f, ins, st):
        n = self.idx64(self.val(ins["len"], st), ins["lt"])
        c = self.idx64(self.val(ins["cap"], st), ins["ct"])
        et = self.p.types[ins["t"]]["e"]
        pos = ins.get("pos", "")
        self.oblige(st, tm.sge(n, bv(0, 64)), "makeslice: len out of range", "panic", pos)
        if n is not c:
            self.oblige(st, tm.and_(tm.sle(n, c)), "makeslice: cap out of range", "panic", pos)
        return self.mkslice(st, et, n, c)

    def mkslice(self, st, et, n, c=None, init=None):
        c = n if c is None else c
        z = self.zero(et) if init is None else init
        if tm.isc(c) and tm.sval(c) < 0:
            raise Dead()
        if tm.isc(c) and c.p <= 4096:
            o = self.new_obj(st, ArrV([z] * c.p), "mk")
        else:
            o = self.new_obj(st, FBase(1, lambda i: z, "zero"), "mk")
        return SliceV(o, (), Z64, n, c)

    def i_Slice(self, f, ins, st):
        x = self.val(ins["x"], st)
        xt = self.p.types[ins["xt"]]
        lo = self.idx64(self.val(ins["lo"], st), ins["lot"]) if ins["lo"] else Z64
        hi = self.idx64(self.val(ins["hi"], st), ins["hit"]) if ins["hi"] else None
        if ins["max"]:
            raise Unsupported("full slice expression")
        return self.slice(st, x, lo, hi, xt, ins.get("pos", ""))

    def slice(self, st, x, lo, hi, xt, pos):
        if isinstance(x, IteV):
            return merge(x.c, self.slice(st, x.a, lo, hi, xt, pos), self.slice(st, x.b, lo, hi, xt, pos))
        if isinstance(x, SliceV):
            h = x.len if hi is None else hi
            self.oblige(st, tm.and_(tm.ule(lo, h), tm.ule(h, x.cap)), "slice bounds out of range", "panic", pos)
            if x.obj is None:
                return x
            return SliceV(x.obj, x.path, tm.add(x.off, lo), tm.sub(h, lo), tm.sub(x.cap, lo))
        if isinstance(x, Ptr):
            n = self.p.types[xt["e"]]["n"]
            h = bv(n, 64) if hi is None else hi
            self.oblige(st, tm.and_(tm.ule(lo, h), tm.ule(h, bv(n, 64))), "slice bounds out of range", "panic", pos)
            return SliceV(x.obj, x.path, lo, tm.sub(h, lo), tm.sub(bv(n, 64), lo))
        if isinstance(x, StrV) and x.known():
            n, fn = x.bytes()
            h = n if hi is None else hi
            self.oblige(st, tm.and_(tm.ule(lo, h), tm.ule(h, n)), "slice bounds out of range", "panic", pos)
            if x.s is not None and tm.isc(lo) and tm.isc(h):
                return StrV(x.s[lo.p:h.p])
            return StrV(None, tm.sub(h, lo), FBase(1, lambda i: fn(tm.add(i, lo)), "substr"))
        if isinstance(x, StrV):
            return StrV(None)
        raise Unsupported("slice of %r" % (x,))

    def i_Store(self, f, ins, st):
        self.store(st, self.val(ins["x"], st), self.val(ins["v"], st), ins.get("pos", ""))

    def i_MakeInterface(self, f, ins, st):
        x = self.val(ins["x"], st)
        t = self.p.types[ins["t"]]
        if t["name"] == "error":
            return ERR_SOME
        return IfaceV(ins["xt"], x)

    def i_TypeAssert(self, f, ins, st):
        x = self.val(ins["x"], st)
        at = self.p.types[ins["at"]]
        return self.type_assert(st, x, ins["at"], at, ins["ok"], ins.get("pos", ""))

    def type_assert(self, st, x, atid, at, ok, pos):
        if isinstance(x, IteV):
            return merge(x.c, self.type_assert(st, x.a, atid, at, ok, pos), self.type_assert(st, x.b, atid, at, ok, pos))
        if isinstance(x, IfaceV):
            if at["k"] == "iface":
                return TupleV([x, TRUE]) if ok else x
            hit = self.p.types[x.dyn]["name"] == at["name"]
            if ok:
                return TupleV([x.val if hit else self.zero(atid), tm.boolc(hit)])
            if not hit:
                self.oblige(st, FALSE, "type assertion fails", "panic", pos)
                raise Dead()
            return x.val
        if isinstance(x, AbsV) and at["k"] == "iface":
            return TupleV([x, TRUE]) if ok else x
        if x is NIL:
            if ok:
                return TupleV([self.zero(atid), FALSE])
            self.oblige(st, FALSE, "type assertion on nil", "panic", pos)
            raise Dead()
        if isinstance(x, Opaque):
            return TupleV([x, x]) if ok else x
        raise Unsupported("type assertion on %r" % (x,))

    def i_MakeClosure(self, f, ins, st):
        return FuncV(ins["fn"]["n"], [self.val(b, st) for b in ins["b"]])

    def i_Defer(self, f, ins, st):
        n = ins.get("fn", {}).get("n", "") if ins.get("fn") else ""
        if n.startswith("(*sync."):
            return None
        raise Unsupported("defer of " + (n or str(ins.get("method"))))

    def i_RunDefers(self, f, ins, st):
        return None

    def i_Range(self, f, ins, st):
        raise Unsupported("range over map/string")

    def i_Call(self, f, ins, st):
        pos = ins.get("pos", "")
        args = [self.val(a, st) for a in ins["args"]]
        if "method" in ins:
            recv = self.val(ins["recv"], st)
            res = self.invoke(st, recv, ins["method"], args, ins, pos)
        else:
            fv = self.val(ins["fn"], st)
            res = self.call_value(st, fv, args, ins, pos)
        if isinstance(res, Opaque):
            n = len(self.p.types[ins["sig"]]["es"]) if self.p.types[ins["sig"]]["k"] == "tuple" else 1
            return res if n <= 1 else TupleV([res] * n)
        sig = self.p.types[ins["sig"]]
        n = len(sig["es"])
        if n == 0:
            return None
        if n == 1:
            return res[0]
        return TupleV(res)

    def split_call(self, st, c, fa, fb):
        """both alternatives of a guarded callee; merges states into st"""
        sa, sb = st.fork(c), st.fork(tm.not_(c))
        ra = rb = None
        try:
            ra = fa(sa)
        except Dead:
            sa = None
        try:
            rb = fb(sb)
        except Dead:
            sb = None
        if sa is None and sb is None:
            raise Dead()
        if sa is None:
            st.heap, st.pc = sb.heap, sb.pc
            return rb
        if sb is None:
            st.heap, st.pc = sa.heap, sa.pc
            return ra
        m = self.merge_states([sa, sb], [])
        st.heap, st.pc = m.heap, m.pc
        if isinstance(ra, Opaque) or isinstance(rb, Opaque):
            return Opaque("split call")
        return [merge(c, x, y) for x, y in zip(ra, rb)]

    def invoke(self, st, recv, method, args, ins, pos):
        if isinstance(recv, IteV):
            if recv.a is NIL:
                self.oblige(st, tm.not_(recv.c), "method call on nil interface", "panic", pos)
                return self.invoke(st, recv.b, method, args, ins, pos)
            if recv.b is NIL:
                self.oblige(st, recv.c, "method call on nil interface", "panic", pos)
                return self.invoke(st, recv.a, method, args, ins, pos)
            return self.split_call(st, recv.c, lambda s: self.invoke(s, recv.a, method, args, ins, pos),
                                   lambda s: self.invoke(s, recv.b, method, args, ins, pos))
        if recv is NIL:
            self.oblige(st, FALSE, "method call on nil interface", "panic", pos)
            raise Dead()
        if isinstance(recv, AbsV):
            h = self.absm.get((recv.kind, method))
            if h is None:
                raise Unsupported("abstract method %s.%s" % (recv.kind, method))
            return h(self, st, recv, args, ins)
        if isinstance(recv, IfaceV):
            tn = self.p.types[recv.dyn]["name"]
            ms = self.p.methods.get(tn)
            if ms is None or method not in ms:
                raise Unsupported("method %s of %s" % (method, tn))
            return self.call_fn(st, ms[method], [recv.val] + args, (), ins, pos)
        if isinstance(recv, tm.T) and recv.s == 16 and method == "Error":
            return [StrV(None)]
        raise Unsupported("invoke %s on %r" % (method, recv))

    def call_value(self, st, fv, args, ins, pos):
        if isinstance(fv, IteV):
            return self.split_call(st, fv.c, lambda s: self.call_value(s, fv.a, args, ins, pos),
                                   lambda s: self.call_value(s, fv.b, args, ins, pos))
        if fv is NIL:
            self.oblige(st, FALSE, "call of nil function", "panic", pos)
            raise Dead()
        if not isinstance(fv, FuncV):
            raise Unsupported("call of %r" % (fv,))
        if fv.py is not None:
            return fv.py(self, st, args, ins)
        if fv.name.startswith("builtin:"):
            return self.builtin(st, fv.name[8:], args, ins, pos)
        return self.call_fn(st, fv.name, args, fv.binds, ins, pos)

    def call_fn(self, st, name, args, binds, ins, pos):
        s = self.summaries.get(name)
        if s is None:
            base = re.sub(r"\[.*\]$", "", name)
            s = self.summaries.get(base)
        if s is not None:
            self.used_summaries.add(name)
            return s(self, st, args, ins)
        s = INTRINSICS.get(name) or INTRINSICS.get(re.sub(r"\[.*\]$", "", name))
        if s is not None:
            return s(self, st, args, ins)
        if self.p.func(name) is None:
            for pre, h in EXT_PREFIX:
                if name.startswith(pre):
                    return h(self, st, args, ins)
            raise Unsupported("external function " + name)
        ns, res = self.call(st, name, args, binds, pos)
        if ns is None:
            raise Dead()
        st.heap, st.pc = ns.heap, ns.pc
        return res

    # ------------------------------------------------------------ builtins
    def builtin(self, st, name, args, ins, pos):
        if name == "len":
            return [self.vlen(args[0])]
        if name == "cap":
            return [self.vcap(args[0])]
        if name == "append":
            et = self.p.types[ins["t"]]["e"]
            return [self.append(st, args[0], args[1], et, pos)]
        if name == "copy":
            return [self.copy(st, args[0], args[1], pos)]
        if name in ("min", "max"):
            t = self.p.types[ins["t"]]
            if t["k"] != "int":
                raise Unsupported("builtin min/max on " + t["name"])
            r = args[0]
            for a in args[1:]:
                lt = tm.slt(a, r) if t["s"] else tm.ult(a, r)
                gt = tm.slt(r, a) if t["s"] else tm.ult(r, a)
                r = tm.ite(lt if name == "min" else gt, a, r)
            return [r]
        if name == "clear":
            et = None
            raise Unsupported("clear")
        if name in ("print", "println"):
            return []
        if name == "ssa:wrapnilchk":
            return [args[0]]
        raise Unsupported("builtin " + name)

    def vlen(self, x):
        if isinstance(x, IteV):
            return tm.ite(x.c, self.vlen(x.a), self.vlen(x.b))
        if isinstance(x, SliceV):
            return x.len
        if isinstance(x, ArrV):
            return bv(len(x.e), 64)
        if isinstance(x, StrV) and x.known():
            return x.bytes()[0]
        if isinstance(x, Opaque):
            raise Unsupported("len of opaque")
        raise Unsupported("len of %r" % (x,))

    def vcap(self, x):
        if isinstance(x, IteV):
            return tm.ite(x.c, self.vcap(x.a), self.vcap(x.b))
        if isinstance(x, SliceV):
            return x.cap
        raise Unsupported("cap of %r" % (x,))

    def elem(self, st, s, i):
        """element i of slice value s (no bounds obligation)"""
        if isinstance(s, IteV):
            if isinstance(s.a, SliceV) and s.a.obj is None:
                return self.elem(st, s.b, i)
            if isinstance(s.b, SliceV) and s.b.obj is None:
                return self.elem(st, s.a, i)
            return merge(s.c, self.elem(st, s.a, i), self.elem(st, s.b, i))
        if s.obj not in st.heap:
            self.need_obj(st, s.obj)
        return self.load_path(st.heap[s.obj], s.path + (cstep(tm.add(s.off, i)),))

    def append(self, st, s, t, et, pos):
        if isinstance(t, StrV):
            if not t.known():
                raise Unsupported("append string")
            n, fn = t.bytes()
            t = SliceV(self.new_obj(st, FBase(1, fn, "bytes"), "bytes"), (), Z64, n, n)
        ls, lt = self.vlen(s), self.vlen(t)
        if lt is Z64:
            return s
        n = tm.add(ls, lt)
        mode = self.opt.get("append", "fresh")
        if mode == "exact" and isinstance(s, SliceV) and s.obj is not None:
            room = tm.ule(n, s.cap)
            room = self.decide(room, st.pc)
            if room is TRUE:
                return self.append_inplace(st, s, t, n)
            if room is not FALSE:
                st1 = st.fork()
                r1 = self.append_inplace(st1, s, t, n)
                r2 = self.append_fresh(st, s, t, et, ls, lt, n)
                st.heap = self.merge_heap(room, st1.heap, st.heap)
                return merge(room, r1, r2)
        return self.append_fresh(st, s, t, et, ls, lt, n)

    def append_inplace(self, st, s, t, n):
        src = dict(st.heap)
        tmp = State(src, {}, ())
        k = tm.sub(n, s.len)
        if tm.isc(k) and k.p <= 64:
            for i in range(k.p):
                v = self.elem(tmp, t, bv(i, 64))
                p = Ptr(s.obj, s.path + (cstep(tm.add(s.off, s.len, bv(i, 64))),))
                self.store(st, p, v)
        else:
            self.write_range(st, s, s.len, k, lambda i: self.elem(tmp, t, i))
        return SliceV(s.obj, s.path, s.off, n, s.cap)

    def append_fresh(self, st, s, t, et, ls, lt, n):
        tmp = State(dict(st.heap), {}, ())
        if tm.isc(n) and n.p <= 4096:
            e = []
            for i in range(ls.p if tm.isc(ls) else 0):
                e.append(self.elem(tmp, s, bv(i, 64)))
            if tm.isc(ls) and tm.isc(lt):
                for i in range(lt.p):
                    e.append(self.elem(tmp, t, bv(i, 64)))
                if self.opt.get("append", "fresh") == "exact":
                    cap = tm.fresh("cap", 64)
                    self.facts.append(tm.and_(tm.ule(n, cap), tm.ult(cap, bv(1 << 40, 64))))
                    z = self.zero(et)
                    o = self.new_obj(st, FStoreList(e, z), "app")
                    return SliceV(o, (), Z64, n, cap)
                o = self.new_obj(st, ArrV(e), "app")
                return SliceV(o, (), Z64, n, n)

        if tm.isc(lt) and lt.p <= 8 and isinstance(s, SliceV) and s.obj is not None and s.path == () and s.off is Z64 \
                and isinstance(tmp.heap.get(s.obj), FArr) and tmp.heap[s.obj].nd == 1 and self.opt.get("append", "fresh") != "exact":
            cont = tmp.heap[s.obj]
            for i in range(lt.p):
                cont = FStore(cont, (tm.add(ls, bv(i, 64)),), self.elem(tmp, t, bv(i, 64)))
            o = self.new_obj(st, cont, "app")
            return SliceV(o, (), Z64, n, n)

        def fn(i):
            c = tm.ult(i, ls)
            if c is TRUE:
                return self.elem(tmp, s, i)
            if c is FALSE:
                return self.elem(tmp, t, tm.sub(i, ls))
            if isinstance(s, SliceV) and s.obj is None:
                return self.elem(tmp, t, tm.sub(i, ls))
            return merge(c, self.elem(tmp, s, i), self.elem(tmp, t, tm.sub(i, ls)))
        o = self.new_obj(st, FBase(1, fn, "append"), "app")
        if self.opt.get("append", "fresh") == "exact":
            cap = tm.fresh("cap", 64)
            self.facts.append(tm.and_(tm.ule(n, cap), tm.ult(cap, bv(1 << 40, 64))))
            return SliceV(o, (), Z64, n, cap)
        return SliceV(o, (), Z64, n, n)

    def write_range(self, st, s, start, n, valfn):
        """s[start+i] = valfn(i) for i<n"""
        base = tm.add(s.off, start)
        pre = s.path

        def upd(content, path):
            if path:
                if isinstance(content, StructV):
                    f = list(content.f)
                    f[path[0]] = upd(f[path[0]], path[1:])
                    return StructV(f)
                if isinstance(content, ArrV) and not isinstance(path[0], tm.T):
                    e = list(content.e)
                    e[path[0]] = upd(e[path[0]], path[1:])
                    return ArrV(e)
                if isinstance(content, FArr) and content.nd == len(path) + 1:
                    p = tuple(x if isinstance(x, tm.T) else bv(x, 64) for x in path)
                    return FMap(content,
                                lambda *idx: tm.and_([tm.eq(a, b) for a, b in zip(idx, p)] +
                                                     [tm.ult(tm.sub(idx[-1], base), n)]),
                                lambda *idx: valfn(tm.sub(idx[-1], base)))
                raise Unsupported("range write through %r" % (content,))
            if isinstance(content, ArrV):
                if tm.isc(base) and tm.isc(n):
                    e = list(content.e)
                    for i in range(n.p):
                        e[base.p + i] = valfn(bv(i, 64))
                    return ArrV(e)
                e = list(content.e)
                if len(e) <= 64:
                    for k in range(len(e)):
                        d = tm.sub(bv(k, 64), base)
                        c = tm.ult(d, n)
                        if c is not FALSE:
                            e[k] = merge(c, valfn(d), e[k])
                    return ArrV(e)
                content = arr_to_farr(content)
            if isinstance(content, FArr) and content.nd == 1:
                return FMap(content, lambda i: tm.ult(tm.sub(i, base), n), lambda i: valfn(tm.sub(i, base)))
            raise Unsupported("range write into %r" % (content,))
        if s.obj not in st.heap:
            self.need_obj(st, s.obj)
        st.heap[s.obj] = upd(st.heap[s.obj], pre)

    def copy(self, st, d, s, pos):
        if isinstance(d, IteV):
            return self.split_call(st, d.c, lambda x: [self.copy(x, d.a, s, pos)], lambda x: [self.copy(x, d.b, s, pos)])[0]
        ld, ls = self.vlen(d), self.vlen(s)
        n = tm.ite(tm.ult(ls, ld), ls, ld)
        if d.obj is None or n is Z64 or (isinstance(s, SliceV) and s.obj is None):
            return Z64
        tmp = State(dict(st.heap), {}, ())
        self.write_range(st, d, Z64, n, lambda i: self.elem(tmp, s, i))
        return n

    # ------------------------------------------------------------ loops (see loops.py)
    def run_loop(self, frame, L, ents):
        import loops
        return loops.run_loop(self, frame, L, ents)


def FStoreList(elems, z):
    def fn(i):
        if tm.isc(i):
            return elems[i.p] if i.p < len(elems) else z
        r = z
        for k in range(len(elems) - 1, -1, -1):
            r = merge(tm.eq(i, bv(k, 64)), elems[k], r)
        return r
    return FBase(1, fn, "list")


def cstep(t):
    return t.p if tm.isc(t) else t


class Dead(Exception):
    pass


class Frame:
    def __init__(self, f):
        self.f = f
        self.returns = []


# ---------------------------------------------------------------- intrinsics
def clz(t):
    w = t.s
    if tm.isc(t):
        return bv(w - t.p.bit_length(), 64)
    hi = tm.urange(t)[1].bit_length()
    r = bv(w, 64)
    for b in range(0, hi):
        r = tm.ite(tm.eq(tm.extract(b, b, t), bv(1, 1)), bv(w - 1 - b, 64), r)
    # highest set bit wins: build from low to high so that outermost test is the top bit
    return r


def ctz(t):
    w = t.s
    r = bv(w, 64)
    for b in range(w - 1, -1, -1):
        r = tm.ite(tm.eq(tm.extract(b, b, t), bv(1, 1)), bv(b, 64), r)
    return r


def rev(t):
    r = tm.extract(0, 0, t)
    for b in range(1, t.s):
        r = tm.concat(r, tm.extract(b, b, t))
    return r


def popcount(t):
    return tm.add(*[tm.zext(tm.extract(b, b, t), 64) for b in range(t.s)])


INTRINSICS = {}


def _ufn(name, n=1, w=64):
    import math
    py = {"math.Cos": math.cos, "math.Sqrt": math.sqrt, "math.Sin": math.sin, "math.Exp": math.exp,
          "math.Floor": math.floor, "math.Ceil": math.ceil, "math.Round": None}.get(name)

    def f(e, st, args, ins):
        if all(tm.isc(a) for a in args):
            try:
                if name == "math.Pow":
                    return [fl.fconst(math.pow(float(fl._f(args[0])), float(fl._f(args[1]))), 64)]
                if py is not None:
                    return [fl.fconst(py(float(fl._f(args[0]))), 64)]
            except (ValueError, OverflowError):
                pass
        return [tm.app("f." + name, tuple(args), w)]
    return f


def install_intrinsics(e):
    I = INTRINSICS
    if I:
        return
    for w in (8, 16, 32, 64):
        I["math/bits.LeadingZeros%d" % w] = lambda e, st, a, ins: [clz(a[0])]
        I["math/bits.TrailingZeros%d" % w] = lambda e, st, a, ins: [ctz(a[0])]
        I["math/bits.Len%d" % w] = lambda e, st, a, ins: [tm.sub(bv(a[0].s, 64), clz(a[0]))]
        I["math/bits.Reverse%d" % w] = lambda e, st, a, ins: [rev(a[0])]
        I["math/bits.OnesCount%d" % w] = lambda e, st, a, ins: [popcount(a[0])]
    I["math/bits.LeadingZeros"] = I["math/bits.LeadingZeros64"]
    I["math/bits.Len"] = I["math/bits.Len64"]
    I["math/bits.TrailingZeros"] = I["math/bits.TrailingZeros64"]
    I["math.Float32bits"] = lambda e, st, a, ins: [a[0]]
    I["math.Float32frombits"] = lambda e, st, a, ins: [a[0]]
    I["math.Float64bits"] = lambda e, st, a, ins: [a[0]]
    I["math.Float64frombits"] = lambda e, st, a, ins: [a[0]]
    I["math.Abs"] = lambda e, st, a, ins: [fl.fabs(a[0])]
    for n in ("Cos", "Sin", "Sqrt", "Exp", "Floor", "Ceil", "Log", "Log2", "Cbrt", "Round", "Max", "Min"):
        I["math." + n] = _ufn("math." + n)
    I["math.Pow"] = _ufn("math.Pow", 2)
    I["math.IsNaN"] = lambda e, st, a, ins: [tm.not_(fl.feq(a[0], a[0]))]
    I["errors.New"] = lambda e, st, a, ins: [ERR_SOME]
    I["fmt.Errorf"] = lambda e, st, a, ins: [ERR_SOME]
    I["fmt.Sprintf"] = lambda e, st, a, ins: [StrV(None)]
    for n in ("Printf", "Println", "Print"):
        I["fmt." + n] = lambda e, st, a, ins: [Z64, ERR_NIL]
    for n in ("RLock", "RUnlock", "Lock", "Unlock"):
        I["(*sync.RWMutex).%s" % n] = lambda e, st, a, ins: []
        I["(*sync.Mutex).%s" % n] = lambda e, st, a, ins: []


def _noop(e, st, args, ins):
    sig = e.p.types[ins["sig"]]
    if len(sig["es"]) == 0:
        return []
    return Opaque("external")


EXT_PREFIX = [("github.com/sirupsen/logrus.", _noop)]
