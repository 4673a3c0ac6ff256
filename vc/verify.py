"""Verification of one contract: obligations, discharge, models."""
import time
import traceback
import terms as tm
from terms import bv, TRUE, FALSE
import solver
import engine as en
from engine import State, ERR_NIL
from contract import *
import contract as ct


class Report:
    def __init__(self, c):
        self.func = c.func
        self.label = label(c)
        self.obligations = []     # (name, kind, status, backend, time)
        self.failed = []          # dicts
        self.error = None
        self.vacuity = []
        self.inlined = []
        self.summaries = []
        self.facts = 0
        self.wall = 0.0
        self.stats = {}


def label(c):
    return c.func + (("#" + c.variant) if getattr(c, "variant", None) else "")


def make_engine(prog, c):
    E = en.Engine(prog, **dict(c.opts))
    ct.install_reader(E)
    for fn, k in ct.REG.items():
        if fn == c.func or fn in c.inline:
            continue
        E.summaries[fn] = ct.summary_of(k)
    E.loopspecs.update(c.loops)
    c.setup(E)
    return E


def cases(c):
    """cartesian product of the contract's case split"""
    out = [{}]
    for nm, vals in c.split.items():
        out = [dict(d, **{nm: v}) for d in out for v in vals]
    return out


def covered(c, nm, lo, hi):
    """the split values of an input cover its declared range"""
    iv = sorted((v if isinstance(v, tuple) else (v, v)) for v in c.split[nm])
    nxt = lo
    for a, b in iv:
        if a > nxt:
            return False
        nxt = max(nxt, b + 1)
    return nxt > hi


def build(prog, c, case=None):
    """-> (E, x_pre, args, out state, results, spec ctx, spec results)"""
    E = make_engine(prog, c)
    E.deadline = time.time() + c.opts.get("budget", 200)
    x = Ctx(E, "sym")
    x.case = dict(case or {})
    args = c.inputs(x)
    for nm in x.case:
        if nm not in x.splitok:
            raise Unsupported("case split over an unknown input " + nm)
        if not covered(c, nm, *x.splitok[nm]):
            raise Unsupported("case split over %s is not exhaustive" % nm)
    for nm, t in c.pre(x, *args):
        x.require(t)
    for f in x.facts:
        E.assume(f)
    pre = State(dict(x.s.heap), {}, ())
    # specification on a copy of the heap
    xs = Ctx(E, "sym")
    xs.s = State(dict(pre.heap), {}, ())
    xs.named = x.named
    sres = c.spec(xs, *args)
    sres = [] if sres is None else list(sres)
    sres = [r._raw() if isinstance(r, (Ref, SRef)) else r for r in sres]
    for f in xs.facts:
        E.assume(f)
    nspecfacts = len(E.facts)
    out, res = run_body(E, c, pre, args)
    return E, x, pre, args, out, res, xs, sres


def run_body(E, c, pre, args):
    f = E.p.func(c.func)
    if f is None:
        raise Unsupported("function %s is not in the program" % c.func)
    if len(signature(E.p, c)[0]) != len(args):
        raise Unsupported("signature of %s changed (%d parameters, contract has %d)" % (c.func, len(f.params), len(args)))
    E.split_errors = True
    st = State(dict(pre.heap), {}, ())
    if getattr(c, "apply", None) is None:
        return E.call(st, c.func, args)
    n = len(args) - c.apply
    out, res = E.call(st, c.func, args[:n])
    fv = res[0]
    if not isinstance(fv, FuncV) or fv.py is not None:
        raise Unsupported("returned function %r" % (fv,))
    return E.call(State(out.heap, {}, out.pc), fv.name, args[n:], fv.binds)


def post_obligations(E, c, pre, args, out, res, xs, sres):
    f = E.p.func(c.func)
    E.cur_fn.append(c.func)
    try:
        ferr = fails(E.p, c)
        if ferr and not getattr(c, "err_any", False):
            for i, pc in enumerate(E.error_returns):
                E.oblige(State({}, {}, pc), tm.under(xs.err, pc), "%s: error only when specified (%d)" % (label(c), i), "post")
        if out is None:
            E.oblige(State({}, {}, ()), xs.err if E.error_returns else FALSE, "%s: returns normally" % label(c), "post")
            return
        ok = tm.not_(xs.err)
        rts = list(signature(E.p, c)[1])
        if ferr:
            code = res[-1]
            if code.__class__ is not tm.T:
                raise Unsupported("error value %r" % (code,))
            if not getattr(c, "err_any", False):
                E.oblige(out, tm.iff(tm.ne(code, ERR_NIL), xs.err), "%s: error whenever specified" % label(c), "post")
            res = res[:-1]
            rts = rts[:-1]
        elif xs.err is not FALSE:
            raise Unsupported("specification of %s fails but the function returns no error" % c.func)
        initial = set(pre.heap)
        cmp_ = Cmp(E, out, xs.s, initial)
        for i, (a, b) in enumerate(zip(res, sres)):
            cmp_.eq(a, b, rts[i], "result%d" % i)
        if len(sres) != len(res):
            raise Unsupported("%s: number of results" % c.func)
        skip = c.skip_objs() if hasattr(c, "skip_objs") else ()
        for o in sorted(initial):
            if o in skip:
                continue
            a, b = out.heap.get(o), xs.s.heap.get(o)
            if a is b:
                E.trivial = getattr(E, "trivial", 0) + 1
                continue
            cmp_.eq(a, b, None, "state:" + o.split("_", 1)[-1])
        if hasattr(c, "relation"):
            for nm, goal in c.relation(E, pre, args, out, res, xs, sres):
                cmp_.out.append((nm, TRUE, goal))
        fp = c.opts.get("fp", "uf")
        for nm, g, goal in cmp_.out:
            s = State({}, {}, out.pc + (() if ok is TRUE else (ok,)) + (() if g is TRUE else (g,)))
            E.oblige(s, goal, "%s: %s" % (label(c), nm), "post", fp=fp)
    finally:
        E.cur_fn.pop()


def conjuncts(g):
    if g.op == "and":
        return [y for x in g.args for y in conjuncts(x)]
    if g.op == "not" and g.args[0].op == "or":
        return [y for x in g.args[0].args for y in conjuncts(tm.not_(x))]
    return [g]


def discharge(E, ob, timeout):
    gs = conjuncts(ob.goal)
    if len(gs) > 1:
        # all at once, then one by one
        r = discharge1(E, ob, ob.goal, 1.5)
        if r.status == "unsat":
            return r
        tot = r.time
        for g in gs:
            r = discharge1(E, ob, g, timeout)
            if r.status != "unsat":
                return r
            tot += r.time
        r.time = tot
        return r
    return discharge1(E, ob, ob.goal, timeout)


def discharge1(E, ob, goal, timeout):
    neg = tm.not_(goal)
    core = list(ob.pc) + [neg]
    if tm.and_(core) is FALSE:
        return solver.Result("unsat")
    facts = E.facts[:ob.facts] if ob.kind == "panic" or ob.kind == "pre" else E.facts
    rel = solver.relevant(core, facts)
    first = min(timeout, 1.5)
    lv = tm.def_level(core + rel)
    while True:
        # abbreviations are unfolded level by level, only when needed
        lem = use_lemmas(E, core + rel) if lv and tm.lemmas else []
        r = solver.check1(core + rel + lem, first, ob.fp)
        if r.status == "unknown" and lv:
            ab = tm.abstract(core + rel + lem)
            if ab:
                r2 = solver.check1(ab, 20, ob.fp)
                if r2.status == "unsat":
                    return r2
        if r.status == "unknown" and (lv or timeout > first):
            r = cube(core, rel + lem, time.time() + (6 if lv else 3 * timeout), ob.fp, 1.0 if lv else 1.5)
        if lv == 0 or r.status == "unsat":
            break
        core, rel = [tm.expand(t, lv) for t in core], [tm.expand(t, lv) for t in rel]
        lv = tm.def_level(core + rel)
    if r.status == "unknown" and timeout > first:
        r = solver.check1(core + rel, timeout, ob.fp)
    if r.status == "sat" and ob.fp == "uf" and has_float(core):
        r2 = solver.check(core + rel, timeout=timeout, fp="ieee")
        if r2.status == "unsat":
            return r2
    return r


def use_lemmas(E, ts):
    out = []
    for name, f in tm.lemma_instances(ts):
        if name not in _proved:
            body = tm.expand(tm.not_(tm.lemmas[name][1]), 1)
            r = solver.check1([body], 60, "uf")
            if r.status != "unsat":
                raise Unsupported("lemma about %s not proved: %s" % (name, r.status))
            _proved.add(name)
        out.append(f)
    return out


_proved = set()


def pick_atom(ts):
    """the boolean atom that decides most conditional expressions below ts"""
    cnt = {}
    seen = set()
    st = list(ts)
    obj = {}

    def atoms(c):
        a = [c]
        while a:
            y = a.pop()
            if y.op in ("and", "or", "not"):
                a.extend(y.args)
            elif y.op not in ("true", "false", "iff"):
                obj[y.id] = y
                cnt[y.id] = cnt.get(y.id, 0) + 1
            elif y.op == "iff":
                a.extend(y.args)
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "ite":
            atoms(t.args[0])
        st.extend(t.args)
    if not cnt:
        for t in ts:
            atoms(t)
    if not cnt:
        return None
    # an atom without conditional expressions of its own is decided once and for all
    best = sorted(cnt, key=lambda i: (has_ite(obj[i]), -cnt[i], i))
    return obj[best[0]]


def has_ite(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        if x.op == "ite":
            return True
        seen.add(x.id)
        st.extend(x.args)
    return False


def cube(core, rel, deadline, fp, step, depth=0):
    """case distinction over the conditions of an undecided query"""
    a = pick_atom(core)
    if a is None or depth > 14 or time.time() > deadline:
        return solver.Result("unknown")
    tot = 0.0
    for val in (TRUE, FALSE):
        m = {a: val}
        lit = a if val is TRUE else tm.not_(a)
        if val is TRUE and a.op == "eq":
            u, v = a.args
            if tm.isc(v) and not tm.isc(u):
                m[u] = v
            elif tm.isc(u) and not tm.isc(v):
                m[v] = u
        memo = {}
        sub = [tm.subst(t, m, memo) for t in core] + [lit]
        if FALSE in sub or tm.and_(sub) is FALSE:
            continue
        left = deadline - time.time()
        if left <= 0:
            return solver.Result("unknown")
        r = solver.check1(sub + rel, min(step, left), fp)
        tot += r.time
        if r.status == "unknown":
            r = cube(sub, rel, deadline, fp, step, depth + 1)
        if r.status != "unsat":
            return r
    r = solver.Result("unsat")
    r.backend, r.time = "z3 (case split)", tot
    return r


def has_float(ts):
    for t in ts:
        for x in tm.leaves(t):
            if x.op == "app" and x.p.startswith("f."):
                return True
    return False


def verify(prog, c, keep_models=True):
    t0 = time.time()
    rep = Report(c)
    solver.stats.update({"z3": 0, "cvc5": 0, "syntactic": 0, "time": 0.0, "queries": 0})
    E = None
    rep.models = []
    rep.trivial = 0
    if c.sampled:
        if prog.func(c.func) is None:
            rep.failed.append({"obligation": "%s: the function exists" % label(c), "status": "missing", "pos": "", "kind": "generation"})
        rep.stats = dict(solver.stats)
        return rep
    dl = time.time() + c.opts.get("solve_budget", 300)
    vac = {}
    inl, summ, trust = set(), set(), set()
    try:
        for case in cases(c):
            E, x, pre, args, out, res, xs, sres = build(prog, c, case)
            post_obligations(E, c, pre, args, out, res, xs, sres)
            rep.trivial += getattr(E, "trivial", 0)
            sfx = "" if not case else " [%s]" % ", ".join("%s=%s" % kv for kv in case.items())
            for nm, bk, tt in E.proved:
                rep.obligations.append((nm + sfx, "loop invariant", "unsat", bk, tt))
            for ob in E.obls:
                if time.time() > dl:
                    rep.failed.append({"obligation": ob.name + sfx, "status": "solver budget exhausted", "pos": ob.pos, "kind": ob.kind})
                    rep.obligations.append((ob.name + sfx, ob.kind, "unknown", "", 0))
                    break
                r = discharge(E, ob, c.timeout)
                rep.obligations.append((ob.name + sfx, ob.kind, r.status, r.backend, r.time))
                if r.status != "unsat":
                    rep.failed.append({"obligation": ob.name + sfx, "status": "counterexample" if r.status == "sat" else "undecided",
                                       "pos": ob.pos, "kind": ob.kind, "goal": tm.show(ob.goal, 5)[:600]})
                    if r.status == "sat" and len(rep.models) < 6:
                        rep.models.append((ob.name, r, x))
                    if len(rep.failed) > 12:
                        break
            inl |= set(E.inlined)
            summ |= set(E.used_summaries)
            trust |= set(E.trusted)
            # vacuity: the precondition is satisfiable, and so are normal and error return
            covers = [("precondition satisfiable", [])]
            if out is not None:
                covers.append(("normal return reachable", list(out.pc) + [tm.not_(xs.err)]))
            if xs.err is not FALSE and not c.no_error_cover and (out is None or getattr(c, "err_any", False)) and not E.error_returns:
                covers.append(("error return reachable", [xs.err]))
            elif xs.err is not FALSE and not c.no_error_cover:
                covers.append(("error return reachable", [tm.or_([tm.and_(list(pc)) for pc in E.error_returns]), xs.err]))
            for nm, t in xs.covers:
                covers.append((nm, [t]))
            for nm, ts in covers:
                if vac.get(nm) == "sat":
                    continue
                cond = tm.and_(list(ts))
                r = solver.check([cond] + list(E.facts), timeout=20)
                vac[nm] = r.status
            if len(rep.failed) > 12 or time.time() > dl:
                break
        rep.vacuity = list(vac.items())
        if not rep.failed:
            for nm, st in vac.items():
                if st == "unsat":
                    rep.failed.append({"obligation": "%s: vacuity guard: %s" % (label(c), nm), "status": "vacuous", "pos": "", "kind": "vacuity"})
        if not rep.obligations and not rep.trivial:
            rep.failed.append({"obligation": "%s: obligations generated" % label(c), "status": "none", "pos": "", "kind": "vacuity"})
    except (Unsupported, KeyError, RecursionError, TypeError, AttributeError, IndexError, AssertionError) as e:
        rep.error = "%s: %s" % (type(e).__name__, e)
        rep.trace = traceback.format_exc()
        rep.failed.append({"obligation": "%s: verification conditions can be generated" % label(c), "status": rep.error[:500],
                           "pos": "", "kind": "generation"})
    if E is not None:
        rep.inlined = sorted(inl | set(E.inlined))
        rep.summaries = sorted(summ | set(E.used_summaries))
        rep.assumed = sorted(trust | set(E.trusted))
        rep.facts = len(E.facts)
    rep.stats = dict(solver.stats)
    rep.wall = time.time() - t0
    return rep


# ------------------------------------------------------------------ models -> concrete inputs
class ModelSrc:
    """input values from a solver model"""

    def __init__(self, res, x):
        self.r, self.x = res, x
        self.apps = {}
        for a in res.tr.apps.values():
            self.apps.setdefault(a.p, []).append(a)

    def val(self, t):
        return solver.model_value(self.r, t)

    def __call__(self, name, w):
        if name in self.x.case:
            cv = self.x.case[name]
            if not isinstance(cv, tuple):
                return cv
            name = "%s~%d" % (name, cv[0])
        if isinstance(name, tuple):
            t = tm.app(name[0], tuple(bv(i, 64) for i in name[1]), w)
        else:
            t = tm.var(name, w)
        try:
            v = self.val(t)
        except Exception:
            return None
        return int(v)

    def bits(self, name):
        ln = self(name + ".len", 64)
        p0 = self(name + ".pos", 64)
        ws = []
        for a in self.apps.get("bits_" + name, []):
            ws.append((self.val(a.args[0]), self.val(a)))
        base = p0 & ~7
        ws = sorted((p - base, v) for p, v in ws if 0 <= p - base < 100000)
        mx = (ws[-1][0] if ws else 0) + 64
        n = min(ln - base, (mx + 64 + 7) & ~7)
        bits = 0
        for p, v in ws:
            bits &= (1 << p) - 1
            bits |= v << p
        bits &= (1 << n) - 1
        return bits, n, p0 - base
