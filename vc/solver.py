"""Discharge of obligations: z3 (python bindings) first, cvc5 as second opinion."""
import time
import z3
import terms as tm

FP_UF = True  # floats uninterpreted


class Tr:
    """term -> z3 translation.  fp='uf': float operations are uninterpreted
    functions on bit patterns; fp='ieee': exact IEEE-754 (round to nearest even)."""

    def __init__(self, fp="uf"):
        self.memo = {}
        self.fns = {}
        self.fp = fp
        self.vars = {}
        self.apps = {}

    def srt(self, s):
        return z3.BoolSort() if s == 0 else z3.BitVecSort(s)

    def tr(self, t):
        memo = self.memo
        r = memo.get(t.id)
        if r is not None:
            return r
        st = [(t, False)]
        while st:
            x, done = st.pop()
            if x.id in memo:
                continue
            if not done and x.args:
                st.append((x, True))
                for a in x.args:
                    if a.id not in memo:
                        st.append((a, False))
                continue
            memo[x.id] = self.t1(x, [memo[a.id] for a in x.args])
        return memo[t.id]

    def t1(self, x, a):
        op, s = x.op, x.s
        if op == "c":
            return z3.BitVecVal(x.p, s)
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "v":
            self.vars[x.p] = x
            return z3.Const(x.p, self.srt(s))
        if op == "app":
            self.apps[x.id] = x
            if self.fp == "ieee":
                r = self.ieee(x, a)
                if r is not None:
                    return r
            k = (x.p, tuple(y.s for y in x.args), s)
            f = self.fns.get(k)
            if f is None:
                f = self.fns[k] = z3.Function(x.p + ("" if k[1:] == () else "@%s@%d" % (",".join(map(str, k[1])), s)),
                                              *[self.srt(y) for y in k[1]], self.srt(s))
            return f(*a)
        if op == "not":
            return z3.Not(a[0])
        if op == "and":
            return z3.And(*a)
        if op == "or":
            return z3.Or(*a)
        if op == "iff" or op == "eq":
            return a[0] == a[1]
        if op == "ite":
            return z3.If(a[0], a[1], a[2])
        if op == "lin":
            c, ks = x.p
            pos = []
            ngs = []
            for y, k in zip(a, ks):
                kk = tm.tosigned(k, s)
                if kk == 1:
                    pos.append(y)
                elif kk == -1:
                    ngs.append(y)
                elif kk > 0:
                    pos.append(self.sc(y, kk, s))
                else:
                    ngs.append(self.sc(y, -kk, s))
            if c:
                if tm.tosigned(c, s) > 0 or not pos:
                    pos.append(z3.BitVecVal(c, s))
                else:
                    ngs.append(z3.BitVecVal(-tm.tosigned(c, s), s))
            r = None
            for y in pos:
                r = y if r is None else r + y
            for y in ngs:
                r = -y if r is None else r - y
            return r
        if op == "mul":
            r = a[0]
            for y in a[1:]:
                r = r * y
            return r
        if op == "ult":
            return z3.ULT(a[0], a[1])
        if op == "slt":
            return a[0] < a[1]
        if op == "zext":
            return z3.ZeroExt(s - x.args[0].s, a[0])
        if op == "sext":
            return z3.SignExt(s - x.args[0].s, a[0])
        if op == "extract":
            return z3.Extract(x.p[0], x.p[1], a[0])
        if op == "concat":
            return z3.Concat(a[0], a[1])
        if op in ("band", "bor", "bxor"):
            r = a[0]
            for y in a[1:]:
                r = (r & y) if op == "band" else (r | y) if op == "bor" else (r ^ y)
            return r
        if op == "shl":
            return a[0] << a[1]
        if op == "lshr":
            return z3.LShR(a[0], a[1])
        if op == "ashr":
            return a[0] >> a[1]
        if op == "udiv":
            return z3.UDiv(a[0], a[1])
        if op == "urem":
            return z3.URem(a[0], a[1])
        if op == "sdiv":
            return a[0] / a[1]
        if op == "srem":
            return z3.SRem(a[0], a[1])
        raise ValueError(op)

    def sc(self, y, k, s):
        if k & (k - 1) == 0:
            return y << z3.BitVecVal(k.bit_length() - 1, s)
        return y * z3.BitVecVal(k, s)

    def ieee(self, x, a):
        n = x.p
        RM = z3.RNE()

        def S(w):
            return z3.Float32() if w == 32 else z3.Float64()

        def F(b):
            return z3.fpBVToFP(b, S(b.size()))

        def B(f):
            return z3.fpToIEEEBV(f)
        if n.startswith("f.add"):
            return B(z3.fpAdd(RM, F(a[0]), F(a[1])))
        if n.startswith("f.sub"):
            return B(z3.fpSub(RM, F(a[0]), F(a[1])))
        if n.startswith("f.mul"):
            return B(z3.fpMul(RM, F(a[0]), F(a[1])))
        if n.startswith("f.div"):
            return B(z3.fpDiv(RM, F(a[0]), F(a[1])))
        if n.startswith("f.lt"):
            return z3.fpLT(F(a[0]), F(a[1]))
        if n.startswith("f.le"):
            return z3.fpLEQ(F(a[0]), F(a[1]))
        if n.startswith("f.eq"):
            return z3.fpEQ(F(a[0]), F(a[1]))
        if n.startswith("f.cvt"):  # float->float
            return B(z3.fpFPToFP(RM, F(a[0]), S(x.s)))
        if n.startswith("f.fromS"):
            return B(z3.fpSignedToFP(RM, a[0], S(x.s)))
        if n.startswith("f.fromU"):
            return B(z3.fpUnsignedToFP(RM, a[0], S(x.s)))
        if n.startswith("f.toS"):
            return z3.fpToSBV(z3.RTZ(), F(a[0]), z3.BitVecSort(x.s))
        if n.startswith("f.toU"):
            return z3.fpToUBV(z3.RTZ(), F(a[0]), z3.BitVecSort(x.s))
        return None


class Result:
    __slots__ = ("status", "model", "time", "backend", "tr")

    def __init__(self, status, model=None, t=0.0, backend="syntactic", tr=None):
        self.status = status
        self.model = model
        self.time = t
        self.backend = backend
        self.tr = tr

    def __repr__(self):
        return "Result(%s,%s,%.2fs)" % (self.status, self.backend, self.time)


stats = {"z3": 0, "cvc5": 0, "syntactic": 0, "time": 0.0, "queries": 0}


def relevant(terms, facts):
    """cone of influence: keep facts sharing variables/apps transitively"""
    def syms(t):
        return {x.id if x.op == "v" else ("a", x.p) for x in tm.leaves(t)}
    cur = set()
    for t in terms:
        cur |= syms(t)
    rest = [(f, syms(f)) for f in facts]
    out = []
    changed = True
    while changed:
        changed = False
        nr = []
        for f, s in rest:
            if not s or s & cur:
                out.append(f)
                if not s <= cur:
                    cur |= s
                changed = True
            else:
                nr.append((f, s))
        rest = nr
    return out


def check(asserts, timeout=20.0, fp="uf"):
    """satisfiability of the conjunction of asserts; defined functions stay uninterpreted
    when that suffices for unsatisfiability"""
    lv = tm.def_level(asserts)
    while lv > 0:
        r = check1(asserts, min(timeout, 1.5), fp)
        if r.status == "unsat":
            return r
        asserts = [tm.expand(t, lv) for t in asserts]
        lv = tm.def_level(asserts)
    return check1(asserts, timeout, fp)


def check1(asserts, timeout, fp):
    conj = tm.and_(list(asserts))
    if conj is tm.FALSE:
        stats["syntactic"] += 1
        return Result("unsat")
    if conj is tm.TRUE:
        return Result("sat", None)
    t0 = time.time()
    tr = Tr(fp)
    zs = [tr.tr(c) for c in (conj.args if conj.op == "and" else (conj,))]
    # declared ranges of variables / function results
    done = set()
    pend = list(tr.vars.values()) + list(tr.apps.values())
    for x in pend:
        if x.id in done:
            continue
        done.add(x.id)
        rg = None
        if x.op == "v":
            rg = tm._ranges.get(x.id)
            sr = tm._sranges.get(x.id)
        else:
            rg = tm._app_ranges.get(x.p)
            sr = tm._app_sranges.get(x.p)
        z = tr.memo[x.id]
        if rg is not None:
            if rg[0] > 0:
                zs.append(z3.UGE(z, z3.BitVecVal(rg[0], x.s)))
            if rg[1] < (1 << x.s) - 1:
                zs.append(z3.ULE(z, z3.BitVecVal(rg[1], x.s)))
        elif sr is not None:
            zs.append(z >= z3.BitVecVal(sr[0], x.s))
            zs.append(z <= z3.BitVecVal(sr[1], x.s))
    stats["queries"] += 1
    r = None
    s = z3.Solver() if fp == "uf" else z3.SolverFor("QF_FPBV") if not tr.fns else z3.Solver()
    s.set("timeout", int(timeout * 1000))
    s.set("random_seed", 1)
    for z in zs:
        s.add(z)
    r = s.check()
    dt = time.time() - t0
    stats["time"] += dt
    if r == z3.unsat:
        stats["z3"] += 1
        return Result("unsat", None, dt, "z3")
    if r == z3.sat:
        return Result("sat", s.model(), dt, "z3", tr)
    # second opinion
    r2 = cvc5_check(s, timeout)
    dt = time.time() - t0
    stats["time"] += time.time() - t0
    if r2 == "unsat":
        stats["cvc5"] += 1
        return Result("unsat", None, dt, "cvc5")
    return Result("unknown", None, dt, "z3+cvc5")


def cvc5_check(s, timeout):
    try:
        import cvc5
        txt = s.to_smt2()
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", str(int(timeout * 1000)))
        slv.setLogic("ALL")
        ip = cvc5.InputParser(slv)
        ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = ip.getSymbolManager()
        out = ""
        while True:
            c = ip.nextCommand()
            if c.isNull():
                break
            out += c.invoke(slv, sm)
        return out.strip().splitlines()[-1] if out.strip() else "unknown"
    except Exception as e:  # noqa
        return "unknown"


def model_value(res, t):
    """value of term t under the model of res"""
    z = res.model.eval(res.tr.tr(t), model_completion=True)
    if t.s == 0:
        return z3.is_true(z)
    try:
        return z.as_long()
    except Exception:
        z = z3.simplify(z)
        return z.as_long()
