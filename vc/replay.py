"""Running the real compiled functions on concrete inputs (Go test overlay) and comparing
with the specification evaluated on the same inputs."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import terms as tm
import floats as fl
from terms import bv, TRUE, FALSE
from contract import *
import contract as ct
import engine as en

HERE = os.path.dirname(os.path.abspath(__file__))
MOD = "github.com/kpfaulkner/jxl-go"


def goenv():
    e = dict(os.environ)
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e["GOPATH"] = "/root/go"
    e["GOMODCACHE"] = "/root/go/pkg/mod"
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e["GOTOOLCHAIN"] = "local"
    e["GOFLAGS"] = "-mod=mod"
    e["GOPROXY"] = "off"
    e["GOWORK"] = "off"
    return e


# ------------------------------------------------------------------ encoding
class Enc:
    def __init__(self, x, state):
        self.x, self.s, self.p = x, state, x.p
        self.objs = {}

    def enc(self, v, tid):
        t = self.p.types[tid]
        k = t["k"]
        if isinstance(v, AbsV):
            if v.kind == "BitReader":
                n = v.data.len.p
                pos = self.s.heap[v.obj].f[0].p
                self.objs[v.obj] = {"hex": (v.data.bits & ((1 << n) - 1)).to_bytes(n // 8, "little").hex() if n else "",
                                    "pos": str(pos)}
                return {"rd": v.obj}
            m = v.data.encode(self, v) if hasattr(v.data, "encode") else {}
            m["mk"] = v.kind
            return m
        if v is NIL:
            return None
        if k == "int":
            return str(tm.sval(v) if t["s"] else v.p)
        if k == "float":
            return str(v.p)
        if k == "bool":
            return v is TRUE
        if k == "string":
            return conc_str(v).encode("latin-1").hex()
        if k == "struct":
            return {str(i): self.enc(f, t["f"][i][1]) for i, f in enumerate(v.f) if not skipz(f)}
        if k == "array":
            if isinstance(v, FArr):
                v = ArrV([v.get((bv(i, 64),)) for i in range(t["n"])])
            return [self.enc(e, t["e"]) for e in v.e]
        if k == "ptr":
            if isinstance(v, FuncV):
                return {"mk": v.name}
            if v.path:
                raise Unsupported("interior pointer in replay")
            if v.obj not in self.objs:
                self.objs[v.obj] = None
                self.objs[v.obj] = self.enc(self.s.heap[v.obj], t["e"])
            return {"p": v.obj}
        if k == "slice":
            if v.obj is None:
                return None
            if v.path:
                raise Unsupported("nested slice in replay")
            if v.obj not in self.objs:
                self.objs[v.obj] = []
                c = self.s.heap[v.obj]
                if isinstance(c, FArr):
                    n = v.off.p + v.cap.p
                    if n > 100000:
                        raise Reject()
                    c = ArrV([c.get((bv(i, 64),)) for i in range(n)])
                self.objs[v.obj] = [self.enc(e, t["e"]) for e in c.e]
            return {"s": v.obj, "off": str(v.off.p), "len": str(v.len.p), "cap": str(v.cap.p)}
        if k == "func":
            if isinstance(v, FuncV):
                return {"mk": v.name}
            return None
        if k == "iface":
            if isinstance(v, IfaceV):
                return {"mk": "iface:" + self.p.types[v.dyn]["name"], "v": self.enc(v.val, v.dyn)}
            if isinstance(v, tm.T):
                return None
        if k == "map":
            return {}
        return None


def conc_str(v):
    if v.s is not None:
        return v.s
    if v.arr is None:
        return ""
    n, fn = v.bytes()
    return "".join(chr(fn(bv(i, 64)).p) for i in range(n.p))


def skipz(v):
    return v is NIL or v is NILSLICE or isinstance(v, MapV)


# ------------------------------------------------------------------ comparison
class Mismatch(Exception):
    pass


def isnan(b, w):
    return fl.b2f(b, w) != fl.b2f(b, w)


def cmpv(x, s, v, tid, j, name, seen=None):
    """v: expected value (constants) in state s; j: what the real code produced"""
    p = x.p
    t = p.types[tid]
    k = t["k"]
    if isinstance(v, AnyV) or isinstance(v, (AbsV, FuncV, Opaque)):
        return
    if isinstance(j, str) and j in ("deep", "cyc", "long"):
        return
    if k in ("int", "float", "bool"):
        if not isinstance(v, tm.T):
            return
        if not (tm.isc(v) or v is TRUE or v is FALSE):
            raise Unsupported("expected value of %s did not evaluate: %s" % (name, tm.show(v, 3)))
        if k == "int":
            e = str(tm.sval(v) if t["s"] else v.p)
            if e != j:
                raise Mismatch("%s: expected %s, got %s" % (name, e, j))
        elif k == "float":
            if str(v.p) != j:
                if isnan(v.p, v.s) and isnan(int(j), v.s):
                    return
                raise Mismatch("%s: expected %r, got %r" % (name, float(fl.b2f(v.p, v.s)), float(fl.b2f(int(j), v.s))))
        else:
            if (v is TRUE) != j:
                raise Mismatch("%s: expected %s, got %s" % (name, v is TRUE, j))
        return
    if k == "string":
        if isinstance(v, StrV) and v.known():
            e, g = conc_str(v), bytes.fromhex(j).decode("latin-1")
            if e != g:
                raise Mismatch("%s: expected %r, got %r" % (name, e, g))
        return
    if k == "struct":
        if not isinstance(v, StructV):
            return
        for i, (fn, ft) in enumerate(t["f"]):
            if p.types[ft]["name"].startswith("sync."):
                continue
            cmpv(x, s, v.f[i], ft, j.get(str(i)), name + "." + fn)
        return
    if k == "array":
        for i in range(t["n"]):
            e = v.e[i] if isinstance(v, ArrV) else v.get((bv(i, 64),))
            cmpv(x, s, e, t["e"], j[i], "%s[%d]" % (name, i))
        return
    if k == "ptr":
        if v is NIL:
            if j is not None:
                raise Mismatch("%s: expected nil pointer" % name)
            return
        if j is None:
            raise Mismatch("%s: got nil pointer" % name)
        if isinstance(v, Ptr):
            cmpv(x, s, x.E.load(s, v), t["e"], j["^"], name)
        return
    if k == "slice":
        if not isinstance(v, SliceV):
            return
        n = v.len.p
        if j is None:
            j = []
        if len(j) != n:
            raise Mismatch("%s: expected length %d, got %d" % (name, n, len(j)))
        for i in range(n):
            cmpv(x, s, x.E.elem(s, v, bv(i, 64)), t["e"], j[i], "%s[%d]" % (name, i))
        return
    if k == "iface":
        if isinstance(v, IfaceV) and isinstance(j, dict) and "v" in j:
            cmpv(x, s, v.val, v.dyn, j["v"], name)
        elif v is NIL and j is not None:
            raise Mismatch("%s: expected nil interface" % name)
        return
    return


# ------------------------------------------------------------------ cases
class Case:
    __slots__ = ("c", "x", "args", "sres", "xs", "json", "tids", "why")


def make_case(prog, c, src, E=None):
    """concrete inputs and expected behaviour; raises Reject when outside the precondition"""
    import verify
    E = E or verify.make_engine(prog, c)
    E.dry = 1
    x = Ctx(E, "conc", src)
    args = c.inputs(x)
    for nm, t in c.pre(x, *args):
        x.require(t)
    f = prog.func(c.func)
    if f is None:
        raise Unsupported("no function " + c.func)
    tids = signature(prog, c)[0]
    if len(tids) != len(args):
        raise Unsupported("signature changed")
    case = Case()
    case.c, case.x, case.args = c, x, args
    enc = Enc(x, x.s)
    case.tids = tids
    ja = [enc.enc(a, t) for a, t in zip(args, tids)]
    for a in x.readers:
        pass
    case.json = {"fn": ct_label(c), "args": ja, "objs": enc.objs}
    xs = Ctx(E, "conc", src)
    xs.s = State(dict(x.s.heap), {}, ())
    sres = c.spec(xs, *args)
    sres = [] if sres is None else [r._raw() if isinstance(r, (Ref, SRef)) else r for r in sres]
    case.sres, case.xs = sres, xs
    if not (xs.err is TRUE or xs.err is FALSE):
        raise Unsupported("error condition did not evaluate: %s" % tm.show(xs.err, 4)[:200])
    return case


def ct_label(c):
    return c.func


def check_case(prog, case, out):
    """raises Mismatch if the real result differs from the specification"""
    c, xs = case.c, case.xs
    if out.get("badjson"):
        return False
    if "timeout" in out:
        raise Mismatch("the call does not return within 5 s")
    if "panic" in out:
        if out.get("stage") != "call":
            raise Unsupported("harness: %s (%s)" % (out["panic"], out.get("stage")))
        raise Mismatch("the call panics: %s" % out["panic"])
    rts = list(signature(prog, c)[1])
    rs = list(out["r"])
    if rts and prog.types[rts[-1]]["name"] == "error":
        e = rs.pop()
        rts.pop()
        if not getattr(c, "err_any", False):
            if xs.err is TRUE and e == "nil":
                raise Mismatch("an error is specified but none is returned")
            if xs.err is FALSE and e != "nil":
                raise Mismatch("unexpected error: %s" % e)
        if xs.err is TRUE:
            return True
        if e != "nil":
            return True
    for i, (v, t, j) in enumerate(zip(case.sres, rts, rs)):
        cmpv(case.x, xs.s, v, t, j, "result%d" % i)
    for i, (v, t, j) in enumerate(zip(case.args, case.tids, out["a"])):
        if isinstance(v, (AbsV, FuncV)) or v is NIL:
            continue
        cmpv(case.x, xs.s, v, t, j, "argument%d after the call" % i)
    for o, m in ({} if getattr(c, "no_rdcheck", False) else out.get("rd", {})).items():
        pos = xs.s.heap[o].f[0].p
        if str(pos) != m["pos"]:
            raise Mismatch("bit position after the call: expected %d, got %s" % (pos, m["pos"]))
        src = [r for r in case.x.readers if r.obj == o]
        if src:
            d = src[0].data
            e = "eof" if pos >= d.len.p else str((d.bits >> pos) & 1)
            if e != m["next"]:
                raise Mismatch("next bit after the call: expected %s, got %s" % (e, m["next"]))
    return True


# ------------------------------------------------------------------ Go side
def gofunc(fn, pkgname):
    """Go expression for an SSA function name inside its package"""
    m = re.match(r"^\((\*?)([^)]*)\)\.(\w+)$", fn)
    if m:
        tn = m.group(2)
        tn = re.sub(r"\b%s\." % re.escape(pkgname), "", tn)
        tn = tn.split("/")[-1] if "[" not in tn else tn
        return "(%s%s).%s" % (m.group(1), tn, m.group(3))
    base, _, targs = fn.partition("[")
    base = base.split(".")[-1]
    return base + (re.sub(r"\b%s\." % re.escape(pkgname), "", "[" + targs) if targs else "")


def pkg_of(prog, c):
    if getattr(c, "pkg", None):
        return c.pkg
    f = prog.raw[c.func]
    return f.get("pkg") or re.match(r"^\(?\*?([\w/]+)\.", c.func).group(1)


class GoRunner:
    def __init__(self, repo, prog, work):
        self.repo, self.prog, self.work = repo, prog, work
        self.bins = {}

    def build(self, pkg, contracts):
        """compile the test binary of one package with the given functions registered"""
        d = os.path.join(self.work, pkg.replace("/", "_"))
        os.makedirs(d, exist_ok=True)
        name = pkg.split("/")[-1]
        fns = {}
        helpers, imports = [], set()
        for c in contracts:
            if c.func in self.prog.raw:
                fns[c.func] = getattr(c, "goexpr", None) or gofunc(c.func, name)
            h = getattr(c, "go_helper", None)
            if h and h not in helpers:
                helpers.append(h)
            imports |= set(getattr(c, "go_imports", ()))
        src = open(os.path.join(HERE, "goharness.txt")).read()
        if name == "jxlio":
            src = src.replace("@NEWREADER@", "NewBitStreamReader")
        else:
            src = src.replace("@NEWREADER@", "jxlio.NewBitStreamReader")
            imports.add(MOD + "/jxlio")
        src = src.replace("@PKG@", name).replace("@IMPORTS@", "".join('\t"%s"\n' % i for i in sorted(imports)))
        src += "\nvar vFuncs = map[string]reflect.Value{\n"
        for k, v in sorted(fns.items()):
            src += "\t%s: reflect.ValueOf(%s),\n" % (json.dumps(k), v)
        src += "}\n" + "\n".join(helpers)
        if name != "jxlio":
            src += "\nvar _ = jxlio.NewBitStreamReader\n"
        gf = os.path.join(d, "zz_verif_test.go")
        open(gf, "w").write(src)
        rep = {os.path.join(self.repo, pkg, "zz_verif_test.go"): gf}
        for f in os.listdir(os.path.join(self.repo, pkg)):
            if f.endswith("_test.go"):
                rep[os.path.join(self.repo, pkg, f)] = ""
        ov = os.path.join(d, "overlay.json")
        json.dump({"Replace": rep}, open(ov, "w"))
        out = os.path.join(d, "t.bin")
        return subprocess.Popen(["bash", "-c", "go test -c -vet=off -overlay %s -o %s.tmp ./%s 2> %s/log && mv %s.tmp %s; touch %s/done"
                                 % (ov, out, pkg, d, out, out, d)], cwd=self.repo, env=goenv(), stdin=subprocess.DEVNULL)

    def run(self, pkg, cases, tag="c", timeout=60, memkb=12000000):
        d = os.path.dirname(self.bins[pkg])
        ci, co = os.path.join(d, tag + ".in.json"), os.path.join(d, tag + ".out.json")
        json.dump([c.json for c in cases], open(ci, "w"))
        if os.path.exists(co):
            os.unlink(co)
        e = goenv()
        e["VERIF_CASES"], e["VERIF_OUT"] = ci, co
        e["GOMEMLIMIT"] = "4GiB"
        try:
            subprocess.run(["bash", "-c", "ulimit -v %d; exec %s -test.run TestVerifReplay -test.timeout %ds" % (memkb, self.bins[pkg], timeout)],
                           cwd=os.path.join(self.repo, pkg), env=e, capture_output=True, text=True, timeout=timeout + 10)
        except subprocess.TimeoutExpired:
            pass
        outs = {}
        if os.path.exists(co):
            for l in open(co):
                try:
                    o = json.loads(l)
                except ValueError:
                    continue
                outs[o["i"]] = o
        return outs
