#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY : decide one property.

1. extract typed SSA of every function from /repo's current working tree (ssadump),
2. verify every function under contract for the property (obligations -> z3 / cvc5),
3. replay: run the real compiled functions on solver models of failed obligations and on
   sampled inputs, compared with the contract evaluated on the same inputs.
exit 0: all obligations discharged and no disagreement; exit 1: VIOLATION line(s)."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VC = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(VC)
sys.path.insert(0, VC)
import contract as ct          # noqa: E402
import engine as en            # noqa: E402
import replay                  # noqa: E402
import verify                  # noqa: E402
from contract import Reject, Source    # noqa: E402
from values import Unsupported         # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
MODULES = sorted(f[:-3] for f in os.listdir(os.path.join(VC, "contracts")) if f.endswith(".py") and f != "__init__.py")


def frontend():
    """path of an up-to-date ssadump binary"""
    fd = os.path.join(ROOT, "frontend")
    h = hashlib.sha256()
    for f in sorted(os.listdir(fd)):
        h.update(open(os.path.join(fd, f), "rb").read())
    b = os.path.join(ROOT, "build", "ssadump-" + h.hexdigest()[:12])
    if not os.path.exists(b):
        os.makedirs(os.path.dirname(b), exist_ok=True)
        tmp = b + ".%d" % os.getpid()
        r = subprocess.run(["go", "build", "-o", tmp, "."], cwd=fd, env=replay.goenv(), capture_output=True, text=True)
        if r.returncode != 0:
            raise SystemExit("cannot build the frontend: " + r.stderr)
        os.rename(tmp, b)
    return b


def dump(work):
    out = os.path.join(work, "ssa.json")
    r = subprocess.run([frontend(), REPO, out], env=replay.goenv(), capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        return None, r.stderr[-2000:]
    return en.Program(out), ""


def load_contracts():
    for m in MODULES:
        importlib.import_module("contracts." + m)


def props_of(c):
    return c.prop if isinstance(c.prop, (tuple, list)) else (c.prop,)


# ------------------------------------------------------------------ worker
def worker(prog, c, gorun, seed, tier, conn, deadline):
    try:
        rep = verify.verify(prog, c)
        d = {k: getattr(rep, k, None) for k in ("func", "label", "obligations", "failed", "error", "vacuity", "inlined",
                                                "summaries", "facts", "wall", "stats", "trivial", "trace")}
        d["replay"] = run_replay(prog, c, rep, gorun, seed, tier, deadline)
        conn.send(d)
    except BaseException as e:  # noqa
        conn.send({"crash": traceback.format_exc(), "label": verify.label(c), "func": c.func})
    conn.close()


def run_replay(prog, c, rep, gorun, seed, tier, deadline):
    R = {"samples": 0, "rejected": 0, "ok": 0, "err_cases": 0, "failing": None, "note": ""}
    if c.no_replay or c.func not in prog.raw:
        R["note"] = "no replay harness"
        return R
    pkg = replay.pkg_of(prog, c)
    bd = os.path.join(gorun.work, pkg.replace("/", "_"))
    while not os.path.exists(os.path.join(bd, "done")):
        if time.time() > deadline:
            return R
        time.sleep(0.05)
    binp = os.path.join(bd, "t.bin")
    if not os.path.exists(binp):
        R["note"] = "the replay harness does not compile"
        return R
    gorun.bins[pkg] = binp
    tag = hashlib.sha1(verify.label(c).encode()).hexdigest()[:10]

    def go(cases, tg, tmo):
        outs = gorun.run(pkg, [k for k in cases], tag + tg, tmo)
        for i, k in enumerate(cases):
            o = outs.get(i)
            if o is None:
                continue
            try:
                if replay.check_case(prog, k, o):
                    R["ok"] += 1
                    R["err_cases"] += k.xs.err is ct.TRUE
            except replay.Mismatch as e:
                return {"function": c.func, "input": k.json, "disagreement": str(e), "observed": trunc(o)}
            except Unsupported as e:
                R["note"] = "replay: %s" % e
        return None
    # counterexamples of failed obligations first
    for nm, r, x in getattr(rep, "models", []):
        try:
            k = replay.make_case(prog, c, ModelSource(r, x))
        except (Reject, Unsupported, KeyError, IndexError, TypeError, AttributeError, MemoryError, OverflowError, ValueError, RecursionError) as e:
            R["note"] = "model of '%s' not replayable: %s" % (nm, str(e)[:200])
            continue
        f = go([k], "m", 20)
        if f:
            f["from"] = "solver model of obligation: " + nm
            R["failing"] = f
            return R
    n = c.samples * (12 if tier == "thorough" else 1)
    rounds = 1 if not rep.failed else 12
    for rnd in range(rounds):
        cases = []
        t0 = time.time()
        i = 0
        while len(cases) < n and i < 6 * n and time.time() - t0 < 20 + (40 if tier == "thorough" else 0):
            i += 1
            try:
                cases.append(replay.make_case(prog, c, Source((seed * 7919 + rnd) * 1000003 + i)))
            except Reject:
                R["rejected"] += 1
            except (Unsupported, KeyError, IndexError, TypeError, AttributeError) as e:
                R["note"] = "sampling: %s: %s" % (type(e).__name__, str(e)[:300])
                if os.environ.get("VERIF_DEBUG"):
                    R["note"] += traceback.format_exc()
                break
        R["samples"] += len(cases)
        if cases:
            f = go(cases, "r%d" % rnd, 60)
            if f:
                f["from"] = "sampled input"
                R["failing"] = f
                return R
        else:
            break
        if time.time() > deadline:
            break
    return R


class ModelSource(Source):
    def __init__(self, r, x):
        Source.__init__(self, 1, verify.ModelSrc(r, x))


def trunc(o):
    s = json.dumps(o)
    return o if len(s) < 4000 else s[:4000]


# ------------------------------------------------------------------ main
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.setup:
        frontend()
        r = subprocess.run([sys.executable, os.path.join(VC, "selftest_terms.py")])
        return r.returncode
    prop = a.property
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    load_contracts()
    cs = [c for c in ct.ALL if prop in props_of(c)]
    if a.only:
        cs = [c for c in cs if a.only in verify.label(c)]
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    rdir = os.path.join(ROOT, "build", "replay")
    os.makedirs(rdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix="vc-%s-" % prop, dir=os.path.join(ROOT, "build"))
    try:
        return run(a, prop, cs, work, rdir, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def violation(prop, rdir, label, data, failing):
    nm = "%s-%s.json" % (prop, "".join(ch if ch.isalnum() else "_" for ch in label)[:90])
    path = os.path.join(rdir, nm)
    json.dump(data, open(path, "w"), indent=1, default=str)
    print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if failing else " no-failing-input-found"))


def run(a, prop, cs, work, rdir, t0):
    budget = 780 if a.tier == "quick" else 3000
    deadline = t0 + budget
    prog, err = dump(work)
    if prog is None:
        violation(prop, rdir, "extraction", {"obligation": "extraction of the source", "output": err}, False)
        write_evidence(a, prop, cs, [], t0, 1)
        return 1
    gorun = replay.GoRunner(REPO, prog, work)
    pkgs = {}
    for c in cs:
        if c.func in prog.raw and not c.no_replay:
            pkgs.setdefault(replay.pkg_of(prog, c), []).append(c)
    builds = {p: gorun.build(p, pkgs[p]) for p in pkgs}
    # run contracts in parallel worker processes
    nproc = min(8, os.cpu_count() or 4)
    pend = sorted(cs, key=lambda c: -c.opts.get("weight", 1))
    running, results = {}, []
    ctx = mp.get_context("fork")
    while pend or running:
        while pend and len(running) < nproc:
            c = pend.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(prog, c, gorun, a.seed, a.tier, w, deadline - 60))
            p.start()
            w.close()
            running[p] = (c, r, time.time())
        for p in list(running):
            c, r, ts = running[p]
            if r.poll(0.02):
                try:
                    d = r.recv()
                except EOFError:
                    d = {"crash": "worker ended without a result", "label": verify.label(c), "func": c.func}
                d["contract"] = c
                results.append(d)
                p.join()
                del running[p]
                if a.v:
                    show(d)
            elif not p.is_alive() and not r.poll(0.2):
                results.append({"crash": "worker died (exit %s)" % p.exitcode, "label": verify.label(c), "func": c.func, "contract": c})
                del running[p]
            elif time.time() - ts > c.opts.get("wall", 300) or time.time() > deadline:
                p.kill()
                p.join()
                results.append({"crash": "time limit of the verification of this function exceeded", "label": verify.label(c),
                                "func": c.func, "contract": c})
                del running[p]
    builderr = {}
    for p, b in builds.items():
        b.wait()
        d = os.path.join(work, p.replace("/", "_"))
        if not os.path.exists(os.path.join(d, "t.bin")):
            builderr[p] = open(os.path.join(d, "log")).read()
    viol = 0
    for d in sorted(results, key=lambda d: d["label"]):
        lab = d["label"]
        if "crash" in d:
            d["failed"] = [{"obligation": "%s: verification finishes" % lab, "status": d["crash"]}]
            d.setdefault("replay", {})
        f = (d.get("replay") or {}).get("failing")
        if d["failed"] or f:
            viol += 1
            data = {"property": prop, "function": d["func"], "failed_obligations": d["failed"], "failing_input": f,
                    "replay_note": (d.get("replay") or {}).get("note"), "error": d.get("error"), "trace": d.get("trace")}
            if d["failed"]:
                print("obligation failed: %s [%s]" % (d["failed"][0]["obligation"], str(d["failed"][0].get("status"))[:300]))
            if f:
                print("failing input for %s: %s" % (d["func"], f["disagreement"]))
            violation(prop, rdir, lab, data, f is not None)
    for p, e in builderr.items():
        if e:
            print("note: the replay harness of package %s does not compile: %s" % (p, e[-600:]))
    if not results:
        print("no contract for %s" % prop)
        violation(prop, rdir, "none", {"obligation": "contracts exist"}, False)
        viol += 1
    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    write_evidence(a, prop, cs, results, t0, viol)
    nob = sum(len(d.get("obligations") or []) + (d.get("trivial") or 0) for d in results)
    print("%s: %d functions under contract, %d obligations, %d violations, %.1fs" % (prop, len(results), nob, viol, time.time() - t0))
    return 1 if viol else 0


def known_findings(prop):
    p = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                out.append(l.split(" ", 2)[2])
    return out


def show(d):
    if "crash" in d:
        print("  CRASH", d["label"], d["crash"][-1500:])
        return
    o = d["obligations"]
    bad = [x for x in o if x[2] != "unsat"]
    print("  %-60s %3d obl (+%d syntactic) %d failed  %.1fs  max %.1fs | replay ok=%s err=%s rej=%s %s" % (
        d["label"], len(o), d["trivial"] or 0, len(d["failed"]), d["wall"], max([x[4] for x in o] or [0]),
        d["replay"].get("ok"), d["replay"].get("err_cases"), d["replay"].get("rejected"), d["replay"].get("note")))
    for x in d["failed"][:8]:
        print("      FAILED", x["obligation"], "|", x["status"], x.get("pos", ""), "|", x.get("goal", "")[:300])
    if d.get("error"):
        print(d["trace"][-1500:])
    for v in d["vacuity"]:
        if v[1] != "sat":
            print("      vacuity", v)
    if d["replay"].get("failing"):
        f = d["replay"]["failing"]
        print("      FAILING INPUT", f["from"], f["disagreement"], json.dumps(f["input"])[:1500])


def write_evidence(a, prop, cs, results, t0, viol):
    obl = disc = triv = 0
    back = {}
    stime = 0.0
    fns, trusted = [], set()
    bounded = []
    samples = 0
    for d in results:
        c = d.get("contract")
        o = d.get("obligations") or []
        if c is not None and c.bounded:
            bounded.append({"function": d["label"], "bound": c.bounded, "obligations": len(o) + (d.get("trivial") or 0)})
        else:
            obl += len(o) + (d.get("trivial") or 0)
            disc += sum(1 for x in o if x[2] == "unsat") + (d.get("trivial") or 0)
        triv += d.get("trivial") or 0
        for x in o:
            if x[2] == "unsat":
                back[x[3]] = back.get(x[3], 0) + 1
        stime += (d.get("stats") or {}).get("time", 0)
        rp = d.get("replay") or {}
        samples += rp.get("ok", 0)
        fns.append({"function": d["label"], "obligations": len(o), "closed_syntactically": d.get("trivial") or 0,
                    "failed": [f["obligation"] for f in d.get("failed", [])][:10], "wall_s": round(d.get("wall") or 0, 2),
                    "executed_bodies": d.get("inlined"), "callee_contracts": d.get("summaries"),
                    "replayed_inputs_agreeing": rp.get("ok", 0), "replay_note": rp.get("note", ""),
                    "vacuity_guards": d.get("vacuity")})
    back["syntactic (term normaliser)"] = triv
    for c in cs:
        trusted |= set(getattr(c, "assumes", ()))
    base = ["go/ssa extraction (golang.org/x/tools v0.52.0, frontend/main.go)",
            "verification-condition generator vc/engine.py, vc/loops.py, vc/terms.py (term rewriting self-tested by vc/selftest_terms.py)",
            "z3 %s, cvc5" % __import__("z3").get_version_string()]
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": "proof",
          "coverage": {"obligations": obl, "discharged": disc,
                       "checker_cmd": "python3-vt vc/check.py %s --tier %s" % (prop, a.tier),
                       "trusted_base": base + sorted(trusted),
                       "functions_under_contract": len(results), "by_back_end": back, "solver_time_s": round(stime, 2),
                       "functions": sorted(fns, key=lambda f: f["function"]), "bounded": bounded,
                       "replayed_inputs": samples},
          "assumptions": ASSUME + sorted(trusted), "wall_s": round(time.time() - t0, 2), "violations": viol}
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


ASSUME = [
    "machine integers are exact bit-vectors (int and uint are 64 bit); float operations are uninterpreted functions of their "
    "operands' bit patterns unless an obligation needs IEEE-754, so equalities hold for the exact Go expression evaluation order "
    "(no fused multiply-add, as on amd64)",
    "callees with a contract are replaced by that contract (each is itself verified by the check of its property)",
    "slices and pointers passed as distinct arguments do not alias unless the contract says so; rows of a matrix are distinct slices",
    "memory allocation succeeds; termination is not proved except where loops are fully unrolled",
    "package-level variables keep the value given by package initialisation",
]

if __name__ == "__main__":
    sys.exit(main())
