"""Differential self-test of the normalising term constructors against direct
machine-arithmetic evaluation."""
import random
import sys
import terms as tm
from terms import *


def run(seed=1, rounds=4000):
    rnd = random.Random(seed)
    n = 0
    for r in range(rounds):
        w = rnd.choice([3, 4, 8, 16])
        M = (1 << w) - 1
        xs = []
        env = {}
        for i in range(3):
            nm = "st%d_%d_%d" % (seed, r, i)
            k = rnd.random()
            if k < .3:
                lo = rnd.randrange(0, M)
                hi = rnd.randrange(lo, M + 1)
                t = var(nm, w, lo, hi)
                env[nm] = rnd.randint(lo, hi)
            elif k < .5:
                t = var(nm, w)
                lo = rnd.randrange(-(M + 1) // 2, (M + 1) // 2)
                hi = rnd.randrange(lo, (M + 1) // 2)
                set_srange(t, lo, hi)
                env[nm] = rnd.randint(lo, hi) & M
            else:
                t = var(nm, w)
                env[nm] = rnd.choice([0, 1, M, M >> 1, (M >> 1) + 1, rnd.randrange(0, M + 1)])
            xs.append((t, env[nm]))
        bs = [(TRUE, True), (FALSE, False)]
        for step in range(14):
            a, av = rnd.choice(xs)
            b, bvv = rnd.choice(xs)
            if rnd.random() < .25:
                k = rnd.choice([0, 1, 2, M, M - 1, rnd.randrange(0, M + 1)])
                b, bvv = bv(k, w), k
            sa, sb = tosigned(av, w), tosigned(bvv, w)
            o = rnd.randrange(26)
            c, cv = rnd.choice(bs)
            if o == 0: xs.append((add(a, b), (av + bvv) & M))
            elif o == 1: xs.append((sub(a, b), (av - bvv) & M))
            elif o == 2: xs.append((mul(a, b), (av * bvv) & M))
            elif o == 3: xs.append((band(a, b), av & bvv))
            elif o == 4: xs.append((bor(a, b), av | bvv))
            elif o == 5: xs.append((bxor(a, b), av ^ bvv))
            elif o == 6: xs.append((bvnot(a), ~av & M))
            elif o == 7: xs.append((shl(a, b), (av << bvv) & M if bvv < w else 0))
            elif o == 8: xs.append((lshr(a, b), av >> bvv if bvv < w else 0))
            elif o == 9: xs.append((ashr(a, b), (sa >> min(bvv, w - 1)) & M))
            elif o == 10: xs.append((ite(c, a, b), av if cv else bvv))
            elif o == 11: bs.append((eq(a, b), av == bvv))
            elif o == 12: bs.append((ult(a, b), av < bvv))
            elif o == 13: bs.append((slt(a, b), sa < sb))
            elif o == 14: bs.append((ule(a, b), av <= bvv))
            elif o == 15: bs.append((sle(a, b), sa <= sb))
            elif o == 16:
                d, dv = rnd.choice(bs); bs.append((and_(c, d), cv and dv))
            elif o == 17:
                d, dv = rnd.choice(bs); bs.append((or_(c, d), cv or dv))
            elif o == 18: bs.append((not_(c), not cv))
            elif o == 19:
                k = rnd.randrange(1, w)
                xs.append((zext(extract(k - 1, 0, a), w), av & ((1 << k) - 1)))
            elif o == 20:
                k = rnd.randrange(1, w)
                xs.append((sext(extract(k - 1, 0, a), w), tosigned(av, k) & M))
            elif o == 21:
                xs.append((trunc(lshr(zext(a, 2 * w), zext(b, 2 * w)), w), (av >> bvv) & M if bvv < 2 * w else 0))
            elif o == 22:
                f = rnd.choice([add, sub, mul])
                pv = {add: sa + sb, sub: sa - sb, mul: sa * sb}[f]
                t = f(sext(a, 2 * w), sext(b, 2 * w))
                bs.append((slt(t, bv(5, 2 * w)), pv < 5))
                xs.append((trunc(t, w), pv & M))
            elif o == 23:
                t = sext(add(a, b), 2 * w)
                xs.append((extract(2 * w - 1, w, t), (tosigned((av + bvv) & M, w) >> w) & M))
            elif o == 24 and bvv:
                xs.append((udiv(a, b), av // bvv)); xs.append((urem(a, b), av % bvv))
            elif o == 25 and bvv:
                q = abs(sa) // abs(sb); q = q if (sa < 0) == (sb < 0) else -q
                xs.append((sdiv(a, b), q & M)); xs.append((srem(a, b), (sa - q * sb) & M))
        sm = {}
        for t, v in xs + bs:
            n += 1
            g = evaluate(t, env)
            if g != v:
                print("MISMATCH", t, "got", g, "want", v, env)
                return False
            # also substitution to constants
            g = subst(t, {x: bv(e, w) for x, e in [(xs[i][0], xs[i][1]) for i in range(3)]}, sm)
            if t.s == 0:
                if g is not boolc(v):
                    print("SUBST", t, g, v); return False
            elif not (isc(g) and g.p == v):
                print("SUBST", t, g, v); return False
            if t.s:
                lo, hi = urange(t)
                if not lo <= v <= hi: print("URANGE", t, lo, hi, v); return False
                lo, hi = srange(t)
                if not lo <= tosigned(v, w) <= hi: print("SRANGE", t, lo, hi, v); return False
                if v & ~tm._bitmask(t): print("MASK", t, v); return False
    return n


if __name__ == "__main__":
    s = int(sys.argv[1]) if len(sys.argv) > 1 else 1
    print(run(s))
