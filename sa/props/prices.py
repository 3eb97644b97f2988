"""Ticks and prices: the price of a tick, the tick of a price, and the error bounds that make the two inverse to each other."""
from decimal import Decimal, getcontext
from . import prop
from .common import *
from .. import spec
import os
DBG = os.environ.get("VERIF_DEBUG")

getcontext().prec = 80
E12 = 10 ** 12
FP = PRE + "math::types::fixed_point::FixedPoint"
MINP, MAXP = 15258932 * E12, 65535383934512647 * E12
ROOT = Decimal("1.0001").sqrt()
LOGROOT = ROOT.ln() / Decimal(2).ln() * 2 ** 32       # one tick on the 2^32 scale of the logarithm
STEP, LOSE, DROP = 309801, 300000, 16                 # reference constants of the logarithm: divisor, negative offset, last bit kept is above this
TAB = Decimal("5e-9")                                  # bound on the relative error of a tabulated price
TABLE = [int(ROOT * E12), 1000100000000]               # sqrt(1.0001)^(2^i): each entry the truncated square of the previous
while len(TABLE) < 18:
    TABLE.append(TABLE[-1] ** 2 // E12)


@prop("P29", 20)
def p29(k):
    k.rule("the price of a tick is the product of the tabulated powers of sqrt(1.0001) for the set bits of its magnitude (its reciprocal below zero), and fails exactly outside the tick range; "
           "every table entry is the rounded-down power; the tick of a price compares the price with the price of a candidate tick and rounds down to the spacing; "
           "the accumulated rounding of the table and of the binary logarithm is bounded below the distance of neighbouring ticks, so the candidates always bracket the price")
    err = k.group("P29/price", p29_price, k)
    k.group("P29/floor", p29_msb, k)
    k.group("P29/log", p29_log, k)
    k.group("P29/x32", p29_x32, k)
    k.group("P29/tick", p29_tick, k)
    k.group("P29/bounds", p29_bounds, k)
    k.group("P29/from_tick", p29_from, k)


class Defs:
    """names every product of two fixed-point numbers, so that sums over subsets stay shared"""

    def __init__(self):
        self.defs = {}

    def mul(self, E, ctx, f, a, dty, where, fr):
        x, y = (E.read_ref(ctx, v) if v.tag == "ref" else v for v in a)
        s = mk("sym", "product%d" % len(self.defs))
        set_range(s, E12, 10 ** 18)       # powers of sqrt(1.0001) up to 2^18; table entries are checked below
        self.defs[s] = (num(x), num(y), ctx.pc)
        return struct(x.args[0], as_poly(s))


def p29_price(k, crate="oraiswap_v3", fp=FP):
    fn = "types::sqrt_price::calculate_sqrt_price"
    d = Defs()
    run = k.fn(fn, crate=crate, base=False, models={"<%s as std::ops::Mul<T>>::mul" % fp: d.mul})
    t = run.arg(0)
    w = [fn]
    mag = vite(LT(t, ZERO), SUB(ZERO, t), t)
    k.equiv("price/domain", run.S, LE(mag, const(MAXT)), "a tick has a price exactly inside the tick range", w)
    bit = [lift(lambda m: bit_of(m, const(i)), mag) for i in range(18)]
    inside = LE(mag, const(MAXT))
    # each product carries the set of magnitude bits it accounts for: value = root^(|t| & bits) up to rounding
    bits, count = {}, {}
    ok = True
    one = const(E12)

    def account(v, pc, what):
        """the bits and number of roundings of a value that is one of the products (or 1) depending on bits"""
        ls = {}
        for c, x in cases(v):
            c = AND(c, pc)
            if c is FALSE:
                continue
            s = next((s for s in d.defs if as_poly(s) is x), None)
            if x is not one and s is None:
                raise Unsupported("%s is not a product of table entries: %s" % (what, show(x)[:200]))
            ls[x] = (c, bits[s] if s is not None else frozenset(), count[s] if s is not None else 0)
        full = frozenset().union(*[b for c, b, n in ls.values()]) if ls else frozenset()
        for x, (c, b, n) in ls.items():
            for i in full - b:
                if not spec.implied(c, NOT(bit[i])):
                    k.ob("price/factor-%d" % i, False, "the factor of bit %d is left out of %s although the bit is set" % (i, what), w)
        return full, max([n for c, b, n in ls.values()] or [0])
    for s, (x, y, pc) in d.defs.items():
        pc = AND(no_ovf(pc), inside)
        if is_const(x) and not is_const(y):
            x, y = y, x
        if not is_const(y):
            raise Unsupported("a factor of the price is not a constant")
        c = cval(y)
        i = next((i for i in range(18) if c in (TABLE[i], int(ROOT ** (1 << i) * E12))), None)
        if not k.ob("price/table-%d" % len(bits), i is not None, "%d is not a tabulated power of sqrt(1.0001)" % c, w):
            raise Unsupported("table entry")
        k.ob("price/down-%d" % i, Decimal(c) <= ROOT ** (1 << i) * E12, "table entry %d exceeds the exact power" % c, w)
        b, n = account(x, pc, "the product for bit %d" % i)
        k.implied("price/bit-%d" % i, pc, bit[i], "the factor of bit %d is applied although the bit is clear" % i, w)
        k.ob("price/once-%d" % i, i not in b, "the factor of bit %d is applied twice" % i, w)
        bits[s], count[s] = b | {i}, n + Decimal(1) / E12 + (ROOT ** (1 << i) * E12 - c) / c
    up = no_ovf(AND(run.S, NOT(LT(t, ZERO))))
    v = num(run.val)
    mags = {}
    for sign in (0, 1):
        pc = AND(run.S, LT(t, ZERO) if sign else NOT(LT(t, ZERO)))
        alts = []
        for c, x in cases(v):
            c = AND(c, pc)
            if c is FALSE:
                continue
            for s in [None] + list(d.defs):
                y = one if s is None else as_poly(s)
                want = MUL(DIV(const(E12 * E12), y), const(E12)) if sign else MUL(y, const(E12))
                if x is want:
                    alts.append((c, y))
                    break
            else:
                raise Unsupported("price is not %s: %s" % ("the reciprocal of a product" if sign else "a product", show(x)[:200]))
        b, n = account(choose(alts), pc, "the price of a %s tick" % ("negative" if sign else "positive"))
        k.ob("price/all-bits-%d" % sign, b >= frozenset(range(18)), "bits %s of the tick do not enter its price" % sorted(set(range(18)) - b), w)
        mags[sign] = n
    # each product drops less than 1 in 10^12 (products are at least 1), and its table entry's own error enters once
    eps = max(mags.values())
    k.ob("price/accuracy", eps < TAB, "accumulated relative error of a price is below %.0e" % TAB, w)
    k.ob("price/increasing", eps * 4 < (ROOT - 1), "rounding of the products (%.2e) must stay below the ratio of neighbouring ticks" % eps, w)
    neg = eps + Decimal(1) / (Decimal(MINP) / E12)
    k.ob("price/increasing-below", neg * 4 < (ROOT - 1), "rounding of reciprocals (%.2e) must stay below the ratio of neighbouring ticks" % neg, w)


def cases(v):
    """(condition, leaf) of a decision diagram"""
    acc = {}
    for x in leaves(v):
        acc[x] = None
    for x in acc:
        acc[x] = lift(lambda y: TRUE if y is x else FALSE, v)
    return [(c, x) for x, c in acc.items()]


def choose(alts):
    v = alts[-1][1]
    for c, x in alts[:-1]:
        v = vite(c, x, v)
    return v


def p29_from(k):
    run = k.fn("SqrtPrice::from_tick")
    ok, p = price_at(run, run.arg(0))
    k.equiv("from_tick/domain", run.S, ok, "a tick has a price exactly when the price function has a value", None)
    k.same("from_tick/value", run.S, num(run.val), num(p), "the price of a tick", None)


def p29_x32(k):
    run = k.fn("math::log::sqrt_price_to_x32", [lambda E, ctx: price_arg(k)])
    p = num(run.arg(0))
    inside = AND(LE(const(MINP), p), LE(p, const(MAXP)))
    k.same("x32/value", AND(run.S, inside), run.val, DIV(MUL(p, const(1 << 32)), const(E12 * E12)), "the price on the 2^32 scale", None)
    k.equiv("x32/domain", run.S, TRUE, "every price in range has such a value", None, under=inside)


def price_arg(k, name="price_in_range"):
    s = mk("sym", name)
    set_range(s, MINP, MAXP)
    p = k.prog()
    return struct(p.types[p.fn("math::log::sqrt_price_to_x32")["locals"][1]]["n"], as_poly(s))


def p29_msb(k):
    run = k.fn("math::log::log2_floor_x32")
    x = run.arg(0)
    n = 0
    for c, m in cases(run.val):
        c = AND(c, run.S, NOT(EQI(x, ZERO)))
        if not spec.feasible(c):
            continue
        n += 1
        if not is_const(m):
            raise Unsupported("binary logarithm is not decided by comparisons with powers of two: " + show(m)[:100])
        m = cval(m)
        k.implied("floor/%d" % m, c, AND(LE(const(1 << m), x), LT(x, const(2 << m))), "the integer part of the binary logarithm is %d only between 2^%d and 2^%d" % (m, m, m + 1), None)
    k.ob("floor/cases", n == 64, "every integer part from 0 to 63 occurs", None)
    k.equiv("floor/total", run.S, TRUE, "every value has an integer part", None)


def p29_log(k, crate="oraiswap_v3", mod=PRE + "math::log::"):
    fn = mod.split("::", 1)[1] + "log2_iterative_approximation_x32"
    x = mk("sym", "x32")
    set_range(x, 65536, 281474976710655)
    x = as_poly(x)
    one = const(1 << 32)
    small = LT(x, one)
    z = vite(small, DIV(const(1 << 64), ADD(x, ONE)), x)
    whole = lambda v: lift(lambda q: as_poly(app("log2_floor", q, rng=(0, 31))), v)      # of values below 2^32 (group floor)
    ref = {}
    ys, rs = [], []
    w = [fn]

    def start(E):
        f = whole(DIV(z, one))
        ref["y"] = lift(lambda q, e: DIV(q, pow2(e, 64)), z, f)
        ref["r"] = lift(lambda e: MUL(e, one), f)

    def bind(E, old, new):
        """after each round: recognise the mantissa and the result, compare them with one reference round and name them"""
        if not ref:
            start(E)
        pc = no_ovf(new.pc)
        i = len(ys)
        y, r = (ys[-1], rs[-1]) if ys else (ref["y"], ref["r"])
        sq = lift(lambda a: DIV(MUL(a, a), one), y)
        big = lift(lambda a: LE(const(1 << 33), a), sq)
        y1 = vite(big, DIV(sq, const(2)), sq)
        place = const(1 << (31 - i)) if i < 32 else ZERO
        hit = [None, None]
        for c, v in list(new.cells.items()):
            o = old.cells.get(c)
            if v is o or not isinstance(c, int) and o is None or v.tag not in ("poly", "ite") or is_bool(v):
                continue
            if o is None or o.tag not in ("poly", "ite") or is_bool(o):
                continue
            if same(pc, o, y):
                k.same("log/mantissa-%d" % (i + 1), pc, v, y1, "the mantissa is squared, and halved when it reaches two", w)
                hit[0] = c
            elif same(pc, o, r):
                if not same(pc, v, vite(big, ADD(r, place), r)):
                    k.same("log/place-%d" % (i + 1), pc, v, vite(big, lift(lambda a: as_poly(app("or", *sorted((a, place), key=lambda q: q.id), rng=(0, (1 << 64) - 1))), r), r), "place %d is set exactly when the square reaches two" % (i + 1), w)
                hit[1] = c
        if None in hit and DBG:
            for c, v in new.cells.items():
                print(c, show(old.cells.get(c))[:300] if old.cells.get(c) is not None else None, "=>", show(v)[:300])
            print(show(y)[:300], "//", show(r)[:300])
        if not k.ob("log/round-%d" % (i + 1), None not in hit, "round %d must refine the mantissa and the result" % (i + 1), w):
            raise Unsupported("refinement round %d" % (i + 1))
        for c, l, nm, lo, hi in ((hit[0], ys, "mantissa", 1 << 32, (1 << 33) - 1), (hit[1], rs, "result", 0, (1 << 38) - 1)):
            s = mk("sym", "%s%d" % (nm, i + 1))
            set_range(s, lo, hi)
            l.append(as_poly(s))
            new.cells[c] = as_poly(s)
    run = k.fn(fn, [x], crate=crate, models={"bind": bind, mod + "log2_floor_x32": lambda E, ctx, f, a, dty, where, fr: whole(a[0])})
    if not ref:
        raise Unsupported("no refinement rounds found")
    k.ob("log/rounds", len(rs) == 31 - DROP, "%d refinement rounds, %d required for the accuracy" % (len(rs), 31 - DROP), w)
    sign, val = run.val.args[1]
    exact = eq_all(ref["y"], one)
    k.equiv("log/sign", sign, NOT(small), "the sign of the logarithm", w, under=run.S)
    k.same("log/exact", AND(run.S, exact), val, ref["r"], "the logarithm of a power of two", w)
    k.same("log/value", AND(run.S, NOT(exact)), val, rs[-1], "the logarithm is the accumulated result", w)
    k.equiv("log/total", run.S, TRUE, "every value has a logarithm", w)


def u64(k):
    return k.prog().fn("math::log::log2_floor_x32")["locals"][0]


def eq_all(v, c):
    return lift(lambda a: EQI(a, c), v)


def p29_tick(k, crate="oraiswap_v3", mod=PRE + "math::log::"):
    fn = mod.split("::", 1)[1] + "get_tick_at_sqrt_price"
    s = mk("sym", GRID_S)
    set_range(s, 1, 100)
    s = as_poly(s)
    sg, l = mk("sym", "sign"), mk("sym", "log")
    set_range(l, 0, 17 << 32)
    sign, l = atom_var(sg), as_poly(l)
    used = []

    def x32(E, ctx, f, a, dty, where, fr):
        r = E.lift_app("sqrt_price_to_x32", (E.deep(ctx, a[0]),), dty)
        used.append(r)
        return r

    def lg(E, ctx, f, a, dty, where, fr):
        k.ob("tick/log-of-price", a[0] in used, "the logarithm is taken of the price", [where])
        return struct("tuple", sign, l)
    run = k.fn(fn, [None, s], crate=crate, models={mod + "log2_iterative_approximation_x32": lg, mod + "sqrt_price_to_x32": x32})
    p = num(run.arg(0))
    k.ob("tick/price", len(used) == 1 and used[0] is run.E.lift_app("sqrt_price_to_x32", (run.arg(0),), k.prog(crate).fn(mod.split("::", 1)[1] + "log2_floor_x32")["locals"][0]), "the given price is converted", [fn])
    inside = AND(LE(const(MINP), p), LE(p, const(MAXP)))
    n = vite(sign, DIV(l, const(STEP)), DIV(ADD(l, const(LOSE)), const(STEP)))
    lo = vite(sign, n, SUB(SUB(ZERO, n), ONE))          # candidates lo and lo + 1
    hi = ADD(lo, ONE)
    def al(v):
        return lift(lambda q: lift(lambda m: SUB(q, vite(LT(m, ZERO), ADD(m, s), m)), REM(q, s)), v)
    okp, ph = price_at(run, hi)
    ph = num(ph)
    split = NOT(EQI(al(lo), al(hi)))
    ref = AND(inside, OR(NOT(split), okp))
    k.equiv("tick/domain", run.S, ref, "a price in range has a tick", None)
    k.same("tick/value", AND(run.S, ref), run.val, vite(AND(split, LE(ph, p)), al(hi), al(lo)),
           "the tick of a price is the upper candidate if the price reaches its price and the lower one otherwise, rounded down to the spacing", None)


GRID_S = "g.tick_spacing"


def p29_bounds(k):
    """the candidates bracket the price: the logarithm's error is below the distance to the next candidate (exact constants, 80 digits)"""
    two32 = Decimal(2) ** 32
    ulp = Decimal(1) / (Decimal(2).ln() * two32) * two32          # log2(1 + 2^-32) on the 2^32 scale, at most this
    rounds = 31 - DROP
    trunc = Decimal(2) ** (32 - rounds)                            # places not computed
    noise = ulp * 2 * 2 * 2                                        # scale conversion and mantissa (2), then squarings: 2 per round, halved every round
    tab = TAB / ROOT.ln() * LOGROOT                  # relative error of tabulated prices, on the logarithm's scale
    top = Decimal(MAXT) * (STEP - LOGROOT)                         # drift of the integer divisor over the whole range
    k.ob("bounds/divisor", LOGROOT <= STEP, "the divisor is not below one tick, so a positive candidate never exceeds the price")
    k.ob("bounds/positive", top + trunc + noise + tab < STEP, "positive prices: drift, truncation and noise stay below one tick")
    inv = (1 + Decimal(1) / 65536).ln() / Decimal(2).ln() * two32 + ulp
    tabn = (TAB + Decimal(1) / (Decimal(MINP) / E12)) / ROOT.ln() * LOGROOT
    k.ob("bounds/negative-offset", LOSE > inv + trunc + noise + top + tabn, "negative prices: the offset covers the losses of inversion, truncation and drift")
    k.ob("bounds/negative-step", LOSE + tabn < LOGROOT, "negative prices: the offset stays below one tick")
    k.ob("bounds/highest", Decimal(MAXT) * STEP > (Decimal(MAXP) / E12 / E12).ln() / Decimal(2).ln() * two32, "the highest price has a candidate inside the tick range")
    k.ob("bounds/lowest", -(Decimal(MINP) / E12 / E12).ln() / Decimal(2).ln() * two32 + LOSE < Decimal(MAXT + 1) * STEP, "the lowest price has a candidate inside the tick range")
