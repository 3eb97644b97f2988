"""Liquidity estimated from one token amount, and the companion amount that goes with it."""
from . import prop
from .common import *
from .amounts import E24, E6, cdivk, args_of

LM = "logic::math::"


def ratio(n, d):
    return lift(lambda a, b: DIV(a, b), n, d)


def pair_x(gap, den, L, up):
    """token x that liquidity L is worth between two prices `gap` apart whose product is `den`"""
    v = lift(lambda m, d: DIV(MUL(const(E24), DIV(m, const(E24))), d), MUL(L, gap), den)
    return vite(up, lift(lambda t: cdivk(t, E6), v), lift(lambda t: DIV(t, const(E6)), v))


def pair_y(gap, L, up):
    whole = lift(lambda l: DIV(l, const(E6)), L)
    m = lift(lambda a, b: MUL(a, b), gap, whole)
    return vite(up, lift(lambda t: cdivk(t, E24), m), lift(lambda t: DIV(t, const(E24)), m))


def by_x(x, lo, hi, cur, up):
    base = vite(LT(cur, lo), lo, cur)
    n = lift(lambda b: MUL(MUL(x, DIV(MUL(b, hi), const(E24))), const(E6)), base)
    d = lift(lambda b: SUB(hi, b), base)
    l = ratio(n, d)
    ok = AND(NOT(LT(hi, cur)), lift(lambda b: LT(b, hi), base))
    return ok, l, vite(LT(cur, lo), ZERO, pair_y(SUB(cur, lo), l, up))


def by_y(y, lo, hi, cur, up):
    top = vite(LT(cur, hi), cur, hi)
    l = ratio(MUL(y, const(E24 * E6)), lift(lambda t: SUB(t, lo), top))
    den = DIV(MUL(cur, hi), const(E24))
    ok = AND(NOT(LT(cur, lo)), lift(lambda t: LT(lo, t), top), OR(NOT(LT(cur, hi)), NOT(EQI(den, ZERO))))
    return ok, l, vite(LT(cur, hi), pair_x(SUB(hi, cur), den, l, up), ZERO)


@prop("P35", 10)
def p35(k):
    k.rule("the liquidity estimated for an amount of one token is the amount's exact worth over the part of the range it funds, rounded down, and the companion amount is that liquidity's worth over the rest of "
           "the range, rounded in the requested direction; the estimate is refused exactly when the price lies beyond the range on the wrong side or the range is empty")
    for name, ref in (("get_liquidity_by_x_sqrt_price", by_x), ("get_liquidity_by_y_sqrt_price", by_y)):
        k.group("P35/" + name, p35_price, k, name, ref)
    for name, ref in (("get_liquidity_by_x", by_x), ("get_liquidity_by_y", by_y)):
        k.group("P35/" + name, p35_tick, k, name, ref)


def outcome(k, name, run, ok, l, amount, under=TRUE):
    k.equiv(name + "/accepted", run.S, ok, "the arguments for which %s has an estimate" % name, [LM + name], under=under)
    g = AND(run.S, ok, under)
    k.same(name + "/liquidity", g, num(get(run.val, "l")), l, "the liquidity estimated by " + name, [LM + name])
    k.same(name + "/amount", g, num(get(run.val, "amount")), amount, "the companion amount of " + name, [LM + name])


def p35_price(k, name, ref):
    run, a = args_of(k, LM + name)
    outcome(k, name, run, *ref(*a))


def p35_tick(k, name, ref):
    run = k.fn(LM + name)
    amount, lo, hi, cur, up = [num(a) if a.tag == "struct" else a for a in run.r.args]
    (c1, plo), (c2, phi) = price_at(run, lo), price_at(run, hi)
    ok, l, other = ref(amount, num(plo), num(phi), cur, up)
    outcome(k, name, run, AND(LE(const(-MAXT), lo), LE(hi, const(MAXT)), c1, c2, ok), l, other)
