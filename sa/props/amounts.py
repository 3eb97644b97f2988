"""Price arithmetic: the exact formulas of amounts, next prices and fees, and the direction of every rounding."""
from . import prop
from .common import *

E24, E12, E6 = 10 ** 24, 10 ** 12, 10 ** 6
NEXT_CUTS = (PRE + "math::clamm::get_next_sqrt_price_x_up", PRE + "math::clamm::get_next_sqrt_price_y_down")


def cdiv(n, d):
    return DIV(SUB(ADD(n, d), ONE), d)


def cdivk(n, k):
    return DIV(ADD(n, const(k - 1)), const(k))


def args_of(k, fn, cuts=()):
    run = k.fn(fn, cuts=cuts)
    return run, [num(a) if a.tag == "struct" else a for a in run.r.args]


def dist(a, b):
    return vite(LT(b, a), SUB(a, b), SUB(b, a))


def delta_x(a, b, L, up):
    n0, n1 = DIV(MUL(dist(a, b), L), const(E6)), cdivk(MUL(dist(a, b), L), E6)
    d1, d0 = DIV(MUL(a, b), const(E24)), cdivk(MUL(a, b), E24)
    v1 = cdivk(cdiv(MUL(const(E24), n1), d1), E24)
    v0 = DIV(DIV(MUL(const(E24), n0), d0), const(E24))
    return ite(up, NOT(EQI(d1, ZERO)), NOT(EQI(d0, ZERO))), vite(up, v1, v0)


def delta_y(a, b, L, up):
    m = MUL(dist(a, b), L)
    return TRUE, vite(up, cdivk(cdivk(m, E6), E24), DIV(DIV(m, const(E6)), const(E24)))


def next_x(p, L, x, add):
    den = vite(add, ADD(MUL(const(10 ** 18), L), MUL(p, x)), SUB(MUL(const(10 ** 18), L), MUL(p, x)))
    v = lift(lambda n, d: cdiv(n, d), MUL(const(E24), cdivk(MUL(p, L), E6)), den)
    return OR(EQI(x, ZERO), LT(ZERO, den)), vite(EQI(x, ZERO), p, v)


def next_y(p, L, y, add):
    n = MUL(const(10 ** 30), y)
    q0 = lift(lambda d: DIV(n, d), L)
    q1 = lift(lambda d: cdiv(n, d), L)
    return AND(NOT(EQI(L, ZERO)), OR(add, LE(q1, p))), vite(add, ADD(p, q0), SUB(p, q1))


def conform(k, name, fn, ref, cuts=(), val=None):
    run, a = args_of(k, fn, cuts)
    ok, v = ref(*a)
    k.equiv(name + "/defined", run.S, ok, "the arguments for which %s has a value" % name, [fn])
    got = num(run.val)
    k.same(name + "/value", AND(run.S, ok), got, v, "the value of %s" % name, [fn])
    return run, a, got


# ------------------------------------------------------------------ rounding direction
class Rounding:
    """a term seen as an exact rational with a known side: +1 the term is never below the exact value, -1 never above, 0 exact"""

    def __init__(self, n, d, side):
        self.n, self.d, self.side = n, d, side


def rounding(t):
    """erase the roundings of a term and report on which side of the exact value it lies (None: unknown)"""
    t = as_poly(t)
    c0 = dict(t.args[0]).get((), 0)
    terms = [(m, c) for m, c in t.args[0] if m != ()]
    n, d, side = ZERO, ONE, 0

    def plus(x, s):
        nonlocal n, d, side
        n, d = padd(pmul(n, x.d), pmul(x.n, d)), pmul(d, x.d)
        sd = x.side * s if x.side is not None else None
        side = None if sd is None or side is None or (side and sd and side != sd) else side or sd

    for m, c in terms:
        if len(m) == 1 and abs(c) == 1 and m[0].tag == "app" and m[0].args[0] == "fdiv":
            # q + 1 with q = floor((X - 1)/D) is the ceiling of X/D
            num_, den = m[0].args[1]
            k0 = dict(num_.args[0]).get((), 0)
            if k0 == -1 and c0 == c:
                c0 -= c
                plus(scaled(div(rounding(padd(num_, ONE)), rounding(den), 1), c), c)
                continue
        x = Rounding(const(c), ONE, 0)
        for f in m:
            x = mul(x, factor(f))
        s = 1 if c > 0 else -1
        plus(x, s)
    n = padd(n, pscale(d, c0))
    return Rounding(n, d, side)


def factor(f):
    if f.tag == "app" and f.args[0] == "fdiv":
        nn, dd = f.args[1]
        k0 = dict(nn.args[0]).get((), 0)
        if is_const(dd) and cval(dd) > 1 and k0 >= cval(dd) - 1:
            return div(rounding(padd(nn, const(1 - cval(dd)))), rounding(dd), 1)
        return div(rounding(nn), rounding(dd), -1)
    return Rounding(as_poly(f), ONE, 0)


def scaled(x, c):
    return Rounding(pscale(x.n, c), x.d, x.side)


def mul(x, y):
    side = None if x.side is None or y.side is None or (x.side and y.side and x.side != y.side) else x.side or y.side
    return Rounding(pmul(x.n, y.n), pmul(x.d, y.d), side)


def div(x, y, step):
    """x/y rounded (step -1: down, 1: up); all operands are non-negative"""
    parts = [s for s in (x.side, None if y.side is None else -y.side, step) if s != 0]
    side = None if None in parts or len(set(parts)) > 1 else parts[0]
    return Rounding(pmul(x.n, y.d), pmul(x.d, y.n), side)


def equal_ratio(r, n, d):
    return pmul(r.n, d) is pmul(n, r.d)


def favours(k, name, S, value, ideal, side, where):
    """every case of the value is the ideal rational rounded to the given side"""
    bad = []

    def leaf(s, v):
        if s is FALSE:
            return TRUE
        for n, d in ideal:
            r = rounding(v)
            if equal_ratio(r, n, d):
                if r.side in (0, side):
                    return TRUE
                bad.append("%s is not rounded %s" % (show(v, 8)[:300], "up" if side > 0 else "down"))
                return FALSE
        bad.append("%s is not the exact value rounded" % show(v, 8)[:300])
        return FALSE
    ok = lift(leaf, S, value) is TRUE
    k.ob(name, ok, "; ".join(bad[:2]), where)


# ------------------------------------------------------------------ P12
@prop("P12", 14)
def p12(k):
    k.rule("amounts over a price interval: x = L*|a-b|/(a*b), y = L*|a-b|, next prices p*L/(L +- p*x) (up) and p +- y/L (down / amount up), each with the stated rounding at 24-digit precision; "
           "a step's input and fee are rounded up, its output down, its price against the trader; the rounding side of every value is derived from the term and must favour the pool")
    k.group("P12/amounts", p12_amounts, k)
    k.group("P12/prices", p12_prices, k)
    k.group("P12/step", p12_step, k)
    k.group("P12/enough", p12_enough, k)
    k.group("P12/minimum", p12_min, k)


def p12_amounts(k):
    run, (a, b, L, up), got = conform(k, "x-amount", "math::clamm::get_delta_x", delta_x)
    d1, d2 = padd(a, b, -1), padd(b, a, -1)
    ideal = [(pscale(pmul(d, L), 10 ** 18), pmul(a, b)) for d in (d1, d2)]
    favours(k, "x-amount/collected-rounded-up", AND(run.S, up), got, ideal, 1, ["get_delta_x"])
    favours(k, "x-amount/paid-rounded-down", AND(run.S, NOT(up)), got, ideal, -1, ["get_delta_x"])
    run, (a, b, L, up), got = conform(k, "y-amount", "math::clamm::get_delta_y", delta_y)
    d1, d2 = padd(a, b, -1), padd(b, a, -1)
    ideal = [(pmul(d, L), const(10 ** 30)) for d in (d1, d2)]
    favours(k, "y-amount/collected-rounded-up", AND(run.S, up), got, ideal, 1, ["get_delta_y"])
    favours(k, "y-amount/paid-rounded-down", AND(run.S, NOT(up)), got, ideal, -1, ["get_delta_y"])


def p12_prices(k):
    run, (p, L, x, add), got = conform(k, "price-after-x", "math::clamm::get_next_sqrt_price_x_up", next_x)
    lx = pscale(L, 10 ** 18)
    S = AND(run.S, NOT(EQI(x, ZERO)))
    n = pscale(pmul(p, L), 10 ** 18)
    favours(k, "price-after-x/rounded-up", AND(S, add), got, [(n, padd(lx, pmul(p, x)))], 1, ["get_next_sqrt_price_x_up"])
    favours(k, "price-after-x-out/rounded-up", AND(S, NOT(add)), got, [(n, padd(lx, pmul(p, x), -1))], 1, ["get_next_sqrt_price_x_up"])
    run, (p, L, y, add), got = conform(k, "price-after-y", "math::clamm::get_next_sqrt_price_y_down", next_y)
    n = pscale(y, 10 ** 30)
    favours(k, "price-after-y/rounded-down", AND(run.S, add), got, [(padd(pmul(p, L), n), L)], -1, ["get_next_sqrt_price_y_down"])
    favours(k, "price-after-y-out/rounded-down", AND(run.S, NOT(add)), got, [(padd(pmul(p, L), n, -1), L)], -1, ["get_next_sqrt_price_y_down"])


def price_after(run, p, L, amount, x2y, by_in, lk):
    """price after adding (by_in) or taking out an amount"""
    w = lambda v, i: like(lk[i], v)
    cx = cutv(run, "math::clamm::get_next_sqrt_price_x_up", w(p, 0), w(L, 1), w(amount, 2), by_in)
    cy = cutv(run, "math::clamm::get_next_sqrt_price_y_down", w(p, 0), w(L, 1), w(amount, 2), by_in)
    (okx, vx), (oky, vy) = okv(cx), okv(cy)
    usex = IFF(x2y, by_in)
    return ite(usex, okx, oky), vite(usex, num(vx), num(vy))


def p12_step(k):
    run = k.fn("math::clamm::compute_swap_step", cuts=LIQ_CUTS + NEXT_CUTS)
    A = run.r.args
    cur, tgt, L, amt, by, fee = [num(a) if a.tag == "struct" else a for a in A]
    P = lambda v: like(A[0], v)
    x2y = NOT(LT(cur, tgt))
    idle = EQI(L, ZERO)

    def side(to, inp, up):
        """amount between the current price and `to`: of the input token (inp) or of the output token"""
        dx, dy = (okv(cutv(run, "math::clamm::get_delta_" + a, P(cur), P(to), A[2], TRUE if up else FALSE)) for a in "xy")
        usex = x2y if inp else NOT(x2y)
        return ite(usex, dx[0], dy[0]), vite(usex, num(dx[1]), num(dy[1]))

    after = DIV(MUL(amt, SUB(const(E12), fee)), const(E12))
    feeok = OR(NOT(by), LE(fee, const(E12)))
    okin, full_in = side(tgt, True, True)
    okout, full_out = side(tgt, False, False)
    given = vite(by, after, amt)
    reach = ite(by, NOT(LT(after, full_in)), NOT(LT(amt, full_out)))
    okp, p = price_after(run, cur, L, given, x2y, by, (A[0], A[2], A[3]))
    nxt = vite(OR(reach, EQI(p, tgt)), tgt, p)
    okn_in, ain = side(nxt, True, True)
    okn_out, aout = side(nxt, False, False)
    aout1 = vite(AND(NOT(by), LT(amt, aout)), amt, aout)
    stopped = NOT(EQI(nxt, tgt))
    f = vite(AND(by, stopped), SUB(amt, ain), cdivk(MUL(ain, fee), E12))
    okf = OR(NOT(AND(by, stopped)), LE(ain, amt))
    defined = OR(idle, AND(feeok, ite(by, okin, okout), OR(reach, okp), okn_in, okn_out, okf))
    k.equiv("step/defined", run.S, defined, "the inputs for which a swap step has a result", ["compute_swap_step"])
    S = AND(run.S, defined)
    r = run.val
    g = lambda n: num(get(r, n))
    k.same("step/price", S, g("next_sqrt_price"), vite(idle, tgt, nxt), "the price a step reaches", ["compute_swap_step"])
    k.same("step/input", S, g("amount_in"), vite(idle, ZERO, ain), "the input a step consumes (rounded up)", ["compute_swap_step"])
    k.same("step/output", S, g("amount_out"), vite(idle, ZERO, aout1), "the output a step yields (rounded down)", ["compute_swap_step"])
    k.same("step/fee", S, g("fee_amount"), vite(idle, ZERO, f), "the fee of a step (everything left when the amount is used up, else rounded up)", ["compute_swap_step"])


def p12_enough(k):
    run = k.fn("math::clamm::is_enough_amount_to_change_price", cuts=NEXT_CUTS)
    A = run.r.args
    amt, p0, L, fee, by, x2y = [num(a) if a.tag == "struct" else a for a in A]
    after = DIV(MUL(amt, SUB(const(E12), fee)), const(E12))
    okp, p = price_after(run, p0, L, vite(by, after, amt), x2y, by, (A[1], A[2], A[0]))
    idle = EQI(L, ZERO)
    k.equiv("enough/defined", run.S, OR(idle, AND(OR(NOT(by), LE(fee, const(E12))), okp)), "when the test has an answer", ["is_enough_amount_to_change_price"])
    k.same("enough/value", run.S, run.val, OR(idle, NOT(EQI(p, p0))), "whether an amount moves the price", ["is_enough_amount_to_change_price"])


def p12_min(k):
    run, (e, s), got = conform(k, "minimum-output", "math::clamm::calculate_min_amount_out", lambda e, s: (LE(s, const(E12)), cdivk(MUL(e, SUB(const(E12), s)), E12)))
    favours(k, "minimum-output/rounded-up", run.S, got, [(pmul(e, padd(const(E12), s, -1)), const(E12))], 1, ["calculate_min_amount_out"])
