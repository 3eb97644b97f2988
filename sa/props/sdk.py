"""The client library: the same computations as the contract, and the swap simulation."""
from . import prop
from .common import *
from .. import spec
from ..models import mod_euclid
from .prices import p29_price, p29_log, p29_tick
from .swap import CLOSER_LEMMA
from .search import Client, Contract, grid_args, place, p28_search, p28_limit, p28_place, p28_closer

WASM = "oraiswap_v3_wasm"
W = WASM + "::"
STEP = ("clamm::get_next_sqrt_price_from_input", "clamm::get_next_sqrt_price_from_output", "clamm::get_delta_x", "clamm::get_delta_y")
LOG = ("log::log2_iterative_approximation_x32", "log::sqrt_price_to_x32")

PAIRS = []


def pairs(cm, wm, names, cuts=(), outs=()):
    for n in names.split():
        PAIRS.append((cm + n, wm + n, cuts, outs))


pairs("math::clamm::", "clamm::", "compute_swap_step calculate_amount_delta", STEP)
pairs("math::clamm::", "clamm::", "get_delta_x get_delta_y get_next_sqrt_price_x_up get_next_sqrt_price_y_down get_next_sqrt_price_from_input get_next_sqrt_price_from_output is_enough_amount_to_change_price calculate_max_liquidity_per_tick")
pairs("math::clamm::", "clamm::", "check_tick check_ticks calculate_min_amount_out")
pairs("logic::math::", W + "math::", "get_liquidity_by_x get_liquidity_by_y calculate_x calculate_y get_liquidity_by_x_sqrt_price get_liquidity_by_y_sqrt_price")
pairs("math::log::", "log::", "log2_floor_x32 sqrt_price_to_x32")
pairs("math::types::fee_growth::", "types::fee_growth::", "calculate_fee_growth_inside")
pairs("", "", "FeeGrowth::unchecked_add FeeGrowth::unchecked_sub FeeGrowth::from_fee FeeGrowth::to_fee SecondsPerLiquidity::unchecked_add SecondsPerLiquidity::unchecked_sub "
      "SecondsPerLiquidity::calculate_seconds_per_liquidity_global SqrtPrice::from_tick SqrtPrice::big_div_values_to_token SqrtPrice::big_div_values_to_token_up SqrtPrice::big_div_values_up "
      "SqrtPrice::checked_big_div_values SqrtPrice::checked_big_div_values_up TokenAmount::from_big_sqrt_price TokenAmount::from_big_sqrt_price_up")
pairs("math::types::", "types::", "seconds_per_liquidity::calculate_seconds_per_liquidity_inside sqrt_price::get_max_tick sqrt_price::get_min_tick sqrt_price::get_max_sqrt_price sqrt_price::get_min_sqrt_price")
pairs("types::sqrt_price::", "custom::", "check_tick_to_sqrt_price_relationship")
pairs("storage::tickmap::", "collections::tickmap::", "position_to_tick get_bit_at_position")
pairs("storage::tickmap::", "consts::", "get_max_chunk")
pairs("storage::", "storage::", "fee_tier::FeeTier::new pool_key::PoolKey::new")
pairs("storage::", "storage::", "pool::Pool::update_liquidity", STEP, (0,))
PAIRS.append(("storage::fee_tier::FeeTier::new", "storage::fee_tier::new_fee_tier", (), ()))
PAIRS.append(("storage::pool_key::PoolKey::new", "storage::pool_key::new_pool_key", (), ()))


def sdk(k):
    """the client library, with types that mirror a contract type (same name and fields) identified with it"""
    pc, pw = k.prog(), k.prog(WASM)
    if getattr(pw, "mirrored", False):
        return pw
    names = {}
    for t in pc.types:
        if t["k"] == "adt" and t.get("n", "").startswith(PRE):
            names.setdefault(t["n"].split("::")[-1], t)
    for t in pw.types:
        if t["k"] == "adt" and t.get("n", "").startswith(W):
            o = names.get(t["n"].split("::")[-1])
            if o is not None and [(v["n"], [f[0] for f in v["f"]]) for v in o["v"]] == [(v["n"], [f[0] for f in v["f"]]) for v in t["v"]]:
                t["n"] = o["n"]
    pw.mirrored = True
    return pw


@prop("P22", 60)
def p22(k):
    k.rule("each computation of the client library is analysed beside the contract's: on the same symbolic arguments both succeed under equivalent conditions (modulo arithmetic overflow) and return identical values; "
           "where the contract has no counterpart the reference value is stated; published limits equal the contract's")
    k.assume("arithmetic overflow aborts the computation in both")
    sdk(k)
    for c, w, cuts, outs in PAIRS:
        k.group("P22/" + w, pair, k, c, w, cuts, outs)
    k.group("P22/price", p29_price, k, WASM, W + "types::fixed_point::FixedPoint")
    k.group("P22/log", p29_log, k, WASM, W + "log::")
    k.group("P22/tick", p29_tick, k, WASM, W + "log::")
    for n, f in (("fee", p22_fee), ("order", p22_order), ("limits", p22_limits), ("cross", p22_cross), ("position", p22_position), ("align", p22_align)):
        k.group("P22/" + n, f, k)


def pair(k, c, w, cuts, outs):
    # the value range of a symbol belongs to its name: one name per function and argument
    names = {i: "%s.a%d" % (w.split("::")[-1], i) for i in range(16)}
    a = k.fn(c, cuts=[PRE + "math::" + x for x in cuts if not c.endswith(x)], names=names)
    b = k.fn(w, crate=WASM, cuts=[W + x for x in cuts if not w.endswith(x)], names=names)
    where = ["contract %s" % c, "client library %s" % w]
    k.equiv(w + "/defined", b.S, a.S, "the arguments for which the client library has an answer", where)
    both = AND(a.S, b.S)
    if a.val is not None:
        k.same(w + "/value", both, b.val, a.val, "the client library's answer", where)
    for i in outs:
        k.same("%s/after-%d" % (w, i), both, no_ovf_val(b.E.read_ref(b.r.ctx, b.r.args[i])), no_ovf_val(a.E.read_ref(a.r.ctx, a.r.args[i])), "the updated value", where)


def p22_align(k):
    """aligning a tick to a spacing rounds down to a multiple, in the client library as in the contract"""
    t, s = mk("sym", "align.tick"), mk("sym", "align.spacing")
    set_range(t, -(1 << 30), 1 << 30)
    set_range(s, 1, 65535)
    t, s = as_poly(t), as_poly(s)
    want = SUB(t, mod_euclid(t, s))
    for n, c in (("math::log::", "oraiswap_v3"), ("log::", WASM)):
        run = k.fn(n + "align_tick_to_spacing", [t, s], crate=c)
        k.equiv("align/%s/defined" % n, run.S, TRUE, "every tick can be aligned", [n + "align_tick_to_spacing"])
        k.same("align/%s/value" % n, run.S, run.val, want, "the aligned tick", [n + "align_tick_to_spacing"])


def p22_fee(k):
    """the fee reported for a position is what a claim would add"""
    run = k.fn("custom::calculate_fee", crate=WASM)
    a = [num(run.arg(i)) for i in range(12)]
    w = ["custom::calculate_fee"]
    for ax, (ol, oh, g, before) in (("x", (1, 4, 7, 9)), ("y", (2, 5, 8, 10))):
        below = vite(LE(a[0], a[6]), a[ol], SUB(a[g], a[ol]))
        above = vite(LT(a[6], a[3]), a[oh], SUB(a[g], a[oh]))
        now = wrap128(run, SUB(SUB(a[g], below), above))
        k.same("fee/" + ax, run.S, num(get(run.val, ax)), owed(run, now, a[before], a[11]), "the unclaimed fee of a position in token " + ax, w)
    k.equiv("fee/defined", run.S, TRUE, "every position has an unclaimed fee", w)


def p22_order(k):
    run = k.fn("custom::is_token_x", crate=WASM)
    ref = k.fn("storage::pool_key::PoolKey::new", names={0: "token_candidate", 1: "token_to_compare"})
    a, b = run.arg(0), run.arg(1)
    k.equiv("order/defined", run.S, TRUE, "any two tokens can be compared", ["custom::is_token_x"])
    k.implied("order/equal", AND(run.S, eqv(a, b)), NOT(run.val), "no token precedes itself", ["custom::is_token_x"])
    k.same("order/first", AND(run.S, ref.S), vite(run.val, a, b), get(ref.val, "token_x"), "the contract's first token is the one the client library reports as first", ["custom::is_token_x"])


LIMITS = {"get_tick_search_range": 256, "get_chunk_size": 64, "get_liquidity_ticks_limit": 780, "get_max_tickmap_query_size": 1638}


def p22_limits(k):
    for f, n in LIMITS.items():
        run = k.fn("consts::" + f, crate=WASM)
        k.same("limits/" + f, run.S, run.val, const(n), "a limit published by the client library", ["consts::" + f])
    for f, n in PRICES.items():
        run = k.fn("consts::" + f, crate=WASM)
        k.same("limits/" + f, run.S, bigint(run.val), const(n), "a price bound published by the client library", ["consts::" + f])
    for m, (t, n) in SCALES.items():
        for f, want in (("get%sScale", n), ("get%sDenominator", 10 ** n)):
            f = "types::%s::%s" % (m, f % t)
            run = k.fn(f, crate=WASM)
            k.same("limits/" + f, run.S, bigint(run.val), const(want), "the scale of a number type published by the client library", [f])
        f = "types::%s::to%s" % (m, t)
        run = k.fn(f, crate=WASM)
        none = {v: c for v, c, fs in run.arg(1).args[1]}.get(0, FALSE)
        k.implied("limits/%s/defined" % f, none, run.S, "a number in its own scale", [f])
        k.same("limits/%s" % f, AND(run.S, none), bigint(run.val), as_poly(run.arg(0)), "a number in its own scale", [f])


PRICES = {"get_global_max_sqrt_price": 65535383934512647000000000000, "get_global_min_sqrt_price": 15258932000000000000}
SCALES = {"fee_growth": ("FeeGrowth", 28), "fixed_point": ("FixedPoint", 12), "liquidity": ("Liquidity", 6), "percentage": ("Percentage", 12),
          "seconds_per_liquidity": ("SecondsPerLiquidity", 24), "sqrt_price": ("SqrtPrice", 24), "token_amount": ("TokenAmount", 0), "price": ("Price", 24)}


def bigint(v):
    """the number inside a JavaScript integer"""
    def leaf(x):
        st, seen = [x], set()
        while st:
            t = st.pop()
            if isinstance(t, tuple):
                st.extend(t)
            elif isinstance(t, T) and t not in seen:
                seen.add(t)
                if t.tag == "app" and isinstance(t.args[0], str) and "js_sys::BigInt as std::convert::From<" in t.args[0]:
                    return t.args[1][0]
                st.extend(t.args)
        raise Unsupported("not an integer of the host: " + show(x, 3)[:80])
    return lift(leaf, v) if v.tag == "ite" else leaf(v)


def p22_cross(k):
    """crossing a tick changes active liquidity as in the contract"""
    nm = {0: "tick", 1: "pool", 2: "now"}
    ref = k.fn("storage::tick::Tick::cross", names=nm)
    w = ["storage::tick::LiquidityTick::cross"]
    get2 = lambda r, i, f: no_ovf_val(num(get(r.E.read_ref(r.r.ctx, r.r.args[i]), f)))
    full = k.fn("storage::tick::Tick::cross", crate=WASM, names=nm)
    k.equiv("cross/tick-defined", full.S, ref.S, "the crossings that succeed", w)
    for f in ("liquidity", "last_timestamp", "current_tick_index"):
        k.same("cross/tick/" + f, ref.S, get2(full, 1, f), get2(ref, 1, f), "the pool after crossing a tick", w)
    for f in ("fee_growth_outside_x", "fee_growth_outside_y", "seconds_outside", "liquidity_change", "index"):
        k.same("cross/tick/" + f, ref.S, get2(full, 0, f), get2(ref, 0, f), "the tick after crossing", w)
    lt = k.fn("storage::tick::LiquidityTick::cross", crate=WASM, names=nm)
    k.same("cross/liquidity", ref.S, get2(lt, 1, "liquidity"), get2(ref, 1, "liquidity"), "active liquidity after crossing a tick", w)
    k.equiv("cross/defined", lt.S, ref.S, "the crossings that succeed", w, under=LE(get(ref.E.read_ref(ref.r.ctx, ref.r.args[1]), "start_timestamp"), ref.arg(2)))


def p22_position(k):
    """on the valid grid the client library places ticks and limits searches as the contract does"""
    def both(n, m):
        a, b = grid_args(k, Client.map + m, home=Client())[0], grid_args(k, Contract.map + n, home=Contract())[0]
        return a, b, AND(a.S, b.S), [Client.map + m]
    for m in ("tick_to_position", "tick_to_position_js"):
        a, b, s, w = both("tick_to_position", m)
        k.equiv("position/%s/defined" % m, a.S, b.S, "the ticks that have a bitmap position", w)
        k.same("position/%s/value" % m, s, struct("pair", *a.val.args[1]), struct("pair", *b.val.args[1]), "the bitmap position of a tick", w)
    a, b, s, w = both("get_search_limit", "get_search_limit")
    up, dn = a.arg(2), b.arg(2)
    k.equiv("position/limit/defined", a.S, b.S, "the search limit", w)
    k.same("position/limit/value", AND(s, OR(AND(up, dn), AND(NOT(up), NOT(dn)))), a.val, b.val, "the search limit", w)


# ------------------------------------------------------------------ P23
MINP, MAXP = 15258932000000000000, 65535383934512647000000000000
MAXCROSS = 173


@prop("P23", 40)
def p23(k):
    k.rule("the client library's bitmap search obeys the same reference as the contract's; one simulated iteration changes remaining amount, totals, price, active liquidity and current tick exactly as the contract's reference iteration; "
           "the simulation reports no flag exactly when it ran to completion, and otherwise the flag that names the reason")
    k.assume(CLOSER_LEMMA)
    k.assume("the supplied ticks carry distinct indices (the first match is used)")
    sdk(k)
    h = Client()
    k.group("P23/next", p28_search, k, True, h)
    k.group("P23/prev", p28_search, k, False, h)
    k.group("P23/limit", p28_limit, k, h)
    k.group("P23/place", p28_place, k, h)
    k.group("P23/closer", p28_closer, k, h)
    k.group("P23/bitmap", p23_bitmap, k, h)
    k.group("P23/simulate", p23_simulate, k)


def p23_bitmap(k, h):
    """reading and flipping a bit of the client-side bitmap"""
    for n in ("get", "flip"):
        run, tick, sp, _ = grid_args(k, h.state + n, home=h)
        c, b = place(run, tick, sp)
        word = h.word(run, c) if n == "get" else None
        on = EQI(REM(tick, sp), ZERO)
        if n == "get":
            k.equiv("bitmap/get", run.val, lift(lambda x: bit_of(x, b), word), "the bit of a tick is read", [h.state + n], under=AND(run.S, on))
            k.equiv("bitmap/get-defined", run.S, on, "every tick on the grid can be looked up", [h.state + n])
            continue
        m0 = get(run.E.sym("self", run.p.types[run.p.fn(h.state + "get")["locals"][1]]["e"]), "bitmap")
        u64 = run.p.fn("log::log2_floor_x32")["locals"][0]
        sel = lambda m, c: M.ns_select(run.E, m.args[1][0] if m.tag == "struct" else mk("ns", m, ()), c, u64)
        m1 = get(run.E.read_ref(run.r.ctx, run.r.args[0]), "bitmap")
        h0, w0 = sel(m0, c)
        h1, w1 = sel(m1, c)
        old = vite(h0, w0, ZERO)
        set_ = lift(lambda x: bit_of(x, b), old)
        k.equiv("bitmap/flip-defined", run.S, AND(on, ite(set_, NOT(run.arg(1)), run.arg(1))), "a bit is set only when clear and cleared only when set", [h.state + n])
        k.same("bitmap/flip", run.S, w1, lift(lambda x: bit_op("xor", x, b, (1 << 64) - 1), old), "exactly the tick's bit is flipped", [h.state + n])
        k.implied("bitmap/flip-stored", run.S, h1, "the word is stored", [h.state + n])
        other = as_poly(mk("sym", "another_word"))
        ho, wo = sel(m0, other)
        hn, wn = sel(m1, other)
        ne = AND(run.S, NOT(EQI(other, c)))
        k.equiv("bitmap/flip-others", hn, ho, "no other word changes", [h.state + n], under=ne)
        k.same("bitmap/flip-other-words", AND(ne, hn), wn, wo, "no other word changes", [h.state + n])


def p23_simulate(k):
    fn = "swap::simulate_swap"
    got = []

    def ticks_in(E, ctx, f, a, dty, where, fr):
        r = E.p.types[dty]
        v = E.sym("supplied_ticks", r["v"][0]["f"][0][1])
        got.append((v, where))
        return variant(r["n"], 0, v)
    cuts = [W + x for x in ("clamm::compute_swap_step", "clamm::is_enough_amount_to_change_price", "collections::tickmap::Tickmap::get_closer_limit")]
    nm = dict(enumerate("tickmap fee_tier pool ticks x_to_y amount by_amount_in sqrt_price_limit".split()))
    run = k.fn(fn, crate=WASM, cuts=cuts, names=nm, models={"serde_wasm_bindgen::from_value": ticks_in})
    if len(got) != 1:
        raise Unsupported("the supplied ticks are decoded %d times" % len(got))
    E, S = run.E, run.S
    ticks = got[0][0]
    tm, ft, pool, _, x2y, amount, by, limit = (E.deep(run.r.ctx, a) for a in run.r.args)
    sp = get(ft, "tick_spacing")
    steps = [ev for ev in E.events if ev[0] == "cut" and ev[1] == "compute_swap_step"]
    lims = [ev for ev in E.events if ev[0] == "cut" and ev[1] == "get_closer_limit"]
    if len(E.loops) != 1 or len(steps) != 1 or len(lims) != 1:
        raise Unsupported("expected one loop with one limit search and one step, found %d, %d and %d" % (len(E.loops), len(lims), len(steps)))
    info, st, li = E.loops[0], steps[0], lims[0]
    w = [info["where"]]
    sl = lambda leaf: slot_of(info, leaf) or Slot(leaf, leaf, leaf)
    price, liq, rem, tick = sl(num(st[3][0])), sl(num(st[3][2])), sl(num(st[3][3])), sl(li[3][3])
    pc0 = no_ovf(info["pc0"])
    for n, s, v in (("price", price, get(pool, "sqrt_price")), ("liquidity", liq, get(pool, "liquidity")), ("tick", tick, get(pool, "current_tick_index")), ("remaining", rem, amount)):
        k.same("simulate/start/" + n, pc0, s.init, num(v), "the simulation starts from the supplied pool and the full amount", w)
    # the reference iteration
    lok, lim = okv(E.lift_app("get_closer_limit", tuple(li[3]), run.p.fn("Tickmap::get_closer_limit")["locals"][0]))
    for ev, want in ((li, [tm, limit, x2y, tick.hdr, sp]),):
        k.ob("simulate/search-arguments", len(ev[3]) == 5 and all(same(no_ovf(ev[2]), no_ovf_val(x), y) for x, y in zip(ev[3], want)),
             "the limiting tick is searched from the current tick, in the swap's direction and up to its limit", [ev[4]])
    limp, opt = lim.args[1]
    some, payload = next((c, fs[0]) for v, c, fs in opt.args[1] if v == 1)
    ti, init = payload.args[1]
    args = [like(st[3][0], price.hdr), limp, like(st[3][2], liq.hdr), like(st[3][3], rem.hdr), by, get(ft, "fee")]
    k.ob("simulate/step-arguments", all(same(no_ovf(st[2]), no_ovf_val(x), y) for x, y in zip(st[3], args)), "each step starts from the current price and liquidity, stops at the limit found and uses the pool's fee", [st[4]])
    sok, r = okv(cutv(run, "clamm::compute_swap_step", *args))
    nxt, ain, aout, fee = (num(get(r, f)) for f in ("next_sqrt_price", "amount_in", "amount_out", "fee_amount"))
    rem1 = SUB(rem.hdr, vite(by, ADD(ain, fee), aout))
    hit = AND(some, eqv(num(limp), nxt))
    eok, enough = okv(cutv(run, "clamm::is_enough_amount_to_change_price", like(st[3][3], rem1), get(r, "next_sqrt_price"), like(st[3][2], liq.hdr), get(ft, "fee"), by, x2y))
    ety = run.p.adt("LiquidityTick")
    fnd, t = FALSE, None
    for v, c, fs in M.list_find(E, Probe(), ticks, ety, lambda c, el: eqv(get(el, "index"), ti), lambda x, o: x).args[1]:
        if v == 1:
            fnd, t = c, fs[0]
    k.assume("a supplied tick found by its index carries that index")
    nt = net(t)
    cross = AND(hit, init, OR(NOT(x2y), enough))
    stay = AND(hit, init, x2y, NOT(enough), NOT(EQI(rem1, ZERO)))
    tok, tkv = okv(cutv(run, "log::get_tick_at_sqrt_price", get(r, "next_sqrt_price"), sp))
    liq1 = vite(cross, vite(x2y, SUB(liq.hdr, nt), ADD(liq.hdr, nt)), liq.hdr)
    tick1 = vite(NOT(hit), tkv, vite(AND(x2y, enough), SUB(ti, sp), ti))
    lemma = OR(NOT(some), vite(x2y, LE(ti, tick.hdr), LT(tick.hdr, ti)))
    sane = AND(lemma, OR(NOT(fnd), eqv(get(t, "index"), ti)))
    pc = AND(no_ovf(info["back"].pc), sane)
    for n, s, v in (("remaining", rem, vite(stay, ZERO, rem1)), ("price", price, nxt), ("liquidity", liq, liq1), ("tick", tick, tick1)):
        k.same("simulate/step/" + n, pc, s.back, v, "after one simulated step", w)

    def total(d):
        return next((s for s in slots(info) if s.init is ZERO and s.hdr.tag == "poly" and same(pc, s.back, ADD(s.hdr, d))), None)
    din, dout = ADD(ADD(ain, fee), vite(AND(stay, by), rem1, ZERO)), aout
    A, B, F = total(din), total(dout), total(fee)
    for n, s in (("in", A), ("out", B), ("fee", F)):
        k.ob("simulate/total-" + n, s is not None, "no loop-carried total grows by exactly each step's amount (%s)" % n, w)
    if None in (A, B, F):
        return
    res = run.val
    m = MUL(sp, DIV(const(MAXT), sp))
    missing = AND(some, init, NOT(fnd))
    stuck = AND(eqv(nxt, num(limit)), NOT(EQI(rem1, ZERO)))
    outside = vite(x2y, LE(tick1, SUB(ZERO, m)), LE(m, tick1))
    crossed = get(res, "crossed_ticks")
    cl = next((s for s in slots(info) if s.hdr.tag == "list" and s.init.tag == "list" and not s.init.args[0]), None)
    if cl is None:
        raise Unsupported("no list of crossed ticks")
    k.same("simulate/crossed", pc, vlist(cl.back.args[0][len(cl.hdr.args[0]):]), vlist([(cross, "e", t)]), "ticks reported as crossed", w)
    many = AND(cross, LE(const(MAXCROSS), E.length(cl.hdr)))
    for n, c in (("done", NOT(EQI(rem.hdr, ZERO))), ("search", lok), ("step", sok), ("tick", NOT(missing)), ("limit", NOT(stuck)), ("range", NOT(outside)), ("crossings", NOT(many)), ("overspent", NOT(LT(rem1, ZERO)))):
        k.implied("simulate/continues/" + n, pc, c, "the simulation continues although the contract would stop", w)
    flags = [get(res, f) for f in ("global_insufficient_liquidity", "state_outdated", "max_ticks_crossed")]
    clean = AND(*[NOT(f) for f in flags])
    S = AND(S, sane)
    done = EQI(rem.hdr, ZERO)
    k.equiv("simulate/complete", clean, done, "no flag is raised exactly when the whole amount was swapped", w, under=S)
    D = AND(S, done)
    for n, s in (("amount_in", A), ("amount_out", B), ("fee", F), ("target_sqrt_price", price)):
        k.same("simulate/result/" + n, D, num(get(res, n)), s.hdr, "the simulated result", w)
    k.same("simulate/result/crossed", D, crossed, cl.hdr, "the crossed ticks", w)
    k.same("simulate/result/start", S, num(get(res, "start_sqrt_price")), num(get(pool, "sqrt_price")), "the price before the swap", w)
    k.equiv("simulate/flag/liquidity", flags[0], OR(NOT(lok), stuck, AND(outside, NOT(missing), NOT(many), NOT(flags[1]))), "insufficient liquidity is reported exactly when the search, the limit or the tick range ends the swap", w, under=AND(S, NOT(done)))
    k.equiv("simulate/flag/crossings", flags[2], AND(lok, NOT(stuck), NOT(missing), many, NOT(flags[1])), "too many crossings are reported exactly beyond the limit", w, under=AND(S, NOT(done)))
    k.implied("simulate/flag/outdated", AND(S, lok, NOT(done), NOT(stuck), missing), flags[1], "a missing tick must be reported as outdated state", w)
    # refusals
    a, l, p = num(amount), num(limit), num(get(pool, "sqrt_price"))
    side = vite(x2y, AND(LT(l, p), LE(l, const(MAXP))), AND(LT(p, l), LE(const(MINP), l)))
    k.implied("simulate/refused", S, AND(NOT(EQI(a, ZERO)), side), "the simulation accepts what the contract refuses", w)
    k.ob("simulate/no-other-refusal", implied(AND(no_ovf(pc0)), AND(NOT(EQI(a, ZERO)), side)) and implied(AND(NOT(EQI(a, ZERO)), side, NOT(EQI(sp, ZERO))), pc0), "the simulation refuses what the contract accepts", w)
