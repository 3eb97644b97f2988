"""Swaps: the price-walking loop, tick crossing, fees, limits, settlement, quotes and routes."""
from . import prop
from .common import *

MINP, MAXP = 15258932000000000000, 65535383934512647000000000000
CLOSER_LEMMA = "the next limiting tick lies at or below the current tick when selling x and above it when selling y (shown for the bitmap search in P28)"
TICK_INDEX = "a stored tick carries the index it is stored under (every tick write is shown to keep this)"


def step_loops(run):
    """the innermost loops that perform swap steps, with their step and limit events"""
    out = []
    steps = [ev for ev in run.E.events if ev[0] == "cut" and ev[1] == "compute_swap_step"]
    lims = [ev for ev in run.E.events if ev[0] == "cut" and ev[1] == "get_closer_limit"]
    for info in run.E.loops:
        tag = info["tag"]
        st = [ev for ev in steps if mentions(ev[3][3], tag)]
        li = [ev for ev in lims if any(mentions(a, tag) for a in ev[3])]
        if st and li:
            out.append((info, st, li))
    # drop loops that enclose another one in the list: keep the one whose symbol is the remaining amount itself
    res = []
    for info, st, li in out:
        rem = num(st[0][3][3])
        if slot_of(info, rem) is not None:
            res.append((info, st, li))
    return res


class SwapLoop:
    """reference semantics of one swap against the analysed loop"""

    def __init__(self, run, e, inputs, stores=None, loop=None):
        self.run, self.e, self.i = run, e, inputs
        E = run.E
        if loop is None:
            ls = step_loops(run)
            if len(ls) != 1:
                raise Unsupported("expected one swap loop, found %d" % len(ls))
            loop = ls[0]
        self.info, self.steps, self.lims = loop
        info = self.info
        self.where = [info["where"]]
        self.pk = inputs["pk"]
        self.spacing = get(self.pk, "fee_tier.tick_spacing")
        self.x2y, self.by, self.limit = inputs["x2y"], inputs["by"], inputs["limit"]
        stores = stores or {}
        self.pools0 = stores.get("pools") or run.ns0("pools")
        self.ticks0 = stores.get("ticks") or run.ns0("ticks")
        self.hp, self.pool0 = M.ns_select(E, self.pools0, pool_db_key(self.pk), tyof(run, "pools"))
        self.hc, self.conf = e.config0()
        ev, lev = self.steps[0], self.lims[0]
        # roles of loop-carried values
        self.rem = self.slot(num(ev[3][3]))
        self.price = self.slot(num(ev[3][0]))
        self.liq = self.slot(num(ev[3][2]))
        self.tick = self.slot(lev[3][3])
        self.f = {}
        for n in ("fee_growth_global_x", "fee_growth_global_y", "fee_protocol_token_x", "fee_protocol_token_y", "last_timestamp", "start_timestamp"):
            self.f[n] = self.by_init(num(get(self.pool0, n)))
        self.lev = lev
        self.transfer()

    def slot(self, leaf):
        s = slot_of(self.info, leaf)
        return s or Slot(leaf, leaf, leaf)

    def by_init(self, v):
        c = [s for s in slots(self.info) if s.init is v]
        if c:
            return c[0]
        return Slot(v, v, v)

    def add_fee(self, fg, pf, amount):
        """(growth, protocol counter) after a fee of `amount`: the protocol share is rounded up, the rest accrues
        per unit of active liquidity rounded down; nothing accrues without active liquidity"""
        rate = num(get(self.conf, "protocol_fee"))
        prot = DIV(ADD(MUL(amount, rate), const(10 ** 12 - 1)), const(10 ** 12))
        rest = SUB(amount, prot)
        idle = OR(AND(EQI(rest, ZERO), EQI(prot, ZERO)), EQI(self.liq.hdr, ZERO))
        g = wrap128(self.run, ADD(fg, DIV(MUL(rest, const(10 ** 34)), self.liq.hdr)))
        return vite(idle, fg, g), vite(idle, pf, ADD(pf, prot))

    def transfer(self):
        """values after one iteration"""
        run, e = self.run, self.e
        x2y, by = self.x2y, self.by
        T = {}
        lim_r = self.event_value(self.lev, "state::get_closer_limit")
        self.lim_ok, lim = okv(lim_r)
        limp, opt = lim.args[1]
        some, payload = FALSE, None
        for v, c, fs in opt.args[1]:
            if v == 1:
                some, payload = c, fs[0]
        ti, init = payload.args[1]
        self.limp = limp
        like_price = lambda s: like(self.steps[0][3][0], s.hdr)
        args = [like(self.steps[0][3][0], self.price.hdr), limp, like(self.steps[0][3][2], self.liq.hdr), like(self.steps[0][3][3], self.rem.hdr), by, get(self.pk, "fee_tier.fee")]
        self.step_ok, r = okv(cutv(run, "math::clamm::compute_swap_step", *args))
        nxt, ain, aout, fee = (num(get(r, f)) for f in ("next_sqrt_price", "amount_in", "amount_out", "fee_amount"))
        self.nxt = nxt
        used = vite(by, ADD(ain, fee), aout)
        rem1 = SUB(self.rem.hdr, used)
        hit = AND(some, eqv(num(limp), nxt))
        like_amt = self.steps[0][3][3]
        en_ok, enough = okv(cutv(run, "math::clamm::is_enough_amount_to_change_price", like(like_amt, rem1), get(r, "next_sqrt_price"), like(self.steps[0][3][2], self.liq.hdr), get(self.pk, "fee_tier.fee"), by, x2y))
        ht, t = M.ns_select(run.E, self.ticks0, tick_db_key(self.pk, ti), tyof(run, "ticks"))
        cross = AND(hit, init, OR(NOT(x2y), enough))
        stay = AND(hit, init, x2y, NOT(enough), NOT(EQI(rem1, ZERO)))
        left = vite(AND(stay, by), rem1, ZERO)
        T["rem"] = vite(stay, ZERO, rem1)
        T["in"] = ADD(ADD(ain, fee), left)
        T["out"] = aout
        T["price"] = nxt
        for a in ("x", "y"):
            mine = x2y if a == "x" else NOT(x2y)
            g, p = self.f["fee_growth_global_" + a].hdr, self.f["fee_protocol_token_" + a].hdr
            g1, p1 = self.add_fee(g, p, fee)
            g2, p2 = self.add_fee(g1, p1, rem1)
            st = AND(stay, by)
            T["fee_growth_global_" + a] = vite(mine, vite(st, g2, g1), g)
            T["fee_protocol_token_" + a] = vite(mine, vite(st, p2, p1), p)
        nt = net(t)
        T["liq"] = vite(cross, vite(x2y, SUB(self.liq.hdr, nt), ADD(self.liq.hdr, nt)), self.liq.hdr)
        tk = cutv(run, "math::log::get_tick_at_sqrt_price", get(r, "next_sqrt_price"), self.spacing)
        tk_ok, tkv = okv(tk)
        T["tick"] = vite(NOT(hit), tkv, vite(AND(x2y, enough), SUB(ti, self.spacing), ti))
        T["last_timestamp"] = vite(cross, e.millis(), self.f["last_timestamp"].hdr)
        # growth used when crossing is the one after this step's fee
        gx, gy = (wrap128(run, SUB(T["fee_growth_global_" + a], num(get(t, "fee_growth_outside_" + a)))) for a in ("x", "y"))
        sec = run.E.wrap(SUB(SUB(e.millis(), get(self.pool0, "start_timestamp")), get(t, "seconds_outside")), 64, False)
        self.crossed = spec_tick(run, t, fgx=gx, fgy=gy, seconds=sec)
        self.cross, self.hit, self.ti, self.init, self.ht = cross, hit, ti, init, ht
        self.stay, self.rem1, self.enough = stay, rem1, enough
        self.T = T
        cur = self.tick.hdr
        self.lemma = OR(NOT(some), vite(x2y, LE(ti, cur), LT(cur, ti)))
        self.need = AND(self.lim_ok, self.step_ok, NOT(LT(rem1, ZERO)), OR(NOT(AND(hit, init)), ht))
        m = lift(lambda s: MUL(as_poly(s), DIV(const(MAXT), as_poly(s))), self.spacing)
        self.inside = vite(x2y, LT(SUB(ZERO, m), T["tick"]), LT(T["tick"], m))
        self.not_stuck = OR(NOT(eqv(nxt, num(self.limit))), EQI(rem1, ZERO))

    def event_value(self, ev, fn):
        f = self.run.p.fn(fn)
        return self.run.E.lift_app(ev[1], tuple(ev[3]), f["locals"][0])

    @property
    def pc(self):
        return AND(no_ovf(self.info["back"].pc), self.lemma)

    def totals(self):
        """loop-carried totals of input and output: start at zero and grow by the step's amounts"""
        def find(n):
            for s in slots(self.info):
                if s.init is ZERO and s.hdr.tag == "poly" and same(self.pc, s.back, ADD(s.hdr, self.T[n])):
                    return s
        return find("in"), find("out")


def lim_args(k, name, L):
    """the limiting tick is searched for this pool, direction, price limit and current tick"""
    for ev in L.lims:
        a = ev[3]
        want = [None, L.limit, L.x2y, L.tick.hdr, L.spacing, L.pk]
        ok = len(a) == 6 and all(w is None or same(AND(no_ovf(ev[2]), L.lemma), no_ovf_val(x), w) for x, w in zip(a, want))
        k.ob(name + "/search-arguments", ok, "the search for the next limiting tick must use the swap's own pool, direction, limit and current tick", [ev[4]])
    for ev in L.steps:
        a = ev[3]
        st = a
        want = [like(st[0], L.price.hdr), L.limp, like(st[2], L.liq.hdr), like(st[3], L.rem.hdr), L.by, get(L.pk, "fee_tier.fee")]
        ok = len(a) == 6 and all(same(no_ovf(ev[2]), no_ovf_val(x), w) for x, w in zip(a, want))
        k.ob(name + "/step-arguments", ok, "each step must start from the current price and liquidity, stop at the limit found and use the pool's fee", [ev[4]])


def step_same(k, name, L, role, want, what):
    sl = role
    return k.same(name + "/" + what.replace(" ", "-"), L.pc, sl.back, want, "after one swap step, " + what, L.where)


def started(k, name, L):
    """values before the first iteration"""
    pc0 = no_ovf(L.info["pc0"])
    p = L.pool0
    for n, s, w in (("remaining", L.rem, num(L.i["amount"])), ("price", L.price, num(get(p, "sqrt_price"))), ("liquidity", L.liq, num(get(p, "liquidity"))), ("tick", L.tick, get(p, "current_tick_index"))):
        k.same("%s/start/%s" % (name, n), pc0, s.init, w, "the swap starts from the stored pool and the full amount", L.where)


def open_message(k, name, query=False):
    run = k.query(name, ENTRY_CUTS) if query else k.execute(name, ENTRY_CUTS)
    e = QEnv(run) if query else Env(run)
    i = {"pk": e.field("pool_key"), "x2y": e.field("x_to_y"), "amount": e.field("amount"), "by": e.field("by_amount_in"), "limit": e.field("sqrt_price_limit")}
    return run, e, SwapLoop(run, e, i)


class QEnv(Env):
    def __init__(self, run):
        self.run, self.E, self.p = run, run.E, run.p
        self.env = run.arg(1)
        self.sender = None


def final_pool(k, name, L, S, pools, key_ok=True):
    """the stored pool is the loop's final state"""
    run = L.run
    want = setnum(L.pool0, sqrt_price=L.price.hdr, liquidity=L.liq.hdr, current_tick_index=L.tick.hdr, **{n: s.hdr for n, s in L.f.items()})
    return want


# ------------------------------------------------------------------ P10
@prop("P10", 15)
def p10(k):
    k.rule("one swap iteration: remaining' = remaining - (input incl. fee | output), totals grow by exactly the step's input incl. fee (plus any leftover charged as fee) and output, price' = the step's price; "
           "the loop starts from the stored pool and the full amount, ends only with nothing remaining; the final pool is stored and exactly the totals are collected from and paid to the trader")
    k.assume(CLOSER_LEMMA)
    k.group("P10/Swap", p10_swap, k)


def p10_swap(k):
    run, e, L = open_message(k, "Swap")
    S = run.S
    lim_args(k, "Swap", L)
    started(k, "Swap", L)
    k.implied("Swap/complete", S, EQI(L.rem.hdr, ZERO), "a swap succeeds with part of the amount unspent", L.where)
    step_same(k, "Swap", L, L.rem, L.T["rem"], "remaining amount")
    step_same(k, "Swap", L, L.price, L.T["price"], "price")
    k.implied("Swap/step-valid", L.pc, L.need, "an iteration completes although a step failed or overspent", L.where)
    A, B = L.totals()
    k.ob("Swap/total-in", A is not None, "no loop-carried total grows by exactly the input, fee and leftover of each step", L.where)
    k.ob("Swap/total-out", B is not None, "no loop-carried total grows by exactly the output of each step", L.where)
    settle(k, "Swap", run, e, L, S, A, B)
    pool_saved(k, "Swap", run, L)


def pool_saved(k, name, run, L):
    want = final_pool(k, name, L, run.S, None)
    state_eq(k, run, "pools", tyof(run, "pools"), [(TRUE, pool_db_key(L.pk), want)], name, msg="the pool reached by the swap is stored")


def settle(k, name, run, e, L, S, A, B):
    if A is None or B is None:
        return
    pk = L.pk
    tin = vite(L.x2y, get(pk, "token_x"), get(pk, "token_y"))
    tout = vite(L.x2y, get(pk, "token_y"), get(pk, "token_x"))
    enough, msgs = collect(run, e, tin, A.hdr, get(e.info, "funds"))
    k.implied(name + "/funded", S, enough, "accepted although the attached coins do not cover the input")
    settles(k, name + "/settlement", S, run, msgs, e.pay(e.sender, tout, B.hdr), "tokens moved by the swap")


# ------------------------------------------------------------------ crossed ticks
def write_loops(run, ns):
    return [i for i in run.E.loops if ("ns", ns) in i["havoc"]]


def covers(k, name, run, info, pos, lst, S):
    """the loop visits every element of the list, in order, once"""
    if info["fn"] == "for_each":
        if info.get("stops") not in (None, FALSE):
            pass          # an element that fails stops the message (its error is returned)
        return True
    s = slot_of(info, pos)
    ok = s is not None and s.init is ZERO and same(no_ovf(info["back"].pc), s.back, ADD(pos, ONE)) and implied(S, NOT(LT(pos, run.E.length(lst))))
    k.ob(name + "/every-crossed-tick", ok, "every crossed tick must be written back", [info["where"]])
    return ok


def elem_source(t):
    """(list source, position) of a value read from a list element"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if not isinstance(x, T):
            if isinstance(x, tuple):
                st.extend(x)
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.tag == "elem" or (x.tag == "app" and x.args[0] == "elem"):
            return x
        if x.tag == "ite":
            st.extend(ATOMS[v] for v in support(x))
            st.extend(leaves(x))
        else:
            st.extend(x.args)
    return None


def crossed_list(k, name, L, lst):
    """the list value at the loop head grows by exactly the crossed tick of each step"""
    if lst.tag == "list" and len(lst.args[0]) == 1 and lst.args[0][0][1] == "s":
        pass
    s = slot_of(L.info, lst)
    if s is None:
        return k.ob(name + "/crossed-list", False, "the crossed ticks are not accumulated by the swap loop", L.where)
    k.ob(name + "/crossed-list-starts-empty", s.init.tag == "list" and not s.init.args[0], "the list of crossed ticks starts empty", L.where)
    pre, got = s.hdr.args[0], s.back
    got = vlist(nlist(got, L.pc)) if got.tag == "list" else got
    ok = got.tag == "list" and len(got.args[0]) >= len(pre) and all(a[2] is b[2] for a, b in zip(pre, got.args[0]))
    if not ok:
        return k.ob(name + "/crossed-list", False, "the list of crossed ticks only grows", L.where)
    new = vlist([(c, kk, netproj(v)) if kk == "e" else (c, kk, v) for c, kk, v in got.args[0][len(pre):]])
    return k.same(name + "/crossed-list", L.pc, new, vlist([(L.cross, "e", L.crossed)]), "ticks recorded as crossed by one step", L.where)


def ticks_written(k, name, run, L, S, base):
    """every crossed tick is stored under its own index in this pool, and no other tick changes"""
    pc = L.pc
    loops = [i for i in write_loops(run, "ticks") if i is not L.info and mentions_loop(run, i, L)]
    if ("ns", "ticks") in L.info["havoc"]:
        raise Unsupported("ticks written inside the swap loop")
    if len(loops) != 1:
        raise Unsupported("expected one loop writing crossed ticks, found %d" % len(loops))
    ticks_written_in(k, name, run, L, loops[0], base, S)


def mentions_loop(run, info, L):
    b = info["back"].cells[("ns", "ticks")] if info["back"] else None
    return b is not None and mentions(b, L.info["tag"])


# ------------------------------------------------------------------ P08
@prop("P08", 6)
def p08(k):
    k.rule("a step that stops at an initialised tick with enough left to continue (always when the price rises) crosses it once: active liquidity changes by the tick's signed net (added going up, subtracted going down), "
           "its outside growths and seconds become global minus outside (wrapping), the current tick becomes that tick (minus one spacing when going down and continuing) or the tick of the reached price; every crossed tick and no other is written back")
    k.assume(CLOSER_LEMMA)
    k.assume(TICK_INDEX)
    k.group("P08/Swap", p08_swap, k)


def p08_swap(k):
    run, e, L = open_message(k, "Swap")
    lim_args(k, "Swap", L)
    started(k, "Swap", L)
    k.implied("Swap/tick-exists", L.pc, L.need, "crossing needs the stored tick", L.where)
    step_same(k, "Swap", L, L.liq, L.T["liq"], "active liquidity")
    step_same(k, "Swap", L, L.tick, L.T["tick"], "current tick")
    step_same(k, "Swap", L, L.f["last_timestamp"], L.T["last_timestamp"], "last timestamp")
    ticks_written(k, "Swap", run, L, run.S, run.ns0("ticks"))
    pool_saved(k, "Swap", run, L)
    untouched(k, run, ("pools", "ticks"), "Swap")


# ------------------------------------------------------------------ P27
@prop("P27", 4)
def p27(k):
    k.rule("each step's fee is split: the protocol share (rounded up) to the protocol counter of the input token, the rest to the input token's fee growth per active liquidity (rounded down, wrapping); "
           "a leftover too small to cross is charged the same way; the other token's counters never change")
    k.assume(CLOSER_LEMMA)
    k.group("P27/Swap", p27_swap, k)


def p27_swap(k):
    run, e, L = open_message(k, "Swap")
    pc0 = no_ovf(L.info["pc0"])
    for n in ("fee_growth_global_x", "fee_growth_global_y", "fee_protocol_token_x", "fee_protocol_token_y"):
        s = L.f[n]
        k.same("Swap/start/" + n, pc0, s.init, num(get(L.pool0, n)), "fee counters start from the stored pool", L.where)
        step_same(k, "Swap", L, s, L.T[n], n.replace("_", " "))
    pool_saved(k, "Swap", run, L)


# ------------------------------------------------------------------ P11
@prop("P11", 5)
def p11(k):
    k.rule("a swap is accepted only for a non-zero amount, an existing pool and a limit strictly on the swap's side of the current price and inside the price range; it never completes a step that reaches the limit with an amount remaining "
           "or reaches the last usable tick, and never succeeds with zero output")
    k.assume(CLOSER_LEMMA)
    k.group("P11/Swap", p11_swap, k, "Swap", False)
    k.group("P11/Quote", p11_swap, k, "Quote", True)


def p11_swap(k, name, q):
    run, e, L = open_message(k, name, q)
    S = run.S
    amount, limit = num(L.i["amount"]), num(L.limit)
    price = num(get(L.pool0, "sqrt_price"))
    k.implied(name + "/amount", S, NOT(EQI(amount, ZERO)), "zero amount accepted", L.where)
    k.implied(name + "/pool", S, L.hp, "swap in a missing pool accepted", L.where)
    side = vite(L.x2y, AND(LT(limit, price), LE(limit, const(MAXP))), AND(LT(price, limit), LE(const(MINP), limit)))
    k.implied(name + "/limit-side", S, side, "a price limit on the wrong side of the current price accepted", L.where)
    k.implied(name + "/limit-respected", L.pc, L.not_stuck, "an iteration continues after the limit was reached with an amount remaining", L.where)
    k.implied(name + "/tick-range", L.pc, L.inside, "an iteration continues after the last usable tick was reached", L.where)
    A, B = L.totals()
    k.ob(name + "/output-known", B is not None, "no loop-carried total grows by exactly the output of each step", L.where)
    if B is not None:
        k.implied(name + "/gain", S, NOT(EQI(B.hdr, ZERO)), "a swap without output succeeds", L.where)


# ------------------------------------------------------------------ P14
@prop("P14", 10)
def p14(k):
    k.rule("the quote query runs the same iteration as an executed swap (same step, limit search, tick crossing, fees and termination, each shown equal to the reference) and returns the same totals, final price and crossed ticks")
    k.assume(CLOSER_LEMMA)
    k.assume(TICK_INDEX)
    k.group("P14/Quote", p14_quote, k)


def p14_quote(k):
    run, e, L = open_message(k, "Quote", True)
    S = run.S
    lim_args(k, "Quote", L)
    started(k, "Quote", L)
    k.implied("Quote/complete", S, EQI(L.rem.hdr, ZERO), "a quote succeeds with part of the amount unspent", L.where)
    k.implied("Quote/step-valid", L.pc, L.need, "an iteration completes although a step failed or overspent", L.where)
    step_same(k, "Quote", L, L.rem, L.T["rem"], "remaining amount")
    step_same(k, "Quote", L, L.price, L.T["price"], "price")
    step_same(k, "Quote", L, L.liq, L.T["liq"], "active liquidity")
    step_same(k, "Quote", L, L.tick, L.T["tick"], "current tick")
    for n in ("fee_growth_global_x", "fee_growth_global_y"):
        step_same(k, "Quote", L, L.f[n], L.T[n], n.replace("_", " "))
    A, B = L.totals()
    k.ob("Quote/total-in", A is not None, "no loop-carried total grows by exactly the input, fee and leftover of each step", L.where)
    k.ob("Quote/total-out", B is not None, "no loop-carried total grows by exactly the output of each step", L.where)
    res = answer(run)
    if A is None or B is None:
        return
    k.same("Quote/amount-in", S, num(get(res, "amount_in")), A.hdr, "quoted input")
    k.same("Quote/amount-out", S, num(get(res, "amount_out")), B.hdr, "quoted output")
    k.same("Quote/price", S, num(get(res, "target_sqrt_price")), L.price.hdr, "quoted final price")
    crossed_list(k, "Quote", L, get(res, "ticks"))
    # acceptance: a quote and a swap refuse for the same reasons
    run2, e2, L2 = open_message(k, "Swap")
    k.ob("Quote/no-writes", not run.touched(), "a query changes state")


def answer(run):
    """the value serialised by a query"""
    v = run.val
    while True:
        if v.tag == "struct" and len(v.args[1]) == 1:
            v = v.args[1][0]
        elif v.tag == "list" and len(v.args[0]) == 1:
            v = v.args[0][0][2]
        elif v.tag == "app" and v.args[0] == "json":
            return v.args[1][0]
        else:
            raise Unsupported("query result " + show(v, 3)[:100])


# ------------------------------------------------------------------ P26
@prop("P26", 20)
def p26(k):
    k.rule("a route performs, for each hop in order, exactly one exact-input swap of the running amount in the hop's pool and direction, starting from the state left by earlier hops, with the price range's end as its limit; "
           "the next hop's amount is the hop's output; each hop collects its input from the coins still unspent and pays its output; the final output is at least the expected amount less the slippage (rounded up)")
    k.assume(CLOSER_LEMMA)
    k.assume(TICK_INDEX)
    k.group("P26/SwapRoute", p26_exec, k)
    k.group("P26/QuoteRoute", p26_quote, k)


class Hop:
    """the outer loop of a route"""

    def __init__(self, run, e):
        self.run, self.e = run, e
        loops = step_loops(run)
        if len(loops) != 1:
            raise Unsupported("expected one swap loop inside the route, found %d" % len(loops))
        inner = loops[0]
        swaps = e.field("swaps")
        self.swaps = swaps
        src = swaps.args[0][0][2]
        # the enclosing loop: its position indexes the hop list used by the inner loop
        el = None
        for a in inner[1][0][3]:
            x = elem_of(a, src)
            if x is not None:
                el = x
                break
        if el is None:
            raise Unsupported("the inner swap does not use an element of the hop list")
        _, pos = el
        self.pos = pos if pos.tag == "poly" else as_poly(pos)
        self.outer = None
        for i in run.E.loops:
            if slot_of(i, self.pos) is not None or (i["fn"] == "for_each" and mentions(self.pos, i["tag"])):
                self.outer = i
        if self.outer is None:
            raise Unsupported("no loop over the hops found")
        self.hop = run.E.elem(src, self.pos, run.p.adt("SwapHop"))
        x2y = get(self.hop, "x_to_y")
        like_p = inner[1][0][3][0]
        amt = self.init_amount(inner)
        self.amount = amt
        limit = vite(x2y, like(like_p, const(MINP)), like(like_p, const(MAXP)))
        self.stores = {n: self.outer["hdr"].get(("ns", n)) for n in ("pools", "ticks")}
        self.L = SwapLoop(run, e, {"pk": get(self.hop, "pool_key"), "x2y": x2y, "amount": amt, "by": TRUE, "limit": limit}, self.stores, inner)

    def init_amount(self, inner):
        info, st, li = inner
        rem = slot_of(info, num(st[0][3][3]))
        self.rem_init = rem.init
        s = slot_of(self.outer, rem.init)
        if s is None:
            raise Unsupported("the hop's amount is not carried from hop to hop")
        self.amt = s
        return s.hdr


def elem_of(t, src):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if not isinstance(x, T):
            if isinstance(x, tuple):
                st.extend(x)
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        a = x.args[:2] if x.tag == "elem" else (x.args[1][:2] if x.tag == "app" and x.args[0] == "elem" else None)
        if a and a[0] is src:
            return a
        if x.tag == "ite":
            st.extend(ATOMS[v] for v in support(x))
            st.extend(leaves(x))
        else:
            st.extend(x.args)
    return None


def hop_checks(k, name, run, e, H):
    L = H.L
    lim_args(k, name, L)
    started(k, name, L)
    k.implied(name + "/step-valid", L.pc, L.need, "an iteration completes although a step failed or overspent", L.where)
    for n, s in (("rem", L.rem), ("price", L.price), ("liq", L.liq), ("tick", L.tick)):
        step_same(k, name, L, s, L.T[n], {"rem": "remaining amount", "price": "price", "liq": "active liquidity", "tick": "current tick"}[n])
    for n in ("fee_growth_global_x", "fee_growth_global_y"):
        step_same(k, name, L, L.f[n], L.T[n], n.replace("_", " "))
    A, B = L.totals()
    k.ob(name + "/total-in", A is not None, "no loop-carried total grows by exactly the input, fee and leftover of each step", L.where)
    k.ob(name + "/total-out", B is not None, "no loop-carried total grows by exactly the output of each step", L.where)
    if A is None or B is None:
        raise Unsupported("totals of a hop")
    o = H.outer
    bpc = no_ovf(o["back"].pc)
    w = [o["where"]]
    covers_hops(k, name, run, H, bpc)
    k.implied(name + "/hop-complete", bpc, AND(L.hp, EQI(L.rem.hdr, ZERO), NOT(EQI(B.hdr, ZERO)), NOT(EQI(H.amount, ZERO))), "a hop completes with part of its amount unspent, without output, or in a missing pool", w)
    k.same(name + "/first-amount", TRUE, H.amt.init, num(e.field("amount_in")), "the first hop spends the route's input", w)
    k.same(name + "/next-amount", bpc, H.amt.back, B.hdr, "the next hop spends this hop's output", w)
    return A, B, bpc, w


def covers_hops(k, name, run, H, bpc):
    o = H.outer
    if o["fn"] == "for_each":
        return
    s = slot_of(o, H.pos)
    ok = s is not None and s.init is ZERO and same(bpc, s.back, ADD(H.pos, ONE)) and implied(run.S, NOT(LT(H.pos, run.E.length(H.swaps))))
    k.ob(name + "/every-hop", ok, "every hop must be executed, once and in order", [o["where"]])


def p26_exec(k):
    run = k.execute("SwapRoute", ENTRY_CUTS)
    e = Env(run)
    H = Hop(run, e)
    L, o = H.L, H.outer
    A, B, bpc, w = hop_checks(k, "SwapRoute", run, e, H)
    for n in ("fee_protocol_token_x", "fee_protocol_token_y"):
        step_same(k, "SwapRoute", L, L.f[n], L.T[n], n.replace("_", " "))
    # storage carried from hop to hop
    for ns in ("pools", "ticks"):
        k.ob("SwapRoute/start/" + ns, o["init"].get(("ns", ns)) is run.ns0(ns), "the route starts from the stored state", w)
    pools = no_ovf_val(o["back"].cells[("ns", "pools")])
    want = final_pool(k, "SwapRoute", L, bpc, None)
    key = pool_db_key(L.pk)
    p1, v1 = M.ns_select(run.E, pools, key, tyof(run, "pools"))
    only = ns_only(pools, H.stores["pools"], key, bpc)
    k.ob("SwapRoute/pool-stored", implied(bpc, p1) and same(bpc, v1, want) and only, "after a hop exactly its pool is stored with the state reached", w)
    wl = [i for i in write_loops(run, "ticks") if i is not o and i is not L.info]
    if len(wl) != 1:
        raise Unsupported("tick writes of a hop")
    hdr = wl[0]["havoc"][("ns", "ticks")]
    back = vrestrict(no_ovf_val(o["back"].cells[("ns", "ticks")]), bpc)
    k.ob("SwapRoute/ticks-carried", ns_is(back, hdr, bpc), "ticks written by a hop are what the next hop sees", w)
    ticks_written_in(k, "SwapRoute", run, L, wl[0], H.stores["ticks"], bpc)
    # payments
    pk = L.pk
    tin = vite(L.x2y, get(pk, "token_x"), get(pk, "token_y"))
    tout = vite(L.x2y, get(pk, "token_y"), get(pk, "token_x"))
    fs = funds_slot(run, e, o)
    funds = fs.hdr
    enough, msgs = collect(run, e, tin, A.hdr, funds)
    k.implied("SwapRoute/funded", bpc, enough, "a hop is accepted although the unspent attached coins do not cover its input", w)
    if fs.back is not fs.hdr or fs.init is not fs.hdr:
        k.same("SwapRoute/coins-start", TRUE, fs.init, get(e.info, "funds"), "attached coins")
    left = M.list_filter(run.E, Probe(), funds, run.p.adt("Coin"), lambda c, x: NOT(eqv(get(x, "denom"), tin)))
    k.same("SwapRoute/coins-spent-once", bpc, fs.back, left, "coins attached for this hop's input are not available to later hops", w)
    ms = messages_slot(run, o)
    if ms is None:
        raise Unsupported("messages of a route")
    k.ob("SwapRoute/messages-start", ms.init.tag == "list" and not ms.init.args[0], "no message before the first hop", w)
    pre = ms.hdr.args[0]
    got = ms.back.args[0]
    okp = len(got) >= len(pre) and all(a == b for a, b in zip(pre, got))
    k.ob("SwapRoute/messages-kept", okp, "messages of earlier hops are kept", w)
    wantm = [(c, kk, strip_sub(v)) for c, kk, v in msgs + e.pay(e.sender, tout, B.hdr)]
    k.same("SwapRoute/settlement", bpc, vlist(got[len(pre):]), vlist(wantm), "tokens moved by a hop", w)
    fin = run.messages()
    k.ob("SwapRoute/all-sent", all_of(fin, ms.hdr), "every hop's messages are sent", w)
    # minimum output
    slip, exp = num(e.field("slippage")), num(e.field("expected_amount_out"))
    mino = DIV(ADD(MUL(exp, SUB(const(10 ** 12), slip)), const(10 ** 12 - 1)), const(10 ** 12))
    k.implied("SwapRoute/minimum-output", run.S, AND(NOT(LT(H.amount, mino)), LE(slip, const(10 ** 12))), "a route below the minimum output succeeds")
    untouched(k, run, ("pools", "ticks"), "SwapRoute")


def strip_sub(v):
    """the message inside a sub-message"""
    if v.tag == "choice":
        return vite(v.args[0], strip_sub(v.args[1]), strip_sub(v.args[2]))
    return get(v, "msg")


def all_of(fin, hdr):
    """the final message list is the accumulated list, each wrapped once"""
    if fin.tag != "list" or len(fin.args[0]) != 1:
        return False
    c, kk, x = fin.args[0][0]
    src = hdr.args[0][0][2]
    return c is TRUE and kk == "s" and (x is src or (x.tag == "app" and x.args[0] == "map" and x.args[1][0] is src))


def ns_only(st, base, key, pc):
    """st is base with writes to `key` only (under pc)"""
    if not feasible(pc):
        return True
    if st.tag == "choice":
        return ns_only(st.args[1], base, key, AND(pc, st.args[0])) and ns_only(st.args[2], base, key, AND(pc, NOT(st.args[0])))
    return st.args[0] is base.args[0] and all(not feasible(AND(pc, c)) or same(AND(pc, c), kk, key) for c, kk, v in st.args[1])


def ns_is(st, want, pc):
    if not feasible(pc):
        return True
    if st.tag == "choice":
        return ns_is(st.args[1], want, AND(pc, st.args[0])) and ns_is(st.args[2], want, AND(pc, NOT(st.args[0])))
    return st.args[0] is want.args[0] and all(not feasible(AND(pc, c)) for c, kk, v in st.args[1])


def funds_slot(run, e, o):
    f0 = get(e.info, "funds")
    for s in slots(o):
        if s.init is f0:
            return s
    return Slot(f0, f0, f0)


def messages_slot(run, o):
    best = None
    for s in slots(o):
        if s.hdr.tag == "list" and s.init.tag == "list" and not s.init.args[0]:
            if any(x[1] == "e" and x[2].tag == "enum" and "CosmosMsg" in x[2].args[0] for x in s.back.args[0]):
                best = s
    return best


def ticks_written_in(k, name, run, L, w, base, S):
    hdr, back = w["havoc"][("ns", "ticks")], no_ovf_val(w["back"].cells[("ns", "ticks")])
    bpc = no_ovf(w["back"].pc)
    k.ob(name + "/ticks-start", w["init"][("ns", "ticks")] is base, "crossed ticks are applied to the stored ticks", [w["where"]])
    if back.tag != "ns" or back.args[0] is not hdr.args[0]:
        raise Unsupported("tick writes")
    ws = [x for x in back.args[1] if feasible(AND(x[0], bpc))]
    el = elem_source(mk("tuple", *[x[2] for x in ws if x[2] is not None])) if ws else None
    # the written tick is an element of the loop's list of crossed ticks
    cand = [s for s in slots(L.info) if s.hdr.tag == "list" and len(s.hdr.args[0]) == 1]
    found = None
    for s in cand:
        src = s.hdr.args[0][0][2]
        x = elem_of(mk("tuple", *[v for c, kk, v in ws if v is not None]), src) if ws else None
        if x is not None:
            found = (src, x[1], s.hdr)
    if found is None:
        return k.ob(name + "/ticks-stored", False, "crossed ticks are not written back", [w["where"]])
    src, pos, lst = found
    pos = pos if pos.tag == "poly" else as_poly(pos)
    covers(k, name, run, w, pos, lst, S)
    E = run.E
    tv = E.elem(src, pos, tyof(run, "ticks"))
    key = tick_db_key(L.pk, get(tv, "index"))
    p1, v1 = M.ns_select(E, mk("ns", hdr.args[0], tuple(ws)), key, tyof(run, "ticks"))
    ok = implied(bpc, p1) and same(bpc, v1, tv) and all(same(bpc, x[1], key) for x in ws)
    k.ob(name + "/ticks-stored", ok, "each crossed tick is stored, unchanged, under its own index of the swapped pool", [w["where"]])
    crossed_list(k, name, L, lst)


def p26_quote(k):
    run = k.query("QuoteRoute", ENTRY_CUTS)
    e = QEnv(run)
    H = Hop(run, e)
    H.stores = {}
    A, B, bpc, w = hop_checks(k, "QuoteRoute", run, e, H)
    k.same("QuoteRoute/answer", run.S, num(answer(run)), H.amount, "the quoted output is the last hop's output", w)
    k.ob("QuoteRoute/no-writes", not run.touched(), "a query changes state")
