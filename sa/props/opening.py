"""Opening pools, fee tiers and positions: validity; token settlement; the tick bitmap."""
from . import prop
from .common import *
from .liquidity import Create, Existing, CREATE, REMOVE, STORED_RANGE, STORED_INDEX

MAXFEE = 10 ** 12


# ------------------------------------------------------------------ P16
def tier_listed(run, e, tier, conf=None):
    conf = conf or e.config0()[1]
    return M.list_any(run.E, Probe(), get(conf, "fee_tiers"), run.p.adt("storage::fee_tier::FeeTier"), lambda c, el: eqv(el, tier))


@prop("P16", 6)
def p16(k):
    k.rule("a fee tier is added only by the admin, with a spacing in 1..=100, a fee below 100% and not already listed, and is appended; removal takes out exactly the named listed tier; "
           "no other message changes the list")
    k.group("P16/AddFeeTier", p16_add, k)
    k.group("P16/RemoveFeeTier", p16_remove, k)
    k.group("P16/frame", p16_frame, k)


def p16_add(k):
    run = k.execute("AddFeeTier", ENTRY_CUTS)
    e = Env(run)
    h, conf = e.config0()
    tier = e.field("fee_tier")
    fee, sp = num(get(tier, "fee")), get(tier, "tick_spacing")
    ok = AND(h, e.is_admin(), LE(ONE, sp), LE(sp, const(100)), LT(fee, const(MAXFEE)), NOT(tier_listed(run, e, tier)))
    k.equiv("AddFeeTier/accepted", run.S, ok, "fee tier acceptance", run.where("config"))
    tiers = get(conf, "fee_tiers")
    want = put(conf, fee_tiers=vlist(list(tiers.args[0]) + [(TRUE, "e", tier)]))
    state_eq(k, run, "config", tyof(run, "config"), [(TRUE, UNITKEY, want)], "AddFeeTier", msg="the listed tiers after adding")
    untouched(k, run, ("config",), "AddFeeTier")
    no_messages(k, run, "AddFeeTier")


def p16_remove(k):
    run = k.execute("RemoveFeeTier", ENTRY_CUTS)
    e = Env(run)
    h, conf = e.config0()
    tier = e.field("fee_tier")
    k.equiv("RemoveFeeTier/accepted", run.S, AND(h, e.is_admin(), tier_listed(run, e, tier)), "fee tier removal", run.where("config"))
    _, c1 = run.sel("config", UNITKEY, tyof(run, "config"))
    c1 = no_ovf_val(c1)
    got = get(c1, "fee_tiers")
    tiers = get(conf, "fee_tiers")
    src = tiers.args[0][0][2]
    FT = run.p.adt("storage::fee_tier::FeeTier")
    ok = removed_first(run, got, src, tiers, tier, FT, run.S)
    k.ob("RemoveFeeTier/list", ok, "the list after removal must be the old list without the named tier; found " + show(got, 8)[:300], run.where("config"))
    same_rest = put(c1, fee_tiers=tiers)
    k.same("RemoveFeeTier/rest", run.S, same_rest, conf, "removal leaves the rest of the configuration", run.where("config"))
    untouched(k, run, ("config",), "RemoveFeeTier")
    no_messages(k, run, "RemoveFeeTier")


def removed_first(run, got, src, tiers, tier, ty, S):
    """is `got` the list without the element equal to tier? (entries are pairwise different: additions refuse duplicates)"""
    b = M.boundvar(run.E)
    eqc = eqv(run.E.elem(src, b, ty), tier)
    its = nlist(got, S)
    if len(its) != 1 or its[0][0] is not TRUE or its[0][1] != "s":
        return False
    v = its[0][2]
    if v.tag == "app" and v.args[0] == "filter" and v.args[1][0] is src:
        return equiv(v.args[1][1], NOT(eqc))
    ix = M.first_ix(src, eqc)
    return v.tag == "app" and v.args[0] in ("list_remove", "list_swap_remove") and v.args[1][0] is tiers and v.args[1][1] is ix


def p16_frame(k):
    for name in k.variants():
        if name in ("AddFeeTier", "RemoveFeeTier"):
            continue
        run = k.execute(name, ENTRY_CUTS)
        if not run.writes("config"):
            k.ob(name + "/tiers-unchanged", True)
            continue
        e = Env(run)
        _, c1 = run.sel("config", UNITKEY, tyof(run, "config"))
        k.same(name + "/tiers-unchanged", run.S, get(no_ovf_val(c1), "fee_tiers"), get(e.config0()[1], "fee_tiers"), "the fee tiers change", run.where("config"))


# ------------------------------------------------------------------ P15
@prop("P15", 6)
def p15(k):
    k.rule("a pool is created only for a listed fee tier, two different tokens stored in ascending order, a key not yet used, a start tick on the spacing grid inside the tick range and a start price belonging to that tick; "
           "it starts with that price and tick, zero liquidity and counters, the current time and the admin as fee receiver; existing pools are untouched")
    k.group("P15/CreatePool", p15_create, k)
    k.group("P15/frame", p15_frame, k)


def p15_create(k):
    run = k.execute("CreatePool", ENTRY_CUTS)
    e = Env(run)
    h, conf = e.config0()
    t0, t1, tier = e.field("token_0"), e.field("token_1"), e.field("fee_tier")
    price, tick = e.field("init_sqrt_price"), e.field("init_tick")
    sp = get(tier, "tick_spacing")
    lt = LTS(t0, t1)
    pk = struct(run.p.types[run.p.adt("pool_key::PoolKey")]["n"], vite(lt, t0, t1), vite(lt, t1, t0), tier)
    hp, _ = e.pool0(pk)
    m = lift(lambda s: MUL(as_poly(s), DIV(const(MAXT), as_poly(s))), sp)
    last = LT(const(MAXT), ADD(tick, sp))
    (c0, p0), (c1, p1), (c2, p2) = price_at(run, tick), price_at(run, ADD(tick, sp)), price_at(run, m)
    rel = ite(last, AND(c2, eqv(num(price), num(p2))), AND(c0, c1, LE(num(p0), num(price)), LT(num(price), num(p1))))
    ok = AND(h, tier_listed(run, e, tier), tick_valid(run, tick, sp), NOT(eqv(t0, t1)), NOT(hp), rel)
    k.equiv("CreatePool/accepted", run.S, ok, "pool creation acceptance", run.where("pools"))
    P = run.p.types[run.p.adt("storage::pool::Pool")]
    zero = run.E.sym("new_pool", run.p.adt("storage::pool::Pool"))
    z = {f: ZERO for f in FIELDS[P["n"]] if f not in ("fee_receiver",)}
    want = setnum(zero, **z)
    want = setnum(want, sqrt_price=num(price), current_tick_index=tick, start_timestamp=e.millis(), last_timestamp=e.millis())
    want = put(want, fee_receiver=get(conf, "admin"))
    state_eq(k, run, "pools", tyof(run, "pools"), [(TRUE, pool_db_key(pk), want)], "CreatePool", msg="the new pool")
    untouched(k, run, ("pools",), "CreatePool")
    no_messages(k, run, "CreatePool")


def LTS(a, b):
    """a sorts before b"""
    return next((c for v, c, _ in M.str_order(a, b).args[1] if v == 0), FALSE)


def p15_frame(k):
    """pools come into existence only by creation and never disappear"""
    for name in k.variants():
        if name == "CreatePool":
            continue
        run = k.execute(name, ENTRY_CUTS)
        bad = []
        for c, kk, v in run.writes("pools"):
            if kk is None:
                continue
            p0, _ = M.ns_select(run.E, run.ns0("pools"), kk, tyof(run, "pools"))
            if v is None or not implied(c, p0):
                bad.append(kk)
        k.ob(name + "/no-pool-created", not bad, name + " creates or deletes a pool record", run.where("pools"))


# ------------------------------------------------------------------ P17
def max_per_tick(spacing):
    return lift(lambda s: DIV(const(U128), DIV(const(2 * MAXT + 1), as_poly(s))), spacing)


@prop("P17", 8)
def p17(k):
    k.rule("a position is opened only with non-zero liquidity in an existing pool, over lower < upper, each bound either already a tick of the pool or on the spacing grid inside the tick range, with the pool price inside the given limits "
           "and neither bound's gross liquidity reaching the per-tick maximum; any such opening that the sender funds is accepted; no other message changes the liquidity or range of a position")
    k.assume(STORED_INDEX)
    k.assume(GRIDTEXT)
    k.assume(CLOCK)
    for name in CREATE:
        k.group("P17/" + name, p17_create, k, name)
        k.group("P17/" + name + "/accepted", p17_accept, k, name)
    k.group("P17/frame", p17_frame, k)


def p17_create(k, name):
    c = Create(k, name)
    run, e = c.run, c.e
    P = num(get(c.pool, "sqrt_price"))
    w = run.where("positions")
    S = run.S
    k.implied(name + "/nonzero", S, NOT(EQI(c.L, ZERO)), "a position without liquidity", w)
    k.implied(name + "/pool", S, c.hp, "a position in a pool that does not exist", w)
    k.implied(name + "/range", S, LT(c.lo, c.hi), "a position over an empty or inverted range", w)
    k.implied(name + "/price-limits", S, AND(LE(c.slo, P), LE(P, c.shi)), "a position opened outside its price limits", w)
    ok = AND(NOT(EQI(c.L, ZERO)), c.hp, LT(c.lo, c.hi), LE(c.slo, P), LE(P, c.shi), c.defd)
    for nm, ix in (("lower", c.lo), ("upper", c.hi)):
        has, t = c.ticks[ix]
        tv = OR(has, tick_valid(run, ix, c.spacing))
        k.implied(name + "/" + nm + "-tick", S, tv, "a position bound off the spacing grid or outside the tick range", w)
        room = LT(ADD(get(t, "liquidity_gross"), c.L), max_per_tick(c.spacing))
        k.implied(name + "/" + nm + "-room", S, room, "a tick's gross liquidity reaches the per-tick maximum", w)
        ok = AND(ok, tv, room)


def p17_accept(k, name):
    """on the tick grid: a valid, funded opening is accepted"""
    c = Create(k, name, grid=True)
    run, e = c.run, c.e
    P = num(get(c.pool, "sqrt_price"))
    ok = AND(NOT(EQI(c.L, ZERO)), c.hp, LT(c.lo, c.hi), LE(c.slo, P), LE(P, c.shi), c.defd)
    clock = TRUE
    B = Bits(run, c.pk)
    for nm, ix in (("lower", c.lo), ("upper", c.hi)):
        has, t = c.ticks[ix]
        cp, _ = price_at(run, ix)
        room = LT(ADD(get(t, "liquidity_gross"), c.L), max_per_tick(c.spacing))
        ok = AND(ok, OR(has, AND(tick_valid(run, ix, c.spacing), cp, NOT(B.is_set(ix)))), room)
        B.put(NOT(has), ix, True)
    enough_x, mx = collect(run, e, get(c.pk, "token_x"), num(c.x), get(e.info, "funds"))
    enough_y, my = collect(run, e, get(c.pk, "token_y"), num(c.y), get(e.info, "funds"))
    ok = AND(ok, enough_x, enough_y)
    clock = NOT(LT(e.millis(), get(c.pool, "start_timestamp")))
    k.equiv(name + "/accepted", run.S, ok, "a position opening", run.where("positions"), under=clock)


def p17_frame(k):
    """no other message changes the liquidity, range or pool of a stored position"""
    rec = lambda q: struct("rec", get(q, "pool_key"), num(get(q, "liquidity")), get(q, "lower_tick_index"), get(q, "upper_tick_index"))
    for name in k.variants():
        if name in CREATE + REMOVE + ("TransferPosition", "TransferNft", "SendNft"):
            continue        # these add, remove or move whole records (dense-list property)
        run = k.execute(name, SWAP_CUTS if name in ("Swap", "SwapRoute") else ENTRY_CUTS)
        bad = []
        for c, kk, v in run.writes("positions"):
            if kk is None or v is None:
                bad.append(kk)
                continue
            p0, v0 = M.ns_select(run.E, run.ns0("positions"), kk, tyof(run, "positions"))
            if not (implied(c, p0) and same(c, rec(no_ovf_val(v)), rec(v0))):
                bad.append(kk)
        k.ob(name + "/terms-unchanged", not bad, name + " changes the liquidity, range or pool of a stored position", run.where("positions"))


# ------------------------------------------------------------------ P13
@prop("P13", 15)
def p13(k):
    k.rule("opening a position collects exactly the two token amounts of its liquidity from the sender (tokens by allowance, native coins attached, excess returned); messages that neither trade, open, close nor pay out fees move no tokens")
    for name in CREATE:
        k.group("P13/" + name, p13_create, k, name)
    k.group("P13/frame", p13_frame, k)


def p13_create(k, name):
    c = Create(k, name)
    run, e = c.run, c.e
    funds = get(e.info, "funds")
    ex, mx = collect(run, e, get(c.pk, "token_x"), num(c.x), funds)
    ey, my = collect(run, e, get(c.pk, "token_y"), num(c.y), funds)
    k.implied(name + "/funded", run.S, AND(ex, ey), "a position is opened although the attached coins do not cover it", run.where("positions"))
    settles(k, name + "/settlement", run.S, run, mx, my, "tokens moved when opening a position")


MOVERS = CREATE + REMOVE + ("ClaimFee", "Swap", "SwapRoute", "WithdrawProtocolFee")


def p13_frame(k):
    for name in k.variants():
        if name in MOVERS:
            continue
        run = k.execute(name, ENTRY_CUTS)
        if name == "SendNft":
            e = Env(run)
            msgs = nlist(run.messages(), run.S)
            ok = True
            for g, kind, m in msgs:
                w = get(m, "msg")
                ok = ok and kind == "e" and implied(AND(run.S, g), is_plain_call(e, w))
            k.ob(name + "/no-payment", ok and msgs, name + " moves tokens")
            continue
        no_messages(k, run, name)


def is_plain_call(e, m):
    """a wasm call without attached funds that is not a token transfer"""
    want = e.var("CosmosMsg", "Wasm", e.var("WasmMsg", "Execute", UNDEF, UNDEF, vlist([])))
    r = FALSE
    for v, c, fs in m.args[1]:
        if v == want.args[1][0][0]:
            for v2, c2, f2 in fs[0].args[1]:
                if v2 == want.args[1][0][2][0].args[1][0][0]:
                    r = OR(r, AND(c, c2, TRUE if f2[2].tag == "list" and not f2[2].args[0] else FALSE))
    return r


# ------------------------------------------------------------------ P06
CLOCK = "block time does not run backwards past a pool's creation"
GRIDTEXT = "tick bounds lie in the tick range and spacings in 1..=100 (P16, P17: anything else is refused and never stored)"


def chunk_bit(tick, sp):
    q = DIV(ADD(tick, const(MAXT)), sp)
    return DIV(q, const(64)), REM(q, const(64))


def bitmap_db_key(pk, chunk):
    return vlist([(TRUE, "s", be(chunk, 2))] + list(pool_db_key(pk).args[0]))


class Bits:
    """reference bitmap"""

    def __init__(self, run, pk):
        self.run, self.pk = run, pk
        self.ns = run.ns0("bitmap")
        self.sp = get(pk, "fee_tier.tick_spacing")

    def word(self, tick):
        ch, b = chunk_bit(tick, self.sp)
        h, v = M.ns_select(self.run.E, self.ns, bitmap_db_key(self.pk, ch), tyof(self.run, "bitmap"))
        return ch, b, vite(h, v, ZERO)

    def is_set(self, tick):
        ch, b, v = self.word(tick)
        return lift(lambda x, k: bit_of(as_poly(x), as_poly(k)), v, b)

    def put(self, cond, tick, on):
        """set or clear the tick's bit where cond holds"""
        ch, b, v = self.word(tick)
        new = lift(lambda x, k: bit_op("or" if on else "andnot", as_poly(x), as_poly(k), (1 << 64) - 1), v, b)
        base, ws = self.ns.args
        self.ns = mk("ns", base, ws + tuple((AND(cond, g), kk, new) for g, kk in M.key_cases(bitmap_db_key(self.pk, ch))))


@prop("P06", 10)
def p06(k):
    k.rule("the bit of a tick is set exactly when its record is created and cleared exactly when its record is removed, in the pool's own bitmap; no other bit and no other message touches the bitmap; every stored tick carries the index of its key")
    k.assume(GRIDTEXT)
    for name in CREATE:
        k.group("P06/" + name, p06_create, k, name)
    for name in REMOVE:
        k.group("P06/" + name, p06_remove, k, name)
    k.group("P06/frame", p06_frame, k)


def p06_frame(k):
    for name in k.variants():
        if name in CREATE + REMOVE:
            continue
        run = k.execute(name, SWAP_CUTS if name in ("Swap", "SwapRoute") else ENTRY_CUTS)
        k.ob(name + "/bitmap-unchanged", not run.writes("bitmap") and not any(("ns", "bitmap") in i["havoc"] for i in run.E.loops), name + " writes the tick bitmap", run.where("bitmap"))


def bitmap_eq(k, run, name, want, under, msg):
    state_eq(k, run, "bitmap", tyof(run, "bitmap"), list(want.args[1]), name, under=under, msg=msg)


def p06_create(k, name):
    c = Create(k, name, grid=True)
    run, e = c.run, c.e
    B = Bits(run, c.pk)
    S = run.S
    for nm, ix in (("lower", c.lo), ("upper", c.hi)):
        has, t = c.ticks[ix]
        new = NOT(has)
        k.implied(name + "/" + nm + "-clear", AND(S, new), NOT(B.is_set(ix)), "a tick is created although its bit is already set", run.where("bitmap"))
        B.put(new, ix, True)
    bitmap_eq(k, run, name, B.ns, TRUE, "bits after opening a position")


def p06_remove(k, name):
    c = Existing(k, name, grid=True)
    run, e = c.run, c.e
    B = Bits(run, c.pk)
    for nm, ix, t in (("lower", c.lo, c.tlo), ("upper", c.hi, c.thi)):
        gone = EQI(SUB(num(get(t, "liquidity_gross")), c.L), ZERO)
        k.implied(name + "/" + nm + "-set", AND(run.S, c.inv, gone), B.is_set(ix), "a tick is removed although its bit is not set", run.where("bitmap"))
        B.put(gone, ix, False)
    bitmap_eq(k, run, name, B.ns, c.inv, "bits after closing a position")
