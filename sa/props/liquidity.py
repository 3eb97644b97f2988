"""Liquidity positions: creation, removal, fee claims, and the tick records and bitmap behind them."""
from . import prop
from .common import *
from .positions import token, under_inv

CREATE = ("CreatePosition", "Mint")
REMOVE = ("RemovePosition", "Burn")


GRID = "g."


def on_grid(lo, hi, pk):
    """ticks inside the tick range and a spacing inside 1..=100 (other values are refused, see the validity properties)"""
    set_range(lo, -MAXT, MAXT)
    set_range(hi, -MAXT, MAXT)
    set_range(mk("proj", mk("proj", pk, "fee_tier"), "tick_spacing"), 1, 100)


class Create:
    """what opening a position must do"""

    def __init__(self, k, name, grid=False):
        if grid:
            base = mk("sym", GRID + "extension") if name == "Mint" else None
            f = lambda n: mk("proj", base, n) if base else mk("sym", GRID + n)
            on_grid(f("lower_tick"), f("upper_tick"), f("pool_key"))
        self.run = run = k.execute(name, ENTRY_CUTS, GRID if grid else "")
        self.e = e = Env(run)
        ext = None
        if name == "Mint":
            ext = e.field("extension")
            get_ = lambda f: get(ext, f)
        else:
            get_ = e.field
        self.pk = get_("pool_key")
        self.lo, self.hi = get_("lower_tick"), get_("upper_tick")
        self.Lv = get_("liquidity_delta")
        self.L = num(self.Lv)
        self.slo, self.shi = num(get_("slippage_limit_lower")), num(get_("slippage_limit_upper"))
        self.hp, self.pool = e.pool0(self.pk)
        self.spacing = get(self.pk, "fee_tier.tick_spacing")
        self.ticks = {}
        for ix in (self.lo, self.hi):
            h, t = e.tick0(self.pk, ix)
            self.ticks[ix] = (h, vite(h, netproj(t), fresh_tick(run, e, ix, self.pool)))
        p = self.pool
        self.defd, self.x, self.y, self.active = amounts(run, get(p, "current_tick_index"), get(p, "sqrt_price"), self.Lv, TRUE, self.lo, self.hi)
        self.h, self.n = e.len0(e.sender)
        self.at = position_db_key(e.sender, vite(self.h, self.n, ZERO))
        self.T = tyof(run, "ticks")


class Existing:
    """a stored position about to be removed or claimed"""

    def __init__(self, k, name, grid=False):
        if grid:
            if name == "Burn":
                key = position_db_key(mk("sym", GRID + "token_owner"), as_poly(mk("sym", GRID + "token_index")))
            else:
                key = position_db_key(mk("proj", mk("sym", GRID + "info"), "sender"), as_poly(mk("sym", GRID + "index")))
            t = mk("app", "sel", (mk("sym", "S:positions"), key))
            on_grid(mk("proj", t, "lower_tick_index"), mk("proj", t, "upper_tick_index"), mk("proj", t, "pool_key"))
        self.run = run = k.execute(name, ENTRY_CUTS, GRID if grid else "")
        self.e = e = Env(run)
        if name == "Burn":
            self.o, self.i, self.has, self.pos = token(e)
        else:
            self.o, self.i = e.sender, e.field("index")
            self.has, self.pos = e.pos0(self.o, self.i)
        p = self.pos
        self.pk = get(p, "pool_key")
        self.lo, self.hi = get(p, "lower_tick_index"), get(p, "upper_tick_index")
        self.Lv, self.L = get(p, "liquidity"), num(get(p, "liquidity"))
        self.hp, self.pool = e.pool0(self.pk)
        self.spacing = get(self.pk, "fee_tier.tick_spacing")
        self.hlo, self.tlo = e.tick0(self.pk, self.lo)
        self.hhi, self.thi = e.tick0(self.pk, self.hi)
        self.T = tyof(run, "ticks")
        q = self.pool
        self.defd, self.x, self.y, self.active = amounts(run, get(q, "current_tick_index"), get(q, "sqrt_price"), self.Lv, FALSE, self.lo, self.hi)
        # stored positions span a non-empty range (established at creation, never changed)
        self.inv = LT(self.lo, self.hi)
        self.gx, self.gy = growth_inside(run, self.lo, self.tlo, self.hi, self.thi, self.pool)
        self.ox = ADD(num(get(p, "tokens_owed_x")), owed(run, self.gx, num(get(p, "fee_growth_inside_x")), self.L))
        self.oy = ADD(num(get(p, "tokens_owed_y")), owed(run, self.gy, num(get(p, "fee_growth_inside_y")), self.L))


STORED_RANGE = "stored positions satisfy lower < upper (shown at creation; no message changes the bounds of a stored position)"
STORED_INDEX = "a stored tick carries the index it is stored under (every tick write is shown to keep this)"


# ------------------------------------------------------------------ P07
@prop("P07", 14)
def p07(k):
    k.rule("opening, closing and claiming change each boundary tick's gross liquidity by the position's liquidity, its signed net by +L at the lower and -L at the upper bound, "
           "and the pool's active liquidity by L exactly when lower <= current tick < upper; nothing else about pool price or other ticks changes")
    k.assume(STORED_RANGE)
    k.assume(STORED_INDEX)
    for name in CREATE:
        k.group("P07/" + name, p07_create, k, name)
    for name in REMOVE:
        k.group("P07/" + name, p07_remove, k, name)
    k.group("P07/ClaimFee", p07_claim, k)
    k.group("P07/frame", p07_frame, k)


def liq_only(t):
    """the liquidity part of a projected tick"""
    if t.tag == "choice":
        return vite(t.args[0], liq_only(t.args[1]), liq_only(t.args[2]))
    if t.args[0] != "tick":
        t = netproj(t)
    return struct("liq", get(t, "index"), get(t, "signed_liquidity_change"), get(t, "liquidity_gross"))


FIELDS["liq"] = ["index", "signed_liquidity_change", "liquidity_gross"]


def fee_only(t):
    if t.tag == "choice":
        return vite(t.args[0], fee_only(t.args[1]), fee_only(t.args[2]))
    if t.args[0] != "tick":
        t = netproj(t)
    return struct("feepart", get(t, "index"), get(t, "fee_growth_outside_x"), get(t, "fee_growth_outside_y"), get(t, "seconds_outside"))


FIELDS["feepart"] = ["index", "fee_growth_outside_x", "fee_growth_outside_y", "seconds_outside"]


def bump(run, t, dg, dn):
    return put(t, liquidity_gross=ADD(get(t, "liquidity_gross"), dg), signed_liquidity_change=ADD(get(t, "signed_liquidity_change"), dn))


def pool_no_time(p):
    if p.tag == "choice":
        return vite(p.args[0], pool_no_time(p.args[1]), pool_no_time(p.args[2]))
    return put(p, last_timestamp=ZERO)


def p07_create(k, name):
    c = Create(k, name)
    run, e = c.run, c.e
    ne = NOT(EQI(c.lo, c.hi))
    k.implied(name + "/distinct-bounds", run.S, LT(c.lo, c.hi), "a position over an empty or inverted range", run.where("positions"))
    L = c.L
    ws = [(TRUE, tick_db_key(c.pk, c.lo), bump(run, c.ticks[c.lo][1], L, L)), (TRUE, tick_db_key(c.pk, c.hi), bump(run, c.ticks[c.hi][1], L, SUB(ZERO, L)))]
    state_eq(k, run, "ticks", c.T, ws, name, under=ne, proj=liq_only, msg="boundary tick liquidity")
    newp = setnum(c.pool, liquidity=vite(c.active, ADD(num(get(c.pool, "liquidity")), L), num(get(c.pool, "liquidity"))))
    state_eq(k, run, "pools", tyof(run, "pools"), [(TRUE, pool_db_key(c.pk), newp)], name, proj=pool_no_time, msg="pool after opening")
    _, v = run.sel("positions", c.at, tyof(run, "positions"))
    v = no_ovf_val(v)
    k.same(name + "/recorded", run.S, struct("rec", get(v, "pool_key"), num(get(v, "liquidity")), get(v, "lower_tick_index"), get(v, "upper_tick_index")),
           struct("rec", c.pk, L, c.lo, c.hi), "the stored position", run.where("positions"))


FIELDS["rec"] = ["pool_key", "liquidity", "lower_tick_index", "upper_tick_index"]


def p07_remove(k, name):
    c = Existing(k, name)
    run, e = c.run, c.e
    L = c.L
    tl, th = netproj(c.tlo), netproj(c.thi)
    gl, gh = SUB(get(tl, "liquidity_gross"), L), SUB(get(th, "liquidity_gross"), L)
    zl, zh = EQI(gl, ZERO), EQI(gh, ZERO)
    nl, nh = bump(run, tl, SUB(ZERO, L), SUB(ZERO, L)), bump(run, th, SUB(ZERO, L), L)
    ws = [(NOT(zl), tick_db_key(c.pk, c.lo), nl), (zl, tick_db_key(c.pk, c.lo), None), (NOT(zh), tick_db_key(c.pk, c.hi), nh), (zh, tick_db_key(c.pk, c.hi), None)]
    state_eq(k, run, "ticks", c.T, ws, name, under=c.inv, proj=liq_only, msg="boundary tick liquidity")
    k.implied(name + "/enough", AND(run.S, c.inv), AND(c.has, c.hp, c.hlo, c.hhi, NOT(LT(gl, ZERO)), NOT(LT(gh, ZERO))), "removal of more liquidity than the ticks hold", run.where("ticks"))
    newp = setnum(c.pool, liquidity=vite(c.active, SUB(num(get(c.pool, "liquidity")), L), num(get(c.pool, "liquidity"))))
    state_eq(k, run, "pools", tyof(run, "pools"), [(TRUE, pool_db_key(c.pk), newp)], name, under=c.inv, proj=pool_no_time, msg="pool after closing")


def p07_claim(k):
    c = Existing(k, "ClaimFee")
    run = c.run
    state_eq(k, run, "ticks", c.T, [(TRUE, tick_db_key(c.pk, c.lo), netproj(c.tlo)), (TRUE, tick_db_key(c.pk, c.hi), netproj(c.thi))], "ClaimFee", under=c.inv, proj=liq_only,
             msg="claiming leaves tick liquidity")
    state_eq(k, run, "pools", tyof(run, "pools"), [(TRUE, pool_db_key(c.pk), c.pool)], "ClaimFee", under=c.inv, proj=pool_no_time, msg="claiming leaves the pool")
    p, v = run.sel("positions", position_db_key(c.o, c.i), tyof(run, "positions"))
    v = no_ovf_val(v)
    rec = lambda q: struct("rec", get(q, "pool_key"), num(get(q, "liquidity")), get(q, "lower_tick_index"), get(q, "upper_tick_index"))
    k.same("ClaimFee/recorded", AND(run.S, c.inv), rec(v), rec(c.pos), "claiming leaves the position's liquidity and range", run.where("positions"))


def p07_frame(k):
    """no other message touches positions' liquidity or ranges, and only swaps touch pools or ticks otherwise"""
    for name in k.variants():
        if name in CREATE + REMOVE + ("ClaimFee", "Swap", "SwapRoute"):
            continue
        run = k.execute(name, ENTRY_CUTS)
        k.ob(name + "/ticks-unchanged", not run.writes("ticks"), name + " writes tick records", run.where("ticks"))
        k.ob(name + "/bitmap-unchanged", not run.writes("bitmap"), name + " writes the tick bitmap", run.where("bitmap"))


# ------------------------------------------------------------------ P09
@prop("P09", 12)
def p09(k):
    k.rule("a position's claim is the stored remainder plus liquidity times the (wrapping) fee growth inside its range since its checkpoint, rounded down; claiming or removing pays exactly that, "
           "claiming checkpoints the current growth and zeroes the remainder, opening checkpoints and owes nothing; a newly initialised tick at or below the current tick records all growth so far as outside")
    k.assume(STORED_RANGE)
    k.assume(STORED_INDEX)
    for name in CREATE:
        k.group("P09/" + name, p09_create, k, name)
    k.group("P09/ClaimFee", p09_claim, k)
    for name in REMOVE:
        k.group("P09/" + name, p09_remove, k, name)


def p09_create(k, name):
    c = Create(k, name)
    run, e = c.run, c.e
    ne = NOT(EQI(c.lo, c.hi))
    ws = [(TRUE, tick_db_key(c.pk, ix), c.ticks[ix][1]) for ix in (c.lo, c.hi)]
    state_eq(k, run, "ticks", c.T, ws, name, under=ne, proj=fee_only, msg="fee state of boundary ticks")
    gx, gy = growth_inside(run, c.lo, c.ticks[c.lo][1], c.hi, c.ticks[c.hi][1], c.pool)
    _, v = run.sel("positions", c.at, tyof(run, "positions"))
    v = no_ovf_val(v)
    k.same(name + "/checkpoint", AND(run.S, ne), fees(v), struct("fees", gx, gy, ZERO, ZERO), "fee checkpoint of the new position", run.where("positions"))


def fees(v):
    return struct("fees", *[num(get(v, f)) for f in ("fee_growth_inside_x", "fee_growth_inside_y", "tokens_owed_x", "tokens_owed_y")])


FIELDS["fees"] = ["fee_growth_inside_x", "fee_growth_inside_y", "tokens_owed_x", "tokens_owed_y"]


def p09_claim(k):
    c = Existing(k, "ClaimFee")
    run, e = c.run, c.e
    S = AND(run.S, c.inv)
    k.implied("ClaimFee/exists", run.S, AND(c.has, c.hlo, c.hhi, c.hp), "claim accepted")
    p, v = run.sel("positions", position_db_key(c.o, c.i), tyof(run, "positions"))
    k.same("ClaimFee/checkpoint", S, fees(no_ovf_val(v)), struct("fees", c.gx, c.gy, ZERO, ZERO), "checkpoint after a claim", run.where("positions"))
    settles(k, "ClaimFee/payout", S, run, e.pay(c.o, get(c.pk, "token_x"), c.ox), e.pay(c.o, get(c.pk, "token_y"), c.oy), "claimed amounts")
    state_eq(k, run, "ticks", c.T, [(TRUE, tick_db_key(c.pk, c.lo), netproj(c.tlo)), (TRUE, tick_db_key(c.pk, c.hi), netproj(c.thi))], "ClaimFee", under=c.inv, proj=fee_only, msg="claiming leaves tick fee state")


def closing_pays(k, c, name):
    settles(k, name + "/payout", AND(c.run.S, c.inv), c.run, c.e.pay(c.o, get(c.pk, "token_x"), ADD(num(c.x), c.ox)), c.e.pay(c.o, get(c.pk, "token_y"), ADD(num(c.y), c.oy)),
            "amounts paid for the closed position")


def p09_remove(k, name):
    c = Existing(k, name)
    run, e = c.run, c.e
    S = AND(run.S, c.inv)
    closing_pays(k, c, name)
    keep = lambda t: netproj(t)
    gl, gh = SUB(num(get(c.tlo, "liquidity_gross")), c.L), SUB(num(get(c.thi, "liquidity_gross")), c.L)
    zl, zh = EQI(gl, ZERO), EQI(gh, ZERO)
    ws = [(NOT(zl), tick_db_key(c.pk, c.lo), keep(c.tlo)), (zl, tick_db_key(c.pk, c.lo), None), (NOT(zh), tick_db_key(c.pk, c.hi), keep(c.thi)), (zh, tick_db_key(c.pk, c.hi), None)]
    state_eq(k, run, "ticks", c.T, ws, name, under=c.inv, proj=fee_only, msg="closing leaves the fee state of surviving ticks")
