"""A holder can always claim, close and pass on a position; what opening and closing are worth."""
from . import prop
from .common import *
from .liquidity import Existing, REMOVE, CREATE, closing_pays, STORED_RANGE, STORED_INDEX
from .opening import Bits, GRIDTEXT, CLOCK, max_per_tick, p13_create
from .positions import can_send, token, position_invariant
from .queries import utf8_ok
from .amounts import p12_amounts

WELL = ("a stored position has liquidity, its pool and its two boundary ticks exist, the ticks lie on the spacing grid, their bits are set and their gross liquidity includes it and stays below the per-tick maximum (each shown to be kept by every message: P05, P06, P07, P15, P17), "
        "and prices in the tick range have a value (P29, P12)")


@prop("P24", 6)
def p24(k):
    k.rule("under the invariants every stored position satisfies, an authorised claim, closing or transfer is accepted: nothing but arithmetic overflow refuses it")
    for t in (STORED_RANGE, STORED_INDEX, GRIDTEXT, CLOCK, WELL):
        k.assume(t)
    for name in REMOVE + ("ClaimFee",):
        k.group("P24/" + name, p24_existing, k, name)
    for name in ("TransferPosition", "TransferNft", "SendNft"):
        k.group("P24/" + name, p24_transfer, k, name)


def p24_existing(k, name):
    c = Existing(k, name, grid=True)
    run, e = c.run, c.e
    well = AND(c.inv, c.hp, c.hlo, c.hhi, NOT(EQI(c.L, ZERO)), c.defd, NOT(LT(e.millis(), get(c.pool, "start_timestamp"))))
    B = Bits(run, c.pk)
    for ix, t in ((c.lo, c.tlo), (c.hi, c.thi)):
        g = SUB(num(get(t, "liquidity_gross")), c.L)
        room = LT(num(get(t, "liquidity_gross")), max_per_tick(c.spacing))
        well = AND(well, NOT(LT(g, ZERO)), B.is_set(ix), price_at(run, ix)[0], tick_valid(run, ix, c.spacing), room)
        B.put(EQI(g, ZERO), ix, False)
    # the pool's active liquidity includes the position's when its range contains the current tick
    well = AND(well, OR(NOT(c.active), NOT(LT(num(get(c.pool, "liquidity")), c.L))))
    if name == "ClaimFee":
        # a claim goes through the same calculation with no liquidity
        for up in (TRUE, FALSE):
            well = AND(well, amounts(run, get(c.pool, "current_tick_index"), get(c.pool, "sqrt_price"), like(c.Lv, ZERO), up, c.lo, c.hi)[0])
    ok = c.has
    if name == "Burn":
        well = AND(well, utf8_ok(c.o))
        ok = AND(ok, can_send(e, c.o, c.pos))
    well = AND(well, position_invariant(run, [run.S, ok]))
    k.equiv(name + "/accepted", run.S, ok, name + " of a position by its holder", run.where("positions"), under=well)


def p24_transfer(k, name):
    run = k.execute(name, ())
    e = Env(run)
    if name == "TransferPosition":
        has, pos = e.pos0(e.sender, e.field("index"))
        ok, well = AND(has, e.is_token(e.field("receiver"))), TRUE
    else:
        o, i, has, pos = token(e)
        ok, well = AND(has, can_send(e, o, pos)), utf8_ok(o)
    well = AND(well, position_invariant(run, [run.S, ok]))
    k.equiv(name + "/accepted", run.S, ok, name + " of a position by its holder", run.where("positions"), under=well)


# ------------------------------------------------------------------ P20
@prop("P20", 12)
def p20(k):
    k.rule("closing pays, to the owner, the two token amounts of the position's liquidity over its range at the current price in their rounded-down form (plus the owed fees); opening collects the same two amounts in their rounded-up form; "
           "both forms are the exact rational amount rounded to opposite sides, so closing at the opening price never pays more than was collected")
    k.assume(STORED_RANGE)
    for name in REMOVE:
        k.group("P20/" + name, p20_close, k, name)
    for name in CREATE:
        k.group("P20/" + name, p13_create, k, name)
    k.group("P20/amounts", p12_amounts, k)


def p20_close(k, name):
    c = Existing(k, name)
    k.implied(name + "/at-own-price", c.run.S, AND(c.has, c.hp), "closing without a stored position and pool", c.run.where("positions"))
    closing_pays(k, c, name)
