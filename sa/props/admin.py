"""Administration, fee tiers, protocol-fee withdrawal, pool creation."""
from . import prop
from .common import *


def functional(k, name, key, accept, writes, keep, msgs=None, cuts=(), exact=True):
    pass


@prop("P01", 12)
def p01(k):
    k.rule("for every execute message: on every path to success that changes the configuration or a pool's fee receiver the sender equals the stored admin; "
           "each administrative message succeeds exactly for the admin and changes exactly its own setting")
    for name in k.variants():
        k.group("P01/" + name, p01_any, k, name)
    k.group("P01/effects", p01_effects, k)


def p01_any(k, name):
    run = k.execute(name, SWAP_CUTS)
    e = Env(run)
    k.ob(name + "/reachable", feasible(run.S), "message can succeed")
    adm = e.is_admin()
    # configuration
    ws = run.writes("config")
    bad = FALSE
    for c, kk, v in ws:
        if kk is None:
            k.ob(name + "/config-write-in-loop", False, "configuration written in a loop", run.where("config"))
            return
        p0, v0 = run.sel0("config", kk, tyof(run, "config"))
        if v is not None and same(c, v, v0) and implied(c, p0):
            continue
        bad = OR(bad, c)
    k.implied(name + "/config-needs-admin", bad, adm, "configuration changed without the admin's authority", run.where("config"))
    # fee receiver of an existing pool
    bad = FALSE
    for c, kk, v in run.writes("pools"):
        if kk is None:
            # pool written inside a loop: the fee receiver must be carried unchanged through it
            continue
        p0, v0 = run.sel0("pools", kk, tyof(run, "pools"))
        if v is None:
            bad = OR(bad, c)
            continue
        same_fr = eqv(no_ovf_val(get(v, "fee_receiver")), get(v0, "fee_receiver"))
        bad = OR(bad, AND(c, p0, NOT(same_fr)))
    k.implied(name + "/fee-receiver-needs-admin", AND(run.S, bad), adm, "an existing pool's fee receiver changed without the admin's authority", run.where("pools"))


def p01_effects(k):
    run = k.execute("ChangeAdmin")
    e = Env(run)
    p, c = e.config0()
    k.equiv("ChangeAdmin/accept", run.S, e.is_admin(), "change of admin", run.where("config"))
    state_eq(k, run, "config", tyof(run, "config"), [(TRUE, UNITKEY, put(c, admin=e.field("new_admin")))], "ChangeAdmin")
    untouched(k, run, {"config"}, "ChangeAdmin")
    no_messages(k, run, "ChangeAdmin")

    run = k.execute("ChangeProtocolFee")
    e = Env(run)
    p, c = e.config0()
    k.implied("ChangeProtocolFee/accept", run.S, e.is_admin(), "change of protocol fee", run.where("config"))
    state_eq(k, run, "config", tyof(run, "config"), [(TRUE, UNITKEY, put(c, protocol_fee=e.field("protocol_fee")))], "ChangeProtocolFee")
    untouched(k, run, {"config"}, "ChangeProtocolFee")
    no_messages(k, run, "ChangeProtocolFee")

    run = k.execute("ChangeFeeReceiver")
    e = Env(run)
    pk = e.field("pool_key")
    hp, pool = e.pool0(pk)
    k.equiv("ChangeFeeReceiver/accept", run.S, AND(e.is_admin(), hp), "change of fee receiver", run.where("pools"))
    state_eq(k, run, "pools", tyof(run, "pools"), [(TRUE, pool_db_key(pk), put(pool, fee_receiver=e.field("fee_receiver")))], "ChangeFeeReceiver")
    untouched(k, run, {"pools"}, "ChangeFeeReceiver")
    no_messages(k, run, "ChangeFeeReceiver")


@prop("P02", 3)
def p02(k):
    k.rule("a protocol-fee withdrawal succeeds exactly for the pool's fee receiver, pays it the full accrued amount of each of the pool's two tokens and zeroes exactly those two counters")
    k.group("WithdrawProtocolFee", p02_body, k)


def p02_body(k):
    run = k.execute("WithdrawProtocolFee")
    e = Env(run)
    pk = e.field("pool_key")
    hp, pool = e.pool0(pk)
    k.equiv("WithdrawProtocolFee/accept", run.S, AND(hp, eqv(get(pool, "fee_receiver"), e.sender)), "withdrawal", run.where("pools"))
    state_eq(k, run, "pools", tyof(run, "pools"), [(TRUE, pool_db_key(pk), setnum(pool, fee_protocol_token_x=ZERO, fee_protocol_token_y=ZERO))], "WithdrawProtocolFee")
    untouched(k, run, {"pools"}, "WithdrawProtocolFee")
    settles(k, "WithdrawProtocolFee/payout", run.S, run, e.pay(e.sender, get(pk, "token_x"), num(get(pool, "fee_protocol_token_x"))),
            e.pay(e.sender, get(pk, "token_y"), num(get(pool, "fee_protocol_token_y"))), "payout messages")


@prop("P30", 5)
def p30(k):
    k.rule("instantiation stores exactly one configuration: the sender as admin, the requested protocol fee and no fee tier; it creates no pool, position, tick or approval and sends nothing; migration writes nothing and sends nothing")
    k.group("instantiate", p30_new, k)
    k.group("migrate", p30_migrate, k)


def p30_new(k):
    run = k.fn("contract::instantiate", names={0: "deps", 1: "env", 2: "info", 3: "msg"})
    where = ["contract::instantiate"]
    k.equiv("instantiate/accept", run.S, TRUE, "instantiation", where)
    old = run.sel0("config", UNITKEY, tyof(run, "config"))[1]
    want = put(old, admin=get(run.arg(2), "sender"), protocol_fee=get(run.arg(3), "protocol_fee"), fee_tiers=vlist([]))
    state_eq(k, run, "config", tyof(run, "config"), [(TRUE, UNITKEY, want)], "instantiate")
    untouched(k, run, {"config", "contract_info"}, "instantiate")
    no_messages(k, run, "instantiate")


def p30_migrate(k):
    run = k.fn("contract::migrate", names={0: "deps", 1: "env", 2: "msg"})
    k.equiv("migrate/accept", run.S, TRUE, "migration", ["contract::migrate"])
    untouched(k, run, {"contract_info"}, "migrate")
    no_messages(k, run, "migrate")
