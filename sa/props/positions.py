"""Ownership, approvals and the per-owner position lists."""
from . import prop
from .common import *

TOKEN_MSGS = ["TransferNft", "SendNft", "Burn", "Approve", "Revoke"]


def live(e, x):
    """an expiration that has not passed"""
    t = e.p.types[e.ty("Expiration")]
    ok = FALSE
    for v, c, fs in x.args[1]:
        n = t["v"][v]["n"]
        if n == "AtHeight":
            ok = OR(ok, AND(c, LT(e.height(), num(fs[0]))))
        elif n == "AtTime":
            ok = OR(ok, AND(c, LT(num(get(e.env, "block.time")), num(fs[0]))))
        else:
            ok = OR(ok, c)
    return ok


def operator_live(e, owner):
    key = struct("key", addr_key(owner), addr_key(e.sender))
    p, v = e.run.sel0("operators", key, tyof(e.run, "operators"))
    return AND(p, live(e, v))


def approved(e, pos):
    """an unexpired approval of the sender is recorded on the position"""
    l = get(pos, "approvals")
    ety = e.ty("interface::Approval")
    return M.list_any(e.E, M.Ctx2(Ctx(TRUE, {}), TRUE), l, ety,
                      lambda c, a: AND(eqv(get(a, "spender"), e.sender), live(e, get(a, "expires"))))


def token(e):
    """owner bytes, index and stored position named by the message's token id"""
    t = num(e.field("token_id"))
    o, i = t.args[0][0][2], t.args[0][1][2].args[1][0]
    has, pos = e.pos0(o, i)
    return o, i, has, pos


def can_send(e, owner, pos):
    return OR(eqv(e.sender, owner), approved(e, pos), operator_live(e, owner))


def can_approve(e, owner):
    return OR(eqv(e.sender, owner), operator_live(e, owner))


def under_inv(run, extra=()):
    conds = [run.S] + list(extra)
    for ns in ("positions", "positions_length"):
        for c, kk, v in run.writes(ns):
            conds.append(c)
    return position_invariant(run, conds)


# ------------------------------------------------------------------ P03
@prop("P03", 30)
def p03(k):
    k.rule("for every execute message: whenever a stored position that existed before is overwritten, moved or deleted, the sender is its owner, holds an unexpired approval for it or is an "
           "unexpired operator of its owner; approvals and revocations need the owner or an operator")
    k.assume("account identifiers are such that equality of their bytes is identity; a token id is the owner's bytes followed by a 4-byte index")
    for name in k.variants():
        k.group("P03/" + name, p03_any, k, name)
    for name in TOKEN_MSGS:
        k.group("P03/token/" + name, p03_token, k, name)
    k.group("P03/own", p03_own, k)
    k.group("P03/notice", p03_notice, k)


def p03_notice(k):
    """a contract that is sent a position is told who sent it, which position it is and the sender's payload"""
    run = k.execute("SendNft", SWAP_CUTS)
    e = Env(run)
    t = next(t for t in e.p.types if t and t.get("v") and any(v["n"] == "ReceiveNft" for v in t["v"]) and len(t["v"]) == 1)
    inner = e.p.types[t["v"][0]["f"][0][1]]
    d = {"sender": e.sender, "token_id": e.field("token_id"), "msg": e.field("msg")}
    call = variant(t["n"], 0, struct(inner["n"], *[d[f[0]] for f in inner["v"][0]["f"]]))
    want = vlist([(TRUE, "e", e.submsg(e.wasm_exec(e.field("contract"), call)))])
    k.same("SendNft/notice", run.S, run.messages(), want, "the notice sent to the receiving contract", run.where("positions"))


def authority(e, owner, pos):
    return can_send(e, owner, pos)


def p03_any(k, name):
    run = k.execute(name, SWAP_CUTS)
    e = Env(run)
    inv = under_inv(run)
    subject = None
    if name in TOKEN_MSGS:
        subject = token(e)[0]
    elif name in ("RemovePosition", "TransferPosition", "ClaimFee"):
        subject = e.sender
    for i, (c, kk, v) in enumerate(run.writes("positions")):
        if kk is None:
            k.ob("%s/positions-in-loop" % name, False, "positions written in a loop", run.where("positions"))
            continue
        if kk.tag != "list" or len(kk.args[0]) != 2:
            k.ob("%s/position-key" % name, False, "position stored under a key that is not owner and index: " + show(kk, 6)[:200], run.where("positions"))
            continue
        o = kk.args[0][0][2]
        p0, v0 = run.sel0("positions", kk, tyof(run, "positions"))
        inv2 = AND(inv, position_invariant(run, [p0]))
        # records appended by this message sit beyond the recorded count, hence are new
        ok = OR(eqv(e.sender, o), operator_live(e, o), approved(e, v0))
        if subject is not None:
            # the swap-with-last of a removal re-numbers another position of the same owner
            so, si = (token(e)[0], token(e)[1]) if name in TOKEN_MSGS else (e.sender, e.field("index"))
            _, sp = e.pos0(so, si)
            ok = OR(ok, AND(eqv(o, so), authority(e, so, sp)))
        k.implied("%s/write%d-authorised" % (name, i), AND(c, p0, inv2), ok,
                  "position record %s changed without its owner's authority" % show(kk, 6)[:160], run.where("positions"))
    k.ob("%s/examined" % name, True)


def p03_token(k, name):
    run = k.execute(name, SWAP_CUTS)
    e = Env(run)
    o, i, has, pos = token(e)
    auth = can_approve(e, o) if name in ("Approve", "Revoke") else can_send(e, o, pos)
    k.implied(name + "/accepted-only-with-authority", run.S, AND(has, auth), name + " accepted", run.where("positions"))
    if name in ("Approve", "Revoke"):
        return
    # the affected position is the one named by the token id: it leaves its owner's list
    got = run.cells.get("positions") or run.ns0("positions")
    inv = under_inv(run)
    hl, n = e.len0(o)
    last = SUB(n, ONE)
    hlast, plast = e.pos0(o, last)
    ix = i
    writes = removal(e, o, ix)
    S = AND(run.S, inv)
    if name == "Burn":
        state_eq(k, run, "positions", tyof(run, "positions"), writes, name + "/named-position", under=inv, msg="the burned position is the one named by the token id")


def p03_own(k):
    for name in ("RemovePosition", "ClaimFee", "TransferPosition"):
        run = k.execute(name, SWAP_CUTS)
        e = Env(run)
        has, pos = e.pos0(e.sender, e.field("index"))
        k.implied(name + "/only-own", run.S, has, name + " accepted for a position the sender does not hold", run.where("positions"))


def removal(e, o, ix):
    hl, n = e.len0(o)
    last = SUB(n, ONE)
    _, plast = e.pos0(o, last)
    mid = LT(ix, last)
    return [(mid, position_db_key(o, last), None), (mid, position_db_key(o, ix), plast), (NOT(mid), position_db_key(o, ix), None)]


# ------------------------------------------------------------------ P04
@prop("P04", 18)
def p04(k):
    k.rule("approve stores exactly one unexpired approval for the spender, revoke removes exactly that spender's approvals, operator grants are keyed by the granting account, "
           "expired grants are refused, and a position that changes hands or is created carries no approval")
    for name in k.variants():
        k.group("P04/" + name, p04_any, k, name)
    k.group("P04/approve", p04_approve, k)
    k.group("P04/operators", p04_operators, k)
    k.group("P04/reset", p04_reset, k)
    k.group("P04/expiry", p04_expiry, k)


def expiry_arg(e):
    x = e.field("expires")
    t = e.p.types[e.ty("Expiration")]
    never = None
    for i, v in enumerate(t["v"]):
        if v["n"] == "Never":
            never = variant(t["n"], i, *([struct("tuple")] if len(v["f"]) else []))
    none_c, some_v = TRUE, never
    out = never
    for v, c, fs in x.args[1]:
        if v == 1:
            out = vite(c, fs[0], never_like(never, fs[0]))
    return out


def never_like(never, sample):
    """the `Never` value shaped like the stored enum"""
    for v, c, fs in sample.args[1]:
        if v == never.args[1][0][0]:
            return enum(sample.args[0], [(v, TRUE, tuple(UNIT if f.tag == "struct" and not f.args[1] else f for f in fs))])
    return never


def p04_any(k, name):
    """operators change only through the two operator messages"""
    if name in ("ApproveAll", "RevokeAll"):
        return
    run = k.execute(name, SWAP_CUTS)
    k.ob(name + "/operators-unchanged", not run.writes("operators"), "operator grants changed by " + name, run.where("operators"))


def others(e, pos, spender):
    l = get(pos, "approvals")
    return M.list_filter(e.E, M.Ctx2(Ctx(TRUE, {}), TRUE), l, e.ty("interface::Approval"), lambda c, a: NOT(eqv(get(a, "spender"), spender)))


def p04_approve(k):
    for name in ("Approve", "Revoke"):
        run = k.execute(name)
        e = Env(run)
        o, i, has, pos = token(e)
        auth = can_approve(e, o)
        keep = others(e, pos, e.field("spender"))
        if name == "Approve":
            x = expiry_arg(e)
            k.equiv("Approve/accept", run.S, AND(has, auth, live(e, x)), "approval", run.where("positions"))
            ap = struct(e.p.types[e.ty("interface::Approval")]["n"], e.field("spender"), x)
            new = vlist(list(keep.args[0]) + [(TRUE, "e", ap)])
        else:
            k.equiv("Revoke/accept", run.S, AND(has, auth), "revocation", run.where("positions"))
            new = keep
        state_eq(k, run, "positions", tyof(run, "positions"), [(TRUE, position_db_key(o, i), put(pos, approvals=new))], name)
        untouched(k, run, {"positions"}, name)
        no_messages(k, run, name)


def p04_operators(k):
    run = k.execute("ApproveAll")
    e = Env(run)
    key = struct("key", addr_key(e.sender), addr_key(e.field("operator")))
    x = expiry_arg(e)
    k.equiv("ApproveAll/accept", run.S, live(e, x), "operator grant", run.where("operators"))
    state_eq(k, run, "operators", tyof(run, "operators"), [(TRUE, key, x)], "ApproveAll")
    untouched(k, run, {"operators"}, "ApproveAll")
    no_messages(k, run, "ApproveAll")
    run = k.execute("RevokeAll")
    e = Env(run)
    key = struct("key", addr_key(e.sender), addr_key(e.field("operator")))
    k.equiv("RevokeAll/accept", run.S, TRUE, "operator revocation", run.where("operators"))
    state_eq(k, run, "operators", tyof(run, "operators"), [(TRUE, key, None)], "RevokeAll")
    untouched(k, run, {"operators"}, "RevokeAll")
    no_messages(k, run, "RevokeAll")


def p04_reset(k):
    """whatever record is stored under an index that was free before carries no approvals"""
    for name in ("TransferPosition", "TransferNft", "SendNft", "CreatePosition", "Mint"):
        run = k.execute(name, SWAP_CUTS)
        e = Env(run)
        r = e.sender if name in ("CreatePosition", "Mint") else e.field({"TransferPosition": "receiver", "TransferNft": "recipient", "SendNft": "contract"}[name])
        pl, n = run.sel("positions_length", addr_key(r), tyof(run, "positions_length"))
        pl, n = no_ovf(pl), no_ovf_val(n)
        key = position_db_key(r, SUB(n, ONE))
        p, v = run.sel("positions", key, tyof(run, "positions"))
        inv = under_inv(run, [no_ovf(p)])
        S = AND(run.S, inv)
        k.implied(name + "/appended", S, no_ovf(p), "the receiving account's last position exists", run.where("positions"))
        k.same(name + "/no-approvals", S, no_ovf_val(get(v, "approvals")), vlist([]), "approvals survive " + name, run.where("positions"))


def p04_expiry(k):
    """fee claims leave the approvals as they are"""
    run = k.execute("ClaimFee", SWAP_CUTS)
    e = Env(run)
    has, pos = e.pos0(e.sender, e.field("index"))
    p, v = run.sel("positions", position_db_key(e.sender, e.field("index")), tyof(run, "positions"))
    k.same("ClaimFee/approvals-kept", run.S, no_ovf_val(get(v, "approvals")), get(pos, "approvals"), "approvals changed by a fee claim", run.where("positions"))


# ------------------------------------------------------------------ P05
@prop("P05", 20)
def p05(k):
    k.rule("each owner's positions are stored under consecutive indexes 0..count: creation appends at the count, removal moves the last record into the freed index and deletes the last, "
           "transfers are a removal followed by an append of the same position, and every other message keeps the lists")
    k.assume("induction hypothesis: before the message, position (owner, i) exists exactly when i < count(owner)")
    for name in k.variants():
        k.group("P05/" + name, p05_any, k, name)


def append(e, r, n, pos):
    return [(TRUE, position_db_key(r, n), pos)]


def p05_any(k, name):
    run = k.execute(name, SWAP_CUTS)
    e = Env(run)
    T, TL = tyof(run, "positions"), tyof(run, "positions_length")
    inv = under_inv(run)
    if name in ("CreatePosition", "Mint"):
        h, n0 = e.len0(e.sender)
        n = vite(h, n0, ZERO)
        state_eq(k, run, "positions_length", TL, [(TRUE, addr_key(e.sender), ADD(n, ONE))], name)
        key = position_db_key(e.sender, n)
        _, v = run.sel("positions", key, T)
        state_eq(k, run, "positions", T, [(TRUE, key, v)], name + "/appended-at-count")
        k.ob(name + "/written", bool(run.writes("positions")), "the new position is stored")
        return
    if name in ("RemovePosition", "Burn", "TransferPosition", "TransferNft", "SendNft"):
        if name in ("RemovePosition", "TransferPosition"):
            o, ix = e.sender, e.field("index")
        else:
            o, ix = token(e)[0], token(e)[1]
        h, n0 = e.len0(o)
        _, pos = e.pos0(o, ix)
        last = SUB(n0, ONE)
        ws = removal(e, o, ix)
        wl = [(TRUE, addr_key(o), last)]
        if name not in ("RemovePosition", "Burn"):
            r = e.field({"TransferPosition": "receiver", "TransferNft": "recipient", "SendNft": "contract"}[name])
            hr, nr = e.len0(r)
            m = vite(eqv(r, o), last, vite(hr, nr, ZERO))
            ws += [(TRUE, position_db_key(r, m), put(pos, approvals=vlist([])))]
            wl += [(TRUE, addr_key(r), ADD(m, ONE))]
        inv = AND(inv, position_invariant(run, [c for c, _, _ in ws]))
        state_eq(k, run, "positions", T, ws, name, under=inv)
        state_eq(k, run, "positions_length", TL, wl, name, under=inv)
        return
    k.ob(name + "/count-kept", not run.writes("positions_length"), "position count changed by " + name, run.where("positions_length"))
    for c, kk, v in run.writes("positions"):
        if kk is None:
            k.ob(name + "/positions-in-loop", False, "positions written in a loop", run.where("positions"))
            continue
        p0, v0 = run.sel0("positions", kk, T)
        k.implied(name + "/in-place", AND(c, inv, position_invariant(run, [p0])), p0 if v is not None else FALSE, name + " adds or deletes a position record", run.where("positions"))
    k.ob(name + "/examined", True)
