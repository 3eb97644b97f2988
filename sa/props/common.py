"""Vocabulary shared by the property specifications: storage keys, stored records, payments."""
from ..terms import *
from .. import models as M
from ..spec import *

POSITION_MSGS = ["CreatePosition", "Mint", "RemovePosition", "Burn", "TransferPosition", "TransferNft", "SendNft",
                 "Approve", "Revoke", "ClaimFee"]

PRE = "oraiswap_v3::"
MATH_CUTS = (
    PRE + "math::clamm::compute_swap_step",
    PRE + "math::clamm::calculate_amount_delta",
    PRE + "math::clamm::is_enough_amount_to_change_price",
    PRE + "math::types::fee_growth::calculate_fee_growth_inside",
)
SWAP_CUTS = MATH_CUTS + (PRE + "state::get_closer_limit",)


def lp(v):
    return (TRUE, "s", mk("app", "lp", (M.bytes_of(v) if v.tag != "list" else v,)))


def be(v, n):
    return lift(lambda x: mk("app", "be", (x, n)), v)


def pool_db_key(pk):
    """length-prefixed token x, token y and fee tier bytes"""
    ft = get(pk, "fee_tier")
    tier = vlist([(TRUE, "s", be(num(get(ft, "fee")), 8)), (TRUE, "s", be(get(ft, "tick_spacing"), 2))])
    return vlist([lp(get(pk, "token_x")), lp(get(pk, "token_y")), lp(tier)])


def tick_db_key(pk, ix):
    return vlist(list(pool_db_key(pk).args[0]) + [(TRUE, "s", be(ix, 4))])


def position_db_key(owner, ix):
    return vlist([(TRUE, "s", owner), (TRUE, "s", be(ix, 4))])


def addr_key(a):
    return vlist([(TRUE, "s", a)])


UNITKEY = M.UNITKEY


class Env:
    """the symbols of one analysed message"""

    def __init__(self, run):
        self.run, self.E, self.p = run, run.E, run.p
        self.sender = mk("sym", "info.sender") if False else get(run.arg(2), "sender")
        self.info = run.arg(2)
        self.env = run.arg(1)

    def ty(self, n):
        return self.p.adt(n)

    def field(self, name):
        msg = self.run.arg(len(self.run.r.args) - 1)
        v, c, fs = msg.args[1][0]
        t = self.p.types[self.p.fn("contract::execute" if "ExecuteMsg" in msg.args[0] else "contract::query")["locals"][len(self.run.r.args)]]
        for (fn, ft), x in zip(t["v"][v]["f"], fs):
            if fn == name:
                return x
        raise KeyError("message field " + name)

    # stored records before the message
    def config0(self):
        return self.run.sel0("config", UNITKEY, self.ty("storage::config::Config"))

    def pool0(self, pk):
        return self.run.sel0("pools", pool_db_key(pk), self.ty("storage::pool::Pool"))

    def pos0(self, owner, ix):
        return self.run.sel0("positions", position_db_key(owner, ix), self.ty("storage::position::Position"))

    def tick0(self, pk, ix):
        p, v = self.run.sel0("ticks", tick_db_key(pk, ix), self.ty("storage::tick::Tick"))
        return p, v

    def len0(self, owner):
        u32 = self.p.types.index({"k": "int", "bits": 32, "s": 0}) if False else self.u32()
        return self.run.sel0("positions_length", addr_key(owner), u32)

    def u32(self):
        for i, t in enumerate(self.p.types):
            if t["k"] == "int" and t["bits"] == 32 and not t["s"]:
                return i

    def is_admin(self):
        p, c = self.config0()
        return AND(p, eqv(self.sender, get(c, "admin")))

    def millis(self):
        return DIV(num(get(self.env, "block.time")), const(10 ** 6))

    def height(self):
        return get(self.env, "block.height")

    def var(self, tyname, vname, *fs):
        t = self.p.types[self.ty(tyname)]
        for i, v in enumerate(t["v"]):
            if v["n"] == vname:
                return variant(t["n"], i, *fs)
        raise KeyError(vname)

    # payments out of the contract
    def is_token(self, denom):
        return lift(lambda x: atom_var(mk("app", "validaddr", (x,))), denom)

    def submsg(self, m):
        t = self.p.types[self.ty("SubMsg")]
        fs = [f[0] for f in t["v"][0]["f"]]
        d = {"id": ZERO, "msg": m, "gas_limit": M.NONE, "reply_on": self.var("ReplyOn", "Never")}
        return struct(t["n"], *[d[f] for f in fs])

    def wasm_exec(self, addr, payload):
        b = struct("cosmwasm_std::Binary", vlist([(TRUE, "s", mk("app", "json", (payload,)))]))
        return self.var("CosmosMsg", "Wasm", self.var("WasmMsg", "Execute", addr, b, vlist([])))

    def uint128(self, n):
        return struct("cosmwasm_std::Uint128", n)

    def bank_send(self, to, denom, amount):
        coin = struct("cosmwasm_std::Coin", denom, self.uint128(amount))
        return self.var("CosmosMsg", "Bank", self.var("BankMsg", "Send", to, vlist([(TRUE, "e", coin)])))

    def pay(self, to, denom, amount):
        """the guarded message list that pays `amount` of `denom` to `to`"""
        nz = NOT(EQI(amount, ZERO))
        tok = self.is_token(denom)
        t = self.wasm_exec(denom, self.var("Cw20ExecuteMsg", "Transfer", to, self.uint128(amount)))
        n = self.bank_send(to, denom, amount)
        m = vite(tok, self.submsg(t), self.submsg(n))
        return [(nz, "e", m)]

    def pull(self, denom, amount, me):
        """(acceptance condition, guarded messages) that collect `amount` of `denom` from the sender"""
        nz = NOT(EQI(amount, ZERO))
        tok = self.is_token(denom)
        t = self.wasm_exec(denom, self.var("Cw20ExecuteMsg", "TransferFrom", self.sender, me, self.uint128(amount)))
        return nz, tok, t


# ------------------------------------------------------------------ state comparison
def spec_ns(run, ns, writes):
    return mk("ns", mk("sym", "S:" + ns), tuple((AND(c, g), kk, v) for c, k0, v in writes for g, kk in M.key_cases(k0) if AND(c, g) is not FALSE))


def known_index(run, ns):
    pass


def state_eq(k, run, ns, ty, writes, key, under=None, proj=None, msg=""):
    """the namespace after the message equals the initial one with exactly `writes` applied"""
    S = run.S if under is None else AND(run.S, under)
    want = spec_ns(run, ns, writes)
    got = run.cells.get(ns) or run.ns0(ns)
    keys = []
    for c, kk, v in run.writes(ns, under):
        if kk is None:
            k.ob(key + "/bounded-writes", False, "writes to %s inside an unsummarised loop" % ns, run.where(ns))
            return False
        if kk not in keys:
            keys.append(kk)
    for c, kk, v in want.args[1]:
        if kk not in keys and feasible(AND(S, c)):
            keys.append(kk)
    ok = True
    for i, kk in enumerate(keys):
        p1, v1 = M.ns_select(run.E, got, kk, ty)
        p2, v2 = M.ns_select(run.E, want, kk, ty)
        p1, p2 = no_ovf(p1), no_ovf(p2)
        if not equiv(p1, p2, S):
            ok = False
            k.ob("%s/%s/presence" % (key, ns), False, "%s: record %s of %s present differs (%s vs required %s)" %
                 (msg, show(kk, 7)[:200], ns, show(restrict(p1, S), 6)[:200], show(restrict(p2, S), 6)[:200]), run.where(ns))
            continue
        if proj:
            v1, v2 = proj(v1), proj(v2)
        why = []
        if not same(AND(S, p2), no_ovf_val(v1), no_ovf_val(v2), why):
            ok = False
            k.ob("%s/%s/contents%s" % (key, ns, ",".join(sorted({w[0] for w in why}))[:80]), False,
                 "%s: record %s of %s: " % (msg, show(kk, 7)[:150], ns) + "; ".join("%s is %s, required %s" % (w[0], show(w[1], 7)[:260], show(w[2], 7)[:260]) for w in why[:3]), run.where(ns))
    if ok:
        k.ob("%s/%s" % (key, ns), True, msg)
    return ok


def untouched(k, run, keep, key, ignore=()):
    """no namespace other than `keep` changes"""
    for ns in run.touched():
        if ns in keep or ns in ignore:
            continue
        bad = []
        for c, kk, v in run.writes(ns):
            if kk is None or v is None:
                bad.append((c, kk, v))
                continue
            ty = None
            p0, v0 = M.ns_select(run.E, run.ns0(ns), kk, tyof(run, ns))
            if not (implied(c, p0) and same(c, v, v0)):
                bad.append((c, kk, v))
        k.ob("%s/unchanged:%s" % (key, ns), not bad, "must leave %s unchanged" % ns, run.where(ns))


NSTY = {"config": "storage::config::Config", "pools": "storage::pool::Pool", "positions": "storage::position::Position",
        "ticks": "storage::tick::Tick", "operators": "Expiration"}


def tyof(run, ns):
    if ns in NSTY:
        return run.p.adt(NSTY[ns])
    bits = {"positions_length": 32, "bitmap": 64, "pool_keys_length": 16}.get(ns)
    for i, t in enumerate(run.p.types):
        if t["k"] == "int" and t["bits"] == bits and not t["s"]:
            return i
    raise KeyError("namespace " + ns)


def no_messages(k, run, key):
    m = run.messages()
    k.ob(key + "/no-payment", not nlist(m, run.S), "must send no message", None)


def position_invariant(run, conds):
    """position records are dense: record (o, i) exists exactly when i is below o's recorded count"""
    inv = TRUE
    seen = set()
    for c in conds:
        for v in support(c):
            t = ATOMS[v]
            if t.tag == "has" and t.args[0] is mk("sym", "S:positions") and t not in seen:
                seen.add(t)
                kk = t.args[1]
                if kk.tag == "list" and len(kk.args[0]) == 2:
                    o, i = kk.args[0][0][2], kk.args[0][1][2]
                    if i.tag == "app" and i.args[0] == "be":
                        p, n = run.sel0("positions_length", addr_key(o), tyof(run, "positions_length"))
                        inv = AND(inv, IFF(atom_var(t), AND(p, LT(i.args[1][0], n))))
    return inv


# ------------------------------------------------------------------ reference semantics shared by properties
LIQ_CUTS = (PRE + "math::clamm::get_delta_x", PRE + "math::clamm::get_delta_y")
# everything a swap or a liquidity change delegates to price arithmetic
ENTRY_CUTS = LIQ_CUTS + (PRE + "math::clamm::compute_swap_step", PRE + "math::clamm::is_enough_amount_to_change_price", PRE + "state::get_closer_limit")
MAXT = 221818
U128 = (1 << 128) - 1


def rty(run, fn):
    f = run.p.fn(fn)
    return f["locals"][0]


def cutv(run, fn, *args):
    """the value of a cut function applied to `args` (as the engine names it)"""
    f = run.p.fn(fn)
    nm = f["def"].split("::")[-1]
    nm = CUTNAMES.get(nm, nm)
    return run.E.lift_app(nm, tuple(args), f["locals"][0])


CUTNAMES = {"calculate_sqrt_price": "sqrt_price_at_tick", "get_tick_at_sqrt_price": "tick_at_sqrt_price"}


def okv(r):
    """(success condition, value) of a Result"""
    c0, v0 = FALSE, None
    for v, c, fs in r.args[1]:
        if v == 0:
            c0, v0 = c, fs[0]
    return c0, v0


def price_at(run, ix):
    return okv(cutv(run, "types::sqrt_price::calculate_sqrt_price", ix))


def wrap128(run, v):
    return run.E.wrap(v, 128, False)


def tick_valid(run, ix, spacing):
    """multiple of the spacing, inside the spacing-aligned tick range"""
    m = lift(lambda s: MUL(as_poly(s), DIV(const(MAXT), as_poly(s))), spacing)
    return AND(NOT(EQI(spacing, ZERO)), EQI(REM(ix, spacing), ZERO), LE(ix, m), LE(SUB(ZERO, m), ix))


def amounts(run, cur, price, L, up, lo, hi):
    """(defined, amount x, amount y, active): token amounts of liquidity L over [lo, hi) at the current price"""
    dx = lambda a, b: okv(cutv(run, "math::clamm::get_delta_x", a, b, L, up))
    dy = lambda a, b: okv(cutv(run, "math::clamm::get_delta_y", a, b, L, up))
    (c1, plo), (c2, phi) = price_at(run, lo), price_at(run, hi)
    below, inside = LT(cur, lo), LT(cur, hi)
    (ca, xa), (cb, xb), (cc, yb), (cd, yd) = dx(plo, phi), dx(price, phi), dy(plo, price), dy(plo, phi)
    zero = like(xa, ZERO)
    x = vite(below, xa, vite(inside, xb, zero))
    y = vite(below, zero, vite(inside, yb, yd))
    d = AND(LE(lo, hi), ite(below, AND(c1, c2, ca), ite(inside, AND(c2, c1, cb, cc), AND(c1, c2, cd))))
    return d, x, y, AND(NOT(below), inside)


def net(t):
    """the signed liquidity change of a tick"""
    c = num(get(t, "liquidity_change"))
    return vite(get(t, "sign"), c, SUB(ZERO, c))


def netproj(t):
    """a tick with (sign, change) replaced by its signed value"""
    if t.tag == "choice":
        return vite(t.args[0], netproj(t.args[1]), netproj(t.args[2]))
    return struct("tick", *[x for f, x in tick_fields(t)])


def tick_fields(t):
    return [("index", get(t, "index")), ("net", net(t)), ("gross", num(get(t, "liquidity_gross"))), ("sqrt_price", num(get(t, "sqrt_price"))),
            ("fgx", num(get(t, "fee_growth_outside_x"))), ("fgy", num(get(t, "fee_growth_outside_y"))), ("seconds", get(t, "seconds_outside"))]


FIELDS["tick"] = ["index", "signed_liquidity_change", "liquidity_gross", "sqrt_price", "fee_growth_outside_x", "fee_growth_outside_y", "seconds_outside"]


def spec_tick(run, t, **kw):
    """build the projected tick from tick value t with overrides"""
    d = dict(tick_fields(t))
    d.update(kw)
    return struct("tick", *[d[n] for n in ("index", "net", "gross", "sqrt_price", "fgx", "fgy", "seconds")])


def growth_inside(run, lo, tlo, hi, thi, pool):
    """wrapping fee growth inside the range: global - below - above"""
    cur = get(pool, "current_tick_index")
    out = []
    for a in ("x", "y"):
        g = num(get(pool, "fee_growth_global_" + a))
        ol, oh = num(get(tlo, "fee_growth_outside_" + a)), num(get(thi, "fee_growth_outside_" + a))
        below = vite(LE(lo, cur), ol, SUB(g, ol))
        above = vite(LT(cur, hi), oh, SUB(g, oh))
        out.append(wrap128(run, SUB(SUB(g, below), above)))
    return out


def owed(run, now, before, L):
    """fee owed to liquidity L for the growth since the checkpoint, rounded down"""
    return DIV(MUL(wrap128(run, SUB(now, before)), L), const(10 ** 34))


def fresh_tick(run, e, ix, pool):
    """a tick initialised at ix: by convention all growth so far is below it when ix <= current tick"""
    t = run.p.types[run.p.adt("storage::tick::Tick")]
    below = LE(ix, get(pool, "current_tick_index"))
    _, pr = price_at(run, ix)
    return struct("tick", ix, ZERO, ZERO, num(pr), vite(below, num(get(pool, "fee_growth_global_x")), ZERO),
                  vite(below, num(get(pool, "fee_growth_global_y")), ZERO), vite(below, SUB(e.millis(), get(pool, "start_timestamp")), ZERO))


def tget(t, f):
    return get(t, f)


# ------------------------------------------------------------------ coins attached to a message
def attached(run, funds, denom):
    """amount of the first attached coin of the denomination (0 when none)"""
    E = run.E
    ty = run.p.adt("Coin")
    r = M.list_find(E, Probe(), funds, ty, lambda c, el: eqv(get(el, "denom"), denom), lambda x, o: x)
    out = ZERO
    for v, c, fs in r.args[1]:
        if v == 1:
            out = vite(c, num(get(fs[0], "amount")), ZERO)
    return out


class Probe:
    """a context for building specification values"""

    def __init__(self):
        self.pc, self.cells = TRUE, {}

    def copy(self):
        return self


def collect(run, e, denom, amount, funds):
    """(condition for acceptance, guarded messages) that collect `amount` of `denom` from the sender:
    a token is pulled by allowance, a native coin must be attached and any excess is returned"""
    me = get(e.env, "contract.address")
    nz = NOT(EQI(amount, ZERO))
    tok = e.is_token(denom)
    t = e.wasm_exec(denom, e.var("Cw20ExecuteMsg", "TransferFrom", e.sender, me, e.uint128(amount)))
    att = attached(run, funds, denom)
    rest = lift(lambda a, b: SUB(a, b), att, amount)
    enough = OR(tok, NOT(LT(att, amount)))
    return enough, [(AND(tok, nz), "e", e.submsg(t)), (AND(NOT(tok), NOT(EQI(rest, ZERO))), "e", e.submsg(e.bank_send(e.sender, denom, rest)))]


def settles(k, key, S, run, first, second, msg, where=None):
    """the response sends exactly these messages; the order of the two groups is not observable"""
    from ..spec import same as sm
    got = run.messages()
    if not sm(S, got, vlist(first + second), []) and sm(S, got, vlist(second + first), []):
        return k.ob(key, True)
    return k.same(key, S, got, vlist(first + second), msg, where)


# ------------------------------------------------------------------ loop summaries
def leaves_at(v, path=()):
    """(path, leaf) pairs of a structured value"""
    if v.tag == "struct":
        for i, x in enumerate(v.args[1]):
            yield from leaves_at(x, path + (i,))
    else:
        yield path, v


def at(v, path):
    for i in path:
        if v.tag == "choice":
            return vite(v.args[0], at(v.args[1], path), at(v.args[2], path))
        v = v.args[1][i]
    return v


class Slot:
    """a loop-carried scalar: value at the loop head, before the first and after one iteration"""

    def __init__(self, hdr, init, back, name=None):
        self.hdr, self.init, self.back, self.name = hdr, init, back, name


def slots(info):
    """all loop-carried leaves of a loop summary"""
    r = info.get("slots")
    if r is None:
        r = []
        for cell, hv in info["havoc"].items():
            if hv.tag == "ns":
                continue
            b = info["back"].cells.get(cell) if info["back"] else None
            if b is None:
                continue
            for path, leaf in leaves_at(hv):
                i = info["init"][cell]
                try:
                    iv, bv = at(i, path), at(b, path)
                except Exception:
                    continue
                if leaf is bv and leaf is iv:
                    continue
                r.append(Slot(leaf, no_ovf_val(iv), no_ovf_val(bv), info["names"].get(cell)))
        info["slots"] = r
    return r


def slot_of(info, leaf):
    """the slot whose value at the loop head is this leaf; an unchanging value is its own slot"""
    for s in slots(info):
        if s.hdr is leaf:
            return s
    return None


def mentions(t, tag, seen=None):
    """does the term mention a symbol of the loop?"""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T):
            if isinstance(x, tuple):
                st.extend(x)
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.tag == "sym" and isinstance(x.args[0], str) and x.args[0].startswith(tag + "."):
            return True
        if x.tag == "ite":
            st.extend(ATOMS[v] for v in support(x))
            st.extend(leaves(x))
        else:
            st.extend(x.args)
    return False
