"""What the queries report: single records and listings."""
from . import prop
from .common import *
from .positions import live
from .liquidity import GRID
from .opening import Bits, GRIDTEXT, tier_listed
from .swap import answer
from .. import spec
from ..idiom import subst
from ..models import list_len

LIMIT = 100


class QEnv(Env):
    def __init__(self, run):
        self.run, self.E, self.p = run, run.E, run.p
        self.env = run.arg(1)


def literals(c):
    """the (atom, truth) pairs of a conjunction"""
    out = {}
    while c is not TRUE:
        if c.tag != "ite":
            raise Unsupported("case is not a conjunction")
        v, hi, lo = c.args
        if lo is FALSE:
            out[ATOMS[v]], c = TRUE, hi
        elif hi is FALSE:
            out[ATOMS[v]], c = FALSE, lo
        else:
            raise Unsupported("case is not a conjunction")
    return out


class Listing:
    """a list written as source, filter, cap and element, the element in terms of `item`"""

    def __init__(self, run, l, S):
        self.run, self.E = run, run.E
        self.S = S
        self.n = 0
        self.rev = False
        self.caps = []
        self.pred = TRUE
        self.elems = []       # list terms whose elements are the item
        self.fields = {}
        self.walk(l)
        m = {}
        self.item = mk("sym", "item%d" % Listing.count)
        Listing.count += 1
        beta = as_poly(mk("sym", "β0"))
        s = self.src
        if s.tag == "app" and s.args[0] == "range":
            set_range(self.item, 0, (1 << 63) - 1)
            self.val = as_poly(self.item)
            lo, hi = s.args[1]
            self.lo, self.hi = lo, hi
            m[mk("sym", "β0")] = SUB(SUB(hi, ONE), self.val) if self.rev else SUB(self.val, lo)
            self.inside = AND(LE(lo, self.val), LT(self.val, hi))
        else:
            self.val = self.item
            self.lo = self.hi = None
            self.inside = TRUE
        for x in self.elems:
            m[mk("app", "elem", (x, beta))] = self.val
        if s.tag == "app" and s.args[0] == "skeys":
            self.src = mk("app", "srange", s.args[1])
            for x in self.elems:
                m[mk("app", "elem", (x, beta))] = mk("proj", self.item, "0")
        self.map = m
        self.pred = self.norm(self.pred)
        self.body = None if self.body is None else self.norm(self.body)

    count = 0

    def norm(self, v):
        return subst(v, self.map)

    def one(self, l):
        """the single segment of a list under the condition S"""
        l = lift1(l, self.S)
        if l.tag != "list":
            return l
        its = [(c, k, x) for c, k, x in l.args[0] if spec.feasible(AND(self.S, c))]
        if len(its) != 1 or its[0][1] != "s" or not spec.implied(self.S, its[0][0]):
            raise Unsupported("list built from %d parts: %s" % (len(its), show(l, 4)[:200]))
        return its[0][2]

    def walk(self, l):
        x = self.one(l)
        self.body = None
        self.elems.append(l)
        self.elems.append(x)
        if x.tag == "list":
            return self.walk(x)
        if x.tag == "app" and x.args[0] in ("map", "filter", "filter_map", "take", "rev"):
            op, a = x.args
            self.walk(a[0])
            if op == "take":
                self.caps.append(a[1])
            if op == "rev":
                if self.caps or self.body is not None or self.pred is not TRUE:
                    raise Unsupported("reversal of a derived list")
                self.rev = not self.rev
            if op in ("filter", "filter_map"):
                if self.caps or (self.body is not None and op == "filter"):
                    raise Unsupported("filter after a cap")
                self.pred = AND(self.pred, a[1])
            if op == "map":
                self.body = a[1]
            if op == "filter_map":
                self.body = a[2]
            return
        if x.tag == "app" and x.args[0] not in ("range", "srange", "skeys") and not (x.args[0] == "elem"):
            raise Unsupported("list source " + show(x, 3)[:120])
        self.src = x


def lift1(v, S):
    """the leaf of a conditional value that S selects"""
    if v.tag == "choice":
        if spec.implied(S, v.args[0]):
            return lift1(v.args[1], S)
        if spec.implied(S, NOT(v.args[0])):
            return lift1(v.args[2], S)
        raise Unsupported("list chosen by a condition outside the case")
    if v.tag == "ite":
        ls = [x for x in leaves(v)]
        v2 = restrict(v, S)
        if v2.tag == "ite":
            raise Unsupported("list chosen by a condition outside the case: %d" % len(ls))
        return v2
    return v


def in_case(v, case):
    return subst(v, literals(case)) if case is not TRUE else v


def listing(k, key, run, S, case, got, want, what, where=None):
    """got: list value; want(L) -> dict(src=term | range=(lo,hi), rev, cap, pred, body) in terms of L.val"""
    S = in_case(S, case)
    if not spec.feasible(S):
        return k.ob(key + "/reachable", False, what + ": never answered")
    L = Listing(run, in_case(got, case), S)
    w = {n: (in_case(v, case) if isinstance(v, T) else v) for n, v in want(L).items()}
    inside = L.inside
    k.ob(key + "/order", L.rev == w.get("rev", False), what + ": listed in the wrong direction", where)
    if "range" in w:
        lo, hi = [in_case(x, case) for x in w["range"]]
        if L.lo is None:
            return k.ob(key + "/source", False, what + ": not a listing of consecutive indices: " + show(L.src, 4)[:200], where)
        ghi = L.hi
        glo = L.lo
        cap = w.get("cap")
        if cap is None and L.caps and L.pred is TRUE and not L.rev:
            for c in L.caps:
                e = ADD(glo, c)
                ghi = vite(LT(e, ghi), e, ghi)
            L.caps = []
        # the same set of indices: empty together, otherwise the same ends
        e1, e2 = LT(glo, ghi), LT(lo, hi)
        k.equiv(key + "/non-empty", e1, e2, what + ": listed or not", where, under=S)
        k.same(key + "/from", AND(S, e2), glo, lo, what + ": first index", where)
        k.same(key + "/to", AND(S, e2), ghi, hi, what + ": end index", where)
        inside = AND(LE(lo, L.val), LT(L.val, hi))
    else:
        k.same(key + "/source", S, L.src, in_case(w["src"], case), what + ": source of the listing", where)
    cap = w.get("cap")
    if cap is None:
        k.ob(key + "/uncapped", not L.caps, what + ": cut short", where)
    else:
        c = None
        for x in L.caps:
            c = x if c is None else vite(LT(x, c), x, c)
        k.ob(key + "/capped", c is not None, what + ": not limited", where)
        if c is not None:
            k.same(key + "/cap", S, c, cap, what + ": number of entries", where)
    Si = AND(S, inside)
    pred = w.get("pred", TRUE)
    k.equiv(key + "/which", L.pred, pred, what + ": which entries are listed", where, under=Si)
    got = L.body if L.body is not None else L.val
    if got is L.item and "item" in w:
        got = w["item"]
    k.same(key + "/entry", AND(Si, pred), got, w["body"], what + ": entry", where)
    return L


def strip1(v):
    """a one-field wrapper around a list"""
    while v.tag == "struct" and len(v.args[1]) == 1:
        v = v.args[1][0]
    return v


def opt(v, default):
    """the value of an optional argument"""
    r = default
    for kk, c, fs in v.args[1]:
        if kk == 1:
            r = vite(c, fs[0], default)
    return r


def is_some(v):
    return OR(*[c for kk, c, fs in v.args[1] if kk == 1])


def quiet(k, name, run):
    k.ob(name + "/no-writes", not run.touched(), name + ": a query changes stored state")


# ------------------------------------------------------------------ P25
@prop("P25", 30)
def p25(k):
    k.rule("each single-record query succeeds exactly when the record exists and returns the stored record field by field; flags and counts equal the stored flags and counts; approvals are listed in stored order, all of them or only the unexpired ones")
    k.assume("a token id is the owner's bytes followed by a 4-byte index")
    for n, f in (("Admin", p25_admin), ("ProtocolFee", p25_fee), ("FeeTiers", p25_tiers), ("FeeTierExist", p25_tier), ("Pool", p25_pool), ("Tick", p25_tick), ("Position", p25_position),
                 ("IsTickInitialized", p25_bit), ("UserPositionAmount", p25_count), ("OwnerOf", p25_owner), ("NftInfo", p25_info), ("AllNftInfo", p25_all)):
        k.group("P25/" + n, f, k, n)


def opened(k, name, cuts=()):
    run = k.query(name, cuts)
    quiet(k, name, run)
    return run, QEnv(run), answer(run)


def p25_admin(k, n):
    run, e, a = opened(k, n)
    p, c = e.config0()
    k.equiv(n + "/answered", run.S, p, n + " answered")
    k.same(n + "/value", run.S, a, get(c, "admin"), "reported admin")


def p25_fee(k, n):
    run, e, a = opened(k, n)
    p, c = e.config0()
    k.equiv(n + "/answered", run.S, p, n + " answered")
    k.same(n + "/value", run.S, num(a), num(get(c, "protocol_fee")), "reported protocol fee")


def p25_tiers(k, n):
    run, e, a = opened(k, n)
    p, c = e.config0()
    k.equiv(n + "/answered", run.S, p, n + " answered")
    k.same(n + "/value", run.S, a, get(c, "fee_tiers"), "reported fee tiers")


def p25_tier(k, n):
    run, e, a = opened(k, n)
    p, c = e.config0()
    t = e.field("fee_tier")
    known = M.list_any(e.E, M.Ctx2(Ctx(TRUE, {}), TRUE), get(c, "fee_tiers"), e.ty("fee_tier::FeeTier"), lambda cc, x: eqv(x, t))
    k.equiv(n + "/answered", run.S, p, n + " answered")
    k.equiv(n + "/value", a, known, "fee tier reported as registered", under=run.S)


def ordered_key(e, a, b, tier):
    """the two orders of a pair: (case, key)"""
    t = e.p.types[e.ty("pool_key::PoolKey")]
    c = {v: c for v, c, _ in M.str_order(a, b).args[1]}
    return [(c[0], struct(t["n"], a, b, tier)), (c[2], struct(t["n"], b, a, tier))]


def p25_pool(k, n):
    run, e, a = opened(k, n)
    t0, t1, tier = e.field("token_0"), e.field("token_1"), e.field("fee_tier")
    ok = FALSE
    for c, pk in ordered_key(e, t0, t1, tier):
        has, pool = e.pool0(pk)
        ok = OR(ok, AND(c, NOT(eqv(t0, t1)), has))
        k.same(n + "/value", AND(run.S, c), a, pool, "reported pool")
    k.equiv(n + "/answered", run.S, ok, n + " answered")


def p25_tick(k, n):
    run, e, a = opened(k, n)
    has, t = e.tick0(e.field("key"), e.field("index"))
    k.equiv(n + "/answered", run.S, has, n + " answered")
    k.same(n + "/value", run.S, a, t, "reported tick")


def p25_position(k, n):
    run, e, a = opened(k, n)
    has, t = e.pos0(e.field("owner_id"), e.field("index"))
    k.equiv(n + "/answered", run.S, has, n + " answered")
    k.same(n + "/value", run.S, a, t, "reported position")


def p25_count(k, n):
    run, e, a = opened(k, n)
    has, c = e.len0(e.field("owner"))
    k.equiv(n + "/answered", run.S, TRUE, n + " answered")
    k.same(n + "/value", run.S, a, vite(has, c, ZERO), "reported number of positions")


def grid_query(k, name, pk, *ticks):
    """a query about ticks inside the valid range of a pool with a valid spacing"""
    set_range(mk("proj", mk("proj", mk("sym", GRID + pk), "fee_tier"), "tick_spacing"), 1, 100)
    for t in ticks:
        set_range(mk("sym", GRID + t), -MAXT, MAXT)
    run = k.msg("contract::query", name, prefix=GRID)
    quiet(k, name, run)
    return run, QEnv(run), answer(run)


def p25_bit(k, n):
    run, e, a = grid_query(k, n, "key", "index")
    pk, ix = e.field("key"), e.field("index")
    on = EQI(REM(ix, get(pk, "fee_tier.tick_spacing")), ZERO)
    k.implied(n + "/answered", on, run.S, "an on-grid tick is refused")
    k.equiv(n + "/value", a, Bits(run, pk).is_set(ix), "tick reported as initialised", under=AND(run.S, on))


def token_q(e):
    t = num(e.field("token_id"))
    o, i = t.args[0][0][2], t.args[0][1][2].args[1][0]
    has, pos = e.pos0(o, i)
    return o, i, has, pos


def utf8_ok(o):
    return atom_var(mk("utf8", vlist([(TRUE, "s", o)])))


def approvals(k, key, run, e, pos, got):
    inc = e.field("include_expired")
    src = strip1(get(pos, "approvals"))
    src = src.args[0][0][2] if src.tag == "list" else src
    ety = e.ty("interface::Approval")
    some = is_some(inc)
    flag = [fs[0] for kk, c, fs in inc.args[1] if kk == 1][0]
    for nm, case, every in (("none", NOT(some), False), ("false", AND(some, NOT(flag)), False), ("true", AND(some, flag), True)):
        def want(L):
            it = e.E.expand(ety, L.item)
            return {"src": src, "pred": TRUE if every else live(e, get(it, "expires")), "body": it, "item": it}
        listing(k, "%s/approvals-%s" % (key, nm), run, run.S, case, got, want, "reported approvals")


def p25_owner(k, n):
    run, e, a = opened(k, n)
    o, i, has, pos = token_q(e)
    k.implied(n + "/answered-only", run.S, has, n + " answered")
    k.implied(n + "/answered-if", AND(has, utf8_ok(o)), run.S, n + " refused")
    k.same(n + "/owner", run.S, get(a, "owner"), o, "reported owner")
    approvals(k, n, run, e, pos, get(a, "approvals"))


def p25_info(k, n):
    run, e, a = opened(k, n)
    o, i, has, pos = token_q(e)
    k.equiv(n + "/answered", run.S, has, n + " answered")
    k.same(n + "/value", run.S, get(a, "extension"), pos, "reported position")


def p25_all(k, n):
    run, e, a = opened(k, n)
    o, i, has, pos = token_q(e)
    k.implied(n + "/answered-only", run.S, has, n + " answered")
    k.implied(n + "/answered-if", AND(has, utf8_ok(o)), run.S, n + " refused")
    k.same(n + "/owner", run.S, get(a, "access.owner"), o, "reported owner")
    k.same(n + "/value", run.S, get(a, "info.extension"), pos, "reported position")
    approvals(k, n, run, e, pos, get(a, "access.approvals"))


# ------------------------------------------------------------------ P31
@prop("P31", 60)
def p31(k):
    k.rule("a listing returns, in key order and without gaps, the entries after the given start up to the requested number, never more than the fixed page size; every entry equals the stored record; "
           "tick counts equal the number of set bits of the range")
    k.assume(GRIDTEXT)
    k.assume("every index below an owner's recorded count names a stored position (P05)")
    k.assume("names stored as text are read back as text; pool keys are written by the pool key encoding only (P16, P18)")
    k.assume("ordered iteration of the key-value store returns the entries of a namespace in key order, each once")
    for n, f in (("Positions", p31_positions), ("Tokens", p31_tokens), ("AllTokens", p31_all), ("ApprovedForAll", p31_ops), ("Pools", p31_pools), ("PoolsForPair", p31_pair), ("LiquidityTicks", p31_lticks),
                 ("PositionTicks", p31_pticks), ("TickMap", p31_map), ("LiquidityTicksAmount", p31_amount)):
        k.group("P31/" + n, f, k, n)


def page(limit):
    n = opt(limit, const(LIMIT))
    return vite(LT(n, const(LIMIT)), n, const(LIMIT))


def no_gaps(run, owner, S, rng):
    """S with `some listed position is missing` dropped: indices below the count are stored, and rng ends at the count at most"""
    m = {}
    for v in support(S):
        a = ATOMS[v]
        if a.tag == "exists":
            L = Listing(run, a.args[0], TRUE)
            b = L.norm(a.args[1])
            p, _ = run.sel0("positions", position_db_key(owner, L.val), tyof(run, "positions"))
            if L.lo is not None and spec.implied(AND(L.inside, b), NOT(p)) and spec.same(LT(*rng), L.lo, rng[0]) and spec.same(LT(*rng), L.hi, rng[1]) and spec.equiv(LT(L.lo, L.hi), LT(*rng)):
                m[v] = False
    return cofactor(S, m)


def own_range(e, owner, start, limit):
    has, n = e.len0(owner)
    n = vite(has, n, ZERO)
    end = ADD(start, page(limit))
    return start, vite(LT(end, n), end, n)


def p31_positions(k, n):
    run, e, a = opened(k, n)
    o = e.field("owner_id")
    rng = own_range(e, o, opt(e.field("offset"), ZERO), e.field("limit"))
    k.equiv(n + "/answered", no_gaps(run, o, run.S, rng), TRUE, n + " answered")
    listing(k, n, run, run.S, TRUE, a, lambda L: {"range": rng, "body": e.pos0(o, L.val)[1]}, "positions of an account")


def p31_tokens(k, n):
    run, e, a = opened(k, n)
    o = e.field("owner")
    rng = own_range(e, o, opt(e.field("start_after"), ZERO), e.field("limit"))
    k.equiv(n + "/answered", no_gaps(run, o, run.S, rng), TRUE, n + " answered")
    listing(k, n, run, run.S, TRUE, strip1(a), lambda L: {"range": rng, "body": struct("cosmwasm_std::Binary", position_db_key(o, L.val))}, "tokens of an account")


def store_range(run, ns, prefix, start):
    """entries of a namespace (under a prefix) after `start`, in key order"""
    opt_label = start.args[0]
    st = enum(opt_label, [(kk, c, (variant("Bound", 3, vlist([(TRUE, "s", fs[0])]) if fs[0].tag != "list" else fs[0]),) if kk == 1 else ()) for kk, c, fs in start.args[1]])
    return mk("app", "srange", (mk("str", ns), run.ns0(ns), prefix, st, M.NONE, variant("Order", 0)))


def p31_all(k, n):
    run, e, a = opened(k, n)
    st = e.field("start_after")
    st = enum(st.args[0], [(kk, c, tuple(num(x) for x in fs)) for kk, c, fs in st.args[1]])
    src = store_range(run, "positions", UNITKEY, st)
    k.equiv(n + "/answered", run.S, TRUE, n + " answered")
    listing(k, n, run, run.S, TRUE, strip1(a), lambda L: {"src": src, "cap": page(e.field("limit")), "body": struct("cosmwasm_std::Binary", vlist([(TRUE, "s", mk("proj", L.item, "0"))]))}, "all tokens")


def p31_ops(k, n):
    run, e, a = opened(k, n)
    inc = e.field("include_expired")
    flag = [fs[0] for kk, c, fs in inc.args[1] if kk == 1][0]
    some = is_some(inc)
    src = store_range(run, "operators", addr_key(e.field("owner")), e.field("start_after"))
    ety = e.ty("interface::Approval")
    t = e.p.types[ety]
    k.equiv(n + "/answered", texts(run.S), TRUE, n + " answered")
    for nm, case, every in (("none", NOT(some), False), ("false", AND(some, NOT(flag)), False), ("true", AND(some, flag), True)):
        def want(L):
            exp = e.E.expand(e.ty("Expiration"), mk("proj", L.item, "1"))
            fs = {"spender": mk("proj", L.item, "0"), "expires": exp}
            return {"src": src, "cap": page(e.field("limit")), "pred": TRUE if every else live(e, exp), "body": struct(t["n"], *[fs[x[0]] for x in t["v"][0]["f"]])}
        listing(k, "%s/%s" % (n, nm), run, run.S, case, strip1(a), want, "operators of an account")


def texts(S):
    """S with `some listed name is not text` dropped: listed names were stored as text"""
    m = {}
    for v in support(S):
        a = ATOMS[v]
        if a.tag == "exists" and all(ATOMS[x].tag == "utf8" for x in support(a.args[1])):
            m[v] = False
    return cofactor(S, m)


def p31_pools(k, n):
    run, e, a = opened(k, n)
    k.equiv(n + "/answered", texts(run.S), TRUE, n + " answered")
    kt, t = e.ty("pool_key::PoolKey"), e.p.types[e.ty("interface::PoolWithPoolKey")]
    st = e.field("start_after")
    st = enum(st.args[0], [(kk, c, tuple(pool_db_key(x) for x in fs)) for kk, c, fs in st.args[1]])
    src = store_range(run, "pools", UNITKEY, st)

    def want(L):
        fs = {"pool_key": e.E.expand(kt, mk("proj", L.item, "0")), "pool": e.E.expand(e.ty("storage::pool::Pool"), mk("proj", L.item, "1"))}
        return {"src": src, "cap": page(e.field("limit")), "body": struct(t["n"], *[fs[x[0]] for x in t["v"][0]["f"]])}
    listing(k, n, run, run.S, TRUE, a, want, "pools")


def p31_pair(k, n):
    run, e, a = opened(k, n)
    t0, t1 = e.field("token_0"), e.field("token_1")
    has, conf = e.config0()
    k.equiv(n + "/answered", run.S, AND(has, NOT(eqv(t0, t1))), n + " answered")
    src = get(conf, "fee_tiers")
    src = src.args[0][0][2] if src.tag == "list" else src
    t = e.p.types[e.ty("interface::PoolWithPoolKey")]
    dummy = e.E.expand(e.ty("fee_tier::FeeTier"), mk("sym", "tier"))
    for i, (case, _) in enumerate(ordered_key(e, t0, t1, dummy)):
        def want(L):
            tier = e.E.expand(e.ty("fee_tier::FeeTier"), L.item)
            pk = ordered_key(e, t0, t1, tier)[i][1]
            p, pool = e.pool0(pk)
            fs = {"pool": pool, "pool_key": pk}
            return {"src": src, "pred": p, "body": struct(t["n"], *[fs[x[0]] for x in t["v"][0]["f"]])}
        listing(k, "%s/%d" % (n, i), run, run.S, case, a, want, "pools of a pair")


def p31_lticks(k, n):
    run, e, a = opened(k, n)
    pk, l = e.field("pool_key"), e.field("tick_indexes")
    i32 = [i for i, t in enumerate(e.p.types) if t["k"] == "int" and t["bits"] == 32 and t["s"]][0]
    missing = M.list_any(e.E, M.Ctx2(Ctx(TRUE, {}), TRUE), l, i32, lambda c, x: NOT(e.tick0(pk, x)[0]))
    k.equiv(n + "/answered", run.S, AND(LE(e.E.length(l), const(780)), NOT(missing)), n + " answered")
    t = e.p.types[e.ty("storage::tick::LiquidityTick") if False else e.ty("LiquidityTick")]

    def want(L):
        _, tk = e.tick0(pk, as_poly(L.item))
        src = l.args[0][0][2] if l.tag == "list" else l
        return {"src": src, "body": struct(t["n"], *[get(tk, x[0]) for x in t["v"][0]["f"]])}
    listing(k, n, run, run.S, TRUE, a, want, "requested ticks")


def words(run, e, pk, t):
    B = Bits(run, pk)
    return B.word(t)


def stored_word(run, pk, c):
    from .opening import bitmap_db_key
    return run.sel0("bitmap", bitmap_db_key(pk, c), tyof(run, "bitmap"))


def p31_map(k, n):
    run, e, a = grid_query(k, n, "pool_key", "lower_tick_index", "upper_tick_index")
    pk = e.field("pool_key")
    sp = get(pk, "fee_tier.tick_spacing")
    lo, hi = e.field("lower_tick_index"), e.field("upper_tick_index")
    grid = AND(EQI(REM(lo, sp), ZERO), EQI(REM(hi, sp), ZERO))
    k.implied(n + "/answered", grid, run.S, "a range of on-grid ticks is refused")
    last = DIV(DIV(ADD(MUL(sp, DIV(const(MAXT), sp)), const(MAXT)), sp), const(64))
    cl, ch = words(run, e, pk, lo)[0], words(run, e, pk, hi)[0]
    end = ADD(vite(LT(last, ch), last, ch), ONE)
    up = e.field("x_to_y")
    for nm, case, rev in (("x_to_y", up, True), ("y_to_x", NOT(up), False)):
        def want(L):
            p, w = stored_word(run, pk, L.val)
            return {"range": (cl, end), "rev": rev, "cap": const(1638), "pred": p, "body": struct("tuple", L.val, w)}
        listing(k, "%s/%s" % (n, nm), run, run.S, case, a, want, "tick bitmap words")


def p31_amount(k, n):
    run, e, a = grid_query(k, n, "pool_key", "lower_tick", "upper_tick")
    pk = e.field("pool_key")
    sp = get(pk, "fee_tier.tick_spacing")
    lo, hi = e.field("lower_tick"), e.field("upper_tick")
    m = MUL(sp, DIV(const(MAXT), sp))
    ok = AND(EQI(REM(lo, sp), ZERO), EQI(REM(hi, sp), ZERO), LE(SUB(ZERO, m), lo), LE(hi, m))
    cl, bl, wl = words(run, e, pk, lo)
    ch, bh, wh = words(run, e, pk, hi)
    # lower <= upper, position by position
    le = OR(LT(cl, ch), AND(EQI(cl, ch), LE(bl, bh)))
    k.implied(n + "/answered-only", run.S, ok, n + " answered")
    k.implied(n + "/answered-if", AND(ok, le), run.S, n + " refused")

    def ones(w, l, h):
        return lift(lambda x, y, z: ZERO if x is ZERO else as_poly(app("ones", as_poly(x), y, z, rng=(0, 64))), w, l, h)
    top = const(63)
    rng = mk("app", "range", (ADD(cl, ONE), ch))
    b = as_poly(mk("sym", "β0"))
    p, w = stored_word(run, pk, e.E.elem(rng, b, None))
    inner = M.sum_over(rng, vite(p, ones(w, ZERO, top), ZERO))
    S = AND(run.S, ok)
    k.same(n + "/one-word", AND(S, EQI(cl, ch), LE(bl, bh)), a, ones(wl, bl, bh), "initialised ticks within one bitmap word")
    k.same(n + "/words", AND(S, LT(cl, ch)), a, ADD(ADD(ones(wl, bl, top), ones(wh, ZERO, bh)), inner), "initialised ticks over several bitmap words")


TICK_PAGE = 372


def p31_pticks(k, n):
    run, e, a = opened(k, n)
    o, off = e.field("owner"), e.field("offset")
    has, cnt = e.len0(o)
    cnt = vite(has, cnt, ZERO)
    loops = run.E.loops
    if len(loops) != 1:
        raise Unsupported("expected one loop over the positions, found %d" % len(loops))
    info = loops[0]
    w = info["where"]
    k.equiv(n + "/answered", no_ovf(info["pc0"]), LE(off, cnt), "an offset up to the number of positions is accepted, a larger one refused", w)
    B = no_ovf(info["back"].pc)
    acc = [s for s in slots(info) if s.init.tag == "list" and not s.init.args[0]]
    ixs = [s for s in slots(info) if s.hdr.tag == "poly" or s.hdr.tag == "sym"]
    ixs = [s for s in ixs if spec.same(B, s.back, ADD(s.hdr, ONE))]
    if len(acc) != 1 or not ixs:
        raise Unsupported("no list of ticks or no position index is carried by the loop")
    T_, I = acc[0], ixs[0]
    ix = ADD(SUB(I.hdr, I.init), off)
    hp, pos = e.pos0(o, ix)
    pt = e.p.types[e.ty("PositionTick")]
    new = list(T_.hdr.args[0])
    for side in ("lower_tick_index", "upper_tick_index"):
        ht, tick = e.tick0(get(pos, "pool_key"), get(pos, side))
        new.append((AND(hp, ht), "e", struct(pt["n"], *[get(tick, f[0]) for f in pt["v"][0]["f"]])))
    want = vlist(new)
    more = LT(ix, cnt)
    full0, full1 = [LE(const(TICK_PAGE), e.E.length(x)) for x in (T_.hdr, want)]
    pc0 = LE(off, cnt)
    k.same(n + "/entry", B, T_.back, want, "ticks of one position", w)
    late = spec.equiv(B, AND(pc0, more, NOT(full1)))
    early = spec.equiv(B, AND(pc0, more, NOT(full0)))
    k.ob(n + "/continues", late or early, "positions are skipped or the listing does not stop once %d ticks are listed" % TICK_PAGE, w)
    S = no_ovf(run.S)
    if late:
        k.equiv(n + "/ends", S, AND(pc0, OR(NOT(more), full1)), "end of the listing", w)
        k.same(n + "/listed", AND(S, NOT(more)), a, T_.hdr, "listed ticks", w)
        k.same(n + "/listed-full", AND(S, more), a, want, "listed ticks", w)
    else:
        k.equiv(n + "/ends", S, AND(pc0, OR(NOT(more), full0)), "end of the listing", w)
        k.same(n + "/listed", S, a, T_.hdr, "listed ticks", w)
