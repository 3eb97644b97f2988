"""Finding the next initialised tick: the bitmap search and the limit it hands to the swap."""
from . import prop
from .common import *
from .liquidity import GRID
from .opening import bitmap_db_key, GRIDTEXT

RANGE = 256


class Contract:
    """the contract's bitmap in storage"""
    crate, state, map = "oraiswap_v3", "state::", "storage::tickmap::"

    def word(self, run, c):
        pk = pool_key_arg(run)
        h, v = M.ns_select(run.E, run.ns0("bitmap"), bitmap_db_key(pk, c), tyof(run, "bitmap"))
        return vite(h, v, ZERO)

    def found(self, run, fn, tick, sp):
        return cutv(run, fn, run.E.deep(run.r.ctx, run.arg(0)), tick, sp, pool_key_arg(run))


class Client:
    """the client library's bitmap in memory"""
    crate, state, map = "oraiswap_v3_wasm", "collections::tickmap::Tickmap::", "collections::tickmap::"

    def word(self, run, c):
        m = get(run.E.deep(run.r.ctx, run.arg(0)), "bitmap")
        u64 = run.p.fn("log::log2_floor_x32")["locals"][0]
        h, v = M.ns_select(run.E, mk("ns", m, ()) if m.tag != "struct" else m.args[1][0], c, u64)
        return vite(h, v, ZERO)

    def found(self, run, fn, tick, sp):
        return cutv(run, fn, run.E.deep(run.r.ctx, run.arg(0)), tick, sp)


def pool_key_arg(run):
    for a in run.r.args:
        a = run.E.deep(run.r.ctx, a)
        if a.tag == "struct" and a.args[0].endswith("PoolKey"):
            return a
    raise Unsupported("no pool key")


def grid_args(k, fn, cuts=(), home=Contract()):
    """analyse a search function on a tick and spacing inside their valid ranges"""
    t, s = mk("sym", GRID + "tick"), mk("sym", GRID + "tick_spacing")
    set_range(t, -MAXT, MAXT)
    set_range(s, 1, 100)
    p = k.prog(home.crate)
    f = p.fn(fn)
    args = [None] * f["argc"]
    names = {}
    for i in range(f["argc"]):
        ty = p.types[f["locals"][i + 1]]
        if ty["k"] == "int" and ty["bits"] == 32:
            args[i] = as_poly(t)
        elif ty["k"] == "int" and ty["bits"] == 16:
            args[i] = as_poly(s)
        elif ty["k"] == "ref" and p.types[ty["e"]].get("n", "").endswith("PoolKey"):
            names[i] = "pool_key"
    run = k.fn(fn, args, cuts=cuts, names=names, crate=home.crate)
    pk = next((run.E.deep(run.r.ctx, run.arg(i)) for i in names), None)
    return run, as_poly(t), as_poly(s), pk


def search_limit(tick, sp, up):
    """the farthest tick one search considers: 256 spacings away, inside the tick range"""
    ix = DIV(tick, sp, True)
    m = DIV(const(MAXT), sp)
    if up:
        a = ADD(ix, const(RANGE))
        return MUL(vite(LT(a, m), a, m), sp)
    a = SUB(ix, const(RANGE))
    n = SUB(ZERO, m)
    return MUL(vite(LT(a, n), n, a), sp)


def place(run, tick, sp):
    """(word, bit) of a tick"""
    q = DIV(ADD(tick, const(MAXT)), sp, True)
    return run.E.wrap(DIV(q, const(64), True), 16, False), run.E.wrap(REM(q, const(64)), 8, False)


@prop("P28", 12)
def p28(k):
    k.rule("the upward search starts one spacing above the tick, the downward search at the tick; word by word it skips words without a set bit ahead, stops at the first set bit of the first other word and reports it unless it lies beyond the search limit "
           "(256 spacings, clipped to the tick range); the swap limit is that tick's price, or the search limit's when nothing is found, bounded by the caller's limit")
    k.assume(GRIDTEXT)
    k.group("P28/next", p28_search, k, True)
    k.group("P28/prev", p28_search, k, False)
    k.group("P28/limit", p28_limit, k)
    k.group("P28/place", p28_place, k)
    k.group("P28/closer", p28_closer, k)


def p28_search(k, up, home=Contract()):
    name = "next" if up else "prev"
    run, tick, sp, pk = grid_args(k, home.state + "%s_initialized" % name, home=home)
    E = run.E
    on = EQI(REM(tick, sp), ZERO)
    first = ADD(tick, sp) if up else tick
    none_left = LT(const(MAXT), first) if up else FALSE
    c0, b0 = place(run, first, sp)
    lc, lb = place(run, search_limit(tick, sp, up), sp)
    loops = run.E.loops
    if len(loops) != 1:
        raise Unsupported("expected one loop over bitmap words, found %d" % len(loops))
    info = loops[0]
    w = [info["where"]]
    pc0 = AND(no_ovf(info["pc0"]), on)
    ch = b = None
    for s in slots(info):
        if s.init.tag not in ("poly", "ite"):
            continue
        if same(pc0, s.init, c0):
            ch = ch or s
        if same(pc0, s.init, b0):
            b = b or s
    k.ob(name + "/start", ch is not None and b is not None, "the search must start at the position of the %s" % ("next tick above" if up else "tick itself"), w)
    if ch is None or b is None:
        return
    hc, hb = ch.hdr, b.hdr
    cmp = (lambda x, y: LT(x, y)) if up else (lambda x, y: LT(y, x))
    inside = lambda bit: OR(cmp(hc, lc), AND(EQI(hc, lc), NOT(cmp(lb, bit))))
    going = inside(hb)
    word = home.word(run, hc)
    ahead = NOT(EQI(DIV(word, pow2(hb, 256)), ZERO)) if up else NOT(EQI(REM(word, pow2(ADD(hb, ONE), 256)), ZERO))
    j = lift(lambda x: next_bit(x, hb) if up else prev_bit(x, hb), word)
    found = AND(going, ahead, inside(j))
    t = MUL(SUB(ADD(MUL(const(64), hc), j), DIV(const(MAXT), sp)), sp)
    inv = AND(LE(hb, const(63)), on)
    bpc = AND(no_ovf(info["back"].pc), inv)
    last = EQI(hc, const(65535)) if up else EQI(hc, ZERO)
    k.implied(name + "/skip", bpc, AND(going, NOT(ahead)), "a word with an initialised tick ahead is skipped, or the search runs past its limit", w)
    k.same(name + "/advance-word", bpc, ch.back, ADD(hc, ONE) if up else SUB(hc, ONE), "the search moves to the neighbouring word", w)
    k.same(name + "/advance-bit", bpc, b.back, ZERO if up else const(63), "the search enters the neighbouring word at its near end", w)
    S = AND(run.S, inv)
    k.implied(name + "/complete", AND(S, NOT(none_left)), OR(NOT(going), ahead, last), "the search gives up before its limit", w)
    want = M.option(AND(NOT(none_left), found), t)
    k.same(name + "/result", S, run.val, want, "the tick reported by the search", w)


def p28_limit(k, home=Contract()):
    run, tick, sp, pk = grid_args(k, home.map + "get_search_limit", home=home)
    up = run.arg(2)
    k.same("limit/value", run.S, run.val, vite(up, search_limit(tick, sp, True), search_limit(tick, sp, False)), "the search limit", None)


def p28_place(k, home=Contract()):
    run, tick, sp, pk = grid_args(k, home.map + "tick_to_position", home=home)
    a, b = place(run, tick, sp)
    k.same("place/value", run.S, struct("pair", *[x for x in run.val.args[1]]), struct("pair", a, b), "the bitmap position of a tick", None)
    k.equiv("place/domain", run.S, EQI(REM(tick, sp), ZERO), "every tick on the grid has a position", None)


FIELDS["pair"] = ["word", "bit"]


def p28_closer(k, home=Contract()):
    cuts = tuple(home.crate + "::" + home.state + x + "_initialized" for x in ("next", "prev"))
    run, tick, sp, pk = grid_args(k, home.state + "get_closer_limit", cuts, home)
    lim, x2y = run.arg(1), run.arg(2)
    def find(fn):
        r = home.found(run, fn, tick, sp)
        d = {v: (c, f) for v, c, f in r.args[1]}
        return d[1][0], d[1][1][0]
    (hd, td), (hu, tu) = find(home.state + "prev_initialized"), find(home.state + "next_initialized")
    has = vite(x2y, hd, hu)
    far = vite(x2y, search_limit(tick, sp, False), search_limit(tick, sp, True))
    ix = vite(has, vite(x2y, td, tu), far)
    okp, p = price_at(run, ix)
    stuck = AND(NOT(has), EQI(tick, far))
    k.equiv("closer/accepted", run.S, AND(NOT(stuck), okp), "the search for the limiting price", None)
    near = vite(x2y, LT(num(lim), num(p)), LT(num(p), num(lim)))
    got = run.val
    k.same("closer/price", run.S, num(got.args[1][0]), vite(near, num(p), num(lim)), "the limiting price of a step", None)
    k.same("closer/tick", run.S, got.args[1][1], M.option(near, struct("pair", ix, has)), "the limiting tick of a step", None)
