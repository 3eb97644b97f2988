"""Arithmetic overflow: no outcome depends on how an overflowing operation would have been patched up."""
import re
from . import prop
from .common import *
from .. import spec
from ..spec import no_ovf, no_ovf_val
from .sdk import STEP, LOG

ACC = re.compile(r"fee_growth|seconds_|growth")
FNS = [(PRE + "math::clamm::" + n, STEP) for n in ("compute_swap_step", "calculate_amount_delta")]
FNS += [(PRE + "math::clamm::" + n, ()) for n in
        "get_delta_x get_delta_y get_next_sqrt_price_x_up get_next_sqrt_price_y_down get_next_sqrt_price_from_input get_next_sqrt_price_from_output "
        "is_enough_amount_to_change_price calculate_max_liquidity_per_tick calculate_min_amount_out".split()]
FNS += [(PRE + "logic::math::" + n, ()) for n in "get_liquidity_by_x get_liquidity_by_y calculate_x calculate_y get_liquidity_by_x_sqrt_price get_liquidity_by_y_sqrt_price".split()]
FNS += [("FeeGrowth::from_fee", ()), ("FeeGrowth::to_fee", ()), ("SecondsPerLiquidity::calculate_seconds_per_liquidity_global", ()), ("SqrtPrice::from_tick", ()),
        (PRE + "math::log::get_tick_at_sqrt_price", LOG)]
QUERIES = ("Quote", "QuoteRoute", "Position", "Pool", "Tick", "UserPositionAmount")


@prop("P19", 60)
def p19(k):
    k.rule("overflow conditions are kept as free decisions: whenever a message (or calculation) succeeds, its success, stored values, payments and answer are the same with every overflow decision set to 'did not overflow'")
    k.rule("no stored value, payment or answer is reduced modulo a word size or clamped to one, except the wrapping fee-growth and seconds accumulators")
    k.assume("the release profile keeps overflow checks on (checked below)")
    k.group("profile", profile, k)
    for v in k.variants():
        k.group(v, message, k, v, False)
    have = k.variants("contract::query")
    for v in QUERIES:
        if v in have:
            k.group(v, message, k, v, True)
    for f, cuts in FNS:
        k.group(f.split("::")[-1], calc, k, f, cuts)


def profile(k):
    import os
    from .. import build
    t = open(os.path.join(build.REPO, "Cargo.toml")).read()
    m = re.search(r"\[profile\.release\](.*?)(\n\[|\Z)", t, re.S)
    k.ob("profile/release", m and re.search(r"^\s*overflow-checks\s*=\s*true", m.group(1), re.M), "plain arithmetic in the deployed build must abort on overflow (release profile: overflow-checks = true)", ["Cargo.toml"])


def stable(k, key, S, v, where, depth=0):
    """v takes the same value as when nothing overflows, whenever S holds"""
    v = flags(spec.settle(v, S))
    w = no_ovf_val(v)
    if w is v:
        return
    if v.tag == "choice":
        c = v.args[0]
        k.equiv(key + "/when", c, no_ovf(c), "a decision on what is stored depends on an overflow that did not abort", where, under=S)
        stable(k, key + "/a", AND(S, c), v.args[1], where)
        stable(k, key + "/b", AND(S, NOT(c)), v.args[2], where)
    elif v.tag == "ns":
        for i, (c, kk, x) in enumerate(v.args[1]):
            k.equiv("%s/write-%d/when" % (key, i), c, no_ovf(c), "whether a value is stored depends on an overflow that did not abort", where, under=S)
            if x is not None:
                k.same("%s/write-%d" % (key, i), AND(S, c), x, no_ovf_val(x), "a stored value differs from the exact result when an operation overflows", where)
    else:
        k.same(key, S, v, w, "a result differs from the exact one when an operation overflows", where)


def flags(v):
    """an unchecked overflow flag selects the wrapped result"""
    if v.tag == "ite":
        vs = {x: True for x in support(v) if ATOMS[x].tag == "ovf" and len(ATOMS[x].args) > 2}
        return cofactor(v, vs) if vs else v
    if v.tag == "struct":
        fs = tuple(flags(x) for x in v.args[1])
        return v if fs == v.args[1] else mk("struct", v.args[0], fs)
    if v.tag == "choice":
        return vite(v.args[0], flags(v.args[1]), flags(v.args[2]))
    if v.tag == "ns":
        return mk("ns", v.args[0], tuple((c, k, flags(w) if w is not None else None) for c, k, w in v.args[1]))
    return v


def wraps(v, seen, out, clamp):
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        if x.tag == "ite":
            st.extend(leaves(x))
            st.extend(ATOMS[w] for w in support(x))
            continue
        if x.tag == "app" and x.args[0] == "wrap" and x.args[1][1] >= 32:
            out.append(x)
        if x.tag == "app" and re.match(r"sat(add|sub|mul)$", str(x.args[0])):
            out.append(x)
        if x.tag == "ltk" and x.args[1] in clamp:
            out.append(x)
        st.extend(x.args)


CLAMP = {s * (1 << b) + d for b in (32, 64, 128, 256, 320, 448, 512) for s in (1, -1) for d in (-1, 0, 1)}


def legal(x):
    """a wrapped accumulator"""
    if x.tag == "app" and x.args[0] == "wrap":
        for m, c in as_poly(x.args[1][0]).args[0]:
            for t in m:
                if ACC.search(last_name(t)):
                    return True
    return False


def last_name(t):
    if t.tag == "sym":
        return str(t.args[0])
    if t.tag == "app" and t.args[0] == "wrap":
        return "growth" if legal(t) else ""
    return " ".join(str(a) for a in t.args if isinstance(a, str)) if t.tag != "app" else str(t.args[0])


def message(k, v, q):
    run = k.query(v, ENTRY_CUTS) if q else k.execute(v, ENTRY_CUTS)
    S = run.r.S
    w = ["%s %s" % ("query" if q else "execute", v)]
    k.implied(v + "/success", S, run.S, "an overflow turns a failing message into a successful one", w)
    seen, ws = set(), []
    for c, x in run.r.ctx.cells.items():
        if isinstance(c, tuple) and c[0] == "ns":
            stable(k, "%s/%s" % (v, c[1]), S, x, w)
            wraps(x, seen, ws, CLAMP)
    if run.r.val is not None:
        stable(k, v + "/response", S, vrestrict(run.r.val, S), w)
        wraps(vrestrict(run.r.val, S), seen, ws, CLAMP)
    for i in run.E.loops:
        b = i["back"]
        if not b:
            continue
        lw = w + [i["where"]]
        k.implied("%s/loop/continues" % v, b.pc, no_ovf(b.pc), "an overflow keeps a loop going", lw)
        for c in i["havoc"]:
            if c in b.cells:
                stable(k, "%s/loop" % v, b.pc, b.cells[c], lw)
                wraps(b.cells[c], seen, ws, CLAMP)
    bad = [x for x in ws if not legal(x)]
    k.ob(v + "/exact", not bad, "a value is reduced or clamped to a word size: " + "; ".join(show(x, 6)[:300] for x in bad[:3]), w)


def calc(k, f, cuts):
    n = f.split("::")[-1]
    run = k.fn(f, cuts=[PRE + "math::" + x for x in cuts if not f.endswith(x)])
    S = run.r.S
    k.implied(n + "/success", S, run.S, "an overflow turns a failing calculation into a successful one", [f])
    if run.r.val is not None:
        v = vrestrict(run.r.val, S)
        stable(k, n + "/value", S, v, [f])
        ws = []
        wraps(v, set(), ws, CLAMP)
        bad = [x for x in ws if not legal(x) and "tick_at" not in n]      # the tick's own narrowing is part of P29
        k.ob(n + "/exact", not bad, "a value is reduced or clamped to a word size: " + "; ".join(show(x, 6)[:300] for x in bad[:3]), [f])
