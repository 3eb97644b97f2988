"""The decimal library: every instantiated operation of every fixed-point type against exact integer arithmetic."""
import re
from . import prop
from .common import *
from .. import spec
from ..spec import no_ovf
from .overflow import stable, wraps, CLAMP

SCALE = {"Liquidity": 6, "Percentage": 12, "TokenAmount": 0, "FixedPoint": 12, "FeeGrowth": 28, "SqrtPrice": 24, "SecondsPerLiquidity": 24}
TYPE = re.compile(r"^<(?:oraiswap_v3|oraiswap_v3_wasm|verif_probe)::(?:\w+::)*(\w+) as (.*)>::(\w+)$")
TRAIT = re.compile(r"^(decimal::(\w+)|std::ops::(\w+))(<.*>)?$")


def up(n, d):
    return DIV(ADD(n, SUB(d, ONE)), d)


def one(t):
    return const(10 ** SCALE[t])


def reference(op, lt, rt, a, b):
    """(exact value, condition under which it exists, operation is computed in the wide type) of `a op b`"""
    wide = "big" in op
    core = re.sub(r"^(checked_)?(big_)?", "", op).replace("_assign", "").replace("_to_value", "")
    if core == "add":
        return ADD(a, b), TRUE, wide
    if core == "sub":
        return SUB(a, b), LE(b, a), wide
    if core == "sub_abs":
        return vite(LT(b, a), SUB(a, b), SUB(b, a)), TRUE, wide
    if core == "mul":
        return DIV(MUL(a, b), one(rt)), TRUE, wide
    if core == "mul_up":
        return up(MUL(a, b), one(rt)), TRUE, wide
    nz = NOT(EQI(b, ZERO))
    if core == "div":
        return DIV(MUL(a, one(rt)), b), nz, wide
    if core == "div_up":
        return up(MUL(a, one(rt)), b), nz, wide
    if core == "div_by_number":
        return DIV(MUL(a, one(lt)), b), nz, True
    if core == "div_by_number_up":
        return up(MUL(a, one(lt)), b), nz, True
    return None


def instances(k, crate):
    p = k.prog(crate)
    for f in p.fns.values():
        m = TYPE.match(f["def"])
        if not m or "blocks" not in f or m.group(1) not in SCALE:
            continue
        t = TRAIT.match(m.group(2))
        if t:
            yield p, f, m.group(1), t.group(2) or t.group(3), m.group(3)


@prop("P21", 150)
def p21(k):
    k.rule("every operation of the decimal library that the contract or the client library instantiates, for every fixed-point type: the result is the exact integer quotient, rounded down (or up where the operation is the rounding-up one), "
           "it is refused exactly for division by zero, a negative difference or a result that does not fit, and wide operations fail for no other reason; scales are fixed per type")
    import os
    for crate in ("oraiswap_v3", "oraiswap_v3_wasm", "verif_probe"):
        if crate == "verif_probe" and not os.path.exists(os.path.join(k.dir, "probe", "verif_probe.json")):
            k.assume("operations that neither the contract nor the client library uses were not analysed: the probe crate does not compile against this decimal library")
            continue
        for p, f, t, trait, op in instances(k, crate):
            k.group("%s/%s/%s" % (crate, t, op), one_op, k, crate, p, f, t, trait, op)
    k.group("wide", wide, k)


def dec(p, ty):
    t = p.types[ty]
    while t["k"] == "ref":
        t = p.types[t["e"]]
    return t["n"].split("::")[-1] if t["k"] == "adt" else None


def one_op(k, crate, p, f, t, trait, op):
    n = f["argc"]
    tys = f["locals"][1:1 + n]
    where = ["%s of %s in %s" % (op, t, crate)]
    run = k.fn(f, crate=crate, base=False, names={0: "a", 1: "b"})
    key = "%s/%s/%s/%s" % (crate, t, op, "-".join(str(dec(p, x) or p.tname(x)) for x in tys[1:]))
    if trait == "Decimal":
        want = {"one": one(t), "checked_one": one(t), "almost_one": SUB(one(t), ONE), "scale": const(SCALE[t])}.get(op)
        if want is not None:
            k.same(key, run.S, num(run.val), want, "the scale of a type", where)
            k.equiv(key + "/defined", run.S, TRUE, "the scale of a type", where)
        elif op in ("get", "here", "new", "is_zero"):
            x = num(run.E.deep(run.r.ctx, run.arg(0)))
            if op == "is_zero":
                k.equiv(key, run.val, EQI(x, ZERO), "whether a value is zero", where)
            else:
                k.same(key, run.S, num(run.val), x, "the represented integer", where)
            k.equiv(key + "/defined", run.S, TRUE, "the represented integer", where)
        elif op in ("max_value", "max_instance"):
            bits = p.intlike(p.fn("<%s>::%s" % (f["def"][1:].split(">::")[0], "max_value"))["locals"][0])[0]
            k.same(key, run.S, num(run.val), const((1 << bits) - 1), "the largest value", where)
        return
    if trait in ("Factories", "FactoriesToValue", "BetweenDecimals", "BetweenDecimalsToValue"):
        return factory(k, key, run, p, f, t, trait, op, where)
    if n != 2 or trait not in ("BigOps", "ByNumber", "ToValue", "CheckedOps", "Others", "OthersSameType", "Add", "Sub", "Mul", "Div", "AddAssign", "SubAssign", "MulAssign", "DivAssign"):
        return
    rt = dec(p, tys[1])
    lhs = run.E.sym("a", p.types[tys[0]]["e"]) if op.endswith("_assign") else run.arg(0)
    a, b = num(lhs), num(run.arg(1))
    ref = reference(op, t, rt, a, b)
    if ref is None:
        k.ob(key, False, "no reference for this operation", where)
        return
    want, cond, wide_ = ref
    S = run.r.S
    v = run.E.read_ref(run.r.ctx, run.r.args[0]) if op.endswith("_assign") else run.r.val
    v = num(vrestrict(v, S))
    k.equiv(key + "/defined", run.S, cond, "the operands for which the operation is defined", where)
    k.same(key + "/value", AND(run.S, cond), spec.no_ovf_val(v), want, "the exact rounded result", where)
    k.implied(key + "/success", S, run.S, "an overflow turns a refusal into an answer", where)
    stable(k, key + "/overflow", S, v, where)
    if wide_:
        bad = []
        for w in support(S):
            x = ATOMS[w]
            if x.tag == "ovf" and abs(x.args[1]) < 256 and not spec.same(AND(run.S, cond), as_poly(x.args[0]), want, []):
                bad.append(show(x, 6)[:200])
        k.ob(key + "/wide", not bad, "a wide operation fails although its result fits: " + "; ".join(bad[:2]), where)


def factory(k, key, run, p, f, t, trait, op, where):
    """conversions: scale the value by the difference of scales"""
    a = num(run.arg(0))
    S = run.r.S
    v = num(vrestrict(run.r.val, S))
    if trait in ("BetweenDecimals", "BetweenDecimalsToValue"):
        d = SCALE[t] - SCALE[dec(p, f["locals"][1])]
        want = MUL(a, const(10 ** d)) if d >= 0 else up(a, const(10 ** -d)) if op.endswith("_up") else DIV(a, const(10 ** -d))
        dom = TRUE
    elif op == "from_integer":
        want, dom = MUL(a, one(t)), NOT(LT(a, ZERO))
    else:
        # the scale is an argument: decided for every scale a value can have
        for s in sorted(set(list(SCALE.values()) + [1, 5, 18])):
            r2 = k.fn(f, [None, const(s)], crate=k_crate(f), base=False, names={0: "a", 1: "b"})
            d = SCALE[t] - s
            a2 = num(r2.arg(0))
            w2 = MUL(a2, const(10 ** d)) if d >= 0 else up(a2, const(10 ** -d)) if op.endswith("_up") else DIV(a2, const(10 ** -d))
            S2 = r2.r.S
            if r2.r.val is None:
                # the conversion factor itself exceeds the argument's type: always refused
                bits, sg = p.intlike(f["locals"][1])
                k.ob("%s/%d/refused" % (key, s), d < 0 and 10 ** -d >= 1 << (bits - (1 if sg else 0)), "every value can be converted", where)
                continue
            v2 = num(vrestrict(r2.r.val, S2))
            nn = NOT(LT(a2, ZERO))
            k.equiv("%s/%d/defined" % (key, s), r2.S, nn, "every value can be converted", where)
            k.same("%s/%d/value" % (key, s), AND(r2.S, nn), spec.no_ovf_val(v2), w2, "a conversion keeps the represented value", where)
            stable(k, "%s/%d/overflow" % (key, s), S2, v2, where)
        return
    k.equiv(key + "/defined", run.S, dom, "the values that can be converted", where)
    k.same(key + "/value", AND(run.S, dom), spec.no_ovf_val(v), want, "a conversion keeps the represented value", where)
    stable(k, key + "/overflow", S, v, where)


def k_crate(f):
    return f["def"][1:].split("::")[0]


def wide(k):
    """narrowing and widening between the wide integers"""
    p = k.prog()
    for n, w in (("decimal::u256_to_u320", 320), ("decimal::checked_u320_to_u256", 256)):
        run = k.fn(n, base=False, names={0: "n"}, models={})
        x = num(run.arg(0))
        if w == 320:
            k.same("widen", run.S, num(run.val), x, "widening keeps the value", [n])
            k.equiv("widen/defined", run.S, TRUE, "every value can be widened", [n])
        else:
            d = {i: (c, fs) for i, c, fs in vrestrict(run.r.val, run.r.S).args[1]}
            fits = NOT(run.E.ovf_cond(x, 256, False))
            k.equiv("narrow/defined", d.get(1, (FALSE,))[0], fits, "a value is narrowed exactly when it fits", [n])
            k.same("narrow/value", AND(d[1][0], fits), num(d[1][1][0]), x, "narrowing keeps the value", [n])
