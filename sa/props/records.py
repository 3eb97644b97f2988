"""Storage keys: every stored thing has a record of its own."""
from . import prop
from .common import *
from .. import spec
from .queries import QEnv


class Shape(Exception):
    pass


def segments(key, pc):
    """[(kind, alternatives)] of a storage key; kind is ("fix", n) | ("lp", inner kinds) | ("raw",)"""
    if key.tag == "struct" or (key.tag == "adt"):
        key = key
    if key.tag != "list":
        fs = key.args[1] if key.tag == "struct" else None
        if fs is None:
            raise Shape("unrecognised key " + show(key, 3)[:80])
        out = []
        for i, f in enumerate(fs):
            inner = segments(f, pc)
            # every component of a tuple key but the last is length-prefixed by the storage layer
            out += [(("lp", tuple(x[0] for x in inner)), [v for x in inner for v in x[1]])] if i < len(fs) - 1 else inner
        return out
    out, run = [], []

    def flush():
        if not run:
            return
        cs = [c for c, _, _ in run]
        for i, a in enumerate(cs):
            for b in cs[i + 1:]:
                if spec.feasible(AND(pc, a, b)):
                    raise Shape("parts of the key overlap")
        if not spec.implied(pc, OR(*cs)):
            raise Shape("part of the key can be missing")
        kinds = {k for _, k, _ in run}
        if len(kinds) != 1:
            raise Shape("the key has different layouts in different cases")
        out.append((kinds.pop(), [v for _, _, vs in run for v in vs]))
        run.clear()

    for c, k, x in key.args[0]:
        kind, vals = segment(k, x, pc)
        if c is TRUE:
            flush()
            out.append((kind, vals))
        else:
            run.append((c, kind, vals))
    flush()
    return out


def segment(k, x, pc):
    if k == "e":
        return ("fix", 1), [x]
    alts = leaves(x) if x.tag == "ite" else [x]
    res = None
    vals = []
    for a in alts:
        if a.tag == "app" and a.args[0] == "be":
            r = ("fix", a.args[1][1])
            vals.append(a.args[1][0])
        elif a.tag == "app" and a.args[0] == "lp":
            inner = segments(a.args[1][0], pc)
            r = ("lp", tuple(y[0] for y in inner))
            vals += [v for y in inner for v in y[1]]
        else:
            r = ("raw",)
            vals.append(a)
        if res not in (None, r):
            raise Shape("the key has different layouts in different cases")
        res = r
    return res, vals


def decodable(kinds):
    """a sequence of segments that determines each of them: everything after a segment of open length has a fixed one"""
    for i, k in enumerate(kinds):
        if k[0] == "lp" and not decodable(k[1]):
            return False
        if k[0] == "raw" and any(x[0] != "fix" for x in kinds[i + 1:]):
            return False
    return True


def kinds_of(ns, want):
    return tuple(x[0] for x in segments(want, TRUE))


@prop("P18", 30)
def p18(k):
    k.rule("every storage access of every message and query uses, per table, one key layout; each layout is uniquely decodable (fixed-width and length-prefixed parts, at most one open part followed by fixed ones only); "
           "the record read for a pool, tick, bitmap word, position or approval has every part of its identity, unaltered, in its key")
    k.assume("the storage layer keeps tables apart by their length-prefixed names")
    shapes = {}
    for name in k.variants():
        k.group("P18/" + name, uses, k, name, k.execute(name, SWAP_CUTS), shapes)
    for name in k.variants("contract::query"):
        k.group("P18/" + name, uses, k, name, k.query(name, SWAP_CUTS), shapes)
    for ns in sorted(shapes):
        ks = shapes[ns]
        k.ob("layout/" + ns, len(ks) == 1, "table %s is used with %d different key layouts: %s" % (ns, len(ks), "; ".join("%s in %s" % (a, ", ".join(sorted(set(b))[:4])) for a, b in ks.items())[:500]), None)
        for a in ks:
            k.ob("decodable/" + ns, decodable(a), "two different records of table %s can have the same key (%s)" % (ns, a), None)
    for n, f in (("tick", id_tick), ("pool", id_pool), ("position", id_position), ("approval", id_approval), ("word", id_word)):
        k.group("P18/identity-" + n, f, k)


def accesses(run):
    for e in run.E.events:
        if e[0] == "storage" and e[1] in ("load", "may_load", "has", "save", "remove", "update"):
            yield e


def uses(k, name, run, shapes):
    seen = set()
    for e in accesses(run):
        ns, key = e[3][0].args[0], e[3][1]
        if (ns, key) in seen:
            continue
        seen.add((ns, key))
        if ns in ("config", "contract_info", "pool_keys_length"):
            continue
        try:
            s = tuple(x[0] for x in segments(key, e[2] if isinstance(e[2], T) else TRUE))
        except Shape as x:
            k.ob("%s/%s" % (name, ns), False, "key of table %s: %s" % (ns, x), [e[4]])
            continue
        k.ob("%s/%s" % (name, ns), True, "", [e[4]])
        shapes.setdefault(ns, {}).setdefault(s, []).append(name)


def identity(k, key, run, ns, parts, what):
    """some access of the table carries exactly these parts"""
    ks = [e for e in accesses(run) if e[3][0].args[0] == ns]
    k.ob(key + "/read", bool(ks), what + ": no access of table " + ns, run.where(ns, ("load", "may_load", "has")))
    for e in ks:
        got = {v if v.tag != "poly" else v for x in segments(e[3][1], TRUE) for v in x[1]}
        miss = [p for p in parts if p not in got]
        more = [g for g in got if g not in parts]
        k.ob(key + "/parts", not miss and not more, "%s: the key lacks %s%s" % (what, ", ".join(show(m, 3)[:60] for m in miss) or "nothing", "; instead it has " + ", ".join(show(m, 3)[:60] for m in more) if more else ""), [e[4]])


def raw(v):
    b = M.bytes_of(v) if v.tag not in ("list",) else v
    if b.tag == "list":
        return [x for c, kk, x in b.args[0]]
    return [b]


def pool_parts(pk):
    ft = get(pk, "fee_tier")
    return raw(get(pk, "token_x")) + raw(get(pk, "token_y")) + [num(get(ft, "fee")), as_poly(get(ft, "tick_spacing"))]


def id_tick(k):
    run = k.query("Tick")
    e = QEnv(run)
    identity(k, "identity/tick", run, "ticks", pool_parts(e.field("key")) + [as_poly(e.field("index"))], "the tick of a pool")


def id_pool(k):
    run = k.query("Pool")
    e = QEnv(run)
    ft = e.field("fee_tier")
    identity(k, "identity/pool", run, "pools", raw(e.field("token_0")) + raw(e.field("token_1")) + [num(get(ft, "fee")), as_poly(get(ft, "tick_spacing"))], "the pool of two tokens and a fee tier")


def id_position(k):
    run = k.query("Position")
    e = QEnv(run)
    identity(k, "identity/position", run, "positions", raw(e.field("owner_id")) + [as_poly(e.field("index"))], "an owner's position")


def id_approval(k):
    run = k.execute("ApproveAll")
    e = Env(run)
    identity(k, "identity/approval", run, "operators", raw(e.sender) + raw(e.field("operator")), "an operator's approval")


def id_word(k):
    run = k.query("IsTickInitialized")
    e = QEnv(run)
    pk = e.field("key")
    ix = M.DIV(M.DIV(M.ADD(e.field("index"), const(221818)), get(get(pk, "fee_tier"), "tick_spacing"), True), const(64), True)
    identity(k, "identity/word", run, "bitmap", pool_parts(pk) + [as_poly(run.E.wrap(ix, 16, False))], "the bitmap word of a pool's tick")
