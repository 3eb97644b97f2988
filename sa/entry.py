"""Entry-point harness: analyse a contract entry point for one message variant with every message
field, the sender, the attached funds, the environment and the whole storage left symbolic."""
from .terms import *
from .engine import Engine, Ctx, Unsupported, ERR


class Result:
    __slots__ = ("eng", "ctx", "ret", "S", "panic", "val", "args", "err")

    def __init__(self):
        pass


def run_fn(prog, f, args=None, cuts=None, models=None, names=None, fixed=None):
    """analyse function f on symbolic arguments named by its parameter names"""
    E = Engine(prog, cuts=cuts, models=models)
    ctx = Ctx(TRUE, {})
    vals = []
    dbg = {}
    for nm, pl in f["dbg"]:
        if not pl[1] and 1 <= pl[0] <= f["argc"]:
            dbg.setdefault(pl[0], nm)
    for i in range(f["argc"]):
        nm = (names or {}).get(i) or dbg.get(i + 1, "arg%d" % i)
        if args and i < len(args) and args[i] is not None:
            v = args[i]
            if callable(v):
                v = v(E, ctx)
        else:
            ty = f["locals"][i + 1]
            t = prog.types[ty]
            if t["k"] == "ref" and t.get("m") and prog.types[t["e"]]["k"] != "dyn":
                v = mk("ref", E.new_cell(ctx, E.sym(nm, t["e"]), nm, t["e"]), ())
            else:
                v = E.sym(nm, ty)
        vals.append(v)
    r = Result()
    r.args = vals
    ret = E.inline(ctx, f, vals, f["def"])
    r.eng, r.ctx, r.ret = E, ctx, ret
    pan = FALSE
    for c, *_ in E.panics:
        pan = OR(pan, c)
    r.panic = pan
    r.S, r.val = FALSE, None
    if ret is not None:
        rt = prog.types[f["locals"][0]]
        if rt["k"] == "adt" and rt["n"].endswith("result::Result"):
            for v, c, fs in ret.args[1]:
                if v == 0:
                    r.S, r.val = AND(ctx.pc, c), E.deep(ctx, fs[0])
        else:
            r.S, r.val = ctx.pc, E.deep(ctx, ret)
    return r


def token_id(E, label, n, prefix=""):
    """a token id: the owner's bytes followed by a 4-byte index (every byte string of length >= 4 has this form)"""
    ix = mk("sym", prefix + "token_index")
    set_range(ix, 0, (1 << 32) - 1)
    return struct(n, vlist([(TRUE, "s", mk("sym", prefix + "token_owner")), (TRUE, "s", mk("app", "be", (as_poly(ix), 4)))]))


def msg_field(prog, E, fn, ft, prefix=""):
    t = prog.types[ft]
    if fn == "token_id" and t["k"] == "adt" and t["n"].endswith("Binary"):
        return token_id(E, fn, t["n"], prefix)
    return E.sym(prefix + fn, ft)


def msg_value(prog, ty, vname, E, prefix=""):
    t = prog.types[ty]
    for i, v in enumerate(t["v"]):
        if v["n"] == vname:
            return variant(t["n"], i, *[msg_field(prog, E, fn, ft, prefix) for fn, ft in v["f"]])
    raise KeyError("message variant %s missing" % vname)


def run_msg(prog, entry, vname, cuts=None, models=None, prefix=""):
    f = prog.fn(entry)
    n = f["argc"]
    args = [None] * n
    args[n - 1] = lambda E, ctx: msg_value(prog, f["locals"][n], vname, E, prefix)
    return run_fn(prog, f, args, cuts, models, names={0: "deps", 1: "env", 2: prefix + "info"})
