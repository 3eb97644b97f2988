"""Gated value-flow analysis over monomorphic MIR.

Forward dataflow over each control-flow graph in topological order. Facts at a program point are the
condition under which it is reached and, per memory cell, its value as a gated term; facts are joined
(not enumerated per path) at merge points. Calls are analysed in context (inlined) down to the modelled
library boundary. Loops are summarised: every location the body changes is replaced by a fresh loop
symbol, the body is analysed once, and the relation (initial, next, exit) is recorded.
"""
import json, os, re
from .terms import *
from .idiom import syms

ERR = mk("sym", "ERR")


class Unsupported(Exception):
    pass


class Ctx:
    __slots__ = ("pc", "cells")

    def __init__(self, pc, cells):
        self.pc, self.cells = pc, cells

    def copy(self):
        return Ctx(self.pc, dict(self.cells))


WIDE = re.compile(r"(?:^|::)U(192|256|320|384|448|512|128T)$")
STRINGY = {"std::string::String", "cosmwasm_std::Addr", "alloc::string::String", "str"}
ERRTY = re.compile(r"(ContractError|StdError|TrackableError|TrackableResult|TryFromSliceError|FromUtf8Error|OverflowError|TryFromIntError|ParseIntError)$")


class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.crate = d["crate"]
        self.types = d["types"]
        self.fns = {f["id"]: f for f in d["fns"]}
        self.roots = d["roots"]
        self.by_def = {}
        for f in d["fns"]:
            self.by_def.setdefault(f["def"], []).append(f)
        self._tn = {}
        self._cfg = {}

    def tname(self, i, dep=0):
        if i in self._tn:
            return self._tn[i]
        t = self.types[i]
        k = t["k"]
        if dep > 8:
            return "…"
        if k == "adt":
            r = t["n"] + ("<" + ",".join(self.tname(a, dep + 1) if isinstance(a, int) else a for a in t["a"]) + ">" if t["a"] else "")
        elif k == "int":
            r = ("i" if t["s"] else "u") + str(t["bits"])
        elif k in ("ref", "ptr"):
            r = "&" + self.tname(t["e"], dep + 1)
        elif k == "tuple":
            r = "(" + ",".join(self.tname(a, dep + 1) for a in t["f"]) + ")"
        elif k == "slice":
            r = "[" + self.tname(t["e"], dep + 1) + "]"
        elif k == "array":
            r = "[" + self.tname(t["e"], dep + 1) + ";%d]" % t["n"]
        elif k in ("dyn", "fndef", "closure"):
            r = k + ":" + t["n"]
        else:
            r = k
        if dep == 0:
            self._tn[i] = r
        return r

    def intlike(self, i):
        t = self.types[i]
        if t["k"] == "int":
            return t["bits"], bool(t["s"])
        if t["k"] == "char":
            return 32, False
        if t["k"] == "adt":
            m = WIDE.search(t["n"])
            if m and m.group(1).isdigit() and t["n"].startswith(("decimal", "uint", "oraiswap")):
                return int(m.group(1)), False
        return None

    def find(self, pat, n=1):
        r = re.compile(pat)
        out = [f for f in self.fns.values() if "blocks" in f and r.search(f["def"])]
        return out

    def fn(self, d):
        """the analysed function whose definition path is (or ends with) d"""
        c = [f for f in self.by_def.get(d, []) if "blocks" in f]
        if not c:
            c = [f for f in self.fns.values() if "blocks" in f and (f["def"].endswith("::" + d) or f["name"].endswith("::" + d))]
        if not c:
            c = self.moved(d)
        if len(c) != 1:
            raise KeyError("anchor %s: %d candidates" % (d, len(c)))
        return c[0]

    def moved(self, d):
        """functions that could be d after a move to another module (same name, same owning type if any)"""
        head, _, last = d.rpartition("::")
        owner = head.rpartition("::")[2]
        owner = owner if owner[:1].isupper() else None
        out = []
        for f in self.fns.values():
            if "blocks" not in f or not f["def"].startswith(self.crate + "::"):
                continue
            h, _, l = f["def"].rpartition("::")
            if l == last and (re.search(r"\b%s\b>?$" % owner, h) is not None if owner else not re.search(r"(\b[A-Z]\w*|>|\})$", h)):
                out.append(f)
        return out

    def resolve(self, names):
        """a table keyed by definition path, with moved functions under their present path"""
        out = {}
        for d, v in names.items():
            if d not in self.by_def and d.startswith(self.crate + "::"):
                c = self.moved(d)
                d = c[0]["def"] if len(c) == 1 else d
            out[d] = v
        return out

    def adt(self, name):
        for i, t in enumerate(self.types):
            if t["k"] == "adt" and t["n"] == name:
                return i
        c = [i for i, t in enumerate(self.types) if t["k"] == "adt" and t["n"].endswith("::" + name)]
        if not c:
            c = [i for i, t in enumerate(self.types) if t["k"] == "adt" and t["n"].startswith(self.crate + "::") and t["n"].rpartition("::")[2] == name.rpartition("::")[2]]
        if not c:
            raise KeyError("type anchor %s missing" % name)
        return c[0]

    def cfg(self, f):
        c = self._cfg.get(f["id"])
        if c is None:
            succ = {}
            for i, b in enumerate(f["blocks"]):
                t = b[1]
                k = t[0]
                if k == "goto":
                    s = [t[1]]
                elif k == "switch":
                    s = [x[1] for x in t[2]] + [t[3]]
                elif k == "drop":
                    s = [t[1]]
                elif k == "call":
                    s = [t[4]] if t[4] >= 0 else []
                elif k == "assert":
                    s = [t[4]]
                else:
                    s = []
                succ[i] = list(dict.fromkeys(s))
            c = succ
            self._cfg[f["id"]] = c
        return c


def sccs(nodes, succ, entry):
    """Tarjan; returns SCCs in topological order (entry first)"""
    idx, low, on, st, out, n = {}, {}, set(), [], [], [0]
    for root in [entry]:
        work = [(root, iter(succ(root)))]
        idx[root] = low[root] = n[0]
        n[0] += 1
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in nodes:
                    continue
                if w not in idx:
                    idx[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(succ(w))))
                    adv = True
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                u = work[-1][0]
                low[u] = min(low[u], low[v])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = st.pop()
                    on.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                out.append(comp)
    out.reverse()
    return out


class Frame:
    __slots__ = ("f", "base", "loc")

    def __init__(self, f, base, loc):
        self.f, self.base, self.loc = f, base, loc


def listed_ns(lt):
    """the namespace a (filtered, cut) storage listing reads"""
    while True:
        if lt.tag == "list" and len(lt.args[0]) == 1:
            lt = lt.args[0][0][2]
        elif lt.tag == "app" and lt.args[0] in ("take", "filter", "rev", "skip"):
            lt = lt.args[1][0]
        else:
            break
    return lt.args[1][0].args[0] if lt.tag == "app" and lt.args[0] in ("srange", "skeys") else None


def stored_items(lt):
    """does the list hold (part of) a storage listing?"""
    while lt.tag == "app" and lt.args[0] in ("take", "filter", "rev", "skip"):
        l = lt.args[1][0]
        if l.tag == "list":
            return bool(l.args[0]) and all(k == "s" and stored_items(x) for c, k, x in l.args[0])
        lt = l
    return lt.tag == "app" and lt.args[0] in ("srange", "skeys")


def negative(x):
    """x < 0; a truncated quotient is negative exactly when the dividend reaches minus the divisor"""
    t = lone(x)
    if t is not None and t.tag == "app" and t.args[0] == "tdiv" and prange(t.args[1][1])[0] > 0:
        n, d = t.args[1]
        return NOT(LT(ZERO, padd(n, d)))
    return LT(x, ZERO)


class Engine:
    def __init__(self, prog, cuts=None, models=None):
        from . import models as M
        self.p = prog
        self.ncell = 0
        self.cuts = cuts or {}
        self.models = M
        self.extra_models = models or {}
        self.bind = self.extra_models.pop("bind", None)
        self.loops = []
        self.flagged = set()
        self.panics = []          # (cond, where)
        self.trace_calls = []     # (depth, name, cond, where)
        self.depth = 0
        self.stack = []
        self.fresh_n = 0
        self.bound = 0
        self.celltype = {}
        self.cellname = {}
        self.stats = {"fns": set(), "blocks": 0, "calls": 0, "opaque": {}}
        self.max_depth = 80
        self.events = []
        self.in_fix = 0
        self.watch = None         # optional callback(engine, fn, args, ctx) on each inlined call
        self.ovf = {}             # overflow atom -> where

    # ---------------------------------------------------------------- values of a type
    def expand(self, ty, t, depth=0):
        """symbolic value of type ty denoted by the atomic term t"""
        p = self.p
        tt = p.types[ty]
        k = tt["k"]
        il = p.intlike(ty)
        if il:
            bits, s = il
            set_range(t, -(1 << (bits - 1)) if s else 0, (1 << (bits - 1)) - 1 if s else (1 << bits) - 1) if t not in RANGES else None
            return as_poly(t)
        if k == "bool":
            return atom_var(t)
        if k == "tuple":
            return struct("tuple" if tt["f"] else "()", *[self.expand(f, mk("proj", t, str(i)), depth + 1) for i, f in enumerate(tt["f"])])
        if k in ("ref", "ptr"):
            e = tt["e"]
            if p.types[e]["k"] == "dyn":
                return mk("ref", t, ())
            return mk("ref", self.expand(e, t, depth), ())
        if k in ("slice", "array"):
            return vlist([(TRUE, "s", t)])
        if k == "str":
            return t
        if k == "adt":
            n = tt["n"]
            if ERRTY.search(n):
                return ERR
            if n in STRINGY:
                return t
            if n.endswith("vec::Vec"):
                return vlist([(TRUE, "s", t)])
            if n.endswith("boxed::Box"):
                return mk("ref", self.expand(tt["a"][0], t, depth), ())
            if n.endswith("::Binary"):
                return struct(n, vlist([(TRUE, "s", t)]))
            if n.endswith(("PhantomData",)):
                return struct(n)
            if depth > 14 or "HashMap" in n or tt["ak"] == "union":
                return t
            if tt["ak"] == "struct":
                fs = tt["v"][0]["f"]
                if len(fs) == 1 and fs[0][0] == "0":
                    return struct(n, self.expand(fs[0][1], t, depth + 1))
                return struct(n, *[self.expand(ft, mk("proj", t, fn), depth + 1) for fn, ft in fs])
            vs = tt["v"]
            alts = []
            rem = TRUE
            for i, v in enumerate(vs):
                if i == len(vs) - 1:
                    c = rem
                else:
                    a = atom_var(mk("isv", t, v["n"]))
                    if len(vs) == 2 and n.endswith(("Option", )):
                        # use a single 'is Some' atom
                        a = NOT(atom_var(mk("isv", t, vs[1]["n"])))
                    c = AND(rem, a)
                    rem = AND(rem, NOT(a))
                alts.append((i, c, tuple(self.expand(ft, mk("proj", t, v["n"] + "." + fn), depth + 1) for fn, ft in v["f"])))
            return enum(n, alts)
        if k == "never":
            return UNDEF
        if k == "fndef":
            return mk("fn", tt["id"], tt["iname"])
        return t

    def sym(self, name, ty):
        return self.expand(ty, mk("sym", name))

    def fresh(self, name, ty=None):
        self.fresh_n += 1
        s = mk("sym", "%s@%d" % (name, self.fresh_n))
        return self.expand(ty, s) if ty is not None else s

    # ---------------------------------------------------------------- memory
    def new_cell(self, ctx, v, name=None, ty=None):
        self.ncell += 1
        c = self.ncell
        ctx.cells[c] = v
        if name:
            self.cellname[c] = name
        if ty is not None:
            self.celltype[c] = ty
        return c

    def base_val(self, ctx, base):
        if isinstance(base, int):
            return ctx.cells.get(base, UNDEF)
        return base

    def get_path(self, ctx, v, path):
        for i, e in enumerate(path):
            v = self.get1(ctx, v, e)
        return v

    def get1(self, ctx, v, e):
        k = e[0]
        if v.tag == "choice":
            return vite(v.args[0], self.get1(ctx, v.args[1], e), self.get1(ctx, v.args[2], e))
        if v.tag in ("undef", "bot"):
            return UNDEF
        if k == "d":
            if v.tag == "enum":
                return mk("dc", e[1], v)
            return mk("dc", e[1], v)
        if k == "f":
            if v.tag == "dc":
                var, en = v.args
                if en.tag == "enum":
                    for vv, c, f in en.args[1]:
                        if vv == var:
                            return f[e[1]]
                    return UNDEF
                return self.expand(e[2], mk("proj", en, "%d.%d" % (var, e[1]))) if en.tag != "ite" else lift(lambda x: self.expand(e[2], mk("proj", x, "%d.%d" % (var, e[1]))), en)
            if v.tag == "struct":
                fs = v.args[1]
                if e[1] < len(fs):
                    return fs[e[1]]
                return UNDEF
            if v.tag == "enum" and len(v.args[1]) == 1:
                return v.args[1][0][2][e[1]]
            if v.tag == "ref" or (v.tag == "ite" and all(x.tag == "ref" for x in leaves(v))):
                return v      # Box / Unique / NonNull internals
            if v.tag == "poly" and len(e) > 2 and self.p.intlike(e[2]):
                return v
            if v.tag == "list":
                return v
            if v.tag in LEAFISH and e[1] == 0 and len(e) > 2:
                at = self.p.types[e[2]]
                if at["k"] == "array" and self.p.intlike(at["e"]) == (64, False) and all(x.tag == "poly" for x in leaves(v)):
                    # the 64-bit limbs of a wide integer, least significant first
                    return vlist([(TRUE, "e", lift(lambda x: self.wrap_leaf(fdiv_leaf(as_poly(x), const(1 << (64 * i))), 64, False), v)) for i in range(at["n"])])
            if v.tag in LEAFISH:
                return lift(lambda x: self.expand(e[2], mk("proj", x, "f%d" % e[1])), v)
            raise Unsupported("field of " + v.tag)
        if k == "i":
            return self.index(v, e[1], e[2] if len(e) > 2 else None)
        if k == "ss":
            frm, to, fe = e[1], e[2], e[3]
            n = self.length(v)
            end = SUB(n, const(to)) if fe else const(to)
            return self.sublist(v, const(frm), end)
        if k == "ci":
            i = const(e[1]) if not e[3] else SUB(self.length(v), const(e[1]))
            return self.index(v, i, e[4] if len(e) > 4 else None)
        if k == "oc":
            return v
        raise Unsupported("path " + str(e))

    def set_path(self, ctx, v, path, new):
        if not path:
            return new
        e = path[0]
        k = e[0]
        if v.tag == "choice":
            return vite(v.args[0], self.set_path(ctx, v.args[1], path, new), self.set_path(ctx, v.args[2], path, new))
        if k == "f":
            if v.tag == "struct":
                fs = list(v.args[1])
                while len(fs) <= e[1]:
                    fs.append(UNDEF)
                fs[e[1]] = self.set_path(ctx, fs[e[1]], path[1:], new)
                return mk("struct", v.args[0], tuple(fs))
            if v.tag == "undef":
                fs = [UNDEF] * (e[1] + 1)
                fs[e[1]] = self.set_path(ctx, UNDEF, path[1:], new)
                return mk("struct", "?", tuple(fs))
            if v.tag == "dc":
                raise Unsupported("set dc")
            if v.tag == "list" or v.tag == "ref":
                return self.set_path(ctx, v, path[1:], new)
            if v.tag == "poly":
                return new
            if v.tag in LEAFISH:
                return UNDEF if len(path) > 1 else mk("app", "setf", (v, e[1], new))
            raise Unsupported("set field of " + v.tag)
        if k == "d":
            var = e[1]
            if v.tag == "enum" and len(path) > 1:
                alts = []
                for vv, c, f in v.args[1]:
                    if vv == var:
                        fs = list(f)
                        fs[path[1][1]] = self.set_path(ctx, fs[path[1][1]], path[2:], new)
                        f = tuple(fs)
                    alts.append((vv, c, f))
                return enum(v.args[0], alts)
            raise Unsupported("set downcast of " + v.tag)
        if k in ("i", "ci"):
            ix = e[1] if k == "i" else const(e[1])
            if len(path) > 1:
                old = self.get1(ctx, v, e)
                new = self.set_path(ctx, old, path[1:], new)
            return self.list_set(v, ix, new)
        raise Unsupported("set path " + str(e))

    def list_set(self, v, ix, new):
        if v.tag == "list" and is_const(ix):
            its = list(v.args[0])
            n = cval(ix)
            if all(x[0] is TRUE and x[1] == "e" for x in its) and 0 <= n < len(its):
                its[n] = (TRUE, "e", new)
                return vlist(its)
        return vlist([(TRUE, "s", mk("app", "listset", (v, ix, new)))])

    def length(self, v):
        if v.tag == "choice":
            return vite(v.args[0], self.length(v.args[1]), self.length(v.args[2]))
        if v.tag in ("str",):
            return const(len(v.args[0].encode()))
        if v.tag == "list":
            r = ZERO
            for c, k, x in v.args[0]:
                if k == "e":
                    n = ONE
                else:
                    pl = piece_len((c, k, x))
                    n = const(pl) if pl is not None else self.length(x)
                r = vite(c, ADD(r, n), r)
            return r
        if v.tag == "app" and v.args[0] == "range":
            s, e = v.args[1]
            return vite(LT(s, e), SUB(e, s), ZERO)
        if v.tag == "app" and v.args[0] in ("rev", "map"):
            return self.length(v.args[1][0])
        return lift(lambda x: as_poly(app("len", x, rng=(0, (1 << 63) - 1))) if x.tag != "str" else const(len(x.args[0].encode())), v)

    def elem(self, lt, ix, ty):
        """element ix of the symbolic list term lt"""
        if lt.tag == "app" and lt.args[0] == "range" and lt.args[1][0].tag != "ite":
            return ADD(lt.args[1][0], ix)
        if lt.tag == "app" and lt.args[0] == "rev" and lt.args[1][0].tag == "app" and lt.args[1][0].args[0] == "range" and lt.args[1][0].args[1][1].tag != "ite":
            return SUB(SUB(lt.args[1][0].args[1][1], ONE), ix)
        if lt.tag == "app" and lt.args[0] == "take":
            l = lt.args[1][0]
            if l.tag == "list" and len(l.args[0]) == 1 and l.args[0][0][:2] == (TRUE, "s"):
                return self.elem(l.args[0][0][2], ix, ty)
        if lt.tag == "app" and lt.args[0] == "enumerate" and ty is not None and len(self.p.types[ty].get("f", ())) == 2:
            l = lt.args[1][0]
            if l.tag == "list" and len(l.args[0]) == 1 and l.args[0][0][:2] == (TRUE, "s"):
                fty = self.p.types[ty]["f"][1]
                if self.p.types[fty]["k"] == "ref":
                    return struct("tuple", ix, mk("ref", self.elem(l.args[0][0][2], ix, self.p.types[fty]["e"]), ()))
                return struct("tuple", ix, self.elem(l.args[0][0][2], ix, fty))
        t = mk("app", "elem", (lt, ix))
        if ty is not None and self.p.types[ty]["k"] == "adt" and self.p.types[ty]["n"].endswith("result::Result") and stored_items(lt):
            # stored records are readable: they are written only through the same typed accessors
            return variant(self.p.types[ty]["n"], 0, self.key_form(lt, self.expand(self.p.types[ty]["a"][0], t)))
        return self.expand(ty, t) if ty is not None else t

    def key_form(self, lt, v):
        """a listed entry of the pools, its key spelled out as the bytes of its length-prefixed parts"""
        if listed_ns(lt) != "pools" or v.tag != "struct" or not v.args[1]:
            return v
        key = v.args[1][0]
        while key.tag == "list" and len(key.args[0]) == 1 and key.args[0][0][1] == "s":
            key = key.args[0][0][2]
        out = []
        for n in ("token_x", "token_y"):
            t = mk("proj", key, n)
            out += [(TRUE, "s", mk("app", "be", (as_poly(app("len", t, rng=(0, 65535))), 2))), (TRUE, "s", t)]
        fee, sp = mk("proj", mk("proj", key, "fee_tier"), "fee"), mk("proj", mk("proj", key, "fee_tier"), "tick_spacing")
        set_range(fee, 0, (1 << 64) - 1)
        set_range(sp, 0, (1 << 16) - 1)
        out += [(TRUE, "s", mk("app", "be", (x, w))) for x, w in ((const(10), 2), (as_poly(fee), 8), (as_poly(sp), 2))]
        return struct(v.args[0], vlist(out), *v.args[1][1:])

    def index(self, v, ix, ty=None):
        if v.tag == "list":
            its = v.args[0]
            if ix.tag == "ite":
                return lift(lambda i: self.index(v, i, ty), ix)
            if is_const(ix):
                n = cval(ix)
                pos = 0
                for c, k, x in its:
                    if c is not TRUE:
                        break
                    if k == "e":
                        if pos == n:
                            return x
                        pos += 1
                    else:
                        pl = piece_len((c, k, x))
                        if len(its) == 1:
                            return self.elem(x, const(n), ty)
                        if pl is None:
                            if pos == n or True:
                                break
                        if n < pos + pl:
                            return self.elem(x, const(n - pos), ty)
                        pos += pl
                if len(its) <= 8 and all(k == "e" for c, k, x in its):
                    # entries present under conditions: the n-th of those present
                    cnt, r = {0: TRUE}, None
                    for c, k, x in its:
                        if n in cnt:
                            g = AND(cnt[n], c)
                            if g is not FALSE:
                                r = x if r is None else vite(g, x, r)
                        nxt = {}
                        for j, g in cnt.items():
                            for m, h in ((j, AND(g, NOT(c))), (j + 1, AND(g, c))):
                                if h is not FALSE:
                                    nxt[m] = OR(nxt.get(m, FALSE), h)
                        cnt = nxt
                    if r is not None:
                        return r
            if len(its) == 1 and its[0][0] is TRUE and its[0][1] == "s":
                return self.elem(its[0][2], ix, ty)
            # a position at a fixed offset from a piece boundary
            pos = ZERO
            for it in its[:12]:
                if it[0] is not TRUE or pos.tag != "poly":
                    break
                d, pl = padd(as_poly(ix), pos, -1), piece_len(it)
                if pl is not None and is_const(d) and 0 <= cval(d) < pl:
                    return it[2] if it[1] == "e" else self.elem(it[2], d, ty)
                pos = ADD(pos, self.length(vlist([it])))
            return self.elem(v, ix, ty)
        return lift(lambda x, i: self.elem(x, i, ty), v, ix)

    def sublist(self, v, a, b):
        if v.tag != "list":
            v = vlist([(TRUE, "s", v)])
        if a is ZERO and b is self.length(v):
            return v
        its = v.args[0]
        if is_const(a) and all(x[0] is TRUE for x in its):
            pos, i = 0, 0
            A = cval(a)
            out = None
            # find aligned start
            while i <= len(its):
                if pos == A:
                    out = i
                    break
                if i == len(its):
                    break
                pl = piece_len(its[i])
                if pl is None:
                    break
                pos += pl
                i += 1
            if out is not None:
                if b is self.length(v):
                    return vlist(its[out:])
                if is_const(b):
                    B = cval(b)
                    j = out
                    while j < len(its) and pos < B:
                        pl = piece_len(its[j])
                        if pl is None:
                            break
                        pos += pl
                        j += 1
                    if pos == B:
                        return vlist(its[out:j])
        if all(x[0] is TRUE for x in its) and len(its) <= 12:
            # symbolic piece boundaries
            off, offs = ZERO, [ZERO]
            for x in its:
                off = ADD(off, self.length(vlist([x])))
                offs.append(off)
            if a in offs and b in offs:
                i, j = offs.index(a), len(offs) - 1 - offs[::-1].index(b)
                if i <= j:
                    return vlist(its[i:j])
        src = its[0][2] if len(its) == 1 and its[0][1] == "s" and its[0][0] is TRUE else v
        if a is ZERO and b is self.length(v):
            return v
        return vlist([(TRUE, "s", mk("app", "slice", (src, a, b)))])

    # places -----------------------------------------------------------
    def resolve(self, ctx, fr, pl):
        """-> list of (cond, base, path)"""
        alts = [(TRUE, fr.loc[pl[0]], ())]
        for e in pl[1]:
            if e == "*":
                out = []
                for c, b, path in alts:
                    v = self.get_path(ctx, self.base_val(ctx, b), path)
                    out += [(AND(c, c2), b2, p2) for c2, b2, p2 in self.deref(ctx, v)]
                alts = [a for a in out if a[0] is not FALSE]
            else:
                if e[0] == "i":
                    ix = ctx.cells[fr.loc[e[1]]]
                    e = ("i", ix)
                else:
                    e = tuple(e)
                alts = [(c, b, path + (e,)) for c, b, path in alts]
        return alts

    def deref(self, ctx, v):
        if v.tag == "ref":
            return [(TRUE, v.args[0], v.args[1])]
        if v.tag == "ite":
            out = {}

            def go(x, c):
                if x.tag == "ite":
                    a = node(x.args[0], TRUE, FALSE)
                    go(x.args[1], AND(c, a))
                    go(x.args[2], AND(c, NOT(a)))
                elif x.tag == "ref":
                    out[x] = OR(out.get(x, FALSE), c)
                elif x.tag in ("undef", "bot"):
                    pass
                else:
                    out[mk("ref", x, ())] = OR(out.get(mk("ref", x, ()), FALSE), c)

            if dd_size(v) > 200:
                raise Unsupported("large gated ref")
            go(v, TRUE)
            return [(c, r.args[0], r.args[1]) for r, c in out.items()]
        if v.tag == "choice":
            return [(AND(v.args[0], c), b, p) for c, b, p in self.deref(ctx, v.args[1])] + \
                   [(AND(NOT(v.args[0]), c), b, p) for c, b, p in self.deref(ctx, v.args[2])]
        if v.tag in ("undef", "bot"):
            return []
        # a value standing for its own reference (transparent reference)
        return [(TRUE, v, ())]

    def elem_ty_of_place(self, fr, pl):
        return None

    def place_type(self, fr, pl):
        ty = fr.f["locals"][pl[0]]
        var = None
        for e in pl[1]:
            t = self.p.types[ty]
            if e == "*":
                if t["k"] in ("ref", "ptr"):
                    ty = t["e"]
                elif t["k"] == "adt" and t["a"]:
                    ty = t["a"][0]
            elif e[0] == "f":
                ty = e[2]
            elif e[0] in ("i", "ci"):
                ty = t.get("e", ty)
        return ty

    def read_place(self, ctx, fr, pl):
        alts = self.resolve(ctx, fr, pl)
        # element typing for index projections
        r = None
        for c, b, path in alts:
            if any(e[0] in ("i", "ci") for e in path):
                path = self.type_path(fr, pl, path)
            v = self.get_path(ctx, self.base_val(ctx, b), path)
            if v.tag == "dc":
                v = v.args[1]
            r = v if r is None else vite(c, v, r)
        if r is not None and self.flagged and r.tag == "ite" and any(x in self.flagged for x in support(r)):
            r = vrestrict(r, ctx.pc)
        return UNDEF if r is None else r

    def type_path(self, fr, pl, path):
        """annotate trailing index projections with the element type"""
        ty = self.place_type(fr, pl)
        last = None
        for i, e in enumerate(path):
            if e[0] in ("i", "ci"):
                last = i
        out = list(path)
        # type after the last index, before later fields: recompute by walking the MIR place
        t = fr.f["locals"][pl[0]]
        ety = None
        for e in pl[1]:
            tt = self.p.types[t]
            if e == "*":
                t = tt["e"] if tt["k"] in ("ref", "ptr") else (tt["a"][0] if tt.get("a") else t)
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "ci"):
                t = tt.get("e", t)
                ety = t
        e = out[last]
        if ety is not None:
            if e[0] == "i" and len(e) < 3:
                out[last] = ("i", e[1], ety)
            elif e[0] == "ci" and len(e) < 5:
                out[last] = e + (ety,)
        return tuple(out)

    def read_ref(self, ctx, v):
        """value behind a reference value"""
        r = None
        for c, b, path in self.deref(ctx, v):
            x = self.get_path(ctx, self.base_val(ctx, b), path)
            if x.tag == "dc":
                x = x.args[1]
            r = x if r is None else vite(c, x, r)
        return UNDEF if r is None else r

    def write_alts(self, ctx, alts, new):
        for c, b, path in alts:
            if not isinstance(b, int):
                continue  # write through a symbolic shared reference: cannot happen in safe code
            old = ctx.cells.get(b, UNDEF)
            nv = self.set_path(ctx, old, path, new)
            if c is not TRUE and len(alts) > 1:
                nv = vite(c, nv, old)
            ctx.cells[b] = nv

    def write_ref(self, ctx, ref, new):
        self.write_alts(ctx, self.deref(ctx, ref), new)

    def deep(self, ctx, v, d=0):
        """replace references by the values they point to"""
        if d > 30:
            return v
        if v.tag == "ref":
            return self.deep(ctx, self.read_ref(ctx, v), d + 1)
        if v.tag == "ite":
            if any(x.tag == "ref" for x in leaves(v)):
                return self.deep(ctx, self.read_ref(ctx, v), d + 1)
            return v
        if v.tag == "struct":
            fs = tuple(self.deep(ctx, x, d + 1) for x in v.args[1])
            return v if fs == v.args[1] else mk("struct", v.args[0], fs)
        if v.tag == "enum":
            return enum(v.args[0], [(k, c, tuple(self.deep(ctx, x, d + 1) for x in f)) for k, c, f in v.args[1]])
        if v.tag == "list":
            return vlist([(c, k, self.deep(ctx, x, d + 1)) for c, k, x in v.args[0]])
        if v.tag == "choice":
            return vite(v.args[0], self.deep(ctx, v.args[1], d + 1), self.deep(ctx, v.args[2], d + 1))
        return v

    # ---------------------------------------------------------------- constants / operands
    def const_val(self, ty, c):
        p = self.p
        t = p.types[ty]
        if "i" in c:
            return const(int(c["i"]))
        if "b" in c:
            return TRUE if c["b"] else FALSE
        if "s" in c:
            return mk("str", c["s"])
        if t["k"] == "fndef":
            return mk("fn", t["id"], t["iname"])
        if t["k"] == "closure" and "z" in c:
            return mk("struct", "closure:%d" % ty, ())
        if "z" in c:
            if t["k"] == "tuple" and not t["f"]:
                return UNIT
            if t["k"] == "adt":
                if ERRTY.search(t["n"]):
                    return ERR
                if t["ak"] == "enum":
                    return variant(t["n"], 0)
                if t["n"].endswith("PhantomData"):
                    return struct(t["n"])
                return struct(t["n"], *[self.const_val(ft, {"z": 1}) for _, ft in t["v"][0]["f"]]) if t["v"] else struct(t["n"])
            if t["k"] == "array":
                return vlist([])
            return UNIT
        if "t" in c:
            return struct("tuple", *[self.const_val(f, x) for f, x in zip(t["f"], c["t"])])
        if "arr" in c:
            e = t["e"]
            return vlist([(TRUE, "e", self.const_val(e, x)) for x in c["arr"]])
        if "adt" in c:
            il = p.intlike(ty)
            if il:
                v = 0
                for i, limb in enumerate(c["f"][0]["arr"]):
                    v |= int(limb["i"]) << (64 * i)
                return const(v)
            if ERRTY.search(t["n"]):
                return ERR
            vs = t["v"][c["adt"]]["f"]
            if t["n"].endswith(("vec::Vec",)):
                return vlist([])
            if t["n"] in STRINGY:
                return mk("str", "")
            fs = [self.const_val(ft, x) for (_, ft), x in zip(vs, c["f"])]
            if t["ak"] == "enum":
                return variant(t["n"], c["adt"], *fs)
            return struct(t["n"], *fs)
        if "ref" in c:
            return mk("ref", self.const_val(t["e"], c["ref"]), ())
        if "fnptr" in c:
            return mk("fn", c["fnptr"], self.p.fns[c["fnptr"]]["name"] if c["fnptr"] in self.p.fns else "?")
        return mk("app", "const", (p.tname(ty), json.dumps(c)))

    def operand(self, ctx, fr, o):
        k = o[0]
        if k in ("c", "m"):
            return self.read_place(ctx, fr, o[1])
        if k == "k":
            return self.const_val(o[1], o[2])
        return FALSE  # runtime checks are compiled out

    def op_type(self, fr, o):
        if o[0] in ("c", "m"):
            return self.place_type(fr, o[1])
        if o[0] == "k":
            return o[1]
        return None

    # ---------------------------------------------------------------- arithmetic
    def rng_of(self, bits, s):
        return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if s else (0, (1 << bits) - 1)

    def ovf_leaf(self, p, bits, s, where=None):
        lo, hi = self.rng_of(bits, s)
        if is_const(p):
            return FALSE if lo <= cval(p) <= hi else TRUE
        a, b = prange(p)
        r = FALSE
        if not s:
            if a < 0:
                r = plt0(p)
            if b > hi:
                r = OR(r, atom_var(mk("ovf", p, bits)))
        else:
            if a < lo or b > hi:
                r = atom_var(mk("ovf", p, -bits))
        return r

    def flag_wrapped(self, o):
        """the overflow flag of an operation that goes on with the wrapped result"""
        for v in sorted(support(o)):
            t = ATOMS[v]
            if t.tag == "ovf" and len(t.args) == 2:
                w = atom_var(mk("ovf", t.args[0], t.args[1], "w"))
                self.flagged |= support(w)
                o = vite(w, cofactor(o, {v: True}), cofactor(o, {v: False}))
        return o

    def ovf_cond(self, v, bits, s):
        return lift(lambda x: self.ovf_leaf(as_poly(x), bits, s), v)

    def wrap_leaf(self, p, bits, s):
        lo, hi = self.rng_of(bits, s)
        if is_const(p):
            v = cval(p) & ((1 << bits) - 1)
            if s and v >> (bits - 1):
                v -= 1 << bits
            return const(v)
        a, b = prange(p)
        if lo <= a and b <= hi:
            return p
        # reduce coefficients and inner wraps modulo 2^bits
        d = {}
        M = 1 << bits
        todo = list(p.args[0])
        while todo:
            m, c = todo.pop()
            if len(m) == 1 and m[0].tag == "app" and m[0].args[0] == "wrap" and m[0].args[1][1] >= bits:
                for m2, c2 in m[0].args[1][0].args[0]:
                    todo.append((m2, c2 * c))
                continue
            d[m] = (d.get(m, 0) + c) % M
        for m in d:
            if d[m] > M // 2:
                d[m] -= M
        p2 = poly(d)
        a, b = prange(p2)
        if lo <= a and b <= hi:
            return p2
        return as_poly(app("wrap", p2, bits, 1 if s else 0, rng=(lo, hi)))

    def wrap(self, v, bits, s):
        return lift(lambda x: self.wrap_leaf(as_poly(x), bits, s), v)

    def from_limbs(self, l):
        """the integer made of 64-bit limbs, least significant first"""
        if not all(c is TRUE and k == "e" for c, k, v in l.args[0]) or not l.args[0]:
            return None

        def leaf(*xs):
            xs = [as_poly(x) for x in xs]
            n = len(xs)
            cands = [xs[0]]
            for i in range(1, n):
                t = xs[i]
                m = t.args[0]
                if len(m) == 1 and m[0][1] == 1 and len(m[0][0]) == 1 and m[0][0][0].tag == "app" and m[0][0][0].args[0] == "wrap":
                    t = as_poly(m[0][0][0].args[1][0])
                    m = t.args[0]
                if len(m) == 1 and m[0][1] == 1 and len(m[0][0]) == 1 and m[0][0][0].tag == "app" and m[0][0][0].args[0] == "fdiv":
                    a, d = m[0][0][0].args[1]
                    cands.append(fdiv_leaf(pscale(a, 1 << (64 * i)), d))
            m = xs[0].args[0]
            if len(m) == 1 and m[0][1] == 1 and len(m[0][0]) == 1 and m[0][0][0].tag == "app" and m[0][0][0].args[0] == "wrap":
                cands.append(as_poly(m[0][0][0].args[1][0]))
            for v in cands:
                # negative values are excluded by the unsigned type the limbs were taken from
                top = False
                for i in range(n):
                    q = fdiv_leaf(v, const(1 << (64 * i)))
                    if top:
                        if xs[i] is not ZERO:
                            break
                    elif self.wrap_leaf(q, 64, False) is not xs[i]:
                        break
                    top = top or prange(q)[1] < 1 << 64
                else:
                    if top:
                        return v
                    b = 64 * n
                    return vite(EQI(fdiv_leaf(v, const(1 << b)), ZERO), v, self.wrap_leaf(v, b, False))
            r = ZERO
            for i, x in enumerate(xs):
                r = padd(r, pscale(x, 1 << (64 * i)))
            return r
        return lift(leaf, *[v for c, k, v in l.args[0]])

    def bitop(self, op, a, b, bits, s):
        def leaf(x, y):
            if is_bool(x) and is_bool(y):
                return AND(x, y) if op == "BitAnd" else OR(x, y) if op == "BitOr" else NOT(IFF(x, y))
            x, y = as_poly(x), as_poly(y)
            if is_const(x) and is_const(y):
                u, w = cval(x), cval(y)
                return const(u & w if op == "BitAnd" else u | w if op == "BitOr" else u ^ w)
            if op == "BitAnd":
                for u, w in ((x, y), (y, x)):
                    if is_const(u):
                        k = cval(u)
                        if k == 0:
                            return ZERO
                        if k > 0 and (k & (k - 1)) == 0 and k < 1 << (bits - 1):
                            return bit_op("and", w, const(k.bit_length() - 1), (1 << bits) - 1)
                        if k > 0 and (k & (k + 1)) == 0:      # low mask
                            if prange(w)[0] >= 0:
                                if prange(w)[1] <= k:
                                    return w
                                return mod_leaf(w, const(k + 1))
                            if s and prange(w)[1] >= 0:
                                u = as_poly(app("lowbits", w, k + 1, rng=(0, k)))
                                return vite(negative(w), u, mod_leaf(w, const(k + 1)))
            if op in ("BitOr", "BitXor"):
                if x is ZERO:
                    return y
                if y is ZERO:
                    return x
            if not s:
                full = (1 << bits) - 1
                for u, w in ((x, y), (y, x)):
                    k = as_pow2(w)
                    if k is not None:
                        return bit_op({"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[op], u, k, full)
                    k = as_pow2(padd(const(full), w, -1))
                    if k is not None and op == "BitAnd":
                        return bit_op("andnot", u, k, full)
                    k = as_pow2(padd(w, ONE))
                    if k is not None and op == "BitAnd":
                        return mod_leaf(u, pow2(k, 256))
            if x is y:
                return ZERO if op == "BitXor" else x
            if x.id > y.id:
                x, y = y, x
            hi = max(prange(x)[1], prange(y)[1])
            rng = self.rng_of(bits, s)
            if not s and op == "BitAnd":
                rng = (0, min(prange(x)[1], prange(y)[1]))
            elif not s and hi != INF:
                rng = (0, (1 << int(hi).bit_length()) - 1)
            return as_poly(app({"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[op], x, y, rng=rng))
        if is_bool(a) and is_bool(b):
            return AND(a, b) if op == "BitAnd" else OR(a, b) if op == "BitOr" else NOT(IFF(a, b))
        return lift(leaf, a, b)

    def shl(self, a, n, bits, s):
        def leaf(x, k):
            x, k = as_poly(x), as_poly(k)
            if is_const(k):
                j = as_pow2(x)
                if j is not None and not s and prange(j)[1] + cval(k) < bits:
                    return pow2(padd(j, k), bits)
                if j is not None and not s and prange(j)[0] >= 0:
                    # a bit shifted out is lost
                    return vite(plt0(padd(padd(j, k), const(-bits))), pow2(padd(j, k), bits), ZERO)
                return self.wrap_leaf(pscale(x, 1 << cval(k)), bits, s)
            if not s and x is ONE:
                return pow2(k, bits)
            return as_poly(app("shl", x, k, bits, rng=self.rng_of(bits, s)))
        return lift(leaf, a, n)

    def shr(self, a, n, bits, s):
        def leaf(x, k):
            x, k = as_poly(x), as_poly(k)
            if is_const(k):
                q = fdiv_leaf(x, const(1 << cval(k)), False)
                if s and prange(x)[0] < 0 and prange(x)[1] >= 0:
                    # an arithmetic shift agrees with the truncating division for non-negative values
                    return vite(negative(x), q, fdiv_leaf(x, const(1 << cval(k)), True))
                t = lone(q)
                if not s and t is not None and t.tag == "app" and t.args[0] == "fdiv" and cval(k) < bits and trange(t)[1] >= 1 << (bits - cval(k)):
                    # the shifted value fits its type
                    set_range(t, max(trange(t)[0], 0), (1 << (bits - cval(k))) - 1)
                    from . import terms
                    terms._pr_memo.pop(q, None)
                return q
            if x is ZERO:
                return ZERO
            if prange(x)[0] >= 0:
                return fdiv_leaf(x, pow2(k, bits))
            return as_poly(app("shr", x, k, rng=(min(0, prange(x)[0]), max(prange(x)[1], 0))))
        return lift(leaf, a, n)

    def three_way(self, a, b):
        eq = EQI(a, b)
        lt = LT(a, b)
        return enum("Ordering", [(0, lt, ()), (1, eq, ()), (2, AND(NOT(eq), NOT(lt)), ())])

    def binop(self, ctx, op, a, b, ta):
        il = self.p.intlike(ta) if ta is not None else None
        tk = self.p.types[ta]["k"] if ta is not None else None
        if op in ("Eq", "Ne"):
            r = eqv(self.deep(ctx, a), self.deep(ctx, b)) if tk in ("ref", "ptr") else eqv(a, b)
            return r if op == "Eq" else NOT(r)
        if op in ("Lt", "Le", "Gt", "Ge"):
            if is_bool(a) or is_bool(b):
                lt = AND(NOT(a), b)
                gt = AND(a, NOT(b))
                return {"Lt": lt, "Le": NOT(gt), "Gt": gt, "Ge": NOT(lt)}[op]
            if op == "Lt":
                return LT(a, b)
            if op == "Gt":
                return LT(b, a)
            if op == "Le":
                return NOT(LT(b, a))
            return NOT(LT(a, b))
        if op == "Cmp":
            return self.three_way(a, b)
        if op in ("BitAnd", "BitOr", "BitXor"):
            bits, s = il or (1, False)
            return self.bitop(op, a, b, bits, s)
        if not il:
            if tk == "float":
                return mk("app", "f" + op, (a, b))
            return mk("app", op, (a, b))
        bits, s = il
        op0 = op.replace("Unchecked", "")
        if op0 == "Add":
            return self.wrap(ADD(a, b), bits, s) if op == op0 else ADD(a, b)
        if op0 == "Sub":
            return self.wrap(SUB(a, b), bits, s) if op == op0 else SUB(a, b)
        if op0 == "Mul":
            return self.wrap(MUL(a, b), bits, s) if op == op0 else MUL(a, b)
        if op == "Div":
            return DIV(a, b, s)
        if op == "Rem":
            return REM(a, b)
        if op0 == "Shl":
            return self.shl(a, b, bits, s)
        if op0 == "Shr":
            return self.shr(a, b, bits, s)
        raise Unsupported("binop " + op)

    def checked(self, op, a, b, bits, s):
        """exact result and overflow condition"""
        r = {"Add": ADD, "Sub": SUB, "Mul": MUL}[op](a, b)
        return r, self.ovf_cond(r, bits, s)

    def cast(self, ctx, fr, kind, v, fty, tty):
        p = self.p
        if kind == "IntToInt":
            il = p.intlike(tty)
            if is_bool(v):
                return ite(v, ONE, ZERO)
            if v.tag == "enum":
                v = self.discr(v, fty)
            if il:
                lo, hi = self.rng_of(*il)

                def leaf(x):
                    x = as_poly(x)
                    r = self.wrap_leaf(x, *il)
                    a, b = prange(x)
                    if r is not x and a < lo and b <= hi and len(x.args[0]) <= 2 and implies(ctx.pc, NOT(LT(x, const(lo)))):
                        return x        # known not to be below the range here
                    return r
                return lift(leaf, v)
            return v
        if kind.startswith("PointerCoercion"):
            if "ClosureFnPointer" in kind or "ReifyFnPointer" in kind:
                return v
            return v
        if kind in ("IntToFloat", "FloatToInt", "FloatToFloat"):
            r = mk("app", kind, (v,))
            return self.expand(tty, r)
        return v

    def discr(self, v, ty):
        vs = self.p.types[ty].get("v", [])
        if v.tag == "choice":
            return vite(v.args[0], self.discr(v.args[1], ty), self.discr(v.args[2], ty))
        if v.tag == "enum":
            r = None
            for k, c, f in v.args[1]:
                d = const(int(vs[k]["d"])) if k < len(vs) else const(k)
                if len(vs) == 3 and vs[0]["d"] == "255":
                    d = const(k - 1)          # Ordering: -1, 0, 1
                r = d if r is None else ite(c, d, r)
            return r if r is not None else UNDEF
        if v.tag in ("undef", "bot"):
            return UNDEF
        return lift(lambda x: as_poly(app("discr", x, rng=(0, 255))), v)

    # ---------------------------------------------------------------- statements
    def rvalue(self, ctx, fr, r, dty):
        k = r[0]
        p = self.p
        if k == "use":
            return self.operand(ctx, fr, r[1])
        if k == "ref":
            alts = self.resolve(ctx, fr, r[2])
            out = None
            for c, b, path in alts:
                if any(e[0] in ("i", "ci") for e in path) and any(e != "*" and e[0] in ("i", "ci") for e in r[2][1]):
                    path = self.type_path(fr, r[2], path)
                x = mk("ref", b, path)
                out = x if out is None else ite(c, x, out)
            return out if out is not None else UNDEF
        if k == "bin":
            return self.binop(ctx, r[1], self.operand(ctx, fr, r[2]), self.operand(ctx, fr, r[3]), self.op_type(fr, r[2]))
        if k == "chk":
            a, b = self.operand(ctx, fr, r[2]), self.operand(ctx, fr, r[3])
            bits, s = p.intlike(self.op_type(fr, r[2]))
            v, o = self.checked(r[1], a, b, bits, s)
            return struct("tuple", v, o)
        if k == "un":
            a = self.operand(ctx, fr, r[2])
            if r[1] == "Not":
                if is_bool(a):
                    return NOT(a)
                bits, s = p.intlike(self.op_type(fr, r[2]))
                return SUB(const(-1), a) if s else SUB(const((1 << bits) - 1), a)
            if r[1] == "Neg":
                il = p.intlike(self.op_type(fr, r[2]))
                if not il:
                    return mk("app", "fneg", (a,))
                return self.wrap(SUB(ZERO, a), *il)
            return self.length(self.read_ref(ctx, a))     # PtrMetadata
        if k == "cast":
            return self.cast(ctx, fr, r[1], self.operand(ctx, fr, r[2]), self.op_type(fr, r[2]), r[3])
        if k == "discr":
            return self.discr(self.read_place(ctx, fr, r[1]), self.place_type(fr, r[1]))
        if k == "len":
            return self.length(self.read_place(ctx, fr, r[1]))
        if k == "rep":
            v = self.operand(ctx, fr, r[1])
            if 0 <= r[2] <= 64:
                return vlist([(TRUE, "e", v)] * r[2])
            return vlist([(TRUE, "s", mk("app", "repeat", (v, r[2])))])
        if k == "agg":
            ops = [self.operand(ctx, fr, o) for o in r[2]]
            a = r[1]
            if a[0] == "tuple":
                return struct("tuple" if ops else "()", *ops)
            if a[0] == "array":
                return vlist([(TRUE, "e", x) for x in ops])
            if a[0] == "closure":
                return mk("struct", "closure:%d" % a[1], tuple(ops))
            if a[0] == "adt":
                t = p.types[a[1]]
                if ERRTY.search(t["n"]):
                    return ERR
                if t["n"] in STRINGY:
                    return ops[0]
                if t["ak"] == "enum":
                    return variant(t["n"], a[2], *ops)
                if p.intlike(a[1]) and len(ops) == 1 and ops[0].tag == "list":
                    v = self.from_limbs(ops[0])
                    if v is not None:
                        return v
                return struct(t["n"], *ops)
            return mk("app", "agg", tuple(ops))
        raise Unsupported("rvalue " + k)

    def where(self, fr, b):
        blk = fr.f["blocks"][b]
        return "%s:%s" % (blk[3] if len(blk) > 3 else fr.f["file"], blk[2])

    # ---------------------------------------------------------------- control flow
    def merge(self, lst):
        """join dataflow facts arriving over several edges"""
        lst = [x for x in lst if x.pc is not FALSE]
        if not lst:
            return None
        if len(lst) == 1:
            return lst[0].copy()
        acc = lst[0].copy()
        for o in lst[1:]:
            pc = OR(acc.pc, o.pc)
            c = restrict(acc.pc, pc)
            cells = acc.cells
            for k in cells:
                # a namespace first touched on one side still has its initial contents on the other
                if isinstance(k, tuple) and k not in o.cells:
                    o.cells[k] = untouched_cell(k)
            for k, v in o.cells.items():
                u = cells.get(k)
                if u is None and isinstance(k, tuple):
                    u = untouched_cell(k)
                if u is None:
                    cells[k] = v
                elif u is not v:
                    m = vite(c, u, v)
                    cells[k] = m
            acc.pc = pc
        return acc

    def run_region(self, fr, nodes, entry, ctx):
        """analyse the sub-graph `nodes` from entry; returns {target: [Ctx]} for edges leaving it (edges back to
        entry included); key 'ret' collects function returns"""
        succ = self.p.cfg(fr.f)

        def inner(n):
            return [s for s in succ[n] if s != entry]
        comps = sccs(nodes, inner, entry)
        inc = {entry: [ctx]}
        exits = {}

        def send(t, c):
            if c.pc is FALSE:
                return
            if t in nodes and t != entry:
                inc.setdefault(t, []).append(c)
            else:
                exits.setdefault(t, []).append(c)
        for comp in comps:
            if len(comp) == 1 and comp[0] not in inner(comp[0]):
                n = comp[0]
                if n not in inc:
                    continue
                st = self.merge(inc.pop(n))
                if st is None:
                    continue
                for t, c in self.block(fr, n, st):
                    send(t, c)
            else:
                cs = set(comp)
                heads = [n for n in comp if n in inc]
                if not heads:
                    continue
                if len(heads) > 1:
                    raise Unsupported("irreducible loop in " + fr.f["def"])
                st = self.merge(inc.pop(heads[0]))
                if st is None:
                    continue
                ex = self.loop(fr, cs, heads[0], st)
                for t, cl in ex.items():
                    for c in cl:
                        if t == "ret":
                            exits.setdefault("ret", []).append(c)
                        else:
                            send(t, c)
        return exits

    def block(self, fr, n, ctx):
        f = fr.f
        b = f["blocks"][n]
        self.stats["blocks"] += 1
        for pl, rv, ln in b[0]:
            v = self.rvalue(ctx, fr, rv, None)
            if not pl[1]:
                ctx.cells[fr.loc[pl[0]]] = v
            else:
                alts = self.resolve(ctx, fr, pl)
                self.write_alts(ctx, alts, v)
        t = b[1]
        k = t[0]
        if k == "goto" or k == "drop":
            return [(t[1], ctx)]
        if k == "ret":
            return [("ret", ctx)]
        if k in ("unreach", "resume"):
            return []
        if k == "switch":
            v = self.operand(ctx, fr, t[1])
            out = []
            rest = ctx.pc
            ty = self.op_type(fr, t[1])
            v = restrict(v, ctx.pc) if v.tag == "ite" else v
            if v.tag in ("undef", "bot"):
                return []
            for val, tgt in t[2]:
                val = int(val)
                if is_bool(v):
                    c = v if val else NOT(v)
                else:
                    il = self.p.intlike(ty)
                    cands = [val]
                    if il and il[1] and val >> (il[0] - 1):
                        cands.append(val - (1 << il[0]))
                    if il and il[1]:
                        cands.append(val - (1 << 128) if val >> 127 else val)
                    c = FALSE
                    for x in set(cands):
                        c = OR(c, EQI(v, const(x)))
                        # enum discriminants are printed as 128-bit patterns
                        c = OR(c, EQI(v, const(x + (1 << 128)))) if x < 0 else c
                c2 = AND(rest, c)
                if c2 is not FALSE:
                    n2 = ctx.copy()
                    n2.pc = c2
                    out.append((tgt, n2))
                rest = AND(rest, NOT(c))
            if rest is not FALSE:
                ctx.pc = rest
                out.append((t[3], ctx))
            # merge duplicate targets
            return out
        if k == "assert":
            c = self.operand(ctx, fr, t[1])
            if not is_bool(c):
                return [(t[4], ctx)]
            ok = c if t[2] else NOT(c)
            bad = AND(ctx.pc, NOT(ok))
            if bad is not FALSE:
                self.panics.append((bad, t[3], self.where(fr, n), f["def"]))
            ctx.pc = AND(ctx.pc, ok)
            return [(t[4], ctx)] if ctx.pc is not FALSE else []
        if k == "call":
            args = [self.operand(ctx, fr, a) for a in t[2]]
            fv = self.operand(ctx, fr, t[1])
            where = self.where(fr, n)
            fty = self.op_type(fr, t[1])
            dty = self.place_type(fr, t[3])
            atys = [self.op_type(fr, a) for a in t[2]]
            r = self.call(ctx, fv, args, dty, where, fr, atys)
            if ctx.pc is FALSE or r is None or t[4] < 0:
                return []
            if not t[3][1]:
                ctx.cells[fr.loc[t[3][0]]] = r
            else:
                self.write_alts(ctx, self.resolve(ctx, fr, t[3]), r)
            return [(t[4], ctx)]
        raise Unsupported(k)

    # ---------------------------------------------------------------- calls
    def call(self, ctx, fv, args, dty, where, fr, atys=None):
        """value of a call; updates ctx (None: never returns)"""
        if fv.tag == "fn":
            fid, name = fv.args
            return self.call_fn(ctx, fid, name, args, dty, where, fr, atys)
        if fv.tag == "struct" and fv.args[0].startswith("closure:"):
            return self.call_closure(ctx, fv, args, dty, where, fr)
        while fv.tag == "ref":
            fv = self.read_ref(ctx, fv)
        r = self.one_of(ctx, fv, lambda c, x: self.call(c, x, args, dty, where, fr, atys))
        if r is not NotImplemented:
            return r
        raise Unsupported("call of a function value that is not known")

    def one_of(self, ctx, fv, fn):
        """run fn with each of the functions the value may be, each under its condition"""
        if fv.tag == "choice":
            c, x, y = fv.args
        elif fv.tag == "ite":
            c, x, y = atom_var(ATOMS[fv.args[0]]), fv.args[1], fv.args[2]
        else:
            return NotImplemented
        from .models import Ctx2
        c1, c2 = Ctx2(ctx, c), Ctx2(ctx, NOT(c))
        r1 = fn(c1, x) if c1.pc is not FALSE else None
        r2 = fn(c2, y) if c2.pc is not FALSE else None
        for k in set(c1.cells) | set(c2.cells):
            u, v = c1.cells.get(k), c2.cells.get(k)
            if isinstance(k, tuple):
                u, v = (untouched_cell(k) if u is None else u), (untouched_cell(k) if v is None else v)
            ctx.cells[k] = u if v is None or v is u or r2 is None else v if u is None or r1 is None else vite(c, u, v)
        ctx.pc = OR(c1.pc if r1 is not None else FALSE, c2.pc if r2 is not None else FALSE)
        if r1 is None or r2 is None:
            return r1 if r2 is None else r2
        return vite(c, r1, r2)

    def call_closure(self, ctx, clo, argvals, dty, where, fr):
        """clo: closure value, fn item or a reference to one; argvals: list of (untupled) arguments"""
        while clo.tag == "ref":
            inner = self.read_ref(ctx, clo)
            if inner.tag == "struct" and inner.args[0].startswith("closure:"):
                break
            clo = inner
        base = self.read_ref(ctx, clo) if clo.tag == "ref" else clo
        if base.tag == "fn":
            return self.call_fn(ctx, base.args[0], base.args[1], argvals, dty, where, fr, None)
        if base.tag != "struct" or not base.args[0].startswith("closure:"):
            r = self.one_of(ctx, base, lambda c, x: self.call_closure(c, x, argvals, dty, where, fr))
            if r is not NotImplemented:
                return r
            raise Unsupported("call of a function value that is not known")
        ty = self.p.types[int(base.args[0].split(":")[1])]
        f = self.p.fns.get(ty["fn"]) or {}
        if "blocks" not in f:
            f = self.p.fns.get(ty["once"]) or {}
        if "blocks" not in f:
            raise Unsupported("closure body missing " + ty["n"])
        l1 = self.p.types[f["locals"][1]]
        if l1["k"] == "ref":
            if clo.tag != "ref":
                clo = mk("ref", self.new_cell(ctx, clo), ())
            me = clo
        else:
            me = base
        return self.inline(ctx, f, [me] + list(argvals), where)

    def call_fn(self, ctx, fid, name, args, dty, where, fr, atys):
        f = self.p.fns.get(fid)
        self.stats["calls"] += 1
        if f is None:
            f = {"def": name, "name": name, "crate": "?", "kind": "?", "targs": []}
        d = f["def"]
        if d in self.cuts or f["name"] in self.cuts:
            return self.do_cut(ctx, self.cuts.get(d) or self.cuts.get(f["name"]), f, args, dty, where)
        m = self.extra_models.get(d)
        if m is not None:
            return m(self, ctx, f, args, dty, where, fr)
        m = self.models.lookup(d, f)
        if m is not None:
            r = m(self, ctx, f, args, dty, where, fr)
            if r is not NotImplemented:
                return r
        if "blocks" in f:
            if re.search(r"\{closure#\d+\}$", d) and len(args) == 2:
                tup = args[1]
                if tup.tag == "struct":
                    me = args[0]
                    l1 = self.p.types[f["locals"][1]]
                    if l1["k"] == "ref" and me.tag != "ref" and not (me.tag == "ite"):
                        me = mk("ref", self.new_cell(ctx, me), ())
                    elif l1["k"] != "ref" and me.tag == "ref":
                        me = self.read_ref(ctx, me)
                    args = [me] + list(tup.args[1])
            return self.inline(ctx, f, args, where)
        return self.opaque_call(ctx, f, args, dty, where, atys)

    def opaque_call(self, ctx, f, args, dty, where, atys=None):
        c = self.ctor(f["def"], dty, args)
        if c is not None:
            return c
        self.stats["opaque"][f["def"]] = self.stats["opaque"].get(f["def"], 0) + 1
        if dty is not None and self.p.types[dty]["k"] == "never":
            self.panics.append((ctx.pc, "call", where, f["def"]))
            ctx.pc = FALSE
            return None
        for i, a in enumerate(args):
            if atys and i < len(atys) and atys[i] is not None and self.grants_writes(atys[i]):
                raise Unsupported("%s may write what it is given" % f["def"])
        # conservatively havoc what the callee may write through mutable references
        dargs = tuple(self.deep(ctx, a) for a in args)
        for i, a in enumerate(args):
            t = self.p.types[atys[i]] if atys and i < len(atys) and atys[i] is not None else None
            if t and t["k"] == "ref" and t.get("m") and self.p.types[t["e"]]["k"] not in ("dyn", "str") and a.tag == "ref":
                self.write_ref(ctx, a, self.expand(t["e"], mk("app", "%s'%d" % (f["def"], i), dargs)))
        return self.expand(dty, mk("app", f["def"], dargs))

    def grants_writes(self, ty, dep=0):
        """does the type give mutable access to storage or to another object only known by its interface?"""
        t = self.p.types[ty]
        if t["k"] == "ref" and t.get("m"):
            return self.p.types[t["e"]]["k"] == "dyn" or self.grants_writes(t["e"], dep)
        return t["k"] == "adt" and t["n"].endswith("DepsMut")

    def ctor(self, d, dty, args):
        """a tuple-variant constructor used as a function"""
        head, _, last = d.rpartition("::")
        if not last[:1].isupper():
            return None
        head = re.sub(r"::<.*>$", "", head)
        for i, t in enumerate(self.p.types) if dty is None else [(dty, self.p.types[dty])]:
            if t["k"] == "adt" and t.get("ak") == "enum" and t["n"] == head:
                for j, v in enumerate(t["v"]):
                    if v["n"] == last and len(v["f"]) == len(args):
                        return variant(t["n"], j, *args)
        for i, t in enumerate(self.p.types) if dty is None else [(dty, self.p.types[dty])]:
            if t["k"] == "adt" and t.get("ak") == "struct" and t["n"].split("::")[-1] == last and t["n"].split("::")[0] == d.split("::")[0] and len(t["v"][0]["f"]) == len(args):
                return struct(t["n"], *args)
        return None

    def do_cut(self, ctx, cut, f, args, dty, where):
        nm = cut if isinstance(cut, str) else f["def"].split("::")[-1]
        dargs = tuple(self.deep(ctx, a) for a in args)
        self.events.append(("cut", nm, ctx.pc, dargs, where))
        r = self.lift_app(nm, dargs, dty)
        for i, a in enumerate(args):
            # what the summarised callee may change through a mutable reference
            t = self.p.types[f["locals"][i + 1]] if "locals" in f else None
            if t and t["k"] == "ref" and t.get("m") and self.p.types[t["e"]]["k"] != "dyn":
                self.write_ref(ctx, a, self.lift_app("%s'%d" % (nm, i), dargs, t["e"]))
        return r

    def lift_app(self, nm, dargs, dty):
        flat = []
        for a in dargs:
            flatten(a, flat)
        if any(x.tag == "ite" for x in flat):
            ix = [i for i, x in enumerate(flat) if x.tag == "ite"]

            def go(*vals):
                ys = list(flat)
                for i, v in zip(ix, vals):
                    ys[i] = v
                return self.expand(dty, mk("app", nm, symmetric(nm, ys)))
            return lift(go, *[flat[i] for i in ix])
        return self.expand(dty, mk("app", nm, symmetric(nm, flat)))

    def inline(self, ctx, f, args, where):
        if self.depth > self.max_depth or sum(1 for x in self.stack if x == f["id"]) > 2:
            raise Unsupported("recursion limit in " + f["def"])
        self.stats["fns"].add(f["def"])
        if self.watch:
            self.watch(self, f, args, ctx, where)
        self.depth += 1
        self.stack.append(f["id"])
        first = self.ncell + 1
        loc = {}
        for i, ty in enumerate(f["locals"]):
            self.ncell += 1
            loc[i] = self.ncell
            self.celltype[self.ncell] = ty
        for nm, pl in f["dbg"]:
            if not pl[1] and pl[0] in loc:
                self.cellname[loc[pl[0]]] = nm
        n = f["argc"]
        if f["spread"] >= 0 and len(args) != n:
            raise Unsupported("spread " + f["def"])
        if len(args) != n:
            raise Unsupported("arity %s %d/%d" % (f["def"], len(args), n))
        for i, a in enumerate(args):
            ctx.cells[loc[i + 1]] = a
        fr = Frame(f, first, loc)
        ex = self.run_region(fr, set(range(len(f["blocks"]))), 0, ctx_move(ctx))
        rets = ex.get("ret", [])
        m = self.merge(rets)
        self.depth -= 1
        self.stack.pop()
        if m is None:
            ctx.pc = FALSE
            return None
        ret = m.cells.get(loc[0], UNDEF)
        ret = self.strip_frame(m, ret, set(loc.values()))
        ctx.pc = m.pc
        ctx.cells = m.cells
        if m.pc is not TRUE:
            ret = vrestrict(ret, m.pc)
        for c in loc.values():
            ctx.cells.pop(c, None)
        if ret is UNDEF and self.p.types[f["locals"][0]]["k"] == "tuple":
            ret = UNIT
        return ret

    def strip_frame(self, ctx, v, dead):
        return v

    # ---------------------------------------------------------------- loops
    def loop(self, fr, nodes, head, ctx):
        # 1. concrete unrolling when every loop-exit decision is decided
        un = self.try_unroll(fr, nodes, head, ctx)
        if un is not None:
            return un
        return self.havoc_loop(fr, nodes, head, ctx)

    def exit_undecided(self, fr, nodes, snap):
        return self._undecided

    def try_unroll(self, fr, nodes, head, ctx0, limit=140):
        exits = {}
        cur = ctx0.copy()
        marks = (len(self.panics), len(self.events), len(self.loops))
        if not self.loop_maybe_concrete(fr, nodes, head, cur):
            return None
        for it in range(limit):
            ex = self.run_region(fr, nodes, head, cur.copy())
            back = ex.pop(head, [])
            nb = self.merge(back)
            if nb is None:
                for t, l in ex.items():
                    exits.setdefault(t, []).extend(l)
                return exits
            if not self.loop_maybe_concrete(fr, nodes, head, cur):
                break
            for t, l in ex.items():
                exits.setdefault(t, []).extend(l)
            if self.bind:
                self.bind(self, cur, nb)       # the caller may name intermediate values of an unrolled loop
            cur = nb
            if not self.loop_maybe_concrete(fr, nodes, head, cur):
                break
        del self.panics[marks[0]:], self.events[marks[1]:], self.loops[marks[2]:]
        return None

    def loop_maybe_concrete(self, fr, nodes, head, ctx):
        """is the loop's continue/exit decision constant in this state? (evaluated on the straight-line
        prefix from the header up to the first branch)"""
        c = ctx.copy()
        n = head
        saved = (len(self.panics), len(self.events), len(self.loops))
        try:
            for _ in range(12):
                b = fr.f["blocks"][n]
                t = b[1]
                out = self.block(fr, n, c)
                if t[0] == "switch":
                    live = [x for x in out if x[1].pc is not FALSE]
                    return len(live) == 1
                if len(out) != 1 or out[0][0] not in nodes:
                    return len(out) == 0
                n, c = out[0]
                if n == head:
                    return False
            return False
        finally:
            del self.panics[saved[0]:], self.events[saved[1]:], self.loops[saved[2]:]

    def havoc_loop(self, fr, nodes, head, ctx0):
        lid = len(self.loops)
        self.fresh_n += 1
        tag = "L%d" % self.fresh_n
        info = {"fn": fr.f["def"], "where": self.where(fr, head), "vars": [], "tag": tag, "pc0": ctx0.pc}
        self.loops.append(info)
        hv = dict()           # cell -> havoced header value
        names = {}
        keep = (len(self.panics), len(self.events), len(self.loops), self.fresh_n)
        for rnd in range(12):
            del self.panics[keep[0]:], self.events[keep[1]:], self.loops[keep[2]:]
            self.fresh_n = keep[3]
            start = ctx0.copy()
            for c, v in hv.items():
                start.cells[c] = v
            hdr = dict(start.cells)
            ex = self.run_region(fr, nodes, head, start)
            back = self.merge(ex.get(head, []))
            if back is None:
                break
            changed = False
            for c in back.cells:
                if isinstance(c, tuple) and c not in hdr:
                    hdr[c] = ctx0.cells[c] = untouched_cell(c)
            for c in list(hdr):
                a, b = hdr[c], back.cells.get(c)
                if b is None or a is b:
                    continue
                init = ctx0.cells[c]
                if a is UNDEF and c not in hv and ctx0.cells.get(c) is UNDEF:
                    continue
                nv = self.havoc_val(a, b, self.celltype.get(c), "%s.%s" % (tag, c[1] if isinstance(c, tuple) else self.cellname.get(c, "c%d" % c)), names, back.pc)
                if nv is not a:
                    hv[c] = nv
                    changed = True
            if not changed:
                break
        else:
            raise Unsupported("loop widening did not stabilise in " + fr.f["def"])
        if len(self.loops) == keep[2] and not any(ev[0] != "storage" or (ev[1] not in ("load", "may_load", "has") and syms(ev[3], tag)) for ev in self.events[keep[1]:]):
            from .idiom import summarise, scan_bits
            closed = summarise(self, info, ctx0, hv, back, ex, head, tag)
            if closed is None:
                closed = scan_bits(self, info, ctx0, hv, back, ex, head, tag)
            if closed is not None:
                self.loops.remove(info)
                return closed
        info["hdr"] = hdr
        info["init"] = {c: ctx0.cells[c] for c in hv}
        info["havoc"] = hv
        info["back"] = back
        info["exits"] = {k: v for k, v in ex.items() if k != head}
        info["names"] = {c: self.cellname.get(c) for c in hv}
        info["fr"] = fr
        ex = {k: v for k, v in ex.items() if k != head}
        # cells created inside the loop body (temporaries) do not survive differently per iteration
        return ex

    def loop_over(self, ctx, l, ety, body, where, bad=None):
        """summarise `for e in l { body(e) }` for a symbolic list l: havoc what the body changes"""
        self.fresh_n += 1
        tag = "L%d" % self.fresh_n
        ix = mk("sym", tag + ".it.pos")
        set_range(ix, 0, (1 << 63) - 1)
        hv = {}
        info = {"fn": "for_each", "where": where, "tag": tag, "pc0": ctx.pc}
        self.loops.append(info)
        keep = (len(self.panics), len(self.events), len(self.loops), self.fresh_n)
        for rnd in range(12):
            del self.panics[keep[0]:], self.events[keep[1]:], self.loops[keep[2]:]
            self.fresh_n = keep[3]
            c2 = ctx.copy()
            c2.cells.update(hv)
            hdr = dict(c2.cells)
            src = l.args[0][0][2] if l.tag == "list" and len(l.args[0]) == 1 and l.args[0][0][1] == "s" else l
            c2.pc = AND(c2.pc, LT(as_poly(ix), self.length(l)))
            body(c2, self.elem(src, as_poly(ix), ety))
            changed = False
            for c in c2.cells:
                if isinstance(c, tuple) and c not in hdr:
                    hdr[c] = ctx.cells[c] = untouched_cell(c)
            for c in list(hdr):
                a, b = hdr[c], c2.cells.get(c)
                if b is None or a is b:
                    continue
                nv = self.havoc_val(a, b, self.celltype.get(c), "%s.%s" % (tag, self.cellname.get(c, "m") if not isinstance(c, tuple) else c[1]), {})
                if nv is not a:
                    hv[c] = nv
                    changed = True
            if not changed:
                break
        else:
            raise Unsupported("loop widening did not stabilise")
        if len(self.loops) == keep[2] and l.tag == "list" and len(l.args[0]) == 1 and l.args[0][0][:2] == (TRUE, "s") \
                and not any(ev[0] != "storage" or (ev[1] not in ("load", "may_load", "has") and syms(ev[3], tag)) for ev in self.events[keep[1]:]):
            # the same shape as a loop of the source: a counter over the list, left when the list is at its end
            from .idiom import summarise
            c0 = ctx.copy()
            it = self.new_cell(c0, mk("struct", "Itval", (l, ZERO)))
            back = c2.copy()
            back.cells[it] = mk("struct", "Itval", (l, ADD(as_poly(ix), ONE)))
            done = ctx.copy()
            done.cells.update(hv)
            done.cells[it] = mk("struct", "Itval", (l, as_poly(ix)))
            done.pc = AND(done.pc, NOT(LT(as_poly(ix), self.length(l))))
            ex = {"done": [done]}
            if bad and bad[-1] is not FALSE:
                stop = done.copy()
                stop.pc = bad[-1]
                ex["bad"] = [stop]
            closed = summarise(self, info, c0, {**hv, it: done.cells[it]}, back, ex, "head", tag)
            if closed is not None and len(closed.get("done", [])) == 1 and len(closed.get("bad", [])) <= 1:
                self.loops.remove(info)
                d = closed["done"][0]
                okc = restrict(d.pc, ctx.pc)
                if "bad" in closed:
                    x = closed["bad"][0]
                    cells = dict(x.cells)
                    for c, v in d.cells.items():
                        u = x.cells.get(c)
                        cells[c] = v if u is None or u is v else vite(okc, v, u)
                    ctx.pc = OR(d.pc, x.pc)
                else:
                    cells = d.cells
                    ctx.pc = d.pc
                ctx.cells.update(cells)
                info["ok"] = okc
                return info
        info.update(hdr=hdr, init={c: ctx.cells[c] for c in hv}, havoc=hv, back=c2, exits={}, names={})
        ctx.cells.update(hv)
        return info

    def havoc_val(self, a, b, ty, nm, names, pc=TRUE):
        if a is b:
            return a
        if a in (TRUE, FALSE) and is_bool(b) and restrict(b, pc) is a:
            return a        # a flag that every further iteration finds as it was
        if a.tag == "struct" and b.tag == "struct" and len(a.args[1]) == len(b.args[1]):
            ftys = self.field_types(ty, a)
            fs = []
            if a.args[0].startswith("It"):
                return mk("struct", a.args[0], tuple(self.havoc_val(x, y, None, nm + (".pos" if x.tag in ("poly", "ite") else ".%d" % i), names) for i, (x, y) in enumerate(zip(a.args[1], b.args[1]))))
            for i, (x, y) in enumerate(zip(a.args[1], b.args[1])):
                fs.append(self.havoc_val(x, y, ftys[i] if ftys and i < len(ftys) else None, nm + "." + (self.field_name(ty, i)), names, pc))
            return mk("struct", a.args[0], tuple(fs))
        if a.tag == "ns" or b.tag == "ns":
            return mk("ns", mk("sym", nm + ".ns"), ())
        if a.tag == "undef":
            return a
        is_lv = a.tag == "poly" and len(a.args[0]) == 1 and len(a.args[0][0][0]) == 1 and a.args[0][0][0][0].tag == "sym" and a.args[0][0][0][0].args[0] == nm
        if is_lv:
            return a
        if a.tag == "list" and len(a.args[0]) == 1 and a.args[0][0][2] is mk("sym", nm):
            return a
        if a.tag == "sym" and a.args[0] == nm:
            return a
        if a.tag == "ite" and a is atom_var(mk("sym", nm)):
            return a
        if a.tag in ("poly",) or (a.tag == "ite" and any(x.tag == "poly" for x in leaves(a))):
            s = mk("sym", nm)
            if ty is not None and self.p.intlike(ty):
                return self.expand(ty, s)
            if s not in RANGES:
                lo, hi = -INF, INF
                if nm.endswith(".pos"):
                    lo, hi = 0, (1 << 63) - 1
                set_range(s, lo, hi)
            return as_poly(s)
        if is_bool(a):
            return atom_var(mk("sym", nm))
        if a.tag == "list":
            return vlist([(TRUE, "s", mk("sym", nm))])
        if ty is not None and self.p.types[ty]["k"] == "adt":
            v = self.expand(ty, mk("sym", nm))
            return v
        if a.tag == "ref" or b.tag == "ref":
            if ty is not None:
                return self.expand(ty, mk("sym", nm))
            return mk("ref", mk("sym", nm), ())
        if a.tag == "enum":
            # no type: havoc conditions generically
            alts = []
            rem = TRUE
            vs = {}
            for v, c, f in a.args[1] + b.args[1]:
                vs.setdefault(v, f)
            ks = sorted(vs)
            for i, v in enumerate(ks):
                at = atom_var(mk("isv", mk("sym", nm), str(v)))
                c = rem if i == len(ks) - 1 else AND(rem, at)
                rem = AND(rem, NOT(at))
                alts.append((v, c, tuple(self.havoc_any(x, nm + ".%d.%d" % (v, j)) for j, x in enumerate(vs[v]))))
            return enum(a.args[0], alts)
        return mk("sym", nm)

    def havoc_any(self, x, nm):
        if x.tag == "struct":
            return mk("struct", x.args[0], tuple(self.havoc_any(y, nm + ".%d" % i) for i, y in enumerate(x.args[1])))
        if x.tag == "poly" or (x.tag == "ite" and leaves(x)[0].tag == "poly"):
            s = mk("sym", nm)
            if s not in RANGES:
                set_range(s, *([min(prange(l)[0] for l in leaves(x)), max(prange(l)[1] for l in leaves(x))] if False else [-INF, INF]))
            return as_poly(s)
        if is_bool(x):
            return atom_var(mk("sym", nm))
        if x.tag == "list":
            return vlist([(TRUE, "s", mk("sym", nm))])
        return mk("sym", nm)

    def field_types(self, ty, v):
        if ty is None:
            return None
        t = self.p.types[ty]
        if t["k"] == "tuple":
            return t["f"]
        if t["k"] == "adt" and t["ak"] == "struct" and t["n"] == v.args[0]:
            return [x[1] for x in t["v"][0]["f"]]
        if t["k"] == "closure":
            return t["up"]
        return None

    def field_name(self, ty, i):
        if ty is not None:
            t = self.p.types[ty]
            if t["k"] == "adt" and t["ak"] == "struct" and i < len(t["v"][0]["f"]):
                return t["v"][0]["f"][i][0]
        return str(i)


def untouched_cell(k):
    return mk("ns", mk("sym", "S:" + k[1]), ())


def ctx_move(ctx):
    return Ctx(ctx.pc, dict(ctx.cells))


def flatten(v, out):
    if v.tag == "struct":
        for x in v.args[1]:
            flatten(x, out)
    else:
        out.append(v)
