"""Obligations over analysed programs: comparison of facts modulo the comparison theory, frame checks
over storage namespaces, and the collection of obligations into a verdict."""
import os, re, time
from .terms import *
from .engine import Program, Engine, Ctx, Unsupported, ERR
from . import entry, models as M


from .terms import _atom_ix as ATOM_IX


# ------------------------------------------------------------------ theory of the atoms
def _form(t):
    """(q, thresholds) view of an ordering atom"""
    if t.tag in ("eq0", "neg"):
        return t.args[0], 0
    if t.tag in ("ltk", "eqk"):
        return t.args[0], t.args[1]
    return None


_care_memo = {}
_occ_memo, _val_memo = {}, {}


def occurs(x, t):
    """does the quantity x occur inside the form t (not just as the whole of it)?"""
    r = _occ_memo.get((x, t))
    if r is None:
        r, st, seen = False, [t], set()
        while st:
            y = st.pop()
            if y is x:
                r = True
                break
            if isinstance(y, tuple):
                st.extend(y)
            elif isinstance(y, T) and y not in seen:
                seen.add(y)
                if y.tag == "ite":
                    r = False
                    break
                if y.tag in ("poly", "app"):
                    st.extend(y.args)
        _occ_memo[(x, t)] = r
    return r


def valued(q, x, k):
    r = _val_memo.get((q, x, k))
    if r is None:
        from .idiom import subst
        r = _val_memo[(q, x, k)] = subst(q, {x: const(k)})
    return r


def care(vars_):
    """the conjunction of the facts of integer order and equality that relate the given atoms"""
    key = frozenset(vars_)
    r = _care_memo.get(key)
    if r is not None:
        return r
    byq, eqts = {}, []
    for v in key:
        t = ATOMS[v]
        f = _form(t)
        if f:
            byq.setdefault(f[0], []).append(t)
        elif t.tag == "eqt":
            eqts.append(t)
    r = TRUE
    info = {}
    for q, ts in byq.items():
        ks = sorted({(_form(t)[1]) for t in ts if t.tag in ("ltk", "eqk")})
        pts = set(ks)
        if any(t.tag in ("eq0", "neg") for t in ts):
            pts.add(0)
        lts, eqs = {}, {}
        for t in ts:
            a = atom_var(t)
            if t.tag == "ltk":
                lts[t.args[1]] = a
            elif t.tag == "eqk":
                eqs[t.args[1]] = a
            elif t.tag == "eq0":
                eqs[0] = a
            elif t.tag == "neg":
                lts[0] = a
        if 0 in eqs and 0 in lts:
            r = AND(r, NOT(AND(eqs[0], lts[0]))) if False else r
            # pair encoding: q<0 is (not eq0 and neg), q<=0 is (eq0 or neg)
            L0 = AND(NOT(eqs[0]), lts[0])
            L1 = OR(eqs[0], lts[0])
            lts = dict(lts)
            lts[0] = L0
            lts.setdefault(1, L1)
        elif 0 in eqs and 1 not in lts and prange(q)[0] >= 0:
            lts[1] = eqs[0]
        order = sorted(lts)
        for i in range(len(order) - 1):
            r = AND(r, OR(NOT(lts[order[i]]), lts[order[i + 1]]))
        for k, e in eqs.items():
            for k2, l in lts.items():
                if k == 0 and k2 == 0:
                    continue
                r = AND(r, OR(NOT(e), l if k2 > k else NOT(l)))
            if k in lts and k + 1 in lts:
                r = AND(r, OR(lts[k], NOT(lts[k + 1]), e))
        ek = sorted(eqs)
        for i in range(len(ek)):
            for j in range(i):
                r = AND(r, NOT(AND(eqs[ek[i]], eqs[ek[j]])))
        info[q] = True
    # the position of the first element satisfying b lies inside the list when one exists
    for q in byq:
        ms = q.args[0]
        if len(ms) == 2 and all(len(m) == 1 and m[0].tag == "app" for m, c in ms) and ms[0][1] == -ms[1][1] and abs(ms[0][1]) == 1:
            d = {m[0].args[0]: (m[0], c) for m, c in ms}
            if set(d) == {"first", "len"} and d["first"][0].args[1][0] is d["len"][0].args[1][0]:
                f = d["first"][0]
                r = AND(r, OR(NOT(M.exists_atom(*f.args[1])), plt0(padd(as_poly(f), as_poly(d["len"][0]), -1))))
    # sums of linear forms: p + q = s
    qs = list(byq)
    few = len(qs) <= SUMS
    if not few:
        # too many to combine all: only the differences of two quantities
        qs = [q for q in qs if len(q.args[0]) == 2 and all(len(m) == 1 and c in (1, -1) for m, c in q.args[0])]
    if len(qs) <= 2 * SUMS:
        def sg(p):
            return plt0(p), peq0(p)
        neg = {}
        for q in qs:
            neg[q] = q
            neg[pscale(q, -1)] = q
        keys = list(neg)
        for i, a in enumerate(keys):
            for b in keys[i + 1:]:
                s = padd(a, b)
                if s in neg and neg[a] is not neg[b]:
                    la, ea = sg(a)
                    lb, eb = sg(b)
                    ls, es = sg(s)
                    r = AND(r, OR(NOT(OR(la, ea)), NOT(OR(lb, eb)), OR(ls, es)))
                    r = AND(r, OR(NOT(la), NOT(OR(lb, eb)), ls))
                    r = AND(r, OR(NOT(lb), NOT(OR(la, ea)), ls))
                elif few and neg[a] is not neg[b]:
                    # forms that differ by something of known sign
                    for x, y in ((a, b), (b, a)):
                        lo = prange(padd(y, x, -1))[0]
                        if lo >= 0:
                            lx, ex = sg(x)
                            ly, ey = sg(y)
                            r = AND(r, OR(NOT(ly), lx), OR(NOT(OR(ly, ey)), lx if lo > 0 else OR(lx, ex)))
    # two bounds whose sum is out of range exclude each other
    lits = []
    for q, ts in byq.items():
        for t in ts:
            if t.tag == "ltk" and t.args[1] != 0:
                lits.append((q, atom_var(t), padd(q, const(1 - t.args[1])), True))
                lits.append((q, NOT(atom_var(t)), padd(const(t.args[1]), q, -1), True))
        if any(t.tag in ("eq0", "neg") for t in ts):
            l, e = plt0(q), peq0(q)
            lits.append((q, AND(l, NOT(e)), padd(q, ONE), False))
            lits.append((q, NOT(OR(l, e)), padd(ONE, q, -1), False))
    if len(lits) <= 60:
        for i, (q1, c1, p1, k1) in enumerate(lits):
            for q2, c2, p2, k2 in lits[:i]:
                if q1 is not q2 and (k1 or k2):
                    s = padd(p1, p2)
                    if len(s.args[0]) < len(p1.args[0]) + len(p2.args[0]) - 1 and prange(s)[0] > 0:
                        r = AND(r, NOT(AND(c1, c2)))
    # equality of opaque terms is transitive
    if len(eqts) <= 40:
        pairs = {}
        for t in eqts:
            pairs[frozenset(t.args)] = atom_var(t)
        ks = list(pairs)
        for i in range(len(ks)):
            for j in range(i):
                c = ks[i] & ks[j]
                if len(c) == 1:
                    third = ks[i] ^ ks[j]
                    if third in pairs:
                        r = AND(r, OR(NOT(pairs[ks[i]]), NOT(pairs[ks[j]]), pairs[third]))
    # equal arguments give equal results
    apps = {}
    for v in key:
        t = ATOMS[v]
        if t.tag == "app" or t.tag == "isv":
            apps.setdefault(shape(t), []).append(t)
    zeros = {}
    for q, ts in byq.items():
        for t in ts:
            if t.tag in ("eq0", "eqk"):
                z = padd(q, const(t.args[1]), -1) if t.tag == "eqk" else q
                zeros[z] = atom_var(t)
                zeros[pscale(z, -1)] = atom_var(t)
    # a quantity known to have a value can be replaced by it in the other forms
    if len(byq) <= SUMS:
        for q, ts in byq.items():
            if len(q.args[0]) != 1 or len(q.args[0][0][0]) != 1 or q.args[0][0][1] not in (1, -1):
                continue
            x, sgn = q.args[0][0][0][0], q.args[0][0][1]
            for t in ts:
                if t.tag not in ("eq0", "eqk"):
                    continue
                k = sgn * (t.args[1] if t.tag == "eqk" else 0)
                for q2, ts2 in byq.items():
                    if q2 is q or not occurs(x, q2):
                        continue
                    w = valued(q2, x, k)
                    if w.tag != "poly":
                        continue
                    for t2 in ts2:
                        if t2.tag in ("eq0", "eqk"):
                            f = peq0(padd(w, const(t2.args[1] if t2.tag == "eqk" else 0), -1))
                        elif t2.tag == "ltk":
                            f = plt0(padd(w, const(t2.args[1]), -1))
                        else:
                            continue
                        if f is TRUE or f is FALSE or support(f) <= key:
                            r = AND(r, OR(NOT(atom_var(t)), IFF(atom_var(t2), f)))
    for ts in apps.values():
        for i in range(len(ts)):
            for j in range(i):
                ds = diffs(ts[i], ts[j])
                if ds and all(padd(as_poly(x), as_poly(y), -1) in zeros for x, y in ds):
                    same_ = AND(*[zeros[padd(as_poly(x), as_poly(y), -1)] for x, y in ds])
                    r = AND(r, OR(NOT(same_), IFF(atom_var(ts[i]), atom_var(ts[j]))))
    _care_memo[key] = r
    return r


def shape(t):
    """head symbols of a predicate atom"""
    a = t.args[0]
    if isinstance(a, T):
        return (t.tag, a.tag, a.args[0] if a.tag == "app" else None) + tuple(x for x in t.args[1:] if not isinstance(x, T))
    return (t.tag, a)


def diffs(a, b, depth=0):
    """pairs of integer arguments in which two terms of the same shape differ, or None"""
    if a is b:
        return []
    if not isinstance(a, T) or not isinstance(b, T):
        return [] if a == b else None
    if a.tag == "poly" and b.tag == "poly":
        return [(a, b)]
    if a.tag == b.tag and a.tag in ("app", "proj", "isv") and len(a.args) == len(b.args) and depth < 6:
        out = []
        for x, y in zip(a.args, b.args):
            if isinstance(x, tuple) and isinstance(y, tuple):
                if len(x) != len(y):
                    return None
                ps = list(zip(x, y))
                if a.tag == "app" and a.args[0] in SYMMETRIC and len(ps) >= 2:
                    alt = [(x[0], y[1]), (x[1], y[0])]
                    if sum(p is q for p, q in alt) > sum(p is q for p, q in ps[:2]):
                        ps[:2] = alt
                rs = [diffs(p, q, depth + 1) for p, q in ps]
            else:
                rs = [diffs(x, y, depth + 1)]
            for r in rs:
                if r is None:
                    return None
                out += r
        return out
    if a.tag in ("sym", "app", "proj") and b.tag in ("sym", "app", "proj"):
        return [(a, b)]
    return None


def feasible(c):
    """may the condition hold? (False only if the theory refutes it)"""
    if c is FALSE:
        return False
    if c is TRUE:
        return True
    return AND(c, care(support(c))) is not FALSE


def implied(a, b):
    return refuted(AND(a, NOT(b)))


def refuted(c, depth=3, path=TRUE):
    """refute a condition, splitting on its first decisions when too many forms are involved for all their sums to be considered"""
    if c is FALSE:
        return True
    d = AND(path, c)
    if not feasible(d):
        return True
    if depth == 0 or c.tag != "ite" or len({f[0] for f in (_form(ATOMS[v]) for v in support(d)) if f}) <= SUMS:
        return False
    v, hi, lo = c.args
    a = mk("ite", v, TRUE, FALSE)
    return refuted(hi, depth - 1, AND(path, a)) and refuted(lo, depth - 1, AND(path, NOT(a)))


SUMS = 24


def equiv(a, b, under=TRUE):
    if a is b:
        return True
    d = AND(under, ite(a, NOT(b), b))
    if not feasible(d):
        return True
    if dd_size(d) < 3000:
        def merged():
            n, e, _ = merge_equal(d, [])
            return n > 0 and not feasible(e)
        return within(EFFORT, merged, False)
    return False


EFFORT = 300000


def same(S, a, b, why=None, path=""):
    """do a and b denote the same value wherever S holds (modulo the theory)?"""
    if a is b or S is FALSE or not feasible(S):
        return True
    if a.tag == "choice":
        return same(AND(S, a.args[0]), a.args[1], b, why, path) and same(AND(S, NOT(a.args[0])), a.args[2], b, why, path)
    if b.tag == "choice":
        return same(AND(S, b.args[0]), a, b.args[1], why, path) and same(AND(S, NOT(b.args[0])), a, b.args[2], why, path)
    if a.tag == "struct" and b.tag == "struct" and len(a.args[1]) == len(b.args[1]):
        ok = True
        names = field_names(a.args[0], len(a.args[1]))
        for i, (x, y) in enumerate(zip(a.args[1], b.args[1])):
            if not same(S, x, y, why, path + "." + names[i]):
                ok = False
                if why is None:
                    return False
        return ok
    if a.tag == "enum" and b.tag == "enum":
        da = {v: (c, f) for v, c, f in a.args[1]}
        db = {v: (c, f) for v, c, f in b.args[1]}
        ok = True
        for v in sorted(set(da) | set(db)):
            ca, fa = da.get(v, (FALSE, None))
            cb, fb = db.get(v, (FALSE, None))
            if not equiv(ca, cb, S):
                ok = False
                if why is not None:
                    why.append((path + "#%d" % v, restrict(ca, S), restrict(cb, S)))
                continue
            s2 = AND(S, ca)
            if fa is None or fb is None:
                continue
            for i, (x, y) in enumerate(zip(fa, fb)):
                if not same(s2, x, y, why, path + "#%d.%d" % (v, i)):
                    ok = False
        return ok
    if a.tag == "list" and b.tag == "list":
        if eqlist_same(S, a, b):
            return True
        A, B = nlist(a, S), nlist(b, S)
        if len(A) != len(B):
            if why is not None:
                why.append((path + "[]", vlist(A), vlist(B)))
            return False
        ok = True
        for i, (x, y) in enumerate(zip(A, B)):
            if x[1] != y[1] or not equiv(x[0], y[0], S):
                ok = False
                if why is not None:
                    why.append((path + "[%d]" % i, vlist([x]), vlist([y])))
            elif not same(AND(S, x[0]), x[2], y[2], why, path + "[%d]" % i):
                ok = False
        return ok
    if a.tag in LEAFISH and b.tag in LEAFISH:
        if is_bool(a) and is_bool(b):
            r = equiv(a, b, S)
        else:
            d = lift(lambda x, y: TRUE if leaf_eq(x, y, S) else FALSE, a, b)
            r = d is TRUE or implied(S, d)
            if not r:
                r = implied(S, OR(d, lift(lambda x, y: eq_leaf(x, y) if TERMISH(x) and TERMISH(y) else FALSE, a, b)))
        if not r and not (is_bool(a) and is_bool(b)):
            if not NESTED:
                r = within(EFFORT, lambda: by_cases(S, a, b) or same_merged(S, a, b), False)
        if not r and why is not None:
            why.append((path, restrict(a, S) if a.tag == "ite" else a, restrict(b, S) if b.tag == "ite" else b))
        return r
    if a.tag == "undef" or b.tag == "undef":
        pass
    if why is not None:
        why.append((path, a, b))
    return False


def same_merged(S, a, b):
    if dd_size(S) >= 3000:
        return False
    for _ in range(3):
        # substitutions create new comparisons, which may decide further equalities
        old = S, a, b
        n, S, (a, b) = merge_equal(S, [a, b])
        if not n or (S, a, b) == old:
            return False
        d = lift(lambda x, y: TRUE if leaf_eq(x, y, S) else FALSE, a, b)
        if d is TRUE or implied(S, d) or by_cases(S, a, b):
            return True
    return False


def merge_equal(S, vals):
    """rewrite values so that, wherever an equality of two atomic integers is decided true, only one of them is mentioned"""
    from .idiom import subst
    vs = set(support(S))
    for v in vals:
        vs |= support(v) if v.tag == "ite" else set()
    done = 0
    for v in sorted(vs):
        t = ATOMS[v]
        if t.tag != "eq0" or len(t.args[0].args[0]) != 2:
            continue
        (m1, c1), (m2, c2) = t.args[0].args[0]
        if c1 != -c2 or abs(c1) != 1 or len(m1) != 1 or len(m2) != 1:
            continue
        x, y = m1[0], m2[0]
        if x.tag == "sym" or y.tag != "sym":
            keep, drop = x, y
        else:
            keep, drop = y, x
        at = atom_var(t)
        mp = {drop: as_poly(keep)}
        S = vite(at, subst(cofactor(S, {v: True}), mp), cofactor(S, {v: False}))
        vals = [vite(at, subst(cofactor(x, {v: True}), mp), cofactor(x, {v: False})) if x.tag in ("ite", "poly") else x for x in vals]
        done += 1
    # k <= x < k+1 fixes x
    for v in sorted(vs):
        t = ATOMS[v]
        if t.tag == "ltk" and lone(t.args[0]) is not None and lone(t.args[0]).tag != "app":
            w = ATOM_IX.get(mk("ltk", t.args[0], t.args[1] + 1))
            if w in vs:
                at = AND(NOT(atom_var(t)), atom_var(ATOMS[w]))
                mp = {lone(t.args[0]): const(t.args[1])}
                lit = {v: False, w: True}
                S = vite(at, subst(cofactor(S, lit), mp), S)
                vals = [vite(at, subst(cofactor(x, lit), mp), x) if x.tag in ("ite", "poly") else x for x in vals]
                done += 1
    return done, S, vals


def by_cases(S, a, b):
    """leaf-wise comparison with each pair of leaves compared under the condition that selects it"""
    conds = {}

    def collect(c, x, y):
        # conditions selecting each pair of leaves
        st = [(c, x, y)]
        seen = {}
        while st:
            c, x, y = st.pop()
            if c is FALSE:
                continue
            v = min(var_of(x), var_of(y))
            if v == 1 << 60:
                if x is not y:
                    conds[(x, y)] = OR(conds.get((x, y), FALSE), c)
                continue
            if len(seen) > 4000:
                return False
            seen[(c, x, y)] = 1
            n = node(v, TRUE, FALSE)
            x1, x0 = cof(x, v)
            y1, y0 = cof(y, v)
            st.append((AND(c, n), x1, y1))
            st.append((AND(c, NOT(n)), x0, y0))
        return True
    if not collect(S, a, b) or len(conds) > 200:
        return False
    for (x, y), c in conds.items():
        if not feasible(c):
            continue
        if leaf_eq(x, y, c):
            continue
        if TERMISH(x) and TERMISH(y) and implied(c, eq_leaf(x, y)):
            continue
        if unwrapped(x, y, c) or unwrapped(y, x, c):
            continue
        return False
    return True


def unwrapped(x, y, c):
    """x is y reduced to a word, and y lies inside the word under c"""
    if x.tag != "poly" or y.tag != "poly":
        return False
    t = lone(x)
    if t is None or t.tag != "app" or t.args[0] != "wrap" or as_poly(t.args[1][0]) is not y:
        return False
    bits, s = t.args[1][1], t.args[1][2]
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if s else (0, (1 << bits) - 1)
    a, b = prange(y)
    r = TRUE
    if a < lo:
        r = AND(r, NOT(plt0(padd(y, const(-lo)))))
    if b > hi:
        r = AND(r, NOT(OR(atom_var(mk("ovf", y, -bits if s else bits)), FALSE)))
    return implied(c, r)


def TERMISH(x):
    return x.tag in ("poly", "sym", "app", "proj", "str")


def eqlist_same(S, a, b):
    if all(x[0] is TRUE for x in a.args[0] + b.args[0]):
        e = eq_list(a, b)
        return e is TRUE or (e is not FALSE and implied(S, e))
    return False


NESTED = []


def leaf_eq(x, y, S):
    if x is y:
        return True
    NESTED.append(1)
    try:
        return leaf_eq1(x, y, S)
    finally:
        NESTED.pop()


def unquotient(p):
    """n/d*d is n minus the remainder of n by d"""
    out = ZERO
    for m, c in p.args[0]:
        q = poly({m: c})
        for t in m:
            if t.tag == "app" and (t.args[0] == "tdiv" or t.args[0] == "fdiv" and prange(t.args[1][0])[0] >= 0):
                n, d = t.args[1]
                if len(d.args[0]) == 1 and d.args[0][0][1] == 1 and len(d.args[0][0][0]) == 1 and d.args[0][0][0][0] in m:
                    rest = list(m)
                    rest.remove(t)
                    rest.remove(d.args[0][0][0][0])
                    r = mod_leaf(n, d)
                    if r.tag == "poly":
                        q = pmul(poly({tuple(rest): c}), padd(n, r, -1))
                    break
        out = padd(out, q)
    return out


def leaf_eq1(x, y, S):
    if x.tag == "poly" and y.tag == "poly":
        if unquotient(padd(x, y, -1)) is ZERO:
            return True
        if len(x.args[0]) != len(y.args[0]):
            return False
        # same shape with sub-terms equal under S
        d = padd(x, y, -1)
        if len(d.args[0]) == 2:
            (m1, c1), (m2, c2) = d.args[0]
            if c1 == -c2 and len(m1) == len(m2):
                m1, m2 = list(m1), list(m2)
                for f in list(m1):
                    if f in m2:
                        m1.remove(f)
                        m2.remove(f)
                if len(m1) == 1:
                    return leaf_eq(m1[0], m2[0], S)
        return False
    if x.tag != y.tag:
        return False
    if x.tag == "app" and x.args[0] == y.args[0] and len(x.args[1]) == len(y.args[1]):
        for p, q in zip(x.args[1], y.args[1]):
            if isinstance(p, T) and isinstance(q, T):
                if not same(S, p, q):
                    return False
            elif p != q:
                return False
        return True
    if x.tag == "proj" and x.args[1] == y.args[1]:
        return leaf_eq(x.args[0], y.args[0], S)
    return False


def nlist(l, S):
    out = []
    for c, k, v in l.args[0]:
        c = restrict(c, S)
        if not feasible(AND(S, c)):
            continue
        if implied(S, c):
            c = TRUE
        j = None
        if k == "e":
            # merge with an earlier, mutually exclusive element if nothing in between can coexist with either
            for i in range(len(out) - 1, -1, -1):
                if out[i][1] != "e":
                    break
                if not feasible(AND(S, c, out[i][0])):
                    j = i
                    continue
                break
        if j is not None:
            # fold into the earliest exclusive slot reachable past exclusive elements only
            p = out[j]
            out[j] = (OR(p[0], c), "e", vite(p[0], p[2], v))
            if implied(S, out[j][0]):
                out[j] = (TRUE, "e", out[j][2])
            continue
        out.append((c, k, v))
    return out


# ------------------------------------------------------------------ field access by name
FIELDS = {}      # struct label -> field names
FTYPES = {}


def register(prog):
    for i, t in enumerate(prog.types):
        if t["k"] == "adt" and t["ak"] == "struct" and t["v"]:
            FIELDS.setdefault(t["n"], [f[0] for f in t["v"][0]["f"]])


def field_names(label, n):
    f = FIELDS.get(label)
    return f if f and len(f) == n else [str(i) for i in range(n)]


def get(v, path):
    for p in path.split("."):
        if v.tag == "choice":
            return vite(v.args[0], get(v.args[1], p), get(v.args[2], p))
        if v.tag != "struct":
            raise KeyError("field %s of %s" % (path, v.tag))
        ns = FIELDS.get(v.args[0])
        if ns and p in ns:
            v = v.args[1][ns.index(p)]
        elif p.isdigit():
            v = v.args[1][int(p)]
        else:
            raise KeyError("field %s of %s" % (p, v.args[0]))
    return v


def put(v, **kw):
    fs = list(v.args[1])
    ns = FIELDS[v.args[0]]
    for k, x in kw.items():
        fs[ns.index(k)] = x
    return mk("struct", v.args[0], tuple(fs))


def num(v):
    """the integer inside newtype wrappers"""
    while v.tag == "struct" and len(v.args[1]) == 1:
        v = v.args[1][0]
    return v


def like(v, n):
    """wrap integer n in the same newtypes as v"""
    if v.tag == "struct" and len(v.args[1]) == 1:
        return mk("struct", v.args[0], (like(v.args[1][0], n),))
    return n


def setnum(v, **kw):
    """put with integers wrapped in the field's newtypes"""
    return put(v, **{k: like(get(v, k), n) for k, n in kw.items()})


# ------------------------------------------------------------------ overflow-free view
def no_ovf(c):
    vs = {v: False for v in support(c) if ATOMS[v].tag == "ovf"}
    return cofactor(c, vs) if vs else c


def no_ovf_val(v):
    if v.tag == "ite":
        # an overflow that was computed but not acted upon leaves the wrapped result
        vs = {x: len(ATOMS[x].args) > 2 for x in support(v) if ATOMS[x].tag == "ovf"}
        return cofactor(v, vs) if vs else v
    if v.tag == "struct":
        fs = tuple(no_ovf_val(x) for x in v.args[1])
        return v if fs == v.args[1] else mk("struct", v.args[0], fs)
    if v.tag == "enum":
        return enum(v.args[0], [(k, no_ovf(c), tuple(no_ovf_val(x) for x in f)) for k, c, f in v.args[1]])
    if v.tag == "list":
        return vlist([(no_ovf(c), k, no_ovf_val(x)) for c, k, x in v.args[0]])
    if v.tag == "choice":
        return vite(no_ovf(v.args[0]), no_ovf_val(v.args[1]), no_ovf_val(v.args[2]))
    if v.tag == "ns":
        return mk("ns", v.args[0], tuple((no_ovf(c), k, no_ovf_val(w) if w is not None else None) for c, k, w in v.args[1] if no_ovf(c) is not FALSE))
    return v


def settle(v, S):
    """decide the flags of wrapping operations that a successful run has checked"""
    if v.tag == "ite":
        if any(ATOMS[x].tag == "ovf" and len(ATOMS[x].args) > 2 for x in support(v)):
            return vrestrict(v, S)
        return v
    if v.tag == "struct":
        fs = tuple(settle(x, S) for x in v.args[1])
        return v if fs == v.args[1] else mk("struct", v.args[0], fs)
    if v.tag == "choice":
        return vite(v.args[0], settle(v.args[1], AND(S, v.args[0])), settle(v.args[2], AND(S, NOT(v.args[0]))))
    if v.tag == "ns":
        return mk("ns", v.args[0], tuple((c, k, settle(w, AND(S, c)) if w is not None else None) for c, k, w in v.args[1]))
    return v


class Run:
    """facts about one entry point and message variant"""

    def __init__(self, prog, r, label):
        self.p, self.r, self.label = prog, r, label
        self.E = r.eng
        self.S = no_ovf(r.S)
        self.val = no_ovf_val(vrestrict(r.val, r.S)) if r.val is not None else None
        self.cells = {}
        for c, v in r.ctx.cells.items():
            if isinstance(c, tuple) and c[0] == "ns":
                self.cells[c[1]] = no_ovf_val(settle(v, r.S))

    def arg(self, i):
        return self.r.args[i]

    def ns0(self, ns):
        return mk("ns", mk("sym", "S:" + ns), ())

    def sel0(self, ns, key, ty):
        return M.ns_select(self.E, self.ns0(ns), key, ty)

    def sel(self, ns, key, ty):
        st = self.cells.get(ns)
        if st is None:
            return self.sel0(ns, key, ty)
        return M.ns_select(self.E, st, key, ty)

    def writes(self, ns, under=None):
        """writes to the namespace that can take effect on success"""
        S = self.S if under is None else AND(self.S, under)
        st = self.cells.get(ns)
        out = []
        if st is None:
            return out

        def go(st, c0):
            if st.tag == "choice":
                go(st.args[1], AND(c0, st.args[0]))
                go(st.args[2], AND(c0, NOT(st.args[0])))
                return
            base, ws = st.args
            if not (base.tag == "sym" and base.args[0] == "S:" + ns):
                out.append((c0, None, base))      # unknown contents (loop summary)
            for c, k, v in ws:
                c = AND(c0, c, S)
                if feasible(c):
                    out.append((c, k, v))
        go(st, TRUE)
        return out

    def touched(self):
        return sorted(n for n in self.cells if self.writes(n))

    def where(self, ns, ops=("save", "remove", "update", "clear")):
        ws = []
        for e in self.E.events:
            if e[0] == "storage" and e[1] in ops and e[3][0].args[0] == ns and e[4] not in ws:
                ws.append(e[4])
        return ws

    def messages(self):
        return get(self.val, "messages")
