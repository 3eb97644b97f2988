"""Hash-consed value terms, ordered decision diagrams over comparison atoms, polynomial normal form.

A *value* is one of
  bool     decision diagram over atoms with leaves TRUE / FALSE
  leaf     decision diagram whose leaves are atomic terms: 'poly' (exact mathematical integer),
           'sym'/'app'/'proj' (opaque), 'str' (constant string), 'ref', 'fn'
  struct   ('struct', label, (field values...))          gates are pushed into the fields
  enum     ('enum', label, ((variant, cond, fields),...)) conditions are disjoint
  list     ('list', ((cond, 'e'|'s', value), ...))        guarded sequence of elements / splices
  ns       ('ns', base, ((cond, key, value|None), ...))   a storage namespace with guarded writes
"""
import math
import sys, time
from math import gcd

sys.setrecursionlimit(20000)


class T:
    __slots__ = ("id", "tag", "args", "x")

    def __init__(self, i, tag, args):
        self.id, self.tag, self.args, self.x = i, tag, args, None

    def __repr__(self):
        return show(self)


_tab = {}


def mk(tag, *args):
    key = (tag,) + args
    t = _tab.get(key)
    if t is None:
        if LIMIT and len(_tab) + len(_ite_memo) > LIMIT[-1]:
            raise Exhausted
        if not len(_tab) & 0xffff:
            overall()
        t = T(len(_tab), tag, args)
        _tab[key] = t
    return t


class Exhausted(Exception):
    """the effort allowed for an optional comparison is used up"""


class TooHard(Exception):
    """the analysis as a whole grew beyond its bounds"""


def overall():
    if len(_tab) + len(_ite_memo) > 12000000 or time.monotonic() - T0 > 720:
        raise TooHard("analysis exceeds its size or time bound")


T0 = time.monotonic()
LIMIT = []           # bounds on the number of terms, innermost last
_ite_memo = {}


def within(effort, f, default):
    """f(), or the default once it has created too many terms"""
    b = len(_tab) + len(_ite_memo) + effort
    LIMIT.append(min(b, LIMIT[-1]) if LIMIT else b)
    try:
        return f()
    except Exhausted:
        return default
    finally:
        LIMIT.pop()


TRUE = mk("T")
FALSE = mk("F")
UNDEF = mk("undef")
BOT = mk("bot")

# ------------------------------------------------------------------ atoms / decision diagrams
ATOMS = []          # index -> atom term
_atom_ix = {}
LEVEL_CB = []


def atom_var(t):
    """boolean diagram testing the atom term t"""
    i = _atom_ix.get(t)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(t)
        _atom_ix[t] = i
    return node(i, TRUE, FALSE)


def node(v, hi, lo):
    if hi is lo:
        return hi
    if hi.tag == "poly" and lo.tag == "poly" and ATOMS[v].tag == "eq0":
        r = ceiling(ATOMS[v].args[0], hi, lo)
        if r is not None:
            return r
    return mk("ite", v, hi, lo)


def ceiling(p, hi, lo):
    """if n mod K = 0 then floor(n/K) else floor(n/K)+1 is ceil(n/K) = floor((n+K-1)/K)"""
    d = padd(lo, hi, -1)
    if not is_const(d):
        return None
    d = cval(d)
    if p.tag != "poly":
        return None
    if len(p.args[0]) == 1 and len(p.args[0][0][0]) == 1 and p.args[0][0][0][0].tag == "app" and p.args[0][0][0][0].args[0] == "mod":
        n, k = (as_poly(x) for x in p.args[0][0][0][0].args[1])
        if is_const(k) and cval(k) > 1 and prange(n)[0] >= 0:
            q = fdiv_leaf(n, k)
            if any(dict(hi.args[0]).get(m) == d * c for m, c in q.args[0] if m):
                return padd(padd(hi, q, -d), fdiv_leaf(padd(n, const(cval(k) - 1)), k), d)
        return None
    for m, c in p.args[0]:
        if len(m) == 1 and m[0].tag == "app" and m[0].args[0] == "fdiv" and abs(c) > 1 and dict(hi.args[0]).get(m) == d:
            n, k = padd(p, poly({m: 1}), -c), abs(c)
            if c > 0:
                n = pscale(n, -1)
            if fdiv_leaf(n, const(k)) is as_poly(m[0]) and prange(n)[0] >= 0:
                return padd(padd(hi, poly({m: 1}), -d), fdiv_leaf(padd(n, const(k - 1)), const(k)), d)
    return None


def var_of(a):
    return a.args[0] if a.tag == "ite" else 1 << 60


def cof(a, v):
    if a.tag == "ite" and a.args[0] == v:
        return a.args[1], a.args[2]
    return a, a


def ite(c, a, b):
    """leaf-level if-then-else on diagrams"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c, a, b)
    r = _ite_memo.get(k)
    if r is None:
        v = min(var_of(c), var_of(a), var_of(b))
        c1, c0 = cof(c, v)
        a1, a0 = cof(a, v)
        b1, b0 = cof(b, v)
        r = node(v, ite(c1, a1, b1), ite(c0, a0, b0))
        _ite_memo[k] = r
    return r


def AND(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
        if r is FALSE:
            return r
    return r


def OR(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
    return r


def NOT(a):
    return ite(a, FALSE, TRUE)


def IFF(a, b):
    return ite(a, b, NOT(b))


def implies(a, b):
    return AND(a, NOT(b)) is FALSE


_restrict_memo = {}


def restrict(f, c):
    """simplify f assuming c (agrees with f wherever c holds)"""
    if f.tag != "ite" or c is TRUE:
        return f
    if c is FALSE:
        return f
    k = (f, c)
    r = _restrict_memo.get(k)
    if r is not None:
        return r
    vf, vc = f.args[0], var_of(c)
    if vc < vf:
        c1, c0 = c.args[1], c.args[2]
        if c1 is FALSE:
            r = restrict(f, c0)
        elif c0 is FALSE:
            r = restrict(f, c1)
        else:
            r = restrict(f, OR(c1, c0))
    else:
        c1, c0 = cof(c, vf)
        if c1 is FALSE:
            r = restrict(f.args[2], c0)
        elif c0 is FALSE:
            r = restrict(f.args[1], c1)
        else:
            r = node(vf, restrict(f.args[1], c1), restrict(f.args[2], c0))
    _restrict_memo[k] = r
    return r


def cofactor(f, assign, memo=None):
    """substitute constants for atom variables: assign maps var index -> bool"""
    if memo is None:
        memo = {}
    if f.tag != "ite":
        return f
    r = memo.get(f)
    if r is None:
        v, hi, lo = f.args
        if v in assign:
            r = cofactor(hi if assign[v] else lo, assign, memo)
        else:
            r = ite(node(v, TRUE, FALSE), cofactor(hi, assign, memo), cofactor(lo, assign, memo))
        memo[f] = r
    return r


def exists_vars(f, vs, memo=None):
    if memo is None:
        memo = {}
    if f.tag != "ite":
        return f
    r = memo.get(f)
    if r is None:
        v, hi, lo = f.args
        h, l = exists_vars(hi, vs, memo), exists_vars(lo, vs, memo)
        r = OR(h, l) if v in vs else ite(node(v, TRUE, FALSE), h, l)
        memo[f] = r
    return r


def support(f, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [f]
    while st:
        x = st.pop()
        if x in seen or x.tag != "ite":
            continue
        seen.add(x)
        acc.add(x.args[0])
        st += [x.args[1], x.args[2]]
    return acc


def leaves(f):
    out, seen, st = [], set(), [f]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.tag == "ite":
            st += [x.args[2], x.args[1]]
        else:
            out.append(x)
    return out


def dd_size(f):
    seen, st = set(), [f]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.tag == "ite":
            st += [x.args[2], x.args[1]]
    return len(seen)


def lift(fn, *args):
    """apply fn (on leaves, returning a value diagram) pointwise over diagrams"""
    memo = {}

    def go(xs):
        r = memo.get(xs)
        if r is not None:
            return r
        v = min(var_of(x) for x in xs) if xs else 1 << 60
        if v == 1 << 60:
            r = fn(*xs)
        else:
            hs, ls = [], []
            for x in xs:
                h, l = cof(x, v)
                hs.append(h)
                ls.append(l)
            h, l = go(tuple(hs)), go(tuple(ls))
            r = vite(node(v, TRUE, FALSE), h, l)
        memo[xs] = r
        return r

    return go(tuple(args))


# ------------------------------------------------------------------ structured values
LEAFISH = {"ite", "T", "F", "poly", "sym", "app", "proj", "str", "ref", "fn", "undef", "bot", "elem", "float"}


def struct(label, *fields):
    return mk("struct", label, tuple(fields))


UNIT = struct("()")


def enum(label, alts):
    """alts: iterable of (variant, cond, fields)"""
    return mk("enum", label, tuple(sorted(((v, c, tuple(f)) for v, c, f in alts if c is not FALSE), key=lambda x: x[0])))


def variant(label, v, *fields):
    return enum(label, [(v, TRUE, fields)])


def vlist(items):
    return mk("list", tuple(it for it in items if it[0] is not FALSE))


def is_bool(v):
    return v is TRUE or v is FALSE or (v.tag == "ite" and is_bool(v.args[1]))


def vite(c, a, b):
    """if-then-else on arbitrary values"""
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a is UNDEF or a is BOT:
        return b
    if b is UNDEF or b is BOT:
        return a
    if a.tag == "struct" and b.tag == "struct" and len(a.args[1]) == len(b.args[1]) and (a.args[0] == b.args[0] or not a.args[0].startswith("closure:")):
        return mk("struct", a.args[0], tuple(vite(c, x, y) for x, y in zip(a.args[1], b.args[1])))
    if a.tag == "enum" and b.tag == "enum":
        d = {}
        for v, cc, f in a.args[1]:
            d[v] = [AND(c, cc), f]
        nc = NOT(c)
        for v, cc, f in b.args[1]:
            if v in d:
                if d[v][1] is not f and d[v][1] != f:
                    d[v] = [ite(c, d[v][0], cc), tuple(vite(c, x, y) for x, y in zip(d[v][1], f))]
                else:
                    d[v] = [ite(c, d[v][0], cc), f]
            else:
                d[v] = [AND(nc, cc), f]
        return enum(a.args[0], [(v, cc, f) for v, (cc, f) in d.items()])
    if a.tag == "list" and b.tag == "list":
        A, B = a.args[0], b.args[0]
        n = 0
        while n < len(A) and n < len(B) and A[n] == B[n]:
            n += 1
        nc = NOT(c)
        suf = [(AND(c, x[0]), x[1], x[2]) for x in A[n:]] + [(AND(nc, x[0]), x[1], x[2]) for x in B[n:]]
        return vlist(list(A[:n]) + suf)
    if a.tag == "ns" and b.tag == "ns" and a.args[0] is b.args[0]:
        A, B = a.args[1], b.args[1]
        n = 0
        while n < len(A) and n < len(B) and A[n] == B[n]:
            n += 1
        nc = NOT(c)
        suf = tuple((AND(c, x[0]), x[1], x[2]) for x in A[n:]) + tuple((AND(nc, x[0]), x[1], x[2]) for x in B[n:])
        suf = tuple(x for x in suf if x[0] is not FALSE)
        return mk("ns", a.args[0], A[:n] + suf)
    if a.tag in LEAFISH and b.tag in LEAFISH:
        if a.tag == "poly" and b.tag == "poly":
            c, a, b = tie(c, a, b)
        return ite(c, a, b)
    # mixed shapes (e.g. ns with different bases): keep as opaque choice
    return mk("choice", c, a, b)


def tie(c, a, b):
    """where a and b agree at the boundary of the comparison c, move the boundary case to one fixed side,
    so that `if x < y {x} else {y}` and `if x <= y {x} else {y}` are the same value"""
    if c.tag != "ite" or ATOMS[c.args[0]].tag not in ("ltk", "eq0", "neg"):
        return c, a, b
    t = ATOMS[c.args[0]]
    q = t.args[0]
    if t.tag == "ltk":
        k = t.args[1]
        if c is NOT(atom_var(t)):
            c, a, b = NOT(c), b, a
        elif c is not atom_var(t):
            return c, a, b
    else:
        z, n = _Z(q), _N(q)
        for form, kk, neg in ((AND(NOT(z), n), 0, False), (OR(z, n), 1, False), (OR(z, NOT(n)), 0, True), (AND(NOT(z), NOT(n)), 1, True)):
            if c is form:
                k = kk
                if neg:
                    c, a, b = NOT(c), b, a
                break
        else:
            return c, a, b
    if divides(padd(q, const(-k)), padd(a, b, -1)):
        c = plt0(padd(q, const(-k - 1)))
    return c, a, b


def divides(l, d):
    """is d a monomial multiple of the linear form l?"""
    if not d.args[0] or len(d.args[0]) != len(l.args[0]) or len(l.args[0]) > 6:
        return False
    m0, c0 = l.args[0][0]
    for m1, c1 in d.args[0]:
        if c1 % c0:
            continue
        r = list(m1)
        try:
            for f in m0:
                r.remove(f)
        except ValueError:
            continue
        if pmul(poly({tuple(r): c1 // c0}), l) is d:
            return True
    return False


def vrestrict(v, c, depth=0):
    if c is TRUE:
        return v
    if v.tag == "ite":
        return restrict(v, c)
    if v.tag == "struct":
        fs = tuple(vrestrict(x, c) for x in v.args[1])
        return v if fs == v.args[1] else mk("struct", v.args[0], fs)
    if v.tag == "enum":
        alts = []
        for k, cc, f in v.args[1]:
            cc2 = restrict(cc, c)
            if cc2 is FALSE or AND(cc2, c) is FALSE:
                continue
            alts.append((k, cc2, tuple(vrestrict(x, c) for x in f)))
        return enum(v.args[0], alts) if alts else v
    if v.tag == "list":
        out = []
        for cc, k, x in v.args[0]:
            c2 = restrict(cc, c)
            if c2 is FALSE:
                continue
            out.append((c2, k, vrestrict(x, c)))
        return vlist(out)
    if v.tag == "choice":
        cc = restrict(v.args[0], c)
        return vite(cc, vrestrict(v.args[1], c), vrestrict(v.args[2], c))
    return v


# ------------------------------------------------------------------ polynomials
def poly(d):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda mc: (len(mc[0]), [t.id for t in mc[0]])))
    return mk("poly", items)


def const(n):
    return poly({(): n})


ZERO = const(0)
ONE = const(1)


def is_const(p):
    return p.tag == "poly" and (len(p.args[0]) == 0 or (len(p.args[0]) == 1 and p.args[0][0][0] == ()))


def cval(p):
    return p.args[0][0][1] if p.args[0] else 0


def as_poly(t):
    if t.tag == "poly":
        return t
    return poly({(t,): 1})


def padd(a, b, s=1):
    d = dict(a.args[0])
    for m, c in b.args[0]:
        d[m] = d.get(m, 0) + s * c
    return poly(d)


def pmul(a, b):
    d = {}
    for m1, c1 in a.args[0]:
        for m2, c2 in b.args[0]:
            m = tuple(sorted(m1 + m2, key=lambda t: t.id))
            d[m] = d.get(m, 0) + c1 * c2
    return poly(d)


def pscale(a, k):
    return poly({m: c * k for m, c in a.args[0]})


TWO = const(2)
INF = float("inf")
RANGES = {}     # atomic term -> (lo, hi)


def trange(t):
    r = RANGES.get(t)
    return r if r is not None else (-INF, INF)


def set_range(t, lo, hi):
    RANGES[t] = (lo, hi)
    return t


_pr_memo = {}


def prange(p):
    r = _pr_memo.get(p)
    if r is not None:
        return r
    lo = hi = 0
    for m, c in p.args[0]:
        a, b = 1, 1
        for t in m:
            l, h = trange(t)
            c4 = []
            for x in (a, b):
                for y in (l, h):
                    c4.append(0 if (x == 0 or y == 0) else x * y)
            a, b = min(c4), max(c4)
        if len(m) == 2:
            for u, w in ((m[0], m[1]), (m[1], m[0])):
                # d * floor(n / d) lies between n - d + 1 and n
                if u.tag == "app" and u.args[0] == "fdiv" and u.args[1][1] is as_poly(w) and trange(w)[0] >= 1 and u.args[1][0] is not p:
                    nl, nh = prange(u.args[1][0])
                    if nl >= 0:
                        a, b = max(a, nl - trange(w)[1] + 1), min(b, nh)
        if c >= 0:
            lo, hi = lo + c * a if a != -INF else -INF, hi + c * b if b != INF else INF
        else:
            lo, hi = lo + c * b if b != INF else -INF, hi + c * a if a != -INF else INF
    for m, c in p.args[0]:
        # the next set bit from k lies at or above k, the previous one at or below it
        if len(m) == 1 and m[0].tag == "app" and m[0].args[0] in ("nextbit", "prevbit") and len(p.args[0]) > 1:
            up = m[0].args[0] == "nextbit"
            k = m[0].args[1][1]
            r = trange(m[0])[1] if up else prange(k)[1]
            if r == INF:
                continue
            q = padd(padd(p, pscale(as_poly(m[0]), -c)), pscale(k, c))
            if len(q.args[0]) < len(p.args[0]):
                a, b = prange(q)
                e = c if up else -c
                lo, hi = max(lo, a + min(0, e * r)), min(hi, b + max(0, e * r))
    _pr_memo[p] = (lo, hi)
    return lo, hi


def content(p):
    g = 0
    for m, c in p.args[0]:
        g = gcd(g, abs(c))
    return g


def _norm_lin(p):
    """p -> (q, k, flip): p<0 <=> q<k (or q>... ) with q constant-free, primitive, leading coefficient > 0"""
    c = 0
    d = {}
    for m, k in p.args[0]:
        if m == ():
            c = k
        else:
            d[m] = k
    q = poly(d)
    g = content(q)
    flip = False
    if q.args[0] and q.args[0][-1][1] < 0:
        flip = True
    return q, c, g, flip


def _Z(q):
    return atom_var(mk("eq0", q))


def _N(q):
    return atom_var(mk("neg", q))


def lt_const(q, k):
    """q < k for primitive constant-free q with positive leading coefficient"""
    lo, hi = prange(q)
    if hi < k:
        return TRUE
    if lo >= k:
        return FALSE
    fg = common_factor(q)
    if fg is not None:
        # q = f*g with f >= 0
        f, g = fg
        if k == 0:
            return AND(NOT(peq0(f)), plt0(g))
        if k == 1:
            return OR(peq0(f), plt0(g), peq0(g))
        if k > 1:
            return OR(peq0(f), plt0(g), peq0(g), atom_var(mk("ltk", q, k)))
        return AND(NOT(peq0(f)), plt0(g), atom_var(mk("ltk", q, k)))
    t = lone(q)
    if k > 1 and t is not None and t.tag == "app" and t.args[0] == "fdiv" and is_const(t.args[1][1]) and prange(t.args[1][0])[0] >= 0:
        # floor(n/c) < k exactly when n < c*k
        n, c = t.args[1][0], cval(t.args[1][1])
        if c > 0 and c not in WIDTHS:
            return plt0(padd(n, const(-c * k)))
    # canonical thresholds around zero share the eq0/neg pair of q
    if k in (0, 1) and lo < 0 and t is not None and t.tag == "app" and t.args[0] == "mod":
        # a remainder has the sign of the dividend
        z = eq_const(q, 0)
        return AND(NOT(z), plt0(t.args[1][0])) if k == 0 else OR(z, plt0(t.args[1][0]))
    if k == 0:
        return AND(NOT(_Z(q)), _N(q)) if lo < 0 else FALSE
    if k == 1:
        if lo >= 0:
            return eq_const(q, 0)
        return OR(_Z(q), _N(q))
    if lo == k - 1:
        return eq_const(q, k - 1)
    if hi == k:
        return NOT(eq_const(q, k))
    return atom_var(mk("ltk", q, k))


WIDTHS = {1 << 64, 1 << 128, 1 << 192, 1 << 256, 1 << 320}


def lone(q):
    """the single factor of a poly that is just that factor"""
    if len(q.args[0]) == 1 and q.args[0][0][1] == 1 and len(q.args[0][0][0]) == 1:
        return q.args[0][0][0][0]
    return None


def common_factor(q):
    """q = f*g with f a known non-negative factor shared by all of q's (at least two) terms"""
    ms = q.args[0]
    if len(ms) < 2:
        return None
    for f in ms[0][0]:
        if all(f in m for m, c in ms) and trange(f)[0] >= 0:
            d = {}
            for m, c in ms:
                m = list(m)
                m.remove(f)
                d[tuple(m)] = c
            return as_poly(f), poly(d)
    return None


def eq_const(q, k):
    if k == 0 and len(q.args[0]) == 1:
        # a filtered list is empty when nothing in the list qualifies
        (m, co), = q.args[0]
        if co == 1 and len(m) == 1 and m[0].tag == "app" and m[0].args[0] == "len" and m[0].args[1][0].tag == "app" and m[0].args[1][0].args[0] in ("filter", "filter_map"):
            from .models import exists_atom
            x = m[0].args[1][0]
            if x.args[1][0].tag in ("app", "sym", "proj"):
                return NOT(exists_atom(x.args[1][0], x.args[1][1]))
    if k == 0 and len(q.args[0]) == 2:
        # a filtered list is as long as the list itself when everything in it qualifies
        (m, c), (n, d) = q.args[0]
        if len(m) == len(n) == 1 and c == -d and abs(c) == 1 and all(t.tag == "app" and t.args[0] == "len" for t in m + n):
            from .models import exists_atom
            for a, b in ((m[0].args[1][0], n[0].args[1][0]), (n[0].args[1][0], m[0].args[1][0])):
                if a.tag == "app" and a.args[0] == "filter" and a.args[1][0] is b and b.tag in ("app", "sym", "proj"):
                    return NOT(exists_atom(b, NOT(a.args[1][1])))
    lo, hi = prange(q)
    if k < lo or k > hi:
        return FALSE
    if lo == hi:
        return TRUE
    if k == 0:
        if len(q.args[0]) == 1 and len(q.args[0][0][0]) == 1 and q.args[0][0][0][0].tag == "app" and q.args[0][0][0][0].args[0] == "mod":
            # divisibility does not depend on added multiples of the divisor
            n, d = q.args[0][0][0][0].args[1]
            u, r = multiple_of(n, d)
            if u is not ZERO:
                return EQI(mod_leaf(r, d), ZERO)
        fg = common_factor(q)
        if fg is not None:
            return OR(peq0(fg[0]), peq0(fg[1]))
        ms = q.args[0]
        if len(ms) > 1 and all(c > 0 and m != () and all(trange(t)[0] >= 0 for t in m) for m, c in ms):
            # a sum of non-negative terms vanishes when each of them does
            return AND(*[peq0(poly({m: 1})) for m, c in ms])
        if len(ms) == 1 and len(ms[0][0]) > 1:
            return OR(*[peq0(as_poly(t)) for t in ms[0][0]])
        t = lone(q)
        if t is not None and t.tag == "app" and t.args[0] in ("and", "shl"):
            w = bits_between(t)
            if w is not None:
                return EQI(w, ZERO)
        if t is not None and t.tag == "app" and t.args[0] == "fdiv" and is_const(t.args[1][1]) and not neg_const(t.args[1][0]):
            # floor(n/c) = 0 exactly when n < c (n is non-negative)
            n, c = t.args[1][0], cval(t.args[1][1])
            if c in WIDTHS:
                return NOT(atom_var(mk("ovf", n, c.bit_length() - 1))) if prange(n)[1] >= c else TRUE
            return plt0(padd(n, const(-c)))
        return _Z(q)
    return atom_var(mk("eqk", q, k))


def plt0(p):
    """p < 0"""
    if is_const(p):
        return TRUE if cval(p) < 0 else FALSE
    p = positive_part(p)
    lo, hi = prange(p)
    if hi < 0:
        return TRUE
    if lo >= 0:
        return FALSE
    q, c, g, flip = _norm_lin(p)
    if flip:
        # -q' + c < 0  <=> q' > c/g  <=> not(q' <= c/g) <=> not (q' < floor(c/g)+1)
        q2 = poly({m: -k // g for m, k in q.args[0]})
        return NOT(lt_const(q2, c // g + 1))
    q2 = poly({m: k // g for m, k in q.args[0]})
    # g q2 + c < 0 <=> q2 < -c/g <=> q2 < ceil(-c/g)
    return lt_const(q2, -(c // g))


def positive_part(p):
    """p without the factors common to all its terms that are known to be positive"""
    ms = p.args[0]
    if len(ms) < 2:
        return p
    for f in ms[0][0]:
        if all(f in m for m, c in ms) and prange(as_poly(f))[0] >= 1:
            d = {}
            for m, c in ms:
                m = list(m)
                m.remove(f)
                d[tuple(m)] = c
            return positive_part(poly(d))
    return p


def peq0(p):
    if is_const(p):
        return TRUE if cval(p) == 0 else FALSE
    p = positive_part(p)
    if is_const(p):
        return TRUE if cval(p) == 0 else FALSE
    q, c, g, flip = _norm_lin(p)
    if c % g:
        return FALSE
    s = -1 if flip else 1
    q2 = poly({m: s * k // g for m, k in q.args[0]})
    k = -s * c // g
    return eq_const(q2, k)


def LT(a, b):
    return lift(lambda x, y: plt0(padd(as_poly(x), as_poly(y), -1)), a, b)


def LE(a, b):
    return NOT(LT(b, a))


def EQI(a, b):
    return lift(lambda x, y: peq0(padd(as_poly(x), as_poly(y), -1)), a, b)


def ADD(a, b):
    return lift(lambda x, y: padd(as_poly(x), as_poly(y)), a, b)


def sub_leaf(x, y):
    x, y = as_poly(x), as_poly(y)
    # n - d*(n/d) is the remainder, n - n%d the rounded-down multiple
    for m, c in y.args[0][:2] if len(y.args[0]) <= 2 else ():
        for t in m:
            if t.tag == "app" and t.args[0] in ("fdiv", "mod") and t.args[1][0] is x and prange(x)[0] >= 0 and prange(t.args[1][1])[0] >= 0:
                d = t.args[1][1]
                if t.args[0] == "fdiv" and y is pmul(d, as_poly(t)):
                    return mod_leaf(x, d)
                if t.args[0] == "mod" and y is as_poly(t):
                    return lift(lambda q: pmul(d, as_poly(q)), DIV(x, d))
    # the same with a constant divisor, however the quotient was simplified
    if y.args[0] and not is_const(y):
        k = math.gcd(*[c for m, c in y.args[0]])
        if k > 1 and fdiv_leaf(x, const(k), True) is poly({m: c // k for m, c in y.args[0]}):
            return mod_leaf(x, const(k))
    r = padd(x, y, -1)
    for m, c in y.args[0]:
        # -a + a%d inside a longer difference: minus the rounded-down multiple
        if len(m) == 1 and m[0].tag == "app" and m[0].args[0] == "mod":
            a, d = m[0].args[1]
            k = dict(r.args[0]).get(m, 0)
            if k and prange(a)[0] >= 0 and prange(d)[0] >= 0:
                rest = padd(padd(r, pscale(a, k)), pscale(as_poly(m[0]), k), -1)
                if len(rest.args[0]) == len(r.args[0]) - 1 - len(a.args[0]):
                    return lift(lambda q: padd(rest, pscale(pmul(d, as_poly(q)), -k)), DIV(a, d))
    return r


def SUB(a, b):
    return lift(sub_leaf, a, b)


def MUL(a, b):
    return lift(lambda x, y: pmul(as_poly(x), as_poly(y)), a, b)


def app(f, *args, rng=None):
    t = mk("app", f, args)
    if rng is not None and t not in RANGES:
        RANGES[t] = rng
    return t


def fdiv_leaf(n, d, signed=False):
    """floor division; the machine's truncating division agrees whenever the operands are non-negative
    (always for unsigned types); signed operands of unknown sign get the distinct name tdiv"""
    n, d = as_poly(n), as_poly(d)
    trunc = signed and (prange(n)[0] < 0 or prange(d)[0] < 0)
    if trunc and prange(n)[1] <= 0 and prange(d)[0] >= 0:
        # truncation rounds a non-positive quotient towards zero
        return pscale(fdiv_leaf(pscale(n, -1), d), -1)
    if is_const(d) and cval(d) != 0:
        k = cval(d)
        if is_const(n):
            q = abs(cval(n)) // abs(k)
            return const(q if (cval(n) >= 0) == (k > 0) else -q)
        if k == 1:
            return n
        if k > 0:
            whole, rest = {}, {}
            for m, c in n.args[0]:
                if c % k == 0:
                    whole[m] = c // k
                else:
                    rest[m] = c
            if not rest:
                return poly(whole)
            if not trunc:
                rm = {m: c for m, c in rest.items() if len(m) == 1 and m[0].tag == "app" and m[0].args[0] == "mod" and is_const(m[0].args[1][1])
                      and cval(m[0].args[1][1]) % k == 0 and cval(m[0].args[1][1]) > k > 1 and prange(m[0].args[1][0])[0] >= 0}
                if len(rm) == 1 and len(rest) == 1 and list(rm.values()) == [1]:
                    # floor((n mod b*k) / k) = floor(n/k) - b*floor(n/(b*k))
                    a, b = list(rm)[0][0].args[1]
                    q = padd(fdiv_leaf(a, d), pscale(fdiv_leaf(a, b), cval(b) // k), -1)
                    return padd(poly(whole), q)
                if whole and splittable(rest):
                    return padd(poly(whole), fdiv_leaf(poly(rest), d))
                # nested division by constants: floor(floor(a/b)/c) = floor(a/(bc))
                if len(n.args[0]) == 1 and n.args[0][0][1] == 1 and len(n.args[0][0][0]) == 1:
                    t = n.args[0][0][0][0]
                    if t.tag == "app" and t.args[0] == "fdiv":
                        n2, d2 = t.args[1]
                        if is_const(d2) and cval(d2) > 0:
                            return fdiv_leaf(n2, const(cval(d2) * k))
                # floor((A + floor(n2/k2)) / k) = floor((k2*A + n2) / (k*k2))
                fl = [m[0] for m, c in n.args[0] if c == 1 and len(m) == 1 and m[0].tag == "app" and m[0].args[0] == "fdiv" and is_const(m[0].args[1][1])]
                if len(fl) == 1 and len(n.args[0]) > 1:
                    n2, d2 = fl[0].args[1]
                    rest = padd(n, as_poly(fl[0]), -1)
                    return fdiv_leaf(padd(pscale(rest, cval(d2)), n2), const(k * cval(d2)))
                if lone(n) is not None and lone(n).tag == "app" and lone(n).args[0] == "fdiv" and not (k >= 1 << 64 and k & (k - 1) == 0):
                    n2, d2 = lone(n).args[1]
                    return fdiv_leaf(n2, pscale(d2, k))
                g = gcd(content(var_part(n)), k)
                if g > 1:
                    return fdiv_leaf(poly({m: c // g for m, c in n.args[0]}), const(k // g))
        return single(_fd(n, d, trunc))
    if n is ZERO:
        return ZERO
    if n is d:
        return ONE
    t = lone(n)
    if t is not None and t.tag == "app" and t.args[0] == "mod" and prange(as_poly(t.args[1][1]))[0] > 0 and prange(n)[0] >= 0 and prange(padd(d, as_poly(t.args[1][1]), -1))[0] >= 0:
        return ZERO      # a remainder is below its divisor
    k2 = as_pow2(d)
    if k2 is not None:
        d = pow2(k2, 256)
    g = gcd(content(n if trunc else var_part(n)), content(d))
    if g > 1:
        # floor((gA + r) / (gB)) = floor((A + floor(r/g)) / B)
        n = poly({m: c // g for m, c in n.args[0]})
        d = poly({m: c // g for m, c in d.args[0]})
    if not trunc and len(d.args[0]) > 1:
        m0, c0 = d.args[0][-1]
        cn = dict(n.args[0]).get(m0, 0)
        if m0 != () and cn and cn % c0 == 0:
            w = cn // c0
            rest = padd(n, pscale(d, w), -1)
            if not any(m == m0 for m, c in rest.args[0]) and splittable(dict(rest.args[0])):
                return padd(const(w), fdiv_leaf(rest, d))
    if not trunc:
        # split multiples of the divisor: floor((w*d + r)/d) = w + floor(r/d)
        if len(d.args[0]) == 1 and d.args[0][0][1] == 1:
            dm = d.args[0][0][0]
            whole, rest = {}, {}
            for m, c in n.args[0]:
                q = list(m)
                ok = True
                for t in dm:
                    if t in q:
                        q.remove(t)
                    else:
                        ok = False
                        break
                if ok:
                    whole[tuple(q)] = c
                else:
                    rest[m] = c
            if whole and splittable(rest):
                return padd(poly(whole), fdiv_leaf(poly(rest), d) if rest else ZERO)
    return single(_fd(n, d, trunc))


def var_part(n):
    """n without its constant term"""
    return poly({m: c for m, c in n.args[0] if m != ()})


def single(t):
    """a term whose range is one number is that number"""
    lo, hi = trange(t)
    return const(lo) if lo == hi and t.args[0] == "fdiv" else as_poly(t)


def splittable(rest):
    """may the rest of a numerator be divided on its own? only if its sign is known up to a constant, so that the
    range given to the quotient is right"""
    if not rest:
        return True
    return prange(poly({m: c for m, c in rest.items() if m != ()}))[0] >= 0


def neg_const(n):
    """n = X - c with X >= 0 and c > 0: c"""
    c = dict(n.args[0]).get((), 0)
    if c < 0 and prange(padd(n, const(-c)))[0] >= 0:
        return -c
    return 0


def _fd(n, d, trunc=False):
    lo, hi = prange(n)
    dl, dh = prange(d)
    if trunc:
        m = max(abs(lo), abs(hi))
        return app("tdiv", n, d, rng=(-m, m))
    nc = neg_const(n)
    if nc:
        dl = cval(d) if is_const(d) else max(dl, 1)
        return app("fdiv", n, d, rng=((-nc) // dl, INF if hi == INF else max(hi, 0) // dl) if dl > 0 else (-INF, INF))
    lo, hi = max(lo, 0) if not is_const(n) and lo < 0 else lo, max(hi, 0)
    dl = cval(d) if is_const(d) else max(dl, 1)
    if dl <= 0:
        return app("fdiv", n, d, rng=(-INF, INF))
    return app("fdiv", n, d, rng=(0 if dh == INF else max(0, lo // max(dh, 1)) if lo != INF else 0, INF if hi == INF else hi // dl))


def DIV(a, b, signed=False):
    return lift(lambda x, y: fdiv_leaf(x, y, signed), a, b)


def multiple_of(n, d):
    """n = q*d + r: (q, r) with the terms of n that are multiples of the single-factor d in q"""
    if len(d.args[0]) != 1 or d.args[0][0][1] != 1 or len(d.args[0][0][0]) != 1:
        return ZERO, n
    f = d.args[0][0][0][0]
    q, r = {}, {}
    for m, c in n.args[0]:
        if f in m:
            m = list(m)
            m.remove(f)
            q[tuple(m)] = c
        else:
            r[m] = c
    return poly(q), poly(r)


def mod_leaf(n, d):
    n, d = as_poly(n), as_poly(d)
    if is_const(n) and is_const(d) and cval(d) != 0:
        a, b = cval(n), cval(d)
        r = abs(a) % abs(b)
        return const(r if a >= 0 else -r)
    lo, hi = prange(n)
    dl, dh = prange(d)
    if n is ZERO:
        return ZERO
    if hi <= 0:
        return lift(lambda q: pscale(as_poly(q), -1), mod_leaf(pscale(n, -1), d))
    if multiple_of(n, d)[1] is ZERO:
        return ZERO
    inner = [m for m, c in n.args[0] if len(m) == 1 and m[0].tag == "app" and m[0].args[0] == "mod" and m[0].args[1][1] is d]
    if inner:
        # a remainder is congruent to its dividend
        u = n
        for m in inner:
            u = padd(u, pscale(padd(m[0].args[1][0], as_poly(m[0]), -1), dict(n.args[0])[m]))
        if multiple_of(u, d)[1] is ZERO:
            return ZERO
    if d is TWO and lo >= 0:
        return vite(bit_of(n, ZERO), ONE, ZERO)
    k = as_pow2(d)
    if k is not None and d is not pow2(k, 256):
        d = pow2(k, 256)
    m = max(abs(dl), abs(dh))
    rng = (0 if lo >= 0 else (-m + 1 if m != INF else -INF), m - 1 if m != INF else INF)
    if rng[1] != INF and hi != INF and hi < rng[1]:
        rng = (rng[0], hi)
    return as_poly(app("mod", n, d, rng=rng))


# ------------------------------------------------------------------ single bits
def pow2(k, bits):
    """2**k for a symbolic exponent below `bits`"""
    lo, hi = prange(k)
    hi = min(hi, 255)
    return as_poly(app("pow2", k, rng=(1 << max(0, int(lo) if lo != -INF else 0), 1 << int(max(hi, 0)))))


def as_pow2(p):
    """exponent of a symbolic power of two"""
    if p.tag == "poly" and len(p.args[0]) == 1:
        m, c = p.args[0][0]
        if c > 0 and c & (c - 1) == 0 and len(m) == 1 and m[0].tag == "app" and m[0].args[0] == "pow2":
            return padd(m[0].args[1][0], const(c.bit_length() - 1))
    return None


def bit_of(x, k):
    """is bit k of x set?"""
    if x.tag == "poly" and len(x.args[0]) == 1 and x.args[0][0][1] == 1 and len(x.args[0][0][0]) == 1:
        t = x.args[0][0][0][0]
        if t.tag == "app" and t.args[0] in ("setbit", "clrbit"):
            v, j = t.args[1]
            return ite(EQI(j, k), TRUE if t.args[0] == "setbit" else FALSE, bit_of(v, k))
        if t.tag == "app" and t.args[0] == "pow2":
            return EQI(t.args[1][0], k)
        if t.tag == "app" and t.args[0] == "fdiv":
            j = as_pow2(t.args[1][1])
            if j is None and is_const(t.args[1][1]) and cval(t.args[1][1]) & (cval(t.args[1][1]) - 1) == 0:
                j = const(cval(t.args[1][1]).bit_length() - 1)
            if j is not None:
                return bit_of(t.args[1][0], padd(j, k))
    if is_const(x) and is_const(k):
        return TRUE if cval(x) >> cval(k) & 1 else FALSE
    if x is ZERO:
        return FALSE
    if len(x.args[0]) > 1 and is_const(k) and cval(k) == 0:
        # the parity of a sum depends on the odd coefficients only
        odd = poly({m: 1 for m, c in x.args[0] if c % 2})
        if odd is not x:
            return bit_of(odd, k)
    return atom_var(mk("app", "bit", (x, k)))


def mask_bits(t):
    """(word, lo, hi, top) when the term t keeps exactly the bits lo..=hi of a word whose highest is top"""
    if t.tag != "app" or t.args[0] != "and":
        return None
    from .models import mask_of
    for i in (0, 1):
        w, m = as_poly(t.args[1][i]), as_poly(t.args[1][1 - i])
        top = prange(w)[1]
        if top == INF or prange(w)[0] < 0:
            continue
        for bits in (32, 64, 128):
            if prange(m)[1] < 1 << bits and top < 1 << bits:
                r = mask_of(m, bits)
                if r is not None:
                    return w, r[0], r[1], bits - 1
    return None


def bits_between(t):
    """a simpler value that is zero exactly when the masked or shifted word t is"""
    if t.args[0] == "shl":
        x, k, bits = t.args[1]
        if prange(x)[0] < 0:            # the shift itself has checked 0 <= k < bits
            return None
        return lift(lambda e: mod_leaf(x, pow2(e, 256)), padd(const(bits), k, -1))
    r = mask_bits(t)
    if r is None:
        return None
    w, lo, hi, top = r
    if hi.tag != "poly" or lo.tag != "poly":
        return None
    if lo is ZERO:
        return mod_leaf(w, pow2(padd(hi, ONE), 256))
    if is_const(hi) and cval(hi) == top:
        return fdiv_leaf(w, pow2(lo, top + 1))
    return None


def next_bit(x, k):
    """the lowest set bit of x at or above position k (for an x that has one)"""
    x, k = as_poly(x), as_poly(k)
    if len(x.args[0]) == 1 and x.args[0][0][1] == 1 and len(x.args[0][0][0]) == 1:
        t = x.args[0][0][0][0]
        if t.tag == "app" and t.args[0] == "fdiv" and as_pow2(t.args[1][1]) is not None:
            j = as_pow2(t.args[1][1])
            return padd(next_bit(t.args[1][0], padd(j, k)), j, -1)
        if k is ZERO and t.tag == "app" and t.args[0] == "shl":
            return padd(next_bit(t.args[1][0], ZERO), t.args[1][1])
        if k is ZERO:
            r = mask_bits(t)
            if r is not None and r[1].tag == "poly":
                return next_bit(r[0], r[1])
    return as_poly(app("nextbit", x, k, rng=(max(0, prange(k)[0]), max(prange(x)[1], 1).bit_length() - 1 if prange(x)[1] != INF else INF)))


def prev_bit(x, k):
    """the highest set bit of x at or below position k (for an x that has one)"""
    x, k = as_poly(x), as_poly(k)
    if len(x.args[0]) == 1 and x.args[0][0][1] == 1 and len(x.args[0][0][0]) == 1:
        t = x.args[0][0][0][0]
        if t.tag == "app" and t.args[0] == "mod" and is_const(k):
            w, j = t.args[1][0], as_pow2(t.args[1][1])
            top = prange(w)[1]
            if j is not None and top != INF and cval(k) >= int(top).bit_length() - 1:
                return prev_bit(w, padd(j, ONE, -1))
        if t.tag == "app" and is_const(k) and t.args[0] == "shl" and cval(k) == t.args[1][2] - 1:
            return padd(prev_bit(t.args[1][0], padd(k, t.args[1][1], -1)), t.args[1][1])
        r = mask_bits(t) if is_const(k) else None
        if r is not None and r[3] <= cval(k) and r[2].tag == "poly":
            return prev_bit(r[0], r[2])
    top = prange(x)[1]
    return as_poly(app("prevbit", x, k, rng=(0, prange(k)[1] if top == INF else min(prange(k)[1], max(int(top), 1).bit_length() - 1))))


def put_bit(op, x, k, hi):
    """x with bit k set / cleared"""
    ks = [k]
    while x.tag == "poly" and len(x.args[0]) == 1 and x.args[0][0][1] == 1 and len(x.args[0][0][0]) == 1:
        t = x.args[0][0][0][0]
        if t.tag == "app" and t.args[0] == op:
            x = t.args[1][0]
            ks.append(t.args[1][1])
        elif t.tag == "app" and t.args[0] == "pow2" and op == "setbit":
            x = ZERO
            ks.append(t.args[1][0])
        else:
            break
    if x is ZERO and op == "clrbit":
        return ZERO
    for k in sorted(set(ks), key=lambda t: t.id):
        x = pow2(k, hi.bit_length()) if x is ZERO else as_poly(app(op, x, k, rng=(0, hi)))
    return x


def bit_op(op, x, k, hi):
    """x op 2**k for and / or / xor / andnot"""
    b = bit_of(x, k)
    if op == "and":
        return vite(b, pow2(k, hi.bit_length()), ZERO)
    if op == "or":
        return vite(b, x, put_bit("setbit", x, k, hi))
    if op == "andnot":
        return vite(b, put_bit("clrbit", x, k, hi), x)
    return vite(b, put_bit("clrbit", x, k, hi), put_bit("setbit", x, k, hi))


def REM(a, b):
    return lift(mod_leaf, a, b)


def eqv(a, b):
    """semantic equality of two values, as a boolean diagram"""
    if a is b:
        return TRUE
    if a.tag == "struct" and b.tag == "struct":
        if len(a.args[1]) != len(b.args[1]):
            return FALSE
        return AND(*[eqv(x, y) for x, y in zip(a.args[1], b.args[1])])
    if a.tag == "enum" and b.tag == "enum":
        r = FALSE
        db = {v: (c, f) for v, c, f in b.args[1]}
        for v, c, f in a.args[1]:
            if v in db:
                c2, f2 = db[v]
                r = OR(r, AND(c, c2, *[eqv(x, y) for x, y in zip(f, f2)]))
        return r
    if a.tag == "list" and b.tag == "list":
        return eq_list(a, b)
    if is_bool(a) and is_bool(b):
        return IFF(a, b)
    if a.tag in LEAFISH and b.tag in LEAFISH:
        return lift(eq_leaf, a, b)
    if a.tag == "choice":
        return ite(a.args[0], eqv(a.args[1], b), eqv(a.args[2], b))
    if b.tag == "choice":
        return eqv(b, a)
    x, y = (a, b) if a.id < b.id else (b, a)
    return atom_var(mk("eqt", x, y))


def eq_leaf(x, y):
    if x is y:
        return TRUE
    if x.tag == "poly" or y.tag == "poly":
        return peq0(padd(as_poly(x), as_poly(y), -1))
    if x.tag == "str" and y.tag == "str":
        return FALSE
    if x.id > y.id:
        x, y = y, x
    return atom_var(mk("eqt", x, y))


def piece_len(it):
    """static byte/element length of a list item, or None"""
    if it[1] == "e":
        return 1
    v = it[2]
    if v.tag == "app" and v.args[0] in ("be", "le"):
        return v.args[1][1]
    if v.tag == "str":
        return len(v.args[0].encode())
    return None


def eq_list(a, b):
    A, B = list(a.args[0]), list(b.args[0])
    if not all(x[0] is TRUE for x in A + B):
        if len(A) == len(B) and all(x[1] == y[1] and x[0] is y[0] for x, y in zip(A, B)):
            return AND(*[OR(NOT(x[0]), eqv(x[2], y[2])) for x, y in zip(A, B)])
        x, y = (a, b) if a.id < b.id else (b, a)
        return atom_var(mk("eqt", x, y))
    r = TRUE
    # strip aligned prefixes and suffixes
    changed = True
    while changed and A and B:
        changed = False
        for i in (0, -1):
            if not A or not B:
                break
            x, y = A[i], B[i]
            lx, ly = piece_len(x), piece_len(y)
            if x == y:
                A.pop(i), B.pop(i)
                changed = True
            elif i == 0 and x[1] == y[1] == "s" and is_lp(x[2]) and is_lp(y[2]):
                r = AND(r, eqv(x[2].args[1][0], y[2].args[1][0]))
                A.pop(0), B.pop(0)
                changed = True
            elif x[1] == y[1] and lx is not None and lx == ly:
                r = AND(r, eqv(unpiece(x[2]), unpiece(y[2])))
                A.pop(i), B.pop(i)
                changed = True
    if not A and not B:
        return r
    if len(A) == 1 and len(B) == 1 and A[0][1] == "s" and B[0][1] == "s":
        return AND(r, eqv(A[0][2], B[0][2]))
    def minlen(X):
        return sum((piece_len(p) or 0) for p in X)
    def fixed(X):
        return all(piece_len(p) is not None for p in X)
    if fixed(A) and fixed(B) and minlen(A) != minlen(B):
        return FALSE
    if (not A and minlen(B) > 0) or (not B and minlen(A) > 0):
        return FALSE
    x, y = vlist(A), vlist(B)
    if x.id > y.id:
        x, y = y, x
    return AND(r, atom_var(mk("eqt", x, y)))


def is_lp(v):
    return v.tag == "app" and v.args[0] == "lp"


def unpiece(v):
    if v.tag == "app" and v.args[0] in ("be", "le"):
        return v.args[1][0]
    return v


# ------------------------------------------------------------------ comparison under an assumption
def same_under(S, a, b, why=None, path=""):
    """a and b denote the same value wherever S holds"""
    if a is b or S is FALSE:
        return True
    if a.tag == "choice" or b.tag == "choice":
        if a.tag == "choice":
            return same_under(AND(S, a.args[0]), a.args[1], b, why, path) and same_under(AND(S, NOT(a.args[0])), a.args[2], b, why, path)
        return same_under(S, b, a, why, path)
    if a.tag == "struct" and b.tag == "struct" and len(a.args[1]) == len(b.args[1]):
        ok = True
        for i, (x, y) in enumerate(zip(a.args[1], b.args[1])):
            if not same_under(S, x, y, why, path + "." + str(i)):
                ok = False
                if why is None:
                    return False
        return ok
    if a.tag == "enum" and b.tag == "enum":
        da = {v: (c, f) for v, c, f in a.args[1]}
        db = {v: (c, f) for v, c, f in b.args[1]}
        ok = True
        for v in sorted(set(da) | set(db)):
            ca, fa = da.get(v, (FALSE, None))
            cb, fb = db.get(v, (FALSE, None))
            if AND(S, ca) is not AND(S, cb):
                ok = False
                if why is not None:
                    why.append((path + "#%d" % v, restrict(ca, S), restrict(cb, S)))
                continue
            s2 = AND(S, ca)
            if s2 is FALSE or fa is None or fb is None:
                continue
            for i, (x, y) in enumerate(zip(fa, fb)):
                if not same_under(s2, x, y, why, path + "#%d.%d" % (v, i)):
                    ok = False
        return ok
    if a.tag == "list" and b.tag == "list":
        A = norm_list(a, S)
        B = norm_list(b, S)
        if len(A) != len(B):
            if why is not None:
                why.append((path + "[]", vlist(A), vlist(B)))
            return False
        ok = True
        for i, (x, y) in enumerate(zip(A, B)):
            if x[1] != y[1] or AND(S, x[0]) is not AND(S, y[0]):
                ok = False
                if why is not None:
                    why.append((path + "[%d]" % i, vlist([x]), vlist([y])))
            elif not same_under(AND(S, x[0]), x[2], y[2], why, path + "[%d]" % i):
                ok = False
        return ok
    if a.tag in LEAFISH and b.tag in LEAFISH:
        r = ite(S, a, BOT) is ite(S, b, BOT)
        if not r:
            # pointwise: differing leaves may be equal terms with gated sub-terms
            r = lift(lambda s, x, y: TRUE if s is FALSE or x is y or leaf_same(x, y, S) else FALSE, S, a, b) is TRUE
        if not r and why is not None:
            why.append((path, restrict(a, S), restrict(b, S)))
        return r
    if why is not None:
        why.append((path, a, b))
    return False


def leaf_same(x, y, S):
    if x is y:
        return True
    if x.tag != y.tag:
        return False
    if x.tag == "app" and x.args[0] == y.args[0] and len(x.args[1]) == len(y.args[1]):
        for p, q in zip(x.args[1], y.args[1]):
            if isinstance(p, T) and isinstance(q, T):
                if not same_under(S, p, q):
                    return False
            elif p != q:
                return False
        return True
    return False


def norm_list(l, S):
    out = []
    for c, k, v in l.args[0]:
        c = restrict(c, S)
        if AND(S, c) is FALSE:
            continue
        if implies(S, c):
            c = TRUE
        if out and k == "e" and out[-1][1] == "e" and AND(S, c, out[-1][0]) is FALSE:
            p = out[-1]
            out[-1] = (OR(p[0], c), "e", vite(p[0], p[2], v))
            if implies(S, out[-1][0]):
                out[-1] = (TRUE, "e", out[-1][2])
            continue
        out.append((c, k, v))
    return out


# cut functions whose first two arguments may be exchanged (their own obligations show a symmetric value)
SYMMETRIC = {"get_delta_x", "get_delta_y"}


def symmetric(nm, xs):
    xs = list(xs)
    if nm in SYMMETRIC and len(xs) >= 2 and xs[0].id > xs[1].id:
        xs[0], xs[1] = xs[1], xs[0]
    return tuple(xs)


# ------------------------------------------------------------------ printing
def show(t, d=6):
    if not isinstance(t, T):
        return str(t)
    if d <= 0:
        return "…"
    g, a = t.tag, t.args
    if g == "T":
        return "true"
    if g == "F":
        return "false"
    if g == "poly":
        if not a[0]:
            return "0"
        out = []
        for m, c in a[0]:
            s = "*".join(show(x, d - 1) for x in m)
            if m == ():
                out.append(str(c))
            elif c == 1:
                out.append(s)
            elif c == -1:
                out.append("-" + s)
            else:
                out.append("%d*%s" % (c, s))
        return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0]
    if g == "sym":
        return a[0]
    if g == "str":
        return repr(a[0])
    if g == "app":
        return "%s(%s)" % (a[0], ", ".join(show(x, d - 1) for x in a[1]))
    if g == "proj":
        return "%s.%s" % (show(a[0], d), a[1])
    if g == "ite":
        return "if(%s, %s, %s)" % (show_atom(a[0], d - 1), show(a[1], d - 1), show(a[2], d - 1))
    if g == "struct":
        return "%s{%s}" % (a[0].split("::")[-1], ", ".join(show(x, d - 1) for x in a[1]))
    if g == "enum":
        return "<" + " | ".join("%s#%d when %s (%s)" % (a[0].split("::")[-1], v, show(c, d - 1), ", ".join(show(x, d - 1) for x in f)) for v, c, f in a[1]) + ">"
    if g == "list":
        return "[" + ", ".join(("" if c is TRUE else show(c, d - 1) + " => ") + ("*" if k == "s" else "") + show(v, d - 1) for c, k, v in a[0]) + "]"
    if g == "ns":
        return "ns(%s; %s)" % (show(a[0], d - 1), "; ".join("%s=>[%s]:=%s" % (show(c, d - 2), show(k, d - 1), show(v, d - 1) if v is not None else "∅") for c, k, v in a[1]))
    return "%s(%s)" % (g, ", ".join(show(x, d - 1) for x in a))


def show_atom(i, d=5):
    t = ATOMS[i]
    if t.tag == "eq0":
        return show(t.args[0], d) + "==0"
    if t.tag == "neg":
        return show(t.args[0], d) + "<0"
    if t.tag == "ltk":
        return "%s<%d" % (show(t.args[0], d), t.args[1])
    if t.tag == "eqk":
        return "%s==%d" % (show(t.args[0], d), t.args[1])
    if t.tag == "eqt":
        return "%s==%s" % (show(t.args[0], d), show(t.args[1], d))
    return show(t, d)
