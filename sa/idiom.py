"""Loops over a list that only search, flag or collect, summarised by the same element quantifiers as the iterator
methods (any / all / find / position / filter / map), so both ways of writing them mean the same."""
from .terms import *

BIG = (1 << 63) - 1


def subst(t, m, memo=None):
    """replace atomic symbols by values throughout a value"""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is None:
            r = go1(x)
            memo[x] = r
        return r

    def factor(x):
        v = go(x)
        return v if v.tag in ("poly", "ite") else as_poly(v)

    def go1(x):
        k = x.tag
        if x in m:
            return m[x]
        if k == "sym":
            return x
        if k in ("T", "F", "undef", "bot", "str", "fn"):
            return x
        if k == "poly":
            out = ZERO
            for mono, c in x.args[0]:
                p = const(c)
                for f in mono:
                    p = MUL(p, factor(f))
                out = ADD(out, p)
            return out
        if k == "ite":
            v, hi, lo = x.args
            return vite(atom(ATOMS[v]), go(hi), go(lo))
        if k == "app":
            n, a = x.args
            if n == "fdiv":
                return DIV(go(a[0]), go(a[1]))
            if n == "mod":
                return REM(go(a[0]), go(a[1]))
            na = go(a)
            if na == a:
                return x
            if n in ("and", "or", "xor") and len(na) == 2:
                full = (1 << 256) - 1
                for u, w in ((na[0], na[1]), (na[1], na[0])):
                    if w.tag == "poly" and as_pow2(w) is not None:
                        return lift(lambda q: bit_op(n, as_poly(q), as_pow2(w), full), u)
            if n == "bit":
                return lift(lambda p, q: bit_of(as_poly(p), as_poly(q)), na[0], na[1])
            if n == "nextbit":
                return lift(next_bit, *na)
            if n == "pow2":
                return lift(lambda q: pow2(as_poly(q), 256), na[0])
            y = mk("app", n, symmetric(n, na) if n in SYMMETRIC else na)
            if x in RANGES and y not in RANGES:
                RANGES[y] = RANGES[x]
            return y
        if k == "proj":
            y = mk("proj", go(x.args[0]), *x.args[1:])
            if x in RANGES and y not in RANGES:
                RANGES[y] = RANGES[x]
            return y
        if k == "list":
            return vlist([(go(c), kk, go(v)) for c, kk, v in x.args[0]])
        if k == "enum":
            return enum(x.args[0], [(v, go(c), go(f)) for v, c, f in x.args[1]])
        return mk(k, *[go(y) if isinstance(y, (T, tuple)) else y for y in x.args])

    def atom(a):
        k = a.tag
        if k == "eq0":
            return EQI(go(a.args[0]), ZERO)
        if k == "neg":
            return LT(go(a.args[0]), ZERO)
        if k == "ltk":
            return LT(go(a.args[0]), const(a.args[1]))
        if k == "eqk":
            return EQI(go(a.args[0]), const(a.args[1]))
        if k == "eqt":
            x, y = go(a.args[0]), go(a.args[1])
            return atom_var(a) if (x, y) == a.args else eqv(x, y)
        if k == "ovf" and len(a.args) == 2 and isinstance(a.args[0], T):
            p = go(a.args[0])
            if p is a.args[0]:
                return atom_var(a)
            bits = a.args[1]
            lo, hi = (0, (1 << bits) - 1) if bits > 0 else (-(1 << (-bits - 1)), (1 << (-bits - 1)) - 1)

            def one(q):
                q = as_poly(q)
                r = prange(q)
                if r[1] <= hi and (bits > 0 or r[0] >= lo):
                    return FALSE
                return atom_var(mk("ovf", q, bits))
            return lift(one, p)
        if k == "exists":
            from .models import exists_atom
            x, b = go(a.args[0]), go(a.args[1])
            return atom_var(a) if (x, b) == a.args else exists_atom(x, b)
        v = go(a)
        return v if is_bool(v) else atom_var(v)

    return go(t)


def syms(t, tag, seen=None, out=None):
    """symbols introduced by the loop `tag` that occur in t"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.tag == "sym":
            if isinstance(x.args[0], str) and x.args[0].startswith(tag + "."):
                out.add(x)
        elif x.tag == "ite":
            st.append(ATOMS[x.args[0]])
            st.extend(x.args[1:])
        else:
            st.extend(y for y in x.args if isinstance(y, (T, tuple)))
    return out


def one_sym(v, tag):
    """the loop symbol v consists of, if it is just one"""
    if v.tag == "poly" and len(v.args[0]) == 1:
        m, c = v.args[0][0]
        if c == 1 and len(m) == 1 and m[0].tag == "sym" and m[0].args[0].startswith(tag + "."):
            return m[0]
    return None


def carried(h, i, b, out):
    """pairs (header, init, back) of the parts of a value the loop changes"""
    if h is i and h is b:
        return
    if h.tag == "struct" and i.tag == "struct" and b.tag == "struct" and len(h.args[1]) == len(i.args[1]) == len(b.args[1]):
        for x, y, z in zip(h.args[1], i.args[1], b.args[1]):
            carried(x, y, z, out)
        return
    out.append((h, i, b))


def bail(n):
    import os
    if os.environ.get('IDIOM'):
        print('idiom bail', n)
    return None


def summarise(E, info, ctx0, hv, back, ex, head, tag):
    """exits of the loop in closed form, or None when it is not one of the idioms"""
    from . import models as M
    if back is None:
        return bail(1)
    pc0 = ctx0.pc
    parts = []
    for c, h in hv.items():
        if h.tag == "ns" or c not in back.cells:
            return bail(2)
        carried(h, ctx0.cells[c], back.cells[c], parts)
    counters, flags, lists, sums, dead = {}, {}, {}, {}, set()
    for h, i, b in parts:
        b = vrestrict(b, back.pc)
        s = one_sym(h, tag)
        if s is not None:
            if i.tag not in ("poly", "ite") or syms(i, tag):
                return bail(3)
            if b is ADD(h, ONE):
                counters[s] = i
                continue
            e = SUB(b, h)
            if s in syms(e, tag):
                dead.add(s)
            else:
                sums[s] = (i, e)
            continue
        if h.tag == "ite" and is_bool(h):
            a = ATOMS[h.args[0]]
            if a.tag != "sym" or not is_bool(i):
                return bail(5)
            v = h.args[0]
            if b.tag == "ite" and cofactor(b, {v: True}) is not TRUE:
                return bail(6)
            if b is FALSE:
                return bail(7)
            flags[a] = (i, cofactor(b, {v: False}))
            continue
        if h.tag == "list" and len(h.args[0]) == 1 and h.args[0][0][2].tag == "sym":
            s = h.args[0][0][2]
            if i.tag != "list" or b.tag != "list" or len(b.args[0]) != 2 or b.args[0][0] != h.args[0][0] or b.args[0][1][1] != "e":
                return bail(8)
            lists[s] = (i, b.args[0][1][0], b.args[0][1][2])
            continue
        if h.tag == "enum" or h.tag in ("sym", "app", "proj"):
            dead |= syms(h, tag)
            continue
        return bail(9)
    if not counters:
        return bail(10)
    # the bound: an atom of the continue condition comparing a counter with the length of a list
    found = None
    for v in sorted(support(back.pc)):
        a = ATOMS[v]
        if a.tag not in ("neg", "ltk", "eq0", "eqk"):
            continue
        q = a.args[0]
        if q.tag != "poly":
            continue
        cs = [(s, c) for mono, c in q.args[0] for s in mono if s in counters and len(mono) == 1]
        ls = [(mono[0], c) for mono, c in q.args[0] if len(mono) == 1 and mono[0].tag == "app" and mono[0].args[0] == "len"]
        for s, c in cs:
            for l, d in ls:
                if c == -d and abs(c) == 1 and not syms(l, tag):
                    n = as_poly(l)
                    if counters[s] is ZERO and implies(back.pc, LT(as_poly(s), n)):
                        found = (s, l, n)
    if found is None:
        # an iterator over a list of consecutive numbers
        for c, h in hv.items():
            for st, l, pos in iterators(h):
                s = one_sym(pos, tag)
                if s in counters and counters[s] is ZERO and not syms(l, tag) and len(l.args[0]) == 1 and l.args[0][0][:2] == (TRUE, "s"):
                    n = E.length(l)
                    if implies(back.pc, LT(as_poly(s), n)):
                        found = (s, l.args[0][0][2], n)
    else:
        found = (found[0], found[1].args[1][0], found[2])
    if found is None:
        # a counter running up to a value that the loop does not change
        for tgt, cl in ex.items():
            for c in cl if tgt != head else ():
                for s in counters:
                    b = limit_of(restrict(NOT(c.pc), pc0), s, tag)
                    if b is not None and implies(back.pc, LT(as_poly(s), b)):
                        x = mk("app", "range", (counters[s], b))
                        found = (s, x, E.length(x))
    if found is None:
        return bail(11)
    main, x, n = found
    going = LT(SUB(as_poly(main), counters[main]), n)
    if x.tag == "app" and x.args[0] == "range" and counters[main] is x.args[1][0]:
        going = LT(as_poly(main), x.args[1][1])
    stop = restrict(NOT(back.pc), AND(pc0, going))
    cap = None
    ov = {v: False for v in support(stop) if ATOMS[v].tag == "ovf" and syms(ATOMS[v], tag) - set(counters)}
    for v in support(stop):
        # a position in a list cannot overflow the word that counts it
        if ATOMS[v].tag == "ovf" and len(ATOMS[v].args) == 2 and syms(ATOMS[v], tag) == {main} and counters[main] is ZERO:
            at0 = mk("sym", "β0")
            set_range(at0, 0, BIG)
            if subst(atom_var(ATOMS[v]), {main: as_poly(at0)}) is FALSE:
                ov[v] = False
    if x.tag == "app" and x.args[0] == "range":
        # nor can a counter on its way to a limit that fits the same word
        for v in support(stop):
            a = ATOMS[v]
            if a.tag == "ovf" and len(a.args) == 2 and a.args[0] is ADD(as_poly(main), ONE):
                if implies(pc0, LT(x.args[1][1], const(2 ** (a.args[1] if a.args[1] > 0 else -a.args[1] - 1)))):
                    ov[v] = False
    if ov:
        stop = cofactor(stop, ov)      # an accumulator that overflows aborts the message
    if syms(stop, tag) - set(counters):
        cap = capped(stop, AND(pc0, going), lists, syms(stop, tag) - set(counters), tag)
        if cap is None:
            return bail(12)
        ls, lim, post = cap
        lists[ls] = (lists[ls][0], at_len(lists[ls][1], ls, lim), at_len(lists[ls][2], ls, lim))
        stop = FALSE
    used = bounds(stop)
    for s, (i, c) in list(flags.items()) + [(s, (i, c)) for s, (i, c, v) in lists.items()]:
        if syms(c, tag) - set(counters):
            return bail(13)
        used |= bounds(c)
    for s, (i, c, v) in lists.items():
        if syms(v, tag) - set(counters):
            return bail(14)
        used |= bounds(v)
    for s, (i, e) in sums.items():
        if syms(e, tag) - set(counters):
            return bail(15)
        used |= bounds(e)
    bi = E.bound
    while bi in used:
        bi += 1
    bs = mk("sym", "β%d" % bi)
    set_range(bs, 0, BIG)
    beta = as_poly(bs)

    def at(p):
        return {s: ADD(i, p) for s, i in counters.items()}
    mb = at(beta)
    memo_b = {}
    stop_b = subst(stop, mb, memo_b)
    some = M.exists_atom(x, stop_b)
    cases = [(g, at(as_poly(app("first", x, b, rng=(0, BIG))))) for g, b in M.free_cases(stop_b) if b is not FALSE]
    me = at(n)
    go_on = AND(back.pc, going)
    for s, (i, c) in flags.items():
        me[s] = OR(i, M.exists_atom(x, subst(restrict(c, go_on), mb, memo_b)))
    for s, (i, e) in sums.items():
        e2 = subst(vrestrict(e, go_on), mb, memo_b)
        me[s] = ADD(i, M.sum_over(x, e2))
    segs = {}
    for s, (i, c, v) in lists.items():
        c2, v2 = subst(restrict(c, go_on), mb, memo_b), subst(v, mb, memo_b)
        items = []
        el = mk("app", "elem", (x, beta))
        for g, b in M.free_cases(c2):
            if b is FALSE:
                continue
            y = x if b is TRUE else mk("app", "filter", (x, b))
            if is_elem(E, v2, el):
                items.append((g, "s", y))
            elif b is TRUE:
                items.append((g, "s", mk("app", "map", (x, E.deep(back, v2)))))
            else:
                items.append((g, "s", mk("app", "filter_map", (x, b, E.deep(back, v2)))))
        segs[s] = list(i.args[0]) + items
    if cap:
        full = vlist(segs[ls])
        segs[ls] = [(TRUE, "s", mk("app", "take", (full, const(lim))))]
        some = LT(const(lim - 1), E.length(full))
        cases = [(TRUE, {s: as_poly(mk("sym", str(s.args[0]) + "@stop")) for s in counters})]
    out = {}
    carried_syms = set(flags) | set(lists) | set(sums)
    lost = {s: mk("sym", str(s.args[0]) + "@stop") for s in carried_syms}
    for tgt, cl in ex.items():
        if tgt == head:
            continue
        for c in cl:
            for body in (True, False):
                g = AND(pc0, going, stop) if body else AND(pc0, NOT(going))
                if cap and body:
                    g = AND(pc0, going, c.pc)
                if AND(c.pc, g) is FALSE:
                    continue
                loc = restrict(c.pc, g)
                if cap and body and len([1 for t2, cl2 in ex.items() if t2 != head for c2 in cl2 if AND(c2.pc, pc0, going) is not FALSE]) > 1:
                    return bail(18)
                if syms(loc, tag) - set(counters):
                    return bail(16)
                maps = [(g2, m2, {}) for g2, m2 in cases] if body else [(TRUE, me, {})]

                def sub(v):
                    r = None
                    for g2, m2, memo in reversed(maps):
                        w = subst(v, m2, memo)
                        r = w if r is None else vite(g2, w, r)
                    return r
                if not maps:
                    continue
                pc = AND(pc0, some if body else NOT(some), sub(loc))
                if pc is FALSE:
                    continue
                nc = c.copy()
                nc.pc = pc
                for k, v in c.cells.items():
                    if v is ctx0.cells.get(k) or not isinstance(v, T):
                        continue
                    sy = syms(v, tag)
                    if not sy:
                        continue
                    w = vrestrict(v, AND(c.pc, g))
                    if body and cap and ls in sy:
                        w = at_len(w, ls, lim, lim - 1 if post else lim)
                        w = full_at_stop(w, ls, lists[ls][2] if post else None, segs[ls], tag)
                        if w is None:
                            return bail(19)
                    if body and sy & carried_syms:
                        # what was accumulated when the loop is left early is not summarised
                        w = subst(w, {s: as_bool(t) if s in flags else as_poly(t) if s in sums else t for s, t in lost.items()})
                    w = splice(w, segs) if not body and segs else w
                    nc.cells[k] = sub(w)
                out.setdefault(tgt, []).append(nc)
    return out


def limit_of(cond, s, tag, memo=None):
    """the loop-invariant N with cond = (s < N), or None"""
    memo = {} if memo is None else memo
    if cond in memo:
        return memo[cond]
    if len(memo) > 2000:
        return None
    if cond is FALSE and LT(as_poly(s), ZERO) is FALSE:
        return ZERO
    memo[cond] = None
    for v in sorted(support(cond)):
        if not syms(ATOMS[v], tag):
            a = limit_of(cofactor(cond, {v: True}), s, tag, memo)
            b = a and limit_of(cofactor(cond, {v: False}), s, tag, memo)
            memo[cond] = vite(atom_var(ATOMS[v]), a, b) if a is not None and b is not None else None
            return memo[cond]
    for v in support(cond):
        a = ATOMS[v]
        if a.tag not in ("neg", "eq0", "ltk") or a.args[0].tag != "poly":
            continue
        q = a.args[0]
        c = dict(q.args[0]).get((s,), 0)
        if abs(c) != 1:
            continue
        N = SUB(as_poly(s), pscale(q, c))
        if a.tag == "ltk":
            N = ADD(N, const(a.args[1])) if c == 1 else None
        if N is not None and not syms(N, tag) and LT(as_poly(s), N) is cond:
            memo[cond] = N
            return N
    return None


def len_of(ls):
    return mk("app", "len", (ls,))


def at_len(v, ls, lim, at=None):
    """v with the length of the list ls known to be `at` (default: some value below the limit's predecessor)"""
    if at is None:
        r = mk("sym", "len<%d" % (lim - 1))
        set_range(r, 0, max(lim - 2, 0))
        at = as_poly(r)
    else:
        at = const(at)
    return subst(v, {len_of(ls): at})


def capped(stop, G, lists, extra, tag):
    """is the loop left exactly when its list (initially empty) reaches a fixed length?  (list, length, pushed before leaving)"""
    if len(extra) != 1:
        return None
    ls = next(iter(extra))
    if ls not in lists or lists[ls][0].args[0]:
        return None
    cand = set()
    for v in support(stop):
        a = ATOMS[v]
        if len_of(ls) in subterms(a):
            q = a.args[0] if a.args and isinstance(a.args[0], T) and a.args[0].tag == "poly" else None
            if q is None or any(m not in ((), (len_of(ls),)) for m, c in q.args[0]):
                return None
            k = abs(dict(q.args[0]).get((), 0))
            for w in a.args[1:]:
                if isinstance(w, int):
                    k += abs(w)
            cand |= {k - 1, k, k + 1}
    for n in sorted(cand):
        if n < 1:
            continue
        below = AND(G, at_len(stop, ls, n))
        if below is not FALSE:
            continue
        s1 = at_len(stop, ls, n, n - 1)
        push = at_len(lists[ls][1], ls, n)
        if syms(push, tag) & extra or syms(s1, tag) & extra:
            continue
        if AND(G, OR(AND(s1, NOT(push)), AND(push, NOT(s1)))) is FALSE:
            return ls, n, True
        if AND(G, s1) is FALSE and implies(G, at_len(stop, ls, n, n)):
            return ls, n, False
    return None


def subterms(t):
    out, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x not in out:
            out.add(x)
            st.extend(x.args)
            if x.tag == "ite":
                st.append(ATOMS[x.args[0]])
    return out


def full_at_stop(w, ls, pushed, seg, tag):
    """the list value on leaving at the limit: the list with the last push, as the capped whole"""
    if w.tag == "list":
        it = w.args[0]
        if it and it[0][:2] == (TRUE, "s") and it[0][2] is ls:
            rest = it[1:]
            if pushed is None:
                return vlist(seg + list(rest)) if not syms(vlist(rest), tag) else None
            if len(rest) == 1 and rest[0][0] is TRUE and rest[0][1] == "e" and rest[0][2] is pushed:
                return vlist(seg)
            return None
        return w if ls not in syms(w, tag) else None
    if w.tag == "struct":
        fs = [full_at_stop(f, ls, pushed, seg, tag) for f in w.args[1]]
        return None if None in fs else mk("struct", w.args[0], tuple(fs))
    return w if ls not in syms(w, tag) else None


def as_bool(t):
    return atom_var(t)


def iterators(h):
    """iterators over a list by position inside a value"""
    if h.tag == "struct":
        if h.args[0] in ("Itval", "Itref") and h.args[1][0].tag == "list":
            yield h, h.args[1][0], h.args[1][1]
        else:
            for f in h.args[1]:
                yield from iterators(f)


def is_elem(E, v, el):
    """is v the whole list element el?"""
    if v is el or (v.tag == "poly" and v is as_poly(el)):
        return True
    if v.tag in ("struct", "enum"):
        return any(E.expand(i, el) is v for i, t in enumerate(E.p.types) if t["k"] == "adt" and t.get("n") == v.args[0])
    return False


def splice(v, segs):
    """replace the loop's list symbols inside list values by the collected segments"""
    if v.tag == "list":
        its = []
        for c, k, x in v.args[0]:
            if k == "s" and x in segs:
                its += [(AND(c, g), kk, y) for g, kk, y in segs[x]]
            else:
                its.append((c, k, x))
        return vlist(its)
    if v.tag == "struct":
        return mk("struct", v.args[0], tuple(splice(f, segs) for f in v.args[1]))
    return v


def bounds(t):
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.tag == "sym":
            if isinstance(x.args[0], str) and x.args[0].startswith("β"):
                out.add(int(x.args[0][1:]))
        elif x.tag == "ite":
            st.append(ATOMS[x.args[0]])
            st.extend(x.args[1:])
        else:
            st.extend(y for y in x.args if isinstance(y, (T, tuple)))
    return out


# ------------------------------------------------------------------ scanning the bits of a word
def scan_bits(E, info, ctx0, hv, back, ex, head, tag):
    """a loop that advances a bit position one by one until that bit of a fixed word is set"""
    from . import models as M
    if back is None:
        return bail(30)
    pc0 = ctx0.pc
    parts = []
    for c, h in hv.items():
        if h.tag == "ns" or c not in back.cells:
            return bail(31)
        carried(h, ctx0.cells[c], back.cells[c], parts)
    step, counters, shifts = None, {}, {}
    for h, i, b in parts:
        b = vrestrict(b, back.pc)
        s = one_sym(h, tag)
        if s is None or syms(i, tag):
            return bail(32)
        if b is ADD(h, ONE) or b is SUB(h, ONE):
            d = 1 if b is ADD(h, ONE) else -1
            if step not in (None, d) or i.tag != "poly":
                return bail(33)
            step = d
            counters[s] = i
        elif b is DIV(h, TWO):
            shifts[s] = i
        else:
            return bail(34)
    if not counters:
        return bail(35)
    k0 = None
    # every counter is the position up to a constant; take one, express the shifted words through it
    main = sorted(counters, key=lambda s: s.args[0])[0]
    pos, p0 = as_poly(main), counters[main]
    m = {s: ADD(pos, SUB(i, p0)) for s, i in counters.items() if s is not main}
    for s, i in shifts.items():
        def leaf(w):
            w = as_poly(w)
            if step == 1:
                return DIV(w, pow2(SUB(pos, p0), 256)) if p0 is ZERO else shifted(w, p0, pos)
            j = as_pow2(w)
            if j is None:
                return UNDEF
            return pow2(ADD(pos, SUB(j, p0)), 256)
        v = lift(leaf, i)
        if any(x.tag == "undef" for x in leaves(v)):
            return bail(36)
        m[s] = v
    cont = restrict(no_overflow(subst(back.pc, m, {})), pc0)
    # while the bit is clear a set bit lies strictly ahead (shown below), which bounds the position
    lo, hi = prange(p0)
    for z in (32, 64, 128):
        if hi >= z and implies(pc0, LT(p0, const(z))):
            hi = z - 1
            break
    cont = over(cont, main, *((max(0, lo), top(cont) - 1) if step == 1 else (1, min(hi, 255))))
    if cont is None:
        return bail(42)
    stop = NOT(cont)
    if syms(stop, tag) - {main}:
        return bail(37)
    bi = E.bound
    while bi in bounds(stop):
        bi += 1
    bs = mk("sym", "β%d" % bi)
    set_range(bs, 0, BIG)
    beta = as_poly(bs)
    cases = []
    for g, b in M.free_cases(subst(stop, {main: beta}, {})):
        if AND(pc0, g) is FALSE:
            continue
        t = ATOMS[b.args[0]] if b.tag == "ite" and b.args[1] is TRUE and b.args[2] is FALSE else None
        if t is None or t.tag != "app" or t.args[0] != "bit" or t.args[1][1] is not beta:
            return bail(38)
        w = t.args[1][0]
        ahead = NOT(EQI(DIV(w, pow2(p0, 256)), ZERO)) if step == 1 else NOT(EQI(REM(w, pow2(ADD(p0, ONE), 256)), ZERO))
        if not implies(AND(pc0, g), ahead):
            return bail(39)
        cases.append((g, next_bit(w, p0) if step == 1 else prev_bit(w, p0)))
    if not cases:
        return bail(40)
    end = None
    for g, v in reversed(cases):
        end = v if end is None else vite(g, v, end)
    fin = {main: end}
    for s, v in m.items():
        fin[s] = subst(v, {main: end}, {})
    out = {}
    for tgt, cl in ex.items():
        if tgt == head:
            continue
        for c in cl:
            loc = subst(c.pc, m, {})
            loc = restrict(no_overflow(loc), pc0)
            if AND(loc, stop) is FALSE:
                continue        # leaving at a clear bit because the position ran out: a set bit lies ahead, so never taken
            pc = AND(pc0, subst(restrict(loc, stop), fin, {}))
            if syms(pc, tag):
                return bail(41)
            nc = c.copy()
            nc.pc = pc
            for k, v in c.cells.items():
                if v is ctx0.cells.get(k) or not isinstance(v, T) or not syms(v, tag):
                    continue
                nc.cells[k] = subst(vrestrict(v, c.pc), fin, {})
            out.setdefault(tgt, []).append(nc)
    return out


def shifted(w, p0, pos):
    """the word that started as w with position p0, after one halving per step up to pos"""
    if len(w.args[0]) == 1 and w.args[0][0][1] == 1 and len(w.args[0][0][0]) == 1:
        t = w.args[0][0][0][0]
        if t.tag == "app" and t.args[0] == "fdiv" and as_pow2(t.args[1][1]) is p0:
            return DIV(t.args[1][0], pow2(pos, 256))
    if w is ZERO:
        return ZERO
    return UNDEF


def top(c):
    """an upper bound of the set bits of any word tested in c"""
    t = 0
    for v in support(c):
        a = ATOMS[v]
        if a.tag == "app" and a.args[0] == "bit":
            hi = prange(a.args[1][0])[1]
            t = max(t, 255 if hi == INF else int(hi).bit_length() - 1)
    return t


def is_bound(a, main):
    """does the atom only compare the position with a constant?"""
    if a.tag not in ("neg", "ltk", "eq0", "eqk"):
        return False
    return all(len(mm) == 0 or mm == (main,) for mm, c in a.args[0].args[0])


def over(c, main, lo, hi):
    """c with comparisons of the position resolved for positions in lo..hi, None when one is not constant there"""
    if lo > hi:
        return c
    for v in support(c):
        a = ATOMS[v]
        if is_bound(a, main):
            p = a.args[0]
            k = sum(cc for mm, cc in p.args[0] if mm == (main,))
            b = sum(cc for mm, cc in p.args[0] if mm == ())
            u, w = sorted((k * lo + b, k * hi + b))
            z = a.args[1] if a.tag in ("ltk", "eqk") else 0
            if a.tag in ("neg", "ltk"):
                r = True if w < z else False if u >= z else None
            else:
                r = False if w < z or u > z else None
            if r is None:
                return None
            c = cofactor(c, {v: r})
    return c


def no_overflow(c):
    from .spec import no_ovf
    return no_ovf(c)
