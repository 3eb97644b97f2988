"""Models of library functions at the boundary of the analysed program (std collections and iterators,
cosmwasm storage, wide integers). Everything else with MIR is analysed in context."""
import re
from .terms import *

_exact, _regex, _cache = {}, [], {}
OPT, RES = "std::option::Option", "std::result::Result"


def model(*pats):
    def deco(fn):
        for p in pats:
            _regex.append((re.compile(p), fn))
        return fn
    return deco


def lookup(d, f):
    if d in _cache:
        return _cache[d]
    r = None
    for p, fn in _regex:
        if p.search(d):
            r = fn
            break
    _cache[d] = r
    return r


def some(v):
    return variant(OPT, 1, v)


NONE = variant(OPT, 0)


def option(c, v):
    return enum(OPT, [(0, NOT(c), ()), (1, c, (v,))])


def ok(v):
    return variant(RES, 0, v)


def result(c, v, e):
    return enum(RES, [(0, c, (v,)), (1, NOT(c), (e,))])


from .engine import ERR, Unsupported, flatten, untouched_cell  # noqa: E402


def inner_ty(E, dty, i=0):
    """type argument i of the ADT type dty (e.g. T of Option<T>)"""
    if dty is None:
        return None
    t = E.p.types[dty]
    if t["k"] == "adt" and len(t["a"]) > i and isinstance(t["a"][i], int):
        return t["a"][i]
    return None


def strip_ref(E, ty):
    while ty is not None and E.p.types[ty]["k"] in ("ref", "ptr"):
        ty = E.p.types[ty]["e"]
    return ty


def as_list(E, ctx, v):
    v = E.read_ref(ctx, v) if v.tag == "ref" or (v.tag == "ite" and any(x.tag == "ref" for x in leaves(v))) else v
    while v.tag == "ref":
        v = E.read_ref(ctx, v)
    if v.tag == "struct" and len(v.args[1]) == 1:
        return as_list(E, ctx, v.args[1][0])
    return v


def panic(E, ctx, cond, what, where, d):
    bad = AND(ctx.pc, cond)
    if bad is not FALSE:
        E.panics.append((bad, what, where, d))
        ctx.pc = AND(ctx.pc, NOT(cond))


# ------------------------------------------------------------------ identities
@model(r"Clone>::clone_from$", r"Clone for .*>::clone_from$", r"ToOwned>::clone_into$")
def m_clonefrom(E, ctx, f, a, dty, where, fr):
    src, dst = (a[0], a[1]) if f["def"].endswith("clone_into") else (a[1], a[0])
    E.write_ref(ctx, dst, E.read_ref(ctx, src))
    return UNIT


@model(r"vec::Vec::<T, A>::(reserve|reserve_exact|shrink_to_fit|shrink_to)$", r"String::(reserve|reserve_exact|shrink_to_fit)$")
def m_reserve(E, ctx, f, a, dty, where, fr):
    return UNIT


@model(r" as std::clone::Clone>::clone$", r"::clone::Clone for .*>::clone$", r"<T as std::borrow::ToOwned>::to_owned$",
       r"ToOwned for .*>::to_owned$")
def m_clone(E, ctx, f, a, dty, where, fr):
    v = E.read_ref(ctx, a[0])
    return v


@model(r"::to_vec$", r"vec::Vec<T> as std::convert::From<.*\[T.*\]>>::from$", r"slice::<impl \[T\]>::into_vec$", r"std::vec::Vec::<T, A>::as_slice$", r"Vec<T, A> as std::ops::Deref>::deref$",
       r"Vec<T, A> as std::ops::DerefMut>::deref_mut$", r"String as std::ops::Deref>::deref$", r"String::as_str$", r"Addr::as_str$",
       r"Addr as std::convert::AsRef<str>>::as_ref$", r"Vec<T, A> as std::convert::AsRef<.*>>::as_ref$", r"Binary as std::ops::Deref>::deref$",
       r"String as std::convert::AsRef<str>>::as_ref$", r"Binary::as_slice$", r"Addr as std::ops::Deref>::deref$", r"as std::borrow::Borrow<.*>>::borrow$",
       r"String as std::borrow::Borrow", r"Vec::<T, A>::as_mut_slice$")
def m_view(E, ctx, f, a, dty, where, fr):
    if f["def"].endswith("to_vec") or f["def"].endswith("into_vec") or f["def"].endswith("]>>::from"):
        return as_list(E, ctx, a[0])
    if "Binary" in f["def"]:
        return mk("ref", as_list(E, ctx, a[0]), ())
    return a[0]


def bytes_of(v):
    def leaf(x):
        return vlist([(TRUE, "s", x)])
    if v.tag == "list":
        return v
    return lift(leaf, v)


@model(r"String::as_bytes$", r"Addr::as_bytes$", r"str::<impl str>::as_bytes$", r"String::into_bytes$", r"String as std::convert::AsRef<\[u8\]>>")
def m_bytes(E, ctx, f, a, dty, where, fr):
    v = a[0]
    byref = E.p.types[dty]["k"] == "ref"
    while v.tag == "ref" or (v.tag == "ite" and any(x.tag == "ref" for x in leaves(v))):
        v = E.read_ref(ctx, v)
    b = bytes_of(v)
    return mk("ref", b, ()) if byref else b


@model(r"^cw_storage_plus::KeyDeserialize::from_slice$", r"^<std::string::String as cw_storage_plus::KeyDeserialize>::from_(slice|vec)$")
def m_keyde(E, ctx, f, a, dty, where, fr):
    t = inner_ty(E, dty)
    if t is None or not E.p.types[t].get("n", "").endswith("string::String"):
        return NotImplemented
    l = as_list(E, ctx, a[0])
    return result(atom_var(mk("utf8", l)), str_of(l), ERR)


@model(r"String::from_utf8$", r"str::from_utf8$", r"str::converts::from_utf8$")
def m_utf8(E, ctx, f, a, dty, where, fr):
    l = as_list(E, ctx, a[0])
    return result(atom_var(mk("utf8", l)), mk("ref", str_of(l), ()) if "str::" in f["def"] else str_of(l), ERR)


def str_of(l):
    if l.tag == "list" and len(l.args[0]) == 1 and l.args[0][0][0] is TRUE and l.args[0][0][1] == "s":
        return l.args[0][0][2]
    return mk("app", "str", (l,))


@model(r"String::from_utf8_lossy$", r"from_utf8_unchecked$")
def m_utf8l(E, ctx, f, a, dty, where, fr):
    return E.expand(dty, mk("app", "utf8lossy", (as_list(E, ctx, a[0]),)))


@model(r"String as std::convert::From<&?(mut )?(str|std::string::String|std::boxed::Box<str>|std::borrow::Cow<.*>)>>::from$", r"String as std::str::FromStr>::from_str$",
       r"String::into_boxed_str$", r"Box<str> as std::convert::From<.*>>::from$", r"Addr::unchecked$", r"Addr::into_string$", r"From<cosmwasm_std::Addr> for std::string::String>::from$",
       r"From<&cosmwasm_std::Addr> for std::string::String>::from$", r"String as std::convert::From<cosmwasm_std::Addr>>::from$",
       r"str::<impl str>::to_owned$", r"str::<impl str>::to_string$", r"From<&cosmwasm_std::Addr> for cosmwasm_std::Addr>", r"into_boxed_str")
def m_str(E, ctx, f, a, dty, where, fr):
    v = a[0]
    while v.tag == "ref" or (v.tag == "ite" and any(x.tag == "ref" for x in leaves(v))):
        v = E.read_ref(ctx, v)
    return ok(v) if f["def"].endswith("from_str") else v


@model(r"<T as std::string::ToString>::to_string$", r"as std::string::ToString>::to_string$", r"SpecToString>::spec_to_string$")
def m_tostring(E, ctx, f, a, dty, where, fr):
    v = E.deep(ctx, a[0])
    if v.tag == "struct" and len(v.args[1]) == 1:
        v = v.args[1][0]
    if v.tag in ("sym", "str", "app", "proj"):
        ty = E.p.types[f["targs"][0]] if f["targs"] and isinstance(f["targs"][0], int) else None
        return v
    if v.tag == "ite" and all(x.tag in ("sym", "str", "app", "proj") for x in leaves(v)):
        return v
    return lift(lambda x: mk("app", "tostr", (x,)), v) if v.tag in LEAFISH else mk("app", "tostr", (v,))


@model(r"fmt::format$", r"fmt::format::format_inner$", r"fmt::Arguments.*::new", r"fmt::rt::", r"std::hint::must_use$")
def m_fmt(E, ctx, f, a, dty, where, fr):
    if f["def"].endswith("must_use"):
        return a[0]
    if "Argument" in f["def"] and not f["def"].endswith("format"):
        k = f["def"].split("::")[-1]
        return mk("app", "fmtarg" if not k.startswith("new_") or k == "new_display" else "fmtarg_" + k, tuple(E.deep(ctx, x) for x in a))
    t = E.deep(ctx, a[0]) if len(a) == 1 else UNDEF
    if t.tag == "app" and t.args[0] == "fmtarg" and len(t.args[1]) == 2 and t.args[1][0].tag == "list" \
            and [x[2] for x in t.args[1][0].args[0]] == [const(192), ZERO]:
        # "{}" of one value: what to_string gives
        x = t.args[1][1]
        if x.tag == "list" and len(x.args[0]) == 1 and x.args[0][0][2].tag == "app" and x.args[0][0][2].args[0] == "fmtarg" and len(x.args[0][0][2].args[1]) == 1:
            return m_tostring(E, ctx, f, [x.args[0][0][2].args[1][0]], dty, where, fr)
    return mk("app", "fmt", tuple(E.deep(ctx, x) for x in a))


@model(r"panicking::", r"option::unwrap_failed$", r"result::unwrap_failed", r"option::expect_failed$", r"std::rt::begin_panic", r"unreachable_display",
       r"std::process::abort", r"slice_index_fail", r"handle_alloc_error", r"capacity_overflow")
def m_panic(E, ctx, f, a, dty, where, fr):
    E.panics.append((ctx.pc, "panic", where, f["def"]))
    ctx.pc = FALSE
    return None


# ------------------------------------------------------------------ equality and order of library types
@model(r"String as std::cmp::PartialEq.*>::(eq|ne)$", r"Addr as std::cmp::PartialEq.*>::(eq|ne)$", r"PartialEq<.*> for std::string::String>::(eq|ne)$",
       r"PartialEq<.*> for str>::(eq|ne)$", r"Vec<U, A2>> for std::vec::Vec<T, A1>>::(eq|ne)$", r"slice::cmp::<impl std::cmp::PartialEq.*>::(eq|ne)$",
       r"Binary as std::cmp::PartialEq>::(eq|ne)$", r"array::equality::.*>::(eq|ne)$", r"str::traits::<impl std::cmp::PartialEq.*::(eq|ne)$",
       r"vec::partial_eq::.*::(eq|ne)$", r"PartialEq<&.*> for .*Addr>::(eq|ne)$", r"<impl std::cmp::PartialEq<cosmwasm_std::Addr> for")
def m_eq(E, ctx, f, a, dty, where, fr):
    r = eqv(E.deep(ctx, a[0]), E.deep(ctx, a[1]))
    return NOT(r) if f["def"].endswith("ne") else r


def str_order(x, y):
    """three-way order of two opaque strings"""
    def leaf(p, q):
        e = eq_leaf(p, q)
        if e is TRUE:
            return variant("Ordering", 1)
        if p.tag == "str" and q.tag == "str":
            return variant("Ordering", 0 if p.args[0] < q.args[0] else 2)
        if p.id < q.id:
            lt = AND(NOT(e), atom_var(mk("slt", p, q)))
        else:
            lt = AND(NOT(e), NOT(atom_var(mk("slt", q, p))))
        return enum("Ordering", [(0, lt, ()), (1, e, ()), (2, AND(NOT(e), NOT(lt)), ())])
    return lift(leaf, x, y)


def as_text(v):
    """the string whose bytes the value is (byte order is string order)"""
    if v.tag == "list" and len(v.args[0]) == 1 and v.args[0][0][:2] == (TRUE, "s"):
        return v.args[0][0][2]
    return v


@model(r"slice::cmp::<impl std::cmp::(Partial)?Ord for \[T\]>::(cmp|partial_cmp|lt|le|gt|ge)$", r"<std::vec::Vec<T, A\w*> as std::cmp::(Partial)?Ord.*>::(cmp|partial_cmp|lt|le|gt|ge)$")
def m_bcmp(E, ctx, f, a, dty, where, fr):
    x, y = as_text(E.deep(ctx, a[0])), as_text(E.deep(ctx, a[1]))
    if any(v.tag not in ("sym", "app", "proj", "str") for t in (x, y) for v in leaves(t)):
        return NotImplemented
    return (m_scmp if f["def"].endswith("cmp") else m_slt)(E, ctx, f, [x, y], dty, where, fr)


@model(r"String as std::cmp::(Partial)?Ord>::(partial_cmp|cmp)$", r"Addr as std::cmp::(Partial)?Ord>::(partial_cmp|cmp)$",
       r"str::traits::<impl std::cmp::(Partial)?Ord for str>::(partial_cmp|cmp)$")
def m_scmp(E, ctx, f, a, dty, where, fr):
    o = str_order(E.deep(ctx, a[0]), E.deep(ctx, a[1]))
    return some(o) if f["def"].endswith("partial_cmp") else o


@model(r"String as std::cmp::PartialOrd>::(lt|le|gt|ge)$", r"<impl std::cmp::PartialOrd for str>::(lt|le|gt|ge)$")
def m_slt(E, ctx, f, a, dty, where, fr):
    o = str_order(E.deep(ctx, a[0]), E.deep(ctx, a[1]))
    c = {v: c for v, c, _ in o.args[1]}
    lt, eq, gt = c.get(0, FALSE), c.get(1, FALSE), c.get(2, FALSE)
    k = f["def"][-2:]
    return {"lt": lt, "le": OR(lt, eq), "gt": gt, "ge": OR(gt, eq)}[k]


# ------------------------------------------------------------------ integers
def ity(name):
    m = re.match(r"([iu])(8|16|32|64|128|size)$", name)
    return (64 if m.group(2) == "size" else int(m.group(2))), m.group(1) == "i"


INT_RE = r"core::num::<impl ([iu](?:8|16|32|64|128|size))>::(\w+)$"


REFINT = r"(?:&(?:'\w+ )?(?:mut )?)?([iu](?:8|16|32|64|128|size))"


@model(r"^<" + REFINT + r" as std::ops::(Add|Sub|Mul|Div|Rem|BitAnd|BitOr|BitXor|Shl|Shr)<" + REFINT + r">>::\w+$",
       r"^<" + REFINT + r" as std::ops::(Add|Sub|Mul|Div|Rem|BitAnd|BitOr|BitXor|Shl|Shr)Assign<" + REFINT + r">>::\w+$")
def m_refop(E, ctx, f, a, dty, where, fr):
    m = re.match(r"^<" + REFINT + r" as std::ops::(Add|Sub|Mul|Div|Rem|BitAnd|BitOr|BitXor|Shl|Shr)(Assign)?<" + REFINT, f["def"])
    bits, s = ity(m.group(1))
    x, y = (E.read_ref(ctx, v) if v.tag == "ref" else E.deep(ctx, v) for v in (a[0], a[1]))
    op = m.group(2)
    if op in ("Add", "Sub", "Mul"):
        v, o = E.checked(op, x, y, bits, s)
        panic(E, ctx, o, "overflow", where, f["def"])
    elif op in ("Div", "Rem"):
        panic(E, ctx, EQI(y, ZERO), "division by zero", where, f["def"])
        v = E.binop(ctx, op, x, y, tyid(E, m.group(1)))
    elif op in ("BitAnd", "BitOr", "BitXor"):
        v = E.binop(ctx, op, x, y, tyid(E, m.group(1)))
    else:
        return NotImplemented
    if m.group(3):
        E.write_ref(ctx, a[0], v)
        return UNIT
    return v


def tyid(E, name):
    """the type of that name"""
    return next(i for i, t in enumerate(E.p.types) if t["k"] == "int" and E.p.intlike(i) == ity(name))


@model(INT_RE)
def m_int(E, ctx, f, a, dty, where, fr):
    m = re.search(INT_RE, f["def"])
    bits, s = ity(m.group(1))
    return int_op(E, ctx, m.group(2), bits, s, a, dty, where, f)


def int_op(E, ctx, op, bits, s, a, dty, where, f):
    lo, hi = E.rng_of(bits, s)
    B = {"add": "Add", "sub": "Sub", "mul": "Mul"}
    m = re.match(r"(checked|wrapping|overflowing|saturating|unchecked|strict)_(add|sub|mul)$", op)
    if m:
        v, o = E.checked(B[m.group(2)], a[0], a[1], bits, s)
        k = m.group(1)
        if k == "checked":
            return option(NOT(o), v)
        if k == "wrapping":
            return E.wrap(v, bits, s)
        if k == "overflowing":
            if m.group(2) == "sub":
                return struct("tuple", E.wrap(v, bits, s), o)
            ow = E.flag_wrapped(o)
            return struct("tuple", vite(ow, E.wrap(v, bits, s), v), ow)
        if k == "saturating":
            if not s:
                neg = lift(lambda x: plt0(as_poly(x)), v)
                return vite(neg, ZERO, vite(LT(const(hi), v), const(hi), v))
            return E.expand(dty, mk("app", "sat" + m.group(2), (a[0], a[1], bits)))
        panic(E, ctx, o, "overflow", where, f["def"])
        return v
    if op in ("checked_div", "checked_rem", "div_euclid", "rem_euclid", "checked_rem_euclid", "checked_div_euclid", "wrapping_div", "div_ceil", "wrapping_rem"):
        z = EQI(a[1], ZERO)
        if "rem" in op:
            v = REM(a[0], a[1]) if not ("euclid" in op and s) else lift(lambda x, y: mod_euclid(x, y), a[0], a[1])
        elif op == "div_ceil":
            v = DIV(SUB(ADD(a[0], a[1]), ONE), a[1])
        elif "euclid" in op and s:
            v = lift(div_euclid, a[0], a[1])
        else:
            v = DIV(a[0], a[1], s)
        if op.startswith("checked"):
            return option(NOT(z), v)
        panic(E, ctx, z, "div by zero", where, f["def"])
        return v
    if op in ("pow", "checked_pow"):
        if is_const(a[1]):
            v = ONE
            for _ in range(cval(a[1])):
                v = MUL(v, a[0])
            o = E.ovf_cond(v, bits, s)
        else:
            v = lift(lambda x, y: const(cval(x) ** cval(y)) if is_const(x) and is_const(y) and cval(y) < 400 else as_poly(app("pow", x, y, rng=(lo, INF))), a[0], a[1])
            o = E.ovf_cond(v, bits, s)
        if op == "checked_pow":
            return option(NOT(o), v)
        panic(E, ctx, o, "overflow", where, f["def"])
        return v
    if op in ("checked_shl", "checked_shr"):
        c = LT(a[1], const(bits))
        return option(c, (E.shl if op.endswith("l") else E.shr)(a[0], a[1], bits, s))
    if op in ("wrapping_shl", "wrapping_shr"):
        return (E.shl if op.endswith("l") else E.shr)(a[0], REM(a[1], const(bits)), bits, s)
    if op in ("to_be_bytes", "to_le_bytes"):
        k = "be" if "_be_" in op else "le"
        return lift(lambda x: vlist([(TRUE, "s", mk("app", k, (x, bits // 8)))]), a[0])
    if op in ("from_be_bytes", "from_le_bytes"):
        k = "be" if "_be_" in op else "le"
        l = as_list(E, ctx, a[0])
        if l.tag == "list" and len(l.args[0]) == 1 and l.args[0][0][0] is TRUE:
            x = l.args[0][0][2]
            if x.tag == "app" and x.args[0] == k and x.args[1][1] == bits // 8:
                return x.args[1][0]
        if l.tag == "list" and len(l.args[0]) == bits // 8 and all(c is TRUE and kk == "e" for c, kk, x in l.args[0]):
            # the bytes of one encoded number, one by one
            ts = [lone(as_poly(x)) if x.tag in ("poly", "sym", "app", "proj") else None for c, kk, x in l.args[0]]
            if all(t is not None and t.tag == "app" and t.args[0] == "elem" for t in ts):
                src = ts[0].args[1][0]
                if src.tag == "app" and src.args[0] == k and src.args[1][1] == bits // 8 and all(t.args[1][0] is src and t.args[1][1] is const(i) for i, t in enumerate(ts)):
                    return src.args[1][0]
        return E.expand(dty, mk("app", "from" + k, (l, bits // 8)))
    if op in ("abs", "unsigned_abs", "wrapping_abs"):
        n = LT(a[0], ZERO)
        return vite(n, SUB(ZERO, a[0]), a[0])
    if op == "abs_diff":
        n = LT(a[0], a[1])
        return vite(n, SUB(a[1], a[0]), SUB(a[0], a[1]))
    if op in ("min_value", "max_value"):
        return const(lo if op.startswith("min") else hi)
    if op in ("is_power_of_two",):
        return atom_var(app(op, a[0]))
    if op == "trailing_zeros" and not s:
        return lift(lambda x: vite(EQI(x, ZERO), const(bits), next_bit(x, ZERO)), a[0])
    if op == "leading_zeros" and not s:
        return lift(lambda x: vite(EQI(x, ZERO), const(bits), SUB(const(bits - 1), prev_bit(x, const(bits - 1)))), a[0])
    if op in ("ilog2", "checked_ilog2") and not s:
        v = lift(lambda x: prev_bit(x, const(bits - 1)), a[0])
        if op == "checked_ilog2":
            return option(NOT(EQI(a[0], ZERO)), v)
        panic(E, ctx, EQI(a[0], ZERO), "argument of integer logarithm must be positive", where, f["def"])
        return v
    if op == "count_ones" and not s:
        return lift(lambda x: ones(x, bits), a[0])
    if op in ("leading_zeros", "trailing_zeros", "count_ones", "count_zeros"):
        return lift(lambda x: as_poly(app(op, as_poly(x), bits, rng=(0, bits))), a[0])
    if op in ("signum",):
        return vite(LT(a[0], ZERO), const(-1), vite(EQI(a[0], ZERO), ZERO, ONE))
    if op in ("is_positive", "is_negative"):
        return LT(ZERO, a[0]) if op == "is_positive" else LT(a[0], ZERO)
    if op in ("checked_neg",):
        v = SUB(ZERO, a[0])
        return option(NOT(E.ovf_cond(v, bits, s)), v)
    if op == "wrapping_neg":
        return E.wrap(SUB(ZERO, a[0]), bits, s)
    return E.expand(dty, mk("app", "int." + op, tuple(a)))


def mask_of(m, bits):
    """(lo, hi) when m has exactly the bits lo..=hi set"""
    top = const(bits - 1)
    if is_const(m):
        v = cval(m)
        if v > 0:
            z = (v & -v).bit_length() - 1
            if (v >> z) & ((v >> z) + 1) == 0:
                return const(z), const(v.bit_length() - 1)
        return None
    t = lone(m)
    if t is not None and t.tag == "app" and t.args[0] == "fdiv" and is_const(t.args[1][0]) and cval(t.args[1][0]) == (1 << bits) - 1 and as_pow2(t.args[1][1]) is not None:
        return ZERO, SUB(top, as_pow2(t.args[1][1]))
    if t is not None and t.tag == "app" and t.args[0] == "shl" and is_const(t.args[1][0]) and cval(t.args[1][0]) == (1 << bits) - 1:
        return t.args[1][1], top
    k = as_pow2(ADD(m, ONE))
    if k is not None and prange(k)[0] > 0:
        return ZERO, SUB(k, ONE)
    return None


def ones(x, bits):
    """number of ones of x, as the number of ones among the bits lo..=hi of an unmasked, unshifted word"""
    x = as_poly(x)
    if is_const(x):
        return const(bin(cval(x)).count("1"))
    lo, hi = ZERO, const(bits - 1)
    full = hi
    while True:
        t = lone(x)
        if t is None or t.tag != "app":
            break
        op, a = t.args
        if op == "and":
            ms = [(mask_of(as_poly(a[i]), bits), as_poly(a[1 - i])) for i in (0, 1)]
            ms = [y for y in ms if y[0] is not None]
            if not ms:
                break
            (l, h), x = ms[0]
            lo, hi = vite(LT(lo, l), l, lo) if lo is not ZERO else l, vite(LT(h, hi), h, hi) if hi is not full else h
        elif op == "fdiv" and as_pow2(as_poly(a[1])) is not None:
            k = as_pow2(as_poly(a[1]))
            lo = ADD(lo, k)
            if hi is not full:
                hi = ADD(hi, k)
                hi = vite(LT(full, hi), full, hi)
            x = as_poly(a[0])
        elif op == "mod" and is_const(a[1]) and mask_of(SUB(as_poly(a[1]), ONE), bits):
            l, h = mask_of(SUB(as_poly(a[1]), ONE), bits)
            hi = vite(LT(h, hi), h, hi) if hi is not full else h
            x = as_poly(a[0])
        else:
            break
    return lift(lambda l, h: as_poly(app("ones", x, l, h, rng=(0, bits))), lo, hi)


def div_euclid(x, y):
    m, q = REM(x, y), DIV(x, y, True)
    if prange(y)[0] >= 0:
        return vite(LT(m, ZERO), SUB(q, ONE), q)
    return vite(LT(m, ZERO), vite(LT(y, ZERO), ADD(q, ONE), SUB(q, ONE)), q)


def mod_euclid(x, y):
    x, y = as_poly(x), as_poly(y)
    if is_const(x) and is_const(y) and cval(y):
        return const(cval(x) % abs(cval(y)))
    if prange(x)[0] >= 0:
        return mod_leaf(x, y)
    m = mod_leaf(x, y)
    return vite(LT(m, ZERO), ADD(m, y) if prange(y)[0] >= 0 else vite(LT(y, ZERO), SUB(m, y), ADD(m, y)), m)


@model(r"intrinsics::integer_(max|min)$")
def m_imax(E, ctx, f, a, dty, where, fr):
    c = LT(a[0], a[1])
    return vite(c, a[1], a[0]) if f["def"].endswith("max") else vite(LT(a[1], a[0]), a[1], a[0])


@model(r"cmp::impls::<impl std::cmp::(Partial)?Ord for [iu]\w+>::(cmp|partial_cmp|lt|le|gt|ge|max|min)$",
       r"cmp::impls::<impl std::cmp::PartialEq for [iu]\w+>::(eq|ne)$")
def m_icmp(E, ctx, f, a, dty, where, fr):
    k = f["def"].split("::")[-1]
    if k in ("max", "min"):
        return vite(LT(a[0], a[1]), a[1], a[0]) if k == "max" else vite(LT(a[1], a[0]), a[1], a[0])
    x, y = E.deep(ctx, a[0]), E.deep(ctx, a[1])
    if k == "eq":
        return EQI(x, y)
    if k == "ne":
        return NOT(EQI(x, y))
    if k == "cmp":
        return E.three_way(x, y)
    if k == "partial_cmp":
        return some(E.three_way(x, y))
    return {"lt": LT(x, y), "gt": LT(y, x), "le": NOT(LT(y, x)), "ge": NOT(LT(x, y))}[k]


W = r"decimal::U(\d+)"


def wide(v):
    """flatten newtype wrappers down to the integer"""
    while v.tag == "struct" and len(v.args[1]) == 1:
        v = v.args[1][0]
    return v


@model(r"^<" + W + r" as std::convert::From<.*>>::from$", r"^<" + W + r" as std::convert::Into<.*>>::into$")
def m_wfrom(E, ctx, f, a, dty, where, fr):
    x = wide(E.deep(ctx, a[0]))
    if is_bool(x):
        return NotImplemented
    if x.tag == "list":
        return E.expand(dty, mk("app", "wfrom", (x,)))
    neg = LT(x, ZERO)
    panic(E, ctx, neg, "negative to unsigned", where, f["def"])
    return x


@model(r"TryFrom<" + W + r"> for (u\d+|usize|i\d+)>::try_from$", r"^<(u\d+|usize|i\d+) as std::convert::TryFrom<" + W + r">>::try_from$")
def m_wtry(E, ctx, f, a, dty, where, fr):
    m = re.search(r"for ([iu]\w+)>::try_from$", f["def"]) or re.search(r"^<([iu]\w+) as", f["def"])
    bits, s = ity(m.group(1))
    return result(NOT(E.ovf_cond(a[0], bits, s)), a[0], ERR)


@model(r"std::convert::num::.*TryFrom<([iu]\w+)> for ([iu]\w+)>::try_from$", r"^<[iu]\w+ as std::convert::TryFrom<[iu]\w+>>::try_from$")
def m_itry(E, ctx, f, a, dty, where, fr):
    m = re.search(r"for ([iu]\w+)>::try_from$", f["def"]) or re.search(r"^<([iu]\w+) as", f["def"])
    bits, s = ity(m.group(1))
    return result(NOT(E.ovf_cond(a[0], bits, s)), a[0], ERR)


@model(r"std::convert::num::<impl std::convert::From<bool> for [iu]\w+>::from$")
def m_bfrom(E, ctx, f, a, dty, where, fr):
    return ite(a[0], ONE, ZERO)


@model(r"std::convert::num::<impl std::convert::From<[iu]\w+> for [iu]\w+>::from$", r"^<[iu]\w+ as std::convert::From<[iu]\w+>>::from$")
def m_ifrom(E, ctx, f, a, dty, where, fr):
    return a[0]


@model(r"^<&?(?:'\w+ )?" + W + r" as std::(ops|cmp)::\w+(<.*>)?>::(\w+)$", r"^" + W + r"::(\w+)$",
       r"^<" + W + r" as (num_traits|decimal::num_traits|std)::.*>::(\w+)$", r"<impl .* for &?" + W + r">::(\w+)$")
def m_wide(E, ctx, f, a, dty, where, fr):
    bits = int(re.search(W, f["def"]).group(1))
    op = f["def"].split("::")[-1]
    d = f["def"]
    v = [wide(E.deep(ctx, x)) if x.tag in ("ref", "struct") or not is_bool(x) else x for x in a]
    B = {"add": "Add", "sub": "Sub", "mul": "Mul"}
    if op in B and not "Assign" in d:
        r, o = E.checked(B[op], v[0], v[1], bits, False)
        panic(E, ctx, o, "wide overflow", where, d)
        return r
    if op in ("add_assign", "sub_assign", "mul_assign", "div_assign"):
        if op == "div_assign":
            panic(E, ctx, EQI(v[1], ZERO), "div by zero", where, d)
            r = DIV(v[0], v[1])
        else:
            r, o = E.checked(B[op[:3]], v[0], v[1], bits, False)
            panic(E, ctx, o, "wide overflow", where, d)
        E.write_ref(ctx, a[0], r)
        return UNIT
    m = re.match(r"(checked|overflowing|saturating)_(add|sub|mul)$", op)
    if m:
        return int_op(E, ctx, op, bits, False, v, dty, where, f)
    if op in ("div", "rem"):
        panic(E, ctx, EQI(v[1], ZERO), "div by zero", where, d)
        return DIV(v[0], v[1]) if op == "div" else REM(v[0], v[1])
    if op in ("checked_div", "checked_rem", "checked_pow", "pow"):
        return int_op(E, ctx, op, bits, False, v, dty, where, f)
    if op in ("shl", "shr"):
        return E.shl(v[0], v[1], bits, False) if op == "shl" else E.shr(v[0], v[1], bits, False)
    if op in ("bitand", "bitor", "bitxor"):
        return E.bitop({"bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor"}[op], v[0], v[1], bits, False)
    if op == "not":
        return SUB(const((1 << bits) - 1), v[0])
    if op in ("eq", "ne"):
        r = EQI(v[0], v[1])
        return r if op == "eq" else NOT(r)
    if op == "partial_cmp":
        return some(E.three_way(v[0], v[1]))
    if op == "cmp":
        return E.three_way(v[0], v[1])
    if op in ("lt", "le", "gt", "ge"):
        return {"lt": LT(v[0], v[1]), "gt": LT(v[1], v[0]), "le": NOT(LT(v[1], v[0])), "ge": NOT(LT(v[0], v[1]))}[op]
    if op in ("max", "min"):
        return vite(LT(v[0], v[1]), v[1], v[0]) if op == "max" else vite(LT(v[1], v[0]), v[1], v[0])
    if op in ("zero", "default", "min_value"):
        return ZERO
    if op == "one":
        return ONE
    if op == "max_value":
        return const((1 << bits) - 1)
    if op == "is_zero":
        return EQI(v[0], ZERO)
    if op in ("low_u64", "low_u32", "low_u128"):
        return E.wrap(v[0], int(op[5:]), False)
    if op in ("as_u64", "as_u32", "as_u128", "as_usize"):
        b = 64 if op == "as_usize" else int(op[4:])
        panic(E, ctx, E.ovf_cond(v[0], b, False), "wide narrowing overflow", where, d)
        return v[0]
    if op in ("bits", "leading_zeros", "trailing_zeros"):
        return lift(lambda x: as_poly(app("w" + op, as_poly(x), rng=(0, bits))), v[0])
    if op == "clone":
        return v[0]
    if op == "from_dec_str" and v[0].tag == "str":
        return ok(const(int(v[0].args[0])))
    return E.expand(dty, mk("app", d, tuple(v)))


@model(r"num_traits::(CheckedAdd|CheckedSub|CheckedMul|CheckedDiv|CheckedRem|CheckedShl|Zero|One|Pow|CheckedNeg)>::(\w+)$",
       r"num_traits::.*<impl .*(CheckedAdd|CheckedSub|CheckedMul|CheckedDiv|CheckedRem|Zero|One|WrappingAdd|WrappingSub|Bounded) for [iu]\w+>::(\w+)$")
def m_numtraits(E, ctx, f, a, dty, where, fr):
    m = re.search(r"^<([iu](?:8|16|32|64|128|size)) as", f["def"]) or re.search(r"for ([iu](?:8|16|32|64|128|size))>::", f["def"])
    if not m:
        return NotImplemented
    bits, s = ity(m.group(1))
    op = f["def"].split("::")[-1]
    v = [E.deep(ctx, x) for x in a]
    if op == "zero":
        return ZERO
    if op == "one":
        return ONE
    if op == "is_zero":
        return EQI(v[0], ZERO)
    return int_op(E, ctx, op, bits, s, v, dty, where, f)


# ------------------------------------------------------------------ Vec / slices
@model(r"vec::Vec::<T(, A)?>::(new|with_capacity)$", r"vec::Vec<T(, A)?> as std::default::Default>::default$", r"array::<impl std::default::Default for \[T; 0\]>")
def m_vnew(E, ctx, f, a, dty, where, fr):
    return vlist([])


@model(r"String as std::default::Default>::default$", r"String::new$", r"String::with_capacity$")
def m_snew(E, ctx, f, a, dty, where, fr):
    return mk("str", "")


def upd(E, ctx, ref, fn):
    """apply fn to the list behind ref and store the result"""
    r = None
    for c, b, path in E.deref(ctx, ref):
        old = E.get_path(ctx, E.base_val(ctx, b), path)
        if old.tag == "choice":
            new = vite(old.args[0], fn(old.args[1]), fn(old.args[2]))
        else:
            new = fn(old)
        E.write_alts(ctx, [(c, b, path)], new if c is TRUE else vite(c, new, old))


def cat(l, items):
    if l.tag != "list":
        l = vlist([(TRUE, "s", l)])
    return vlist(list(l.args[0]) + list(items))


@model(r"vec::Vec::<T, A>::push$")
def m_push(E, ctx, f, a, dty, where, fr):
    upd(E, ctx, a[0], lambda l: cat(l, [(TRUE, "e", a[1])]))
    return UNIT


@model(r"vec::Vec::<T, A>::(extend_from_slice|append)$", r"vec::Vec<T, A> as std::iter::Extend<.*>>::extend$", r"String::push_str$", r"io::Write>::write_all$")
def m_extend(E, ctx, f, a, dty, where, fr):
    src = a[1]
    l = as_list(E, ctx, src)
    if l.tag == "struct" and l.args[0].startswith("It"):
        l = collect_list(E, ctx, l, where, fr)
    if l.tag != "list":
        if l.tag == "struct" and l.args[0] in ("Range",) or (l.tag == "struct"):
            l = vlist([(TRUE, "s", mk("app", "iterlist", (E.deep(ctx, l),)))])
        else:
            l = bytes_of(l)
    if l.tag == "list":
        upd(E, ctx, a[0], lambda x: cat(x, l.args[0]))
    else:
        upd(E, ctx, a[0], lambda x: vite_list(x, l))
    if f["def"].endswith("append"):
        E.write_ref(ctx, src, vlist([]))
    return UNIT


def vite_list(x, l):
    return cat(x, [(TRUE, "s", l)])


@model(r"vec::Vec::<T, A>::len$", r"slice::<impl \[T\]>::len$", r"str::<impl str>::len$", r"String::len$", r"Binary::len$")
def m_len(E, ctx, f, a, dty, where, fr):
    return E.length(as_list(E, ctx, a[0]))


@model(r"vec::Vec::<T, A>::is_empty$", r"slice::<impl \[T\]>::is_empty$", r"str::<impl str>::is_empty$", r"String::is_empty$", r"Binary::is_empty$")
def m_isempty(E, ctx, f, a, dty, where, fr):
    return EQI(E.length(as_list(E, ctx, a[0])), ZERO)


@model(r"vec::Vec::<T, A>::clear$")
def m_clear(E, ctx, f, a, dty, where, fr):
    E.write_ref(ctx, a[0], vlist([]))
    return UNIT


@model(r"vec::Vec::<T, A>::(remove|swap_remove)$")
def m_remove(E, ctx, f, a, dty, where, fr):
    l = as_list(E, ctx, a[0])
    panic(E, ctx, NOT(LT(a[1], E.length(l))), "index out of bounds", where, f["def"])
    v = E.index(l, a[1], dty)
    k = f["def"].split("::")[-1]
    if l.tag == "list" and is_const(a[1]) and all(x[0] is TRUE and x[1] == "e" for x in l.args[0]) and k == "remove":
        its = list(l.args[0])
        its.pop(cval(a[1]))
        E.write_ref(ctx, a[0], vlist(its))
    else:
        E.write_ref(ctx, a[0], vlist([(TRUE, "s", mk("app", "list_" + k, (l, a[1])))]))
    return v


@model(r"vec::Vec::<T, A>::pop$")
def m_pop(E, ctx, f, a, dty, where, fr):
    l = as_list(E, ctx, a[0])
    n = E.length(l)
    c = LT(ZERO, n)
    its = l.args[0] if l.tag == "list" else ()
    if its and its[-1][0] is TRUE and its[-1][1] == "e":
        E.write_ref(ctx, a[0], vlist(its[:-1]))
        return some(its[-1][2])
    if not its and l.tag == "list":
        return NONE
    E.write_ref(ctx, a[0], vlist([(TRUE, "s", mk("app", "list_pop", (l,)))]))
    return option(c, E.index(l, SUB(n, ONE), inner_ty(E, dty)))


@model(r"vec::Vec::<T, A>::(retain|retain_mut)$")
def m_retain(E, ctx, f, a, dty, where, fr):
    l = as_list(E, ctx, a[0])
    ety = strip_ref(E, f["targs"][0]) if f["targs"] else None
    new = list_filter(E, ctx, l, ety, lambda c, e: E.call_closure(c, a[1], [mk("ref", e, ())], None, where, fr))
    E.write_ref(ctx, a[0], new)
    return UNIT


@model(r"vec::Vec::<T, A>::drain$")
def m_drain(E, ctx, f, a, dty, where, fr):
    """drain(range): the elements in the range, which leave the list"""
    l = as_list(E, ctx, a[0])
    r = E.deep(ctx, a[1])
    if r.tag == "struct" and r.args[0].split("::")[-1] == "RangeFull":
        E.write_ref(ctx, a[0], vlist([]))
        return It("val", l, ZERO)
    raise Unsupported("drain of part of a list")


@model(r"vec::Vec::<T, A>::(insert|truncate|dedup|sort|reverse|split_off|resize)", r"slice::<impl \[T\]>::(sort\w*|reverse|swap|copy_from_slice|clone_from_slice|fill)$")
def m_vmut(E, ctx, f, a, dty, where, fr):
    k = f["def"].split("::")[-1]
    l = as_list(E, ctx, a[0])
    if k in ("copy_from_slice", "clone_from_slice"):
        E.write_ref(ctx, a[0], as_list(E, ctx, a[1]))
        return UNIT
    if k == "reverse" and l.tag == "list" and all(x[1] == "e" for x in l.args[0]):
        E.write_ref(ctx, a[0], vlist(reversed(l.args[0])))
        return UNIT
    if k in ("sort", "sort_unstable") and l.tag == "list" and len(l.args[0]) <= 4 and all(x[0] is TRUE and x[1] == "e" for x in l.args[0]):
        its = [x[2] for x in l.args[0]]
        if all(v.tag in ("sym", "app", "proj", "str", "poly") for x in its for v in leaves(x)):
            for n in range(len(its)):
                for i in range(len(its) - 1 - n):
                    p, q = its[i], its[i + 1]
                    if all(v.tag == "poly" for x in (p, q) for v in leaves(x)):
                        sw = LT(q, p)
                    else:
                        o = str_order(p, q)
                        sw = {kk: cc for kk, cc, _ in o.args[1]}.get(2, FALSE) if o.tag == "enum" else None
                        if sw is None:
                            raise Unsupported("sort")
                    its[i], its[i + 1] = vite(sw, q, p), vite(sw, p, q)
            E.write_ref(ctx, a[0], vlist([(TRUE, "e", x) for x in its]))
            return UNIT
    if k == "reverse" and l.tag == "list":
        E.write_ref(ctx, a[0], vlist([(TRUE, "s", mk("app", "rev", (l,)))]))
        return UNIT
    if k == "swap" and l.tag == "list" and all(x[0] is TRUE and x[1] == "e" for x in l.args[0]) and is_const(a[1]) and is_const(a[2]) and max(cval(a[1]), cval(a[2])) < len(l.args[0]):
        its = list(l.args[0])
        i, j = cval(a[1]), cval(a[2])
        its[i], its[j] = its[j], its[i]
        E.write_ref(ctx, a[0], vlist(its))
        return UNIT
    if k == "insert" and l.tag == "list" and a[1] is ZERO:
        E.write_ref(ctx, a[0], vlist([(TRUE, "e", a[2])] + list(l.args[0])))
        return UNIT
    if k in ("truncate", "split_off") and l.tag == "list":
        n = E.length(l)
        if k == "truncate":
            if implies(ctx.pc, NOT(LT(n, a[1]))):
                E.write_ref(ctx, a[0], E.sublist(l, ZERO, a[1]))
            else:
                E.write_ref(ctx, a[0], collect_list(E, ctx, It("take", It("val", l, ZERO), a[1]), where, fr))
            return UNIT
        else:
            panic(E, ctx, LT(n, a[1]), "slice out of bounds", where, f["def"])
            E.write_ref(ctx, a[0], E.sublist(l, ZERO, a[1]))
            return E.sublist(l, a[1], n)
    E.write_ref(ctx, a[0], vlist([(TRUE, "s", mk("app", "list_" + k, (l,) + tuple(E.deep(ctx, x) for x in a[1:])))]))
    return UNIT if E.p.types[dty]["k"] == "tuple" else E.expand(dty, mk("app", "list_" + k + "_r", (l,)))


@model(r"boxed::Box::<T>::new_uninit$")
def m_boxuninit(E, ctx, f, a, dty, where, fr):
    return mk("ref", E.new_cell(ctx, UNDEF), ())


@model(r"boxed::box_assume_init_into_vec_unsafe$", r"slice::hack::into_vec$", r"slice::<impl \[T\]>::into_vec$")
def m_boxvec(E, ctx, f, a, dty, where, fr):
    v = E.read_ref(ctx, a[0])
    while v.tag == "struct":
        v = [x for x in v.args[1] if x is not UNDEF and not (x.tag == "struct" and not x.args[1])][0]
    return v


@model(r"boxed::Box::<T>::new$", r"boxed::Box<T> as std::convert::From<T>>::from$")
def m_boxnew(E, ctx, f, a, dty, where, fr):
    return mk("ref", E.new_cell(ctx, a[0]), ())


def range_bounds(ix, n):
    nm = ix.args[0].split("::")[-1]
    lo, hi = ZERO, n
    fs = ix.args[1]
    if nm == "Range":
        lo, hi = fs
    elif nm == "RangeFrom":
        lo = fs[0]
    elif nm == "RangeTo":
        hi = fs[0]
    elif nm == "RangeToInclusive":
        hi = ADD(fs[0], ONE)
    elif nm == "RangeInclusive":
        lo, hi = fs[0], ADD(fs[1], ONE)
    return lo, hi


def cut_list(E, l, lo, hi):
    return E.sublist(l, lo, hi) if l.tag == "list" else vlist([(TRUE, "s", mk("app", "slice", (l, lo, hi)))])


@model(r"slice::<impl \[T\]>::(split_first|split_last)$")
def m_splitfirst(E, ctx, f, a, dty, where, fr):
    l = as_list(E, ctx, a[0])
    if l.tag != "list":
        return NotImplemented
    n = E.length(l)
    first = f["def"].endswith("first")
    tt = E.p.types[inner_ty(E, dty)].get("f", [None])
    v = E.index(l, ZERO if first else SUB(n, ONE), strip_ref(E, tt[0]))
    rest = E.sublist(l, ONE, n) if first else E.sublist(l, ZERO, SUB(n, ONE))
    return option(LT(ZERO, n), struct("tuple", mk("ref", v, ()), mk("ref", rest, ())))


@model(r"slice::<impl \[T\]>::(split_at|split_at_checked|split_last_chunk|split_first_chunk|last_chunk|first_chunk)$")
def m_splitat(E, ctx, f, a, dty, where, fr):
    k = f["def"].split("::")[-1]
    l = as_list(E, ctx, a[0])
    n = E.length(l)
    if k in ("split_at", "split_at_checked"):
        at = a[1]
        r = struct("tuple", mk("ref", cut_list(E, l, ZERO, at), ()), mk("ref", cut_list(E, l, at, n), ()))
        if k == "split_at":
            panic(E, ctx, LT(n, at), "slice out of bounds", where, f["def"])
            return r
        return option(NOT(LT(n, at)), r)
    it = E.p.types[inner_ty(E, dty)]
    arr = it
    if it["k"] == "tuple":
        arr = E.p.types[it["f"][1 if k == "split_last_chunk" else 0]]
    while arr["k"] == "ref":
        arr = E.p.types[arr["e"]]
    if arr["k"] != "array" or arr.get("n", -1) < 0:
        return NotImplemented
    w = const(arr["n"])
    at = w if "first" in k else SUB(n, w)
    head, tail = mk("ref", cut_list(E, l, ZERO, at), ()), mk("ref", cut_list(E, l, at, n), ())
    r = {"split_last_chunk": struct("tuple", head, tail), "split_first_chunk": struct("tuple", head, tail), "last_chunk": tail, "first_chunk": head}[k]
    return option(NOT(LT(n, w)), r)


@model(r"(vec::Vec<T, A>|slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]|array::<impl std::ops::Index(Mut)?<I> for \[T; N\]).*(index|index_mut)$")
def m_index(E, ctx, f, a, dty, where, fr):
    if E.p.types[dty]["k"] != "ref":
        return NotImplemented
    ety = E.p.types[dty]["e"]
    ix = a[1]
    l = as_list(E, ctx, a[0])
    n = E.length(l)
    if ix.tag == "struct":
        lo, hi = range_bounds(ix, n)
        panic(E, ctx, OR(LT(hi, lo), LT(n, hi)), "slice out of bounds", where, f["def"])
        sub = E.sublist(l, lo, hi) if l.tag == "list" else vlist([(TRUE, "s", mk("app", "slice", (l, lo, hi)))])
        if f["def"].endswith("index_mut"):
            c = E.new_cell(ctx, sub)
            E.events.append(("slice_mut", f["def"], ctx.pc, (l, lo, hi), where))
            return mk("ref", c, ())
        return mk("ref", sub, ())
    panic(E, ctx, NOT(LT(ix, n)), "index out of bounds", where, f["def"])
    out = None
    for c, b, path in E.deref(ctx, a[0]):
        x = mk("ref", b, path + (("i", ix, ety),)) if not (b.__class__ is T and not path) else mk("ref", E.index(b, ix, ety), ())
        out = x if out is None else ite(c, x, out)
    return out


@model(r"slice::<impl \[T\]>::(get|first|last|get_mut|first_mut|last_mut)$", r"vec::Vec::<T, A>::(get|first|last)$")
def m_get(E, ctx, f, a, dty, where, fr):
    k = f["def"].split("::")[-1].replace("_mut", "")
    l = as_list(E, ctx, a[0])
    n = E.length(l)
    ix = a[1] if k == "get" else (ZERO if k == "first" else SUB(n, ONE))
    if ix.tag == "struct":
        lo, hi = range_bounds(ix, n)
        return option(AND(NOT(LT(hi, lo)), NOT(LT(n, hi))), mk("ref", E.sublist(l, lo, hi), ()))
    ety = strip_ref(E, inner_ty(E, dty))
    c = LT(ix, n) if k == "get" else LT(ZERO, n)
    its = l.args[0] if l.tag == "list" else ()
    if k == "last" and its and its[-1][0] is TRUE and its[-1][1] == "e":
        return some(mk("ref", its[-1][2], ()))
    if f["def"].endswith("_mut"):
        for cc, b, path in E.deref(ctx, a[0]):
            return option(c, mk("ref", b, path + (("i", ix, ety),)))
    return option(c, mk("ref", E.index(l, ix, ety), ()))


@model(r"slice::<impl \[T\]>::(concat|join)$")
def m_concat(E, ctx, f, a, dty, where, fr):
    l = E.deep(ctx, as_list(E, ctx, a[0]))
    if f["def"].endswith("concat") and l.tag == "list" and all(x[1] == "e" and x[0] is TRUE for x in l.args[0]):
        out = []
        for _, _, x in l.args[0]:
            x = bytes_of(x) if x.tag != "list" else x
            out += list(x.args[0])
        return vlist(out)
    return E.expand(dty, mk("app", f["def"].split("::")[-1], (l,) + tuple(E.deep(ctx, x) for x in a[1:])))


@model(r"array::<impl std::convert::TryFrom<.*> for .*\[T; N\]>::try_from$", r"<impl std::convert::TryFrom<std::vec::Vec<T, A>> for \[T; N\]>::try_from")
def m_arrtry(E, ctx, f, a, dty, where, fr):
    aty = strip_ref(E, inner_ty(E, dty))
    n = E.p.types[aty].get("n", -1) if aty is not None else -1
    l = as_list(E, ctx, a[0])
    c = EQI(E.length(l), const(n)) if n >= 0 else TRUE
    isref = E.p.types[inner_ty(E, dty)]["k"] == "ref"
    return result(c, mk("ref", l, ()) if isref else l, ERR)


# ------------------------------------------------------------------ iterators
def It(label, *f):
    return struct("It" + label, *f)


@model(r"slice::<impl \[T\]>::iter$", r"<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$", r"slice::iter::<impl std::iter::IntoIterator for &'a \[T\]>::into_iter$",
       r"<&'a \[T; N\] as std::iter::IntoIterator>::into_iter", r"array::<impl std::iter::IntoIterator for &'a \[T; N\]>::into_iter")
def m_iter(E, ctx, f, a, dty, where, fr):
    return It("ref", as_list(E, ctx, a[0]), ZERO)


@model(r"slice::<impl \[T\]>::iter_mut$", r"<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$", r"IntoIterator for &'a mut \[T\]>::into_iter$")
def m_itermut(E, ctx, f, a, dty, where, fr):
    return It("mut", a[0], ZERO)


@model(r"<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$", r"IntoIterator for \[T; N\]>::into_iter$")
def m_intoiter(E, ctx, f, a, dty, where, fr):
    return It("val", as_list(E, ctx, a[0]), ZERO)


@model(r"option::Option<T> as std::iter::IntoIterator>::into_iter$", r"option::Option::<T>::iter$")
def m_optiter(E, ctx, f, a, dty, where, fr):
    v = a[0] if a[0].tag != "ref" else E.read_ref(ctx, a[0])
    c, x = FALSE, UNDEF
    for k, cc, fs in v.args[1]:
        if k == 1:
            c, x = cc, fs[0]
    return It("val" if a[0].tag != "ref" else "ref", vlist([(c, "e", x)]), ZERO)


@model(r"iter::(once|empty|sources::once::once|sources::empty::empty|repeat_n)$")
def m_once(E, ctx, f, a, dty, where, fr):
    if "repeat" in f["def"]:
        return NotImplemented
    return It("val", vlist([(TRUE, "e", x) for x in a]), ZERO)


def opt_list(E, ctx, v):
    """the list of at most one element an Option (or the Ok side of a Result) stands for"""
    if v.tag != "enum":
        return None
    good = 1 if v.args[0].endswith("Option") else 0
    for k, cc, fs in v.args[1]:
        if k == good:
            return vlist([(cc, "e", fs[0])])
    return vlist([])


@model(r"<I as std::iter::IntoIterator>::into_iter$", r"std::iter::Iterator::by_ref$", r"iter::Iterator::(peekable|fuse|inspect)$")
def m_iid(E, ctx, f, a, dty, where, fr):
    if f["def"].endswith("into_iter"):
        return range_list(a[0]) or a[0]
    return a[0]


def range_list(it):
    """a numeric range as an iterator over a list of consecutive numbers"""
    if it.tag == "struct" and it.args[0].split("::")[-1] in ("Range", "RangeInclusive"):
        s, e = it.args[1][:2]
        if len(it.args[1]) == 3:
            if it.args[1][2] is not FALSE:
                return None
            e = ADD(e, ONE)
        if is_const(s) and is_const(e):
            return None
        return It("val", vlist([(TRUE, "s", mk("app", "range", (s, e)))]), ZERO)
    return None


@model(r"iter::Iterator::(map|filter|filter_map|rev|enumerate|take|skip|zip|chain|cloned|copied|take_while|skip_while|flat_map|flatten|step_by)$",
       r"as std::iter::Iterator>::(map|filter|filter_map|rev|enumerate|take|skip|zip|chain|cloned|copied|step_by|take_while)$")
def m_adapt(E, ctx, f, a, dty, where, fr):
    k = f["def"].split("::")[-1]
    if k in ("cloned", "copied"):
        return It("cloned", a[0])
    if k in ("zip", "chain"):
        b = a[1]
        if b.tag == "list":
            b = It("val", b, ZERO)
        elif b.tag == "ref":
            b = It("ref", as_list(E, ctx, b), ZERO)
        elif b.tag == "enum" and opt_list(E, ctx, b) is not None:
            b = It("val", opt_list(E, ctx, b), ZERO)
        return It(k, a[0], b)
    if k == "enumerate":
        return It(k, a[0], ZERO)
    if k == "flat_map":
        ret = closure_ret_ty(E, ctx, a[1])
        if ret is not None and E.p.types[ret].get("n") == OPT:
            return It("filter_map", *a)
    if k == "flatten":
        l, base = it_source(E, ctx, a[0], where, fr)
        if l.tag != "list" or any(x[1] != "e" for x in l.args[0]):
            return NotImplemented
        out = []
        for c, _, x in l.args[0]:
            x = E.read_ref(ctx, x) if x.tag == "ref" else x
            o = opt_list(E, ctx, x) if x.tag == "enum" else x if x.tag == "list" else None
            if o is None:
                return NotImplemented
            out += [(AND(c, g), kk, v) for g, kk, v in o.args[0]]
        return It(base, vlist(out), ZERO)
    if k == "rev" and range_list(a[0]):
        x = range_list(a[0]).args[1][0].args[0][0][2]
        return It("val", vlist([(TRUE, "s", mk("app", "rev", (x,)))]), ZERO)
    if k == "rev" and a[0].tag == "struct" and a[0].args[0] in ("Itref", "Itval") and a[0].args[1][1] is ZERO:
        l = a[0].args[1][0]
        if l.tag == "list" and all(x[1] == "e" for x in l.args[0]):
            return It(a[0].args[0][2:], vlist(reversed(l.args[0])), ZERO)
    return It(k, *a)


def next_on(E, ctx, it, ety, where, fr):
    """(cond, value, iterator') of one step of the abstract iterator value it"""
    lab = it.args[0]
    fs = it.args[1]
    if lab in ("Itref", "Itval"):
        l, pos = fs
        c = LT(pos, E.length(l))
        if c is FALSE:
            return FALSE, UNDEF, it
        v = E.index(l, pos, strip_ref(E, ety) if lab == "Itref" else ety)
        return c, (mk("ref", v, ()) if lab == "Itref" else v), It(lab[2:], l, vite(c, ADD(pos, ONE), pos))
    if lab == "Itmut":
        ref, pos = fs
        l = as_list(E, ctx, ref)
        c = LT(pos, E.length(l))
        out = UNDEF
        for cc, b, path in E.deref(ctx, ref):
            x = mk("ref", b, path + (("i", pos, strip_ref(E, ety)),))
            out = x if out is UNDEF else ite(cc, x, out)
        return c, out, It("mut", ref, vite(c, ADD(pos, ONE), pos))
    if lab == "Itmap":
        c, v, n = next_on(E, ctx, fs[0], None, where, fr)
        if c is FALSE:
            return c, UNDEF, It("map", n, fs[1])
        c2 = Ctx2(ctx, c)
        r = E.call_closure(c2, fs[1], [v], ety, where, fr)
        absorb(E, ctx, c2, c)
        return c, (r if r is not None else UNDEF), It("map", n, fs[1])
    if lab == "Itcloned":
        c, v, n = next_on(E, ctx, fs[0], ety, where, fr)
        return c, (E.read_ref(ctx, v) if v is not UNDEF else v), It("cloned", n)
    if lab == "Itenumerate":
        c, v, n = next_on(E, ctx, fs[0], None if ety is None else E.p.types[ety].get("f", [None, None])[1], where, fr)
        return c, struct("tuple", fs[1], v), It("enumerate", n, vite(c, ADD(fs[1], ONE), fs[1]))
    if lab == "Ittake":
        c, v, n = next_on(E, ctx, fs[0], ety, where, fr)
        g = LT(ZERO, fs[1])
        cc = AND(g, c)
        return cc, v, It("take", vite(g, n, fs[0]), vite(g, SUB(fs[1], ONE), fs[1]))
    if lab == "Itrev":
        inner = fs[0]
        if inner.tag == "struct" and inner.args[0] in ("Itref", "Itval"):
            l, pos = inner.args[1]
            n = E.length(l)
            c = LT(pos, n)
            ix = SUB(SUB(n, ONE), pos)
            v = E.index(l, ix, strip_ref(E, ety) if inner.args[0] == "Itref" else ety)
            return c, (mk("ref", v, ()) if inner.args[0] == "Itref" else v), It("rev", It(inner.args[0][2:], l, vite(c, ADD(pos, ONE), pos)))
        if inner.tag == "struct" and inner.args[0].endswith("Range"):
            s, e = inner.args[1]
            c = LT(s, e)
            v = SUB(e, ONE)
            return c, v, It("rev", struct(inner.args[0], s, vite(c, v, e)))
        if inner.tag == "struct" and inner.args[0].endswith("RangeInclusive"):
            s, e, x = inner.args[1]
            c = AND(NOT(x), NOT(LT(e, s)))
            more = LT(s, e)
            return c, e, It("rev", struct(inner.args[0], s, vite(AND(c, more), SUB(e, ONE), e), OR(x, AND(c, NOT(more)))))
    if lab.endswith("Range") and not lab.startswith("It"):
        s, e = fs
        c = LT(s, e)
        return c, s, struct(lab, vite(c, ADD(s, ONE), s), e)
    if lab.endswith("RangeInclusive"):
        s, e, x = fs
        c = AND(NOT(x), NOT(LT(e, s)))
        more = LT(s, e)
        return c, s, struct(lab, vite(AND(c, more), ADD(s, ONE), s), e, OR(x, AND(c, NOT(more))))
    if lab in ("Itfilter", "Itfilter_map", "Itskip", "Itzip", "Itchain", "Itskip_while", "Itflat_map", "Itstep_by", "Ittake_while"):
        if lab == "Itzip":
            fts = E.p.types[ety].get("f", [None, None]) if ety is not None else [None, None]
            c1, v1, n1 = next_on(E, ctx, fs[0], fts[0], where, fr)
            c2, v2, n2 = next_on(E, ctx, fs[1], fts[1], where, fr)
            return AND(c1, c2), struct("tuple", v1, v2), It("zip", n1, n2)
        # flatten to a list value and iterate that
        try:
            l = collect_list(E, ctx, it, where, fr)
            return next_on(E, ctx, It("val", l, ZERO), ety, where, fr)
        except Unsupported:
            pass
    t = mk("app", "next", (E.deep(ctx, it),))
    return atom_var(mk("app", "hasnext", (E.deep(ctx, it),))), (E.expand(ety, t) if ety is not None else t), struct(lab, *fs[:-1], mk("app", "adv", (E.deep(ctx, it),))) if fs else it


class Ctx2:
    """context for evaluating a sub-computation under an extra condition"""
    def __init__(self, ctx, c):
        self.pc = AND(ctx.pc, c)
        self.cells = dict(ctx.cells)

    def copy(self):
        from .engine import Ctx
        return Ctx(self.pc, dict(self.cells))


def absorb(E, ctx, c2, c):
    """merge the effects of a computation run under condition c back into ctx"""
    for k, v in c2.cells.items():
        u = ctx.cells.get(k)
        if u is None and isinstance(k, tuple):
            u = untouched_cell(k)
        if u is None:
            ctx.cells[k] = v
        elif u is not v:
            ctx.cells[k] = vite(c, v, u)
    ctx.pc = OR(AND(ctx.pc, NOT(c)), c2.pc)


@model(r"as std::iter::Iterator>::next$", r"<impl std::iter::Iterator for .*>::next$", r"DoubleEndedIterator>::next_back$")
def m_next(E, ctx, f, a, dty, where, fr):
    it = E.read_ref(ctx, a[0])
    if it.tag == "ref":
        it = E.read_ref(ctx, it)
    ety = inner_ty(E, dty)
    if f["def"].endswith("next_back"):
        it = It("rev", it)
    if it.tag != "struct":
        t = mk("app", "next", (it,))
        E.write_ref(ctx, a[0], mk("app", "adv", (it,)))
        return option(atom_var(mk("app", "hasnext", (it,))), E.expand(ety, t))
    if it.args[0] in ("Itfilter", "Itfilter_map") or (it.args[0] == "Itmap" and chain_has_filter(it)):
        l = collect_list(E, ctx, it, where, fr)
        base = base_label(it)
        if l.tag == "list" and len(l.args[0]) == 1 and l.args[0][0][1] == "s":
            E.write_ref(ctx, a[0], It(base, l, ONE))
            return list_find(E, ctx, l, strip_ref(E, ety) if base == "ref" else ety, lambda c, e: TRUE, lambda x, o: mk("ref", x, ()) if base == "ref" else x)
    c, v, n = next_on(E, ctx, it, ety, where, fr)
    if f["def"].endswith("next_back"):
        n = n.args[1][0] if n.args[0] == "Itrev" else n
    # iteration filters are flattened once: store the flattened iterator
    E.write_ref(ctx, a[0], n)
    if c is FALSE:
        return NONE
    return option(c, v)


def chain_has_filter(it):
    while it.tag == "struct" and it.args[0] in ("Itmap", "Itcloned"):
        it = it.args[1][0]
    return it.tag == "struct" and it.args[0] in ("Itfilter", "Itfilter_map")


@model(r"array::<impl \[T; N\]>::map$")
def m_arrmap(E, ctx, f, a, dty, where, fr):
    l = as_list(E, ctx, a[0])
    if l.tag != "list" or any(x[1] != "e" or x[0] is not TRUE for x in l.args[0]):
        return NotImplemented
    clo = a[1] if a[1].tag == "ref" else mk("ref", E.new_cell(ctx, a[1]), ())
    out = []
    for c, k, x in l.args[0]:
        r = E.call_closure(ctx, clo, [x], None, where, fr)
        if r is None:
            return None
        out.append((TRUE, "e", r))
    return vlist(out)


@model(r"ops::RangeInclusive::<Idx>::new$")
def m_rinew(E, ctx, f, a, dty, where, fr):
    return struct("std::ops::RangeInclusive", a[0], a[1], FALSE)


def pure_eval(E, ctx, fn, elem):
    """evaluate fn on an abstract element without keeping effects; (cond of normal completion, value)"""
    c2 = Ctx2(ctx, TRUE)
    before = c2.pc
    n = len(E.panics)
    v = fn(c2, elem)
    done = restrict(c2.pc, before)
    return (TRUE if c2.pc is before else done), v


def boundvar(E):
    s = mk("sym", "β%d" % E.bound)
    set_range(s, 0, (1 << 63) - 1)
    return as_poly(s)


def per_item(E, ctx, l, ety, fn, fuse=False, through=False):
    """for each list item yield (cond, kind, source, done, value, element); through: a filtered list is
    replaced by the one it is taken from, its condition joined to the value"""
    if l.tag != "list":
        l = vlist([(TRUE, "s", l)])
    for c, k, x in l.args[0]:
        if k == "e":
            d, v = pure_eval(E, ctx, fn, x)
            yield c, k, x, d, v, x
        else:
            b = boundvar(E)
            E.bound += 1
            try:
                g = TRUE
                if fuse and x.tag == "app" and x.args[0] == "map":
                    x, el = x.args[1]
                elif through and x.tag == "app" and x.args[0] in ("filter", "map", "filter_map"):
                    src, el, g = under(E, x, b, ety)
                    if el is None:
                        el, g = E.elem(x, b, ety), TRUE
                    else:
                        x = src
                else:
                    el = E.elem(x, b, ety)
                d, v = pure_eval(E, ctx, fn, el)
                if g is not TRUE:
                    d, v = OR(NOT(g), d), None if v is None else AND(g, v)
            finally:
                E.bound -= 1
            yield c, k, x, d, v, el


_dep = {}


def has_bound(t):
    """does the term mention a bound element position?"""
    r = _dep.get(t)
    if r is None:
        r = False
        st, seen = [t], set()
        while st and not r:
            x = st.pop()
            if isinstance(x, tuple):
                st.extend(x)
            elif isinstance(x, T) and x not in seen:
                seen.add(x)
                if x.tag == "sym" and isinstance(x.args[0], str) and x.args[0].startswith("β"):
                    r = True
                elif x.tag == "ite":
                    st.extend(ATOMS[v] for v in support(x))
                    st.extend(leaves(x))
                else:
                    st.extend(x.args)
        _dep[t] = r
    return r


def split_free(b, fn):
    """fn over the parts of the condition b that speak about the element, split on its other atoms"""
    for v in sorted(support(b)) if b.tag == "ite" else ():
        if not has_bound(ATOMS[v]):
            return ite(atom_var(ATOMS[v]), split_free(cofactor(b, {v: True}), fn), split_free(cofactor(b, {v: False}), fn))
    return fn(b)


def free_cases(b, g=TRUE):
    """[(condition free of the element, element condition)]"""
    for v in sorted(support(b)) if b.tag == "ite" else ():
        if not has_bound(ATOMS[v]):
            a = atom_var(ATOMS[v])
            return free_cases(cofactor(b, {v: True}), AND(g, a)) + free_cases(cofactor(b, {v: False}), AND(g, NOT(a)))
    return [(g, b)]


def positions(x):
    """a list with as many elements as x whose positions stand for those of x: what is said of the
    positions 0..len(l), or of the numbered elements of l, is said of the positions of l"""
    if x.tag == "app" and x.args[0] == "range" and x.args[1][0] is ZERO:
        n = x.args[1][1]
        if n.tag == "poly" and len(n.args[0]) == 1 and n.args[0][0][1] == 1 and len(n.args[0][0][0]) == 1:
            t = n.args[0][0][0][0]
            if t.tag == "app" and t.args[0] == "len" and t.args[1][0].tag in ("app", "sym", "proj"):
                return t.args[1][0]
    if x.tag == "app" and x.args[0] == "enumerate":
        l = x.args[1][0]
        if l.tag == "list" and len(l.args[0]) == 1 and l.args[0][0][:2] == (TRUE, "s"):
            return l.args[0][0][2]
    return x


def exists_atom(x, b):
    x = positions(x)

    def one(b):
        if b is FALSE:
            return FALSE
        if b is TRUE:
            return NOT(EQI(list_len(x), ZERO))
        s = bit_scan(x, b)
        if s is not None:
            return NOT(EQI(s[0], ZERO))
        if never_in(x, b):
            return FALSE
        return atom_var(mk("exists", x, b))
    return split_free(b, one)


def never_in(x, b):
    """the condition fails at every position below the length of the list"""
    from .idiom import bounds
    used = bounds(b)
    if len(used) != 1:
        return False
    return AND(LT(as_poly(mk("sym", "β%d" % next(iter(used)))), list_len(x)), b) is FALSE


def bit_scan(x, b):
    """(bits scanned, position of the first hit) when b asks whether a bit of a fixed word is set and the
    list x counts all the bits of it upwards from some position, or downwards to the lowest"""
    if b.tag != "ite" or b.args[1] is not TRUE or b.args[2] is not FALSE:
        return None
    a = ATOMS[b.args[0]]
    if a.tag != "app" or a.args[0] != "bit":
        return None
    w, p = as_poly(a.args[1][0]), as_poly(a.args[1][1])
    if has_bound(w) or prange(w)[0] < 0 or prange(w)[1] == INF:
        return None
    down = x.tag == "app" and x.args[0] == "rev"
    r = x.args[1][0] if down else x
    if r.tag != "app" or r.args[0] != "range":
        return None
    lo, hi = r.args[1]
    if lo.tag != "poly" or hi.tag != "poly":
        return None
    beta = [t for m, c in p.args[0] for t in m if has_bound(t)]
    if len(beta) != 1 or beta[0].tag != "sym":
        return None
    i = as_poly(beta[0])
    if not down and p is padd(lo, i) and is_const(hi) and cval(hi) >= int(prange(w)[1]).bit_length() and prange(lo)[0] >= 0:
        return fdiv_leaf(w, pow2(lo, 128)), padd(next_bit(w, lo), lo, -1)
    if down and p is padd(padd(hi, ONE, -1), i, -1) and lo is ZERO:
        return mod_leaf(w, pow2(hi, 256)), padd(padd(hi, ONE, -1), prev_bit(w, padd(hi, ONE, -1)), -1)
    return None


def first_ix(x, b):
    x = positions(x)

    def one(b):
        s = bit_scan(x, b)
        return s[1] if s is not None else as_poly(app("first", x, b, rng=(0, (1 << 63) - 1)))
    return split_free(b, one)


def forall_done(ctx, c, k, x, d):
    if d is TRUE:
        return
    ctx.pc = AND(ctx.pc, OR(NOT(c), d if k == "e" else NOT(exists_atom(x, NOT(d)))))


def under(E, x, b, ety):
    """the list a filtered or mapped one is taken from: (list, its element b as seen through, condition to be kept)"""
    if x.tag == "app" and x.args[0] in ("filter", "map", "filter_map") and x.args[1][0].tag in ("app", "sym", "proj"):
        y, body = x.args[1][:2]
        if x.args[0] == "filter_map":
            return (y, x.args[1][2], body) if under(E, y, b, None)[0] is y else (x, None, TRUE)
        src, el, g = under(E, y, b, None)
        if el is None:
            return x, None, TRUE
        if src is not y:
            from .idiom import subst
            if el.tag != "app":
                return x, None, TRUE
            body = subst(body, {mk("app", "elem", (y, b)): el})
        if x.args[0] == "map":
            return src, body, g
        return src, (E.expand(ety, el) if ety is not None else el), AND(g, body)
    return x, (E.elem(x, b, ety) if ety is not None else mk("app", "elem", (x, b))), TRUE


def list_any(E, ctx, l, ety, fn):
    r = FALSE
    if l.tag != "list":
        l = vlist([(TRUE, "s", l)])
    for c, k, x in l.args[0]:
        g = TRUE
        if k == "e":
            d, v = pure_eval(E, ctx, fn, x)
        else:
            b = boundvar(E)
            E.bound += 1
            try:
                src, el, g = under(E, x, b, ety)
                if el is None:
                    src, el, g = x, E.elem(x, b, ety), TRUE
                d, v = pure_eval(E, ctx, fn, el)
                x = src
            finally:
                E.bound -= 1
        forall_done(ctx, c, k, x, OR(NOT(g), d))
        if v is None:
            continue
        r = OR(r, AND(c, v if k == "e" else exists_atom(x, AND(g, v))))
    return r


def list_filter(E, ctx, l, ety, fn):
    out = []
    for c, k, x, d, v, el in per_item(E, ctx, l, ety, fn, through=True):
        forall_done(ctx, c, k, x, d)
        if k == "e":
            out.append((AND(c, v), "e", x))
        else:
            for g, b in free_cases(v):
                if b is TRUE:
                    out.append((AND(c, g), "s", x if el is E.elem(x, boundvar(E), ety) else mk("app", "map", (x, el))))
                elif b is not FALSE and el is E.elem(x, boundvar(E), ety):
                    out.append((AND(c, g), "s", mk("app", "filter", (x, b))))
                elif b is not FALSE:
                    out.append((AND(c, g), "s", mk("app", "filter_map", (x, b, E.deep(ctx, el)))))
    return vlist(out)


def same_elem(E, v, x, b):
    """is the value the element of x at b, unchanged?"""
    from .idiom import is_elem
    return is_elem(E, v, mk("app", "elem", (x, b)))


def list_map(E, ctx, l, ety, fn):
    out = []
    for c, k, x, d, v, el in per_item(E, ctx, l, ety, fn, True):
        forall_done(ctx, c, k, x, d)
        if k == "e":
            out.append((c, "e", v))
        elif v is el and v.tag == "app" and v.args[0] == "elem" and v.args[1][0] is x:
            out.append((c, "s", x))
        elif el.tag == v.tag == "struct" and el.args[0] == v.args[0] and eqv(el, v) is TRUE and E.elem(x, boundvar(E), ety) is el:
            out.append((c, "s", x))
        else:
            out.append((c, "s", mapped(E, x, E.deep(ctx, v))))
    return vlist(out)


def mapped(E, x, v):
    """the list of v over the positions of x"""
    x = positions(x)
    return x if same_elem(E, v, x, boundvar(E)) else mk("app", "map", (x, v))


def elem_type(E, it, fr):
    return None


def collect_list(E, ctx, it, where, fr, ety=None):
    """list value denoted by draining an abstract iterator"""
    if it.tag == "list":
        return it
    if it.tag != "struct":
        return vlist([(TRUE, "s", mk("app", "drain", (it,)))])
    lab, fs = it.args
    if lab in ("Itref", "Itval"):
        l, pos = fs
        if pos is ZERO:
            return l
        return E.sublist(l, pos, E.length(l))
    if lab == "Itcloned":
        return collect_list(E, ctx, fs[0], where, fr, ety)
    if lab == "Itmap":
        src, base = fs[0], base_label(fs[0])
        l = collect_list(E, ctx, src, where, fr)
        aty = closure_arg_ty(E, ctx, fs[1])
        st = strip_ref(E, aty) if base == "ref" else aty
        return list_map(E, ctx, l, st, lambda c, e: E.call_closure(c, fs[1], [mk("ref", e, ()) if base == "ref" else e], None, where, fr))
    if lab == "Itfilter":
        base = base_label(fs[0])
        l = collect_list(E, ctx, fs[0], where, fr)
        aty = closure_arg_ty(E, ctx, fs[1])
        aty = E.p.types[aty]["e"] if aty is not None and E.p.types[aty]["k"] == "ref" else aty
        st = strip_ref(E, aty) if base == "ref" else aty
        return list_filter(E, ctx, l, st, lambda c, e: E.call_closure(c, fs[1], [mk("ref", mk("ref", e, ()) if base == "ref" else e, ())], None, where, fr))
    if lab == "Itfilter_map":
        base = base_label(fs[0])
        l = collect_list(E, ctx, fs[0], where, fr)
        aty = closure_arg_ty(E, ctx, fs[1])
        st = strip_ref(E, aty) if base == "ref" else aty
        out = []
        for c, k, x, d, v, el in per_item(E, ctx, l, st, lambda c, e: E.call_closure(c, fs[1], [mk("ref", e, ()) if base == "ref" else e], None, where, fr), through=True):
            forall_done(ctx, c, k, x, d)
            cs, val = FALSE, UNDEF
            if v is not None and v.tag == "enum":
                for kk, cc, ff in v.args[1]:
                    if kk == 1:
                        cs, val = cc, ff[0]
            if k == "e":
                out.append((AND(c, cs), "e", val))
            else:
                val = E.deep(ctx, val)
                x = positions(x)
                same = same_elem(E, val, x, boundvar(E))
                for g, b in free_cases(cs):
                    if b is TRUE:
                        out.append((AND(c, g), "s", x if same else mk("app", "map", (x, val))))
                    elif b is not FALSE:
                        out.append((AND(c, g), "s", mk("app", "filter", (x, b)) if same else mk("app", "filter_map", (x, b, val))))
        return vlist(out)
    if lab == "Itenumerate":
        l = collect_list(E, ctx, fs[0], where, fr)
        if l.tag == "list" and all(x[0] is TRUE and x[1] == "e" for x in l.args[0]):
            return vlist([(TRUE, "e", struct("tuple", ADD(fs[1], const(i)), x[2])) for i, x in enumerate(l.args[0])])
        if fs[1] is not ZERO:
            raise Unsupported("numbering taken up midway")
        return vlist([(TRUE, "s", mk("app", "enumerate", (l,)))])
    if lab == "Itrev":
        l = collect_list(E, ctx, fs[0], where, fr)
        if all(x[1] == "e" for x in l.args[0]):
            return vlist(reversed(l.args[0]))
        return vlist([(TRUE, "s", mk("app", "rev", (l,)))])
    if lab == "Itzip":
        l1, l2 = collect_list(E, ctx, fs[0], where, fr), collect_list(E, ctx, fs[1], where, fr)
        if all(x[0] is TRUE and x[1] == "e" for x in l1.args[0] + l2.args[0]):
            return vlist([(TRUE, "e", struct("tuple", mk("ref", x[2], ()) if base_label(fs[0]) == "ref" else x[2], mk("ref", y[2], ()) if base_label(fs[1]) == "ref" else y[2]))
                          for x, y in zip(l1.args[0], l2.args[0])])
    if lab == "Itchain":
        return vlist(list(collect_list(E, ctx, fs[0], where, fr).args[0]) + list(collect_list(E, ctx, fs[1], where, fr).args[0]))
    if lab in ("Ittake", "Itskip"):
        l = collect_list(E, ctx, fs[0], where, fr)
        if is_const(fs[1]) and all(x[0] is TRUE and x[1] == "e" for x in l.args[0]):
            n = cval(fs[1])
            return vlist(l.args[0][:n] if lab == "Ittake" else l.args[0][n:])
        return vlist([(TRUE, "s", mk("app", lab[2:], (l, fs[1])))])
    if lab.endswith("Range"):
        s, e = fs
        if is_const(s) and is_const(e) and 0 <= cval(e) - cval(s) <= 256:
            return vlist([(TRUE, "e", const(i)) for i in range(cval(s), cval(e))])
        return vlist([(TRUE, "s", mk("app", "range", (s, e)))])
    if lab.endswith("RangeInclusive"):
        s, e, x = fs
        return vlist([(TRUE, "s", mk("app", "range", (s, ADD(e, ONE))))])
    return vlist([(TRUE, "s", mk("app", "drain", (E.deep(ctx, it),)))])


def base_label(it):
    """'ref' when the items are references into the source list"""
    if it.tag == "struct":
        if it.args[0] == "Itref":
            return "ref"
        if it.args[0] in ("Itfilter", "Itrev", "Ittake", "Itskip", "Itchain", "Itskip_while", "Ittake_while"):
            return base_label(it.args[1][0])
    return "val"


def closure_arg_ty(E, ctx, clo, i=0):
    b = clo
    while b.tag == "ref":
        b = E.read_ref(ctx, b)
    if b.tag == "struct" and b.args[0].startswith("closure:"):
        ty = E.p.types[int(b.args[0].split(":")[1])]
        f = E.p.fns.get(ty["fn"]) or {}
        if "blocks" not in f:
            f = E.p.fns.get(ty["once"]) or {}
        if "locals" in f:
            return f["locals"][2 + i]
    if b.tag == "fn":
        f = E.p.fns.get(b.args[0]) or {}
        if "locals" in f:
            return f["locals"][1 + i]
    return None


def closure_ret_ty(E, ctx, clo):
    b = clo
    while b.tag == "ref":
        b = E.read_ref(ctx, b)
    f = {}
    if b.tag == "struct" and b.args[0].startswith("closure:"):
        ty = E.p.types[int(b.args[0].split(":")[1])]
        f = E.p.fns.get(ty["fn"]) or {}
        if "blocks" not in f:
            f = E.p.fns.get(ty["once"]) or {}
    elif b.tag == "fn":
        f = E.p.fns.get(b.args[0]) or {}
    return f["locals"][0] if "locals" in f else None


def it_source(E, ctx, a0, where, fr):
    it = a0
    if it.tag == "ref":
        it = E.read_ref(ctx, it)
    base = base_label(it)
    return collect_list(E, ctx, it, where, fr), base


@model(r"iter::Iterator>?::(any|all|find|position|count|for_each|fold|sum|product|last|nth|min|max|max_by_key|min_by_key|find_map|try_for_each|try_fold|partition|unzip)$")
def m_consume(E, ctx, f, a, dty, where, fr):
    k = f["def"].split("::")[-1]
    if k == "for_each":
        return closure_loop(E, ctx, a, where, fr)
    it = E.read_ref(ctx, a[0]) if a[0].tag == "ref" else a[0]
    if it.tag == "struct" and it.args[0].split("::")[-1] in ("Range", "RangeInclusive") and k not in ("count",):
        pass
    l, base = it_source(E, ctx, a[0], where, fr)
    if k in ("any", "all"):
        aty = closure_arg_ty(E, ctx, a[1])
        st = strip_ref(E, aty) if base == "ref" else aty
        call = lambda c, e: E.call_closure(c, a[1], [mk("ref", e, ()) if base == "ref" else e], None, where, fr)
        if k == "any":
            return list_any(E, ctx, l, st, call)
        return NOT(list_any(E, ctx, l, st, lambda c, e: notnone(call(c, e))))
    if k in ("find", "position"):
        aty = closure_arg_ty(E, ctx, a[1])
        if k == "find":
            aty = E.p.types[aty]["e"] if aty is not None else None
        st = strip_ref(E, aty) if base == "ref" else aty

        def call(c, e):
            x = mk("ref", e, ()) if base == "ref" else e
            return E.call_closure(c, a[1], [mk("ref", x, ())] if k == "find" else [x], None, where, fr)
        return list_find(E, ctx, l, st, call, lambda x, o: o if k == "position" else (mk("ref", x, ()) if base == "ref" else x), k == "find")
    if k == "count":
        return E.length(l)
    if k in ("last", "nth"):
        n = E.length(l)
        ix = SUB(n, ONE) if k == "last" else a[1]
        ety = inner_ty(E, dty)
        if k == "nth" and a[0].tag == "ref":
            E.write_ref(ctx, a[0], It(base, l, vite(LT(ix, n), ADD(ix, ONE), n)))
        c = LT(ZERO, n) if k == "last" else LT(ix, n)
        if c is FALSE:
            return NONE
        if k == "last" and l.tag == "list" and l.args[0] and l.args[0][-1][:2] == (TRUE, "e"):
            v = l.args[0][-1][2]
        else:
            v = E.index(l, ix, strip_ref(E, ety) if base == "ref" else ety)
        return option(c, mk("ref", v, ()) if base == "ref" else v)
    if k == "partition":
        aty = closure_arg_ty(E, ctx, a[1])
        aty = E.p.types[aty]["e"] if aty is not None and E.p.types[aty]["k"] == "ref" else aty
        st = strip_ref(E, aty) if base == "ref" else aty

        def side(neg):
            def call(c, e):
                r = E.call_closure(c, a[1], [mk("ref", mk("ref", e, ()) if base == "ref" else e, ())], None, where, fr)
                return NOT(r) if neg and r is not None else r
            return list_filter(E, ctx, l, st, call)
        return struct("tuple", side(False), side(True))
    if k == "find_map":
        l = collect_list(E, ctx, It("filter_map", E.read_ref(ctx, a[0]) if a[0].tag == "ref" else a[0], a[1]), where, fr)
        return list_find(E, ctx, l, inner_ty(E, dty), lambda c, e: TRUE, lambda x, o: x)
    if k == "sum":
        r = m_sum(E, ctx, f, [l], dty, where, fr)
        if r is not NotImplemented:
            return r
    if k in ("fold", "try_fold", "try_for_each", "find_map", "max_by_key", "min_by_key", "partition"):
        if k in ("fold", "try_fold", "try_for_each"):
            return fold_loop(E, ctx, k, l, base, a, dty, where, fr)
        raise Unsupported("iterator method " + k)
    dl = tuple(E.deep(ctx, x) for x in a[1:])
    return E.expand(dty, mk("app", "iter." + k, (l,) + dl))


def list_find(E, ctx, l, ety, fn, out, through=True):
    """Option of out(element, position) for the first element with fn(element)"""
    items = list(per_item(E, ctx, l, ety, fn, through=through))
    off = ZERO
    acc = []
    for c, kk, x, d, v, el in items:
        forall_done(ctx, c, kk, x, d)
        if kk == "e":
            acc.append((AND(c, v), x, off))
            off = vite(c, ADD(off, ONE), off)
        else:
            ix = first_ix(x, v)
            seen, el = el, None
            plain_el = seen is E.elem(x, boundvar(E), ety)
            for g, b in free_cases(v):
                if plain_el:
                    e1 = E.elem(x, first_ix(x, b), ety)
                else:
                    from .idiom import subst
                    e1 = subst(E.deep(ctx, seen), {mk("sym", "β%d" % E.bound): first_ix(x, b)})
                el = e1 if el is None else vite(g, e1, el)
            acc.append((AND(c, exists_atom(x, v)), el, ADD(off, ix)))
            off = vite(c, ADD(off, as_poly(app("len", x, rng=(0, (1 << 63) - 1)))), off)
    r = NONE
    for c, x, o in reversed(acc):
        r = vite(c, some(out(x, o)), r)
    return r


def fold_loop(E, ctx, k, l, base, a, dty, where, fr):
    """fold / try_fold / try_for_each as a loop over the element list with an accumulator cell"""
    clo = a[-1]
    if clo.tag != "ref":
        clo = mk("ref", E.new_cell(ctx, clo), ())
    aty = closure_arg_ty(E, ctx, clo, 0 if k == "try_for_each" else 1)
    ety = strip_ref(E, aty) if base == "ref" else aty
    acc = None
    if k != "try_for_each":
        acc = E.new_cell(ctx, a[1])
        E.celltype[acc] = closure_arg_ty(E, ctx, clo, 0)
    bad = []

    def body(c, e):
        x = mk("ref", e, ()) if base == "ref" else e
        r = E.call_closure(c, clo, [x] if acc is None else [c.cells[acc], x], None, where, fr)
        if k == "fold":
            c.cells[acc] = r
            return
        # Result: variant 0 continues; Option: variant 1 continues
        good = 0 if E.p.types[dty]["n"] == RES else 1
        cs, v = FALSE, UNIT
        for kk, cc, ff in r.args[1]:
            if kk == good:
                cs, v = cc, ff[0] if ff else UNIT
        bad.append(AND(c.pc, NOT(cs)))
        c.pc = AND(c.pc, cs)
        if acc is not None:
            c.cells[acc] = v
    if l.tag == "list" and all(x[1] == "e" for x in l.args[0]):
        if k != "fold":
            # the elements in turn, for as long as none has failed; a failure ends the walk, not the function
            ok = TRUE
            good = 0 if E.p.types[dty]["n"] == RES else 1
            for c, _, x in l.args[0]:
                c = AND(c, ok)
                c2 = Ctx2(ctx, c)
                e = mk("ref", x, ()) if base == "ref" else x
                r = E.call_closure(c2, clo, [e] if acc is None else [c2.cells[acc], e], None, where, fr)
                if r.tag != "enum":
                    raise Unsupported(k + " over a literal list")
                cs, v = FALSE, UNIT
                for kk, cc, ff in r.args[1]:
                    if kk == good:
                        cs, v = cc, ff[0] if ff else UNIT
                if acc is not None:
                    c2.cells[acc] = vite(cs, v, c2.cells[acc]) if cs is not FALSE else c2.cells[acc]
                absorb(E, ctx, c2, c)
                ok = AND(ok, OR(NOT(c), cs))
            v = UNIT if acc is None else ctx.cells[acc]
            return result(ok, v, ERR) if good == 0 else option(ok, v)
        for c, _, x in l.args[0]:
            c2 = Ctx2(ctx, c)
            body(c2, x)
            absorb(E, ctx, c2, c)
        return ctx.cells[acc]
    info = E.loop_over(ctx, l, ety, body, where, bad)
    if k == "fold":
        return ctx.cells[acc]
    good = TRUE
    if "ok" in info:
        good = info["ok"]
    elif bad and bad[-1] is not FALSE:
        good = atom_var(mk("app", "loopok", (mk("sym", info["tag"]),)))
    info["stops"] = bad[-1] if bad else FALSE
    v = UNIT if acc is None else ctx.cells[acc]
    if E.p.types[dty]["n"] == RES:
        return result(good, v, ERR)
    return option(good, v)


def notnone(v):
    return NOT(v) if v is not None else FALSE


def closure_loop(E, ctx, a, where, fr):
    """iter.for_each(closure): summarise as a loop over the element list"""
    it = a[0] if a[0].tag != "ref" else E.read_ref(ctx, a[0])
    l = collect_list(E, ctx, it, where, fr)
    base = base_label(it)
    aty = closure_arg_ty(E, ctx, a[1])
    clo = a[1]
    if clo.tag != "ref":
        clo = mk("ref", E.new_cell(ctx, clo), ())
    if l.tag == "list" and all(x[1] == "e" for x in l.args[0]):
        for c, _, x in l.args[0]:
            c2 = Ctx2(ctx, c)
            E.call_closure(c2, clo, [mk("ref", x, ()) if base == "ref" else x], None, where, fr)
            absorb(E, ctx, c2, c)
        return UNIT
    E.loop_over(ctx, l, strip_ref(E, aty) if base == "ref" else aty,
                lambda c, e: E.call_closure(c, clo, [mk("ref", e, ()) if base == "ref" else e], None, where, fr), where)
    return UNIT


@model(r"iter::Iterator::collect$", r"as std::iter::FromIterator<.*>>::from_iter$")
def m_collect(E, ctx, f, a, dty, where, fr):
    t = E.p.types[dty]
    it = a[0]
    if t["k"] == "adt" and t["n"] == RES:
        # collecting Results: all Ok
        inner = it
        l = collect_list(E, ctx, it, where, fr)
        okc, items = TRUE, []
        for c, k, x in l.args[0]:
            if k == "e" and x.tag == "enum":
                d = {kk: (cc, ff) for kk, cc, ff in x.args[1]}
                cc, ff = d.get(0, (FALSE, (UNDEF,)))
                okc = AND(okc, OR(NOT(c), cc))
                items.append((c, "e", ff[0]))
            elif k == "s" and x.tag == "app" and x.args[0] == "map" and x.args[1][1].tag == "enum":
                d = {kk: (cc, ff) for kk, cc, ff in x.args[1][1].args[1]}
                cc, ff = d.get(0, (FALSE, (UNDEF,)))
                okc = AND(okc, OR(NOT(c), NOT(exists_atom(x.args[1][0], NOT(cc)))))
                items.append((c, "s", x.args[1][0] if same_elem(E, ff[0], x.args[1][0], boundvar(E)) else mk("app", "map", (x.args[1][0], ff[0]))))
            else:
                okc = AND(okc, atom_var(mk("app", "allok", (x,))))
                items.append((c, "s", mk("app", "oks", (x,))))
        return result(okc, vlist(items), ERR)
    if t["k"] == "adt" and t["n"].endswith("vec::Vec"):
        return collect_list(E, ctx, it, where, fr)
    return E.expand(dty, mk("app", "collect", (collect_list(E, ctx, it, where, fr),)))


@model(r"slice::<impl \[T\]>::contains$", r"vec::Vec::<T, A>::contains$")
def m_contains(E, ctx, f, a, dty, where, fr):
    l = as_list(E, ctx, a[0])
    x = E.deep(ctx, a[1])
    ety = f["targs"][0] if f["targs"] else None
    return list_any(E, ctx, l, ety, lambda c, e: eqv(E.deep(ctx, e), x))


# ------------------------------------------------------------------ storage
def find_ns(v):
    if v.tag == "str":
        return v.args[0]
    if v.tag == "list" and v.args[0] and all(x[1] == "e" and x[2].tag == "poly" and is_const(x[2]) for x in v.args[0]):
        return bytes(cval(x[2]) for x in v.args[0]).decode("latin1")
    if v.tag == "ref" and isinstance(v.args[0], T):
        return find_ns(v.args[0])
    if v.tag == "struct":
        for x in v.args[1]:
            r = find_ns(x)
            if r is not None:
                return r
    return None


def ns_of(E, ctx, v):
    while v.tag == "ref":
        w = E.read_ref(ctx, v)
        if w.tag == "str":
            break
        v = w
    n = find_ns(v)
    if n is None:
        raise Unsupported("storage namespace of " + show(v))
    return n


STORE = "STORE"


def store_cells(E, ctx):
    return E.store_cell


def ns_state(E, ctx, ns):
    st = ctx.cells.get(("ns", ns))
    if st is None:
        st = mk("ns", mk("sym", "S:" + ns), ())
        ctx.cells[("ns", ns)] = st
    return st


def norm_key(E, ctx, k):
    k = E.deep(ctx, k)
    if k.tag == "struct" and len(k.args[1]) == 1:
        return norm_key(E, ctx, k.args[1][0])
    if k.tag == "struct":
        return struct("key", *[norm_key(E, ctx, x) for x in k.args[1]])
    if k.tag in ("sym", "app", "proj", "str", "ite") and not is_intv(k):
        return bytes_of(k)
    return k


def is_intv(v):
    return any(x.tag == "poly" for x in leaves(v)) if v.tag == "ite" else v.tag == "poly"


def plain(v):
    """a key piece without internal conditions"""
    if v.tag == "app" and v.args[0] == "lp":
        x = v.args[1][0]
        return x.tag != "list" or all(c is TRUE and plain(y) for c, _, y in x.args[0])
    return v.tag != "ite"


def alts(v):
    if v.tag == "app" and v.args[0] == "lp" and not plain(v):
        return [(g, mk("app", "lp", (x,))) for g, x in key_cases(v.args[1][0])]
    if v.tag != "ite":
        return [(TRUE, v)]
    return [(lift(lambda x, l=l: TRUE if x is l else FALSE, v), l) for l in leaves(v)]


def key_cases(key):
    """the alternatives of a storage key: (condition, key without internal conditions)"""
    if key.tag == "list":
        cs = [(TRUE, ())]
        if all(c is TRUE and plain(v) for c, _, v in key.args[0]):
            return [(TRUE, key)]
        for c, k, v in key.args[0]:
            nx = []
            for g, ps in cs:
                for cl, x in alts(v):
                    h = AND(g, c, cl)
                    if h is not FALSE:
                        nx.append((h, ps + ((TRUE, k, x),)))
                h = AND(g, NOT(c))
                if h is not FALSE:
                    nx.append((h, ps))
            cs = nx
        out = {}
        for g, ps in cs:
            kk = vlist(list(ps))
            out[kk] = OR(out.get(kk, FALSE), g)
        return [(g, kk) for kk, g in out.items()]
    if key.tag == "struct":
        cs = [(TRUE, ())]
        for f in key.args[1]:
            cs = [(AND(g, h), ps + (x,)) for g, ps in cs for h, x in key_cases(f) if AND(g, h) is not FALSE]
        return [(g, mk("struct", key.args[0], ps)) for g, ps in cs]
    if key.tag == "choice":
        return [(AND(key.args[0], g), x) for g, x in key_cases(key.args[1])] + [(AND(NOT(key.args[0]), g), x) for g, x in key_cases(key.args[2])]
    return alts(key)


def refine(E, base, k, v):
    """stored ticks carry the index they are stored under (every write of a tick is checked to keep this)"""
    if base.tag == "sym" and (base.args[0] == "S:ticks" or str(base.args[0]).endswith(".ticks.ns")) and v.tag == "struct" and k.tag == "list" and k.args[0]:
        last = k.args[0][-1][2]
        t = E.p.types[E.p.adt("storage::tick::Tick")]
        ns = [f[0] for f in t["v"][0]["f"]]
        if last.tag == "app" and last.args[0] == "be" and last.args[1][1] == 4 and "index" in ns and len(ns) == len(v.args[1]):
            fs = list(v.args[1])
            fs[ns.index("index")] = last.args[1][0]
            return mk("struct", v.args[0], tuple(fs))
    return v


def ns_select(E, st, key, ty):
    """(present, value)"""
    cs = key_cases(key)
    if len(cs) > 1:
        p = v = None
        for g, kk in cs:
            p1, v1 = ns_select(E, st, kk, ty)
            p, v = (p1, v1) if p is None else (ite(g, p1, p), vite(g, v1, v))
        return p, v
    key = cs[0][1]
    if st.tag == "choice":
        p1, v1 = ns_select(E, st.args[1], key, ty)
        p2, v2 = ns_select(E, st.args[2], key, ty)
        return ite(st.args[0], p1, p2), vite(st.args[0], v1, v2)
    base, writes = st.args

    def sel(k):
        p = atom_var(mk("has", base, k))
        return struct("pv", p, refine(E, base, k, E.expand(ty, mk("app", "sel", (base, k)))))
    flat = []
    flatten(key, flat)
    if any(x.tag == "ite" for x in flat) and key.tag in LEAFISH:
        pv = lift(sel, key)
    else:
        pv = sel(key)
    p, v = pv.args[1]
    for c, k, w in writes:
        e = AND(c, eqv(k, key))
        if e is FALSE:
            continue
        if w is None:
            p = AND(p, NOT(e))
        else:
            p = OR(p, e)
            v = vite(e, w, v)
    return p, v


def ns_write(E, ctx, ns, key, val):
    st = ns_state(E, ctx, ns)
    if st.tag == "choice":
        st = mk("ns", mk("app", "chosen", (st,)), ())
    base, writes = st.args
    # a write to a syntactically equal key supersedes the earlier one
    cs = key_cases(key)
    if len(cs) > 1:
        cs = [(restrict(g, ctx.pc), kk) for g, kk in cs if AND(g, ctx.pc) is not FALSE]
    if len(cs) == 1:
        key = cs[0][1]
        if writes and writes[-1][1] is key and writes[-1][0] is TRUE:
            writes = writes[:-1]
        cs = [(TRUE, key)]
    ctx.cells[("ns", ns)] = mk("ns", base, writes + tuple((g, kk, val) for g, kk in cs))


UNITKEY = struct("key")


def map_types(E, f):
    """value type of Map<K,T> / Item<T> from the instance's generic arguments"""
    ta = [x for x in f["targs"] if isinstance(x, int)]
    return ta


SP = r"cw_storage_plus::(Map|Item)::<.*>::(\w+)$"


@model(r"^cw_storage_plus::(Map|Item|Path|SnapshotMap|IndexedMap|Deque)::<.*>::(\w+)$")
def m_storage(E, ctx, f, a, dty, where, fr):
    m = re.search(r"cw_storage_plus::(\w+)::<.*>::(\w+)$", f["def"])
    kind, op = m.group(1), m.group(2)
    ta = map_types(E, f)
    if kind == "Map":
        ns = ns_of(E, ctx, a[0])
        vty = ta[1]
        if op in ("key",):
            return struct("StoragePath", mk("str", ns), norm_key(E, ctx, a[1]))
        if op in ("range", "range_raw", "keys", "keys_raw", "prefix", "sub_prefix", "is_empty", "clear", "prefix_range", "prefix_range_raw", "no_prefix_raw", "no_prefix"):
            if op in ("prefix", "sub_prefix"):
                return struct("Prefix", mk("str", ns), norm_key(E, ctx, a[1]))
            if op in ("no_prefix", "no_prefix_raw"):
                return struct("Prefix", mk("str", ns), UNITKEY)
            if op == "clear":
                E.events.append(("storage", "clear", ctx.pc, (mk("str", ns),), where))
                ctx.cells[("ns", ns)] = mk("ns", mk("sym", "EMPTY"), ())
                return UNIT
            return It("val", vlist([(TRUE, "s", mk("app", "srange" if "range" in op else "skeys", (mk("str", ns), ns_state(E, ctx, ns), UNITKEY) + tuple(norm_bound(E, E.deep(ctx, x)) for x in a[2:])))]), ZERO)
        key = norm_key(E, ctx, a[2])
        rest = a[3:]
    elif kind == "Item":
        ns = ns_of(E, ctx, a[0])
        vty = ta[0]
        key = UNITKEY
        rest = a[2:]
    elif kind == "Path":
        pth = E.read_ref(ctx, a[0]) if a[0].tag == "ref" else a[0]
        if pth.tag != "struct" or pth.args[0] != "StoragePath":
            return NotImplemented
        ns, key, vty = pth.args[1][0].args[0], pth.args[1][1], ta[0]
        rest = a[2:]
    else:
        return NotImplemented
    E.events.append(("storage", op, ctx.pc, (mk("str", ns), key), where))
    st = ns_state(E, ctx, ns)
    if op in ("load", "may_load", "has", "exists"):
        p, v = ns_select(E, st, key, vty)
        p = restrict(p, ctx.pc) if p.tag == "ite" else p
        v = vrestrict(v, ctx.pc)
        if op == "load":
            return result(p, v, ERR)
        if op == "may_load":
            return ok(option(p, v))
        return p
    if op == "save":
        ns_write(E, ctx, ns, key, E.deep(ctx, rest[0]))
        return ok(UNIT)
    if op == "remove":
        ns_write(E, ctx, ns, key, None)
        return UNIT
    if op == "update":
        p, v = ns_select(E, st, key, vty)
        if kind == "Item":
            # Item::update: load()? then action(value)
            c2 = Ctx2(ctx, p)
            r = E.call_closure(c2, rest[0], [v], None, where, fr)
            absorb(E, ctx, c2, p)
            okp = p
        else:
            r = E.call_closure(ctx, rest[0], [option(p, v)], None, where, fr)
            okp = TRUE
        if r is None:
            return None
        d = {k: (c, fs) for k, c, fs in r.args[1]}
        c, fs = d.get(0, (FALSE, (UNDEF,)))
        c = AND(c, okp)
        if c is not FALSE:
            st2 = ns_state(E, ctx, ns)
            base, w = st2.args
            nv = E.deep(ctx, fs[0])
            ctx.cells[("ns", ns)] = mk("ns", base, w + tuple((AND(c, g), kk, nv) for g, kk in key_cases(key) if AND(c, g) is not FALSE))
        return result(c, fs[0], ERR)
    return NotImplemented


@model(r"^cw_storage_plus::Prefix::<.*>::(range_raw|range|keys|keys_raw)$")
def m_prefix(E, ctx, f, a, dty, where, fr):
    p = E.read_ref(ctx, a[0]) if a[0].tag == "ref" else a[0]
    ns = p.args[1][0].args[0]
    return It("val", vlist([(TRUE, "s", mk("app", "srange" if "range" in f["def"] else "skeys", (p.args[1][0], ns_state(E, ctx, ns), p.args[1][1]) + tuple(norm_bound(E, E.deep(ctx, x)) for x in a[2:])))]), ZERO)


@model(r"^cosmwasm_storage::to_length_prefixed_nested$", r"^cosmwasm_storage::.*to_length_prefixed_nested$")
def m_lpn(E, ctx, f, a, dty, where, fr):
    l = E.deep(ctx, as_list(E, ctx, a[0]))
    if l.tag != "list" or not all(x[0] is TRUE and x[1] == "e" for x in l.args[0]):
        return vlist([(TRUE, "s", mk("app", "lpn", (l,)))])
    return vlist([(TRUE, "s", mk("app", "lp", (bytes_of(x[2]),))) for x in l.args[0]])


@model(r"^cosmwasm_storage::to_length_prefixed$", r"^cosmwasm_storage::.*::to_length_prefixed$")
def m_lp(E, ctx, f, a, dty, where, fr):
    return vlist([(TRUE, "s", mk("app", "lp", (as_list(E, ctx, a[0]),)))])


# ------------------------------------------------------------------ cosmwasm
@model(r"cosmwasm_std::Response::<T>::(add_attribute|add_attributes|add_event|add_events)$")
def m_attr(E, ctx, f, a, dty, where, fr):
    return a[0]


@model(r"cosmwasm_std::attr$")
def m_attr2(E, ctx, f, a, dty, where, fr):
    return mk("app", "attr", ())


@model(r"cosmwasm_std::(to_binary|to_json_binary|to_vec|to_json_vec)$")
def m_tobin(E, ctx, f, a, dty, where, fr):
    v = E.deep(ctx, a[0])
    b = vlist([(TRUE, "s", mk("app", "json", (v,)))])
    t = inner_ty(E, dty)
    n = E.p.types[t].get("n", "") if t is not None else ""
    return ok(struct(n, b) if n.endswith("Binary") else b)


@model(r"cosmwasm_std::(from_binary|from_json|from_slice)$")
def m_frombin(E, ctx, f, a, dty, where, fr):
    v = E.deep(ctx, a[0])
    t = inner_ty(E, dty)
    l = as_list(E, ctx, v)
    if l.tag == "list" and len(l.args[0]) == 1:
        x = l.args[0][0][2]
        if x.tag == "app" and x.args[0] == "json":
            return ok(x.args[1][0])
    return result(atom_var(mk("app", "parses", (l, E.p.tname(t)))), E.expand(t, mk("app", "fromjson", (l, E.p.tname(t)))), ERR)


@model(r"cosmwasm_std::Api::addr_validate$", r"Api>::addr_validate$")
def m_addrv(E, ctx, f, a, dty, where, fr):
    v = E.deep(ctx, a[1])
    c = lift(lambda x: atom_var(mk("app", "validaddr", (x,))), v)
    return result(c, v, ERR)


@model(r"cosmwasm_std::Api::addr_(canonicalize|humanize)$")
def m_addrc(E, ctx, f, a, dty, where, fr):
    v = E.deep(ctx, a[1])
    return ok(v if "humanize" in f["def"] else struct("CanonicalAddr", struct("Binary", bytes_of(wide(v)))))


@model(r"cosmwasm_std::DepsMut::<'a, C>::(as_ref|branch)$", r"cosmwasm_std::OwnedDeps::<.*>::as_(ref|mut)$")
def m_deps(E, ctx, f, a, dty, where, fr):
    return E.read_ref(ctx, a[0])


@model(r"cw2::set_contract_version$")
def m_cw2(E, ctx, f, a, dty, where, fr):
    return ok(UNIT)


@model(r"cosmwasm_std::StdError::\w+$", r"convert::From<.*> for .*(ContractError|StdError)>::from$", r"(ContractError|StdError) as std::convert::From<.*>>::from$")
def m_err(E, ctx, f, a, dty, where, fr):
    return ERR


@model(r"std::mem::(swap|replace|take)$")
def m_mem(E, ctx, f, a, dty, where, fr):
    k = f["def"].split("::")[-1]
    x = E.read_ref(ctx, a[0])
    if k == "swap":
        y = E.read_ref(ctx, a[1])
        E.write_ref(ctx, a[0], y)
        E.write_ref(ctx, a[1], x)
        return UNIT
    if k == "replace":
        E.write_ref(ctx, a[0], a[1])
        return x
    if x.tag == "list":
        E.write_ref(ctx, a[0], vlist([]))
        return x
    return NotImplemented


@model(r"std::ops::(Fn::call|FnMut::call_mut|FnOnce::call_once)$", r"<&A as std::ops::Fn(Once|Mut)?<.*>>::call(_once|_mut)?$", r"<&'a (mut )?F as std::ops::Fn",
       r"<&F as std::ops::Fn|<&mut F as std::ops::Fn", r"boxed::Box<F, A> as std::ops::Fn")
def m_fncall(E, ctx, f, a, dty, where, fr):
    if "blocks" in f and f.get("kind") == "Shim":
        base = a[0]
        while base.tag == "ref":
            base = E.read_ref(ctx, base)
        if not (base.tag == "fn" or (base.tag == "struct" and base.args[0].startswith("closure:"))):
            return NotImplemented
    clo = a[0]
    tup = a[1]
    return E.call_closure(ctx, clo, list(tup.args[1]) if tup.tag == "struct" else [tup], dty, where, fr)


@model(r"Default>::default$")
def m_default(E, ctx, f, a, dty, where, fr):
    if "blocks" in f:
        return NotImplemented
    il = E.p.intlike(dty)
    if il:
        return ZERO
    t = E.p.types[dty]
    if t["k"] == "bool":
        return FALSE
    return NotImplemented


# ------------------------------------------------------------------ maps of the SDK
@model(r"collections::HashMap::<K, V, S, A>::(get|insert|contains_key|remove|get_mut)$", r"collections::HashMap::<K, V(, S)?>::(new|with_capacity)$",
       r"collections::HashMap<K, V, S> as std::default::Default>::default$", r"collections::BTreeMap.*::(get|insert|contains_key|remove|new)$")
def m_hashmap(E, ctx, f, a, dty, where, fr):
    op = f["def"].split("::")[-1]
    if op in ("new", "default", "with_capacity"):
        return struct("HashMap", mk("ns", mk("sym", "EMPTY"), ()))
    m = E.read_ref(ctx, a[0])
    st = m.args[1][0] if m.tag == "struct" else mk("ns", m, ())
    key = norm_key(E, ctx, a[1])
    ta = [x for x in f["targs"] if isinstance(x, int)]
    vty = ta[1]
    p, v = ns_select(E, st, key, vty)
    if st.args[0].tag == "sym" and st.args[0].args[0] == "EMPTY":
        p = OR(*[AND(c, eqv(k, key)) if w is not None else FALSE for c, k, w in st.args[1]])
    if op == "contains_key":
        return p
    if op == "get":
        return option(p, mk("ref", v, ()))
    if op in ("insert", "remove"):
        new = mk("ns", st.args[0], st.args[1] + ((TRUE, key, E.deep(ctx, a[2]) if op == "insert" else None),))
        E.write_ref(ctx, a[0], struct("HashMap", new))
        return option(p, v)
    return NotImplemented


def norm_bound(E, v):
    """bounds on byte-string keys: the typed and the raw form mean the same"""
    if v.tag == "enum" and v.args[0].endswith("Option"):
        return enum(v.args[0], [(k, c, tuple(norm_bound(E, f) for f in fs)) for k, c, fs in v.args[1]])
    if v.tag == "enum" and v.args[0].endswith("Bound"):
        out = []
        for k, c, fs in v.args[1]:
            x = fs[0]
            if k < 2 and x.tag == "struct" and x.args[1] and x.args[1][0].tag == "list":
                k, fs = k + 2, (x.args[1][0],)
            out.append((k, c, fs))
        return enum(v.args[0], out)
    return v


def sum_over(x, e):
    """the sum of e over the elements of x (e mentions the bound position)"""
    def one(b):
        if b is ZERO:
            return ZERO
        neg = b.tag != "ite" and prange(as_poly(b))[0] < 0
        return as_poly(app("sum", x, b, rng=(-(1 << 127) if neg else 0, 1 << 127)))
    return split_free(e, one)


def list_len(x):
    if x.tag == "app" and x.args[0] == "range":
        s, e = x.args[1]
        return vite(LT(s, e), SUB(e, s), ZERO)
    if x.tag == "app" and x.args[0] in ("rev", "map"):
        return list_len(x.args[1][0])
    if positions(x) is not x:
        return list_len(positions(x))
    return as_poly(app("len", x, rng=(0, (1 << 63) - 1)))


@model(r"iter::Iterator::sum$", r"as std::iter::Iterator>::sum$")
def m_sum(E, ctx, f, a, dty, where, fr):
    il = E.p.intlike(dty)
    if il is None:
        return NotImplemented
    it = range_list(a[0]) or a[0]
    l = collect_list(E, ctx, it, where, fr)
    r = ZERO
    for c, k, x in l.args[0]:
        if k == "e":
            v = x if x.tag != "ref" else E.read_ref(ctx, x)
        else:
            b = boundvar(E)
            if x.tag == "app" and x.args[0] == "map":
                x, el = x.args[1]
            elif x.tag == "app" and x.args[0] in ("filter", "filter_map"):
                c0 = x.args[1][1]
                el = x.args[1][2] if x.args[0] == "filter_map" else E.elem(x.args[1][0], b, dty)
                el, x = vite(c0, el, ZERO), x.args[1][0]
            else:
                el = E.elem(x, b, dty)
            v = sum_over(x, el)
        r = vite(c, ADD(r, v), r)
    return r
