"""Meanings of library functions (std leaves and nom's &str input primitives) over the abstract domains.

This file is trusted: it states what the standard library and nom's input traits do.  nom's combinators are not
modelled; their own MIR is interpreted.
"""
from core import *
import interp as _ip
from interp import Outcome, ret, showv

MODELS = {}


def model(*paths):
    def deco(f):
        for p in paths:
            MODELS[p] = f
        return f
    return deco


FALSE_TRUE = (False, True)


# ------------------------------------------------------------------ helpers
def rd(I, st, v):
    """Follow references down to a non-reference value."""
    n = 0
    while isinstance(v, tuple) and v and v[0] in ("ref", "box"):
        v = I.get(st, I.cell_value(st, v[1]), v[2] if v[0] == "ref" else ())
        n += 1
        if n > 20:
            raise Unsupported("reference chain")
    return v


def sval(I, st, v):
    v = rd(I, st, v)
    if isinstance(v, tuple):
        if v[0] == "str":
            return v
        if v[0] == "cow":
            return rd(I, st, v[2])
        if v[0] == "sym":
            ty = I.T[v[2]]
            if ty["k"] in ("ref", "ptr", "param", "alias") or ty["k"] == "adt":
                return ("str", (("sl", v[1], L(0), L(("len", v[1]))),))
        if v[0] in ("ch", "chs"):
            return ("str", (("c", v),))
    raise Unsupported("string expected, got %s" % showv(v))


def panic(st, what, site, **kw):
    d = {"what": what, "fn": site[0], "sp": site[1]}
    d.update(kw)
    return Outcome("panic", st, None, d)


def dest_ty(site):
    return site[2] if len(site) > 2 else None


def fresh(I, st, tag, t):
    st.ctr += 1
    return I.mk((tag, st.ctr), t)


def opt_ty(I, site):
    return dest_ty(site)


def bool_outs(pairs):
    return [ret(s, b) for s, b in pairs]


def mutref(I, v, what):
    """Address of the place behind a mutable reference (reborrows collapsed)."""
    if v[0] == "ref":
        return (v[1], v[2])
    if v[0] == "box":
        return (v[1], ())
    raise Unsupported("mutable reference expected for %s, got %s" % (what, showv(v)))


def place(I, st, v):
    """Address of the innermost non-reference place behind a chain of references."""
    a = mutref(I, v, "place")
    while True:
        x = I.read(st, a)
        if isinstance(x, tuple) and x[0] in ("ref", "box"):
            a = mutref(I, x, "place")
        elif isinstance(x, tuple) and x[0] == "sym" and I.T[x[2]]["k"] in ("ref", "ptr"):
            a = I.deref(st, x)
        else:
            return a


# ------------------------------------------------------------------ string geometry
def const_of(v):
    if all(p[0] == "k" or (p[0] == "c" and p[1][0] == "ch") for p in v[1]):
        return "".join(p[1] if p[0] == "k" else chr(p[1][1]) for p in v[1])
    return None


def scan_pos(st, base, hi, lo, cls):
    """Position after the longest run of cls characters starting at lo."""
    cls = cls.noeof()
    if cls.empty():
        return lo
    if st.lin_eq(lo, hi):
        return hi
    return st.norm(L(("scan", base, hi, st.norm(lo), cls)))


def canon_hi(st, base, lo, hi, cls):
    """The end under which the same scan was done before, when it is equal under the present facts."""
    if hi.const is None:
        lo = st.norm(lo)
        for (b, h, p) in st.chars:
            if b == base and h != hi and p is not None and p.c == 0 and len(p.t) == 1:
                w = p.t[0][0]
                if isinstance(w, tuple) and w[0] == "scan" and w[1] == base and w[4] == cls and w[2] == h and (w[3] == lo or st.lin_eq(w[3], lo)) and st.lin_eq(h, hi):
                    return h
    return hi


def str_scan(I, st, v, cls):
    """[(state, prefix string, rest string)]: longest prefix of cls characters."""
    cls = cls.noeof()
    out = []
    cur = [(st, (), v[1])]
    while cur:
        s, pre, rest = cur.pop()
        if not rest:
            out.append((s, ("str", pre), ("str", ())))
            continue
        p = rest[0]
        if p[0] == "k":
            n = 0
            while n < len(p[1]) and not (CC.chars(p[1][n]) & cls).empty():
                n += 1
            if n == len(p[1]):
                cur.append((s, cat(("str", pre), ("str", (p,)))[1], rest[1:]))
            else:
                out.append((s, cat(("str", pre), kstr(p[1][:n])), ("str", (("k", p[1][n:]),) + rest[1:])))
        elif p[0] == "c":
            for s2, b in I.decide_cls(s, p[1], cls):
                if b:
                    cur.append((s2, pre + (p,), rest[1:]))
                else:
                    out.append((s2, ("str", pre), ("str", rest)))
        elif p[0] == "sl":
            p = ("sl", p[1], p[2], canon_hi(s, p[1], p[2], p[3], cls))
            pos = scan_pos(s, p[1], p[3], p[2], cls)
            head = ("sl", p[1], p[2], pos)
            tail = ("sl", p[1], pos, p[3])
            if len(rest) == 1:
                h = () if s.lin_eq(p[2], pos) else (head,)
                t = () if s.lin_eq(pos, p[3]) else (tail,)
                out.append((s, cat(("str", pre), ("str", h), s), ("str", t)))
            else:
                for s2, e in I.decide_eof(s, p[1], p[3], pos):
                    if e:
                        cur.append((s2, cat(("str", pre), ("str", (p,)), s2)[1], rest[1:]))
                    else:
                        h = () if s2.lin_eq(p[2], pos) else (head,)
                        out.append((s2, cat(("str", pre), ("str", h), s2), ("str", (tail,) + rest[1:])))
        else:
            raise Unsupported("scan of %s" % showv(v))
    return out


def is_boundary(I, st, p, base, lo, hi, depth=0):
    """Is absolute position p a character boundary of base[lo..hi] (lo, hi being boundaries)?"""
    p = st.norm(p)
    if st.lin_eq(p, lo) or st.lin_eq(p, hi):
        return True
    if not p.t and p.c == 0:
        return True
    # syntactic position variables
    if p.c == 0 and len(p.t) == 1 and p.t[0][1] == 1:
        v = p.t[0][0]
        if isinstance(v, tuple) and v[0] in ("scan", "find", "rfind", "after", "rscan", "pos", "cpos", "lpos") and v[1] in (base, None):
            return True
        if isinstance(v, tuple) and v[0] == "after" and v[2] == base:
            return True
        if isinstance(v, tuple) and v[0] == "len":
            return True
        if (base, v) in I.pos_vars:
            return True
    if depth > 12:
        return False
    # step back over one character known to precede p
    for (b, h, q), cc in list(st.chars.items()):
        if b != base or cc.eof or q == p or q is None:
            continue
        w = st.width(b, h, q)
        if st.norm(q + w) == p or st.lin_eq(q + w, p):
            if is_boundary(I, st, q, base, lo, hi, depth + 1):
                return True
    # inside a found needle
    for v, k in p.t:
        if k == 1 and isinstance(v, tuple) and v[0] in ("find", "rfind") and v[1] == base:
            d = st.norm(p - L(v))
            if not d.t and 0 <= d.c <= len(v[4].encode()):
                try:
                    v[4].encode()[:d.c].decode()
                    return True
                except UnicodeDecodeError:
                    pass
        if isinstance(v, tuple) and v[0] == "clen" and v[1] == base and k == 1:
            q = p - L(v)
            if q == v[3] or st.lin_eq(q, v[3]):
                if is_boundary(I, st, q, base, lo, hi, depth + 1):
                    return True
    # known suffix
    for key, val in st.bools.items():
        if val and isinstance(key, tuple) and key and key[0] == "endswith" and key[1] == base and st.lin_eq(key[2], hi):
            d = st.norm(hi - p)
            if not d.t and 0 <= d.c <= len(key[4].encode()):
                try:
                    key[4].encode()[len(key[4].encode()) - d.c:].decode()
                    return True
                except UnicodeDecodeError:
                    pass
    return False


def split_bytes(I, st, v, n):
    """Split a string value at byte offset n: (prefix, suffix, boundary proved?) ; None when the offset cannot be located."""
    n = st.norm(n)
    off = L(0)
    pieces = v[1]
    if st.lin_eq(n, L(0)):
        return EMPTY, v, True
    if not pieces:
        return None
    for i, p in enumerate(pieces):
        ln = st.norm(I.str_len(st, ("str", (p,))))
        d = st.norm(n - off)
        if st.lin_eq(d, ln):
            return ("str", pieces[:i + 1]), ("str", pieces[i + 1:]), True
        last = i == len(pieces) - 1
        inside = last or st.prove(ln - d)
        if inside:
            if p[0] == "k":
                if d.t:
                    return None
                bs = p[1].encode()
                try:
                    a, b = bs[:d.c].decode(), bs[d.c:].decode()
                except UnicodeDecodeError:
                    return None
                return ("str", pieces[:i] + ((("k", a),) if a else ())), ("str", ((("k", b),) if b else ()) + pieces[i + 1:]), True
            if p[0] == "sl":
                pos = st.norm(p[2] + d)
                bd = is_boundary(I, st, pos, p[1], p[2], p[3])
                h = () if st.lin_eq(pos, p[2]) else (("sl", p[1], p[2], pos),)
                t = () if st.lin_eq(pos, p[3]) else (("sl", p[1], pos, p[3]),)
                return ("str", pieces[:i] + h), ("str", t + pieces[i + 1:]), bd
            if p[0] == "x":
                base = ("of", p[1])
                pos = d
                bd = False
                return ("str", pieces[:i] + (("sl", base, L(0), pos),)), ("str", (("sl", base, pos, L(("len", base))),) + pieces[i + 1:]), bd
            return None
        if not st.prove(d - ln):
            return None
        off = off + ln
    return None


def x_to_base(v):
    """A lone opaque piece becomes its own base so that it can be sliced."""
    if len(v[1]) == 1 and v[1][0][0] == "x":
        b = ("of", v[1][0][1])
        return ("str", (("sl", b, L(0), L(("len", ("x", v[1][0][1])))),))
    return v


def substr(I, st, v, a, b, site, what="str index"):
    """Outcomes of &v[a..b]; panics are produced when the bounds are not entailed."""
    outs = []
    ln = I.str_len(st, v)
    conds = []
    if b is None:
        b = ln
    else:
        conds.append((ln - b, "end out of bounds"))
    conds.append((b - a, "start after end"))
    cur = st
    for e, why in conds:
        nxt = None
        for s, okk in I.decide(cur, ("ge0", e)):
            if okk:
                nxt = s
            else:
                outs.append(panic(s, what + ": " + why, site))
        if nxt is None:
            return outs
        cur = nxt
    r = split_bytes(I, cur, v, b)
    if r is None:
        raise Unsupported("slice end %s of %s" % (show(b), showv(v)))
    pre, _, bd1 = r
    r = split_bytes(I, cur, pre, a)
    if r is None:
        raise Unsupported("slice start %s of %s" % (show(a), showv(v)))
    _, mid, bd2 = r
    for s2, okb in boundary_cases(I, cur, v, [(b, bd1), (a, bd2)]):
        if okb:
            outs.append(ret(s2, mid))
        else:
            outs.append(panic(s2, what + ": not a character boundary", site, unproved=True))
    return outs


def range_bounds(I, st, r, ln):
    r = rd(I, st, r)
    if r[0] == "adt":
        p = r[1]
        if p == "std::ops::Range":
            return r[3][0], r[3][1]
        if p == "std::ops::RangeFrom":
            return r[3][0], None
        if p == "std::ops::RangeTo":
            return L(0), r[3][0]
        if p == "std::ops::RangeFull":
            return L(0), None
        if p == "std::ops::RangeInclusive":
            return r[3][0], r[3][1] + L(1)
        if p == "std::ops::RangeToInclusive":
            return L(0), r[3][0] + L(1)
    if r[0] == "tup" and not r[1]:
        return L(0), None
    raise Unsupported("range %s" % showv(r))


# ------------------------------------------------------------------ predicates as character classes
def pred_class(I, st, pv, site, byte=False):
    """The class of characters a pure predicate accepts, found by partitioning over one unconstrained character.

    Returns a CC, or None when the predicate depends on more than the character."""
    pv0 = rd(I, st, pv) if pv[0] in ("ref",) and rd(I, st, pv)[0] not in ("clo",) else pv
    x = pv0
    if isinstance(x, tuple):
        if x[0] == "ch":
            return CC.chars([x[1]])
        if x[0] == "seq" and all(s[0] == "v" and s[1][0] == "ch" for s in x[1]):
            return CC.chars([s[1][1] for s in x[1]])
        if x[0] == "sref":
            cs = []
            q = I.get(st, I.cell_value(st, x[1]), x[2])
            if q[0] == "seq" and all(s[0] == "v" and s[1][0] == "ch" for s in q[1]):
                return CC.chars([s[1][1] for s in q[1]])
            return None
        if x[0] == "chs":
            return None
    return _pred_class(I, st, pv, site, byte)


def _pred_class(I, st, pv, site, byte=False):
    s0 = st.copy()
    I.probe = getattr(I, "probe", 0) + 1
    t = ("probe", I.probe)
    key = (("ct", t), None, None)
    tr = len(s0.trace)
    nb = dict(s0.bools)
    outs = None
    # try by value and by reference
    for byref in (False, True):
        arg = ("chs", t)
        s1 = s0.copy()
        try:
            if byref_needed(I, s1, pv) != byref:
                continue
            arg = ("c8", arg) if byte else arg
            a = ("ref", I.new_cell(s1, arg), ()) if byref else arg
            outs = I.call_value(s1, pv, [a], site)
        except Infeasible:
            return None
        break
    if outs is None:
        return None
    yes, no = NOCHAR, NOCHAR
    for o in outs:
        if o.kind != "ret":
            return None
        for s, b in I.decide(o.st, o.v):
            cc = s.chars.get(key, ANYCHAR)
            if b:
                yes = yes | cc
            else:
                no = no | cc
    if not yes.disjoint(no):
        return None
    return yes


def byref_needed(I, st, pv):
    """Does the function value take its argument by reference?"""
    v = pv
    n = 0
    while isinstance(v, tuple) and v[0] == "ref" and n < 8:
        v = I.get(st, I.cell_value(st, v[1]), v[2])
        n += 1
    if v[0] == "clo":
        b = I.bodies[v[2]]
        if b["argc"] >= 2 and len(b["locals"]) > 2:
            return I.T[b["locals"][2]]["k"] == "ref"
    if v[0] == "fn":
        i = v[1].get("id")
        if i is not None:
            return I.T[I.bodies[i]["locals"][1]]["k"] == "ref"
        if v[1].get("path", "").startswith("core::char::methods::") or v[1].get("path", "").startswith("std::char::"):
            return "is_ascii" in v[1]["path"]
    return False


# ------------------------------------------------------------------ nom input primitives on &str
@model("<&'a str as nom::Compare<&'b str>>::compare_no_case")
def m_compare_nc(I, st, f, a, site):
    v, c = sval(I, st, a[0]), const_of(sval(I, st, a[1]))
    if c is None or not c.isascii() or "k" in c.lower():
        # the Kelvin sign is a k in another width
        raise Unsupported("case-insensitive comparison with this tag")
    return [ret(s, adt("nom::CompareResult", 0 if b else 2)) for s, b in I.starts_with(st, v, [CC.chars(x.lower() + x.upper()) for x in c])]


@model("<&'a str as nom::Compare<&'b str>>::compare")
def m_compare(I, st, f, a, site):
    v, t = sval(I, st, a[0]), sval(I, st, a[1])
    c = const_of(t)
    if c is None:
        raise Unsupported("compare with non-constant tag")
    return [ret(s, adt("nom::CompareResult", 0 if b else 2)) for s, b in I.starts_with(st, v, c)]


@model("<&'a str as nom::FindSubstring<&'b str>>::find_substring")
def m_find_substring(I, st, f, a, site):
    return m_find(I, st, f, [a[0], a[1]], site)


@model("<&'a str as nom::InputTake>::take_split")
def m_take_split(I, st, f, a, site):
    v = sval(I, st, a[0])
    outs = []
    for o in split_outs(I, st, v, a[1], site, "take_split"):
        if o.kind == "ret":
            p, q = o.v
            outs.append(ret(o.st, ("tup", (q, p))))
        else:
            outs.append(o)
    return outs


@model("<&'a str as nom::InputTake>::take")
def m_take(I, st, f, a, site):
    v = sval(I, st, a[0])
    return [ret(o.st, o.v[0]) if o.kind == "ret" else o for o in split_outs(I, st, v, a[1], site, "take")]


def split_outs(I, st, v, n, site, what):
    outs = []
    ln = I.str_len(st, v)
    for s, okk in I.decide(st, ("ge0", ln - n)):
        if not okk:
            outs.append(panic(s, what + ": out of bounds", site))
            continue
        r = split_bytes(I, s, v, n)
        if r is None:
            raise Unsupported("split %s at %s" % (showv(v), show(n)))
        p, q, bd = r
        for s2, b in boundary_cases(I, s, v, [(n, bd)]):
            if b:
                outs.append(ret(s2, (p, q)))
            else:
                outs.append(panic(s2, what + ": not a character boundary", site, unproved=True))
    return outs


def boundary_cases(I, st, v, offs):
    """[(state, bool)]: partition by whether all byte offsets of v are character boundaries."""
    cur, out = [st], []
    for n, known in offs:
        if known:
            continue
        nxt = []
        for s in cur:
            for s2, b in I.decide(s, ("b", ("bound", I.simplify_str(s, v), s.norm(n)))):
                if b:
                    nxt.append(s2)
                else:
                    out.append((s2, False))
        cur = nxt
    return out + [(s, True) for s in cur]


@model("core::str::<impl str>::split_at")
def m_split_at(I, st, f, a, site):
    v = sval(I, st, a[0])
    return [ret(o.st, ("tup", o.v)) if o.kind == "ret" else o for o in split_outs(I, st, v, a[1], site, "split_at")]


@model("<&'a str as nom::Slice<std::ops::Range<usize>>>::slice", "<&'a str as nom::Slice<std::ops::RangeFrom<usize>>>::slice",
       "<&'a str as nom::Slice<std::ops::RangeTo<usize>>>::slice", "<&'a str as nom::Slice<std::ops::RangeFull>>::slice",
       "core::str::traits::<impl std::ops::Index<I> for str>::index", "std::string::<impl std::ops::Index<I> for std::string::String>::index",
       "<std::string::String as std::ops::Index<I>>::index")
def m_str_index(I, st, f, a, site):
    v = sval(I, st, a[0])
    lo, hi = range_bounds(I, st, a[1], None)
    return substr(I, st, v, lo, hi, site)


@model("core::str::<impl str>::get")
def m_str_get(I, st, f, a, site):
    v = sval(I, st, a[0])
    lo, hi = range_bounds(I, st, a[1], None)
    outs = []
    for o in substr(I, st, v, lo, hi, site):
        if o.kind == "ret":
            outs.append(ret(o.st, some(o.v)))
        elif not o.info.get("unproved"):
            outs.append(ret(o.st, NONE))
        else:
            outs.append(ret(o.st, NONE))
    return outs


@model("<&'a str as nom::InputLength>::input_len", "core::str::<impl str>::len", "std::string::String::len")
def m_str_len(I, st, f, a, site):
    return [ret(st, I.str_len(st, sval(I, st, a[0])))]


@model("core::str::<impl str>::is_empty", "std::string::String::is_empty")
def m_str_is_empty(I, st, f, a, site):
    return bool_outs(I.decide_empty(st, sval(I, st, a[0])))


@model("<&'a str as nom::InputTakeAtPosition>::split_at_position_complete")
def m_sapc(I, st, f, a, site):
    v = sval(I, st, a[0])
    cc = pred_class(I, st, a[1], site)
    if cc is None:
        raise Unsupported("stateful character predicate")
    return [ret(s, ok(("tup", (rest, pre)))) for s, pre, rest in str_scan(I, st, v, cc.compl())]


@model("<&'a str as nom::InputTakeAtPosition>::split_at_position1_complete")
def m_sap1c(I, st, f, a, site):
    v = sval(I, st, a[0])
    cc = pred_class(I, st, a[1], site)
    if cc is None:
        raise Unsupported("stateful character predicate")
    outs = []
    for s, b, _ in I.first_is(st, v, cc.compl()):
        if not b:
            outs.append(ret(s, err(adt("nom::Err", 1, ("perr", "kind", (v, a[2]))))))
        else:
            outs += [ret(s2, ok(("tup", (rest, pre)))) for s2, pre, rest in str_scan(I, s, v, cc.compl())]
    return outs


@model("<&'a str as nom::FindToken<char>>::find_token", "core::str::<impl str>::contains")
def m_find_token(I, st, f, a, site):
    v = sval(I, st, a[0])
    pat = rd_pat(I, st, a[1])
    if pat[0] in ("ch", "chs"):
        c = const_of(v)
        if c is not None:
            return bool_outs(I.decide_cls(st, pat, CC.chars(c)))
    outs = []
    for o in m_find(I, st, f, a, site):
        outs.append(ret(o.st, o.v[2] == 1) if o.kind == "ret" else o)
    return outs


@model("<&'a str as nom::InputIter>::iter_elements", "core::str::<impl str>::chars")
def m_chars(I, st, f, a, site):
    return [ret(st, ("it", "chars", sval(I, st, a[0])))]


@model("core::str::<impl str>::bytes")
def m_bytes(I, st, f, a, site):
    return [ret(st, ("it", "bytes", sval(I, st, a[0])))]


@model("core::str::<impl str>::char_indices", "<&'a str as nom::InputIter>::iter_indices")
def m_char_indices(I, st, f, a, site):
    v = sval(I, st, a[0])
    return [ret(st, ("it", "char_indices", v, I.str_len(st, v)))]


@model("core::str::<impl str>::lines")
def m_lines(I, st, f, a, site):
    return [ret(st, ("it", "lines", sval(I, st, a[0])))]


@model("core::str::<impl str>::split_ascii_whitespace", "core::str::<impl str>::split_whitespace")
def m_splitws(I, st, f, a, site):
    cls = CC.chars(" \t\n\x0c\r") if "ascii" in f.get("path", "") else CC.pred("whitespace")
    return [ret(st, ("it", "splitcls", sval(I, st, a[0]), cls))]


@model("<str as nom::Offset>::offset", "<&'a str as nom::Offset>::offset")
def m_offset(I, st, f, a, site):
    x, y = sval(I, st, a[0]), sval(I, st, a[1])
    return [ret(st, offset_of(I, st, x, y))]


def offset_of(I, st, x, y):
    if not x[1]:
        return L(0)
    p = x[1][0]
    if y[1] and y[1][0][0] == "sl" and p[0] == "sl" and y[1][0][1] == p[1]:
        return st.norm(y[1][0][2] - p[2])
    if not y[1] and p[0] == "sl":
        # an empty suffix: by construction of str_scan/split the end of the slice
        return st.norm(p[3] - p[2])
    raise Unsupported("offset between %s and %s" % (showv(x), showv(y)))


# ------------------------------------------------------------------ str
def rd_pat(I, st, p):
    n = 0
    while isinstance(p, tuple) and p[0] == "ref" and n < 8:
        q = I.get(st, I.cell_value(st, p[1]), p[2])
        if isinstance(q, tuple) and q[0] == "clo":
            return p
        p = q
        n += 1
    if isinstance(p, tuple) and p[0] == "cow":
        p = p[2]
    return p


def find_cls(I, st, v, cc):
    """[(state, Option<usize>)] first byte offset of a character in cc."""
    outs = []
    for s, pre, rest in str_scan(I, st, v, cc.compl()):
        for s2, e in I.decide_empty(s, rest):
            if e:
                outs.append((s2, NONE))
            else:
                outs.append((s2, some(I.str_len(s2, pre))))
    return outs


@model("core::str::<impl str>::find")
def m_find(I, st, f, a, site):
    v = sval(I, st, a[0])
    pat = rd_pat(I, st, a[1])
    if pat[0] == "str":
        c = const_of(pat)
        if c is not None:
            if len(c) == 0:
                return [ret(st, some(L(0)))]
            if len(c) == 1:
                return [ret(s, r) for s, r in find_cls(I, st, v, CC.chars(c))]
            k = const_of(v)
            if k is not None:
                n = k.encode().find(c.encode())
                return [ret(st, NONE if n < 0 else some(L(n)))]
            if len(v[1]) == 0:
                return [ret(st, NONE)]
            if len(v[1]) == 1 and v[1][0][0] == "sl":
                _, base, lo, hi = v[1][0]
                return [ret(s, NONE if p is None else some(s.norm(p - lo))) for s, p in find_sub(I, st, base, lo, hi, c)]
        if len(v[1]) == 1 and v[1][0][0] == "sl":
            # a pattern known only as a term: whether and where it occurs are terms
            _, base, lo, hi = v[1][0]
            lo, hi, n = st.norm(lo), st.norm(hi), I.simplify_str(st, pat)
            outs = []
            key = ckey(I, st, ("hassfind", base, hi, lo, n))
            for s, b in I.decide(st, ("b", key)):
                if not b:
                    outs.append(ret(s, NONE))
                    continue
                p = L(("sfind",) + key[1:])
                try:
                    s.assume_ge0(p - lo)
                    s.assume_ge0(hi - p - I.str_len(s, pat))
                except Infeasible:
                    continue
                outs.append(ret(s, some(s.norm(p - lo))))
            return outs
        raise Unsupported("find %s in %s" % (showv(pat), showv(v)))
    cc = pred_class(I, st, pat, site)
    if cc is None:
        raise Unsupported("find with stateful pattern")
    return [ret(s, r) for s, r in find_cls(I, st, v, cc)]


def ckey(I, st, key):
    """The name under which the same question was answered before (equal positions under the present facts)."""
    if key in st.bools:
        return key
    for k in st.bools:
        if isinstance(k, tuple) and len(k) == len(key) and k[0] == key[0] and k[1] == key[1] and \
                all(x == y or (isinstance(x, Lin) and isinstance(y, Lin) and st.lin_eq(x, y)) for x, y in zip(k[2:], key[2:])):
            return k
    return key


def find_sub(I, st, base, lo, hi, c):
    """[(state, absolute position or None)] of the first occurrence of the constant c in base[lo..hi]."""
    lo = st.norm(lo)
    # advance over characters known not to start an occurrence
    for _ in range(6):
        if st.lin_eq(lo, hi):
            return [(st, None)]
        cc = st.charat(base, hi, lo)
        if not cc.eof and cc.disjoint(CC.chars(c[0])):
            lo = st.norm(lo + st.width(base, hi, lo))
            continue
        if cc == EOF:
            return [(st, None)]
        break
    key = ckey(I, st, ("hasfind", base, hi, lo, c))
    t = ("find",) + key[1:]
    r = st.bools.get(key)
    if r is not None:
        return [(st, L(t) if r else None)]
    nb = L(len(c.encode()))
    if st.prove(lo + nb - L(1) - hi):
        return [(st, None)]
    # what other searches of the same text have found
    there = False
    for k, b in st.bools.items():
        if not (isinstance(k, tuple) and len(k) == 5 and k[0] == "hasfind" and k[1] == base and k[4] == c):
            continue
        if not b:
            if st.prove(lo - k[3]) and st.prove(k[2] - hi):
                return [(st, None)]
            continue
        F = L(("find",) + k[1:])
        if not st.prove(F - lo):
            continue
        if st.prove(hi - F - nb):
            # the first one from k[3] on is the first one from any later start that is not beyond it
            if st.prove(lo - k[3]):
                return [(st, st.norm(F))]
            there = True
        elif st.prove(lo - k[3]) and st.prove(F + nb - hi - L(1)):
            return [(st, None)]
    # known to start here?
    pos, hit = lo, True
    for ch in c:
        cc = st.charat(base, hi, pos)
        if cc.eof or not cc.subset(CC.chars(ch)):
            hit = False
            break
        pos = st.norm(pos + L(len(ch.encode())))
    if hit:
        return [(st, lo)]
    out = []
    for b in (True,) if there else (True, False):
        s = st.copy()
        s.bools[key] = b
        try:
            if b:
                s.assume_ge0(hi - lo - L(len(c.encode())))
                out.append((s, L(t)))
            else:
                out.append((s, None))
        except Infeasible:
            continue
    return out


@model("core::str::<impl str>::rfind")
def m_rfind(I, st, f, a, site):
    v = sval(I, st, a[0])
    pat = rd_pat(I, st, a[1])
    c = const_of(pat) if pat[0] == "str" else (chr(pat[1]) if pat[0] == "ch" else None)
    if c is None:
        cc = pred_class(I, st, pat, site)
        sg = cc.single() if cc is not None else None
        if sg is None:
            raise Unsupported("rfind pattern")
        c = chr(sg)
    k = const_of(v)
    if k is not None:
        n = k.encode().rfind(c.encode())
        return [ret(st, NONE if n < 0 else some(L(n)))]
    if len(v[1]) != 1 or v[1][0][0] != "sl":
        raise Unsupported("rfind in %s" % showv(v))
    _, base, lo, hi = v[1][0]
    key = ckey(I, st, ("hasrfind", base, st.norm(hi), st.norm(lo), c))
    t = ("rfind",) + key[1:]
    outs = []
    if len(c) == 1 and key not in st.bools:
        # the last one exists when the first one does
        cases = []
        for s, r in find_cls(I, st, v, CC.chars(c)):
            s = s.copy()
            s.bools[key] = r[2] == 1
            cases.append((s, r[2] == 1))
    else:
        cases = I.decide(st, ("b", key))
    for s, b in cases:
        if b:
            try:
                s.assume_ge0(hi - lo - L(len(c.encode())))
                s.refine(base, hi, L(t), CC.chars(c[0]))
            except Infeasible:
                continue
            outs.append(ret(s, some(s.norm(L(t) - lo))))
        else:
            outs.append(ret(s, NONE))
    return outs


@model("core::str::<impl str>::starts_with")
def m_starts_with(I, st, f, a, site):
    v = sval(I, st, a[0])
    pat = rd_pat(I, st, a[1])
    if pat[0] == "str":
        c = const_of(pat)
        if c is not None:
            return bool_outs(I.starts_with(st, v, c))
        return bool_outs(I.decide(st, ("b", ("startswith", v, pat))))
    cc = pred_class(I, st, pat, site)
    if cc is None:
        return bool_outs(I.decide(st, ("b", ("startswith", v, pat))))
    return [ret(s, b) for s, b, _ in I.first_is(st, v, cc)]


@model("core::str::<impl str>::ends_with")
def m_ends_with(I, st, f, a, site):
    v = sval(I, st, a[0])
    pat = rd_pat(I, st, a[1])
    c = const_of(pat) if pat[0] == "str" else (chr(pat[1]) if pat[0] == "ch" else None)
    k = const_of(v)
    if c is not None and k is not None:
        return [ret(st, k.endswith(c))]
    if c == "":
        return [ret(st, True)]
    if c is not None and len(v[1]) == 0:
        return [ret(st, False)]
    if c is not None and v[1][-1][0] == "sl" and len(v[1]) == 1:
        _, base, lo, hi = v[1][0]
        key = ckey(I, st, ("endswith", base, hi, lo, c))
        outs = []
        for s, b in I.decide(st, ("b", key)):
            if b:
                try:
                    s.assume_ge0(hi - lo - L(len(c.encode())))
                except Infeasible:
                    continue
            outs.append(ret(s, b))
        return outs
    return bool_outs(I.decide(st, ("b", ("endswith", v, pat if pat[0] != "clo" else showv(pat)))))


@model("core::str::<impl str>::strip_prefix")
def m_strip_prefix(I, st, f, a, site):
    v = sval(I, st, a[0])
    outs = []
    for o in m_starts_with(I, st, f, a, site):
        if not o.v:
            outs.append(ret(o.st, NONE))
            continue
        pat = rd_pat(I, o.st, a[1])
        c = const_of(pat) if pat[0] == "str" else None
        if c is not None:
            n = len(c.encode())
        else:
            rest = I.str_first(o.st, v)
            for s, ch, r in rest:
                outs.append(ret(s, some(r)))
            continue
        r = split_bytes(I, o.st, v, L(n))
        outs.append(ret(o.st, some(r[1])))
    return outs


@model("core::str::<impl str>::strip_suffix")
def m_strip_suffix(I, st, f, a, site):
    v = sval(I, st, a[0])
    outs = []
    for o in m_ends_with(I, st, f, a, site):
        if not o.v:
            outs.append(ret(o.st, NONE))
            continue
        pat = rd_pat(I, o.st, a[1])
        c = const_of(pat) if pat[0] == "str" else (chr(pat[1]) if pat[0] == "ch" else None)
        if c is None:
            raise Unsupported("strip_suffix pattern")
        r = split_bytes(I, o.st, v, I.str_len(o.st, v) - L(len(c.encode())))
        outs.append(ret(o.st, some(r[0])))
    return outs


def trim_outs(I, st, v, cc, front, back):
    res = []
    for s, pre, rest in (str_scan(I, st, v, cc) if front else [(st, EMPTY, v)]):
        if not back:
            res.append((s, rest))
            continue
        res += trim_end(I, s, rest, cc)
    return res


def trim_end(I, st, v, cc):
    if not v[1]:
        return [(st, v)]
    p = v[1][-1]
    front = ("str", v[1][:-1])
    if p[0] == "k":
        k = p[1]
        while k and not (CC.chars(k[-1]) & cc).empty():
            k = k[:-1]
        return [(st, ("str", front[1] + (("k", k),)))] if k else trim_end(I, st, front, cc)
    if p[0] == "sl":
        _, base, lo, hi = p
        # idempotent on an already trimmed end
        end = L(("rscan", base, lo, hi, cc))
        if hi.c == 0 and len(hi.t) == 1 and hi.t[0][1] == 1 and isinstance(hi.t[0][0], tuple) and hi.t[0][0][0] == "rscan" and hi.t[0][0][4] == cc and hi.t[0][0][1] == base:
            end = hi
        if st.lin_eq(lo, hi):
            return trim_end(I, st, front, cc)
        mine = ("str", (("sl", base, lo, end),))
        if not front[1]:
            return [(st, mine)]
        out = []
        for s, e in I.decide_empty(st, mine):
            out += trim_end(I, s, front, cc) if e else [(s, ("str", front[1] + mine[1]))]
        return out
    raise Unsupported("trim end of %s" % showv(v))


def trim_str(I, st, f, v, pat, n, name, site):
    """Repeated removal of a constant string of n bytes from one end: the first two times, the rest as one term."""
    outs = []
    cur = [(st, v)]
    for k in range(2):
        nxt = []
        for s, x in cur:
            for o in (m_starts_with if "start" in name else m_ends_with)(I, s, f, [x, pat], site):
                if o.kind != "ret" or not o.v:
                    outs.append(ret(o.st, x) if o.kind == "ret" else o)
                    continue
                r = split_bytes(I, o.st, x, L(n) if "start" in name else I.str_len(o.st, x) - L(n))
                nxt.append((o.st, r[1] if "start" in name else r[0]))
        cur = nxt
    return outs + [ret(s, ("str", (("x", ("trim_start_str" if "start" in name else "trim_end_str", x, pat)),))) for s, x in cur]


@model("core::str::<impl str>::trim_matches", "core::str::<impl str>::trim_start_matches", "core::str::<impl str>::trim_end_matches",
       "core::str::<impl str>::trim", "core::str::<impl str>::trim_start", "core::str::<impl str>::trim_end")
def m_trim(I, st, f, a, site):
    v = sval(I, st, a[0])
    name = f["path"].rsplit("::", 1)[1]
    if "matches" in name:
        pat = rd_pat(I, st, a[1])
        cc = None
        if pat[0] == "str":
            c = const_of(pat)
            if c is not None and len(c) == 1:
                cc = CC.chars(c)
            elif c and name != "trim_matches":
                return trim_str(I, st, f, v, pat, len(c.encode()), name, site)
        else:
            cc = pred_class(I, st, pat, site)
        if cc is None:
            return [ret(st, ("str", (("x", (name, v, showv(pat))),)))]
    else:
        cc = CC.pred("whitespace")
    return [ret(s, r) for s, r in trim_outs(I, st, v, cc, "end" not in name, "start" not in name)]


@model("core::str::<impl str>::parse")
def m_parse(I, st, f, a, site):
    v = I.simplify_str(st, sval(I, st, a[0]))
    t = f["args"][-1] if f.get("args") else None
    ty = I.T[t]
    if ty["k"] == "adt" and ty["path"].startswith("sgmlish"):
        b = I.find_impl("std::str::FromStr", "from_str", ty["path"])
        if b is not None:
            return I.run_body(st, b, [v])
    tn = ty["s"]
    return [ret(st, I.mk(("parse", tn, v), dest_ty(site)))]


@model("core::num::<impl u32>::from_str_radix", "core::num::<impl u8>::from_str_radix", "core::num::<impl u16>::from_str_radix", "core::num::<impl u64>::from_str_radix")
def m_radix(I, st, f, a, site):
    v = I.simplify_str(st, sval(I, st, a[0]))
    tn = f["path"].split("impl ")[1].split(">")[0]
    if a[1].const == 10:
        return [ret(st, I.mk(("parse", tn, v), dest_ty(site)))]
    return [ret(st, I.mk(("radix", tn, v, a[1]), dest_ty(site)))]


@model("std::char::from_u32", "core::char::from_u32", "std::char::methods::<impl char>::from_u32", "core::char::methods::<impl char>::from_u32")
def m_from_u32(I, st, f, a, site):
    return [ret(st, I.mk(("from_u32", a[0]), dest_ty(site)))]


@model("std::str::<impl str>::to_lowercase", "std::str::<impl str>::to_uppercase", "std::str::<impl str>::to_ascii_lowercase", "std::str::<impl str>::to_ascii_uppercase",
       "core::str::<impl str>::to_ascii_lowercase", "core::str::<impl str>::to_ascii_uppercase", "alloc::str::<impl str>::to_lowercase", "alloc::str::<impl str>::to_uppercase",
       "alloc::str::<impl str>::to_ascii_lowercase", "alloc::str::<impl str>::to_ascii_uppercase")
def m_case(I, st, f, a, site):
    v = I.simplify_str(st, sval(I, st, a[0]))
    name = f["path"].rsplit("::", 1)[1][3:]
    c = const_of(v)
    if c is not None and c.isascii():
        return [ret(st, kstr(c.lower() if "lower" in name else c.upper()))]
    return [ret(st, ("str", (("x", (name, v)),)))]


@model("core::str::<impl str>::eq_ignore_ascii_case")
def m_eqic(I, st, f, a, site):
    x, y = I.simplify_str(st, sval(I, st, a[0])), I.simplify_str(st, sval(I, st, a[1]))
    cx, cy = const_of(x), const_of(y)
    low = lambda s: "".join(c.lower() if c.isascii() else c for c in s)
    if cx is not None and cy is not None:
        return [ret(st, low(cx) == low(cy))]
    if cx is not None:
        x, y, cx, cy = y, x, cy, cx
    both = ("streq",) + tuple(sorted((x, y), key=repr))
    if x == y or st.bools.get(both):
        return [ret(st, True)]
    key = ("eqic", x, low(cy)) if cy is not None else ("eqic",) + both[1:]
    outs = []
    for s, b in I.decide(st, ("b", key)):
        if b:
            d = I.str_len(s, x) - I.str_len(s, y)
            try:
                s.assume_ge0(d)
                s.assume_ge0(-d)
            except Infeasible:
                continue
        outs.append(ret(s, b))
    return outs


@model("core::str::<impl str>::as_bytes", "core::str::<impl str>::as_ptr", "<&'a str as nom::AsBytes>::as_bytes")
def m_as_bytes(I, st, f, a, site):
    return [ret(st, ("bytes", sval(I, st, a[0])) if "ptr" not in f["path"] else ("sptr", sval(I, st, a[0])))]


@model("core::str::<impl str>::is_char_boundary")
def m_icb(I, st, f, a, site):
    v = sval(I, st, a[0])
    r = split_bytes(I, st, v, a[1])
    if r is not None and r[2] and st.prove(I.str_len(st, v) - a[1]):
        return [ret(st, True)]
    return bool_outs(I.decide(st, ("b", ("icb", v, a[1]))))


@model("core::str::<impl str>::repeat", "core::str::<impl str>::replace", "std::str::<impl str>::replace", "std::str::<impl str>::repeat", "alloc::str::<impl str>::replace")
def m_strterm(I, st, f, a, site):
    return [ret(st, ("str", (("x", (f["path"].rsplit("::", 1)[1],) + tuple(sval(I, st, x) if not isinstance(x, Lin) else x for x in a)),)))]


def str_eq(I, st, f, a, site):
    ne = f.get("name") == "ne"
    return [ret(s, b != ne) for s, b in I.decide_streq(st, sval(I, st, a[0]), sval(I, st, a[1]))]


for _p in ("core::str::traits::<impl std::cmp::PartialEq for str>::eq", "core::str::traits::<impl std::cmp::PartialEq for str>::ne",
           "<std::string::String as std::cmp::PartialEq>::eq",
           "<std::borrow::Cow<'a, B> as std::cmp::PartialEq<std::borrow::Cow<'b, C>>>::eq",
           "std::string::<impl std::cmp::PartialEq<&str> for std::borrow::Cow<'_, str>>::eq",
           "std::string::<impl std::cmp::PartialEq<str> for std::borrow::Cow<'_, str>>::eq",
           "std::string::<impl std::cmp::PartialEq<std::borrow::Cow<'_, str>> for str>::eq",
           "std::string::<impl std::cmp::PartialEq<std::borrow::Cow<'_, str>> for &str>::eq",
           "std::string::<impl std::cmp::PartialEq<str> for std::string::String>::eq",
           "std::string::<impl std::cmp::PartialEq<&str> for std::string::String>::eq",
           "std::string::<impl std::cmp::PartialEq<std::string::String> for str>::eq",
           "std::string::<impl std::cmp::PartialEq<std::string::String> for &str>::eq",
           "std::string::<impl std::cmp::PartialEq<std::string::String> for std::borrow::Cow<'_, str>>::eq",
           "std::string::<impl std::cmp::PartialEq<std::borrow::Cow<'_, str>> for std::string::String>::eq"):
    MODELS[_p] = str_eq
    MODELS[_p[:-2] + "ne"] = str_eq


@model("std::rc::RcEqIdent::eq", "std::rc::RcEqIdent::ne", "std::sync::ArcEqIdent::eq", "std::sync::ArcEqIdent::ne")
def m_rc_eq(I, st, f, a, site):
    """Shared texts compare by what they say (identity is only a shortcut for equality)."""
    x, y = rd(I, st, a[0]), rd(I, st, a[1])
    if x[0] in ("str", "cow") or y[0] in ("str", "cow"):
        return [ret(s, b != f["path"].endswith("ne")) for s, b in I.decide_streq(st, sval(I, st, x), sval(I, st, y))]
    return None


# ------------------------------------------------------------------ String / Cow / Box<str> conversions: same text
def same_str(I, st, f, a, site):
    return [ret(st, sval(I, st, a[0]))]


for _p in ("std::str::<impl std::borrow::ToOwned for str>::to_owned", "<std::string::String as std::clone::Clone>::clone",
           "std::str::<impl std::borrow::Borrow<str> for std::string::String>::borrow", "<std::string::String as std::ops::Deref>::deref",
           "<std::string::String as std::convert::From<&str>>::from", "<std::string::String as std::convert::From<&mut str>>::from",
           "<std::string::String as std::convert::From<std::boxed::Box<str>>>::from", "<std::string::String as std::convert::From<std::borrow::Cow<'a, str>>>::from",
           "<std::boxed::Box<str> as std::convert::From<&str>>::from", "<std::boxed::Box<str> as std::convert::From<std::string::String>>::from",
           "<std::rc::Rc<str> as std::convert::From<&str>>::from", "<std::rc::Rc<str> as std::convert::From<std::string::String>>::from",
           "<str as std::convert::AsRef<str>>::as_ref", "<std::string::String as std::convert::AsRef<str>>::as_ref",
           "std::string::String::as_str", "std::string::String::into_boxed_str", "std::str::<impl str>::into_string", "std::string::String::as_mut_str",
           "<std::borrow::Cow<'_, T> as std::convert::AsRef<T>>::as_ref", "core::str::<impl str>::as_str",
           "<std::string::String as std::convert::From<char>>::from", "std::string::String::from_utf8_lossy"):
    MODELS[_p] = same_str


@model("<std::borrow::Cow<'_, B> as std::ops::Deref>::deref", "std::borrow::Cow::<'_, B>::into_owned", "std::borrow::Cow::<'_, B>::as_ref")
def m_cow_deref(I, st, f, a, site):
    v = rd(I, st, a[0])
    if v[0] == "cow":
        return [ret(st, v[2])]
    return None


@model("<std::borrow::Cow<'_, B> as std::clone::Clone>::clone")
def m_cow_clone(I, st, f, a, site):
    return [ret(st, rd(I, st, a[0]))]


@model("<std::borrow::Cow<'_, B> as std::default::Default>::default")
def m_cow_default(I, st, f, a, site):
    return [ret(st, ("cow", "O", EMPTY))]


@model("std::borrow::Cow::<'_, B>::to_mut")
def m_to_mut(I, st, f, a, site):
    ad = place(I, st, a[0])
    v = I.read(st, ad)
    if v[0] != "cow":
        raise Unsupported("to_mut %s" % showv(v))
    I.write(st, ad, ("cow", "O", v[2]))
    return [ret(st, ("ref", ad[0], ad[1] + ("cow",)))]


@model("std::string::<impl std::convert::From<&'a str> for std::borrow::Cow<'a, str>>::from")
def m_cow_b(I, st, f, a, site):
    return [ret(st, ("cow", "B", sval(I, st, a[0])))]


@model("std::string::<impl std::convert::From<std::string::String> for std::borrow::Cow<'a, str>>::from")
def m_cow_o(I, st, f, a, site):
    return [ret(st, ("cow", "O", sval(I, st, a[0])))]


@model("std::string::<impl std::convert::From<&'a std::string::String> for std::borrow::Cow<'a, str>>::from")
def m_cow_bs(I, st, f, a, site):
    return [ret(st, ("cow", "B", sval(I, st, a[0])))]


@model("std::string::String::new", "std::string::String::with_capacity", "core::str::<impl std::default::Default for &str>::default",
       "<std::string::String as std::default::Default>::default")
def m_string_new(I, st, f, a, site):
    return [ret(st, EMPTY)]


def str_place(I, st, v):
    ad = place(I, st, v)
    x = I.read(st, ad)
    return ad, x


@model("std::string::String::push")
def m_push(I, st, f, a, site):
    ad, x = str_place(I, st, a[0])
    I.write(st, ad, cat(x, ("str", (("c", a[1]),)) if a[1][0] != "ch" else kstr(chr(a[1][1])), st))
    return [ret(st, UNIT)]


@model("std::string::String::push_str", "<std::string::String as std::ops::AddAssign<&str>>::add_assign")
def m_push_str(I, st, f, a, site):
    ad, x = str_place(I, st, a[0])
    I.write(st, ad, cat(x, sval(I, st, a[1]), st))
    return [ret(st, UNIT)]


@model("<std::borrow::Cow<'a, str> as std::ops::AddAssign<&'a str>>::add_assign", "<std::borrow::Cow<'a, str> as std::ops::AddAssign<std::borrow::Cow<'a, str>>>::add_assign")
def m_cow_add(I, st, f, a, site):
    ad, x = str_place(I, st, a[0])
    I.write(st, ad, ("cow", "O" if x[1] == "O" else "?", cat(x[2], sval(I, st, a[1]), st), ("cowadd", I.uid.__next__())))
    return [ret(st, UNIT)]


@model("<std::string::String as std::ops::Add<&str>>::add")
def m_add_str(I, st, f, a, site):
    return [ret(st, cat(sval(I, st, a[0]), sval(I, st, a[1]), st))]


@model("std::string::String::clear")
def m_clear(I, st, f, a, site):
    ad, x = str_place(I, st, a[0])
    I.write(st, ad, EMPTY)
    return [ret(st, UNIT)]


@model("std::string::String::insert_str")
def m_insert_str(I, st, f, a, site):
    ad, x = str_place(I, st, a[0])
    outs = []
    for o in split_outs(I, st, x, a[1], site, "insert_str"):
        if o.kind == "ret":
            I.write(o.st, ad, cat(cat(o.v[0], sval(I, o.st, a[2]), o.st), o.v[1], o.st))
            o = ret(o.st, UNIT)
        outs.append(o)
    return outs


@model("std::string::String::truncate")
def m_truncate(I, st, f, a, site):
    ad, x = str_place(I, st, a[0])
    outs = []
    for s, shorter in I.decide(st, ("ge0", I.str_len(st, x) - a[1])):
        if not shorter:
            outs.append(ret(s, UNIT))
            continue
        for o in split_outs(I, s, x, a[1], site, "truncate"):
            if o.kind == "ret":
                I.write(o.st, ad, o.v[0])
                o = ret(o.st, UNIT)
            outs.append(o)
    return outs


# ------------------------------------------------------------------ chars
def char_pred(cc):
    def f_(I, st, f, a, site):
        c = rd(I, st, a[0])
        return bool_outs(I.decide_cls(st, c, cc))
    return f_


_A = {
    "is_ascii": CC(ALL_ASCII, 0), "is_ascii_alphabetic": CC(PREDMASK := CC.pred("alphabetic").a, 0), "is_ascii_digit": CC(CC.pred("numeric").a, 0),
    "is_ascii_alphanumeric": CC(CC.pred("alphabetic").a | CC.pred("numeric").a, 0), "is_ascii_whitespace": CC.chars(" \t\n\x0c\r"),
    "is_ascii_uppercase": CC(CC.pred("uppercase").a, 0), "is_ascii_lowercase": CC(CC.pred("lowercase").a, 0), "is_ascii_control": CC(CC.pred("control").a, 0),
    "is_ascii_hexdigit": CC.chars("0123456789abcdefABCDEF"), "is_ascii_punctuation": CC.chars([x for x in range(33, 127) if not chr(x).isalnum()]),
    "is_ascii_graphic": CC.chars(list(range(33, 127))),
    "is_alphabetic": CC.pred("alphabetic"), "is_numeric": CC.pred("numeric"), "is_alphanumeric": CC.pred("alphanumeric"), "is_whitespace": CC.pred("whitespace"),
    "is_uppercase": CC.pred("uppercase"), "is_lowercase": CC.pred("lowercase"), "is_control": CC.pred("control"),
}
for _n, _c in _A.items():
    for _q in ("std::char::methods::<impl char>::", "core::char::methods::<impl char>::"):
        MODELS[_q + _n] = char_pred(_c)


def byte_pred(c):
    f = char_pred(c)

    def f_(I, st, fn, a, site):
        x = rd(I, st, a[0])
        if isinstance(x, Lin) and x.const is not None:
            return [ret(st, not (CC.chars([x.c]) & c).empty())]
        if isinstance(x, tuple) and x[0] == "c8":
            return f(I, st, fn, [x[1]], site)
        raise Unsupported("%s on %s" % (fn["path"], showv(x)))
    return f_


for _n, _c in _A.items():
    if "is_ascii" in _n:
        for _q in ("std::num::<impl u8>::", "core::num::<impl u8>::"):
            MODELS[_q + _n] = byte_pred(_c)


@model("std::char::methods::<impl char>::is_digit", "core::char::methods::<impl char>::is_digit")
def m_is_digit(I, st, f, a, site):
    r = a[1].const
    ds = "0123456789abcdefghijklmnopqrstuvwxyz"[:r]
    return bool_outs(I.decide_cls(st, rd(I, st, a[0]), CC.chars(ds + ds.upper())))


@model("std::char::methods::<impl char>::len_utf8", "core::char::methods::<impl char>::len_utf8", "<char as nom::AsChar>::len", "<&'a char as nom::AsChar>::len")
def m_len_utf8(I, st, f, a, site):
    return [ret(st, I.char_width(st, rd(I, st, a[0])))]


@model("<char as nom::AsChar>::as_char", "<&'a char as nom::AsChar>::as_char")
def m_as_char(I, st, f, a, site):
    return [ret(st, rd(I, st, a[0]))]


@model("std::char::methods::<impl char>::eq_ignore_ascii_case")
def m_ceqic(I, st, f, a, site):
    x, y = rd(I, st, a[0]), rd(I, st, a[1])
    if x[0] == "ch":
        x, y = y, x
    if y[0] == "ch":
        c = chr(y[1])
        return bool_outs(I.decide_cls(st, x, CC.chars(c.lower() + c.upper()) if c.isascii() else CC.chars(c)))
    return bool_outs(I.decide(st, ("b", ("ceqic", x, y))))


# ------------------------------------------------------------------ clone / refs / mem
@model("std::clone::impls::<impl std::clone::Clone for &T>::clone", "std::clone::impls::<impl std::clone::Clone for bool>::clone",
       "std::clone::impls::<impl std::clone::Clone for u32>::clone", "std::clone::impls::<impl std::clone::Clone for usize>::clone",
       "std::clone::impls::<impl std::clone::Clone for char>::clone", "std::clone::impls::<impl std::clone::Clone for u8>::clone",
       "<std::vec::Vec<T, A> as std::clone::Clone>::clone", "<std::slice::Iter<'_, T> as std::clone::Clone>::clone", "<std::str::Chars<'a> as std::clone::Clone>::clone",
       "<std::rc::Rc<T, A> as std::clone::Clone>::clone", "<std::boxed::Box<str> as std::clone::Clone>::clone")
def m_clone(I, st, f, a, site):
    v = a[0]
    if v[0] == "ref":
        v = I.get(st, I.cell_value(st, v[1]), v[2])
    return [ret(st, v)]


@model("<&T as std::borrow::Borrow<T>>::borrow", "<&T as std::ops::Deref>::deref", "<&mut T as std::ops::Deref>::deref", "<&mut T as std::ops::DerefMut>::deref_mut")
def m_unref(I, st, f, a, site):
    v = a[0]
    if v[0] == "ref":
        v = I.get(st, I.cell_value(st, v[1]), v[2])
    return [ret(st, v)]


@model("<T as std::borrow::Borrow<T>>::borrow", "<T as std::borrow::BorrowMut<T>>::borrow_mut")
def m_ident(I, st, f, a, site):
    return [ret(st, a[0])]


@model("<std::boxed::Box<T, A> as std::ops::Deref>::deref", "<std::boxed::Box<T, A> as std::ops::DerefMut>::deref_mut", "<std::rc::Rc<T, A> as std::ops::Deref>::deref",
       "<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref", "<std::rc::Rc<T, A> as std::convert::AsRef<T>>::as_ref", "<std::sync::Arc<T, A> as std::ops::Deref>::deref")
def m_box_deref(I, st, f, a, site):
    v = a[0]
    if v[0] == "ref":
        v = I.get(st, I.cell_value(st, v[1]), v[2])
    if v[0] == "box":
        return [ret(st, ("ref", v[1], ()))]
    return [ret(st, v)]


@model("std::boxed::Box::<T>::new", "std::rc::Rc::<T>::new", "std::sync::Arc::<T>::new")
def m_box_new(I, st, f, a, site):
    return [ret(st, ("box", I.new_cell(st, a[0], f["args"][0] if f.get("args") else None)))]


@model("std::mem::take", "core::mem::take")
def m_take_mem(I, st, f, a, site):
    ad = mutref(I, a[0], "mem::take")
    v = I.read(st, ad)
    t = f["args"][0]
    I.write(st, ad, default_of(I, st, t, v))
    return [ret(st, v)]


def default_of(I, st, t, v=None):
    ty = I.T[t]
    k = ty["k"]
    if k in ("uint", "int"):
        return L(0)
    if k == "bool":
        return False
    if k == "adt":
        p = ty["path"]
        if p == "std::string::String":
            return EMPTY
        if I.is_cow_str(t):
            return ("cow", "O", EMPTY)
        if p in ("std::vec::Vec",):
            return ("seq", ())
        if p == OPT:
            return NONE
        b = I.find_impl("std::default::Default", "default", p)
        if b is not None:
            o = I.run_body(st, b, [])
            if len(o) == 1:
                return o[0].v
    if k == "ref" and I.T[ty["e"]]["k"] == "str":
        return EMPTY
    if k == "tuple":
        return ("tup", tuple(default_of(I, st, x) for x in ty["f"]))
    raise Unsupported("default of %s" % ty["s"])


@model("std::mem::replace", "core::mem::replace", "std::option::Option::<T>::replace_")
def m_replace(I, st, f, a, site):
    ad = mutref(I, a[0], "mem::replace")
    v = I.read(st, ad)
    I.write(st, ad, a[1])
    return [ret(st, v)]


@model("std::mem::swap", "core::mem::swap")
def m_swap(I, st, f, a, site):
    x, y = mutref(I, a[0], "swap"), mutref(I, a[1], "swap")
    v, w = I.read(st, x), I.read(st, y)
    I.write(st, x, w)
    I.write(st, y, v)
    return [ret(st, UNIT)]


@model("std::hint::must_use", "core::hint::must_use", "std::hint::black_box", "core::hint::black_box", "std::convert::identity", "core::convert::identity")
def m_ident(I, st, f, a, site):
    return [ret(st, a[0])]


@model("std::mem::size_of", "std::mem::align_of", "core::mem::size_of", "core::mem::align_of")
def m_size_of(I, st, f, a, site):
    t = f["args"][0]
    n = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "u32": 4, "char": 4, "u64": 8, "usize": 8, "()": 0}.get(I.T[t]["s"])
    if n is not None:
        return [ret(st, L(n))]
    # sizes of other types only tune capacities
    return [ret(st, L(24))]


@model("std::mem::size_of_val", "core::mem::size_of_val")
def m_size_of_val(I, st, f, a, site):
    return [ret(st, L(("pure", f["path"], (I.T[f["args"][0]]["s"],))))]


@model("std::mem::drop", "std::mem::forget", "std::mem::drop_")
def m_drop(I, st, f, a, site):
    return [ret(st, UNIT)]


# ------------------------------------------------------------------ numbers
UINTS = {"u1": 1, "u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}      # u1: see scale.py


def m_satsub(I, st, f, a, site):
    e = a[0] - a[1]
    return [ret(s, s.norm(e) if b else L(0)) for s, b in I.decide(st, ("ge0", e))]


def m_satadd(w):
    def m(I, st, f, a, site):
        e = st.norm(a[0] + a[1])
        if w >= 64:
            return [ret(st, e)]        # sums of sizes do not overflow in memory
        m = L((1 << w) - 1)
        return [ret(s, e if b else m) for s, b in I.decide(st, ("ge0", m - e))]
    return m


def m_wrapadd(w):
    def m(I, st, f, a, site):
        e = st.norm(a[0] + a[1])
        if e.const is not None:
            return [ret(st, L(e.c % (1 << w)))]
        return [ret(st, e if w >= 32 else L(("wrap", e, w)))]
    return m


def m_wrapsub(w):
    def m(I, st, f, a, site):
        e = st.norm(a[0] - a[1])
        if e.const is not None:
            return [ret(st, L(e.c % (1 << w)))]
        return [ret(s, s.norm(e) if b else L(("wrap", e, w))) for s, b in I.decide(st, ("ge0", e))]
    return m


def m_chksub(I, st, f, a, site):
    e = a[0] - a[1]
    return [ret(s, some(s.norm(e)) if b else NONE) for s, b in I.decide(st, ("ge0", e))]


def m_chkadd(w):
    def m(I, st, f, a, site):
        e = st.norm(a[0] + a[1])
        if w < 32:
            return [ret(s, some(e) if b else NONE) for s, b in I.decide(st, ("ge0", L((1 << w) - 1) - e))]
        # overflow of a sum of sizes is an abstract possibility: keep both outcomes
        outs = []
        for s, b in I.decide(st, ("b", ("addok", a[0], a[1]))):
            outs.append(ret(s, some(a[0] + a[1]) if b else NONE))
        return outs
    return m


for _n, _w in UINTS.items():
    for _m, _f in (("saturating_sub", m_satsub), ("saturating_add", m_satadd(_w)), ("wrapping_add", m_wrapadd(_w)), ("wrapping_sub", m_wrapsub(_w)),
                   ("checked_sub", m_chksub), ("checked_add", m_chkadd(_w))):
        MODELS["core::num::<impl %s>::%s" % (_n, _m)] = _f


@model("core::num::<impl usize>::checked_mul")
def m_chkmul(I, st, f, a, site):
    r = I.binop(st, "Mul", a[0], a[1], None)
    outs = []
    for s, b in I.decide(st, ("b", ("mulok", a[0], a[1]))):
        outs.append(ret(s, some(r) if b else NONE))
    return outs


@model("core::num::<impl usize>::saturating_mul")
def m_satmul(I, st, f, a, site):
    r = I.binop(st, "Mul", a[0], a[1], None)
    return [ret(s, r if b else L((1 << 64) - 1)) for s, b in I.decide(st, ("b", ("mulok", a[0], a[1])))]


@model("std::cmp::impls::<impl std::cmp::Ord for usize>::min", "std::cmp::Ord::min", "std::cmp::min")
def m_min(I, st, f, a, site):
    if not (isinstance(a[0], Lin) and isinstance(a[1], Lin)):
        return None
    return [ret(s, a[0] if b else a[1]) for s, b in I.decide(st, ("ge0", a[1] - a[0]))]


def boolish(v):
    return v is True or v is False or (isinstance(v, tuple) and bool(v) and v[0] == "cond")


def bcond(v):
    return v if isinstance(v, bool) else v[1]


@model("std::vec::Vec::<T, A>::reserve", "std::vec::Vec::<T, A>::reserve_exact", "std::string::String::reserve",
       "std::vec::Vec::<T, A>::shrink_to_fit", "std::string::String::shrink_to_fit")
def m_reserve(I, st, f, a, site):
    return [ret(st, UNIT)]


@model("std::cmp::impls::<impl std::cmp::Ord for usize>::max", "std::cmp::Ord::max", "std::cmp::max")
def m_max(I, st, f, a, site):
    if boolish(a[0]) and boolish(a[1]):
        return [r for s, b in I.decide(st, bcond(a[0])) for r in ([ret(s, True)] if b else [ret(s, a[1])])]
    if a[1] == EMPTY:
        return [ret(st, a[0])]
    if a[0] == EMPTY:
        return [ret(st, a[1])]
    if not (isinstance(a[0], Lin) and isinstance(a[1], Lin)):
        return None
    return [ret(s, a[1] if b else a[0]) for s, b in I.decide(st, ("ge0", a[1] - a[0]))]


@model("std::cmp::impls::<impl std::cmp::PartialEq for usize>::eq")
def m_ueq(I, st, f, a, site):
    return bool_outs(I.decide(st, ("eq0", rd(I, st, a[0]) - rd(I, st, a[1]))))


def tuple_eq(I, st, f, a, site):
    """Equality of tuples, part by part."""
    x, y = rd(I, st, a[0]), rd(I, st, a[1])
    if x[0] != "tup" or y[0] != "tup":
        return None
    cur, out = [st], []
    for p, q in zip(x[1], y[1]):
        nxt = []
        for s in cur:
            if isinstance(p, Lin) and isinstance(q, Lin):
                bs = I.decide(s, ("eq0", p - q))
            elif p[0] in ("str", "cow") or q[0] in ("str", "cow"):
                bs = I.decide_streq(s, sval(I, s, p), sval(I, s, q))
            else:
                u, v = I.fz(s, p), I.fz(s, q)
                bs = [(s, True)] if u == v else I.decide(s, ("b", ("valeq",) + tuple(sorted((u, v), key=repr))))
            for s2, b in bs:
                (nxt if b else out).append(s2)
        cur = nxt
    ne = f.get("name") == "ne"
    return [ret(s, ne) for s in out] + [ret(s, not ne) for s in cur]


for _p in ("(U, T)", "(V, U, T)"):
    MODELS["core::tuple::<impl std::cmp::PartialEq for %s>::eq" % _p] = tuple_eq
    MODELS["core::tuple::<impl std::cmp::PartialEq for %s>::ne" % _p] = tuple_eq


# ------------------------------------------------------------------ Vec and slices
def seq_at(I, st, v):
    """(address, seq value) behind a reference to a Vec / array / slice holder."""
    ad = place(I, st, v)
    x = I.read(st, ad)
    return ad, x


def as_sref(I, st, v):
    v = v
    n = 0
    while v[0] in ("ref", "box"):
        x = I.get(st, I.cell_value(st, v[1]), v[2] if v[0] == "ref" else ())
        if x[0] == "seq":
            return ("sref", v[1], v[2] if v[0] == "ref" else (), L(0), I.seq_len(x), None)
        v = x
        n += 1
    if v[0] == "sref":
        return v
    if v[0] == "seq":
        return ("sref", I.new_cell(st, v), (), L(0), I.seq_len(v), None)
    if v[0] == "bytes":
        return v
    raise Unsupported("slice expected, got %s" % showv(v))


def elem_ref(v, i):
    return ("ref", v[1], v[2] + (("e", v[3] + i),))


@model("<std::vec::Vec<T, A> as std::ops::Deref>::deref", "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut", "std::vec::Vec::<T, A>::as_slice",
       "std::vec::Vec::<T, A>::as_mut_slice", "<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref", "<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow",
       "core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "core::slice::<impl [T]>::as_ref",
       "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter", "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter",
       "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       "std::vec::IntoIter::<T, A>::as_slice", "std::vec::IntoIter::<T, A>::as_mut_slice")
def m_sref(I, st, f, a, site):
    return [ret(st, as_sref(I, st, a[0]))]


@model("core::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter", "<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter")
def m_vec_into_iter(I, st, f, a, site):
    return [ret(st, a[0])]


@model("<I as std::iter::IntoIterator>::into_iter")
def m_ident_iter(I, st, f, a, site):
    return [ret(st, a[0])]


@model("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "<std::vec::Vec<T> as std::default::Default>::default")
def m_vec_new(I, st, f, a, site):
    return [ret(st, ("seq", ()))]


@model("std::vec::Vec::<T, A>::push")
def m_vec_push(I, st, f, a, site):
    ad, x = seq_at(I, st, a[0])
    I.write(st, ad, ("seq", x[1] + (("v", a[1]),)))
    return [ret(st, UNIT)]


@model("std::vec::Vec::<T, A>::pop")
def m_vec_pop(I, st, f, a, site):
    ad, x = seq_at(I, st, a[0])
    outs = []
    for s, e, rest in I.seq_pop_back(st, x):
        if e is None:
            outs.append(ret(s, NONE))
        else:
            I.write(s, ad, rest)
            outs.append(ret(s, some(e)))
    return outs


@model("std::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len", "<std::slice::Iter<'_, T> as std::iter::ExactSizeIterator>::len", "std::iter::ExactSizeIterator::len",
       "<std::vec::IntoIter<T, A> as std::iter::ExactSizeIterator>::len")
def m_vec_len(I, st, f, a, site):
    v = rd(I, st, a[0])
    if v[0] == "bytes":
        return [ret(st, I.str_len(st, v[1]))]
    if v[0] == "sref":
        return [ret(st, st.norm(v[4] - v[3]))]
    if v[0] == "seq":
        return [ret(st, st.norm(I.seq_len(v)))]
    return None


@model("std::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty")
def m_vec_is_empty(I, st, f, a, site):
    v = rd(I, st, a[0])
    if v[0] == "bytes":
        return bool_outs(I.decide_empty(st, v[1]))
    n = v[4] - v[3] if v[0] == "sref" else I.seq_len(v)
    return bool_outs(I.decide(st, ("not", ("ge0", n - L(1)))))


@model("std::vec::Vec::<T, A>::clear")
def m_vec_clear(I, st, f, a, site):
    ad, x = seq_at(I, st, a[0])
    I.write(st, ad, ("seq", ()))
    return [ret(st, UNIT)]


@model("core::slice::<impl [T]>::last", "core::slice::<impl [T]>::last_mut", "core::slice::<impl [T]>::first", "core::slice::<impl [T]>::first_mut")
def m_last(I, st, f, a, site):
    v = as_sref(I, st, a[0])
    n = v[4] - v[3]
    last = "last" in f["path"].rsplit("::", 1)[1]
    outs = []
    for s, b in I.decide(st, ("ge0", n - L(1))):
        outs.append(ret(s, some(("ref", v[1], v[2] + (("e", s.norm(v[4] - L(1)) if last else v[3]),)))) if b else ret(s, NONE))
    return outs


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def m_get(I, st, f, a, site):
    v = as_sref(I, st, a[0])
    if v[0] == "bytes":
        raise Unsupported("bytes.get")
    n = v[4] - v[3]
    if isinstance(a[1], Lin):
        return [ret(s, some(("ref", v[1], v[2] + (("e", s.norm(v[3] + a[1])),))) if b else NONE) for s, b in I.decide(st, ("ge0", n - a[1] - L(1)))]
    lo, hi = range_bounds(I, st, a[1], None)
    if hi is None:
        hi = n
    outs = []
    for s, b in I.decide(st, ("and", ("ge0", n - hi), ("ge0", hi - lo))):
        outs.append(ret(s, some(("sref", v[1], v[2], v[3] + lo, v[3] + hi, v[5])) if b else NONE))
    return outs


@model("<std::vec::Vec<T, A> as std::ops::Index<I>>::index", "<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut", "core::slice::index::<impl std::ops::Index<I> for [T]>::index",
       "core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut")
def m_index(I, st, f, a, site):
    v = as_sref(I, st, a[0])
    if v[0] == "bytes":
        if isinstance(a[1], Lin) or not (len(v[1][1]) == 1 and v[1][1][0][0] == "k" and v[1][1][0][1].isascii()):
            raise Unsupported("index of bytes")
        lo, hi = range_bounds(I, st, a[1], None)
        return [ret(o.st, ("bytes", o.v)) if o.kind == "ret" else o for o in substr(I, st, v[1], lo, hi, site)]
    n = v[4] - v[3]
    outs = []
    if isinstance(a[1], Lin):
        for s, b in I.decide(st, ("ge0", n - a[1] - L(1))):
            outs.append(ret(s, ("ref", v[1], v[2] + (("e", s.norm(v[3] + a[1])),))) if b else panic(s, "index out of bounds", site))
        return outs
    lo, hi = range_bounds(I, st, a[1], None)
    if hi is None:
        hi = n
    for s, b in I.decide(st, ("and", ("ge0", n - hi), ("ge0", hi - lo))):
        outs.append(ret(s, ("sref", v[1], v[2], v[3] + lo, v[3] + hi, v[5])) if b else panic(s, "range out of bounds", site))
    return outs


@model("core::slice::<impl [T]>::windows")
def m_windows(I, st, f, a, site):
    v = as_sref(I, st, a[0])
    if v[0] == "bytes" or a[1].const is None or a[1].const < 1:
        raise Unsupported("windows")
    return [ret(st, ("it", "windows", v, a[1]))]


@model("std::vec::Vec::<T, A>::truncate")
def m_vtrunc(I, st, f, a, site):
    ad, x = seq_at(I, st, a[0])
    outs = []
    for s, shorter in I.decide(st, ("ge0", I.seq_len(x) - a[1] - L(1))):
        if shorter:
            cur = [(s, x)]
            n = 0
            while True:
                s1, y = cur[0]
                if s1.lin_eq(I.seq_len(y), a[1]):
                    break
                r = I.seq_pop_back(s1, y)
                if len(r) != 1 or r[0][1] is None or n > 50:
                    raise Unsupported("truncate")
                cur = [(r[0][0], r[0][2])]
                n += 1
            I.write(cur[0][0], ad, cur[0][1])
            outs.append(ret(cur[0][0], UNIT))
        else:
            outs.append(ret(s, UNIT))
    return outs


@model("std::vec::Vec::<T, A>::extend_from_slice")
def m_extend_from_slice(I, st, f, a, site):
    ad, x = seq_at(I, st, a[0])
    v = as_sref(I, st, a[1])
    y = I.get(st, I.cell_value(st, v[1]), v[2])
    if st.lin_eq(v[3], L(0)) and st.lin_eq(v[4], I.seq_len(y)):
        I.write(st, ad, ("seq", x[1] + y[1]))
        return [ret(st, UNIT)]
    raise Unsupported("extend_from_slice of subslice")


@model("std::vec::Vec::<T, A>::append")
def m_append(I, st, f, a, site):
    ad, x = seq_at(I, st, a[0])
    ad2, y = seq_at(I, st, a[1])
    I.write(st, ad, ("seq", x[1] + y[1]))
    I.write(st, ad2, ("seq", ()))
    return [ret(st, UNIT)]


RUN_MAX = 2       # longest run of unknown elements that is spelled out element by element


def spell_out(I, st, x):
    """[(state, ('seq', only known elements))] of a sequence, its unknown runs up to RUN_MAX elements long; plus what is cut."""
    outs, cut = [], []
    work = [(st, (), x[1])]
    while work:
        s, done, todo = work.pop()
        if not todo:
            outs.append((s, ("seq", done)))
            continue
        p = todo[0]
        if p[0] == "v":
            work.append((s, done + (p,), todo[1:]))
            continue
        cur = [s]
        for n in range(RUN_MAX + 1):
            nxt = []
            for s1 in cur:
                for s2, more in I.decide(s1, ("ge0", p[4] - p[3] - L(n + 1))):
                    if more:
                        nxt.append(s2)
                    else:
                        es = tuple(("v", I.elem(s2, p, p[3] + L(i))) for i in range(n))
                        work.append((s2, done + es, todo[1:]))
            cur = nxt
        cut += cur
    return outs, [Outcome("cut", s, None, {"what": "length"}) for s in cut]


def order_of(I, st, how, x, y, site):
    """[(state, -1/0/1)] comparing two elements: by themselves, by a key closure, or by a comparison closure."""
    kind, fv = how

    def cmpv(s, u, v):
        if isinstance(u, Lin) and isinstance(v, Lin):
            out = []
            for s1, ge in I.decide(s, ("ge0", u - v)):
                if not ge:
                    out.append((s1, -1))
                else:
                    for s2, eq in I.decide(s1, ("eq0", u - v)):
                        out.append((s2, 0 if eq else 1))
            return out
        raise Unsupported("order of %s" % showv(u))

    def refto(s, v):
        return ("ref", I.new_cell(s, v), ())
    if kind == "self":
        return cmpv(st, x, y)
    out = []
    if kind == "key":
        s0 = st.copy()
        for o in I.call_value(s0, fv, [refto(s0, x)], site):
            if o.kind != "ret":
                raise Unsupported("key closure does not return")
            s1 = o.st.copy()
            for o2 in I.call_value(s1, fv, [refto(s1, y)], site):
                if o2.kind != "ret":
                    raise Unsupported("key closure does not return")
                out += cmpv(o2.st, o.v, o2.v)
        return out
    s0 = st.copy()
    for o in I.call_value(s0, fv, [refto(s0, x), refto(s0, y)], site):
        if o.kind != "ret":
            raise Unsupported("comparison closure does not return")
        if o.v[0] == "cmp":
            out += cmpv(o.st, o.v[1], o.v[2])
            continue
        for s1, v in I.variant_cases(o.st, o.v):
            out.append((s1, v[2] - 1))
    return out


def sorter(how, stable):
    def m(I, st, f, a, site):
        v = as_sref(I, st, a[0])
        ad = (v[1], v[2])
        x = I.get(st, I.cell_value(st, v[1]), v[2])
        if not (st.lin_eq(v[3], L(0)) and st.lin_eq(v[4], I.seq_len(x))):
            raise Unsupported("sort of a subslice")
        h = (how, a[1] if len(a) > 1 else None)
        done, outs = spell_out(I, st, x)
        for s, q in done:
            cur = [(s, ())]
            for e in q[1]:
                nxt = []
                for s1, srt in cur:
                    # insert e after the elements that are not greater
                    work = [(s1, len(srt))]
                    while work:
                        s2, i = work.pop()
                        if i == 0:
                            nxt.append((s2, (e,) + srt))
                            continue
                        for s3, c in order_of(I, s2, h, srt[i - 1][1], e[1], site):
                            if c > 0:
                                work.append((s3, i - 1))
                            else:
                                nxt.append((s3, srt[:i] + (e,) + srt[i:]))
                                if c == 0 and not stable and srt[i - 1][1] != e[1] and how != "self":
                                    # equal keys: an unstable sort may leave them in either order
                                    s4 = s3.copy()
                                    s4.ctr += 1
                                    nxt.append((s4, srt[:i - 1] + (e,) + srt[i - 1:]))
                cur = nxt
            for s1, srt in cur:
                I.write(s1, ad, ("seq", srt))
                outs.append(ret(s1, UNIT))
        return outs
    return m


for _n, _h, _s in (("sort", "self", True), ("sort_unstable", "self", False), ("sort_by_key", "key", True), ("sort_unstable_by_key", "key", False),
                   ("sort_by_cached_key", "key", True), ("sort_by", "cmp", True), ("sort_unstable_by", "cmp", False)):
    for _p in ("core::slice::<impl [T]>::", "std::slice::<impl [T]>::", "alloc::slice::<impl [T]>::"):
        MODELS[_p + _n] = sorter(_h, _s)


@model("std::vec::Vec::<T, A>::dedup", "std::vec::Vec::<T, A>::dedup_by_key")
def m_dedup(I, st, f, a, site):
    ad, x = seq_at(I, st, a[0])
    h = ("key", a[1]) if len(a) > 1 else ("self", None)
    done, outs = spell_out(I, st, x)
    for s, q in done:
        cur = [(s, ())]
        for e in q[1]:
            nxt = []
            for s1, kept in cur:
                if not kept:
                    nxt.append((s1, (e,)))
                    continue
                for s2, c in order_of(I, s1, h, kept[-1][1], e[1], site):
                    nxt.append((s2, kept if c == 0 else kept + (e,)))
            cur = nxt
        for s1, kept in cur:
            I.write(s1, ad, ("seq", kept))
            outs.append(ret(s1, UNIT))
    return outs


@model("std::vec::Vec::<T, A>::retain", "std::vec::Vec::<T, A>::retain_mut")
def m_retain(I, st, f, a, site):
    ad, x = seq_at(I, st, a[0])
    done, outs = spell_out(I, st, x)
    for s, q in done:
        cur = [(s, ())]
        for e in q[1]:
            nxt = []
            for s1, kept in cur:
                s1 = s1.copy()
                cell = I.new_cell(s1, e[1])
                for o in I.call_value(s1, a[1], [("ref", cell, ())], site):
                    if o.kind != "ret":
                        outs.append(o)
                        continue
                    for s2, b in I.decide(o.st, o.v):
                        nxt.append((s2, kept + (("v", I.get(s2, s2.store[cell], ())),) if b else kept))
            cur = nxt
        for s1, kept in cur:
            I.write(s1, ad, ("seq", kept))
            outs.append(ret(s1, UNIT))
    return outs


@model("core::slice::<impl [T]>::reverse")
def m_reverse(I, st, f, a, site):
    v = as_sref(I, st, a[0])
    x = I.get(st, I.cell_value(st, v[1]), v[2])
    if not (st.lin_eq(v[3], L(0)) and st.lin_eq(v[4], I.seq_len(x))):
        raise Unsupported("reverse of a subslice")
    done, outs = spell_out(I, st, x)
    for s, q in done:
        I.write(s, (v[1], v[2]), ("seq", q[1][::-1]))
        outs.append(ret(s, UNIT))
    return outs


@model("std::vec::Vec::<T, A>::insert")
def m_vinsert(I, st, f, a, site):
    ad, x = seq_at(I, st, a[0])
    if st.lin_eq(a[1], L(0)):
        I.write(st, ad, ("seq", (("v", a[2]),) + x[1]))
        return [ret(st, UNIT)]
    done, outs = spell_out(I, st, x)
    for s, q in done:
        n = len(q[1])
        live = True
        for i in range(n + 1):
            r = I.decide(s, ("eq0", a[1] - L(i)))
            live = False
            for s1, b in r:
                if b:
                    I.write(s1, ad, ("seq", q[1][:i] + (("v", a[2]),) + q[1][i:]))
                    outs.append(ret(s1, UNIT))
                else:
                    s, live = s1, True
            if not live:
                break
        if live:
            outs.append(panic(s, "insertion index out of bounds", site))
    return outs


@model("std::vec::Vec::<T, A>::remove", "std::vec::Vec::<T, A>::swap_remove")
def m_vremove(I, st, f, a, site):
    ad, x = seq_at(I, st, a[0])
    if f["path"].endswith("::remove") and st.lin_eq(a[1], L(0)):
        outs = []
        for s, e, rest in I.seq_pop_front(st, x):
            if e is None:
                outs.append(panic(s, "removal index out of bounds", site))
            else:
                I.write(s, ad, rest)
                outs.append(ret(s, e))
        return outs
    done, outs = spell_out(I, st, x)
    for s, q in done:
        n = len(q[1])
        live = True
        for i in range(n):
            r = I.decide(s, ("eq0", a[1] - L(i)))
            live = False
            for s1, b in r:
                if b:
                    k = q[1][:i] + q[1][i + 1:]
                    if f["path"].endswith("swap_remove") and i < n - 1:
                        k = q[1][:i] + q[1][-1:] + q[1][i + 1:-1]
                    I.write(s1, ad, ("seq", k))
                    outs.append(ret(s1, q[1][i][1]))
                else:
                    s, live = s1, True
            if not live:
                break
        if live:
            outs.append(panic(s, "removal index out of bounds", site))
    return outs


@model("core::slice::<impl [T]>::contains")
def m_contains(I, st, f, a, site):
    v = as_sref(I, st, a[0])
    q = I.get(st, I.cell_value(st, v[1]), v[2])
    x = rd(I, st, a[1])
    if q[0] == "seq" and all(s[0] == "v" for s in q[1]) and isinstance(x, tuple) and x[0] in ("ch", "chs") and all(s[1][0] == "ch" for s in q[1]):
        return bool_outs(I.decide_cls(st, x, CC.chars([s[1][1] for s in q[1]])))
    if q[0] == "seq" and all(s[0] == "v" for s in q[1]) and isinstance(x, Lin):
        c = False
        for s in q[1]:
            e = ("eq0", x - s[1])
            c = e if c is False else ("or", c, e)
        return bool_outs(I.decide(st, c))
    if v[0] == "sref":
        if not hasattr(I, "fz"):
            raise Unsupported("contains")
        return bool_outs(I.decide(st, ("b", ("contains", I.fz(st, v), I.fz(st, x)))))
    raise Unsupported("contains")


@model("std::rc::Rc::<[T]>::copy_from_slice", "<std::rc::Rc<[T]> as std::convert::From<&[T]>>::from")
def m_rcslice(I, st, f, a, site):
    v = rd(I, st, a[0])
    if v[0] == "bytes":
        return [ret(st, ("bytes", v[1]))]
    raise Unsupported("Rc slice")


@model("std::rc::Rc::<T, A>::from_raw_in", "std::rc::Rc::<T>::from_raw")
def m_rcraw(I, st, f, a, site):
    return [ret(st, a[0])]


def term_call(I, st, f, a, site, tag=None):
    """A pure function of its arguments, kept as a term."""
    t = dest_ty(site)
    if t is None:
        raise Unsupported("term result type of %s" % f.get("path"))
    vals = tuple(freeze(I, st, x) for x in a)
    return [ret(st, I.mk((tag or f["path"],) + vals, t))]


def freeze(I, st, v, d=0):
    """Replace references by the values they designate (for use inside terms)."""
    if isinstance(v, tuple) and d < 12:
        if v and v[0] in ("ref", "box"):
            try:
                return freeze(I, st, I.get(st, I.cell_value(st, v[1]), v[2] if v[0] == "ref" else ()), d + 1)
            except (Unsupported, KeyError):
                return v
        if v and v[0] == "str":
            return I.simplify_str(st, v)
        if v and v[0] == "cow":
            return ("cow*", freeze(I, st, v[2], d + 1))
        if v and v[0] == "sym" and len(v) == 3:
            return ("sym", v[1])
        if v and v[0] in ("clo", "fmtargs", "fmtarg") and hasattr(I, "fz"):
            return I.fz(st, v)
        if v and v[0] in ("adt", "tup", "seq", "v", "s", "it"):
            return tuple(freeze(I, st, x, d + 1) if isinstance(x, tuple) else x for x in v)
        if v and v[0] == "sref":
            return ("sref*", freeze(I, st, I.get(st, I.cell_value(st, v[1]), v[2]), d + 1), v[3], v[4])
        return tuple(freeze(I, st, x, d + 1) if isinstance(x, tuple) else x for x in v)
    return v


# ------------------------------------------------------------------ iterators
def iter_next(I, st, it, site):
    """[(state, element or None, iterator)] ; panics from closures are appended to I.iter_panics."""
    k = it[0]
    if k == "seq":
        return I.seq_pop_front(st, it)
    if k == "sref":
        out = []
        for s, b in I.decide(st, ("ge0", it[4] - it[3] - L(1))):
            if b:
                out.append((s, ("ref", it[1], it[2] + (("e", it[3]),)), ("sref", it[1], it[2], s.norm(it[3] + L(1)), it[4], it[5])))
            else:
                out.append((s, None, it))
        return out
    if k == "bytes":
        out = []
        for s, ch, rest in I.str_first(st, it[1]):
            out.append((s, None if ch is None else ("byte", ch), ("bytes", rest)))
        return out
    if k == "adt":
        if it[1] == "std::ops::Range":
            lo, hi = it[3]
            out = []
            for s, b in I.decide(st, ("ge0", hi - lo - L(1))):
                out.append((s, lo, ("adt", it[1], 0, (s.norm(lo + L(1)), hi))) if b else (s, None, it))
            return out
        if it[1] == "std::ops::RangeFrom":
            return [(st, it[3][0], ("adt", it[1], 0, (it[3][0] + L(1),)))]
        if it[1] == "std::ops::RangeInclusive":
            lo, hi = it[3][0], it[3][1]
            out = []
            for s, b in I.decide(st, ("ge0", hi - lo)):
                out.append((s, lo, ("adt", it[1], 0, (s.norm(lo + L(1)), hi) + it[3][2:])) if b else (s, None, it))
            return out
        if it[1] == OPT:
            return [(st, it[3][0] if it[2] == 1 else None, NONE)]
        if it[1].endswith("Peekable"):
            inner, peeked = it[3]
            if peeked[0] == "adt" and peeked[2] == 1:
                v = peeked[3][0]
                n = ("adt", it[1], 0, (inner, NONE))
                if v[0] == "adt":
                    return [(st, v[3][0] if v[2] == 1 else None, n)]
                return [(s, e[3][0] if e[2] == 1 else None, n) for s, e in I.variant_cases(st, v)]
            return [(s, e, ("adt", it[1], 0, (i2, NONE))) for s, e, i2 in iter_next(I, st, inner, site)]
        if it[1].startswith("sgmlish") or it[1].startswith("std::option::"):
            b = I.find_impl("std::iter::Iterator", "next", it[1])
            if b is not None:
                cell = I.new_cell(st, it)
                out = []
                for o in I.run_body(st, b, [("ref", cell, ())]):
                    if o.kind != "ret":
                        I.pending.append(o)
                        continue
                    for s, v in I.variant_cases(o.st, o.v):
                        out.append((s, v[3][0] if v[2] == 1 else None, s.store[cell]))
                return out
        if it[1] == "std::option::IntoIter" or it[1] == "std::option::Item":
            return [(s, e, ("adt", it[1], it[2], (i2,))) for s, e, i2 in iter_next(I, st, it[3][0], site)]
    if k == "sym":
        ty = I.T[it[2]]
        if ty["k"] == "adt" and ty["kind"] == "enum":
            out = []
            for s, v in I.variant_cases(st, it):
                out += iter_next(I, s, v, site)
            return out
        # unknown iterator: the run of events its name stands for
        if ty["k"] != "adt" or not ty["path"].startswith("sgmlish"):
            return I.seq_pop_front(st, sym_seq(I, it[1]))
        raise Unsupported("next on unknown iterator %s" % showv(it))
    if k in ("ref", "box"):
        ad = mutref(I, it, "iter")
        v = I.read(st, ad)
        out = []
        for s, e, v2 in iter_next(I, st, v, site):
            I.write(s, ad, v2)
            out.append((s, e, it))
        return out
    if k == "it":
        kind = it[1]
        if kind == "chars":
            return [(s, ch, ("it", "chars", rest)) for s, ch, rest in I.str_first(st, it[2])]
        if kind == "bytesof":
            return [(s, None if ch is None else ("c8", ch), ("it", kind, rest)) for s, ch, rest in I.str_first(st, it[2])]
        if kind == "char_indices":
            out = []
            for s, ch, rest in I.str_first(st, it[2]):
                if ch is None:
                    out.append((s, None, it))
                else:
                    out.append((s, ("tup", (s.norm(it[3] - I.str_len(s, it[2])), ch)), ("it", kind, rest, it[3])))
            return out
        if kind == "splitcls":
            out = []
            for s, pre, rest in str_scan(I, st, it[2], it[3]):
                for s2, e in I.decide_empty(s, rest):
                    if e:
                        out.append((s2, None, ("it", kind, EMPTY, it[3])))
                    else:
                        for s3, tok, rest2 in str_scan(I, s2, rest, it[3].compl()):
                            out.append((s3, tok, ("it", kind, rest2, it[3])))
            return out
        if kind == "map":
            out = []
            for s, e, i2 in iter_next(I, st, it[2], site):
                if e is None:
                    out.append((s, None, ("it", kind, i2, it[3])))
                else:
                    for s2, r, fv in call_mut(I, s, it[3], [e], site):
                        out.append((s2, r, ("it", kind, i2, fv)))
            return out
        if kind in ("filter", "filter_map", "map_while", "take_while", "skip_while", "inspect"):
            return adapter_closure_next(I, st, it, site)
        if kind == "enumerate":
            return [(s, None if e is None else ("tup", (it[3], e)), ("it", kind, i2, it[3] if e is None else s.norm(it[3] + L(1)))) for s, e, i2 in iter_next(I, st, it[2], site)]
        if kind == "rev":
            return [(s, e, ("it", kind, i2)) for s, e, i2 in iter_prev(I, st, it[2], site)]
        if kind == "chain":
            out = []
            if it[2] is not None:
                for s, e, i2 in iter_next(I, st, it[2], site):
                    if e is None:
                        out += iter_next(I, s, ("it", kind, None, it[3]), site)
                    else:
                        out.append((s, e, ("it", kind, i2, it[3])))
                return out
            return [(s, e, ("it", kind, None, i2)) for s, e, i2 in iter_next(I, st, it[3], site)]
        if kind == "zip":
            out = []
            for s, e, i2 in iter_next(I, st, it[2], site):
                if e is None:
                    out.append((s, None, ("it", kind, i2, it[3])))
                else:
                    for s2, e2, j2 in iter_next(I, s, it[3], site):
                        out.append((s2, None if e2 is None else ("tup", (e, e2)), ("it", kind, i2, j2)))
            return out
        if kind == "take":
            out = []
            for s, b in I.decide(st, ("ge0", it[3] - L(1))):
                if b:
                    out += [(s2, e, ("it", kind, i2, s2.norm(it[3] - L(1)))) for s2, e, i2 in iter_next(I, s, it[2], site)]
                else:
                    out.append((s, None, it))
            return out
        if kind == "skip":
            inner, n = it[2], it[3]
            if n.const == 0:
                return [(s, e, ("it", kind, i2, L(0))) for s, e, i2 in iter_next(I, st, inner, site)]
            if n.const is not None and n.const < 20:
                out = []
                for s, e, i2 in iter_next(I, st, inner, site):
                    if e is None:
                        out.append((s, None, ("it", kind, i2, L(0))))
                    else:
                        out += iter_next(I, s, ("it", kind, i2, n - L(1)), site)
                return out
            if inner[0] == "sref":
                return iter_next(I, st, ("it", "skip", ("sref", inner[1], inner[2], inner[3] + n, inner[4], inner[5]), L(0)), site)
            raise Unsupported("skip by symbolic amount")
        if kind == "once":
            return [(st, it[2], ("it", "empty"))]
        if kind == "windows":
            v, n = it[2], it[3]
            out = []
            for s, b in I.decide(st, ("ge0", v[4] - v[3] - n)):
                if b:
                    out.append((s, ("sref", v[1], v[2], v[3], s.norm(v[3] + n), v[5]), ("it", kind, ("sref", v[1], v[2], s.norm(v[3] + L(1)), v[4], v[5]), n)))
                else:
                    out.append((s, None, it))
            return out
        if kind == "empty":
            return [(st, None, it)]
        if kind in ("cloned", "copied"):
            return [(s, None if e is None else (I.get(s, I.cell_value(s, e[1]), e[2]) if e[0] == "ref" else e), ("it", kind, i2)) for s, e, i2 in iter_next(I, st, it[2], site)]
        if kind == "flatten":
            # it = (inner, front iterator or None)
            out = []
            if it[3] is not None:
                for s, e, f2 in iter_next(I, st, it[3], site):
                    if e is not None:
                        out.append((s, e, ("it", kind, it[2], f2)))
                    else:
                        out += iter_next(I, s, ("it", kind, it[2], None), site)
                return out
            for s, e, i2 in iter_next(I, st, it[2], site):
                if e is None:
                    out.append((s, None, ("it", kind, i2, None)))
                else:
                    out += iter_next(I, s, ("it", kind, i2, e), site)
            return out
        if kind == "lines":
            v = it[2]
            out = []
            for s, e in I.decide_empty(st, v):
                if e:
                    out.append((s, None, it))
                    continue
                for s2, pre, rest in str_scan(I, s, v, CC.chars("\n").compl()):
                    for s3, ee in I.decide_empty(s2, rest):
                        # the last line has no line feed: its carriage return stays
                        line = pre if ee else ("str", (("x", ("line", I.simplify_str(s3, pre))),))
                        if line[1] and line[1][0][0] == "x":
                            c = const_of(line[1][0][1][1])
                            if c is not None:
                                line = kstr(c[:-1] if c.endswith("\r") else c) if c else EMPTY
                        out.append((s3, line, ("it", kind, EMPTY if ee else I.str_first(s3, rest)[0][2])))
            return out
        if kind == "split1":
            if it[2] is None:
                return [(st, None, it)]
            out = []
            for s, pre, rest in str_scan(I, st, it[2], it[3].compl()):
                for s2, e in I.decide_empty(s, rest):
                    if e:
                        out.append((s2, pre, ("it", kind, None, it[3])))
                    else:
                        for s3, _, r3 in I.str_first(s2, rest):
                            out.append((s3, pre, ("it", kind, r3, it[3])))
            return out
        if kind == "splitterm1":
            out = []
            for s0, e in I.decide_empty(st, it[2]):
                if e:
                    out.append((s0, None, ("it", kind, EMPTY, it[3])))
                    continue
                for s, pre, rest in str_scan(I, s0, it[2], it[3].compl()):
                    for s2, e2 in I.decide_empty(s, rest):
                        if e2:
                            out.append((s2, pre, ("it", kind, EMPTY, it[3])))
                        else:
                            for s3, _, r3 in I.str_first(s2, rest):
                                out.append((s3, pre, ("it", kind, r3, it[3])))
            return out
    raise Unsupported("next on %s" % showv(it))


def adapter_closure_next(I, st, it, site):
    kind = it[1]
    out = []
    inner, fv = it[2], it[3]
    if kind in ("filter", "filter_map", "skip_while"):
        # loop until an element passes
        cell = I.new_cell(st, ("tup", (inner, fv)))

        def step(s, discover):
            conts, rest = [], []
            cur = s.store[cell]
            for s1, e, i2 in iter_next(I, s, cur[1][0], site):
                if e is None:
                    s1.store[cell] = ("tup", (i2, cur[1][1]))
                    rest.append(ret(s1, NONE))
                    continue
                arg = e
                if kind != "filter_map":
                    arg = ("ref", I.new_cell(s1, e), ())
                for s2, r, f2 in call_mut(I, s1, cur[1][1], [arg], site):
                    s2.store[cell] = ("tup", (i2, f2))
                    if kind == "filter_map":
                        for s3, rv in I.variant_cases(s2, r):
                            if rv[2] == 1:
                                rest.append(ret(s3, rv))
                            else:
                                conts.append(Outcome("back", s3))
                    else:
                        for s3, b in I.decide(s2, r):
                            if b == (kind == "filter"):
                                rest.append(ret(s3, some(e)))
                            else:
                                conts.append(Outcome("back", s3))
            return conts, rest
        for o in I.loop_fix(st, step, site[:2]):
            if o.kind != "ret":
                I.pending.append(o)
                continue
            i2, f2 = o.st.store[cell][1]
            if o.v[2] == 0:
                out.append((o.st, None, ("it", kind, i2, f2)))
            elif kind == "skip_while":
                raise Unsupported("skip_while")
            else:
                out.append((o.st, o.v[3][0], ("it", kind, i2, f2)))
        return out
    for s, e, i2 in iter_next(I, st, inner, site):
        if e is None:
            out.append((s, None, ("it", kind, i2, fv)))
            continue
        if kind == "inspect":
            for s2, r, f2 in call_mut(I, s, fv, [("ref", I.new_cell(s, e), ())], site):
                out.append((s2, e, ("it", kind, i2, f2)))
        elif kind == "map_while":
            for s2, r, f2 in call_mut(I, s, fv, [e], site):
                for s3, rv in I.variant_cases(s2, r):
                    out.append((s3, rv[3][0] if rv[2] == 1 else None, ("it", kind, i2, f2) if rv[2] == 1 else ("it", "empty")))
        elif kind == "take_while":
            for s2, r, f2 in call_mut(I, s, fv, [("ref", I.new_cell(s, e), ())], site):
                for s3, b in I.decide(s2, r):
                    out.append((s3, e if b else None, ("it", kind, i2, f2) if b else ("it", "empty")))
    return out


def str_last(I, st, v):
    """Partition by the last character: [(state, char or None, what precedes it)]."""
    if not v[1]:
        return [(st, None, v)]
    p, before = v[1][-1], v[1][:-1]
    if p[0] == "k":
        return [(st, ("ch", ord(p[1][-1])), ("str", before + ((("k", p[1][:-1]),) if len(p[1]) > 1 else ())))]
    if p[0] == "c":
        return [(st, p[1], ("str", before))]
    if p[0] != "sl":
        raise Unsupported("last char of %s" % showp(p))
    _, base, lo, hi = p
    out = []
    for s, b in I.decide(st, ("ge0", hi - lo - L(1))):
        if not b:
            out += str_last(I, s, ("str", before))
            continue
        t = L(("lpos", base, s.norm(hi), s.norm(lo), 0))
        try:
            s = s.copy()
            s.refine(base, hi, t, ANYCHAR)
            w = s.width(base, hi, t)
            s.assume_eq0(hi - t - w)
        except Infeasible:
            continue
        sg = s.charat(base, hi, t).single()
        out.append((s, ("ch", sg) if sg is not None else ("chs", ("at", base, hi, t)), ("str", before + (("sl", base, lo, t),))))
    return out


@model("std::string::String::pop")
def m_pop(I, st, f, a, site):
    ad, x = str_place(I, st, a[0])
    outs = []
    for s, ch, rest in str_last(I, st, x):
        I.write(s, ad, rest)
        outs.append(ret(s, NONE if ch is None else some(ch)))
    return outs


def iter_prev(I, st, it, site):
    k = it[0]
    if k == "seq":
        return I.seq_pop_back(st, it)
    if k == "sref":
        out = []
        for s, b in I.decide(st, ("ge0", it[4] - it[3] - L(1))):
            if b:
                out.append((s, ("ref", it[1], it[2] + (("e", s.norm(it[4] - L(1))),)), ("sref", it[1], it[2], it[3], s.norm(it[4] - L(1)), it[5])))
            else:
                out.append((s, None, it))
        return out
    if k == "adt" and it[1] == "std::ops::Range":
        lo, hi = it[3]
        out = []
        for s, b in I.decide(st, ("ge0", hi - lo - L(1))):
            out.append((s, s.norm(hi - L(1)), ("adt", it[1], 0, (lo, s.norm(hi - L(1))))) if b else (s, None, it))
        return out
    if k == "adt" and it[1] == "std::ops::RangeInclusive":
        lo, hi = it[3][0], it[3][1]
        out = []
        for s, b in I.decide(st, ("ge0", hi - lo)):
            out.append((s, hi, ("adt", it[1], 0, (lo, s.norm(hi - L(1))) + it[3][2:])) if b else (s, None, it))
        return out
    if k == "it":
        kind = it[1]
        if kind == "chars":
            return [(s, ch, ("it", kind, rest)) for s, ch, rest in str_last(I, st, it[2])]
        if kind == "split1" and (it[2] is None or it[3].single() is not None):
            if it[2] is None:
                return [(st, None, it)]
            out = []
            c = ("ch", it[3].single())
            for o in m_rfind(I, st, None, [it[2], c], site):
                if o.kind != "ret":
                    I.pending.append(o)
                elif o.v == NONE:
                    out.append((o.st, it[2], ("it", kind, None, it[3])))
                else:
                    x = split_bytes(I, o.st, it[2], o.v[3][0])
                    y = x and split_bytes(I, o.st, x[1], L(len(chr(c[1]).encode())))
                    if not y:
                        raise Unsupported("split of %s" % showv(it[2]))
                    out.append((o.st, y[1], ("it", kind, x[0], it[3])))
            return out
        if kind == "map":
            out = []
            for s, e, i2 in iter_prev(I, st, it[2], site):
                if e is None:
                    out.append((s, None, ("it", kind, i2, it[3])))
                else:
                    for s2, r, fv in call_mut(I, s, it[3], [e], site):
                        out.append((s2, r, ("it", kind, i2, fv)))
            return out
        if kind == "rev":
            return [(s, e, ("it", kind, i2)) for s, e, i2 in iter_next(I, st, it[2], site)]
        if kind == "enumerate":
            out = []
            n = iter_len(I, st, it[2])
            for s, e, i2 in iter_prev(I, st, it[2], site):
                out.append((s, None if e is None else ("tup", (s.norm(it[3] + n - L(1)), e)), ("it", kind, i2, it[3])))
            return out
    raise Unsupported("next_back on %s" % showv(it))


def iter_len(I, st, it):
    if it[0] == "seq":
        return I.seq_len(it)
    if it[0] == "sref":
        return it[4] - it[3]
    if it[0] == "it" and it[1] in ("map", "enumerate", "rev", "cloned", "copied"):
        return iter_len(I, st, it[2])
    raise Unsupported("length of %s" % showv(it))


def call_mut(I, st, fv, args, site):
    """Call a function value held by an adapter: [(state, result, function value afterwards)]."""
    cell = None
    target = fv
    if fv[0] == "clo":
        cell = I.new_cell(st, fv)
        target = ("ref", cell, ())
    out = []
    for o in I.call_value(st, target, args, site):
        if o.kind != "ret":
            I.pending.append(o)
            continue
        out.append((o.st, o.v, o.st.store[cell] if cell is not None else fv))
    return out


def flush(I, outs):
    outs = outs + I.pending
    I.pending = []
    return outs


def iter_model(paths):
    def deco(fn):
        def w(I, st, f, a, site):
            saved, I.pending = I.pending, []
            try:
                outs = fn(I, st, f, a, site)
                if outs is None:
                    return None
                return flush(I, outs)
            finally:
                I.pending = saved
        for p in paths:
            MODELS[p] = w
        return w
    return deco


def next_model(I, st, f, a, site):
    ad = place_iter(I, st, a[0])
    it = I.read(st, ad)
    outs = []
    for s, e, i2 in iter_next(I, st, it, site):
        I.write(s, ad, i2)
        outs.append(ret(s, NONE if e is None else some(e)))
    return outs


def place_iter(I, st, v):
    ad = mutref(I, v, "iterator")
    while True:
        x = I.read(st, ad)
        if isinstance(x, tuple) and x[0] in ("ref", "box"):
            ad = mutref(I, x, "iterator")
        else:
            return ad


NEXTS = ["<std::str::Chars<'a> as std::iter::Iterator>::next", "<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next",
         "<std::vec::IntoIter<T, A> as std::iter::Iterator>::next", "<std::iter::Enumerate<I> as std::iter::Iterator>::next", "<std::iter::Map<I, F> as std::iter::Iterator>::next",
         "<std::iter::Rev<I> as std::iter::Iterator>::next", "<std::str::Lines<'a> as std::iter::Iterator>::next", "<std::iter::Chain<A, B> as std::iter::Iterator>::next",
         "<std::str::CharIndices<'a> as std::iter::Iterator>::next", "<std::iter::Zip<A, B> as std::iter::Iterator>::next", "<std::iter::Skip<I> as std::iter::Iterator>::next",
         "<std::iter::Take<I> as std::iter::Iterator>::next", "<std::iter::Filter<I, P> as std::iter::Iterator>::next", "<std::iter::FilterMap<B, I, F> as std::iter::Iterator>::next",
         "<std::iter::Flatten<I> as std::iter::Iterator>::next", "<std::iter::FlatMap<I, U, F> as std::iter::Iterator>::next", "<std::iter::Cloned<I> as std::iter::Iterator>::next",
         "<std::iter::Copied<I> as std::iter::Iterator>::next", "<std::str::SplitAsciiWhitespace<'a> as std::iter::Iterator>::next", "<std::str::SplitWhitespace<'a> as std::iter::Iterator>::next",
         "<std::str::Split<'a, P> as std::iter::Iterator>::next", "<std::array::IntoIter<T, N> as std::iter::Iterator>::next", "<std::iter::Filter<I, P> as std::iter::Iterator>::next",
         "<std::iter::Once<T> as std::iter::Iterator>::next", "<std::iter::TakeWhile<I, P> as std::iter::Iterator>::next", "<std::iter::MapWhile<I, P> as std::iter::Iterator>::next",
         "<std::str::Bytes<'_> as std::iter::Iterator>::next", "core::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next", "std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next",
         "core::iter::range::<impl std::iter::Iterator for std::ops::RangeInclusive<A>>::next", "<std::option::IntoIter<A> as std::iter::Iterator>::next",
         "<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::iter::Peekable<I> as std::iter::Iterator>::next", "<std::iter::SkipWhile<I, P> as std::iter::Iterator>::next",
         "<std::vec::Drain<'_, T, A> as std::iter::Iterator>::next",
         "<std::str::RSplit<'a, P> as std::iter::Iterator>::next", "<std::str::SplitTerminator<'a, P> as std::iter::Iterator>::next"]
iter_model(NEXTS)(next_model)


@iter_model(["<std::str::Split<'a, P> as std::iter::DoubleEndedIterator>::next_back", "<std::str::Chars<'a> as std::iter::DoubleEndedIterator>::next_back",
             "<std::iter::Rev<I> as std::iter::DoubleEndedIterator>::next_back", "<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back", "<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back",
             "core::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back", "<std::iter::Map<I, F> as std::iter::DoubleEndedIterator>::next_back"])
def m_next_back(I, st, f, a, site):
    ad = place_iter(I, st, a[0])
    outs = []
    for s, e, i2 in iter_prev(I, st, I.read(st, ad), site):
        I.write(s, ad, i2)
        outs.append(ret(s, NONE if e is None else some(e)))
    return outs


def adapter(kind):
    def m(I, st, f, a, site):
        return [ret(st, ("it", kind) + tuple(a))]
    return m


for _k in ("map", "filter", "filter_map", "chain", "zip", "skip", "take", "take_while", "map_while", "inspect", "skip_while"):
    MODELS["std::iter::Iterator::" + _k] = adapter(_k)
for _k in ("rev", "cloned", "copied"):
    MODELS["std::iter::Iterator::" + _k] = adapter(_k)
MODELS["std::iter::Iterator::enumerate"] = lambda I, st, f, a, site: [ret(st, ("it", "enumerate", a[0], L(0)))]
MODELS["std::iter::Iterator::flatten"] = lambda I, st, f, a, site: [ret(st, ("it", "flatten", a[0], None))]
MODELS["std::iter::Iterator::flat_map"] = lambda I, st, f, a, site: [ret(st, ("it", "flatten", ("it", "map", a[0], a[1]), None))]
MODELS["std::iter::Iterator::peekable"] = lambda I, st, f, a, site: [ret(st, ("adt", "std::iter::Peekable", 0, (a[0], NONE)))]
MODELS["std::iter::Iterator::by_ref"] = lambda I, st, f, a, site: [ret(st, a[0])]
MODELS["std::iter::Iterator::fuse"] = lambda I, st, f, a, site: [ret(st, a[0])]
MODELS["std::iter::once"] = lambda I, st, f, a, site: [ret(st, ("it", "once", a[0]))]
MODELS["std::iter::empty"] = lambda I, st, f, a, site: [ret(st, ("it", "empty"))]


@model("core::str::<impl str>::split", "core::str::<impl str>::rsplit", "core::str::<impl str>::split_terminator")
def m_split(I, st, f, a, site):
    pat = rd_pat(I, st, a[1])
    cc = pred_class(I, st, pat, site) if pat[0] != "str" else (CC.chars(const_of(pat)) if const_of(pat) and len(const_of(pat)) == 1 else None)
    if cc is None:
        return [ret(st, ("it", "unknown", sval(I, st, a[0])))]
    if f["path"].endswith("terminator"):
        return [ret(st, ("it", "splitterm1", sval(I, st, a[0]), cc))]
    it = ("it", "split1", sval(I, st, a[0]), cc)
    return [ret(st, ("it", "rev", it) if f["path"].endswith("rsplit") else it)]


def native_loop(I, st, it, body, done, site, extra=UNIT):
    """for e in it { body } ; done.   body(s, e) -> list of (state, 'next'|value) ; extra is a mutable cell value."""
    byref = it[0] == "ref"
    cell = I.new_cell(st, it)
    acc = I.new_cell(st, extra)

    def step(s, discover):
        conts, rest = [], []
        cur = s.store[cell]
        for s1, e, i2 in iter_next(I, s, cur, site):
            s1.store[cell] = i2
            if e is None:
                rest += done(s1, acc)
                continue
            for r in body(s1, e, acc):
                if r[1] == "next":
                    conts.append(Outcome("back", r[0]))
                else:
                    rest.append(ret(r[0], r[1]))
        return conts, rest
    return I.loop_fix(st, step, site[:2])


ITM = "std::iter::Iterator::"


def consumer(name):
    ps = [ITM + name, "<std::slice::Iter<'a, T> as std::iter::Iterator>::" + name, "<std::iter::Rev<I> as std::iter::Iterator>::" + name, "<std::iter::Map<I, F> as std::iter::Iterator>::" + name,
          "<std::str::Chars<'a> as std::iter::Iterator>::" + name, "<std::iter::Enumerate<I> as std::iter::Iterator>::" + name, "<std::iter::Chain<A, B> as std::iter::Iterator>::" + name,
          "<std::vec::IntoIter<T, A> as std::iter::Iterator>::" + name, "<std::str::CharIndices<'a> as std::iter::Iterator>::" + name, "<std::iter::Peekable<I> as std::iter::Iterator>::" + name,
          "<std::iter::Filter<I, P> as std::iter::Iterator>::" + name, "<std::iter::FilterMap<B, I, F> as std::iter::Iterator>::" + name, "<std::iter::Zip<A, B> as std::iter::Iterator>::" + name,
          "<std::iter::Flatten<I> as std::iter::Iterator>::" + name, "<std::str::SplitAsciiWhitespace<'a> as std::iter::Iterator>::" + name, "<std::iter::Skip<I> as std::iter::Iterator>::" + name,
          "<std::str::Bytes<'_> as std::iter::Iterator>::" + name, "<std::iter::Cloned<I> as std::iter::Iterator>::" + name, "<std::iter::Copied<I> as std::iter::Iterator>::" + name]
    return iter_model(ps)


def bytewise(I, st, it):
    """Bytes, where it only matters which ASCII characters there are and that there are others."""
    if it[0] == "ref":
        x = rd(I, st, it)
        if isinstance(x, tuple) and x[0] == "it" and x[1] == "bytes":
            # where it stops is not kept
            I.write(st, mutref(I, it, "iter"), ("it", "unknown", x[2]))
            return ("it", "bytesof", x[2])
    return ("it", "bytesof", it[2]) if it[0] == "it" and it[1] == "bytes" else it


def it_arg(I, st, v):
    """Iterator behind &mut self."""
    return v


def fcell(I, st, fv):
    if fv[0] == "clo":
        return ("ref", I.new_cell(st, fv), ())
    return fv


def calls(I, s, fr, args, site):
    out = []
    for o in I.call_value(s, fr, args, site):
        if o.kind != "ret":
            I.pending.append(o)
        else:
            out.append((o.st, o.v))
    return out


@model("std::char::methods::<impl char>::to_lowercase", "core::char::methods::<impl char>::to_lowercase", "std::char::methods::<impl char>::to_uppercase",
       "core::char::methods::<impl char>::to_uppercase")
def m_char_case(I, st, f, a, site):
    return [ret(st, ("it", "cased", "lowers" if "lower" in f["path"].rsplit("::", 1)[1] else "uppers", rd(I, st, a[0])))]


def one_char(v):
    """The only element of an iterable over one character."""
    if v[0] == "adt" and v[1] == OPT and v[2] == 1:
        return v[3][0]
    if v[0] == "it" and v[1] == "once":
        return v[2]
    return None


@model("std::iter::Iterator::eq", "std::iter::Iterator::ne")
def m_iter_eq(I, st, f, a, site):
    x, y = a
    if not (x[0] == "it" and x[1] == "cased"):
        x, y = y, x
    # a character compared with its own lowercase or uppercase form
    if x[0] == "it" and x[1] == "cased" and one_char(y) == x[3]:
        neg = f["path"].endswith("eq")
        return [ret(s, b != neg) for s, b in I.decide_cls(st, x[3], CC.pred(x[2]))]
    raise Unsupported("comparison of iterators")


@consumer("all")
def m_all(I, st, f, a, site):
    fr = fcell(I, st, a[1])

    def body(s, e, acc):
        out = []
        for s2, r in calls(I, s, fr, [e], site):
            out += [(s3, "next" if b else False) for s3, b in I.decide(s2, r)]
        return out
    return native_loop(I, st, bytewise(I, st, a[0]), body, lambda s, acc: [ret(s, True)], site)


@consumer("any")
def m_any(I, st, f, a, site):
    fr = fcell(I, st, a[1])

    def body(s, e, acc):
        out = []
        for s2, r in calls(I, s, fr, [e], site):
            out += [(s3, True if b else "next") for s3, b in I.decide(s2, r)]
        return out
    return native_loop(I, st, bytewise(I, st, a[0]), body, lambda s, acc: [ret(s, False)], site)


@consumer("find")
def m_ifind(I, st, f, a, site):
    fr = fcell(I, st, a[1])

    def body(s, e, acc):
        out = []
        c = ("ref", I.new_cell(s, e), ())
        for s2, r in calls(I, s, fr, [c], site):
            out += [(s3, some(e) if b else "next") for s3, b in I.decide(s2, r)]
        return out
    return native_loop(I, st, a[0], body, lambda s, acc: [ret(s, NONE)], site)


@consumer("find_map")
def m_find_map(I, st, f, a, site):
    fr = fcell(I, st, a[1])

    def body(s, e, acc):
        out = []
        for s2, r in calls(I, s, fr, [e], site):
            out += [(s3, rv if rv[2] == 1 else "next") for s3, rv in I.variant_cases(s2, r)]
        return out
    return native_loop(I, st, a[0], body, lambda s, acc: [ret(s, NONE)], site)


@consumer("position")
def m_position(I, st, f, a, site):
    fr = fcell(I, st, a[1])

    def body(s, e, acc):
        out = []
        n = s.store[acc]
        for s2, r in calls(I, s, fr, [e], site):
            for s3, b in I.decide(s2, r):
                if b:
                    out.append((s3, some(n)))
                else:
                    s3.store[acc] = n + L(1)
                    out.append((s3, "next"))
        return out
    return native_loop(I, st, a[0], body, lambda s, acc: [ret(s, NONE)], site, L(0))


def ccount(I, st, v, cc):
    """How many characters of a class a text has."""
    c = const_of(v)
    if c is not None:
        return L(sum(not (CC.chars(x) & cc).empty() for x in c))
    t = L(("ccount", I.simplify_str(st, v), cc.noeof()))
    st.lins = st.lins + (t, I.str_len(st, v) - t)
    st.proved = {}
    return t


@model("core::str::<impl str>::matches")
def m_matches(I, st, f, a, site):
    pat = rd_pat(I, st, a[1])
    cc = pred_class(I, st, pat, site) if pat[0] != "str" else (CC.chars(const_of(pat)) if const_of(pat) and len(const_of(pat)) == 1 else None)
    if cc is None:
        raise Unsupported("matches of %s" % showv(pat))
    return [ret(st, ("it", "matches1", sval(I, st, a[0]), cc))]


@model("core::str::<impl str>::split_once", "core::str::<impl str>::rsplit_once")
def m_split_once(I, st, f, a, site):
    v = sval(I, st, a[0])
    pat = rd_pat(I, st, a[1])
    n = None
    if pat[0] == "str":
        n = I.str_len(st, pat)
    elif pat[0] == "ch":
        n = L(len(chr(pat[1]).encode()))
    else:
        cc = pred_class(I, st, pat, site)
        if cc is not None and cc.ascii_only():
            n = L(1)
    if n is None:
        raise Unsupported("length of what %s finds" % showv(pat))
    outs = []
    for o in (m_rfind if "rsplit" in f["path"] else m_find)(I, st, f, a, site):
        if o.kind != "ret" or o.v == NONE:
            outs.append(o)
            continue
        p = o.v[3][0]
        x = split_bytes(I, o.st, v, p)
        y = x and split_bytes(I, o.st, x[1], n)
        if not y:
            raise Unsupported("split of %s" % showv(v))
        outs.append(ret(o.st, some(("tup", (x[0], y[1])))))
    return outs


@consumer("count")
def m_count(I, st, f, a, site):
    it = a[0]
    if it[0] == "it" and it[1] == "bytes":
        return [ret(st, I.str_len(st, it[2]))]
    if it[0] == "it" and it[1] in ("chars", "char_indices"):
        c = const_of(it[2])
        if c is not None:
            return [ret(st, L(len(c)))]
        t = ("nchars", I.simplify_str(st, it[2]))
        ln = I.str_len(st, it[2])
        st.lins = st.lins + (ln - L(t),)
        st.proved = {}
        return [ret(st, L(t))]
    if it[0] == "it" and it[1] in ("split1", "matches1"):
        return [ret(st, ccount(I, st, it[2], it[3]) + L(1 if it[1] == "split1" else 0))]
    if it[0] == "it" and it[1] == "filter" and it[2][0] == "it" and it[2][1] in ("chars", "bytes"):
        byte = it[2][1] == "bytes"
        cc = None
        try:
            cc = pred_class(I, st.copy(), it[3], site, byte)
        except Unsupported:
            pass
        if cc is not None and (not byte or cc.ascii_only()):
            return [ret(st, ccount(I, st, it[2][2], cc))]

    def body(s, e, acc):
        s.store[acc] = s.store[acc] + L(1)
        return [(s, "next")]
    return native_loop(I, st, it, body, lambda s, acc: [ret(s, s.store[acc])], site, L(0))


@consumer("for_each")
def m_for_each(I, st, f, a, site):
    fr = fcell(I, st, a[1])

    def body(s, e, acc):
        return [(s2, "next") for s2, r in calls(I, s, fr, [e], site)]
    return native_loop(I, st, a[0], body, lambda s, acc: [ret(s, UNIT)], site)


@consumer("try_for_each")
def m_try_for_each(I, st, f, a, site):
    fr = fcell(I, st, a[1])

    def body(s, e, acc):
        out = []
        for s2, r in calls(I, s, fr, [e], site):
            for s3, rv in I.variant_cases(s2, r):
                good = rv[2] == (0 if rv[1] in (RES, CF) else 1)
                out.append((s3, "next" if good else rv))
        return out
    t = dest_ty(site)

    def done(s, acc):
        p = I.T[t]["path"] if t is not None and I.T[t]["k"] == "adt" else RES
        return [ret(s, some(UNIT) if p == OPT else ("adt", p, 0, (UNIT,)))]
    return native_loop(I, st, a[0], body, done, site)


@consumer("fold")
def m_fold(I, st, f, a, site):
    fr = fcell(I, st, a[2])

    def body(s, e, acc):
        out = []
        for s2, r in calls(I, s, fr, [s.store[acc], e], site):
            s2.store[acc] = r
            out.append((s2, "next"))
        return out
    return native_loop(I, st, a[0], body, lambda s, acc: [ret(s, s.store[acc])], site, a[1])


@consumer("try_fold")
def m_try_fold(I, st, f, a, site):
    fr = fcell(I, st, a[2])
    t = dest_ty(site)
    p = I.T[t]["path"] if t is not None and I.T[t]["k"] == "adt" else RES

    def body(s, e, acc):
        out = []
        for s2, r in calls(I, s, fr, [s.store[acc], e], site):
            for s3, rv in I.variant_cases(s2, r):
                good = rv[2] == (0 if rv[1] in (RES, CF) else 1)
                if good:
                    s3.store[acc] = rv[3][0]
                    out.append((s3, "next"))
                else:
                    out.append((s3, rv))
        return out

    def done(s, acc):
        return [ret(s, ("adt", p, 1 if p == OPT else 0, (s.store[acc],)))]
    return native_loop(I, st, a[0], body, done, site, a[1])


@consumer("last")
def m_ilast(I, st, f, a, site):
    def body(s, e, acc):
        s.store[acc] = some(e)
        return [(s, "next")]
    return native_loop(I, st, a[0], body, lambda s, acc: [ret(s, s.store[acc])], site, NONE)


@consumer("max")
def m_imax(I, st, f, a, site):
    return [ret(st, I.mk(("max", freeze(I, st, a[0])), dest_ty(site)))]


def nth_of(I, st, it, n, site):
    """[(state, nth element or None, iterator after it)] for iterators over the characters of one slice; None if not of that form."""
    if not (isinstance(it, tuple) and it[0] == "it"):
        return None
    if it[1] == "map":
        r = nth_of(I, st, it[2], n, site)
        if r is None:
            return None
        out = []
        for s, e, i2 in r:
            if e is None:
                out.append((s, None, ("it", "map", i2, it[3])))
            else:
                for s2, v, fv in call_mut(I, s, it[3], [e], site):
                    out.append((s2, v, ("it", "map", i2, fv)))
        return out
    if it[1] not in ("chars", "char_indices") or len(it[2][1]) != 1 or it[2][1][0][0] != "sl":
        return None
    _, base, lo, hi = it[2][1][0]
    lo, hi, n = st.norm(lo), st.norm(hi), st.norm(n)
    key = ckey(I, st, ("hascpos", base, hi, lo, n))
    t = ("cpos",) + key[1:]
    out = []
    for s, b in I.decide(st, ("b", key)):
        if not b:
            s = s.copy()
            out.append((s, None, ("it", it[1], ("str", ()), it[3]) if it[1] == "char_indices" else ("it", "chars", ("str", ()))))
            continue
        try:
            s.assume_ge0(hi - lo - n - L(1))
            s.refine(base, hi, L(t), ANYCHAR)
        except Infeasible:
            continue
        for s2, ch, rest in I.str_first(s, ("str", (("sl", base, L(t), hi),))):
            if ch is None:
                continue
            if it[1] == "chars":
                out.append((s2, ch, ("it", "chars", rest)))
            else:
                out.append((s2, ("tup", (s2.norm(it[3] - (hi - L(t))), ch)), ("it", "char_indices", rest, it[3])))
    return out


@consumer("nth")
def m_nth(I, st, f, a, site):
    n = a[1].const
    if n is None or n > 4:
        ad = place_iter(I, st, a[0])
        r = nth_of(I, st, I.read(st, ad), a[1], site)
        if r is not None:
            outs = []
            for s, e, i2 in r:
                I.write(s, ad, i2)
                outs.append(ret(s, NONE if e is None else some(e)))
            return outs
    if n is None or n > 40:
        it = rd(I, st, a[0])
        return [ret(st, I.mk(("nth", freeze(I, st, it), a[1]), dest_ty(site)))]
    ad = place_iter(I, st, a[0])
    cur = [st]
    outs = []
    for i in range(n + 1):
        nxt = []
        for s in cur:
            for s2, e, i2 in iter_next(I, s, I.read(s, ad), site):
                I.write(s2, ad, i2)
                if e is None:
                    outs.append(ret(s2, NONE))
                elif i == n:
                    outs.append(ret(s2, some(e)))
                else:
                    nxt.append(s2)
        cur = nxt
    return outs


@consumer("size_hint")
def m_size_hint(I, st, f, a, site):
    it = rd(I, st, a[0])
    if it[0] in ("seq", "sref") or it[0] == "it" and it[1] in ("map", "enumerate", "rev", "cloned", "copied"):
        n = iter_len(I, st, it)
        return [ret(st, ("tup", (n, some(n))))]
    if it[0] == "it" and it[1] == "chars":
        n = I.str_len(st, it[2])
        # documented: ceil(bytes / 4) .. bytes
        lo = L(("charslo", I.simplify_str(st, it[2])))
        return [ret(st, ("tup", (lo, some(n))))]
    return None


EVENT_ITER = "sgmlish::parser::events::EventIter"


def event_ty(I):
    """Type number of the one item type unknown iterators of the crate have."""
    t = getattr(I, "_event_ty", None)
    if t is None:
        t = I._event_ty = next((i for i, x in enumerate(I.T) if x["k"] == "adt" and x["path"] == "sgmlish::SgmlEvent"), None)
    return t


def sym_seq(I, T):
    return ("seq", (("s", T, event_ty(I), L(0), L(("len", T))),))


def drain_segs(I, st, it, site):
    """[(state, segments)] an iterator yields when run to its end, without stepping through symbolic runs; None if it has
    to be stepped through."""
    if not isinstance(it, tuple) or not it:
        return None
    k = it[0]
    if k == "seq":
        return [(st, it[1])]
    if k == "sym":
        ty = I.T[it[2]] if it[2] is not None else None
        if ty is not None and ty["k"] == "adt" and (ty["kind"] == "enum" or ty["path"].startswith("sgmlish")):
            if ty["path"] == EVENT_ITER:
                return [(st, (("s", ("evs", it[1]), event_ty(I), L(0), L(("len", ("evs", it[1])))),))]
            if ty["path"] != OPT:
                return None
            out = []
            for s, v in I.variant_cases(st, it):
                out.append((s, (("v", v[3][0]),) if v[2] == 1 else ()))
            return out
        return [(st, sym_seq(I, it[1])[1])]
    if k == "adt":
        if it[1] == EVENT_ITER:
            t = I.own_term(it)
            if t is not None:
                return [(st, (("s", ("evs", t), event_ty(I), L(0), L(("len", ("evs", t)))),))]
            f = dict(zip([n for n, _ in I.adt_ty(EVENT_ITER)["v"][0]["f"]], it[3]))
            if set(f) != {"start", "middle", "end", "middle_next"} or f["middle_next"].const != 0 or f["middle"][0] != "seq":
                return None
            out = []
            for s, a in I.variant_cases(st, f["start"]):
                for s2, b in I.variant_cases(s, f["end"]):
                    out.append((s2, ((("v", a[3][0]),) if a[2] == 1 else ()) + f["middle"][1] + ((("v", b[3][0]),) if b[2] == 1 else ())))
            return out
        if it[1] == OPT:
            return [(st, (("v", it[3][0]),) if it[2] == 1 else ())]
        return None
    if k != "it":
        return None
    kind = it[1]
    if kind == "empty":
        return [(st, ())]
    if kind == "once":
        return [(st, (("v", it[2]),))]
    if kind == "chain":
        parts = [x for x in (it[2], it[3]) if x is not None]
        return drain_parts(I, st, parts, site)
    if kind == "flatten":
        inner = drain_segs(I, st, it[2], site) if it[2][0] in ("seq", "it") else None
        if inner is None:
            return None
        out = []
        for s, segs in inner:
            if any(x[0] != "v" for x in segs):
                return None
            r = drain_parts(I, s, ([it[3]] if it[3] is not None else []) + [x[1] for x in segs], site)
            if r is None:
                return None
            out += r
        return out
    return None


def drain_parts(I, st, parts, site):
    acc = [(st, ())]
    for x in parts:
        nxt = []
        for s, segs in acc:
            r = drain_segs(I, s, x, site)
            if r is None:
                return None
            nxt += [(s2, segs + more) for s2, more in r]
        acc = nxt
    return acc


def drained(I, st, it, site):
    if I.peel is None or not hasattr(I, "own_term"):
        return None
    if it[0] == "seq":
        return None
    return drain_segs(I, st, it, site)


def collect_into(I, st, it, t, site):
    ty = I.T[t]
    if ty["k"] == "adt" and ty["path"] == "std::vec::Vec":
        r = drained(I, st, it, site)
        if r is not None:
            return [ret(s, ("seq", segs)) for s, segs in r]
    if ty["k"] == "adt":
        p = ty["path"]
        if p == "std::vec::Vec" or p == "std::collections::VecDeque":
            def body(s, e, acc):
                s.store[acc] = ("seq", s.store[acc][1] + (("v", e),))
                return [(s, "next")]
            if it[0] == "seq":
                return [ret(st, it)]
            I.collect_ty = ty["args"][0]
            return native_loop_typed(I, st, it, body, lambda s, acc: [ret(s, s.store[acc])], site, ("seq", ()), t)
        if p == "std::string::String":
            if it[0] == "it" and it[1] == "flatten" and it[3] is None:
                # case mapping one character at a time
                def mapped(s, e, acc):
                    if e[0] != "it" or e[1] != "cased":
                        raise Unsupported("flatten into a text")
                    name = "lowercase" if e[2] == "lowers" else "uppercase"
                    s.store[acc] = cat(s.store[acc], ("str", (("x", (name, I.simplify_str(s, ("str", (("c", e[3]),))))),)), s)
                    return [(s, "next")]
                try:
                    return native_loop(I, st.copy(), it[2], mapped, lambda s, acc: [ret(s, s.store[acc])], site, EMPTY)
                except Unsupported:
                    pass

            def body(s, e, acc):
                s.store[acc] = cat(s.store[acc], sval(I, s, e), s)
                return [(s, "next")]
            return native_loop(I, st, it, body, lambda s, acc: [ret(s, s.store[acc])], site, EMPTY)
        if p == RES or p == OPT:
            inner = ty["args"][0]

            def body(s, e, acc):
                out = []
                for s2, ev in I.variant_cases(s, e):
                    good = ev[2] == (0 if p == RES else 1)
                    if good:
                        s2.store[acc] = ("seq", s2.store[acc][1] + (("v", ev[3][0]),))
                        out.append((s2, "next"))
                    else:
                        out.append((s2, ev))
                return out

            def done(s, acc):
                res = []
                for o in collect_into(I, s, s.store[acc], inner, site):
                    if o.kind == "ret":
                        o = ret(o.st, ("adt", p, 0 if p == RES else 1, (o.v,)))
                    res.append(o)
                return res
            return native_loop_typed(I, st, it, body, done, site, ("seq", ()), None, elem_ok(I, inner))
        b = I.find_impl("std::iter::FromIterator", "from_iter", p)
        if b is not None:
            return I.run_body(st, b, [it])
        if p == "std::boxed::Box":
            return collect_into(I, st, it, ty["args"][0], site)
    if ty["k"] == "tuple" and not ty["f"]:
        return native_loop(I, st, it, lambda s, e, acc: [(s, "next")], lambda s, acc: [ret(s, UNIT)], site)
    raise Unsupported("collect into %s" % ty["s"])


def elem_ok(I, t):
    ty = I.T[t]
    if ty["k"] == "adt" and ty["path"] == "std::vec::Vec":
        return ty["args"][0]
    return None


def native_loop_typed(I, st, it, body, done, site, extra, t, et=None):
    cell0 = I.new_cell(st, extra, t)
    # give the accumulator cell a type so that widening can build a typed symbolic segment
    cell = I.new_cell(st, it)

    def step(s, discover):
        conts, rest = [], []
        cur = s.store[cell]
        for s1, e, i2 in iter_next(I, s, cur, site):
            s1.store[cell] = i2
            if e is None:
                rest += done(s1, cell0)
                continue
            for r in body(s1, e, cell0):
                if r[1] == "next":
                    conts.append(Outcome("back", r[0]))
                else:
                    rest.append(ret(r[0], r[1]))
        return conts, rest
    if et is not None:
        I.seq_elem_ty[cell0] = et
    return I.loop_fix(st, step, site[:2])


@consumer("collect")
def m_collect(I, st, f, a, site):
    return collect_into(I, st, a[0], f["args"][-1], site)


@iter_model(["<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter", "<std::string::String as std::iter::FromIterator<char>>::from_iter"])
def m_from_iter(I, st, f, a, site):
    return collect_into(I, st, a[0], dest_ty(site), site)


@iter_model(["<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend"])
def m_extend(I, st, f, a, site):
    ad, x = seq_at(I, st, a[0])
    it = a[1]
    if it[0] == "seq":
        I.write(st, ad, ("seq", x[1] + it[1]))
        return [ret(st, UNIT)]
    if it[0] == "sref":
        return None
    r = drained(I, st, it, site)
    if r is not None:
        outs = []
        for s, segs in r:
            s = s.copy()
            I.write(s, ad, ("seq", x[1] + segs))
            outs.append(ret(s, UNIT))
        return outs

    def body(s, e, acc):
        cur = I.read(s, ad)
        I.write(s, ad, ("seq", cur[1] + (("v", e),)))
        return [(s, "next")]
    return native_loop(I, st, it, body, lambda s, acc: [ret(s, UNIT)], site)


@iter_model(["<std::string::String as std::iter::Extend<char>>::extend", "<std::string::String as std::iter::Extend<&'a str>>::extend", "<std::string::String as std::iter::Extend<std::string::String>>::extend"])
def m_sextend(I, st, f, a, site):
    ad, x = str_place(I, st, a[0])

    def body(s, e, acc):
        I.write(s, ad, cat(I.read(s, ad), sval(I, s, e), s))
        return [(s, "next")]
    return native_loop(I, st, a[1], body, lambda s, acc: [ret(s, UNIT)], site)


@iter_model(["std::iter::Peekable::<I>::peek", "std::iter::Peekable::<I>::peek_mut"])
def m_peek(I, st, f, a, site):
    ad = place_iter(I, st, a[0])
    it = I.read(st, ad)
    if it[0] != "adt":
        return None
    inner, peeked = it[3]
    if peeked == NONE or (peeked[0] == "adt" and peeked[2] == 0):
        outs = []
        for s, e, i2 in iter_next(I, st, inner, site):
            I.write(s, ad, ("adt", it[1], 0, (i2, some(NONE if e is None else some(e)))))
            outs.append(ret(s, NONE if e is None else some(("ref", ad[0], ad[1] + (1, ("vf", 1, 0), ("vf", 1, 0))))))
        return outs
    if peeked[0] == "adt":
        outs = []
        for s, v in I.variant_cases(st, peeked[3][0]):
            outs.append(ret(s, NONE if v[2] == 0 else some(("ref", ad[0], ad[1] + (1, ("vf", 1, 0), ("vf", 1, 0))))))
        return outs
    return None


# ------------------------------------------------------------------ formatting
def fmt_decode(I, st, tmpl, args):
    v = rd(I, st, tmpl)
    if v[0] == "sref":
        v = I.get(st, I.cell_value(st, v[1]), v[2])
    bs = []
    for s in v[1]:
        if s[0] != "v" or not isinstance(s[1], Lin) or s[1].const is None:
            raise Unsupported("format template")
        bs.append(s[1].const)
    av = rd(I, st, args)
    if av[0] == "sref":
        av = I.get(st, I.cell_value(st, av[1]), av[2])
    argv = [s[1] for s in av[1]]
    out = []
    i = 0
    idx = 0
    while i < len(bs):
        n = bs[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(("k", bytes(bs[i:i + n]).decode()))
            i += n
        elif n == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(("k", bytes(bs[i:i + ln]).decode()))
            i += ln
        else:
            opts = ()
            if n & 1:
                opts += (("flags", bs[i] | bs[i + 1] << 8 | bs[i + 2] << 16 | bs[i + 3] << 24),)
                i += 4
            if n & 2:
                opts += (("width", bs[i] | bs[i + 1] << 8, n >> 4 & 3),)
                i += 2
            if n & 4:
                opts += (("prec", bs[i] | bs[i + 1] << 8, n >> 5 & 1),)
                i += 2
            if n & 8:
                idx = bs[i] | bs[i + 1] << 8
                i += 2
            out.append(("fa", argv[idx], opts))
            idx += 1
    return tuple(out)


@model("std::fmt::Arguments::<'a>::new", "core::fmt::rt::<impl std::fmt::Arguments<'_>>::new")
def m_args_new(I, st, f, a, site):
    return [ret(st, ("fmtargs", fmt_decode(I, st, a[0], a[1])))]


@model("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst")
def m_args_str(I, st, f, a, site):
    return [ret(st, ("fmtargs", sval(I, st, a[0])[1]))]


@model("std::char::methods::<impl char>::escape_default", "std::char::methods::<impl char>::escape_debug", "std::char::methods::<impl char>::escape_unicode",
       "core::str::<impl str>::escape_default", "core::str::<impl str>::escape_debug", "core::str::<impl str>::escape_unicode")
def m_escape(I, st, f, a, site):
    return [ret(st, ("sym", ("pure", f["path"], (freeze(I, st, rd(I, st, a[0])),)), None))]


@model("<std::fmt::Arguments<'a> as std::clone::Clone>::clone")
def m_args_clone(I, st, f, a, site):
    return [ret(st, rd(I, st, a[0]))]


@model("core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::from_usize",
       "core::fmt::rt::Argument::<'_>::new_lower_hex", "core::fmt::rt::Argument::<'_>::new_upper_hex")
def m_argument(I, st, f, a, site):
    kind = f["path"].rsplit("::", 1)[1].replace("new_", "")
    ts = [x for x in f.get("iargs") or f.get("args") or [] if isinstance(x, int)]
    return [ret(st, ("fmtarg", kind, ts[-1] if ts else None, a[0]))]


def write_out(I, st, w, s, site):
    """[(state, result)] of writing text s to writer w: an effect, unless w is a local buffer."""
    ad = None
    try:
        ad = place(I, st, w)
    except Unsupported:
        pass
    tgt = I.read(st, ad) if ad is not None else None
    if isinstance(tgt, tuple) and tgt[0] in ("str",):
        I.write(st, ad, cat(tgt, s, st))
        return [(st, ok(UNIT))]
    if isinstance(tgt, tuple) and tgt[0] == "wbuf":
        I.write(st, ad, ("wbuf", cat(tgt[1], s, st)))
        return [(st, ok(UNIT))]
    st = st.copy()
    nm = ad[0] if ad is not None else freeze(I, st, w)
    st.emit("write", nm, I.simplify_str(st, s))
    st.ctr += 1
    t = ("wres", st.ctr)
    out = []
    for i in (0, 1):
        if i == 1 and I.sink_ok:
            break
        s2 = st.copy()
        if i == 1:
            s2.emit("writefail")
            out.append((s2, err(adt("std::fmt::Error", 0))))
        else:
            out.append((s2, ok(UNIT)))
    return out


def write_pieces(I, st, w, pieces, site):
    cur = [st]
    outs = []
    for p in pieces:
        nxt = []
        for s in cur:
            if p[0] != "fa":
                rs = [ret(s2, r) for s2, r in write_out(I, s, w, ("str", (p,)), site)]
            else:
                rs = write_arg(I, s, w, p[1], p[2], site)
            for o in rs:
                if o.kind != "ret":
                    outs.append(o)
                    continue
                for s3, v in I.variant_cases(o.st, o.v):
                    if v[2] == 0:
                        nxt.append(s3)
                    else:
                        outs.append(ret(s3, v))
        cur = nxt
        if len(cur) > 400:
            raise Unsupported("formatting explosion")
    return [ret(s, ok(UNIT)) for s in cur] + outs


def strip_ref_ty(I, t):
    while t is not None and I.T[t]["k"] in ("ref", "ptr"):
        t = I.T[t]["e"]
    return t


def write_arg(I, st, w, arg, opts, site):
    kind, t, v = arg[1], arg[2], arg[3]
    v0 = rd(I, st, v)
    t = strip_ref_ty(I, t)
    ty = I.T[t] if t is not None else None
    if kind == "display" and not opts:
        if isinstance(v0, tuple) and v0[0] in ("str", "cow"):
            return [ret(s, r) for s, r in write_out(I, st, w, sval(I, st, v0), site)]
        if isinstance(v0, tuple) and v0[0] in ("ch", "chs"):
            return [ret(s, r) for s, r in write_out(I, st, w, ("str", (("c", v0),)) if v0[0] != "ch" else kstr(chr(v0[1])), site)]
        if isinstance(v0, tuple) and v0[0] == "fmtargs":
            return write_pieces(I, st, w, v0[1], site)
        if isinstance(v0, Lin) and v0.const is not None:
            return [ret(s, r) for s, r in write_out(I, st, w, kstr(str(v0.const)), site)]
    if ty is not None and ty["k"] == "adt" and ty["path"].startswith("sgmlish") and not opts:
        b = I.find_impl("std::fmt::Display" if kind == "display" else "std::fmt::Debug", "fmt", ty["path"])
        if b is not None and I.has_contract(b["path"]):
            b = None
        if b is not None:
            # innermost reference to the value
            r = v
            while r[0] == "ref":
                x = I.get(st, I.cell_value(st, r[1]), r[2])
                if isinstance(x, tuple) and x[0] in ("ref",):
                    r = x
                else:
                    break
            return I.run_body(st, b, [r, w])
    term = ("fmt", kind, I.fz(st, v0) if hasattr(I, "fz") else freeze(I, st, v0), opts)
    return [ret(s, r) for s, r in write_out(I, st, w, ("str", (("x", term),)), site)]


@model("std::fmt::Formatter::<'a>::write_fmt", "<&mut W as std::fmt::Write>::write_fmt", "std::fmt::Write::write_fmt", "<std::string::String as std::fmt::Write>::write_fmt")
def m_write_fmt(I, st, f, a, site):
    return write_pieces(I, st, a[0], rd(I, st, a[1])[1], site)


@model("std::fmt::Formatter::<'a>::write_str", "std::fmt::Write::write_str", "<&mut W as std::fmt::Write>::write_str", "<std::string::String as std::fmt::Write>::write_str",
       "<std::fmt::Formatter<'_> as std::fmt::Write>::write_str", "std::fmt::Formatter::<'a>::pad")
def m_write_str(I, st, f, a, site):
    return [ret(s, r) for s, r in write_out(I, st, a[0], sval(I, st, a[1]), site)]


@model("<std::fmt::Formatter<'_> as std::fmt::Write>::write_char", "std::fmt::Write::write_char", "<&mut W as std::fmt::Write>::write_char", "<std::string::String as std::fmt::Write>::write_char")
def m_write_char(I, st, f, a, site):
    c = rd(I, st, a[1])
    return [ret(s, r) for s, r in write_out(I, st, a[0], ("str", (("c", c),)) if c[0] != "ch" else kstr(chr(c[1])), site)]


@model("std::fmt::format", "alloc::fmt::format", "std::fmt::format::format_inner")
def m_format(I, st, f, a, site):
    cell = I.new_cell(st, ("wbuf", EMPTY))
    outs = []
    for o in write_pieces(I, st, ("ref", cell, ()), rd(I, st, a[0])[1], site):
        if o.kind == "ret":
            if o.v[2] != 0:
                outs.append(panic(o.st, "a Display implementation returned an error", site, unproved=True))
                continue
            o = ret(o.st, o.st.store[cell][1])
        outs.append(o)
    return outs


@model("<T as std::string::ToString>::to_string", "std::string::ToString::to_string", "<str as std::string::ToString>::to_string", "<str as std::string::SpecToString>::spec_to_string")
def m_to_string(I, st, f, a, site):
    v = rd(I, st, a[0])
    if isinstance(v, tuple) and v[0] in ("str", "cow"):
        return [ret(st, sval(I, st, v))]
    if isinstance(v, tuple) and v[0] in ("ch", "chs"):
        return [ret(st, kstr(chr(v[1])) if v[0] == "ch" else ("str", (("c", v),)))]
    t = strip_ref_ty(I, f["args"][0]) if f.get("args") else None
    if isinstance(v, tuple) and v[0] == "fmtargs" or t is not None and I.T[t]["k"] == "adt" and I.T[t]["path"].startswith("sgmlish"):
        cell = I.new_cell(st, ("wbuf", EMPTY))
        outs = []
        for o in write_arg(I, st, ("ref", cell, ()), ("fmtarg", "display", t, a[0]), (), site):
            if o.kind == "ret":
                if o.v[2] != 0:
                    outs.append(panic(o.st, "a Display implementation returned an error", site, unproved=True))
                    continue
                o = ret(o.st, o.st.store[cell][1])
            outs.append(o)
        return outs
    return [ret(st, ("str", (("x", ("fmt", "display", freeze(I, st, v), ())),)))]


def dbg(I, st, f, a, site):
    """Derived Debug helpers: opaque text, no effect that any property mentions."""
    t = dest_ty(site)
    st.ctr += 1
    return [ret(st, I.mk(("dbg", st.ctr), t))] if t is not None else [ret(st, UNIT)]


for _n in ("debug_struct_field1_finish", "debug_struct_field2_finish", "debug_struct_field3_finish", "debug_struct_field4_finish", "debug_struct_field5_finish", "debug_struct_fields_finish",
           "debug_tuple_field1_finish", "debug_tuple_field2_finish", "debug_tuple_fields_finish", "debug_list", "debug_struct", "debug_tuple", "debug_map"):
    MODELS["std::fmt::Formatter::<'a>::" + _n] = dbg
for _n in ("std::fmt::DebugList::<'a, 'b>::entries", "std::fmt::DebugList::<'a, 'b>::entry", "std::fmt::DebugList::<'a, 'b>::finish", "std::fmt::DebugStruct::<'a, 'b>::field", "std::fmt::DebugStruct::<'a, 'b>::finish"):
    MODELS[_n] = dbg


# ------------------------------------------------------------------ panics
def panics(what):
    def m(I, st, f, a, site):
        msg = what
        return [panic(st, msg, site, chain=[x["path"] for x in I.stack])]
    return m


for _p, _w in (("core::panicking::panic", "panic"), ("core::panicking::panic_fmt", "panic"), ("core::panicking::assert_failed", "assertion failed"),
               ("core::panicking::unreachable_display", "unreachable"), ("std::rt::begin_panic", "panic"), ("std::option::unwrap_failed", "unwrap on None"),
               ("std::option::expect_failed", "expect on None"), ("std::result::unwrap_failed", "unwrap on Err"), ("core::panicking::panic_nounwind", "panic"),
               ("core::panicking::panic_explicit", "panic"), ("std::rt::panic_fmt", "panic"), ("core::option::unwrap_failed", "unwrap on None"),
               ("core::option::expect_failed", "expect on None"), ("core::result::unwrap_failed", "unwrap on Err"), ("std::rt::panic_display", "panic"),
               ("core::panicking::panic_display", "panic"), ("core::panicking::panic_str_2015", "panic"), ("std::process::abort", "abort"), ("std::process::exit", "exit"),
               ("core::panicking::assert_matches_failed", "assertion failed"), ("core::panicking::unreachable_default_msg", "unreachable")):
    MODELS[_p] = panics(_w)


@model("std::panic::Location::<'a>::caller")
def m_loc(I, st, f, a, site):
    return [ret(st, I.mk(("loc", site[1]), dest_ty(site)))]


# ------------------------------------------------------------------ logging: disabled (assumption: log statements are observationally irrelevant)
@model("log::max_level")
def m_log(I, st, f, a, site):
    return [ret(st, adt("log::LevelFilter", 0))]


# ------------------------------------------------------------------ nom error traits on a type parameter: term constructors
def perr(I, st, f, a, site):
    return [ret(st, ("perr", f["name"], tuple(I.simplify_str(st, x) if isinstance(x, tuple) and x[0] == "str" else x for x in a)))]


for _n in ("append", "from_char", "from_error_kind", "or"):
    MODELS["nom::error::ParseError::" + _n] = perr
MODELS["nom::error::ContextError::add_context"] = perr
MODELS["nom::error::FromExternalError::from_external_error"] = perr


# ------------------------------------------------------------------ fallback
def fallback(I, st, f, a, site):
    p = f.get("path", "?")
    if p in ("std::ops::FnMut::call_mut", "std::ops::Fn::call", "std::ops::FnOnce::call_once"):
        fv = a[0]
        n = 0
        while isinstance(fv, tuple) and fv[0] in ("ref", "box", "sym") and n < 10:
            n += 1
            if fv[0] == "sym":
                ty = I.T[fv[2]]
                if ty["k"] in ("ref", "ptr"):
                    fv = I.read(st, I.deref(st, fv))
                    continue
                break
            x = I.get(st, I.cell_value(st, fv[1]), fv[2] if fv[0] == "ref" else ())
            if isinstance(x, tuple) and x[0] == "clo":
                break
            fv = x
        return I.call_value(st, fv, list(a[1][1]), site)
    if p in ("std::convert::AsRef::as_ref", "std::ops::Deref::deref", "std::borrow::Borrow::borrow") and f.get("id") is None:
        t = dest_ty(site)
        v = rd(I, st, a[0])
        if v[0] in ("str", "cow") and I.is_str_ref(t):
            return [ret(st, sval(I, st, v))]
        return [ret(st, I.mk((p.rsplit("::", 1)[-1], freeze(I, st, v)), t))]
    r = I.unknown_call(st, f, a, site)
    if r is not None:
        return r
    raise Unsupported("unmodelled call %s" % (f.get("ipath") or p))
