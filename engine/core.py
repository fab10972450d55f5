"""Abstract domains: linear integer expressions, character classes, strings, sequences, states.

Nothing here executes the analysed program: values are provenance terms (which part of which input, which
call's result), integers are linear expressions over symbolic positions, characters are sets of code points.
"""
from fractions import Fraction

# ------------------------------------------------------------------ linear expressions


_atoms = {}          # every atom of a linear expression, once: (its order, itself)


def _order(x):
    return x[0]


class Lin:
    __slots__ = ("c", "t", "_h", "moves")

    def __init__(self, c, t=(), moves=None):
        self.c = c
        if not isinstance(t, tuple):
            l = []
            moves = False
            for v, k in t.items():
                if k != 0:
                    a = _atoms.get(v)
                    if a is None:
                        a = _atoms[v] = (len(_atoms), v, isinstance(v, tuple) and bool(v) and v[0] in ("clen", "scan"))
                    l.append((a[0], a[1], k))
                    if a[2]:
                        moves = True
            if len(l) > 1:
                l.sort(key=_order)
            t = tuple([(v, k) for _, v, k in l])
        elif moves is None:
            moves = any(_atoms[v][2] if v in _atoms else True for v, _ in t)
        self.t = t
        self.moves = moves      # has parts that facts about characters can simplify
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or isinstance(o, Lin) and self._h == o._h and self.c == o.c and self.t == o.t

    def __getitem__(self, i):
        return "lin"        # tag inspection, as for the tuple-shaped values

    def __repr__(self):
        if not self.t:
            return str(self.c)
        return "(" + "+".join("%s%s" % ("" if k == 1 else "%s*" % k, show(v)) for v, k in self.t) + (("%+d" % self.c) if self.c else "") + ")"

    @property
    def const(self):
        return self.c if not self.t else None

    def add(self, o, k=1):
        if isinstance(o, int):
            return Lin(self.c + o * k, self.t, self.moves)
        if not o.t:
            return Lin(self.c + o.c * k, self.t, self.moves)
        d = dict(self.t)
        for v, x in o.t:
            d[v] = d.get(v, 0) + x * k
        return Lin(self.c + o.c * k, d)

    def __add__(self, o):
        return self.add(o)

    def __sub__(self, o):
        return self.add(o, -1)

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, tuple([(v, x * k) for v, x in self.t]), self.moves)

    def __neg__(self):
        return self.scale(-1)


def L(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, int):
        return Lin(x)
    return Lin(0, {x: 1})


def show(v, depth=0):
    if isinstance(v, Lin):
        return repr(v)
    if isinstance(v, tuple):
        if depth > 6:
            return "..."
        if len(v) == 2 and v[0] == "arg":
            return str(v[1])
        return str(v[0]) + "(" + ",".join(show(x, depth + 1) for x in v[1:]) + ")" if v and isinstance(v[0], str) else "(" + ",".join(show(x, depth + 1) for x in v) + ")"
    return str(v)


# ------------------------------------------------------------------ character classes
# ASCII: 128-bit mask. Non-ASCII: regions = truth assignments of eight Unicode predicates, plus special code points.
# "lowers"/"uppers": the character has a lowercase/uppercase form other than itself.
PREDS = ["alphabetic", "numeric", "whitespace", "uppercase", "lowercase", "control", "lowers", "uppers"]
ALL_ASCII = (1 << 128) - 1
ALL_REG = (1 << 256) - 1


def _mask(f):
    m = 0
    for x in range(128):
        if f(x):
            m |= 1 << x
    return m


_ASCII_PRED = {
    "alphabetic": _mask(lambda x: chr(x).isalpha()),
    "numeric": _mask(lambda x: 48 <= x <= 57),
    "whitespace": _mask(lambda x: x in (9, 10, 11, 12, 13, 32)),
    "uppercase": _mask(lambda x: 65 <= x <= 90),
    "lowercase": _mask(lambda x: 97 <= x <= 122),
    "control": _mask(lambda x: x < 32 or x == 127),
    "lowers": _mask(lambda x: 65 <= x <= 90),
    "uppers": _mask(lambda x: 97 <= x <= 122),
}


def _regmask(i):
    m = 0
    for r in range(256):
        if r >> i & 1:
            m |= 1 << r
    return m


# the regions that have members, enumerated with rustc's own tables (bit i is PREDS[i])
FEAS = sum(1 << r for r in (0b00000000, 0b00000001, 0b00000010, 0b00000011, 0b00000100, 0b00001001, 0b00010001, 0b00100000, 0b00100100,
                            0b01001001, 0b01001011, 0b10010001, 0b10010011, 0b11000001))


class CC:
    """A set of characters, optionally with the end-of-input marker."""
    __slots__ = ("a", "r", "s", "eof", "_h")

    def __init__(self, a, r, s=(), eof=False):
        self.a = a & ALL_ASCII
        self.r = r & FEAS
        # specials: code point -> membership (only kept where it differs from nothing; always explicit)
        self.s = frozenset((k, v) for k, v in s if v != _member(self.r, k)) if s else frozenset()
        self.eof = eof
        self._h = hash((self.a, self.r, self.s, eof))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, CC) and self.a == o.a and self.r == o.r and self.eof == o.eof and self.s == o.s

    @staticmethod
    def chars(cs):
        a, s = 0, []
        for ch in cs:
            x = ord(ch) if isinstance(ch, str) else ch
            if x < 128:
                a |= 1 << x
            else:
                s.append((x, True))
        return CC(a, 0, s)

    @staticmethod
    def rng(lo, hi):
        """Code points lo..=hi; non-ASCII part only exact when it is empty or everything."""
        a = _mask(lambda x: lo <= x <= hi)
        if hi < 128:
            return CC(a, 0)
        if lo <= 128 and hi >= 0x10FFFF:
            return CC(a, ALL_REG)
        return None

    @staticmethod
    def pred(name):
        if name == "alphanumeric":
            return CC.pred("alphabetic") | CC.pred("numeric")
        return CC(_ASCII_PRED[name], _regmask(PREDS.index(name)))

    def _comb(self, o, f, fe):
        sa, sb = dict(self.s), dict(o.s)
        keys = set(sa) | set(sb)
        s = []
        for k in keys:
            x = sa.get(k)
            y = sb.get(k)
            # unknown membership of a special in a class described by regions: resolve through python's tables
            x = _member(self.r, k) if x is None else x
            y = _member(o.r, k) if y is None else y
            s.append((k, f(x, y)))
        return s

    def __and__(self, o):
        return CC(self.a & o.a, self.r & o.r, self._comb(o, lambda x, y: x and y, None), self.eof and o.eof)

    def __or__(self, o):
        return CC(self.a | o.a, self.r | o.r, self._comb(o, lambda x, y: x or y, None), self.eof or o.eof)

    def __invert__(self):
        return CC(~self.a & ALL_ASCII, ~self.r & ALL_REG, [(k, not v) for k, v in self.s], not self.eof)

    def noeof(self):
        return CC(self.a, self.r, self.s, False)

    def compl(self):
        """Complement among characters (end of input in neither)."""
        return (~self).noeof()

    def empty(self):
        return not self.a and not self.eof and not self._nonascii()

    def _nonascii(self):
        return bool(self.r) or any(v for _, v in self.s)

    def ascii_only(self):
        return not self.eof and not self._nonascii()

    def single(self):
        if self._nonascii() or self.eof:
            sp = [k for k, v in self.s if v]
            if not self.eof and not self.r and not self.a and len(sp) == 1:
                return sp[0]
            return None
        if self.a and self.a & (self.a - 1) == 0:
            return self.a.bit_length() - 1
        return None

    def subset(self, o):
        return (self & ~o).empty()

    def disjoint(self, o):
        return (self & o).empty()

    def __repr__(self):
        cs = [x for x in range(128) if self.a >> x & 1]
        neg = len(cs) > 64
        if neg:
            cs = [x for x in range(128) if not self.a >> x & 1]
        t = "".join(chr(x) if 32 < x < 127 else "\\x%02x" % x for x in cs[:40])
        return "[%s%s%s%s%s]" % ("^" if neg else "", t, ";U" if self.r == FEAS else (";u%x" % self.r if self.r else ""), "".join(";%x=%d" % (k, v) for k, v in sorted(self.s)), ";EOF" if self.eof else "")


def _member(r, k):
    if r == 0:
        return False
    if r == FEAS:
        return True
    ch = chr(k)
    import unicodedata
    cat = unicodedata.category(ch)
    bits = [ch.isalpha() or cat == "Nl" or ch.isupper() or ch.islower(), cat.startswith("N"), ch.isspace(), ch.isupper(), ch.islower(), cat == "Cc",
            ch.lower() != ch, ch.upper() != ch]
    reg = sum((1 << i) for i, b in enumerate(bits) if b)
    return bool(r >> reg & 1)


NOCHAR = CC(0, 0)
ANYCHAR = CC(ALL_ASCII, ALL_REG)
EOF = CC(0, 0, (), True)
ANY = ANYCHAR | EOF

# ------------------------------------------------------------------ values
# ints: Lin | bools: True/False/('cond',atom) | chars: ('ch',cp) / ('chs',term)
# strings: ('str', pieces) with pieces: ('k',text) | ('sl',base,lo,hi) | ('c',charval) | ('x',term)
# cows: ('cow', kind, str|term)  | adts: ('adt', path, variant, fields) | tuples: ('tup', fields)
# closures: ('clo', tyid, upvars) | refs: ('ref', cell, path) | slices: ('sref', cell, path, lo, hi)
# sequences: ('seq', segments) segments: ('v',value) | ('s',term,tyid,lo,hi)
# symbols: ('sym', term, tyid) | fn items: ('fn', json-index) | iterators: ('it', kind, fields...)

UNIT = ("tup", ())


def adt(path, variant, *fields):
    return ("adt", path, variant, tuple(fields))


OPT = "std::option::Option"
RES = "std::result::Result"
CF = "std::ops::ControlFlow"
ORD = "std::cmp::Ordering"
NONE = adt(OPT, 0)


def some(x):
    return adt(OPT, 1, x)


def ok(x):
    return adt(RES, 0, x)


def err(x):
    return adt(RES, 1, x)


def kstr(text):
    return ("str", (("k", text),) if text else ())


EMPTY = kstr("")


def sl(base, lo, hi):
    return ("str", (("sl", base, L(lo), L(hi)),))


def whole(base):
    return sl(base, 0, L(("len", base)))


def cat(a, b, state=None):
    """String concatenation with merging of adjacent slices and constants."""
    out = list(a[1])
    for p in b[1]:
        if p[0] == "k" and not p[1]:
            continue
        if out:
            q = out[-1]
            if q[0] == "k" and p[0] == "k":
                out[-1] = ("k", q[1] + p[1])
                continue
            if q[0] == "sl" and p[0] == "sl" and q[1] == p[1] and (q[3] == p[2] or (state is not None and state.lin_eq(q[3], p[2]))):
                out[-1] = ("sl", q[1], q[2], p[3])
                continue
        out.append(p)
    return ("str", tuple(out))


class Infeasible(Exception):
    pass


class Unsupported(Exception):
    """The abstract interpreter met a construct it cannot give a meaning to."""


# ------------------------------------------------------------------ state


_implicit = {}


def by_construction(v):
    out = []
    if isinstance(v, tuple):
        k = v[0]
        if k == "clen":
            out += [L(v) - L(1), L(4) - L(v)]
        elif k == "scan":       # ('scan', base, hi, lo, CC): lo <= p <= hi
            out += [L(v) - v[3], v[2] - L(v)]
        elif k == "rscan":      # end of the slice once trailing chars of the class are removed
            out += [L(v) - v[2], v[3] - L(v)]
        elif k in ("find", "rfind"):       # ('find', base, hi, lo, needle): only used when it exists
            out += [L(v) - v[3], v[2] - L(v) - L(len(v[4].encode()))]
        elif k == "after":      # ('after', fn, base, hi, lo): rest position of an opaque parser
            out += [L(v) - v[4], v[3] - L(v)]
        elif k == "cpos":       # ('cpos', base, hi, lo, n): byte position of the n-th character after lo
            out += [L(v) - v[3] - v[4], v[2] - L(v) - L(1)]
        elif k == "lpos":       # ('lpos', base, hi, lo, 0): byte position of the last character before hi; only used when there is one
            out += [L(v) - v[3], v[2] - L(v) - L(1), L(v) + L(4) - v[2]]
        elif k == "lv":
            pass
        else:
            out += [L(v)]
        if k in ("scan", "find", "rfind", "after", "rscan", "lv", "cpos", "sfind", "lpos"):
            out.append(L(v))
    return out


class State:
    __slots__ = ("store", "bools", "variants", "chars", "lins", "neqs", "trace", "seqfacts", "proved", "ctr", "strk", "calls", "negs")

    def __init__(self):
        self.store = {}
        self.bools = {}
        self.variants = {}     # term -> (idx or None, excluded frozenset)
        self.chars = {}        # (base, hi, pos) -> CC
        self.lins = ()         # facts Lin >= 0
        self.neqs = ()         # facts Lin != 0
        self.trace = ()
        self.seqfacts = {}
        self.proved = {}
        self.ctr = 0
        self.strk = {}
        self.calls = ()        # contract calls named so far
        self.negs = ()         # (base, hi, pos, classes): the text from pos does not begin with characters of these classes

    def copy(self):
        s = State.__new__(State)
        s.store = dict(self.store)
        s.bools = dict(self.bools)
        s.variants = dict(self.variants)
        s.chars = dict(self.chars)
        s.lins = self.lins
        s.neqs = self.neqs
        s.trace = self.trace
        s.seqfacts = dict(self.seqfacts)
        s.proved = self.proved      # a new one whenever a fact is added
        s.ctr = self.ctr
        s.strk = dict(self.strk)
        s.calls = self.calls
        s.negs = self.negs
        return s

    def emit(self, *ev):
        self.trace = self.trace + (ev,)

    # ---------------- linear facts
    def norm(self, e):
        """Substitute one-byte widths for characters known to be ASCII; unfold scans over known characters."""
        if not e.moves:
            return e
        known = self.proved
        out = None
        for v, k in e.t:
            if not _atoms[v][2]:
                continue
            key = ("n", v)
            u = known.get(key, known)
            if u is known:
                known[key] = None
                u = self.simpler(v)
                if u is not None:
                    u = self.norm(u)
                known[key] = u
            if u is not None:
                out = (e if out is None else out) + (u - L(v)).scale(k)
        return e if out is None else out

    def simpler(self, v):
        if v[0] == "scan":
            return self.unscan(v)
        cc = self.chars.get(v[1:])
        if cc is not None and not cc.empty():
            if cc.ascii_only():
                return L(1)
            x = cc.single()
            if x is not None:
                return L(len(chr(x).encode()))
        return None

    def unscan(self, v):
        """A simpler expression for a scan position, when the character it starts on is known; else None."""
        _, base, hi, lo, cls = v
        cc = self.chars.get((base, hi, lo))
        n = self.norm(lo)
        if cc is None:
            if n is not lo and n != lo:
                return L(("scan", base, hi, n, cls))
            if not (hi - lo).t and (hi - lo).c <= 0:
                return hi
            # a scan starting where another scan stopped
            if lo.c == 0 and len(lo.t) == 1:
                w = lo.t[0][0]
                if isinstance(w, tuple) and w[0] == "scan" and w[1] == base and w[2] == hi and cls.subset(w[4] | EOF):
                    return lo
            return None
        if not cc.eof and cc.subset(cls):
            w = L(1) if cc.ascii_only() else (L(len(chr(cc.single()).encode())) if cc.single() is not None else L(("clen", base, hi, lo)))
            return L(("scan", base, hi, self.norm(lo + w), cls))
        if cc.disjoint(cls):
            return hi if cc == EOF else lo
        return None

    def implicit(self, v):
        """Facts that hold for a variable by construction, as Lin >= 0."""
        out = _implicit.get(v)
        if out is None:
            out = _implicit[v] = by_construction(v)
        if isinstance(v, tuple) and v and v[0] == "scan":
            more = []
            cc = self.charat0(v[1], v[2], v[3])
            if cc.subset(v[4]):
                more.append(L(v) - v[3] - L(1))
            cc2 = self.chars.get((v[1], v[2], L(v)))
            if cc2 is not None and not cc2.eof:
                more.append(v[2] - L(v) - L(1))
            return out + more if more else out
        return out

    def prove(self, e, depth=5):
        """Is e >= 0 entailed?  (nonnegative combinations of at most `depth` facts)"""
        e = self.norm(e)
        if not e.t:
            return e.c >= 0
        key = (e, len(self.lins), len(self.chars))
        r = self.proved.get(key)
        if r is not None:
            return r
        known = self.proved.get("facts")
        if known is None:
            facts = [self.norm(f) for f in self.lins]
            seen = set()
            todo = [v for f in facts for v, _ in f.t]
            self.consequences(todo, facts, seen)
            known = self.proved["facts"] = (facts, seen)
        facts = known[0]
        todo = [v for v, _ in e.t if v not in known[1]]
        if todo:
            facts = list(facts)
            self.consequences(todo, facts, set(known[1]))
        facts = list(dict.fromkeys(g for g in facts if g.t))
        r = self._diff(e, facts)
        if r is None:
            idx = {}
            for f in facts:
                for v, b in f.t:
                    idx.setdefault((v, b > 0), []).append((f, b))
            r = self._prove(e, idx, depth, set())
        self.proved[key] = r
        return r

    def consequences(self, todo, facts, seen):
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            for f in self.implicit(v):
                f = self.norm(f)
                facts.append(f)
                todo += [x for x, _ in f.t if x not in seen]

    def _diff(self, e, facts):
        """Difference constraints: True/False when they settle e >= 0, None when other facts may matter."""
        edges = {}
        whole = True
        for f in facts:
            t = f.t
            if len(t) > 2:
                whole = False
                # what is at least one long leaves a difference
                pos, neg, c = [], [], f.c
                for v, k in t:
                    if isinstance(v, tuple) and v and v[0] == "clen" and k < 0:
                        c += k
                    elif k == 1:
                        pos.append(v)
                    elif k == -1:
                        neg.append(v)
                    else:
                        pos = None
                        break
                if pos is None or len(pos) > 1 or len(neg) > 1:
                    continue
                a, b = pos[0] if pos else 0, neg[0] if neg else 0
            else:
                (v, k) = t[0]
                if len(t) == 1:
                    if k == 1:
                        a, b = v, 0
                    elif k == -1:
                        a, b = 0, v
                    else:
                        whole = False
                        continue
                else:
                    (w, m) = t[1]
                    if k == 1 and m == -1:
                        a, b = v, w
                    elif k == -1 and m == 1:
                        a, b = w, v
                    else:
                        whole = False
                        continue
                c = f.c
            # a - b >= -c
            d = edges.setdefault(a, {})
            if b not in d or d[b] < -c:
                d[b] = -c
        t = e.t
        if len(t) == 1 and t[0][1] in (1, -1):
            x, y = (t[0][0], 0) if t[0][1] == 1 else (0, t[0][0])
        elif len(t) == 2 and sorted((t[0][1], t[1][1])) == [-1, 1]:
            x, y = (t[0][0], t[1][0]) if t[0][1] == 1 else (t[1][0], t[0][0])
        else:
            return None
        # the greatest lower bound of x - y along any chain
        best = {x: 0}
        todo = [x]
        n = 0
        while todo:
            nxt = []
            for a in todo:
                ba = best[a]
                for b, w in edges.get(a, {}).items():
                    if best.get(b) is None or best[b] < ba + w:
                        best[b] = ba + w
                        nxt.append(b)
            todo = list(dict.fromkeys(nxt))
            n += 1
            if best.get(y) is not None and best[y] >= -e.c:
                return True
            if n > 60:
                return None
        return False if whole else None

    def _prove(self, e, idx, depth, seen):
        if not e.t:
            return e.c >= 0
        if depth == 0 or e in seen:
            return False
        seen = seen | {e}
        # prefer eliminating the variable with the fewest matching facts
        best = None
        for v, a in e.t:
            m = idx.get((v, a > 0))
            if not m:
                return False
            if best is None or len(m) < len(best[1]):
                best = (a, m)
        a, m = best
        for f, b in m:
            if a == b:
                g = e - f
            else:
                k = Fraction(a, b)
                g = e.scale(k.denominator) - f.scale(k.numerator)
            if self._prove(g, idx, depth - 1, seen):
                return True
        return False

    def lin_eq(self, a, b):
        d = a - b
        if not d.t:
            return d.c == 0
        return self.prove(d) and self.prove(-d)

    def assume_ge0(self, e):
        e = self.norm(e)
        if not e.t:
            if e.c < 0:
                raise Infeasible()
            return
        if self.prove(-e - L(1)):
            raise Infeasible()
        if not self.prove(e):
            self.lins = self.lins + (e,)
            self.proved = {}
            # tighten disequalities
            for n in self.neqs:
                self._tighten(n)

    def _tighten(self, n):
        if self.prove(n):
            if not self.prove(n - L(1)):
                self.lins = self.lins + (n - L(1),)
                self.proved = {}
        elif self.prove(-n):
            if not self.prove(-n - L(1)):
                self.lins = self.lins + (-n - L(1),)
                self.proved = {}

    def assume_eq0(self, e):
        self.assume_ge0(e)
        self.assume_ge0(-e)
        self.on_eq(e)

    def on_eq(self, e):
        """Positional consequences of an equality."""
        for v, k in e.t:
            if isinstance(v, tuple) and v[0] == "scan":
                # scan == lo  -> first char not in class;   scan == hi -> eof there
                if self.lin_eq(L(v), v[3]):
                    self.refine(v[1], v[2], v[3], ~v[4])
            if isinstance(v, tuple) and v[0] in ("find",):
                if self.lin_eq(L(v), v[3]):
                    pos = v[3]
                    for ch in v[4]:
                        self.refine(v[1], v[2], pos, CC.chars(ch))
                        pos = pos + L(1)
        # clen/len consequences: a position equal to hi is end of input
        for (base, hi, pos), cc in list(self.chars.items()):
            if cc.eof and not cc == EOF and self.lin_eq(pos, hi):
                self.refine(base, hi, pos, EOF)

    def assume_ne0(self, e):
        e = self.norm(e)
        if not e.t:
            if e.c == 0:
                raise Infeasible()
            return
        if self.prove(e) and self.prove(-e):
            raise Infeasible()
        self.neqs = self.neqs + (e,)
        self._tighten(e)
        for v, k in e.t:
            if isinstance(v, tuple) and v[0] == "scan":
                if e == L(v) - v[3] or e == v[3] - L(v):
                    self.refine(v[1], v[2], v[3], v[4])
                if e == L(v) - v[2] or e == v[2] - L(v):
                    self.refine(v[1], v[2], L(v), ANYCHAR)

    # ---------------- characters at positions
    def canon_pos(self, base, hi, pos):
        pos = self.norm(pos)
        if (base, hi, pos) in self.chars:
            return pos
        for (b, h, p) in self.chars:
            if b == base and h == hi and p != pos and self.lin_eq(p, pos):
                return p
        return pos

    def charat0(self, base, hi, pos):
        """As charat, without looking for positions that are equal but written differently."""
        cc = self.chars.get((base, hi, pos))
        return ANY if cc is None else cc

    def charat(self, base, hi, pos):
        pos = self.norm(pos)
        cc = self.chars.get((base, hi, pos))
        if cc is None:
            for (b, h, p), c in self.chars.items():
                if b == base and h == hi and p is not pos and set(v for v, _ in p.t) & set(v for v, _ in pos.t) | (set([1]) if not p.t and not pos.t else set()):
                    if self.lin_eq(p, pos):
                        cc = c
                        break
        if cc is None:
            cc = ANY
            d = self.norm(hi - pos)
            if not d.t:
                cc = EOF if d.c <= 0 else ANYCHAR
            for v, k in pos.t:
                if isinstance(v, tuple) and v[0] == "scan" and v[1] == base and v[2] == hi and pos == L(v):
                    cc = cc & ~v[4]
                if isinstance(v, tuple) and v[0] == "find" and v[1] == base and v[2] == hi:
                    off = self.norm(pos - L(v))
                    if not off.t and 0 <= off.c < len(v[4]):
                        cc = cc & CC.chars(v[4][off.c])
        return cc

    def refine(self, base, hi, pos, cc):
        hi = self.norm(hi)
        pos = self.canon_pos(base, hi, pos)
        cur = self.charat(base, hi, pos)
        n = cur & cc
        if n.empty():
            raise Infeasible()
        if n == cur and (base, hi, pos) in self.chars:
            return
        if cur.eof and not n.eof:
            if self.prove(pos - hi):
                raise Infeasible()
        if not cur == EOF and n == EOF:
            if self.prove(hi - pos - L(1)):
                raise Infeasible()
        self.chars[(base, hi, pos)] = n
        self.proved = {}
        if not n.eof:
            w = L(1) if n.ascii_only() else L(("clen", base, hi, pos))
            e = hi - pos - w
            e = self.norm(e)
            if e.t:
                if e not in self.lins:
                    self.lins = self.lins + (e,)
            elif e.c < 0:
                raise Infeasible()
        if n == EOF and not cur == EOF:
            e = hi - pos
            if e.t:
                self.lins = self.lins + (e, -e)
            elif e.c != 0:
                raise Infeasible()
        self.proved = {}
        self.rekey(base, hi, pos)
        if self.negs:
            self.renegs(base)

    def not_begins(self, base, hi, pos, seq):
        n = (base, hi, pos, seq)
        if n not in self.negs:
            self.negs = self.negs + (n,)
            self.renegs(base)

    def renegs(self, base):
        for n in self.negs:
            if n[0] != base or n not in self.negs:
                continue
            b, h, pos, seq = n
            h = self.norm(h)
            for i, cc in enumerate(seq):
                c = self.charat(b, h, pos)
                if (c & cc).empty():
                    self.negs = tuple(m for m in self.negs if m != n)
                    break
                if c.subset(cc):
                    if i == len(seq) - 1:
                        raise Infeasible()
                    pos = self.norm(pos + self.width(b, h, pos))
                    continue
                if i == len(seq) - 1:
                    self.negs = tuple(m for m in self.negs if m != n)
                    self.refine(b, h, pos, ~cc)
                break

    def rekey(self, base, hi, pos):
        """Facts about positions whose normal form changed."""
        ch = []
        for (b, h, p), cc in self.chars.items():
            if p is None or not p.t:
                continue
            q = self.norm(p)
            h2 = self.norm(h)
            if q != p or h2 != h:
                ch.append(((b, h, p), (b, h2, q), cc))
        for k, k2, cc in ch:
            self.chars.pop(k, None)
        self.proved = {}
        for k, k2, cc in ch:
            cur = self.charat(*k2)
            n = cur & cc
            if n.empty():
                raise Infeasible()
            self.refine(k2[0], k2[1], k2[2], n)

    def width(self, base, hi, pos):
        cc = self.charat(base, hi, pos)
        if cc.ascii_only():
            return L(1)
        x = cc.single()
        if x is not None:
            return L(len(chr(x).encode()))
        return L(("clen", base, hi, self.canon_pos(base, hi, pos)))
