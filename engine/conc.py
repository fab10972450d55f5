"""Is a cell of the partition inhabited, and do two abstract results differ on it?

A cell is a conjunction of facts over provenance terms (which characters stand where, which calls succeeded).  It is
inhabited when the terms can be given values under which every fact holds; two abstract values differ on the cell when
they have different readings under such an assignment.  Only terms are given values: no code of the analysed program is
interpreted here, and nothing is sent to a solver.
"""
import random
from core import *


FAR = 1 << 40


class Reject(Exception):
    pass


POOL = "aZ0 \n\t<>&;#%\"'-]![/?=._:,()bx9\r\x00\u00e9\u00a0\u4e2d\U0001f600\u0130\u0660\u01c5\u00aa\u2028\u1e9e\x7f\u00df\u03d2\u2160\u2170\u16ee\u0080\u0085"


def cc_has(cc, ch):
    x = ord(ch)
    if x < 128:
        return bool(cc.a >> x & 1)
    for k, v in cc.s:
        if k == x:
            return v
    return uni_member(cc.r, x)


_um = {}


def uni_member(r, k):
    from core import _member
    if r == 0:
        return False
    return _member(r, k)


UNI = [ord(c) for c in POOL if ord(c) > 127]


def cc_sample(cc, rng, avoid=()):
    """A character of the class (None when it has none we know how to name)."""
    cands = [c for c in POOL if cc_has(cc, c)]
    if not cands or rng.random() < 0.15:
        more = [chr(x) for x in range(128) if cc.a >> x & 1]
        cands = more or cands
    sp = [chr(k) for k, v in cc.s if v]
    if sp and (not cands or rng.random() < 0.5):
        cands = sp
    c2 = [c for c in cands if c not in avoid]
    cands = c2 or cands
    if not cands:
        return None
    # earlier entries are plainer
    if rng.random() < 0.5:
        return cands[0]
    return rng.choice(cands)


class Text:
    __slots__ = ("b", "closed", "fixed")

    def __init__(self):
        self.b = b""
        self.closed = False
        self.fixed = False      # its bytes were made to suit a fact


_ix = {}


def indexed(t):
    """Does the term speak of the element at hand of a run?"""
    r = _ix.get(t)
    if r is None:
        if isinstance(t, Lin):
            r = any(isinstance(v, tuple) and indexed(v) for v, _ in t.t)
        elif isinstance(t, tuple):
            r = bool(t) and (t[0] == "#idx" or any(indexed(x) for x in t if isinstance(x, (tuple, Lin))))
        else:
            r = False
        _ix[t] = r
    return r


class Conc:
    """One attempt at an assignment for the facts of a state."""

    def __init__(self, st, rng, values=(), bases=None):
        self.st = st
        self.rng = rng
        self.text = {}
        self.bk = {}
        self.names = {}
        self.memo = {}
        self.free = {}
        self.values = values
        self.final = False
        self.gen = set()
        self.idx = None
        self.plan = {}
        self.hints = ()
        self.want = {}
        self.wanted = {}
        self.freekeys = set()
        self.ends = set()
        self.stops = {}
        self.nums = {}
        self.bounds = {}

    # ------------------------------------------------------------ terms
    def base(self, b):
        k = self.bk.get(b)
        if k is None:
            k = self.key(b)
            if not indexed(b):
                self.bk[b] = k
        t = self.text.get(k)
        if t is None:
            t = self.text[k] = Text()
            self.names[k] = b
            if indexed(b):
                # a text of one element of a run: made up when first asked for
                for _ in range(self.rng.choice((0, 1, 1, 2))):
                    t.b += (self.hint(ANYCHAR) or self.rng.choice("ab1x &<")).encode()
                t.closed = True
        return t

    def close(self, b):
        t = self.base(b)
        t.closed = True

    def key(self, t):
        """Evaluated form of a term, so that equal calls are one call."""
        if isinstance(t, Lin):
            return self.lin(t)
        if isinstance(t, CC):
            return t
        if isinstance(t, tuple):
            if t and t[0] == "str":
                return self.string(t)
            if t and t[0] in ("ch", "chs"):
                return self.char(t)
            if t and t[0] == "cond":
                return self.cond(t)
            if t and t[0] == "sym":
                return self.value(t)
            if t and t[0] == "seq":
                return self.value(t)
            return tuple(self.key(x) for x in t)
        return t

    def freeval(self, kind, t, make):
        k = (kind, self.key(t))
        if kind in ("int", "len"):
            self.freekeys.add((kind, t))
        if k not in self.free:
            self.free[k] = make()
        return self.free[k]

    def lin(self, e):
        if isinstance(e, int):
            return e
        n = e.c
        for v, k in e.t:
            n += k * self.int(v)
        return n

    def int(self, v):
        if not isinstance(v, tuple):
            return self.freeval("int", v, self.smallint)
        k = v[0]
        if k == "#idx":
            if self.idx is None:
                raise Pending()
            return self.idx
        if k == "len":
            b = v[1]
            if b in self.bases or indexed(b):
                t = self.base(b)
                if not t.closed:
                    if self.final:
                        t.closed = True
                    else:
                        raise Pending()
                return len(t.b)
            if isinstance(b, tuple) and b and b[0] == "x":
                s = self.string(("str", (b,)))
                if isinstance(s, str):
                    return len(s.encode())
            return self.freeval("len", b, lambda: self.wish(v, lambda: self.within(v, self.rng.choice((0, 1, 1, 2, 2, 3, 4)))))
        if k == "clen":
            if v[2] is None:
                return len(self.char(("chs", v[1][1])).encode())
            c = self.charat(v[1], self.lin(v[3]))
            if c is None:
                raise Reject()
            return len(c.encode())
        if k == "scan":
            _, b, hi, lo, cls = v
            p, h = self.lin(lo), self.limit(b, hi)
            while p < h:
                c = self.charat(b, p)
                if c is None or not cc_has(cls, c):
                    break
                p += len(c.encode())
            return p
        if k == "rscan":
            _, b, lo, hi, cls = v
            l, h = self.lin(lo), self.lin(hi)
            s = self.slice(b, l, h)
            while s and cc_has(cls, s[-1]):
                s = s[:-1]
            return l + len(s.encode())
        if k in ("find", "rfind"):
            _, b, hi, lo, needle = v
            l, h = self.lin(lo), self.limit(b, hi)
            if h == FAR:
                n = self.base(b).b.find(needle.encode(), l) if k == "find" else -1
                if n < 0:
                    raise Pending()
                return n
            s = self.slice(b, l, h).encode()
            n = s.find(needle.encode()) if k == "find" else s.rfind(needle.encode())
            if n < 0:
                raise Reject()
            return l + n
        if k == "sfind":
            _, b, hi, lo, needle = v
            l, h = self.lin(lo), self.lin(hi)
            nd = self.string(needle)
            if isinstance(nd, str):
                n = self.slice(b, l, h).encode().find(nd.encode())
                if n < 0:
                    raise Reject()
                return l + n
            n = self.freeval("sfind", (b, nd), lambda: self.rng.randrange(0, max(h - l, 0) + 1))
            if l + n > h:
                raise Reject()
            self.slice(b, l, l + n)
            return l + n
        if k == "after":
            _, T, b, hi, lo = v
            l, h = self.lin(lo), self.limit(b, hi)
            if h == FAR:
                if v not in self.plan:
                    raise Pending()
                return l + self.plan[v]
            n = self.freeval("after", T, lambda: self.plan[v] if v in self.plan else self.rng.randrange(0, max(h - l, 0) + 1))
            if l + n > h:
                raise Reject()
            self.slice(b, l, l + n)
            return l + n
        if k == "cpos":
            _, b, hi, lo, n = v
            l, h, i = self.lin(lo), self.lin(hi), self.lin(n)
            s = self.slice(b, l, h)
            if not 0 <= i < len(s):
                raise Reject()
            return l + len(s[:i].encode())
        if k == "lpos":
            _, b, hi, lo, _ = v
            l, h = self.lin(lo), self.lin(hi)
            s = self.slice(b, l, h)
            if not s:
                raise Reject()
            return h - len(s[-1].encode())
        if k == "nchars":
            s = self.string(v[1])
            if isinstance(s, str):
                return len(s)
        if k == "ccount":
            s = self.string(v[1])
            if isinstance(s, str):
                return sum(cc_has(v[2], c) for c in s)
        if k == "b2i":
            return int(self.cond(("cond", v[1])))
        if k in ("Rem", "Div", "BitAnd", "mul", "Mul"):
            a, b = self.lin(v[1]), self.lin(v[2])
            if k in ("Rem", "Div") and b == 0:
                raise Reject()
            return a % b if k == "Rem" else a // b if k == "Div" else a & b if k == "BitAnd" else a * b
        if k in ("trunc", "wrap"):
            return self.lin(v[1]) & ((1 << v[2]) - 1)
        if k == "charslo":
            s = self.string(v[1])
            if isinstance(s, str):
                return (len(s.encode()) + 3) // 4
        if k == "f" and v[2] == "Ok.0" and isinstance(v[1], tuple) and v[1][0] in ("parse", "radix") and v[1][1] in INTS:
            s = self.string(v[1][2])
            if isinstance(s, str):
                n = parse_int(s, v[1][1], self.lin(v[1][3]) if v[1][0] == "radix" else 10)
                if n is None:
                    raise Reject()
                return n
        return self.freeval("int", v, lambda: self.wish(v, lambda: self.within(v, self.smallint())))

    def within(self, v, n):
        """n, moved into what the facts say of this number alone."""
        lo, hi = self.bounds.get(v, (None, None))
        if (lo is None or n >= lo) and (hi is None or n <= hi):
            return n
        if lo is None:
            return hi - self.rng.choice((0, 0, 1, 2))
        if hi is None:
            return lo + self.rng.choice((0, 0, 0, 1, 1, 2))
        return lo + self.rng.choice((0, 0, 1, max(hi - lo, 0))) if lo <= hi else n

    def smallint(self):
        return self.rng.choice((0, 0, 1, 1, 2, 3, 4, 5, 7, 60, 80, 100, 200))

    def limit(self, b, hi):
        """The end of a range; FAR when it is the end of a text still being written."""
        if not self.base(b).closed:
            if hi == L(("len", b)):
                return FAR
            if len(hi.t) == 1 and hi.c == 0 and hi.t[0][1] == 1 and isinstance(hi.t[0][0], tuple) and hi.t[0][0][0] == "find" and hi.t[0][0][1] == b:
                # where a search that has not found anything in the text so far will end
                try:
                    return self.lin(hi)
                except Pending:
                    return FAR
        return self.lin(hi)

    def need(self, b):
        t = self.base(b)
        if not t.closed:
            raise Pending()
        return t

    def slice(self, b, l, h):
        t = self.base(b)
        if not t.closed and h > len(t.b):
            raise Pending()
        if not (0 <= l <= h <= len(t.b)):
            raise Reject()
        try:
            return t.b[l:h].decode()
        except UnicodeDecodeError:
            raise Reject()

    def charat(self, b, p):
        """Character starting at byte p, None at (or beyond) the end."""
        t = self.base(b)
        if p < 0:
            raise Reject()
        if p >= len(t.b):
            if not t.closed:
                raise Pending()
            if p > len(t.b):
                raise Reject()
            return None
        c = t.b[p]
        n = 1 if c < 0x80 else 0 if c < 0xC0 else 2 if c < 0xE0 else 3 if c < 0xF0 else 4
        if not n:
            raise Reject()
        return t.b[p:p + n].decode()

    # ------------------------------------------------------------ values
    def string(self, v):
        """A str when fully known, else a tuple of parts."""
        out = []
        for p in v[1]:
            k = p[0]
            if k == "k":
                out.append(p[1])
            elif k == "sl":
                l, h = self.lin(p[2]), self.lin(p[3])
                out.append(self.slice(p[1], l, h))
            elif k == "c":
                out.append(self.char(p[1]))
            else:
                x = self.strterm(p[1])
                if isinstance(x, str):
                    out.append(x)
                else:
                    out.append(("?", x))
        parts = []
        for x in out:
            if isinstance(x, str):
                if parts and isinstance(parts[-1], str):
                    parts[-1] += x
                elif x:
                    parts.append(x)
            else:
                parts.append(x)
        if not parts:
            return ""
        if len(parts) == 1 and isinstance(parts[0], str):
            return parts[0]
        return ("strparts",) + tuple(parts)

    def strterm(self, t):
        if isinstance(t, tuple) and t:
            n = t[0]
            if n in ("lowercase", "uppercase", "ascii_lowercase", "ascii_uppercase", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase"):
                s = self.string(t[1])
                if isinstance(s, str):
                    if "ascii" in n:
                        return "".join((c.lower() if "lower" in n else c.upper()) if c.isascii() else c for c in s)
                    return s.lower() if "lower" in n else s.upper()
            if n == "line":
                s = self.string(t[1])
                if isinstance(s, str):
                    return s[:-1] if s.endswith("\r") else s
            if n in ("trim_start_str", "trim_end_str"):
                s, k = self.string(t[1]), self.string(t[2])
                if isinstance(s, str) and isinstance(k, str) and k:
                    while s.startswith(k) if "start" in n else s.endswith(k):
                        s = s[len(k):] if "start" in n else s[:-len(k)]
                    return s
            if n == "repeat":
                s, k = self.key(t[1]), self.key(t[2])
                if isinstance(s, str) and isinstance(k, int) and 0 <= k < 1000:
                    return s * k
            if n == "replace":
                a = [self.key(x) for x in t[1:]]
                if all(isinstance(x, str) for x in a[:3]) and len(a) == 3:
                    return a[0].replace(a[1], a[2])
            if n == "fmt" and t[1] == "display" and len(t) >= 4 and not t[3]:
                x = t[2]
                try:
                    y = self.key(x)
                except Reject:
                    raise
                if isinstance(y, str):
                    return y
                if isinstance(y, int) and not isinstance(y, bool):
                    return str(y)
        return self.key(t)

    def char(self, v):
        if v[0] == "ch":
            return chr(v[1])
        t = v[1]
        if t[0] == "at":
            p = self.lin(t[3])
            c = self.charat(t[1], p)
            if c is None or p >= self.lin(t[2]):
                raise Reject()
            return c
        if t[0] == "f" and t[2] == "Some.0" and isinstance(t[1], tuple) and t[1][0] == "from_u32":
            n = self.key(t[1][1])
            if isinstance(n, int) and (0 <= n < 0xD800 or 0xE000 <= n < 0x110000):
                return chr(n)
            raise Reject()
        cc = self.st.chars.get((("ct", t), None, None), ANYCHAR)
        k = ("char", self.key(t))
        if k not in self.free:
            c = self.hint(cc)
            if c is None or len(c) != 1:
                c = cc_sample(cc, self.rng)
            if c is None:
                raise Reject()
            self.free[k] = c
        return self.free[k]

    def bkey(self, t):
        return self.key(t)

    def cond(self, c):
        if c is True or c is False:
            return c
        if c[0] == "cond":
            return self.cond(c[1])
        k = c[0]
        if k == "not":
            return not self.cond(c[1])
        if k == "and":
            return self.cond(c[1]) and self.cond(c[2])
        if k == "or":
            return self.cond(c[1]) or self.cond(c[2])
        if k == "ge0":
            return self.lin(c[1]) >= 0
        if k == "eq0":
            return self.lin(c[1]) == 0
        if k == "cls":
            return cc_has(c[2], self.char(c[1]))
        if k == "variant":
            f = self.variant(c[1][1])
            if f is None:
                return self.freeval("var", (c[1][1], c[2]), lambda: self.rng.random() < 0.5)
            return f == c[2]
        if k == "streq":
            a, b = self.string(c[1]), self.string(c[2])
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            if a == b:
                return True
            return self.freeval("streq", (a, b), lambda: False)
        if k == "b":
            return self.boolterm(c[1])
        return self.freeval("cond", c, lambda: self.rng.random() < 0.5)

    def variant(self, term):
        f = self.st.variants.get(term)
        if f is not None and f[0] is not None:
            return f[0]
        return None

    def truth(self, t):
        """The value an interpreted predicate term has, None when it is free."""
        if isinstance(t, tuple) and t:
            n = t[0]
            if n in ("hasfind", "hasrfind"):
                _, b, hi, lo, c = t
                return c in self.slice(b, self.lin(lo), self.lin(hi))
            if n == "hassfind":
                _, b, hi, lo, nd = t
                nd = self.string(nd)
                if isinstance(nd, str):
                    return nd in self.slice(b, self.lin(lo), self.lin(hi))
                return None
            if n == "hascpos":
                _, b, hi, lo, i = t
                return 0 <= self.lin(i) < len(self.slice(b, self.lin(lo), self.lin(hi)))
            if n == "bound":
                x, i = self.string(t[1]), self.lin(t[2])
                if isinstance(x, str):
                    bs = x.encode()
                    return 0 <= i <= len(bs) and (i == len(bs) or bs[i] & 0xC0 != 0x80)
                return None
            if n == "endswith" and len(t) == 5:
                _, b, hi, lo, c = t
                return self.slice(b, self.lin(lo), self.lin(hi)).endswith(c)
            if n == "streq":
                a, b = self.string(t[1]), self.string(t[2])
                if isinstance(a, str) and isinstance(b, str):
                    return a == b
                if a == b:
                    return True
                return None
            if n == "eqic":
                a = self.string(t[1])
                b = t[2] if isinstance(t[2], str) else self.string(t[2])
                if isinstance(a, str) and isinstance(b, str):
                    low = lambda s: "".join(c.lower() if c.isascii() else c for c in s)
                    return low(a) == low(b)
                return None
            if n == "startswith":
                a, b = self.key(t[1]), self.key(t[2])
                if isinstance(a, str) and isinstance(b, str):
                    return a.startswith(b)
                return None
            if n == "contains" or n == "valeq":
                xs = [self.key(x) for x in t[1:]]
                if n == "valeq" and xs[0] == xs[1]:
                    return True
                if n == "contains" and isinstance(xs[0], tuple) and xs[0][0] == "sref":
                    l, h = xs[0][2:4]
                    if l >= h:
                        return False
                    es = xs[0][1]
                    if isinstance(es, tuple) and es[0] == "seq" and xs[1] in es[1 + l:1 + h]:
                        return True
                return None
            if n == "chareq":
                return self.char(t[1]) == self.char(t[2])
            if n in ("Lt", "Le", "Gt", "Ge"):
                a, b = self.char(t[1]), self.char(t[2])
                return {"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[n]
            if n == "charcmp":
                a, b = ord(self.char(t[2])), t[3]
                return {"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[t[1]]
            if n == "ceqic":
                a, b = self.char(t[1]), self.char(t[2])
                return a.lower() == b.lower() if a.isascii() and b.isascii() else a == b
            if n in ("addok", "mulok"):
                return None
        return None

    def boolterm(self, t):
        r = self.truth(t)
        if r is not None:
            return r
        if t in self.st.bools:
            return self.st.bools[t]
        return self.freeval("bool", t, lambda: self.rng.random() < 0.5)

    def value(self, v, d=0):
        """Concrete reading of a frozen value."""
        if isinstance(v, Lin):
            return self.lin(v)
        if v is None or v is True or v is False or isinstance(v, (int, str)):
            return v
        if not isinstance(v, tuple) or not v:
            return v
        k = v[0]
        if k == "str":
            return self.string(v)
        if k in ("ch", "chs"):
            return self.char(v)
        if k == "cond":
            return self.cond(v)
        if k == "cow*":
            return self.value(v[1])
        if k == "seq":
            out = []
            for s in v[1]:
                if s[0] == "v":
                    out.append(self.value(s[1]))
                else:
                    l, h = self.lin(s[2]), self.lin(s[3])
                    if not 0 <= l <= h:
                        raise Reject()
                    if h - l > 64:
                        raise Reject()
                    old = self.idx
                    for i in range(l, h):
                        self.idx = i
                        out.append(self.value(s[4]))
                    self.idx = old
            return ("seq",) + tuple(out)
        if k == "sym":
            u = self.unit(v[1])
            if u is not None:
                return u
            return ("sym", self.key(v[1]))
        if k == "adt":
            return ("adt", v[1], v[2]) + tuple(self.value(x[1]) for x in v[3])
        if k == "tup":
            return ("tup",) + tuple(self.value(x) for x in v[1])
        return tuple(self.value(x) if isinstance(x, (tuple, Lin)) else x for x in v)

    def unit(self, term):
        return None

    # ------------------------------------------------------------ building
    bases = frozenset()
    shared = None

    def build(self):
        st, rng = self.st, self.rng
        if self.shared is None:
            self.shared = gather(st, self.values)
        self.bases, posv, self.nums, self.bounds = self.shared
        facts = [(b, h, p, cc) for (b, h, p), cc in st.chars.items() if p is not None]
        pend = list(facts)
        # strings that must equal constants or other strings
        eqs = [t for t, v in st.bools.items() if v and isinstance(t, tuple) and t and t[0] in ("streq", "eqic")]
        for rnd in range(200):
            prog = False
            for t in list(eqs):
                if self.tryval(lambda: self.try_eq(t)):
                    eqs.remove(t)
                    prog = True
            nxt = []
            for f in pend:
                if self.tryval(lambda: self.place_char(f)):
                    prog = True
                else:
                    nxt.append(f)
            pend = nxt
            if prog:
                continue
            # the next position variable
            done = False
            for v in posv:
                if v in self.gen:
                    continue
                if self.tryval(lambda: self.generate(v)):
                    self.gen.add(v)
                    self.base(v[2] if v[0] == "after" else v[1]).fixed = True
                    done = True
                    break
            if done:
                continue
            open_ = [b for b in self.bases if self.tryval(lambda: not self.base(b).closed)]
            if not open_:
                break
            b = open_[0] if rng.random() < 0.7 else rng.choice(open_)
            t = self.base(b)
            if rng.random() < 0.6:
                for _ in range(rng.choice((1, 1, 2, 3))):
                    t.b += (self.hint(ANYCHAR) or (cc_sample(ANYCHAR, rng) if rng.random() < 0.6 else rng.choice("ab1x"))).encode()
            w = self.want.get(("len", b), 0)
            if w > len(t.b):
                t.b += rng.choice("ab1x").encode() * (w - len(t.b))
            self.numeral(b, L(("len", b)))
            for e, v in st.bools.items():
                if v and isinstance(e, tuple) and len(e) == 5 and e[0] == "endswith" and e[1] == b and e[2] == L(("len", b)) and not t.b.endswith(e[4].encode()):
                    t.b += e[4].encode()
            t.closed = True
        self.final = True
        for b in self.bases:
            self.base(b).closed = True
        for t in self.text.values():
            t.closed = True
        if rng.random() < 0.6:
            self.mend()

    def mend(self):
        """Where the texts miss what the facts say of a character, or are too long, put that right."""
        st, rng = self.st, self.rng
        for _ in range(6):
            done = True
            for (b, h, p), cc in st.chars.items():
                if p is None or h != L(("len", b)):
                    continue
                t = self.base(b)
                try:
                    pos = self.lin(p)
                    c = self.charat(b, pos) if 0 <= pos <= len(t.b) else None
                except (Reject, Pending):
                    continue
                if pos > len(t.b) or pos < 0 or (cc.eof if c is None else cc_has(cc, c)):
                    continue
                done = False
                new = None if cc.noeof().empty() else cc_sample(cc.noeof(), rng)
                if new is None:
                    t.b = t.b[:pos]
                else:
                    t.b = t.b[:pos] + new.encode() + t.b[pos + len((c or "").encode()):]
            for e in st.lins:
                if len(e.t) == 1 and e.t[0][1] == -1 and isinstance(e.t[0][0], tuple) and e.t[0][0][0] == "len":
                    t = self.text.get(self.bk.get(e.t[0][0][1]))
                    if t is not None and 0 <= e.c < len(t.b):
                        t.b = t.b[:e.c].decode(errors="ignore").encode()
                        done = False
            if done:
                break

    def tryval(self, f):
        try:
            return f()
        except Pending:
            return None

    def try_eq(self, t):
        a, b = t[1], t[2]
        if isinstance(b, str):
            b = kstr(b)
        if t[0] == "streq":
            # equal in lower or in upper case
            fa, fb = folded(a), folded(b)
            if fa and fb and fa[0] == fb[0]:
                a, b = self.rng.choice(((fa[1], fb[1]), (fb[1], fa[1])))
                s = self.tryval(lambda: self.string(b))
                if not isinstance(s, str):
                    return False
                s = "".join(self.rng.choice((c, c.swapcase() if len(c.swapcase()) == 1 else c)) for c in s)
                return self.try_eq(("streq", a, kstr(s)))
        for x, y in ((a, b), (b, a)):
            if len(x[1]) == 1 and x[1][0][0] == "sl":
                _, base, lo, hi = x[1][0]
                tx = self.base(base)
                if tx.closed:
                    if not (indexed(base) and not tx.fixed and lo == L(0) and hi == L(("len", base))):
                        continue
                    # made up, and nothing has been made to agree with it yet
                    s = self.tryval(lambda: self.string(y))
                    if isinstance(s, str):
                        if t[0] == "eqic" and self.rng.random() < 0.7:
                            s = self.rng.choice((s.upper(), s.lower(), s.swapcase())) if s.isascii() else s
                        tx.b = s.encode()
                        tx.fixed = True
                        for p in y[1]:
                            if p[0] == "sl":
                                self.base(p[1]).fixed = True
                        return True
                    continue
                s = self.tryval(lambda: self.string(y))
                l = self.tryval(lambda: self.lin(lo))
                if isinstance(s, str) and (l == len(tx.b) or l == 0 and hi == L(("len", base)) and not tx.fixed or (base, lo) in self.stops and self.stops[base, lo] == (l, len(tx.b))):
                    # also over the character written there for being no part of what precedes
                    tx.b = tx.b[:l]
                    if t[0] == "eqic" and self.rng.random() < 0.5:
                        s = s.upper() if self.rng.random() < 0.5 else s.capitalize()
                    tx.b += s.encode()
                    self.ends.add(hi)
                    tx.fixed = True
                    if hi == L(("len", base)):
                        tx.closed = True
                    return True
        return False

    def place_char(self, f):
        b, h, p, cc = f
        pos = self.tryval(lambda: self.lin(p))
        if pos is None:
            return False
        t = self.base(b)
        if t.closed:
            return True
        if pos < len(t.b):
            return True
        whole_hi = h == L(("len", b))
        hv = None if whole_hi else self.tryval(lambda: self.lin(h))
        if hv is not None and pos >= hv:
            return True
        if not cc.noeof().empty() and cc.eof and self.rng.random() < 0.5:
            return False if pos == len(t.b) else True
        if cc == EOF or (cc.eof and self.rng.random() < 0.4 and whole_hi):
            if whole_hi and pos == len(t.b):
                t.closed = True
                return True
            return cc == EOF
        while len(t.b) < pos:
            t.b += self.rng.choice("ab1x ").encode()
        c = self.hint(cc) if any(len(h) == 1 for h in self.hints) else None
        if c is None or len(c) != 1:
            c = cc_sample(cc.noeof(), self.rng)
        if c is None:
            raise Reject()
        t.b += c.encode()
        return True

    def numeral(self, b, hi):
        """Where the facts want a number of some size read from the text that ends here, write one."""
        for lo, radix, ns in self.nums.get((b, hi), ()):
            l = self.tryval(lambda: self.lin(lo))
            t = self.base(b)
            if l is None or l > len(t.b) or self.rng.random() < 0.2:
                continue
            n = self.rng.choice(ns)
            d = "0123456789abcdefghijklmnopqrstuvwxyz"
            out = ""
            m = abs(n)
            while m or not out:
                out = d[m % radix] + out
                m //= radix
            if self.rng.random() < 0.25:
                # the same number, written otherwise
                out = self.rng.choice(("0", "00") if n < 0 else ("+", "0", "00", "+0")) + out
            t.b = t.b[:l] + (("-" if n < 0 else "") + out).encode()

    def fact_at(self, b, h, pos):
        """Class required at the concrete position by facts whose position is known."""
        cc = ANY
        for (bb, hh, p), c in self.st.chars.items():
            if bb == b and p is not None:
                x = self.tryval(lambda: self.lin(p))
                if x == pos:
                    cc = cc & (c if hh == h else c | EOF)
        return cc

    def generate(self, v):
        rng = self.rng
        k = v[0]
        if k == "scan":
            _, b, hi, lo, cls = v
            l = self.tryval(lambda: self.lin(lo))
            if l is None:
                return False
            t = self.base(b)
            if t.closed:
                return True
            if l > len(t.b):
                return False
            # follow what is there
            p = l
            while p < len(t.b):
                c = self.charat(b, p)
                if not cc_has(cls, c):
                    return True
                p += len(c.encode())
            if L(v) not in self.ends:
                self.extend(b, cls, rng.choice((0, 0, 1, 1, 2, 3)), self.want.get(v, 0))
                self.numeral(b, L(v))
                for e, x in self.st.bools.items():
                    if x and isinstance(e, tuple) and len(e) == 5 and e[0] == "endswith" and e[1] == b and e[2] == L(v) and isinstance(e[4], str) and \
                            not t.b[l:].endswith(e[4].encode()):
                        t.b += e[4].encode()
            # stop: what the facts say about the character after the run
            stop = self.st.chars.get((b, hi, L(v)), ANY) & ~cls
            if stop.empty():
                raise Reject()
            if not stop.noeof().empty() and not (stop.eof and rng.random() < 0.35):
                c = cc_sample(stop.noeof(), rng)
                if c is None:
                    raise Reject()
                n = len(t.b)
                t.b += c.encode()
                self.stops[b, L(v)] = (n, len(t.b))
            elif hi == L(("len", b)):
                t.closed = True
            self.memo[v] = p
            return True
        if k in ("find", "rfind"):
            _, b, hi, lo, needle = v
            l = self.tryval(lambda: self.lin(lo))
            if l is None:
                return False
            t = self.base(b)
            if t.closed:
                return True
            if l > len(t.b):
                return False
            if needle.encode() in t.b[l:]:
                return True
            self.extend(b, ANYCHAR & CC.chars(needle).compl(), rng.choice((0, 0, 1, 2)), self.want.get(v, 0))
            if self.hints and rng.random() < 0.25:
                # (something looked for may overlap what is found)
                t.b += (self.hint(ANYCHAR) or needle[:1]).encode()
            t.b += needle.encode()
            return True
        if k == "sfind":
            _, b, hi, lo, needle = v
            l = self.tryval(lambda: self.lin(lo))
            nd = self.tryval(lambda: self.string(needle))
            if l is None or nd is None:
                return False
            t = self.base(b)
            if t.closed:
                return True
            if l > len(t.b):
                return False
            if isinstance(nd, str):
                if nd.encode() not in t.b[l:]:
                    self.extend(b, ANYCHAR & CC.chars(nd).compl() if nd else ANYCHAR, rng.choice((0, 0, 1, 2)))
                    t.b += nd.encode()
            else:
                self.extend(b, ANYCHAR, rng.choice((0, 1, 2)))
            return True
        if k == "cpos":
            _, b, hi, lo, n = v
            l, i = self.tryval(lambda: self.lin(lo)), self.tryval(lambda: self.lin(n))
            if l is None or i is None:
                return False
            t = self.base(b)
            if t.closed:
                return True
            if not 0 <= i < 400:
                raise Reject()
            while len(t.b[l:].decode(errors="replace")) <= i:
                t.b += (cc_sample(ANYCHAR, rng) if rng.random() < 0.2 else rng.choice("ab1x")).encode()
            return True
        if k == "lpos":
            _, b, hi, lo, _ = v
            l = self.tryval(lambda: self.lin(lo))
            if l is None:
                return False
            t = self.base(b)
            if t.closed or hi != L(("len", b)):
                return True
            cc = self.st.chars.get((b, hi, L(v)), ANYCHAR).noeof()
            self.extend(b, ANYCHAR, rng.choice((0, 1, 1, 2)), self.want.get(("len", b), 0))
            self.extend(b, cc, 1)
            t.closed = True
            return True
        if k == "after":
            _, T, b, hi, lo = v
            l = self.tryval(lambda: self.lin(lo))
            if l is None:
                return False
            t = self.base(b)
            if t.closed:
                return True
            if l > len(t.b):
                return False
            if hi != L(("len", b)):
                return True
            n = len(t.b) - l
            if n and rng.random() < 0.3:
                n = rng.randrange(0, n)
                if t.b[l + n] & 0xC0 == 0x80:
                    n = len(t.b) - l
            else:
                for _ in range(rng.choice((0, 0, 1, 1, 2))):
                    t.b += (self.hint(ANYCHAR) or rng.choice("ab1x")).encode()
                w = self.want.get(v, 0)
                if w > len(t.b):
                    t.b += rng.choice("ab1x").encode() * (w - len(t.b))
                n = len(t.b) - l
            self.plan[v] = n
            return True
        if k == "rscan":
            _, b, lo, hi, cls = v
            l = self.tryval(lambda: self.lin(lo))
            if l is None:
                return False
            t = self.base(b)
            if t.closed:
                return True
            if hi == L(("len", b)):
                self.extend(b, cls.compl(), rng.choice((0, 1, 1, 2)), self.want.get(("len", b), 0))
                self.extend(b, cls, rng.choice((0, 0, 1, 2)))
                t.closed = True
            return True
        return True

    def extend(self, b, cls, n, upto=0):
        t = self.base(b)
        for _ in range(n):
            c = self.hint(cls) or cc_sample(cls.noeof(), self.rng)
            if c is None:
                return
            t.b += c.encode()
        if len(t.b) < upto:
            c = cc_sample(cls.noeof(), self.rng)
            if c is not None:
                t.b += c.encode() * ((upto - len(t.b) + len(c.encode()) - 1) // len(c.encode()))

    def hint(self, cls):
        """Something one of the compared values looks for."""
        if self.hints and self.rng.random() < 0.4:
            h = self.rng.choice(self.hints)
            if all(cc_has(cls, c) for c in h):
                return h
        return None

    # ------------------------------------------------------------ checking
    def check(self):
        st = self.st
        for (b, h, p), cc in st.chars.items():
            if p is None:
                if isinstance(b, tuple) and b and b[0] == "ct":
                    if not cc_has(cc, self.char(("chs", b[1]))):
                        return False
                continue
            pos, hv = self.lin(p), self.lin(h)
            if pos > hv or pos < 0:
                return False
            if pos == hv:
                if not cc.eof:
                    return False
                continue
            c = self.charat(b, pos)
            if c is None or not cc_has(cc, c):
                return False
        for b, h, p, seq in st.negs:
            pos, hv = self.lin(p), self.lin(h)
            for cc in seq:
                c = self.charat(b, pos) if pos < hv else None
                if c is None or not cc_has(cc, c):
                    break
                pos += len(c.encode())
            else:
                return False
        for e in st.lins:
            n = self.lin(e)
            if n < 0:
                self.short(e, -n)
                return False
        for e in st.neqs:
            if self.lin(e) == 0:
                return False
        seen = {}
        for t, v in st.bools.items():
            r = self.truth(t)
            if r is not None:
                if r != v:
                    return False
            else:
                k = ("b", self.key(t))
                if seen.setdefault(k, v) != v:
                    return False
        for t, f in st.variants.items():
            if f[0] is None:
                continue
            if not self.variant_ok(t, f[0]):
                return False
            k = ("v", self.key(t))
            if seen.setdefault(k, f[0]) != f[0]:
                return False
        return True

    def short(self, e, n):
        """A distance is too small by n: what to make longer next time."""
        if n > 1 << 22:
            return
        for v, k in e.t:
            if k > 0 and isinstance(v, tuple) and v and v[0] in ("len", "scan", "find", "after", "nchars") and not self.is_free(v):
                if v[0] == "nchars":
                    for b, t in self.text.items():
                        self.wanted[("len", self.names[b])] = len(t.b) + n
                    continue
                x = self.int(v) + (n + k - 1) // k
                self.wanted[v] = max(x, self.wanted.get(v, 0) if self.wanted.get(v, 0) < 1 << 22 else 0)

        free = [(v, k) for v, k in e.t if self.is_free(v)]
        if free and n < 64:
            v, k = self.rng.choice(free)
            x = self.int(v) + (n + k - 1) // k if k > 0 else self.int(v) - (n - k - 1) // -k
            if x >= 0:
                self.wanted[v] = x

    def is_free(self, v):
        """Is the number v one that nothing else fixes?"""
        if not isinstance(v, tuple):
            return True
        if v[0] == "len":
            return ("len", v[1]) in self.freekeys
        return ("int", v) in self.freekeys

    def wish(self, v, make):
        """A value an earlier attempt would have needed for v, or any."""
        return self.want[v] if v in self.want and self.rng.random() < 0.85 else make()

    def variant_ok(self, t, idx):
        if isinstance(t, tuple) and t and t[0] == "parse" and t[1] in INTS:
            s = self.string(t[2])
            if isinstance(s, str):
                return (parse_int(s, t[1]) is not None) == (idx == 0)
        if isinstance(t, tuple) and t and t[0] == "radix" and t[1] in INTS:
            s = self.string(t[2])
            if isinstance(s, str):
                return (parse_int(s, t[1], self.lin(t[3])) is not None) == (idx == 0)
        if isinstance(t, tuple) and t and t[0] == "from_u32":
            n = self.key(t[1])
            if isinstance(n, int):
                return (0 <= n < 0xD800 or 0xE000 <= n < 0x110000) == (idx == 1)
        return True

    def final_int(self, v):
        return None


class Pending(Exception):
    pass


INTS = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1), "i8": (-128, 127), "i16": (-2**15, 2**15 - 1),
        "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1), "u128": (0, 2**128 - 1), "i128": (-2**127, 2**127 - 1)}


def parse_int(s, t, radix=10):
    lo, hi = INTS[t]
    r = s
    if r[:1] == "+":
        r = r[1:]
    elif r[:1] == "-" and lo < 0:
        r = r[1:]
    if not r or not r.isascii() or not r.isalnum():
        return None
    try:
        n = int(r, radix)
    except ValueError:
        return None
    if s[0] == "-":
        n = -n
    return n if lo <= n <= hi else None


def walk(t, f, seen):
    if isinstance(t, Lin):
        if id(t) in seen:
            return
        seen.add(id(t))
        for v, _ in t.t:
            walk(v, f, seen)
        return
    if isinstance(t, tuple):
        if id(t) in seen:
            return
        seen.add(id(t))
        f(t)
        for x in t:
            if isinstance(x, (tuple, Lin)):
                walk(x, f, seen)


def all_terms(st, values, f):
    seen = set()
    for (b, h, p), cc in st.chars.items():
        walk((b, h, p), f, seen)
    for e in st.lins + st.neqs:
        walk(e, f, seen)
    for t in st.bools:
        walk(t, f, seen)
    for t in st.variants:
        walk(t, f, seen)
    for v in values:
        walk(v, f, seen)


def collect_bases(st, values):
    out = {}

    def f(t):
        if not t:
            return
        if t[0] == "sl" and len(t) == 4 and isinstance(t[2], Lin):
            out[t[1]] = 1
        elif t[0] in ("scan", "find", "rfind", "hasfind", "hasrfind", "rscan", "endswith", "cpos", "hascpos", "sfind", "hassfind", "lpos") and len(t) == 5:
            out[t[1]] = 1
        elif t[0] == "after" and len(t) == 5:
            out[t[2]] = 1
        elif t[0] == "at" and len(t) == 4:
            out[t[1]] = 1
        elif t[0] == "clen" and len(t) == 4 and t[2] is not None:
            out[t[1]] = 1
    all_terms(st, values, f)
    for (b, h, p) in st.chars:
        if p is not None:
            out[b] = 1
    return [b for b in out if not indexed(b)]


def gather(st, values):
    return frozenset(collect_bases(st, values)), collect_pos(st, values), collect_numbers(st), collect_bounds(st)


def collect_bounds(st):
    """What the facts say of single numbers: {term: (lowest, highest)}."""
    out = {}
    for e in st.lins:
        if len(e.t) == 1:
            v, k = e.t[0]
            lo, hi = out.get(v, (None, None))
            if k > 0:
                n = -(e.c // k)
                lo = n if lo is None else max(lo, n)
            else:
                n = e.c // -k
                hi = n if hi is None else min(hi, n)
            out[v] = lo, hi
    return out


def collect_numbers(st):
    """Numbers read from texts, with values at the borders of what the facts allow: {(base, end): [(start, radix, values)]}."""
    bounds = {}
    for e in st.lins:
        if len(e.t) == 1:
            v, k = e.t[0]
            if isinstance(v, tuple) and len(v) == 3 and v[0] == "f" and v[2] == "Ok.0" and isinstance(v[1], tuple) and v[1][0] in ("parse", "radix") and v[1][1] in INTS:
                lo, hi = bounds.get(v, INTS[v[1][1]])
                if k > 0:
                    lo = max(lo, -(e.c // k))
                else:
                    hi = min(hi, e.c // -k)
                bounds[v] = lo, hi
    out = {}
    for v, (lo, hi) in bounds.items():
        s = v[1][2]
        if lo > hi or s[0] != "str" or len(s[1]) != 1 or s[1][0][0] != "sl":
            continue
        radix = 10
        if v[1][0] == "radix":
            radix = v[1][3].c if isinstance(v[1][3], Lin) and not v[1][3].t else v[1][3]
            if not isinstance(radix, int) or not 2 <= radix <= 36:
                continue
        _, b, l, h = s[1][0]
        out.setdefault((b, h), []).append((l, radix, sorted({lo, min(lo + 1, hi), (lo + hi) // 2, hi})))
    return out


HI = {"scan": 2, "find": 2, "sfind": 2, "cpos": 2, "after": 3}


def collect_pos(st, values):
    out = {}

    def depth(v, n=0):
        d = 0
        for i, x in enumerate(v):
            # where a search ends is not needed to write what it finds
            if i == HI.get(v[0]):
                continue
            if isinstance(x, Lin):
                for w, _ in x.t:
                    if isinstance(w, tuple):
                        d = max(d, 1 + depth(w, n + 1)) if n < 40 else d
        return d

    def f(t):
        if t and t[0] == "hasfind" and len(t) == 5 and st.bools.get(t):
            t = ("find",) + t[1:]
        if t and t[0] in ("scan", "find", "rfind", "rscan", "after", "cpos", "sfind", "lpos") and len(t) == 5:
            if t not in out:
                i = HI.get(t[0])
                out[t] = (depth(t), 1 if i is not None and t[i] == L(("len", t[i - 1])) else 0)
    all_terms(st, values, f)
    for t in list(out):
        # what is found before the end of a search is written before that end is
        i = HI.get(t[0])
        w = t[i].t[0][0] if i is not None and isinstance(t[i], Lin) and len(t[i].t) == 1 else None
        if w in out and w[0] == "find":
            out[w] = max(out[w], (out[t][0], 1))
    return sorted((t for t in out if not indexed(t)), key=lambda t: out[t])


def witness(st, va, vb, tries=400, seed=1, differ=None, unit=None):
    """An assignment satisfying the facts of st under which va and vb read differently; None if none was found.
    va, vb: frozen values."""
    ok = 0
    hints = looked_for(va, vb) + borders(st)
    want = {}
    shared = gather(st, (va, vb))
    if hints:
        tries, enough = 3 * tries, 160
    else:
        enough = 40
    for n in range(tries):
        rng = random.Random(seed * 100003 + n)
        c = Conc(st, rng, (va, vb))
        c.hints = hints
        c.shared = shared
        c.wanted = want
        if n % 2 and want:
            c.want = dict(want)
        if unit:
            c.unit = lambda t, c=c: unit(c, t)
        try:
            c.build()
            if not c.check():
                continue
            a, b = c.value(va), c.value(vb)
        except (Reject, Pending):
            continue
        ok += 1
        if a != b:
            if differ is None or differ(a, b):
                return c, a, b
        if ok >= enough:
            break
    return ok


# characters on which an operation does something
CASED = ("a", "A", "ß", "\u01c5", "\u03a3", "\u0130")
SENSITIVE = {"line": ("\r",), "lowercase": CASED, "uppercase": CASED, "to_lowercase": CASED, "to_uppercase": CASED, "ascii_lowercase": CASED[:3],
             "ascii_uppercase": CASED[:3], "to_ascii_lowercase": CASED[:3], "to_ascii_uppercase": CASED[:3], "eqic": CASED[:2], "ceqic": CASED[:2],
             "parse": ("+", "-", "0", "7"), "radix": ("+", "-", "0", "a", "F")}


def around(n):
    return [chr(m) for m in (n - 1, n, n + 1) if 0 <= m < 0xD800 or 0xE000 <= m < 0x110000]


def folded(s):
    """(operation, text) of a string that is another one in lower or upper case."""
    if len(s[1]) == 1 and s[1][0][0] == "x" and isinstance(s[1][0][1], tuple) and len(s[1][0][1]) == 2 and "case" in s[1][0][1][0] and s[1][0][1][1][0] == "str":
        return s[1][0][1]
    return None


def borders(st):
    """Characters next to the ends of the ranges the facts place characters in, and such as change case."""
    out = set()
    for t in st.bools:
        if isinstance(t, tuple) and t and t[0] == "streq":
            walk(t, lambda u: out.update(CASED + ("é",)) if u and isinstance(u[0], str) and u[0].endswith("case") else None, set())
        if isinstance(t, tuple) and len(t) == 4 and t[0] == "charcmp" and isinstance(t[3], int) and t[3] > 127:
            out.update(around(t[3]))
    return tuple(sorted(out)[:12])


def looked_for(va, vb):
    """Strings and characters that only one of two values looks for."""
    xs, ys = set(), set()
    for v, o in ((va, xs), (vb, ys)):
        walk(v, lambda t, o=o: o.add(t) if t and t[0] in ("scan", "rscan", "replace", "contains", "find", "rfind", "sfind", "x", "cls", "ccount", "charcmp") or t and t[0] in SENSITIVE else None, set())
    out = []
    for t in xs ^ ys:
        if t[0] in SENSITIVE:
            out += SENSITIVE[t[0]]
        if t[0] == "charcmp" and isinstance(t[3], int):
            out += around(t[3])
        if t[0] in ("scan", "rscan", "cls", "ccount"):
            cc = t[-1]
            if isinstance(cc, CC):
                n = [c for c in POOL if cc_has(cc, c)]
                if 0 < len(n) <= 24:
                    out += n[:4]
                out += [chr(k) for k, _ in sorted(cc.s)[:6]]
        elif t[0] in ("find", "rfind") and len(t) == 5 and isinstance(t[4], str):
            out.append(t[4])
        else:
            walk(t, lambda u: out.append(u[1]) if len(u) == 2 and u[0] == "k" and isinstance(u[1], str) and 0 < len(u[1]) < 12 else None, set())
    return tuple(sorted(set(out), key=lambda h: (len(h), h))[:12])


def describe(c):
    out = []
    for b, t in c.text.items():
        try:
            out.append("%s=%s" % (short(show(c.names[b])), short(t.b.decode())))
        except UnicodeDecodeError:
            out.append("%s=%r" % (short(show(c.names[b])), t.b))
    for k, v in list(c.free.items())[:8]:
        out.append("%s:%s=%r" % (k[0], short(k[1]), v))
    return ", ".join(out)


def short(x):
    s = repr(x)
    return s if len(s) < 120 else s[:117] + "..."
