"""Path-partitioned abstract interpretation of exported MIR.

Bodies are interpreted over the abstract domains of core.py.  Branches on undetermined conditions partition the
abstract state; loops are summarised by widening (one generalised iteration), never unrolled on symbolic data.
"""
import sys, itertools
from core import *

sys.setrecursionlimit(20000)


class Outcome:
    __slots__ = ("kind", "st", "v", "info")

    def __init__(self, kind, st, v=None, info=None):
        self.kind, self.st, self.v, self.info = kind, st, v, info

    def __repr__(self):
        return "<%s %s %s>" % (self.kind, showv(self.v), self.info or "")


def ret(st, v):
    return Outcome("ret", st, v)


def showv(v, d=0):
    if isinstance(v, Lin):
        return repr(v)
    if v is True or v is False or v is None:
        return str(v)
    if isinstance(v, tuple) and v:
        k = v[0]
        if d > 8:
            return "..."
        if k == "adt":
            return "%s#%d%s" % (v[1].split("::")[-1], v[2], "(" + ", ".join(showv(x, d + 1) for x in v[3]) + ")" if v[3] else "")
        if k == "tup":
            return "(" + ", ".join(showv(x, d + 1) for x in v[1]) + ")"
        if k == "str":
            return "+".join(showp(p) for p in v[1]) or '""'
        if k == "cow":
            return "cow%s:%s" % (v[1], showv(v[2], d + 1))
        if k == "seq":
            return "[" + ", ".join(showseg(s, d + 1) for s in v[1]) + "]"
        if k == "sym":
            return show(v[1])
        if k == "ch":
            return repr(chr(v[1]))
        if k == "ref":
            return "&" + show(v[1]) + "".join("." + (str(x) if not isinstance(x, tuple) else show(x)) for x in v[2])
        if k == "clo":
            return "closure:" + v[1]
        if k == "fn":
            return "fn:" + v[1].get("path", "?")
        return show(v)
    return str(v)


def showp(p):
    if p[0] == "k":
        return repr(p[1])
    if p[0] == "sl":
        return "%s[%s..%s]" % (show(p[1]), show(p[2]), show(p[3]))
    return show(p)


def showseg(s, d=0):
    if s[0] == "v":
        return showv(s[1], d + 1)
    return "%s[%s..%s]" % (show(s[1]), show(s[3]), show(s[4]))


class LoopSummary:
    def __init__(self, lid, where):
        self.id = lid
        self.where = where
        self.pre = {}        # (cell,path) -> initial value
        self.gen = {}        # (cell,path) -> generalised value
        self.head = None     # State at the generalised head
        self.iters = []      # States at the end of one iteration (back edge)
        self.entry = None

    def __repr__(self):
        return "<loop %s at %s, %d iteration paths>" % (self.id, self.where, len(self.iters))


class Interp:
    def __init__(self, dump, opaque=None, limits=None):
        self.d = dump
        self.T = dump["types"]
        self.bodies = dump["bodies"]
        self.opaque = opaque            # callable(interp, st, fj, args, site) -> list[Outcome] | None
        self.fid = itertools.count(1)
        self.lid = itertools.count(1)
        self.uid = itertools.count(1)
        self.frame_body = {}
        self.cell_ty = {}
        self.loopinfo = {}
        self.steps = 0
        self.max_steps = (limits or {}).get("steps", 3_000_000)
        self.max_paths = (limits or {}).get("paths", 20000)
        self.stack = []
        self.at = None
        self.notes = set()              # unmodelled constructs met
        self.loops = {}
        self.visited = set()            # body ids interpreted
        self.callsites = 0
        self.by_path = {}
        for b in self.bodies:
            self.by_path.setdefault(b["path"], []).append(b)
        self.pending = []
        self.seq_elem_ty = {}
        self.impls = {}
        for b in self.bodies:
            if b.get("trait") and b.get("selfty") is not None and not b["closure"]:
                t = self.T[b["selfty"]]
                if t["k"] == "adt":
                    self.impls.setdefault((b["trait"], b["path"].rsplit("::", 1)[-1], t["path"]), b)
        import models
        self.models = models.MODELS
        self.model_fallback = models.fallback

    def find_impl(self, trait, name, selfpath):
        return self.impls.get((trait, name, selfpath))

    def unknown_call(self, st, f, args, site):
        return None

    # ---------------------------------------------------------------- types
    def ty(self, t):
        return self.T[t]

    def tykind(self, t):
        return self.T[t]["k"]

    def is_str_ref(self, t):
        ty = self.T[t]
        return ty["k"] in ("ref", "ptr") and self.T[ty["e"]]["k"] == "str"

    def adt_path(self, t):
        ty = self.T[t]
        return ty["path"] if ty["k"] == "adt" else None

    def is_cow_str(self, t):
        ty = self.T[t]
        return ty["k"] == "adt" and ty["path"] == "std::borrow::Cow" and self.T[ty["args"][0]]["k"] == "str"

    def find_ty(self, s):
        for i, t in enumerate(self.T):
            if t["s"] == s:
                return i
        return None

    # ---------------------------------------------------------------- symbols
    def mk(self, term, t):
        """Abstract value for 'any value of type t, named term'."""
        ty = self.T[t]
        k = ty["k"]
        if k in ("uint", "int"):
            return L(term)
        if k == "bool":
            return ("cond", ("b", term))
        if k == "char":
            return ("chs", term)
        if k in ("ref", "ptr"):
            e = self.T[ty["e"]]
            if e["k"] == "str":
                return whole(term)
            if e["k"] == "slice":
                cell = ("*", term)
                self.cell_ty[cell] = ty["e"]
                return ("sref", cell, (), L(0), L(("len", term)), e["e"])
            cell = ("*", term)
            self.cell_ty[cell] = ty["e"]
            return ("ref", cell, ())
        if k == "str":
            return whole(term)
        if k == "adt":
            p = ty["path"]
            if p == "std::string::String":
                return whole(term)
            if self.is_cow_str(t):
                return ("cow", "?", whole(term), term)
            if p in ("std::vec::Vec", "std::vec::IntoIter", "std::collections::VecDeque"):
                return ("seq", (("s", term, ty["args"][0], L(0), L(("len", term))),))
            if p == "std::boxed::Box" or p == "std::rc::Rc" or p == "std::sync::Arc":
                e = self.T[ty["args"][0]]
                if e["k"] == "str":
                    return whole(term)
                cell = ("*", term)
                self.cell_ty[cell] = ty["args"][0]
                return ("box", cell)
            if p == "std::ops::Range":
                return ("adt", p, 0, (self.mk(("f", term, "start"), ty["args"][0]), self.mk(("f", term, "end"), ty["args"][0])))
            if p == "std::str::Chars":
                return ("it", "chars", whole(term))
            if p == "std::slice::Iter":
                cell = ("*", term)
                e = ty["args"][-1]
                self.cell_ty[cell] = None
                self.slice_elem[cell] = e
                return ("sref", cell, (), L(0), L(("len", term)), e)
            if ty["kind"] == "struct" and "v" in ty:
                return self.mk_struct(ty, term) if len(ty["v"][0]["f"]) <= 12 and not p.startswith("std::") else ("sym", term, t)
        if k == "tuple":
            return ("tup", tuple(self.mk(("f", term, str(i)), ft) for i, ft in enumerate(ty["f"])))
        if k == "array":
            if ty["n"] is not None and ty["n"] <= 16:
                return ("seq", tuple(("v", self.mk(("elem", term, L(i)), ty["e"])) for i in range(ty["n"])))
            return ("seq", (("s", term, ty["e"], L(0), L(("len", term))),))
        if k == "slice":
            return ("seq", (("s", term, ty["e"], L(0), L(("len", term))),))
        if k == "closure":
            return ("sym", term, t)
        if k == "fndef":
            return ("sym", term, t)
        return ("sym", term, t)

    slice_elem = {}

    def mk_struct(self, ty, term):
        fixed = ty.get("fixed")
        if not fixed:
            return ("adt", ty["path"], 0, tuple(self.mk(("f", term, n), ft) for n, ft in ty["v"][0]["f"]))
        out = []
        for n, ft in ty["v"][0]["f"]:
            c = fixed.get(n)
            if c is None:
                out.append(self.mk(("f", term, n), ft))
            elif c[0] == "k" and "v" in c[1]:
                out.append(self.cval(c[1]["v"], c[1]["ty"]))
            elif c[0] == "none":
                out.append(("adt", "std::option::Option", 0, ()))
            elif c[0] == "seq":
                out.append(("seq", ()))
            elif c[0] == "str":
                out.append(kstr(""))
            else:
                out.append(self.mk(("f", term, n), ft))
        return ("adt", ty["path"], 0, tuple(out))

    def expand(self, st, v, want=None):
        """Expand an enum symbol as the given variant (facts must already say so)."""
        if v[0] != "sym":
            return v
        w = self.mk(v[1], v[2])
        if w[0] != "sym":
            return w
        ty = self.T[v[2]]
        if ty["k"] != "adt" or "v" not in ty:
            raise Unsupported("expand %s" % ty["s"])
        if ty["kind"] != "enum":
            return self.mk_struct(ty, v[1])
        idx = want
        if idx is None:
            f = st.variants.get(v[1])
            if not f or f[0] is None:
                return v
            idx = f[0]
        var = ty["v"][idx]
        return ("adt", ty["path"], idx, tuple(self.mk(("f", v[1], var["n"] + "." + n), ft) for n, ft in var["f"]))

    def assume_variant(self, st, v, idx):
        if v[2] is not None and idx >= self.T[v[2]].get("common", 1 << 30):
            raise Infeasible()
        f = st.variants.get(v[1], (None, frozenset()))
        if f[0] is not None:
            if f[0] != idx:
                raise Infeasible()
            return
        if idx in f[1]:
            raise Infeasible()
        st.variants[v[1]] = (idx, frozenset())

    def exclude_variants(self, st, v, idxs):
        f = st.variants.get(v[1], (None, frozenset()))
        if f[0] is not None:
            if f[0] in idxs:
                raise Infeasible()
            return
        ex = f[1] | frozenset(idxs)
        n = min(len(self.T[v[2]]["v"]), self.T[v[2]].get("common", 1 << 30))
        left = [i for i in range(n) if i not in ex]
        if not left:
            raise Infeasible()
        if len(left) == 1:
            st.variants[v[1]] = (left[0], frozenset())
        else:
            st.variants[v[1]] = (None, ex)

    def variant_cases(self, st, v):
        """[(state, expanded value)] for every possible variant of an enum symbol."""
        if v[0] == "cow":
            if v[1] != "?":
                return [(st, v)]
            f = st.variants.get(v[3])
            out = []
            for i, k in ((0, "B"), (1, "O")):
                if f and f[0] is not None and f[0] != i:
                    continue
                s = st.copy()
                s.variants[v[3]] = (i, frozenset())
                out.append((s, ("cow", k, v[2])))
            return out
        if v[0] != "sym":
            return [(st, v)]
        ty = self.T[v[2]]
        if ty["k"] != "adt" or ty["kind"] != "enum" or "v" not in ty:
            return [(st, v)]
        out = []
        for i in range(len(ty["v"])):
            s = st.copy()
            try:
                self.assume_variant(s, v, i)
            except Infeasible:
                continue
            out.append((s, self.expand(s, v, i)))
        return out

    # ---------------------------------------------------------------- memory
    def cell_value(self, st, cell):
        v = st.store.get(cell)
        if v is None:
            if cell[0] == "*":
                if cell in self.slice_elem:
                    v = ("seq", (("s", cell[1], self.slice_elem[cell], L(0), L(("len", cell[1]))),))
                else:
                    v = self.mk(cell[1], self.cell_ty[cell])
                st.store[cell] = v
            elif cell in self.konst_cells:
                v = self.konst_cells[cell]
                st.store[cell] = v
            else:
                return ("uninit",)
        return v

    def type_at(self, cell, path):
        if cell[0] == "*":
            t = self.cell_ty.get(cell)
        elif isinstance(cell[0], int):
            b = self.frame_body.get(cell[0])
            t = b["locals"][cell[1]] if b else None
        else:
            t = self.cell_ty.get(cell)
        for p in path:
            if t is None:
                return None
            ty = self.T[t]
            if isinstance(p, tuple) and p[0] == "e":
                if ty["k"] in ("array", "slice"):
                    t = ty["e"]
                elif ty["k"] == "adt" and ty.get("args"):
                    t = ty["args"][0]
                else:
                    return None
            elif isinstance(p, tuple) and p[0] == "vf":
                if ty["k"] == "adt" and "v" in ty and p[1] < len(ty["v"]) and p[2] < len(ty["v"][p[1]]["f"]):
                    t = ty["v"][p[1]]["f"][p[2]][1]
                else:
                    return None
            elif isinstance(p, int):
                if ty["k"] in ("tuple", "closure"):
                    t = ty["f"][p] if p < len(ty["f"]) else None
                elif ty["k"] == "adt" and "v" in ty and len(ty["v"]) == 1:
                    t = ty["v"][0]["f"][p][1]
                else:
                    return None
            else:
                return None
        return t

    def get(self, st, v, path):
        for i, p in enumerate(path):
            v = self.step_get(st, v, p)
        return v

    def step_get(self, st, v, p):
        k = v[0] if isinstance(v, tuple) else None
        if isinstance(p, tuple) and p[0] == "vf":
            if k == "sym":
                v = self.expand(st, v, p[1])
                k = v[0]
            if k == "cow":
                return v[2]
            if k == "adt":
                if v[2] != p[1]:
                    return ("uninit",)
                return v[3][p[2]]
            raise Unsupported("variant field of %s" % showv(v))
        if isinstance(p, int):
            if k == "sym":
                v = self.expand(st, v)
                k = v[0]
            if k == "adt":
                if p >= len(v[3]):
                    raise Unsupported("field %s of %s" % (p, showv(v)))
                return v[3][p]
            if k == "tup":
                return v[1][p]
            if k == "clo":
                return v[3][p]
            if k == "box":
                return v
            if k == "itst":
                return v[1][p]
            raise Unsupported("field %s of %s" % (p, showv(v)))
        if isinstance(p, tuple) and p[0] == "e":
            if k == "seq":
                return self.seq_get(st, v, p[1])
            raise Unsupported("element of %s" % showv(v))
        if p == "cow":
            return v[2]
        raise Unsupported("path %s" % (p,))

    def put(self, st, v, path, new):
        if not path:
            return new
        p = path[0]
        k = v[0] if isinstance(v, tuple) else None
        if isinstance(p, tuple) and p[0] == "vf":
            if k == "sym":
                v = self.expand(st, v, p[1])
                k = v[0]
            if k == "cow":
                return ("cow", "O" if p[1] == 1 else "B", self.put(st, v[2], path[1:], new))
            if k != "adt":
                raise Unsupported("put variant field in %s" % showv(v))
            fs = list(v[3])
            fs[p[2]] = self.put(st, fs[p[2]], path[1:], new)
            return ("adt", v[1], v[2], tuple(fs))
        if isinstance(p, int):
            if k == "sym":
                v = self.expand(st, v)
                k = v[0]
            if k == "adt":
                fs = list(v[3])
                fs[p] = self.put(st, fs[p], path[1:], new)
                return ("adt", v[1], v[2], tuple(fs))
            if k == "tup":
                fs = list(v[1])
                fs[p] = self.put(st, fs[p], path[1:], new)
                return ("tup", tuple(fs))
            if k == "clo":
                fs = list(v[3])
                fs[p] = self.put(st, fs[p], path[1:], new)
                return ("clo", v[1], v[2], tuple(fs))
            raise Unsupported("put field %s in %s" % (p, showv(v)))
        if isinstance(p, tuple) and p[0] == "e":
            if k == "seq":
                old = self.seq_get(st, v, p[1]) if len(path) > 1 else None
                return self.seq_put(st, v, p[1], self.put(st, old, path[1:], new) if len(path) > 1 else new)
            raise Unsupported("put element in %s" % showv(v))
        if p == "cow":
            return ("cow", "O", self.put(st, v[2], path[1:], new))
        raise Unsupported("put path %s" % (p,))

    def read(self, st, addr):
        if addr[0] == "val":
            return addr[1]
        cell, path = addr
        return self.get(st, self.cell_value(st, cell), path)

    def write(self, st, addr, v):
        if addr[0] == "val":
            raise Unsupported("write through value address")
        cell, path = addr
        if not path:
            st.store[cell] = v
            return
        base = self.cell_value(st, cell)
        if base == ("uninit",):
            base = self.blank(cell, path)
        st.store[cell] = self.put(st, base, path, v)

    def blank(self, cell, path):
        t = self.type_at(cell, ())
        if t is not None:
            ty = self.T[t]
            if ty["k"] == "tuple":
                return ("tup", tuple(("uninit",) for _ in ty["f"]))
            if ty["k"] == "adt" and ty["kind"] == "struct" and "v" in ty:
                return ("adt", ty["path"], 0, tuple(("uninit",) for _ in ty["v"][0]["f"]))
        raise Unsupported("partial initialisation")

    def new_cell(self, st, v, t=None):
        cell = ("h", next(self.uid))
        st.store[cell] = v
        if t is not None:
            self.cell_ty[cell] = t
        return cell

    # ---------------------------------------------------------------- sequences
    def seq_len(self, v):
        n = L(0)
        for s in v[1]:
            n = n + (L(1) if s[0] == "v" else s[4] - s[3])
        return n

    def seq_find(self, st, v, idx):
        off = L(0)
        for i, s in enumerate(v[1]):
            if s[0] == "v":
                if st.lin_eq(idx, off):
                    return i, None
                off = off + L(1)
            else:
                ln = s[4] - s[3]
                if st.prove(idx - off) and st.prove(off + ln - idx - L(1)):
                    return i, s[3] + idx - off
                off = off + ln
        return None

    def seq_get(self, st, v, idx):
        r = self.seq_find(st, v, idx)
        if r is None:
            raise Unsupported("sequence index %s in %s" % (show(idx), showv(v)))
        i, k = r
        s = v[1][i]
        if s[0] == "v":
            return s[1]
        return self.elem(st, s, k)

    def elem(self, st, seg, k):
        return self.mk(("elem", seg[1], st.norm(k)), seg[2])

    def seq_put(self, st, v, idx, new):
        r = self.seq_find(st, v, idx)
        if r is None:
            raise Unsupported("sequence store %s in %s" % (show(idx), showv(v)))
        i, k = r
        s = v[1][i]
        segs = list(v[1])
        if s[0] == "v":
            segs[i] = ("v", new)
        else:
            rep = []
            if not st.lin_eq(k, s[3]):
                rep.append(("s", s[1], s[2], s[3], k))
            rep.append(("v", new))
            if not st.lin_eq(k + L(1), s[4]):
                rep.append(("s", s[1], s[2], k + L(1), s[4]))
            segs[i:i + 1] = rep
        return ("seq", tuple(segs))

    def seq_pop_front(self, st, v):
        """[(state, elem or None, rest)]"""
        segs = v[1]
        if not segs:
            return [(st, None, v)]
        s = segs[0]
        if s[0] == "v":
            return [(st, s[1], ("seq", segs[1:]))]
        out = []
        for st2, ne in self.decide(st, ("ge0", s[4] - s[3] - L(1))):
            if ne:
                e = self.elem(st2, s, s[3])
                ns = ("s", s[1], s[2], st2.norm(s[3] + L(1)), s[4])
                rest = ((ns,) if not st2.lin_eq(ns[3], ns[4]) else ()) + segs[1:]
                out.append((st2, e, ("seq", rest)))
            else:
                out += self.seq_pop_front(st2, ("seq", segs[1:]))
        return out

    def seq_pop_back(self, st, v):
        segs = v[1]
        if not segs:
            return [(st, None, v)]
        s = segs[-1]
        if s[0] == "v":
            return [(st, s[1], ("seq", segs[:-1]))]
        out = []
        for st2, ne in self.decide(st, ("ge0", s[4] - s[3] - L(1))):
            if ne:
                e = self.elem(st2, s, s[4] - L(1))
                ns = ("s", s[1], s[2], s[3], st2.norm(s[4] - L(1)))
                rest = segs[:-1] + ((ns,) if not st2.lin_eq(ns[3], ns[4]) else ())
                out.append((st2, e, ("seq", rest)))
            else:
                out += self.seq_pop_back(st2, ("seq", segs[:-1]))
        return out

    # ---------------------------------------------------------------- deciding conditions
    def decide(self, st, c):
        """Partition st by condition c: [(state, bool)]."""
        if c is True or c is False:
            return [(st, c)]
        if isinstance(c, tuple) and c[0] == "cond":
            c = c[1]
            if c is True or c is False:
                return [(st, c)]
        k = c[0]
        if k == "not":
            return [(s, not b) for s, b in self.decide(st, c[1])]
        if k == "and":
            out = []
            for s, b in self.decide(st, c[1]):
                out += self.decide(s, c[2]) if b else [(s, False)]
            return out
        if k == "or":
            out = []
            for s, b in self.decide(st, c[1]):
                out += self.decide(s, c[2]) if not b else [(s, True)]
            return out
        if k == "b":
            r = st.bools.get(c[1])
            if r is not None:
                return [(st, r)]
            out = []
            for b in (True, False):
                s = st.copy()
                s.bools[c[1]] = b
                out.append((s, b))
            return out
        if k == "ge0":
            e = st.norm(c[1])
            if not e.t:
                return [(st, e.c >= 0)]
            if st.prove(e):
                return [(st, True)]
            if st.prove(-e - L(1)):
                return [(st, False)]
            out = []
            for b in (True, False):
                s = st.copy()
                try:
                    s.assume_ge0(e if b else -e - L(1))
                except Infeasible:
                    continue
                out.append((s, b))
            return out
        if k == "eq0":
            e = st.norm(c[1])
            if not e.t:
                return [(st, e.c == 0)]
            p, n = st.prove(e), st.prove(-e)
            if p and n:
                return [(st, True)]
            if st.prove(e - L(1)) or st.prove(-e - L(1)):
                return [(st, False)]
            for q in st.neqs:
                if q == e or q == -e:
                    return [(st, False)]
            out = []
            for b in (True, False):
                s = st.copy()
                try:
                    if b:
                        s.assume_eq0(e)
                    else:
                        s.assume_ne0(e)
                except Infeasible:
                    continue
                out.append((s, b))
            return out
        if k == "cls":
            return self.decide_cls(st, c[1], c[2])
        if k == "variant":       # ('variant', symvalue, idx)
            v = c[1]
            out = []
            for b in (True, False):
                s = st.copy()
                try:
                    if b:
                        self.assume_variant(s, v, c[2])
                    else:
                        self.exclude_variants(s, v, [c[2]])
                except Infeasible:
                    continue
                out.append((s, b))
            return out
        if k == "streq":
            return self.decide_streq(st, c[1], c[2])
        raise Unsupported("decide %s" % (c,))

    def decide_cls(self, st, ch, cc):
        cc = cc.noeof()
        if ch[0] == "ch":
            return [(st, not (CC.chars([ch[1]]) & cc).empty())]
        t = ch[1]
        out = []
        if t[0] == "at":
            _, base, hi, pos = t
            cur = st.charat(base, hi, pos).noeof()
            if cur.subset(cc):
                return [(st, True)]
            if cur.disjoint(cc):
                return [(st, False)]
            for b in (True, False):
                s = st.copy()
                try:
                    s.refine(base, hi, pos, cc if b else cc.compl())
                except Infeasible:
                    continue
                out.append((s, b))
            return out
        key = ("ct", t)
        cur = st.chars.get((key, None, None), ANYCHAR)
        if cur.subset(cc):
            return [(st, True)]
        if cur.disjoint(cc):
            return [(st, False)]
        for b in (True, False):
            s = st.copy()
            s.chars[(key, None, None)] = cur & (cc if b else cc.compl())
            out.append((s, b))
        return out

    def char_class(self, st, ch):
        if ch[0] == "ch":
            return CC.chars([ch[1]])
        t = ch[1]
        if t[0] == "at":
            return st.charat(t[1], t[2], t[3]).noeof()
        return st.chars.get((("ct", t), None, None), ANYCHAR)

    # strings ------------------------------------------------------------
    def str_len(self, st, v):
        n = L(0)
        for p in v[1]:
            if p[0] == "k":
                n = n + L(len(p[1].encode()))
            elif p[0] == "sl":
                n = n + (p[3] - p[2])
            elif p[0] == "c":
                n = n + self.char_width(st, p[1])
            else:
                n = n + L(("len", p))
        return st.norm(n)

    def char_width(self, st, ch):
        if ch[0] == "ch":
            return L(len(chr(ch[1]).encode()))
        t = ch[1]
        if t[0] == "at":
            return st.width(t[1], t[2], t[3])
        cc = self.char_class(st, ch)
        if cc.ascii_only():
            return L(1)
        return L(("clen", ("ct", t), None, None))

    def decide_empty(self, st, v):
        """Partition by emptiness of a string value."""
        res = [(st, True)]
        cur = [st]
        out = []
        for p in v[1]:
            nxt = []
            for s in cur:
                if p[0] == "k" or p[0] == "c":
                    out.append((s, False))
                elif p[0] == "sl":
                    for s2, e in self.decide_eof(s, p[1], p[3], p[2]):
                        if e:
                            nxt.append(s2)
                        else:
                            out.append((s2, False))
                else:
                    for s2, e in self.decide(s, ("eq0", L(("len", p)))):
                        if e:
                            nxt.append(s2)
                        else:
                            out.append((s2, False))
            cur = nxt
        return out + [(s, True) for s in cur]

    def decide_eof(self, st, base, hi, pos):
        d = hi - pos
        if st.lin_eq(hi, pos):
            return [(st, True)]
        if st.prove(d - L(1)):
            return [(st, False)]
        cc = st.charat(base, hi, pos)
        if cc == EOF:
            return [(st, True)]
        if not cc.eof:
            return [(st, False)]
        out = []
        for b in (True, False):
            s = st.copy()
            try:
                s.refine(base, hi, pos, EOF if b else ANYCHAR)
            except Infeasible:
                continue
            out.append((s, b))
        return out

    def str_first(self, st, v):
        """Partition by the first character: [(state, char or None, rest string)]."""
        if not v[1]:
            return [(st, None, v)]
        p = v[1][0]
        rest = v[1][1:]
        if p[0] == "k":
            ch = ("ch", ord(p[1][0]))
            r = ((("k", p[1][1:]),) if len(p[1]) > 1 else ()) + rest
            return [(st, ch, ("str", r))]
        if p[0] == "c":
            return [(st, p[1], ("str", rest))]
        if p[0] == "sl":
            out = []
            for s, e in self.decide_eof(st, p[1], p[3], p[2]):
                if e:
                    out += self.str_first(s, ("str", rest))
                else:
                    pos = s.canon_pos(p[1], p[3], p[2])
                    cc = s.charat(p[1], p[3], pos)
                    if (p[1], p[3], pos) not in s.chars:
                        s = s.copy()
                        s.refine(p[1], p[3], pos, ANYCHAR)
                    sg = cc.single()
                    ch = ("ch", sg) if sg is not None else ("chs", ("at", p[1], p[3], pos))
                    w = s.width(p[1], p[3], pos)
                    out.append((s, ch, ("str", (("sl", p[1], pos + w, p[3]),) + rest)))
            return out
        raise Unsupported("first char of %s" % showp(p))

    def starts_with(self, st, v, text):
        """Partition by v.starts_with(text): [(state, bool)]; text may be a list of classes instead."""
        cur = [(st, v)]
        out = []
        for c in text:
            nxt = []
            for s, w in cur:
                # decide EOF-or-mismatch in one step to limit partitions
                for s2, b, w2 in self.first_is(s, w, CC.chars(c) if isinstance(c, str) else c):
                    if b:
                        nxt.append((s2, w2))
                    else:
                        out.append((s2, False))
            cur = nxt
        return out + [(s, True) for s, _ in cur]

    def first_is(self, st, v, cc):
        """[(state, bool, rest)]: is there a first character and is it in cc?  One state per answer."""
        if not v[1]:
            return [(st, False, v)]
        p = v[1][0]
        if p[0] != "sl":
            out = []
            for s, ch, rest in self.str_first(st, v):
                if ch is None:
                    out.append((s, False, rest))
                else:
                    for s2, b in self.decide_cls(s, ch, cc):
                        out.append((s2, b, rest))
            return out
        base, lo, hi = p[1], p[2], p[3]
        if st.lin_eq(lo, hi):
            return self.first_is(st, ("str", v[1][1:]), cc)
        if len(v[1]) > 1 and not st.prove(hi - lo - L(1)):
            out = []
            for s, e in self.decide_eof(st, base, hi, lo):
                out += self.first_is(s, ("str", v[1][1:]) if e else v, cc) if e else self._first_sl(s, v, cc)
            return out
        return self._first_sl(st, v, cc)

    def _first_sl(self, st, v, cc):
        p = v[1][0]
        base, lo, hi = p[1], p[2], p[3]
        cc = cc.noeof()
        cur = st.charat(base, hi, lo)
        if st.prove(hi - lo - L(1)):
            cur = cur.noeof()
        out = []
        for b in (True, False):
            want = cc if b else ~cc
            if (cur & want).empty():
                continue
            s = st
            if not cur.subset(want) or (base, hi, st.norm(lo)) not in st.chars:
                s = st.copy()
                try:
                    s.refine(base, hi, lo, cur & want)
                except Infeasible:
                    continue
            pos = s.canon_pos(base, hi, lo)
            rest = v
            if b:
                rest = ("str", (("sl", base, pos + s.width(base, hi, pos), hi),) + v[1][1:])
            out.append((s, b, rest))
        return out

    def simplify_str(self, st, v):
        """Replace slices whose characters are all known by constants; drop empty slices."""
        out = ("str", ())
        for p in v[1]:
            if p[0] == "sl":
                if st.lin_eq(p[2], p[3]):
                    continue
                pos, text, okk = p[2], "", False
                for _ in range(8):
                    if st.lin_eq(pos, p[3]):
                        okk = True
                        break
                    c = st.charat(p[1], p[3], pos)
                    for (b, h, q), cc in st.chars.items():
                        if b == p[1] and h != p[3] and st.lin_eq(q, pos):
                            c = c & (cc if not cc.eof else ANY)
                    sg = c.noeof().single()
                    if sg is None:
                        break
                    text += chr(sg)
                    pos = pos + L(len(chr(sg).encode()))
                if okk and text:
                    out = cat(out, kstr(text), st)
                    continue
                out = cat(out, ("str", (("sl", p[1], st.norm(p[2]), st.norm(p[3])),)), st)
            elif p[0] == "c" and self.char_class(st, p[1]).single() is not None:
                out = cat(out, kstr(chr(self.char_class(st, p[1]).single())), st)
            else:
                out = cat(out, ("str", (p,)), st)
        return out

    def str_eq_now(self, st, a, b):
        """True / False / None (unknown) without partitioning."""
        a, b = self.simplify_str(st, a), self.simplify_str(st, b)
        if a == b:
            return True
        if all(p[0] == "k" for p in a[1]) and all(p[0] == "k" for p in b[1]):
            return a == b
        if len(a[1]) == len(b[1]):
            same = True
            for p, q in zip(a[1], b[1]):
                if p == q:
                    continue
                if p[0] == "sl" and q[0] == "sl" and p[1] == q[1] and st.lin_eq(p[2], q[2]) and st.lin_eq(p[3], q[3]):
                    continue
                same = False
                break
            if same:
                return True
        la, lb = self.str_len(st, a), self.str_len(st, b)
        d = la - lb
        if st.prove(d - L(1)) or st.prove(-d - L(1)):
            return False
        return None

    def decide_streq(self, st, a, b):
        r = self.str_eq_now(st, a, b)
        if r is not None:
            return [(st, r)]
        a, b = self.simplify_str(st, a), self.simplify_str(st, b)
        # comparison with a constant: decide character by character
        for x, y in ((a, b), (b, a)):
            if all(p[0] == "k" for p in x[1]) and all(p[0] in ("sl", "k", "c") for p in y[1]):
                text = "".join(p[1] for p in x[1])
                if len(text) <= 1:
                    out = []
                    cur = [(st, y)]
                    for c in text:
                        nxt = []
                        for s, w in cur:
                            for s2, bb, w2 in self.first_is(s, w, CC.chars(c)):
                                if bb:
                                    nxt.append((s2, w2))
                                else:
                                    out.append((s2, False))
                        cur = nxt
                    for s, w in cur:
                        for s2, e in self.decide_empty(s, w):
                            out.append((s2, e))
                    return out
        key = ("streq",) + tuple(sorted((a, b), key=repr))
        r = st.bools.get(key)
        if r is not None:
            return [(st, r)]
        out = []
        ci = ("eqic",) + key[1:]
        for x, y in ((a, b), (b, a)):
            if all(p[0] == "k" for p in x[1]):
                ci = ("eqic", y, "".join(c.lower() if c.isascii() else c for p in x[1] for c in p[1]))
        for v in (True, False):
            if v and st.bools.get(ci) is False:
                # not even equal but for case
                continue
            s = st.copy()
            s.bools[key] = v
            if v:
                # lengths agree
                d = self.str_len(s, a) - self.str_len(s, b)
                try:
                    if d.t:
                        s.assume_ge0(d)
                        s.assume_ge0(-d)
                    elif d.c != 0:
                        continue
                except Infeasible:
                    continue
            out.append((s, v))
        return out

    # ---------------------------------------------------------------- CFG
    def loops_of(self, b):
        k = b["id"] if "id" in b else id(b)
        r = self.loopinfo.get(k)
        if r is not None:
            return r
        blocks = b["blocks"]
        succ = []
        for bl in blocks:
            t = bl["t"]
            s = []
            if t["k"] == "goto" or t["k"] == "drop" or t["k"] == "assert":
                s = [t["to"]]
            elif t["k"] == "switch":
                s = [x[1] for x in t["ts"]] + [t["else"]]
            elif t["k"] == "call" and t["to"] is not None:
                s = [t["to"]]
            succ.append(s)
        color = {}
        heads = {}
        preds = {}
        order = []
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            adv = False
            for m in it:
                preds.setdefault(m, set()).add(n)
                if color.get(m) == 1:
                    heads.setdefault(m, set()).add(n)
                elif m not in color:
                    color[m] = 1
                    stack.append((m, iter(succ[m])))
                    adv = True
                    break
            if not adv:
                color[n] = 2
                stack.pop()
        for n in color:
            for m in succ[n]:
                preds.setdefault(m, set()).add(n)
        info = {}
        for h, tails in heads.items():
            body = {h}
            w = list(tails)
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w += preds.get(x, ())
            info[h] = body
        self.loopinfo[k] = info
        return info

    # ---------------------------------------------------------------- running bodies
    def run_body(self, st, b, args, site=None, keep=False):
        if len(self.stack) > 120:
            raise Unsupported("inlining depth")
        for x in self.stack:
            if x is b and sum(1 for y in self.stack if y is b) > 2:
                raise Unsupported("recursion through %s" % b["path"])
        fid = next(self.fid)
        self.frame_body[fid] = b
        if "id" in b:
            self.visited.add(b["id"])
        st = st.copy()
        for i, a in enumerate(args):
            st.store[(fid, i + 1)] = a
        self.stack.append(b)
        try:
            outs = self.run(st, fid, b, 0, frozenset(), True)
        except Unsupported as e:
            if not hasattr(e, "where"):
                e.where = [x["path"] for x in self.stack] + [self.at]
            raise
        finally:
            self.stack.pop()
        n = len(b["locals"])
        for o in outs:
            if o.kind == "ret":
                o.v = o.st.store.get((fid, 0), UNIT)
                if not keep:
                    for i in range(n):
                        o.st.store.pop((fid, i), None)
        return outs

    def run(self, st, fid, b, bb, stops, first=False, only=None, fresh_head=None):
        """Explore from block bb.  Returns outcomes; reaching a block in `stops` yields kind 'back'."""
        outs = []
        info = self.loops_of(b)
        work = [(st, bb, fresh_head == bb)]
        while work:
            st, bb, skip = work.pop()
            while True:
                if bb in stops and not skip:
                    outs.append(Outcome("back", st, None, bb))
                    break
                if only is not None and bb not in only:
                    outs.append(Outcome("exit", st, None, bb))
                    break
                if bb in info and not skip:
                    outs += self.run_loop(st, fid, b, bb, stops, only)
                    break
                skip = False
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Unsupported("step budget")
                if len(outs) > self.max_paths:
                    raise Unsupported("path budget")
                bl = b["blocks"][bb]
                self.at = (bb, bl["t"].get("sp"))
                try:
                    for s in bl["s"]:
                        self.stmt(st, fid, b, s)
                    nxt = self.term(st, fid, b, bl["t"], outs)
                except Infeasible:
                    break
                if not nxt:
                    break
                for s2, t2 in nxt[1:]:
                    work.append((s2, t2, False))
                st, bb = nxt[0]
        return outs

    # ---------------------------------------------------------------- loops
    def run_loop(self, st, fid, b, head, stops, only):
        key = (b.get("id", b["path"]), head)
        span = b["blocks"][head]["t"].get("sp")
        body = self.loops_of(b)[head]

        def step(s, discover):
            o = self.run(s, fid, b, head, stops | {head}, only=(body if discover else only), fresh_head=head)
            conts = [x for x in o if x.kind == "back" and x.info == head]
            rest = [x for x in o if not (x.kind == "back" and x.info == head)]
            return conts, rest

        return self.loop_fix(st, step, (b["path"], span))

    def loop_fix(self, st, step, where):
        step0 = step

        def step(s, discover):
            return step0(s.copy(), discover)
        # exact unrolling while the loop is driven by a fully known iterator
        if self.peel is not None:
            return self.peeled(st, step, where)
        conts, rest = step(st, True)
        if not conts:
            return step(st, False)[1]
        if self.concrete_progress(st, conts):
            un = self.unroll(st, step)
            if un is not None:
                return un
        lid = next(self.lid)
        widened = {}
        rough = set()
        weak = set()
        nomono = set()
        for rnd in range(12):
            sg = self.widen(st, widened, conts, lid, rough, nomono)
            if sg is None:
                raise Unsupported("loop widening at %s" % (where,))
            conts2, _ = step(sg, True)
            bad = self.check_inductive(st, sg, conts2, widened, rough, nomono, lid)
            if not bad:
                break
            conts = conts + conts2
        else:
            raise Unsupported("loop widening did not stabilise at %s" % (where,))
        ls = LoopSummary(lid, where)
        ls.entry = st
        sgt = sg.copy()
        sgt.trace = ()
        conts, rest = step(sgt, False)
        ls.head = sg
        for (cell, path), g in widened.items():
            ls.pre[(cell, path)] = self.get(st, self.cell_value(st, cell), path)
            ls.gen[(cell, path)] = g
        ls.iters = [c.st for c in conts]
        self.loops[lid] = ls
        base = sg.trace
        for o in rest:
            o.st.trace = base + (("loop", ls),) + o.st.trace
        return rest

    peel = None
    sink_ok = False         # explore only runs in which no write to a formatter fails

    def has_contract(self, path):
        return False

    def peeled(self, st, step, where):
        """The first iterations of a loop one by one; what would go on longer is cut (kind 'cut'), and what provably
        goes round for ever is reported as such (kind 'loop')."""
        outs = []
        work = [(st, 0, 0)]
        total = 0
        while work:
            s, n, idle = work.pop()
            conts, rest = step(s, False)
            outs += rest
            known = n < 40 and conts and self.concrete_progress(s, conts)
            for c in conts:
                total += 1
                if total > self.max_paths:
                    raise Unsupported("path budget in loop at %s" % (where,))
                e = len(conts) == 1 and not rest and self.stands_still(s, c.st)
                if e == "same" or (e and idle >= 63):
                    outs.append(Outcome("loop", c.st, None, {"what": "loop", "sp": where}))
                    continue
                m = n if known or e else n + 1
                if m > self.peel or total > 4000:
                    outs.append(Outcome("cut", c.st, None, {"what": "loop", "sp": where}))
                else:
                    work.append((c.st, m, idle + 1 if e else 0))
        return outs

    def stands_still(self, s, c):
        """Did the only way through the loop body take no decision and leave everything ('same'), or everything but what
        it appends to ('grows'), as it was?"""
        if s.lins != c.lins or s.bools != c.bools or s.variants != c.variants or s.neqs != c.neqs or s.chars != c.chars or s.seqfacts != c.seqfacts:
            return False
        if any(e[0] in ("ucall", "call") for e in c.trace[len(s.trace):]):
            return False
        grows = len(c.trace) != len(s.trace)
        for cell, v in c.store.items():
            v0 = s.store.get(cell)
            if v0 is v or v0 == v:
                continue
            if v0 is None:
                return False
            if isinstance(v, tuple) and isinstance(v0, tuple) and v and v0 and v[0] == v0[0] and v[0] in ("str", "seq") and \
                    len(v0[1]) <= len(v[1]) and v[1][:len(v0[1]) - 1] == v0[1][:-1]:
                grows = True
                continue
            return False
        return "grows" if grows else "same"

    def unroll(self, st, step):
        outs = []
        work = [st]
        for n in range(24):
            nxt = []
            for s in work:
                conts, rest = step(s, False)
                outs += rest
                nxt += [c.st for c in conts]
            if not nxt:
                return outs
            if len(nxt) > 200:
                return None
            work = nxt
        return None

    def concrete_progress(self, st, conts):
        """Some iterator over a completely known sequence/text advanced, or a constant counter moved."""
        for c in conts:
            found = False
            for cell, v0 in st.store.items():
                v1 = c.st.store.get(cell)
                if v1 is None or v1 is v0 or v1 == v0:
                    continue
                if self.conc_adv(v0, v1):
                    found = True
                    break
            if not found:
                return False
        return True

    def conc_adv(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a and b and a[0] == b[0] == "seq":
                return len(b[1]) < len(a[1]) and all(s[0] == "v" for s in a[1])
            if a and b and a[0] == b[0] == "sref":
                return a[4].const is not None and a[3].const is not None and a != b
            if a and b and a[0] == b[0] == "str":
                if not all(p[0] == "k" for p in a[1]) or not all(p[0] == "k" for p in b[1]):
                    return False
                ta, tb = "".join(p[1] for p in a[1]), "".join(p[1] for p in b[1])
                return len(tb) < len(ta) and ta.endswith(tb)
            if a and b and a[0] == b[0] == "range":
                return a[1].const is not None and a[2].const is not None and a != b
            if len(a) == len(b):
                return any(self.conc_adv(x, y) for x, y in zip(a, b) if x is not y)
        return False

    def diff(self, v0, v1, path, out):
        if v0 is v1 or v0 == v1:
            return
        if isinstance(v0, tuple) and isinstance(v1, tuple) and v0 and v1 and v0[0] == v1[0]:
            k = v0[0]
            if k == "adt" and v0[1] == v1[1] and v0[2] == v1[2] and len(v0[3]) == len(v1[3]):
                nv = self.nvariants.get(v0[1], 1)
                for i, (x, y) in enumerate(zip(v0[3], v1[3])):
                    self.diff(x, y, path + ((i,) if self.is_struct(v0[1]) else (("vf", v0[2], i),)), out)
                return
            if k == "tup" and len(v0[1]) == len(v1[1]):
                for i, (x, y) in enumerate(zip(v0[1], v1[1])):
                    self.diff(x, y, path + (i,), out)
                return
            if k == "clo" and v0[1:3] == v1[1:3]:
                for i, (x, y) in enumerate(zip(v0[3], v1[3])):
                    self.diff(x, y, path + (i,), out)
                return
            if k == "cow":
                if v0[1] == v1[1]:
                    self.diff(v0[2], v1[2], path + ("cow",), out)
                    return
        out.setdefault(path, []).append(v1)

    nvariants = {}

    def is_struct(self, path):
        r = self.nvariants.get(path)
        if r is None:
            r = 1
            for t in self.T:
                if t["k"] == "adt" and t["path"] == path:
                    r = 2 if t["kind"] == "enum" else 1
                    break
            self.nvariants[path] = r
        return r == 1

    def widen(self, st, widened, conts, lid, rough, nomono):
        changed = {}
        for c in conts:
            s1 = c.st
            for cell, v0 in st.store.items():
                v1 = s1.store.get(cell)
                if v1 is None or v1 is v0:
                    continue
                d = {}
                self.diff(v0, v1, (), d)
                for p, vs in d.items():
                    changed.setdefault((cell, p), []).extend((v, s1) for v in vs)
            for cell, v1 in s1.store.items():
                # cells materialised lazily from symbols during the iteration: initial value is the symbol itself
                if cell not in st.store and (cell[0] == "*" or cell in self.konst_cells):
                    v0 = self.cell_value(st.copy(), cell)
                    d = {}
                    self.diff(v0, v1, (), d)
                    for p, vs in d.items():
                        changed.setdefault((cell, p), []).extend((v, s1) for v in vs)
        # drop paths below other changed paths
        keys = sorted(set(changed) | set(widened), key=lambda k: len(k[1]))
        roots = []
        for k in keys:
            if any(k[0] == r[0] and k[1][:len(r[1])] == r[1] and k != r for r in roots):
                continue
            roots.append(k)
        sg = st.copy()
        widened_new = {}
        for n, (cell, path) in enumerate(sorted(roots, key=repr)):
            v0 = self.get(sg, self.cell_value(sg, cell), path)
            vs = [v for v, _ in changed.get((cell, path), [])]
            # collect deeper values when a shallower root subsumes them
            vs1 = []
            for c in conts:
                try:
                    x = self.get(c.st, c.st.store.get(cell, v0) if path == () else self.cell_value(c.st, cell), path)
                    vs1.append((x, c.st))
                except (Unsupported, KeyError):
                    pass
            name = ("lv", lid, self.cell_name(cell, path))
            g = self.widen_value(sg, v0, vs1, name, cell, path, (cell, path) in rough, (cell, path) in nomono)
            if v0 == ("uninit",):
                # dead at the head
                g = ("uninit",)
            self.write(sg, (cell, path), g)
            widened_new[(cell, path)] = g
        widened.clear()
        widened.update(widened_new)
        return sg

    def cell_name(self, cell, path):
        if isinstance(cell[0], int):
            b = self.frame_body.get(cell[0])
            nm = None
            if b:
                for n, pl in b["names"]:
                    if pl[0] == cell[1] and not pl[1]:
                        nm = n
            base = nm or ("_%d" % cell[1])
            base = "%s.%s" % (b["path"].split("::")[-1] if b else "?", base)
        else:
            base = show(cell)
        return base + "".join("." + str(p if not isinstance(p, tuple) else p[-1]) for p in path)

    def widen_value(self, sg, v0, vs, name, cell, path, rough, nomono):
        v0t = v0
        if not rough:
            if isinstance(v0, Lin):
                g = L(name)
                if not nomono:
                    if all(isinstance(v, Lin) and s.prove(v - v0) for v, s in vs):
                        sg.lins = sg.lins + (g - v0,)
                    elif all(isinstance(v, Lin) and s.prove(v0 - v) for v, s in vs):
                        sg.lins = sg.lins + (v0 - g,)
                sg.proved = {}
                return g
            if v0 is True or v0 is False or (isinstance(v0, tuple) and v0[0] == "cond"):
                return ("cond", ("b", name))
            if isinstance(v0, tuple) and v0[0] in ("ch", "chs"):
                return ("chs", name)
            if isinstance(v0, tuple) and v0[0] == "str":
                # suffix pattern
                if len(v0[1]) == 1 and v0[1][0][0] == "sl":
                    _, base, lo, hi = v0[1][0]
                    if all(isinstance(v, tuple) and v[0] == "str" and len(v[1]) <= 1 and (not v[1] or (v[1][0][0] == "sl" and v[1][0][1] == base and s.lin_eq(v[1][0][3], hi))) for v, s in vs):
                        p = L(name)
                        self.pos_vars.add((base, name))
                        sg.lins = sg.lins + (p - lo, hi - p)
                        sg.proved = {}
                        return ("str", (("sl", base, p, hi),))
                # accumulating pattern
                return ("str", v0[1] + (("x", ("acc", name)),))
            if isinstance(v0, tuple) and v0[0] == "seq":
                t = self.elem_ty(cell, path, v0, vs)
                # popping from the front of a symbolic sequence
                if len(v0[1]) == 1 and v0[1][0][0] == "s":
                    s0 = v0[1][0]
                    okk = True
                    front = back = False
                    for v, s in vs:
                        if v == v0:
                            continue
                        if v[0] == "seq" and len(v[1]) == 0:
                            front = True
                            continue
                        if v[0] == "seq" and len(v[1]) == 1 and v[1][0][0] == "s" and v[1][0][1] == s0[1]:
                            if not s.lin_eq(v[1][0][3], s0[3]):
                                front = True
                            if not s.lin_eq(v[1][0][4], s0[4]):
                                back = True
                            continue
                        okk = False
                    if okk:
                        lo, hi = s0[3], s0[4]
                        if front:
                            lo = L(name + ("lo",))
                            sg.lins = sg.lins + (lo - s0[3],)
                        if back:
                            hi = L(name + ("hi",))
                            sg.lins = sg.lins + (s0[4] - hi,)
                        sg.lins = sg.lins + (hi - lo,)
                        sg.proved = {}
                        return ("seq", (("s", s0[1], s0[2], lo, hi),))
                # appending: keep the prefix, add a symbolic accumulated segment
                if t is not None:
                    term = ("acc", name)
                    n0 = self.seq_len(v0)
                    if all(isinstance(v, tuple) and v[0] == "seq" and s.lin_eq(self.seq_len(v), n0) for v, s in vs) and (cell, path) not in self.nolen:
                        self.samelen[(cell, path)] = n0
                        return ("seq", (("s", term, t, L(0), n0),))
                    pre = v0[1]
                    if all(isinstance(v, tuple) and v[0] == "seq" and v[1][:len(pre)] == pre for v, s in vs):
                        return ("seq", pre + (("s", term, t, L(0), L(("len", term))),))
                    return ("seq", (("s", term, t, L(0), L(("len", term))),))
            if isinstance(v0, tuple) and v0[0] == "sref":
                # iterator over a slice: both ends may move
                if all(isinstance(v, tuple) and v[0] == "sref" and v[1:3] == v0[1:3] for v, s in vs):
                    front = any(not s.lin_eq(v[3], v0[3]) for v, s in vs)
                    back = any(not s.lin_eq(v[4], v0[4]) for v, s in vs)
                    lo, hi = v0[3], v0[4]
                    if front:
                        lo = L(name + ("lo",))
                        sg.lins = sg.lins + (lo - v0[3],)
                    if back:
                        hi = L(name + ("hi",))
                        sg.lins = sg.lins + (v0[4] - hi,)
                    sg.lins = sg.lins + (hi - lo,)
                    sg.proved = {}
                    return ("sref", v0[1], v0[2], lo, hi, v0[5])
            if isinstance(v0, tuple) and v0[0] == "it":
                # same iterator kind: widen components
                if all(isinstance(v, tuple) and v[0] == "it" and v[1] == v0[1] and len(v) == len(v0) for v, s in vs):
                    comps = []
                    for i in range(2, len(v0)):
                        if all(v[i] == v0[i] for v, s in vs):
                            comps.append(v0[i])
                        else:
                            comps.append(self.widen_value(sg, v0[i], [(v[i], s) for v, s in vs], name + (i,), cell, path + (("it", i),), False, nomono))
                    return ("it", v0[1]) + tuple(comps)
            if isinstance(v0, tuple) and v0[0] == "range":
                lo = L(name + ("lo",))
                sg.lins = sg.lins + (lo - v0[1], v0[2] - lo) if len(v0) < 4 or not v0[3] else sg.lins + (lo - v0[1],)
                sg.proved = {}
                return ("range", lo, v0[2]) + v0[3:]
        t = self.type_at(cell, path)
        if t is not None:
            return self.mk(name, t)
        if isinstance(v0, tuple) and v0[0] == "str":
            return whole(name)
        if isinstance(v0, Lin):
            return L(name)
        if isinstance(v0, tuple) and v0[0] == "adt":
            for i, ty in enumerate(self.T):
                if ty["k"] == "adt" and ty["path"] == v0[1]:
                    return self.mk(name, i)
        if isinstance(v0, tuple) and v0[0] == "sym":
            return ("sym", name, v0[2])
        if v0 is None or v0 == ("uninit",):
            return ("uninit",)
        raise Unsupported("widen %s at %s" % (showv(v0), self.cell_name(cell, path)))

    pos_vars = set()
    nolen = frozenset()
    samelen = {}

    def elem_ty(self, cell, path, v0, vs):
        t = self.type_at(cell, path)
        if t is not None:
            ty = self.T[t]
            if ty["k"] in ("array", "slice"):
                return ty["e"]
            if ty.get("args"):
                return ty["args"][0]
        for v in [v0] + [x for x, _ in vs]:
            if isinstance(v, tuple) and v[0] == "seq":
                for s in v[1]:
                    if s[0] == "s":
                        return s[2]
                    if s[1] and isinstance(s[1], tuple) and s[1][0] == "adt":
                        for i, ty in enumerate(self.T):
                            if ty["k"] == "adt" and ty["path"] == s[1][1]:
                                return i
        return None

    def instance_of(self, g, v, s):
        """Is v (in state s) an instance of the generalised value g?"""
        if v == g:
            return True
        if isinstance(g, Lin):
            return isinstance(v, Lin)
        if isinstance(g, tuple):
            k = g[0]
            if k == "cond":
                return v is True or v is False or (isinstance(v, tuple) and v[0] == "cond")
            if k == "chs":
                return isinstance(v, tuple) and v[0] in ("ch", "chs")
            if k == "uninit":
                return True
            if k == "str":
                if not (isinstance(v, tuple) and v[0] == "str"):
                    return False
                if len(g[1]) == 1 and g[1][0][0] == "sl":
                    _, base, lo, hi = g[1][0]
                    if base and isinstance(base, tuple) and base[0] == "lv":
                        return True
                    return len(v[1]) == 1 and v[1][0][0] == "sl" and v[1][0][1] == base and s.lin_eq(v[1][0][3], hi) or (not v[1])
                if g[1] and g[1][-1][0] == "x":
                    return v[1][:len(g[1])] == g[1] or v[1][:len(g[1]) - 1] == g[1][:-1]
                return False
            if k == "seq":
                if not (isinstance(v, tuple) and v[0] == "seq"):
                    return False
                if g[1] and g[1][-1][0] == "s":
                    last = g[1][-1]
                    if isinstance(last[1], tuple) and last[1][0] == "acc":
                        # may be extended, truncated or replaced; it stands for any sequence
                        if v[1][:len(g[1]) - 1] != g[1][:-1]:
                            return False
                        if last[4] == L(("len", last[1])):
                            return True
                        return s.lin_eq(self.seq_len(v), self.seq_len(g))
                    if len(v[1]) == 0:
                        return True
                    return len(v[1]) == 1 and v[1][0][0] == "s" and v[1][0][1] == last[1]
                return False
            if k == "sref":
                return isinstance(v, tuple) and v[0] == "sref" and v[1:3] == g[1:3]
            if k == "it":
                return isinstance(v, tuple) and v[0] == "it" and v[1] == g[1] and len(v) == len(g) and all(self.instance_of(x, y, s) for x, y in zip(g[2:], v[2:]))
            if k == "range":
                return isinstance(v, tuple) and v[0] == "range"
            if k == "sym":
                return True
            if k == "cow":
                return isinstance(v, tuple) and v[0] == "cow" and (g[1] == "?" or g[1] == v[1]) and self.instance_of(g[2], v[2], s)
            if k == "adt" and isinstance(v, tuple) and v[0] == "adt" and v[1:3] == g[1:3]:
                return all(self.instance_of(x, y, s) for x, y in zip(g[3], v[3]))
            if k == "tup" and isinstance(v, tuple) and v[0] == "tup":
                return all(self.instance_of(x, y, s) for x, y in zip(g[1], v[1]))
            if k == "box":
                return isinstance(v, tuple) and v[0] == "box"
        return False

    def check_inductive(self, st, sg, conts, widened, rough, nomono, lid):
        bad = False
        for c in conts:
            s1 = c.st
            for cell in list(sg.store):
                v1 = s1.store.get(cell)
                if v1 is None:
                    continue
                g = sg.store[cell]
                if v1 is g:
                    continue
                d = {}
                self.diff(g, v1, (), d)
                for p, vs in d.items():
                    for v in vs:
                        # inside a widened location?
                        root = None
                        for (wc, wp) in widened:
                            if wc == cell and p[:len(wp)] == wp:
                                root = (wc, wp)
                        if root is None:
                            bad = True
                            continue
                        gg = self.get(sg, g, p)
                        if not self.instance_of(gg, v, s1):
                            # a less precise generalisation is needed at the root
                            if root not in rough:
                                rough.add(root)
                            bad = True
            for cell, v1 in s1.store.items():
                if cell not in sg.store and (cell[0] == "*" or cell in self.konst_cells):
                    v0 = self.cell_value(sg.copy(), cell)
                    d = {}
                    self.diff(v0, v1, (), d)
                    if d:
                        bad = True
            # monotonicity facts must be preserved
            for (cell, path), g in widened.items():
                if (cell, path) in nomono:
                    continue
                if isinstance(g, Lin):
                    v1 = self.get(s1, self.cell_value(s1, cell), path)
                    v0 = self.get(st, self.cell_value(st, cell), path)
                    if isinstance(v1, Lin) and isinstance(v0, Lin):
                        up = (g - v0) in sg.lins
                        dn = (v0 - g) in sg.lins
                        if up and not s1.prove(v1 - v0) or dn and not s1.prove(v0 - v1):
                            nomono.add((cell, path))
                            bad = True
        return bad

    # ---------------------------------------------------------------- statements
    def addr(self, st, fid, b, pl):
        cell, path = (fid, pl[0]), ()
        a = (cell, path)
        proj = pl[1]
        i = 0
        down = None
        while i < len(proj):
            e = proj[i]
            if e == "*":
                v = self.read(st, a)
                a = self.deref(st, v)
                down = None
            elif e[0] == "f":
                if a[0] == "val":
                    v = self.step_get(st, a[1], ("vf", down, e[1]) if down is not None else e[1])
                    a = ("val", v)
                elif down is not None:
                    a = (a[0], a[1] + (("vf", down, e[1]),))
                else:
                    a = (a[0], a[1] + (e[1],))
                down = None
            elif e[0] == "d":
                t = None
                v = self.read(st, a)
                if v[0] == "sym" or v[0] == "cow":
                    down = e[1]
                elif v[0] == "adt":
                    down = e[1] if not self.is_struct(v[1]) else None
                else:
                    raise Unsupported("downcast %s" % showv(v))
            elif e[0] == "i" or e[0] == "ci":
                if e[0] == "i":
                    idx = self.read(st, ((fid, e[1]), ()))
                else:
                    idx = L(e[1])
                if a[0] == "val":
                    v = a[1]
                    if v[0] == "sref":
                        if e[0] == "ci" and e[2]:
                            idx = v[4] - v[3] - idx
                        a = (v[1], v[2] + (("e", v[3] + idx),))
                    else:
                        raise Unsupported("index %s" % showv(v))
                else:
                    if e[0] == "ci" and e[2]:
                        idx = self.seq_len(self.read(st, a)) - idx
                    a = (a[0], a[1] + (("e", idx),))
            else:
                raise Unsupported("projection %s" % (e,))
            i += 1
        return a

    def deref(self, st, v):
        k = v[0] if isinstance(v, tuple) else None
        if k == "ref":
            return (v[1], v[2])
        if k == "box":
            return (v[1], ())
        if k in ("str", "sref", "dynf", "fmtargs"):
            return ("val", v)
        if k == "sym":
            ty = self.T[v[2]]
            if ty["k"] in ("ref", "ptr"):
                cell = ("*", v[1])
                self.cell_ty[cell] = ty["e"]
                return (cell, ())
            return ("val", v)
        raise Unsupported("deref %s" % showv(v))

    def operand(self, st, fid, b, o):
        if o[0] in ("c", "m"):
            v = self.read(st, self.addr(st, fid, b, o[1]))
            return v
        if o[0] == "k":
            return self.const(st, o[1])
        raise Unsupported("operand %s" % (o,))

    konst_cells = {}

    def const(self, st, c):
        if "fn" in c:
            return ("fn", _Hash(c["fn"]))
        if "promoted" in c:
            key = ("promoted", c["promoted"])
            v = self._kc.get(key)
            if v is None:
                b = self.d["promoted"][c["promoted"]]
                outs = self.run_body(State(), b, [], keep=True)
                if len(outs) != 1:
                    raise Unsupported("promoted")
                self.konst_cells.update(outs[0].st.store)
                v = self._kc[key] = outs[0].v
            return v
        if "v" in c:
            return self.cval(c["v"], c["ty"])
        if "opaque" in c or "uneval" in c:
            return self.mk(("const", c.get("uneval") or c.get("opaque")), c["ty"])
        raise Unsupported("const %s" % (c,))

    def cval(self, v, t):
        if "i" in v:
            return L(v["i"])
        if "b" in v:
            return v["b"]
        if "ch" in v:
            return ("ch", v["ch"])
        if "zst" in v:
            ty = self.T[v.get("ty", t)]
            if ty["k"] == "tuple":
                return UNIT
            if ty["k"] == "adt":
                if ty["kind"] == "enum":
                    return ("sym", ("zst", ty["s"]), t)
                return ("adt", ty["path"], 0, tuple(("tup", ()) for _ in ty.get("v", [{"f": []}])[0]["f"]))
            if ty["k"] == "array":
                return ("seq", ())
            if ty["k"] == "closure":
                return ("clo", ty["path"], self.closure_body(ty["path"]), ())
            return ("tup", ())
        if "ref" in v:
            r = v["ref"]
            if "str" in r:
                return kstr(r["str"])
            ity = v.get("ity")
            val = self.cval(r, ity)
            cell = ("kst", next(self.uid))
            key = repr(v)
            ck = self._kc.get(key)
            if ck is None:
                self._kc[key] = cell
                self.konst_cells[cell] = val
                self.cell_ty[cell] = ity
            else:
                cell = ck
            tt = self.T[ity]
            if tt["k"] == "slice":
                return ("sref", cell, (), L(0), L(len(val[1])), tt["e"])
            return ("ref", cell, ())
        if "arr" in v:
            e = self.T[t].get("e", t) if t is not None else None
            return ("seq", tuple(("v", self.cval(x, e)) for x in v["arr"]))
        if "bytes" in v:
            return ("seq", tuple(("v", L(x)) for x in v["bytes"]))
        if "str" in v:
            return kstr(v["str"])
        if "tup" in v:
            return ("tup", tuple(self.cval(x, ft) for x, ft in zip(v["tup"], self.T[t]["f"])))
        if "adt" in v:
            t = v.get("ty", t)
            ty = self.T[t]
            idx, fs = v["adt"]
            if self.is_cow_str(t):
                return ("cow", "B" if idx == 0 else "O", self.cval(fs[0], None))
            if "v" in ty:
                ft = [x[1] for x in ty["v"][idx]["f"]]
                return ("adt", ty["path"], idx, tuple(self.cval(x, y) for x, y in zip(fs, ft)))
            return ("adt", ty["path"], idx, tuple(self.cval(x, None) for x in fs))
        if "bits" in v:
            return L(v["bits"])
        if "static" in v:
            return ("sym", ("static", v["static"]), t)
        if "opaque" in v:
            return self.mk(("const", v["opaque"]), t)
        if "fnptr" in v:
            return ("sym", ("fnptr", v["fnptr"]), t)
        raise Unsupported("const value %s" % (v,))

    _kc = {}

    def closure_body(self, path):
        for b in self.bodies:
            if b["path"] == path and b["kind"] == "item":
                return b["id"]
        return None

    def stmt(self, st, fid, b, s):
        k = s[0]
        if k == "=":
            v = self.rvalue(st, fid, b, s[2], s[1])
            pl = s[1]
            if not pl[1]:
                st.store[(fid, pl[0])] = v
            else:
                self.write(st, self.addr(st, fid, b, pl), v)
        elif k == "sd":
            a = self.addr(st, fid, b, s[1])
            t = self.type_at(*a) if a[0] != "val" else None
            if t is None:
                raise Unsupported("set discriminant")
            ty = self.T[t]
            self.write(st, a, ("adt", ty["path"], s[2], tuple(("uninit",) for _ in ty["v"][s[2]]["f"])))

    def rvalue(self, st, fid, b, r, dest):
        k = r[0]
        if k == "use":
            return self.operand(st, fid, b, r[1])
        if k in ("ref", "raw"):
            a = self.addr(st, fid, b, r[1])
            if a[0] == "val":
                return a[1]
            # references to unsized string/slice places are the fat value itself
            v = None
            t = self.place_unsized(b, r[1])
            if t:
                v = self.read(st, a)
                if v[0] == "str":
                    return v
                if v[0] == "seq":
                    return ("sref", a[0], a[1], L(0), self.seq_len(v), None)
            return ("ref", a[0], a[1])
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, fid, b, r[2]), self.operand(st, fid, b, r[3]), r[4])
        if k == "un":
            v = self.operand(st, fid, b, r[2])
            if r[1] == "Not":
                if v is True or v is False:
                    return not v
                if isinstance(v, tuple) and v[0] == "cond":
                    return ("cond", ("not", v[1]))
                if isinstance(v, Lin):
                    return L((1 << 64) - 1) - v         # sizes
                raise Unsupported("Not %s" % showv(v))
            if r[1] == "Neg":
                return -v
            if r[1] == "PtrMetadata":
                if v[0] == "sref":
                    return v[4] - v[3]
                if v[0] == "str":
                    return self.str_len(st, v)
            raise Unsupported("unop %s" % r[1])
        if k == "disc":
            a = self.addr(st, fid, b, r[1])
            v = self.read(st, a)
            return self.discr(st, v, r[2])
        if k == "agg":
            fs = tuple(self.operand(st, fid, b, x) for x in r[4])
            kind = r[1]
            if kind == "tuple":
                return ("tup", fs)
            if kind == "array":
                return ("seq", tuple(("v", x) for x in fs))
            if kind == "closure":
                return ("clo", self.T[r[2]]["path"], r[5], fs)
            if kind == "adt":
                if self.is_cow_str(r[2]):
                    return ("cow", "B" if r[3] == 0 else "O", fs[0])
                p = self.T[r[2]]["path"]
                if p in ("std::ops::Range",):
                    return ("adt", p, 0, fs)
                return ("adt", p, r[3], fs)
            raise Unsupported("aggregate %s" % kind)
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, fid, b, r[2]), r[3], r[4])
        if k == "rep":
            v = self.operand(st, fid, b, r[1])
            if r[2] is not None and r[2] <= 64:
                return ("seq", tuple(("v", v) for _ in range(r[2])))
            raise Unsupported("repeat")
        raise Unsupported("rvalue %s" % (r,))

    def place_unsized(self, b, pl):
        # type of the place is str or slice?  Only possible when the last projection is a deref or a sub-field; be lazy.
        if not pl[1] or pl[1][-1] != "*":
            return False
        t = self.place_type(b, pl)
        return t is None or self.T[t]["k"] in ("str", "slice", "dyn")

    def place_type(self, b, pl):
        t = b["locals"][pl[0]]
        var = 0
        for e in pl[1]:
            ty = self.T[t]
            if e == "*":
                if ty["k"] in ("ref", "ptr"):
                    t = ty["e"]
                elif ty["k"] == "adt" and ty.get("args"):
                    t = ty["args"][0]
                else:
                    return None
                var = 0
            elif e[0] == "f":
                if ty["k"] in ("tuple", "closure"):
                    if e[1] >= len(ty["f"]):
                        return None
                    t = ty["f"][e[1]]
                elif ty["k"] == "adt" and "v" in ty and e[1] < len(ty["v"][var]["f"]):
                    t = ty["v"][var]["f"][e[1]][1]
                else:
                    return None
                var = 0
            elif e[0] == "d":
                var = e[1]
            elif e[0] in ("i", "ci"):
                if ty["k"] not in ("array", "slice"):
                    return None
                t = ty["e"]
            else:
                return None
        return t

    def discr(self, st, v, t):
        if v is True or v is False:
            return L(int(v))
        if isinstance(v, Lin):
            return v
        if v[0] == "cmp":
            if isinstance(v[1], Lin) and isinstance(v[2], Lin):
                d = st.norm(v[1] - v[2])
                if not d.t:
                    return L(-1 if d.c < 0 else (1 if d.c > 0 else 0))
            return v
        if v is True or v is False:
            return L(int(v))
        if v[0] == "cond":
            return v
        if v[0] == "adt":
            ty = self.T[t]
            if "v" in ty and v[2] < len(ty["v"]):
                return L(ty["v"][v[2]]["disc"])
            return L(v[2])
        if v[0] == "cow":
            if v[1] == "B":
                return L(0)
            if v[1] == "O":
                return L(1)
            f = st.variants.get(v[3])
            if f and f[0] is not None:
                return L(f[0])
            return ("disc", v, t)
        if v[0] == "sym":
            f = st.variants.get(v[1])
            if f and f[0] is not None:
                return L(self.T[v[2]]["v"][f[0]]["disc"])
            return ("disc", v, v[2])
        raise Unsupported("discriminant of %s" % showv(v))

    def cast(self, st, kind, v, t, t0):
        ty = self.T[t]
        if kind == "IntToInt":
            src = self.T[t0]
            if src["k"] == "bool":
                if v is True or v is False:
                    return L(int(v))
                return ("b2i", v)
            if src["k"] == "char":
                if v[0] == "ch":
                    return L(v[1])
                return ("c2i", v)
            if ty["k"] == "char":
                if isinstance(v, Lin) and v.const is not None:
                    return ("ch", v.c)
                if isinstance(v, Lin):
                    return ("chs", ("i2c", v))
                if isinstance(v, tuple) and v[0] == "c2i":
                    return v[1]
            if isinstance(v, Lin):
                if v.const is not None and ty["k"] == "uint":
                    return L(v.c & ((1 << ty["w"]) - 1))
                if ty["w"] >= src.get("w", 64):
                    return v
                return L(("trunc", v, ty["w"]))
            if isinstance(v, tuple) and v[0] == "disc":
                return v
            return v
        if kind.startswith("PointerCoercion"):
            if "Unsize" in kind:
                tt = self.T[ty["e"]] if ty["k"] in ("ref", "ptr") else None
                if tt and tt["k"] == "slice":
                    if v[0] == "ref":
                        val = self.get(st, self.cell_value(st, v[1]), v[2])
                        return ("sref", v[1], v[2], L(0), self.seq_len(val), tt["e"])
                return v
            return v
        if kind in ("Transmute", "BoxDerefTransmute", "PtrToPtr", "Subtype"):
            if isinstance(v, tuple) and v[0] == "box":
                return ("ref", v[1], ())
            if isinstance(v, Lin) and ty["k"] == "bool" and v.const is not None:
                return bool(v.c)
            return v
        return self.mk(("cast", kind, v), t)

    def binop(self, st, op, a, b, t):
        if isinstance(a, tuple) and a and a[0] == "b2i" or isinstance(b, tuple) and b and b[0] == "b2i":
            a, b = self.b2i_lin(st, a), self.b2i_lin(st, b)
        if isinstance(a, Lin) and isinstance(b, Lin):
            base = op.replace("Unchecked", "").replace("WithOverflow", "")
            if base in ("Add", "Sub"):
                r = a + b if base == "Add" else a - b
                if op.endswith("WithOverflow"):
                    if base == "Add":
                        if r.const is not None and self.T[t].get("w", 64) < 64:
                            return ("tup", (r, r.const >= (1 << self.T[t]["w"])))
                        return ("tup", (r, False))     # usize/u64 additions of sizes cannot overflow in memory
                    if st.prove(r):
                        return ("tup", (r, False))
                    return ("tup", (r, ("cond", ("not", ("ge0", r)))))
                return r
            if base == "Mul":
                if a.const is not None:
                    r = b.scale(a.c)
                elif b.const is not None:
                    r = a.scale(b.c)
                else:
                    r = L(("mul", a, b))
                return ("tup", (r, False)) if op.endswith("WithOverflow") else r
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                c = {"Eq": ("eq0", a - b), "Ne": ("not", ("eq0", a - b)), "Lt": ("ge0", b - a - L(1)), "Le": ("ge0", b - a),
                     "Gt": ("ge0", a - b - L(1)), "Ge": ("ge0", a - b)}[op]
                e = (a - b)
                if not e.t:
                    x = e.c
                    return {"Eq": x == 0, "Ne": x != 0, "Lt": x < 0, "Le": x <= 0, "Gt": x > 0, "Ge": x >= 0}[op]
                return ("cond", c)
            if op == "Cmp":
                d = a - b
                if not d.t:
                    return ("adt", ORD, 1 + (d.c > 0) - (d.c < 0), ())
                return ("cmp", a, b)
            if a.const is not None and b.const is not None:
                f = {"BitAnd": lambda x, y: x & y, "BitOr": lambda x, y: x | y, "BitXor": lambda x, y: x ^ y, "Shl": lambda x, y: x << y, "Shr": lambda x, y: x >> y,
                     "Div": lambda x, y: x // y, "Rem": lambda x, y: x % y}.get(base)
                if f:
                    return L(f(a.c, b.c))
            return L((op, a, b))
        isb = lambda x: x is True or x is False or (isinstance(x, tuple) and x[0] == "cond")
        if isb(a) and isb(b):
            ca = a[1] if isinstance(a, tuple) else a
            cb = b[1] if isinstance(b, tuple) else b
            if op == "BitAnd":
                if a is False or b is False:
                    return False
                if a is True:
                    return b
                if b is True:
                    return a
                return ("cond", ("and", ca, cb))
            if op == "BitOr":
                if a is True or b is True:
                    return True
                if a is False:
                    return b
                if b is False:
                    return a
                return ("cond", ("or", ca, cb))
            if op in ("Eq", "Ne", "BitXor"):
                neg = op != "Eq"
                if a is True or a is False:
                    a, b, ca, cb = b, a, cb, ca
                if b is True or b is False:
                    want = b if not neg else (not b)
                    if a is True or a is False:
                        return a == want
                    return a if want else ("cond", ("not", ca))
                c = ("or", ("and", ca, cb), ("and", ("not", ca), ("not", cb)))
                return ("cond", ("not", c) if neg else c)
        ischar = lambda x: isinstance(x, tuple) and x[0] in ("ch", "chs")
        if ischar(a) and ischar(b):
            return self.char_cmp(st, op, a, b)
        # u32/u8 views of characters compared with constants
        for x, y, flip in ((a, b, False), (b, a, True)):
            if isinstance(x, tuple) and x[0] in ("c2i", "c8") and isinstance(y, Lin) and y.const is not None:
                if x[0] == "c8" and y.c > 127:
                    raise Unsupported("bytes of characters that are not ASCII")
                o2 = op if not flip else {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
                return self.char_cmp(st, o2, x[1], ("ch", y.c))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x[0] == "disc":
                if isinstance(y, Lin) and y.const is not None:
                    c = self.disc_is(x, y.c)
                    if op == "Eq":
                        return ("cond", c)
                    if op == "Ne":
                        return ("cond", ("not", c))
                if isinstance(y, tuple) and y[0] == "disc" and op in ("Eq", "Ne"):
                    ds = [v["disc"] for v in self.T[x[2]]["v"]]
                    c = False
                    for d in ds:
                        e = ("and", self.disc_is(x, d), self.disc_is(y, d))
                        c = e if c is False else ("or", c, e)
                    return ("cond", c if op == "Eq" else ("not", c))
        isd = lambda x: isinstance(x, tuple) and x[0] == "disc" or isinstance(x, Lin) and x.const is not None
        if isd(a) and isd(b) and op in ("Lt", "Le", "Gt", "Ge", "Cmp"):
            if op == "Cmp":
                return ("cmp", a, b)
            return ("cond", self.disc_cmp(op, a, b))
        if isinstance(a, tuple) and a[0] == "cmp" and isinstance(b, Lin) and b.const is not None and op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            x, y = a[1], a[2]
            f = {"Eq": lambda p, q: p == q, "Ne": lambda p, q: p != q, "Lt": lambda p, q: p < q, "Le": lambda p, q: p <= q, "Gt": lambda p, q: p > q, "Ge": lambda p, q: p >= q}[op]
            c = False
            for val, o2 in ((-1, "Lt"), (0, "Eq"), (1, "Gt")):
                if f(val, b.c if b.c < 128 else b.c - 256):
                    r = self.binop(st, o2, x, y, t)
                    r = r[1] if isinstance(r, tuple) else r
                    c = r if c is False else ("or", c, r)
            return c if c is True or c is False else ("cond", c)
        if op in ("Eq", "Ne"):
            if a == b:
                return op == "Eq"
            c = ("b", ("valeq",) + tuple(sorted((a, b), key=repr)))
            return ("cond", c if op == "Eq" else ("not", c))
        raise Unsupported("binop %s %s %s" % (op, showv(a), showv(b)))

    def disc_cmp(self, op, a, b):
        """Comparison of two discriminants as a formula over variants."""
        vals = lambda x: [x.c] if isinstance(x, Lin) else [v["disc"] for v in self.T[x[2]]["v"]]
        is_ = lambda x, d: True if isinstance(x, Lin) else self.disc_is(x, d)
        f = {"Lt": lambda x, y: x < y, "Le": lambda x, y: x <= y, "Gt": lambda x, y: x > y, "Ge": lambda x, y: x >= y, "Eq": lambda x, y: x == y}[op]
        c = False
        for x in vals(a):
            for y in vals(b):
                if f(x, y):
                    e = ("and", is_(a, x), is_(b, y))
                    c = e if c is False else ("or", c, e)
        return c

    def disc_is(self, x, d):
        v, t = x[1], x[2]
        if v[0] == "cow":
            return ("variant", ("sym", v[3], t), d)
        for i, var in enumerate(self.T[t]["v"]):
            if var["disc"] == d:
                return ("variant", v, i)
        return False

    def b2i_lin(self, st, x):
        if isinstance(x, tuple) and x[0] == "b2i":
            c = x[1]
            key = ("b2i", c)
            return L(key)
        return x

    def char_cmp(self, st, op, a, b):
        if a[0] == "ch" and b[0] == "ch":
            x, y = a[1], b[1]
            return {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]
        if a[0] == "ch":
            a, b = b, a
            op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
        if b[0] != "ch":
            if a == b:
                return op in ("Eq", "Le", "Ge")
            c = ("b", ("chareq" if op in ("Eq", "Ne") else op, a, b))
            return ("cond", ("not", c) if op == "Ne" else c)
        y = b[1]
        if op == "Eq":
            cc = CC.chars([y])
        elif op == "Ne":
            cc = CC.chars([y]).compl()
        elif op == "Lt":
            cc = CC.rng(0, y - 1)
        elif op == "Le":
            cc = CC.rng(0, y)
        elif op == "Gt":
            cc = CC.rng(y + 1, 0x10FFFF)
        else:
            cc = CC.rng(y, 0x10FFFF)
        if cc is None:
            lo = {"Lt": 0, "Le": 0}.get(op)
            # split at a non-ASCII bound: approximate with an opaque predicate
            return ("cond", ("b", ("charcmp", op, a, y)))
        return ("cond", ("cls", a, cc))

    # ---------------------------------------------------------------- terminators
    def term(self, st, fid, b, t, outs):
        k = t["k"]
        if k == "goto":
            return [(st, t["to"])]
        if k == "ret":
            outs.append(Outcome("ret", st))
            return []
        if k == "drop":
            return [(st, t["to"])]
        if k == "switch":
            return self.switch(st, self.operand(st, fid, b, t["on"]), t)
        if k == "call":
            return self.do_call(st, fid, b, t, outs)
        if k == "assert":
            c = self.operand(st, fid, b, t["cond"])
            res = []
            for s, v in self.decide(st, c):
                if v == t["exp"]:
                    res.append((s, t["to"]))
                else:
                    outs.append(Outcome("panic", s, None, {"what": "assert:" + t["msg"][0], "sp": t["sp"], "fn": b["path"], "chain": [x["path"] for x in self.stack]}))
            return res
        if k == "unreachable":
            outs.append(Outcome("ub", st, None, {"what": "unreachable", "sp": t["sp"], "fn": b["path"]}))
            return []
        if k in ("resume", "abort"):
            return []
        raise Unsupported("terminator %s" % (t,))

    def switch(self, st, v, t):
        ts, els = t["ts"], t["else"]
        if isinstance(v, Lin):
            v = st.norm(v)
            if v.const is not None:
                for x, bb in ts:
                    if x == v.c:
                        return [(st, bb)]
                return [(st, els)]
            res = []
            cur = st
            for x, bb in ts:
                nxt = None
                for s, r in self.decide(cur, ("eq0", v - L(x))):
                    if r:
                        res.append((s, bb))
                    else:
                        nxt = s
                if nxt is None:
                    return res
                cur = nxt
            return res + [(cur, els)]
        if v is True or v is False:
            v = int(v)
            for x, bb in ts:
                if x == v:
                    return [(st, bb)]
            return [(st, els)]
        if v[0] == "cond":
            m = dict((x, bb) for x, bb in ts)
            return [(s, m.get(int(r), els)) for s, r in self.decide(st, v)]
        if v[0] == "disc":
            res = []
            cur = st
            for x, bb in ts:
                c = self.disc_is(v, x)
                nxt = None
                for s, r in self.decide(cur, c):
                    if r:
                        res.append((s, bb))
                    else:
                        nxt = s
                if nxt is None:
                    return res
                cur = nxt
            return res + [(cur, els)]
        if v[0] in ("ch", "chs"):
            if v[0] == "ch":
                return self.switch(st, L(v[1]), t)
            res = []
            cur = st
            groups = {}
            for x, bb in ts:
                groups.setdefault(bb, []).append(x)
            for bb, xs in groups.items():
                nxt = None
                for s, r in self.decide_cls(cur, v, CC.chars(xs)):
                    if r:
                        res.append((s, bb))
                    else:
                        nxt = s
                if nxt is None:
                    return res
                cur = nxt
            return res + [(cur, els)]
        if v[0] == "c2i":
            return self.switch(st, v[1], t)
        if v[0] == "c8":
            if any(x > 127 for x, bb in ts):
                raise Unsupported("bytes of characters that are not ASCII")
            return self.switch(st, v[1], t)
        if v[0] == "sym" or v[0] == "cmp":
            if v[0] == "cmp":
                a, bq = v[1], v[2]
                # -1/0/1 encodings
                res = []
                cur = st
                for x, bb in ts:
                    x = x if x < 128 else x - 256
                    if isinstance(a, Lin) and isinstance(bq, Lin):
                        c = ("ge0", bq - a - L(1)) if x == -1 else (("eq0", a - bq) if x == 0 else ("ge0", a - bq - L(1)))
                    else:
                        c = self.disc_cmp({-1: "Lt", 0: "Eq", 1: "Gt"}[x], a, bq)
                    nxt = None
                    for s, r in self.decide(cur, c):
                        if r:
                            res.append((s, bb))
                        else:
                            nxt = s
                    if nxt is None:
                        return res
                    cur = nxt
                return res + [(cur, els)]
        raise Unsupported("switch on %s" % showv(v))

    # ---------------------------------------------------------------- calls
    def do_call(self, st, fid, b, t, outs):
        self.callsites += 1
        f = t["f"]
        args = [self.operand(st, fid, b, a) for a in t["a"]]
        d = t["d"]
        site = (b["path"], t["sp"], b["locals"][d[0]] if not d[1] else None, [self.operand_ty(b, a) for a in t["a"]])
        rs = self.call(st, f, args, site)
        res = []
        for o in rs:
            if o.kind == "ret":
                if t["to"] is None:
                    continue
                d = t["d"]
                if not d[1]:
                    o.st.store[(fid, d[0])] = o.v
                else:
                    self.write(o.st, self.addr(o.st, fid, b, d), o.v)
                res.append((o.st, t["to"]))
            else:
                outs.append(o)
        return res

    def operand_ty(self, b, o):
        if o[0] in ("c", "m"):
            pl = o[1]
            return b["locals"][pl[0]] if not pl[1] else None
        if o[0] == "k":
            return o[1].get("ty")
        return None

    def call(self, st, f, args, site):
        if "ptr" in f:
            raise Unsupported("call through function pointer")
        if "ctor" in f:
            t, idx = f["ctor"]
            if self.is_cow_str(t):
                return [ret(st, ("cow", "B" if idx == 0 else "O", args[0]))]
            return [ret(st, ("adt", self.T[t]["path"], idx, tuple(args)))]
        if self.opaque is not None:
            r = self.opaque(self, st, f, args, site)
            if r is not None:
                return r
        p = f.get("ipath") or f["path"]
        m = self.models.get(p) or self.models.get(f["path"])
        if m is not None:
            r = m(self, st, f, args, site)
            if r is not None:
                return r
        if f.get("id") is not None:
            b = self.bodies[f["id"]]
            return self.invoke(st, b, args, f)
        return self.model_fallback(self, st, f, args, site)

    def invoke(self, st, b, args, f):
        if b["closure"] and f["path"].startswith("std::ops::Fn"):
            # rust-call: arguments arrive as a tuple
            tup = args[1]
            args = [args[0]] + list(tup[1])
            args[0] = self.closure_self(st, b, args[0])
        elif f["path"].startswith("std::ops::Fn") and not b["closure"] and b["kind"] == "item" and b["argc"] != 2:
            args = list(args[1][1])
        elif f["path"].startswith("std::ops::Fn") and not b["closure"] and b["kind"] == "item" and not (f.get("trait") or "").startswith("std::ops::Fn"):
            args = list(args[1][1])
        return self.run_body(st, b, args)

    def closure_self(self, st, b, v):
        wants_ref = self.T[b["locals"][1]]["k"] == "ref"
        if wants_ref and v[0] == "clo":
            return ("ref", self.new_cell(st, v), ())
        if not wants_ref and v[0] == "ref":
            return self.get(st, self.cell_value(st, v[1]), v[2])
        if wants_ref and v[0] == "ref":
            # collapse && chains
            x = self.get(st, self.cell_value(st, v[1]), v[2])
            while isinstance(x, tuple) and x[0] == "ref":
                v = x
                x = self.get(st, self.cell_value(st, v[1]), v[2])
        return v

    def call_value(self, st, fv, args, site):
        """Call a function value (closure, fn item, reference to one) with unpacked args."""
        while isinstance(fv, tuple) and fv[0] == "ref":
            inner = self.get(st, self.cell_value(st, fv[1]), fv[2])
            if isinstance(inner, tuple) and inner[0] == "clo":
                b = self.bodies[inner[2]]
                return self.run_body(st, b, [self.closure_self(st, b, fv)] + list(args))
            fv = inner
        if fv[0] == "clo":
            b = self.bodies[fv[2]]
            return self.run_body(st, b, [self.closure_self(st, b, fv)] + list(args))
        if fv[0] == "fn":
            return self.call(st, fv[1], list(args), site)
        if fv[0] == "pyfn":
            return fv[1](self, st, list(args), site)
        if fv[0] == "box":
            return self.call_value(st, self.cell_value(st, fv[1]), args, site)
        if fv[0] == "sym":
            return self.opaque_fn(st, fv, args, site)
        raise Unsupported("call of %s" % showv(fv))

    def opaque_fn(self, st, fv, args, site):
        """A caller-supplied function: the call is recorded; it may return anything of its type."""
        t = site[2] if len(site) > 2 else None
        if t is None:
            raise Unsupported("result type of unknown function value %s" % showv(fv))
        from models import freeze
        fargs = tuple(freeze(self, st, x) for x in args)
        n = sum(1 for e in st.trace if e[0] in ("ucall", "call"))
        r = ("ret", fv[1], n, fargs)
        st.emit("call", fv[1], fargs, r)
        return [ret(st, self.mk(r, t))]


class _Hash(dict):
    """Callee description usable inside immutable values."""

    def __hash__(self):
        return hash((self.get("path"), self.get("id"), str(self.get("args"))))

    def __eq__(self, o):
        return isinstance(o, dict) and self.get("path") == o.get("path") and self.get("id") == o.get("id") and self.get("args") == o.get("args")
