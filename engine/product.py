"""Relational abstract interpretation: one function of the current source against the same function of the reference model.

Both bodies are interpreted over the same provenance terms.  The current body is partitioned into cells first; on each
cell the model's body is interpreted starting from the cell's facts.  On a joint cell the two outcomes (result, final
contents of what the arguments lead to, effects in order) are compared as terms; a difference counts only when the joint
cell is inhabited by an assignment on which the two readings differ (conc.witness).
"""
import time, hashlib, json, re
from core import *
import interp
from interp import Interp, Outcome, ret, showv
from contracts import Contracts, CInterp, EXTRA, NEVER, DISPLAY, erase, heads
import conc, grow


# ------------------------------------------------------------------ structural identity
class Hasher:
    def __init__(self, d, shared):
        self.d, self.T, self.shared = d, d["types"], shared
        self.cache = {}
        self.tcache = {}

    def ty(self, t, depth=0):
        if t is None:
            return None
        r = self.tcache.get(t)
        if r is None:
            ty = self.T[t]
            if ty["k"] == "closure":
                r = "closure"
            else:
                r = erase(ty["s"])
                if "{closure" in r:
                    r = ty["k"] + ":" + r
            self.tcache[t] = r
        return r

    def body(self, i, stack=()):
        r = self.cache.get(i)
        if r is not None:
            return r
        if i in stack:
            return "rec%d" % (len(stack) - stack.index(i))
        b = self.d["bodies"][i]
        r = self.raw(b, stack + (i,))
        self.cache[i] = r
        return r

    def raw(self, b, stack):
        j = {"l": [self.ty(t) for t in b["locals"]], "a": b["argc"], "b": [self.block(x, stack) for x in b["blocks"]]}
        return hashlib.sha256(json.dumps(j, sort_keys=True).encode()).hexdigest()

    def block(self, x, stack):
        return [[self.stmt(s, stack) for s in x["s"] if s[0] not in ("live", "dead")], self.term(x["t"], stack)]

    def place(self, p):
        return [p[0], [e if not (isinstance(e, list) and e[0] == "f") else e[:2] for e in p[1]]]

    def op(self, o, stack):
        if o[0] in ("c", "m"):
            return [o[0], self.place(o[1])]
        if o[0] == "k":
            return ["k", self.const(o[1], stack)]
        return o

    def const(self, c, stack):
        out = {"ty": self.ty(c.get("ty"))}
        if "fn" in c:
            out["fn"] = self.callee(c["fn"], stack)
            return out
        if "promoted" in c:
            out["p"] = self.raw(self.d["promoted"][c["promoted"]], stack)
            return out
        for k in c:
            if k == "v":
                out["v"] = self.cv(c["v"], stack)
            elif k not in ("ty", "named"):
                out[k] = c[k]
        return out

    def cv(self, v, stack):
        if isinstance(v, dict):
            r = {}
            for k, x in v.items():
                if k in ("ty", "ity"):
                    r[k] = self.ty(x)
                elif k == "fnptr":
                    r[k] = x
                else:
                    r[k] = self.cv(x, stack)
            return r
        if isinstance(v, list):
            return [self.cv(x, stack) for x in v]
        return v

    def callee(self, f, stack):
        if "ptr" in f:
            return ["ptr", self.op(f["ptr"], stack)]
        p = f.get("ipath") or f["path"]
        out = [f["path"], p, [self.ty(t) for t in f.get("args", [])], [self.ty(t) for t in f.get("iargs") or []]]
        # closures passed as type arguments are part of what is called
        for t in list(f.get("args", [])) + list(f.get("iargs") or []):
            out += self.closures_in(t, stack, 0)
        if "ctor" in f:
            out.append([self.ty(f["ctor"][0]), f["ctor"][1]])
        i = f.get("id")
        if i is not None:
            b = self.d["bodies"][i]
            if b["closure"] or (b["local"] and b["path"] not in self.shared):
                out.append(self.body(i, stack))
        return out

    def closures_in(self, t, stack, d):
        return []

    def stmt(self, s, stack):
        if s[0] == "=":
            return ["=", self.place(s[1]), self.rv(s[2], stack)]
        if s[0] == "sd":
            return ["sd", self.place(s[1]), s[2]]
        return s

    def rv(self, r, stack):
        k = r[0]
        if k == "use":
            return [k, self.op(r[1], stack)]
        if k in ("ref", "raw"):
            return [k, self.place(r[1])] + r[2:]
        if k == "cast":
            return [k, r[1].split("(")[0], self.op(r[2], stack), self.ty(r[3]), self.ty(r[4])]
        if k == "bin":
            return [k, r[1], self.op(r[2], stack), self.op(r[3], stack)]
        if k == "un":
            return [k, r[1], self.op(r[2], stack)]
        if k == "disc":
            return [k, self.place(r[1])]
        if k == "agg":
            out = [k, r[1], self.ty(r[2]), r[3], [self.op(x, stack) for x in r[4]]]
            if r[1] == "closure" and len(r) > 5 and r[5] is not None:
                out.append(self.body(r[5], stack))
            return out
        if k == "rep":
            return [k, self.op(r[1], stack), r[2]]
        return r

    def term(self, t, stack):
        k = t["k"]
        if k == "switch":
            return [k, self.op(t["on"], stack), t["ts"], t["else"]]
        if k == "call":
            return [k, self.callee(t["f"], stack), [self.op(a, stack) for a in t["a"]], self.place(t["d"]), t["to"]]
        if k == "assert":
            return [k, self.op(t["cond"], stack), t["exp"], t["msg"][0], t["to"]]
        if k == "drop":
            return [k, self.place(t["p"]), t["to"]]
        if k == "goto":
            return [k, t["to"]]
        return [k]


# ------------------------------------------------------------------ comparison
def fact_heads(x, out):
    if isinstance(x, dict):
        for k, v in x.items():
            fact_heads(k, out)
            fact_heads(v, out)
    elif isinstance(x, (list, set, frozenset)):
        for v in x:
            fact_heads(v, out)
    else:
        heads(x, out)
        if isinstance(x, tuple):
            for y in x:
                if isinstance(y, (dict, list, set, frozenset)):
                    fact_heads(y, out)


class Diff:
    def __init__(self, fn, kind, a, b, where, wit, tags=()):
        self.fn, self.kind, self.a, self.b, self.where, self.wit, self.tags = fn, kind, a, b, where, wit, tags
        self.heads = set()              # library functions the values and the conditions are built from

    def __repr__(self):
        return "<DIFF %s %s\n    current: %s\n    model:   %s\n    on: %s>" % (self.fn, self.kind, self.a, self.b, self.wit)


class Result:
    def __init__(self, fn):
        self.fn = fn
        self.status = "undecided"      # same | equal | diff | undecided
        self.why = None
        self.diffs = []
        self.cells = 0
        self.pairs = 0
        self.unk = 0
        self.sampled = 0
        self.cut = 0
        self.time = 0
        self.panics = []
        self.used = set()

    def __repr__(self):
        return "%s: %s cells=%d pairs=%d unk=%d sampled=%d cut=%d %.1fs %s" % (self.fn, self.status, self.cells, self.pairs, self.unk, self.sampled, self.cut, self.time, self.why or "")


LIFETIME = re.compile(r"'\w+")


def relabel(da, db):
    """Give functions of the current tree that only name lifetimes otherwise the model's names."""
    pa, pb = ({b["path"] for b in d["bodies"] if b["local"] and not b["closure"]} for d in (da, db))
    free, to = {}, {}
    for p in pa - pb:
        free.setdefault(LIFETIME.sub("'_", p), []).append(p)
    for p in pb - pa:
        to.setdefault(LIFETIME.sub("'_", p), []).append(p)
    m = {free[k][0]: to[k][0] for k in to if len(to[k]) == 1 and len(free.get(k, ())) == 1}
    if not m:
        return

    def new(s):
        for o, n in m.items():
            if s.startswith(o) and (len(s) == len(o) or s.startswith("::", len(o))):
                return n + s[len(o):]
        return s

    def walk(x):
        for k, y in (x.items() if isinstance(x, dict) else enumerate(x)):
            if isinstance(y, str):
                if "'" in y:
                    x[k] = new(y)
            elif isinstance(y, (dict, list)):
                walk(y)
    walk(da)


class Pair:
    """The two dumps and what they share."""

    def __init__(self, da, db):
        self.da, self.db = da, db
        self.clo = {}
        relabel(da, db)
        self.ca, self.cb = Contracts(da), Contracts(db)
        ia, ib = Interp(da), Interp(db)
        # types of the current tree that have more than the model's
        self.grown, self.badadts = grow.find(da, db) if da is not db else ({}, set())
        self.added = set()
        if self.grown:
            self.added = grow.apply(da, self.grown)
        self.shared = set()
        for p, b in self.cb.roots.items():
            a = self.ca.roots.get(p)
            if a is None or self.ca.sig(a) != self.cb.sig(b) or p in NEVER:
                continue
            if self.cb.has_fn_arg(b) or self.ca.has_fn_arg(a):
                continue
            if p in EXTRA or p.endswith(DISPLAY) or self.cb.is_parser(b) or bool(ib.loops_of(b)):
                self.shared.add(p)
        self.ha, self.hb = Hasher(da, self.shared), Hasher(db, self.shared)

    def closure(self, cmp, x, y):
        """The differences between two closures, given by the hashes of their bodies; None: not known."""
        if (x, y) in self.clo:
            return self.clo[x, y]
        self.clo[x, y] = None
        a = [i for i, h in self.ha.cache.items() if h == x]
        b = [i for i, h in self.hb.cache.items() if h == y]
        a, b = a and self.da["bodies"][min(a)], b and self.db["bodies"][min(b)]
        if not a or not b or not a["closure"] or not b["closure"] or a["argc"] != b["argc"] or [self.ha.ty(t) for t in a["locals"][2:a["argc"] + 1]] != \
                [self.hb.ty(t) for t in b["locals"][2:b["argc"] + 1]]:
            return None
        env = []
        for h, d, c in ((self.ha, self.da, a), (self.hb, self.db, b)):
            t = d["types"][c["locals"][1]]
            t = d["types"][t["e"]] if t["k"] == "ref" else t
            env.append([h.ty(f) for f in t["f"]])
        if env[0] != env[1]:
            return None
        sub = Cmp(self, cmp.fn, budget=max(1, cmp.A.deadline - time.time()), opts=dict(cmp.opts, nested=True))
        r = sub.run(a, b)
        cmp.R.cells += r.cells
        cmp.R.pairs += r.pairs
        cmp.R.sampled += r.sampled
        cmp.R.cut += r.cut
        if r.status in ("equal", "diff"):
            self.clo[x, y] = r.diffs
        return self.clo[x, y]

    def changed(self):
        out = []
        for p, b in self.cb.roots.items():
            a = self.ca.roots.get(p)
            if a is None:
                continue
            if self.ha.body(a["id"]) != self.hb.body(b["id"]):
                out.append(p)
        return out


# terms whose readings are computed (conc) or that are plain structure
WELL = {"trim_start_str", "trim_end_str", "#idx", "*", "adt", "addok", "mulok", "after", "and", "or", "not", "arg", "at", "b", "b2i", "bound", "c", "call", "ch", "chs", "charcmp", "chareq",
        "clen", "clo", "cls", "cond", "contains", "cow*", "cpos", "lpos", "hascpos", "disc", "cmp", "elem", "endswith", "startswith", "eq0", "ge0", "eqic", "ceqic", "f",
        "find", "rfind", "sfind", "hassfind", "hasfind", "hasrfind", "fn", "from_u32", "i2c", "k", "len", "line", "lowercase", "uppercase", "ascii_lowercase", "ascii_uppercase",
        "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "nchars", "ccount", "charslo", "out", "parse", "radix", "perr", "perr*", "pk", "post", "repeat",
        "replace", "ret", "rest", "rscan", "scan", "seq", "s", "v", "sl", "sref", "str", "strparts", "streq", "sym", "tup", "ucall", "variant", "valeq", "write",
        "x", "Lt", "Le", "Gt", "Ge", "fmtarg", "fmtargs", "fa", "char", "chars", "it", "probe", "writefail",
        "Rem", "Div", "BitAnd", "mul", "Mul", "trunc", "wrap",
        "evs", "iter", "i", "opt", "flat", "sref"}


EVENT_ITER = "sgmlish::parser::events::EventIter"


def pieces(v):
    """A frozen iterator as the list of what it yields, as far as that is known."""
    if not isinstance(v, tuple) or not v:
        return [("i", v)]
    if v[0] == "seq":
        return [("v", s[1]) if s[0] == "v" else ("i", evs(s)) for s in v[1]]
    if v[0] == "adt":
        if v[1] == EVENT_ITER:
            f = dict(v[3])
            if set(f) == {"start", "middle", "end", "middle_next"} and f["middle_next"] == L(0) and isinstance(f["middle"], tuple) and f["middle"][0] == "seq":
                out = []
                for n in ("start", "middle", "end"):
                    x = f[n]
                    if n == "middle":
                        out += pieces(x)
                    elif x[0] == "adt" and x[2] in ("None", "Some"):
                        out += [("v", x[3][0][1])] if x[2] == "Some" else []
                    else:
                        out.append(("i", ("opt", x)))
                return out
        if v[1] == "std::option::Option":
            return [("v", v[3][0][1])] if v[2] == "Some" else []
        return [("i", v)]
    if v[0] == "it":
        k = v[1]
        if k == "empty":
            return []
        if k == "once":
            return [("v", v[2])]
        if k == "chain":
            return [p for x in v[2:4] if x is not None for p in pieces(x)]
        if k == "flatten":
            out = pieces(v[3]) if len(v) > 3 and v[3] is not None else []
            for p in pieces(v[2]):
                out += pieces(p[1]) if p[0] == "v" else [("i", ("flat", p[1]))]
            return out
    return [("i", v)]


def evs(s):
    """A whole symbolic run is the iterator it came from."""
    if s[0] == "s" and s[2] == L(0) and s[3] == L(("len", s[1])):
        return ("sym", s[1][1] if isinstance(s[1], tuple) and s[1][0] == "evs" else s[1])
    return s


def norm_iters(v, d=0):
    if not isinstance(v, tuple) or not v or d > 12:
        return v
    if v[0] == "it" or (v[0] == "adt" and v[1] == EVENT_ITER):
        ps = tuple(("v", norm_iters(p[1], d + 1)) if p[0] == "v" else p for p in pieces(v))
        if any(p[0] == "i" and isinstance(p[1], tuple) and p[1] and p[1][0] == "it" for p in ps):
            return v
        if len(ps) == 1 and ps[0][0] == "i":
            return ps[0][1]
        return ("iter", ps)
    return tuple(norm_iters(x, d + 1) if isinstance(x, tuple) else x for x in v)


# what a difference is about: contract calls whose presence, absence or change alone accounts for it
GROUPS = {
    "normalize": ("sgmlish::parser::NameNormalization::normalize",),
    "expand": ("sgmlish::parser::ParserConfig::parse_rcdata", "sgmlish::entities::expand_entities", "sgmlish::entities::expand_parameter_entities",
               "sgmlish::entities::expand_characters"),
    "trim": ("sgmlish::parser::ParserConfig::trim",),
}


def calls_of(x, names, out):
    if isinstance(x, Lin):
        for v, _ in x.t:
            calls_of(v, names, out)
    elif isinstance(x, tuple) and x:
        if x[0] == "call" and len(x) > 1 and x[1] in names:
            out.append(x)
        for y in x:
            if isinstance(y, (tuple, Lin)):
                calls_of(y, names, out)
    return out


def shape(v):
    out = []
    while isinstance(v, tuple) and len(v) > 3 and v[0] == "adt" and v[1] in ("std::result::Result", "std::option::Option"):
        out.append(v[2])
        if not v[3]:
            break
        v = v[3][0][1]
    return tuple(out)


def tags(kind, o, p, va, vb):
    """Words a property can select on: how the two sides end, and which operations differ."""
    t = set()
    if o.kind == "panic" and p.kind != "panic":
        t.add("panics")
    if o.kind == "loop":
        t.add("endless")
    if kind == "sink":
        t.add("sink")
    if kind == "value":
        sa, sb = shape(va), shape(vb)
        t.add("value")
        if "Err" in sa or "Err" in sb:
            t.add("error")
        if sa[-1:] == ("Some",) and sb[-1:] == ("None",):
            t.add("more")
    elif kind in ("effect", "trace"):
        t.add(kind)
    if kind in ("value", "effect", "trace"):
        for g, names in GROUPS.items():
            ca, cb = sorted(map(repr, calls_of(va, names, []))), sorted(map(repr, calls_of(vb, names, [])))
            if ca != cb if g == "normalize" else len(ca) != len(cb):
                t.add(g)
    return sorted(t)


def closures(v, out=None):
    out = set() if out is None else out
    if isinstance(v, tuple):
        if v and v[0] == "clo" and len(v) == 3:
            out.add(v[1])
        for x in v:
            if isinstance(x, tuple):
                closures(x, out)
    return out


def counts_alike(st, a, b):
    """b, where it counts characters of what the facts show to be a's text, in a's words."""
    for v, k in b.t:
        if isinstance(v, tuple) and v and v[0] in ("ccount", "nchars"):
            for w, _ in a.t:
                if isinstance(w, tuple) and w and w != v and w[0] == v[0] and w[2:] == v[2:] and len(w[1][1]) == len(v[1][1]) and \
                        all(p == q or p[0] == q[0] == "sl" and p[1] == q[1] and st.lin_eq(p[2], q[2]) and st.lin_eq(p[3], q[3]) for p, q in zip(w[1][1], v[1][1])):
                    b = b - L(v).scale(k) + L(w).scale(k)
                    break
    return b


def held(a, b, out):
    """Are the two values the same but for the closures they hold?  out: the pairs of closure bodies that differ."""
    if a == b:
        return True
    if not isinstance(a, tuple) or not isinstance(b, tuple) or not a or not b or len(a) != len(b):
        return False
    if a[0] == "clo" and b[0] == "clo" and len(a) == 3:
        if a[2] != b[2]:
            return False
        out.append((a[1], b[1]))
        return True
    if isinstance(a[0], str) and a[0] not in ("adt", "tup", "box", "v", "seq") and not (len(a) == 2):
        return False
    return all(x == y or held(x, y, out) for x, y in zip(a, b))


def iterators(v, out=None):
    """Iterators in a frozen value that are not spelled out as what they yield."""
    out = [] if out is None else out
    if isinstance(v, tuple) and v:
        if v[0] == "it":
            out.append(v)
        else:
            for x in v:
                if isinstance(x, tuple):
                    iterators(x, out)
    return out


_RAW, _EV = "sgmlish::parser::raw::", "sgmlish::parser::events::"
# parsers of one token, which fail where they begin
AT_START = {_RAW + "close_start_tag", _RAW + "xml_close_empty_element", _RAW + "empty_start_tag", _RAW + "name_start", _RAW + "marked_section_end",
            _EV + "close_start_tag", _EV + "xml_close_empty_element", _EV + "empty_start_tag"}


class Cmp:
    def __init__(self, pair, fn, inline=(), peel=2, budget=120, opts=None):
        self.pair, self.fn = pair, fn
        self.A = CInterp(pair.da, pair.shared, inline)
        self.B = CInterp(pair.db, pair.shared, inline)
        self.A.peel = self.B.peel = peel
        self.B.symty = self.A.symty
        self.A.hasher, self.B.hasher = pair.ha, pair.hb
        self.t0 = time.time()
        self.A.deadline = self.B.deadline = self.t0 + budget
        self.R = Result(fn)
        self.ha, self.hb = set(), set()
        self.opts = opts or {}

    def args(self, I, b, st):
        out = []
        for i in range(1, b["argc"] + 1):
            if i == 1 and b["closure"]:
                out.append(self.environment(I, b, st))
                continue
            out.append(I.mk(("arg", "a%d" % i), b["locals"][i]))
        if b["path"].endswith("::locate") and len(out) == 2 and all(x[0] == "str" for x in out):
            # every caller passes a rest of its first argument (the parsers' inputs are suffixes of the document)
            base = ("arg", "a1")
            n = L(("len", base))
            out[1] = ("str", (("sl", base, L(("after", ("arg", "a2"), base, n, L(0))), n),))
        return out

    def environment(self, I, b, st):
        """A closure over symbolic captures, as its body receives it."""
        ty = I.T[b["locals"][1]]
        ref = ty["k"] == "ref"
        if ref:
            ty = I.T[ty["e"]]
        v = ("clo", ty["path"], b["id"], tuple(I.mk(("arg", "cap%d" % j), t) for j, t in enumerate(ty["f"])))
        if not ref:
            return v
        cell = ("*", ("arg", "env"))
        st.store[cell] = v
        return ("ref", cell, ())

    def run(self, a=None, b=None):
        R = self.R
        if a is None:
            a, b = self.pair.ca.roots[self.fn], self.pair.cb.roots[self.fn]
        try:
            self.body(a, b)
        except Unsupported as e:
            R.status = "undecided" if not R.diffs else "diff"
            R.why = "%s %s" % (e, getattr(e, "where", [""])[-2:])
        except RecursionError:
            R.status = "undecided" if not R.diffs else "diff"
            R.why = "recursion"
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            R.status = "undecided" if not R.diffs else "diff"
            R.why = "internal: %r at %s:%s" % (e, tb.filename.split("/")[-1], tb.lineno)
            if self.opts.get("tb"):
                traceback.print_exc()
        R.time = time.time() - self.t0
        R.used = self.A.used | self.B.used
        R.only_a, R.only_b = self.A.used - self.B.used, self.B.used - self.A.used
        if R.status == "diff":
            # readings of library functions the analysis leaves uninterpreted are comparable only when both sides use them
            odd = ((self.ha | self.A.asked) ^ (self.hb | self.B.asked))
            odd = {h for h in odd if (h[0] if isinstance(h, tuple) else h) not in self.known_heads() and h != ("fmt", "display")}
            # (a difference whose values and conditions mention none of those stands)
            R.diffs = [d for d in R.diffs if not d.heads & odd]
            if not R.diffs:
                R.status = "undecided"
                R.why = "formulated with different library functions: %s" % sorted(map(str, odd))[:5]
        return R

    def known_heads(self):
        if Cmp._known is None:
            k = set(WELL)
            for d in (self.pair.da, self.pair.db):
                for t in d["types"]:
                    for v in t.get("v") or ():
                        k.update(n for n, _ in v["f"])
            Cmp._known = k
        return Cmp._known

    _known = None

    def body(self, a, b):
        R = self.R
        self.A.sink_ok = self.B.sink_ok = True
        s0 = State()
        outs = self.A.run_body(s0, a, self.args(self.A, a, s0), keep=False)
        for o in outs:
            if o.kind == "ub":
                continue
            if o.kind == "cut":
                R.cut += 1
                continue
            R.cells += 1
            s = o.st.copy()
            s.store = {}
            s.trace = ()
            s.ctr = 0
            try:
                bo = self.B.run_body(s, b, self.args(self.B, b, s), keep=False)
            except Unsupported as e:
                R.unk += 1
                R.why = "model: %s" % e
                if "budget" in str(e):
                    raise
                continue
            for p in bo:
                if p.kind == "ub":
                    continue
                if p.kind == "cut":
                    R.unk += 1
                    continue
                R.pairs += 1
                self.compare(o, p)
                if self.enough():
                    R.status = "diff"
                    return
        if any(e[0] == "write" for o in outs for e in o.st.trace):
            self.sinks(a)
        if R.diffs:
            R.status = "diff"
        elif R.unk:
            R.status = "undecided"
        else:
            R.status = "equal"

    def sinks(self, a):
        """When a write to the caller's formatter fails, the failure is returned and nothing more is written."""
        R = self.R
        self.A.sink_ok = False
        self.A.peel = min(self.A.peel, 1)
        try:
            s0 = State()
            outs = self.A.run_body(s0, a, self.args(self.A, a, s0), keep=False)
        except Unsupported as e:
            R.unk += 1
            R.why = "failing sinks: %s" % e
            return
        for o in outs:
            if o.kind == "cut" or o.kind == "ub" or not self.failed(o):
                continue
            ev = [e[0] for e in o.st.trace]
            more = "write" in ev[ev.index("writefail"):]
            sh = self.shape(self.A.fz(o.st, o.v)) if o.kind == "ret" else o.kind
            if o.kind == "ret" and sh in ("Err", "?") and not more:
                R.cells += 1
                continue
            va, vb = ("out", sh, more), ("out", "Err", False)
            self.differ("sink", o, o, o.st, va, vb)
            if self.enough():
                return

    def enough(self):
        """Enough differences found (those that mention no library function left uninterpreted)."""
        m = self.opts.get("maxdiffs", 4)
        ds = self.R.diffs
        if len(ds) < m:
            return False
        known = self.known_heads()
        return len(ds) >= 3 * m or sum(all((h[0] if isinstance(h, tuple) else h) in known for h in d.heads) for d in ds) >= m

    # ------------------------------------------------------------ one joint cell
    def joint(self, o, p):
        s = o.st.copy()
        q = p.st
        s.bools, s.variants, s.chars, s.lins, s.neqs, s.seqfacts, s.strk, s.negs = q.bools, q.variants, q.chars, q.lins, q.neqs, q.seqfacts, q.strk, q.negs
        s.proved = {}
        return s

    def failed(self, o):
        return any(e[0] == "writefail" for e in o.st.trace)

    def compare(self, o, p):
        js = self.joint(o, p)
        if o.kind != p.kind:
            self.differ("endless" if o.kind == "loop" else "panic" if "panic" in (o.kind, p.kind) else o.kind, o, p, js, ("out", o.kind), ("out", p.kind),
                        o.info if o.kind == "panic" else p.info)
            return
        if o.kind != "ret":
            return
        va, vb = self.A.fz(js, o.v), self.B.fz(p.st, p.v)
        va, vb = norm_iters(self.erase_perr(va)), norm_iters(self.erase_perr(vb))
        va, vb = self.align(p.st, va, vb)
        heads(va, self.ha)
        heads(vb, self.hb)
        if va != vb:
            self.differ("value", o, p, js, va, vb)
        ca, cb = self.cells(self.A, js), self.cells(self.B, p.st)
        for k in sorted(set(ca) | set(cb), key=repr):
            x, y = ca.get(k, "unchanged"), cb.get(k, "unchanged")
            if x == "unchanged" and y != "unchanged":
                x = self.initial(self.B, p.st, k)
            elif y == "unchanged" and x != "unchanged":
                y = self.initial(self.A, js, k)
            x, y = self.align(p.st, x, y)
            if x != y:
                self.differ("effect", o, p, js, x, y)
        ta, tb = self.align(p.st, self.trace(self.A, js), self.trace(self.B, p.st))
        heads(ta, self.ha)
        heads(tb, self.hb)
        if ta != tb:
            self.differ("trace", o, p, js, ta, tb)

    def align(self, st, a, b, d=0):
        """Spell out a symbol on one side where the other side has its parts."""
        if isinstance(a, Lin) and isinstance(b, Lin) and a != b:
            return a, counts_alike(st, a, b)
        if a is b or a == b or not isinstance(a, tuple) or not isinstance(b, tuple) or not a or not b or d > 14:
            return a, b
        if a[0] == "sym" and b == UNIT:
            return b, b
        if b[0] == "sym" and a == UNIT:
            return a, a
        if a[0] == "sym" and b[0] == "adt":
            x = self.B.spelled(st, a[1]) or self.spell(st, a[1], b)
            return self.align(st, x, b, d + 1) if x is not None else (a, b)
        if b[0] == "sym" and a[0] == "adt":
            x = self.B.spelled(st, b[1]) or self.spell(st, b[1], a)
            return self.align(st, a, x, d + 1) if x is not None else (a, b)
        if a[0] == "sym" and b[0] == "sym":
            x, y = self.B.spelled(st, a[1]), self.B.spelled(st, b[1])
            if x is not None and y is not None:
                return self.align(st, x, y, d + 1)
        if len(a) != len(b) or (isinstance(a[0], str) and a[0] != b[0]):
            return a, b
        out = [self.align(st, x, y, d + 1) if isinstance(x, (tuple, Lin)) and isinstance(y, (tuple, Lin)) else (x, y) for x, y in zip(a, b)]
        return tuple(x for x, _ in out), tuple(y for _, y in out)

    def spell(self, st, T, like):
        I = self.B
        ty = I.adt_ty(like[1])
        if ty is None or (like[1].startswith("std::") and like[1] not in ("std::option::Option", "std::result::Result")):
            return None
        enum = ty["kind"] == "enum"
        f = st.variants.get(T) if enum else None
        if enum and (not f or f[0] is None):
            return None
        i = f[0] if enum else 0
        if i >= len(ty["v"]):
            return None
        v = ty["v"][i]
        if v["n"] != like[2] and not enum:
            return None
        fs = []
        for n, ft in v["f"]:
            t = ("f", T, v["n"] + "." + n if enum else n)
            x = ("sym", t)
            w = dict(like[3]).get(n) if v["n"] == like[2] else None
            if not (isinstance(w, tuple) and w and w[0] in ("adt", "sym")) and not ty["args"]:
                x = I.fz(st, I.mk(t, ft))
            elif st.variants.get(t) and isinstance(w, tuple) and w[0] == "adt":
                x = self.spell(st, t, w) or x
            fs.append((n, x))
        return ("adt", like[1], v["n"], tuple(fs))

    def shape(self, v):
        if isinstance(v, tuple) and v and v[0] == "adt" and v[1] == RES:
            return v[2]
        return "?"

    def erase_perr(self, v):
        """nom's recoverable errors only say where an alternative was abandoned: their content is not behaviour."""
        if isinstance(v, tuple) and v:
            if v[0] == "adt" and v[1] == "nom::Err" and v[2] == "Error" and not self.opts.get("errs"):
                return ("adt", v[1], v[2], ())
            if v[0] == "perr" or v[0] == "sym" and isinstance(v[1], tuple) and v[1] and v[1][0] == "perr*":
                return self.cause(v)
            return tuple(self.erase_perr(x) if isinstance(x, tuple) else x for x in v)
        return v

    def cause(self, v):
        """Of a parse error, where it happened and what caused it: its wording (what was expected, inside what) is no property's."""
        while v[0] == "perr" and v[1] in ("append", "add_context", "or") and len(v[2]) > 1 and isinstance(v[2][-1], tuple):
            v = v[2][-1]
        if v[0] == "perr" and v[1] in ("from_error_kind", "from_char", "kind"):
            return ("perr", "at", v[2][:1])
        if v[0] == "perr" and v[1] == "from_external_error":
            return ("perr", "external", (v[2][0], self.erase_perr(v[2][-1])))
        if v[0] == "sym" and isinstance(v[1], tuple) and v[1][0] == "perr*" and v[1][1][1] in AT_START:
            return ("perr", "at", v[1][1][2][:1])
        return v

    def initial(self, I, st, cell):
        t = I.cell_ty.get(cell)
        return I.fz(st, I.mk(cell[1], t)) if t is not None else ("sym", cell[1])

    def cells(self, I, st):
        out = {}
        for cell, v in st.store.items():
            if cell[0] != "*" or not self.rooted(cell[1]):
                continue
            t = I.cell_ty.get(cell)
            if t is None:
                continue
            x = I.fz(st, v)
            if x == I.fz(st, I.mk(cell[1], t)):
                continue
            out[cell] = x
        return out

    def rooted(self, t):
        while isinstance(t, tuple) and t:
            if t[0] == "arg":
                return True
            if t[0] in ("f", "elem", "*"):
                t = t[1]
                continue
            return False
        return False

    def trace(self, I, st):
        out = []
        for e in st.trace:
            if e[0] == "write":
                nm = e[1] if isinstance(e[1], tuple) and e[1] and e[1][0] == "*" else ("sink",)
                s = I.simplify_str(st, e[2])
                if out and out[-1][0] == "write" and out[-1][1] == nm:
                    out[-1] = ("write", nm, I.simplify_str(st, cat(out[-1][2], s, st)))
                else:
                    out.append(("write", nm, s))
            elif e[0] == "call":
                out.append(("call", e[1], tuple(I.fz(st, x) if isinstance(x, tuple) else x for x in e[2])))
            elif e[0] == "ucall":
                out.append(("ucall", e[1], e[2]))
            elif e[0] == "writefail":
                continue
            else:
                out.append(e)
        return tuple(x for x in out if not (x[0] == "write" and x[2] == EMPTY))

    def mentions_added(self, o, js, st, va, vb):
        """Does the cell or what is read on it depend on a field the model's type does not have?"""
        s = repr((va, vb, js.bools, js.variants, js.chars, js.lins, js.neqs, js.seqfacts, js.strk, js.negs, o.st.bools, o.st.variants, o.st.chars, o.st.lins,
                  o.st.neqs, o.st.seqfacts, o.st.strk))
        return any("'%s'" % n in s for n in self.pair.added)

    def stored_closures(self, kind, va, vb):
        """Two results that differ only in the closures they hold (over the same captures): those are compared by what they return
        for any captures and arguments.  True when that settled it."""
        R = self.R
        if kind not in ("value", "effect") or self.opts.get("nested"):
            return False
        prs = []
        if not held(va, vb, prs) or not prs:
            return False
        out = []
        for x, y in prs:
            r = self.pair.closure(self, x, y)
            if r is None:
                return False
            out += r
        R.diffs += [d for d in out if d not in R.diffs]
        return True

    def differ(self, kind, o, p, js, va, vb, info=None):
        R = self.R
        if time.time() > self.A.deadline:
            raise Unsupported("time budget")
        if closures(va) != closures(vb) and self.stored_closures(kind, va, vb):
            return
        if closures(va) != closures(vb) or sorted(map(repr, iterators(va))) != sorted(map(repr, iterators(vb))):
            # functions as values: not compared by what they do
            R.unk += 1
            return
        if self.pair.added and self.mentions_added(o, js, p.st, va, vb):
            R.unk += 1
            return
        w = conc.witness(p.st, va, vb, tries=self.opts.get("tries", 250), differ=None)
        if isinstance(w, int):
            if w >= 15:
                R.sampled += 1
            else:
                R.unk += 1
            if self.opts.get("v"):
                print("   no witness for", kind, w, "\n     A", va, "\n     B", vb)
            return
        c, x, y = w
        d = Diff(self.fn, kind, conc.short(x), conc.short(y), info, conc.describe(c), tags(kind, o, p, va, vb))
        for st in (o.st, p.st, js):
            for facts in (st.bools, st.variants, st.chars, st.lins, st.neqs, st.seqfacts, st.strk, st.negs):
                fact_heads(facts, d.heads)
        for v in (va, vb):
            heads(v, d.heads)
        R.diffs.append(d)
