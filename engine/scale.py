"""Count thresholds.

A loop is compared for its first rounds only, so a decision that waits for the 200th round looks the same as none.  A
threshold is a constant the model's function does not have, against which the current function compares a count (the
number of elements of a collection, a counter that goes up by one, the argument of an adapter that limits rounds).  The
function is compared once more with each threshold lowered to where the first rounds reach it: code for which the
constant only tunes how the same thing is done stays equal to the model, code that does something else beyond it differs.
"""
import re, copy

LENS = re.compile(r"^sgmlish::fragment::SgmlFragment::<.*>::len$|^std::(vec::Vec|collections::(\w+::)?(VecDeque|HashMap|HashSet|BTreeMap|BTreeSet|BinaryHeap))::<.*>::(len|capacity)$|<impl \[T\]>::len$|ExactSizeIterator::len$")
LIMITS = {                          # path -> positions of arguments that limit how much is looked at
    r"Iterator::(take|skip|nth)$": (1,),
    r"::(truncate|split_off|nth_back)$": (1,),
    r"nom::multi::(many_m_n|fold_many_m_n)$": (0, 1),
    r"nom::multi::count$": (1,),
    r"nom::bytes::\w+::take_while_m_n$": (0, 1),
    r"<impl \[T\]>::(chunks|split_at|get|first_chunk)$": (1,),
    r"Vec::<T, A>::(remove|swap_remove|insert)$": (1,),
    r"std::cmp::(Ord::)?min$|std::cmp::Ord::(min|clamp)$": (0, 1),
}
LIMITS = [(re.compile(k), v) for k, v in LIMITS.items()]
LEAST = 3
CMP = {"Lt", "Le", "Gt", "Ge", "Eq", "Ne"}


def const_int(o, T):
    """The usize (or other integer) constant an operand is, with its type."""
    if o[0] != "k":
        return None
    c = o[1]
    v = c.get("v")
    if not isinstance(v, dict) or "i" not in v:
        return None
    t = T[c["ty"]] if isinstance(c.get("ty"), int) else {}
    if t.get("k") not in ("uint", "int"):
        return None
    return int(v["i"]), t


class Finder:
    def __init__(self, pair, d, hasher):
        self.P, self.d, self.T, self.h = pair, d, d["types"], hasher
        self.byid = d["bodies"]

    def owned(self, b):
        """The bodies that make up a function: its own, its closures', those of helpers only it stands for."""
        out, todo = {}, [b["id"]]
        while todo:
            i = todo.pop()
            if i in out:
                continue
            x = self.byid[i]
            out[i] = x
            for j in self.refs(x["blocks"]):
                y = self.byid[j]
                if y["closure"] or (y["local"] and y["path"] not in self.P.shared):
                    todo.append(j)
        return out

    def refs(self, x):
        if isinstance(x, dict):
            for k in ("fn", "f"):
                if isinstance(x.get(k), dict) and x[k].get("id") is not None:
                    yield x[k]["id"]
            for y in x.values():
                yield from self.refs(y)
        elif isinstance(x, list):
            if len(x) > 5 and x[0] == "agg" and x[1] == "closure" and isinstance(x[5], int):
                yield x[5]
            for y in x:
                yield from self.refs(y)

    # ---- what a value is
    def defs(self, b):
        out = {}
        for bl in b["blocks"]:
            for s in bl["s"]:
                if s[0] == "=":
                    out.setdefault(self.pk(s[1]), []).append(("rv", s[2]))
            t = bl["t"]
            if t["k"] == "call":
                out.setdefault(self.pk(t["d"]), []).append(("call", t))
        return out

    @staticmethod
    def pk(p):
        return (p[0], repr([e[:2] if isinstance(e, list) else e for e in p[1]]))

    def place_ty(self, b, p):
        """Type of a place, where its projections say it."""
        t = b["locals"][p[0]]
        for e in p[1]:
            if e == "*":
                t = self.T[t].get("e") if t is not None else None
            elif isinstance(e, list) and e[0] == "f":
                t = e[2] if len(e) > 2 else None
            else:
                continue
            if t is None:
                return None
        return t

    def is_count(self, b, defs, o, seen):
        if o[0] not in ("c", "m"):
            return False
        p = o[1]
        k = self.pk(p)
        if k in seen:
            return False
        seen = seen | {k}
        # what an enumeration counts
        if p[1] and isinstance(p[1][-1], list) and p[1][-1][:2] == ["f", 0]:
            t = self.place_ty(b, [p[0], p[1][:-1]])
            if t is not None and re.match(r"^\(usize, (?!char\b|u8\b)", self.T[t]["s"]):
                return True
        ds = list(defs.get(k, ()))
        if p[1] == ["*"]:
            # what a reference leads to
            for kind, r in defs.get((p[0], "[]"), ()):
                if kind == "rv" and r[0] == "ref":
                    ds.append(("rv", ["use", ["c", r[1]]]))
        if len(p[1]) == 1 and isinstance(p[1][0], list) and p[1][0][0] == "f":
            # a part of a tuple local: the tuple's definition
            for kind, r in defs.get((p[0], "[]"), ()):
                if kind == "rv" and r[0] == "bin" and r[1].endswith("WithOverflow"):
                    ds.append((kind, r))
                elif kind == "rv" and r[0] == "agg" and r[1] == "tuple" and p[1][0][1] < len(r[4]):
                    ds.append(("rv", ["use", r[4][p[1][0][1]]]))
        for kind, r in ds:
            if kind == "call":
                path = r["f"].get("ipath") or r["f"].get("path", "")
                if LENS.search(path) or LENS.search(r["f"].get("path", "")):
                    ts = [self.T[x]["s"] for x in (r["f"].get("iargs") or r["f"].get("args") or [])]
                    if not ts or ts[0] not in ("u8", "char"):
                        return True
                elif r["f"].get("path", "").endswith("Iterator::count"):
                    ts = [self.T[x]["s"] for x in r["f"].get("args", [])]
                    if ts and not re.search(r"Chars|Bytes|CharIndices|Matches|EncodeUtf16", ts[0]):
                        return True
                elif re.search(r"::(saturating_add|wrapping_add|saturating_sub|wrapping_sub)$", r["f"].get("path", "")) and len(r["a"]) == 2:
                    c = const_int(r["a"][1], self.T)
                    if c and c[0] == 1 and self.reaches(b, defs, r["a"][0], k, set()):
                        return True
                    if self.is_count(b, defs, r["a"][0], seen):
                        return True
                elif r["a"] and re.search(r"Clone::clone$|Cell::<T>::get$|Option::<T>::unwrap", r["f"].get("path", "")):
                    if self.is_count(b, defs, r["a"][0], seen):
                        return True
                continue
            if r[0] == "ref" and p[1] == []:
                continue
            if r[0] == "use" or r[0] == "cast":
                if self.is_count(b, defs, r[1] if r[0] == "use" else r[2], seen):
                    return True
            elif r[0] in ("len",) or r[0] == "un" and r[1] == "PtrMetadata":
                q = r[1] if r[0] == "len" else (r[2][1] if r[2][0] in ("c", "m") else None)
                t = self.place_ty(b, q) if q else None
                while t is not None and self.T[t]["k"] in ("ref", "ptr"):
                    t = self.T[t].get("e")
                if t is not None and self.T[t]["k"] == "slice" and self.T[self.T[t]["e"]]["s"] not in ("u8", "char"):
                    return True
            elif r[0] == "bin" and r[1].replace("WithOverflow", "").replace("Unchecked", "") in ("Add", "Sub"):
                c = const_int(r[3], self.T)
                if c and c[0] == 1 and self.reaches(b, defs, r[2], k, set()):
                    return True
                if self.is_count(b, defs, r[2], seen):
                    return True
                if c is None and self.is_count(b, defs, r[3], seen):
                    return True
            elif r[0] == "bin" and r[1] in ("Rem", "Div", "Mul", "BitAnd"):
                if self.is_count(b, defs, r[2], seen):
                    return True
        return False

    def reaches(self, b, defs, o, k, seen):
        """Does the operand come from place k (through copies)?"""
        if o[0] not in ("c", "m"):
            return False
        q = self.pk(o[1])
        if q == k:
            return True
        if q in seen:
            return False
        seen = seen | {q}
        # x.0 of an overflow pair is x's new value
        for kk in (q, (o[1][0], "[]")):
            for kind, r in defs.get(kk, ()):
                if kind == "rv" and r[0] == "use" and self.reaches(b, defs, r[1], k, seen):
                    return True
                if kind == "rv" and r[0] == "bin" and r[1].endswith("WithOverflow") and self.reaches(b, defs, r[2], k, seen):
                    return True
        return False

    # ---- thresholds
    def ints(self, b):
        """All integer constants of a function."""
        out = set()

        def walk(x):
            if isinstance(x, dict):
                v = x.get("v")
                if isinstance(v, dict) and "i" in v and isinstance(x.get("ty"), int):
                    out.add((int(v["i"]), self.T[x["ty"]]["s"]))
                for y in x.values():
                    walk(y)
            elif isinstance(x, list):
                for y in x:
                    walk(y)
        for x in self.owned(b).values():
            walk(x["blocks"])
            for bl in x["blocks"]:
                if bl["t"]["k"] == "switch":
                    out.update((v, self.T[bl["t"]["ty"]]["s"]) for v, _ in bl["t"]["ts"] if isinstance(v, int))
        return out

    def const_of(self, b, defs, o, at):
        """The constant an operand holds, with where it is written."""
        c = const_int(o, self.T)
        if c or o[0] not in ("c", "m") or o[1][1]:
            return c, at
        # a local that is only ever given one constant
        ds = []
        for n, bl in enumerate(b["blocks"]):
            for m, s in enumerate(bl["s"]):
                if s[0] == "=" and s[1][0] == o[1][0]:
                    ds.append((n, m, s))
            if bl["t"]["k"] == "call" and bl["t"]["d"][0] == o[1][0]:
                return None, at
        if len(ds) == 1 and ds[0][2][1][1] == []:
            n, m, s = ds[0]
            r = s[2]
            if r[0] == "cast" and r[1].startswith("IntToInt"):
                c = const_int(r[2], self.T)
                return (c and (c[0], self.T[r[3]])), ("s", n, m, 2)
            if r[0] == "use":
                return const_int(r[1], self.T), ("s", n, m, 1)
        return None, at

    def find(self, b, known):
        """[(body, where, constant, low)]: constants to lower in the bodies of function b."""
        out = []
        for i, x in self.owned(b).items():
            sizes = {self.T[t].get("n") for t in x["locals"] if self.T[t]["k"] == "array"}
            sizes |= {self.T[self.T[t]["e"]].get("n") for t in x["locals"] if self.T[t]["k"] in ("ref", "ptr") and self.T[t].get("e") is not None and self.T[self.T[t]["e"]]["k"] == "array"}

            def lists(v):
                # lengths of constant tables and texts the body mentions
                if isinstance(v, list):
                    sizes.add(len(v))
                    for y in v:
                        lists(y)
                elif isinstance(v, dict):
                    for y in v.values():
                        lists(y)
                elif isinstance(v, str):
                    sizes.add(len(v.encode()))

            def consts(v):
                if isinstance(v, dict):
                    if "ty" in v and "v" in v:
                        lists(v["v"])
                    for y in v.values():
                        consts(y)
                elif isinstance(v, list):
                    for y in v:
                        consts(y)
            consts(x["blocks"])

            def fresh(c):
                return c is not None and c[0] >= LEAST and c[0] not in sizes and not {(c[0] + n, c[1]["s"]) for n in (-1, 0, 1)} & known
            defs = self.defs(x)
            for n, bl in enumerate(x["blocks"]):
                for m, s in enumerate(bl["s"]):
                    if s[0] == "=" and s[2][0] == "cast" and s[2][1].startswith("IntToInt") and s[2][2][0] in ("c", "m"):
                        to, fr = self.T[s[2][3]], self.T[s[2][4]]
                        if to["k"] == "uint" and fr["k"] == "uint" and to.get("w", 64) < min(32, fr.get("w", 64)) and self.is_count(x, defs, s[2][2], frozenset()):
                            out.append((i, ("cast", n, m), 1 << to["w"], 2))
                        continue
                    if s[0] != "=" or s[2][0] != "bin":
                        continue
                    op = s[2][1].replace("WithOverflow", "").replace("Unchecked", "")
                    for u, v in ((2, 3), (3, 2)):
                        c, at = self.const_of(x, defs, s[2][u], ("s", n, m, u))
                        if op in CMP | {"Rem", "Div", "BitAnd", "Add"} and fresh(c) and (op in CMP or u == 3) and self.is_count(x, defs, s[2][v], frozenset()):
                            out.append((i, at, c[0], 2 if op in ("Rem", "Div") else 1))
                    if s[2][1] == "AddWithOverflow" and self.T[s[2][4]].get("w", 64) < 32 and self.T[s[2][4]]["k"] == "uint":
                        c = const_int(s[2][3], self.T)
                        if c and c[0] == 1:
                            out.append((i, ("narrow", n, m), 1 << self.T[s[2][4]]["w"], 1))
                t = bl["t"]
                if t["k"] == "call":
                    p = t["f"].get("path", "")
                    for r, ix in LIMITS:
                        if r.search(p):
                            for u in ix:
                                if u >= len(t["a"]):
                                    continue
                                c, at = self.const_of(x, defs, t["a"][u], ("t", n, u))
                                if not fresh(c):
                                    continue
                                if "cmp" in p and not any(self.is_count(x, defs, o, frozenset()) for o in t["a"]):
                                    continue
                                if re.search(r"Iterator::(take|skip|nth)$", p) and t["f"].get("args") and re.search(r"Chars|Bytes|CharIndices", self.T[t["f"]["args"][0]]["s"]):
                                    continue
                                out.append((i, at, c[0], 1))
                    q = re.match(r"core::num::<impl (u8|u16)>::(wrapping|saturating|checked)_add$", t["f"].get("ipath") or p)
                    if q and len(t["a"]) == 2 and (const_int(t["a"][1], self.T) or (0,))[0] == 1:
                        out.append((i, ("narrowcall", n), 1 << (8 if q.group(1) == "u8" else 16), 1))
                elif t["k"] == "switch" and t["on"][0] in ("c", "m"):
                    for w, (v, _) in enumerate(t["ts"]):
                        if isinstance(v, int) and self.T[t["ty"]]["k"] in ("uint", "int") and fresh((v, self.T[t["ty"]])) and self.is_count(x, defs, t["on"], frozenset()):
                            out.append((i, ("w", n, w), v, 1 + w))
        return out


def thresholds(pair, fns):
    """{function: [threshold]} of the current tree's functions that compare counts with constants the model has not."""
    fa, fb = Finder(pair, pair.da, pair.ha), Finder(pair, pair.db, pair.hb)
    out = {}
    for f in fns:
        a, b = pair.ca.roots.get(f), pair.cb.roots.get(f)
        if a is None or b is None:
            continue
        r = fa.find(a, fb.ints(b))
        if any(x[1][0].startswith("narrow") for x in r):
            # counters as narrow in the model are its own
            if any(x[1][0].startswith("narrow") for x in fb.find(b, set())):
                r = [x for x in r if not x[1][0].startswith("narrow")]
        if r:
            out[f] = r
    return out


def lowered(d, sites):
    """A copy of dump d with the constants at the given sites lowered."""
    bodies = list(d["bodies"])
    types = list(d["types"])
    done = {}
    for i, w, c, low in sites:
        if i not in done:
            done[i] = bodies[i] = dict(bodies[i], blocks=copy.deepcopy(bodies[i]["blocks"]))
        bl = done[i]["blocks"]
        if w[0] == "s":
            o = bl[w[1]]["s"][w[2]][2][w[3]]
            o[1]["v"] = {"i": low}
        elif w[0] == "t":
            bl[w[1]]["t"]["a"][w[2]][1]["v"] = {"i": low}
        elif w[0] == "w":
            ts = bl[w[1]]["t"]["ts"]
            if low not in [v for v, _ in ts]:
                ts[w[2]] = [low, ts[w[2]][1]]
        elif w[0] == "cast":
            s = bl[w[1]]["s"][w[2]]
            k = {"ty": s[2][4], "v": {"i": low}}
            s[2] = ["bin", "Rem", s[2][2], ["k", k], s[2][4]]
        elif w[0] == "narrowcall":
            f = bl[w[1]]["t"]["f"]
            for x in ("path", "ipath"):
                if f.get(x):
                    f[x] = re.sub(r"<impl u\d+>", "<impl u1>", f[x])
        elif w[0] == "narrow":
            s = bl[w[1]]["s"][w[2]][2]
            types.append(dict(types[s[4]], w=1))
            s[4] = len(types) - 1
    return dict(d, bodies=bodies, types=types)
