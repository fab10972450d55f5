"""Types of the current tree that have more fields or variants than the model's.

What is common is compared; what was added is not: added fields are left out of results and effects (and pinned to their
one initial value where the code has only one), inputs never hold an added variant, and a difference on a cell whose facts
mention something added is left undecided.
"""
import json, re


def erase(s):
    return re.sub(r"'[a-z_]+", "'_", s)


def defs(d):
    out = {}
    for t in d["types"]:
        if t["k"] == "adt" and t.get("crate") == "sgmlish" and "v" in t:
            g = bool(t["args"])
            out.setdefault(t["path"], (t["kind"], [(v["n"], [(n, None if g else erase(d["types"][ft]["s"])) for n, ft in v["f"]]) for v in t["v"]]))
    return out


def find(da, db):
    """(grown, bad): paths of types that only gained something, and of types that changed otherwise."""
    a, b = defs(da), defs(db)
    grown, bad = {}, set()
    for p in set(a) & set(b):
        if a[p] == b[p]:
            continue
        (ka, va), (kb, vb) = a[p], b[p]
        na = dict(va)
        names = [v for v, _ in vb]
        if ka != kb or ka not in ("struct", "enum") or (ka == "struct" and [v for v, _ in va] != names):
            bad.add(p)
            continue
        order = [[v for v, _ in va].index(v) for v in names if v in na]
        ok = len(order) == len(names)
        xf, fo = {}, {}
        for v, fs in vb:
            if not ok:
                break
            have = dict(na[v])
            if any(n not in have or have[n] != t for n, t in fs):
                ok = False
            # positional fields keep their places
            extra = [n for n, _ in na[v] if n not in dict(fs)]
            if extra and ka == "enum":
                ok = False
            xf[v] = set(extra)
            fo[v] = [n for n, _ in fs]
        if not ok:
            bad.add(p)
            continue
        order += [i for i in range(len(va)) if i not in order]
        grown[p] = {"order": order, "common": len(names), "xf": xf, "fo": fo, "new": {va[i][0] for i in order[len(names):]}}
    return grown, bad


class Places:
    """Types of places."""

    def __init__(self, d):
        self.T = d["types"]

    def steps(self, body, pl):
        """(projection, type before it)"""
        t = body["locals"][pl[0]]
        for e in pl[1]:
            yield e, t
            ty = self.T[t] if t is not None else None
            if e == "*" and ty is not None:
                t = ty.get("e", ty["args"][0] if ty.get("args") else None)
            elif isinstance(e, list) and e[0] == "f":
                t = e[2]
            elif isinstance(e, list) and e[0] == "d":
                pass
            elif isinstance(e, list) and e[0] in ("i", "ci"):
                t = ty.get("e") if ty is not None else None


def is_place(x):
    return isinstance(x, list) and len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list)


def apply(d, grown):
    """Marks the types, puts common variants first, and finds added fields with one initial value."""
    T = d["types"]
    P = Places(d)
    remap = {}
    for t in T:
        if t["k"] == "adt" and t["path"] in grown and "v" in t:
            g = grown[t["path"]]
            if g["order"] != list(range(len(g["order"]))):
                remap[t["path"]] = {old: new for new, old in enumerate(g["order"])}
                t["v"] = [t["v"][i] for i in g["order"]]
            if t["kind"] == "enum":
                t["common"] = g["common"]
            else:
                t["xf"] = g["xf"][t["v"][0]["n"]]
                t["fo"] = g["fo"][t["v"][0]["n"]]
    structs = {p for p, g in grown.items() if any(g["xf"].values())}
    init = {}       # (path, field) -> set of initial values (json), None: more than constants
    written = set()

    def const_of(body, op):
        if op[0] == "k":
            return ["k", op[1]]
        if op[1][1]:
            return None
        l = op[1][0]
        found = None
        for blk in body["blocks"]:
            for s in blk["s"]:
                if s[0] == "=" and s[1] == [l, []]:
                    if found is not None:
                        return None
                    if s[2][0] == "use" and s[2][1][0] == "k":
                        found = ["k", s[2][1][1]]
                    elif s[2][0] == "agg" and s[2][1] == "adt" and not s[2][4] and T[s[2][2]]["path"] == "std::option::Option":
                        found = ["none"]
                    else:
                        return None
            t = blk["t"]
            if t["k"] == "call" and t.get("d") == [l, []]:
                if found is not None:
                    return None
                if t["f"].get("path") in ("std::vec::Vec::<T>::new", "std::string::String::new"):
                    found = ["seq"] if "vec" in t["f"]["path"] else ["str"]
                else:
                    return None
        return found
    for b in d["bodies"]:
        if not b["local"] or not (remap or structs):
            continue

        def note(pl, how):
            for e, t in P.steps(b, pl):
                if t is not None and isinstance(e, list) and e[0] == "f" and T[t]["k"] == "adt" and T[t]["path"] in structs:
                    n = T[t]["v"][0]["f"][e[1]][0]
                    if n in T[t].get("xf", ()) and how == "w":
                        written.add((T[t]["path"], n))

        def walk(x):
            if isinstance(x, list):
                if is_place(x):
                    for e, t in P.steps(b, x):
                        if isinstance(e, list) and e[0] == "d" and t is not None and T[t]["k"] == "adt" and T[t]["path"] in remap:
                            e[1] = remap[T[t]["path"]][e[1]]
                    return
                if len(x) >= 5 and x[0] == "agg" and x[1] == "adt" and isinstance(x[2], int) and T[x[2]]["k"] == "adt":
                    p = T[x[2]]["path"]
                    if p in remap:
                        x[3] = remap[p][x[3]]
                    if p in structs:
                        for i, (n, ft) in enumerate(T[x[2]]["v"][0]["f"]):
                            if n in T[x[2]]["xf"] and i < len(x[4]):
                                c = const_of(b, x[4][i])
                                init.setdefault((p, n), set()).add(json.dumps(c) if c is not None else None)
                for y in x:
                    walk(y)
            elif isinstance(x, dict):
                for y in x.values():
                    walk(y)
        for blk in b["blocks"]:
            for s in blk["s"]:
                if s[0] == "=":
                    note(s[1], "w")
                    if s[2][0] in ("ref", "raw") and s[2][2]:
                        note(s[2][1], "w")
                elif s[0] == "sd" and is_place(s[1]):
                    if T[b["locals"][s[1][0]]].get("path") in remap and not s[1][1]:
                        s[2] = remap[T[b["locals"][s[1][0]]]["path"]][s[2]]
                walk(s)
            if blk["t"].get("d"):
                note(blk["t"]["d"], "w")
            walk({k: v for k, v in blk["t"].items() if k != "f"})
            walk(blk["t"].get("f"))
    # a configuration whose new option was never set is a configuration all the same
    options = {"sgmlish::parser::ParserConfig"}
    for t in T:
        if t["k"] == "adt" and t["path"] in structs and t.get("xf"):
            t["fixed"] = {}
            for n in t["xf"]:
                vs = init.get((t["path"], n), set())
                if len(vs) == 1 and None not in vs and ((t["path"], n) not in written or t["path"] in options):
                    t["fixed"][n] = json.loads(next(iter(vs)))
    names = set()
    for p, g in grown.items():
        for v, xs in g["xf"].items():
            names |= xs
    return names
