"""Debug build against optimized build: the same source compiled with and without debug assertions.

Both MIR bodies of a function are walked in step (a bisimulation over statements, with a one-to-one map of locals).
Allowed differences: overflow checks on arithmetic, and assertion regions (code entered only when debug assertions are on)
that change nothing the rest of the function can see.
"""
import json


class Mismatch(Exception):
    def __init__(self, kind, text, sp=None):
        self.kind, self.text, self.sp = kind, text, sp


DROP = ("id", "span", "sp", "fsp", "reach", "uw")


class Walk:
    def __init__(self, d, r, bd, br):
        self.d, self.r, self.bd, self.br = d, r, bd, br
        self.Td, self.Tr = d["types"], r["types"]
        self.m, self.inv = {}, {}
        self.regions = 0
        self.arith = 0

    # ---- positions: (block, index) at the next statement that does something
    def norm(self, body, pos):
        hops = 0
        while True:
            blk = body["blocks"][pos[0]]
            i = pos[1]
            while i < len(blk["s"]) and blk["s"][i][0] in ("live", "dead"):
                i += 1
            if i < len(blk["s"]):
                return (pos[0], i)
            if blk["t"]["k"] == "goto" and hops < 1000:
                pos = (blk["t"]["to"], 0)
                hops += 1
                continue
            return (pos[0], i)

    def stmt(self, body, pos):
        blk = body["blocks"][pos[0]]
        return blk["s"][pos[1]] if pos[1] < len(blk["s"]) else None

    # checked arithmetic of the debug build as one plain operation
    def arith_at(self, pos):
        s = self.stmt(self.bd, pos)
        blk = self.bd["blocks"][pos[0]]
        if s is None or s[0] != "=" or s[1][1] or s[2][0] != "bin" or not s[2][1].endswith("WithOverflow"):
            return None
        t = s[1][0]
        q = self.norm(self.bd, (pos[0], pos[1] + 1))
        if q[0] != pos[0] or self.stmt(self.bd, q) is not None or blk["t"]["k"] != "assert":
            return None
        c = blk["t"]["cond"]
        if c[1][0] != t or blk["t"]["msg"][0] != "overflow" or blk["t"]["exp"]:
            return None
        q = self.norm(self.bd, (blk["t"]["to"], 0))
        u = self.stmt(self.bd, q)
        if u is None or u[0] != "=" or u[2][0] != "use" or u[2][1][0] not in ("m", "c") or u[2][1][1][0] != t:
            return None
        pr = u[2][1][1][1]
        if len(pr) != 1 or pr[0][:2] != ["f", 0]:
            return None
        self.arith += 1
        return ["=", u[1], ["bin", s[2][1][:-len("WithOverflow")]] + s[2][2:]], (q[0], q[1] + 1)

    # ---- equality of statement and terminator parts
    def local(self, a, b):
        if self.m.get(a, b) != b or self.inv.get(b, a) != a:
            return False
        if self.Td[self.bd["locals"][a]]["s"] != self.Tr[self.br["locals"][b]]["s"]:
            return False
        self.m[a], self.inv[b] = b, a
        return True

    def place(self, a, b):
        if not self.local(a[0], b[0]) or len(a[1]) != len(b[1]):
            return False
        for x, y in zip(a[1], b[1]):
            if isinstance(x, list) and isinstance(y, list) and x and y and x[0] == y[0] == "i":
                if not self.local(x[1], y[1]):
                    return False
            elif not self.eq(x, y):
                return False
        return True

    def is_place(self, a):
        return isinstance(a, list) and len(a) == 2 and isinstance(a[0], int) and not isinstance(a[0], bool) and isinstance(a[1], list)

    def eq(self, a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, dict):
            return all(self.eq(a.get(k), b.get(k)) for k in (set(a) | set(b)) - set(DROP))
        if isinstance(a, list):
            if len(a) == 2 and len(b) == 2 and a[0] in ("m", "c") and b[0] in ("m", "c") and self.is_place(a[1]) and self.is_place(b[1]):
                return self.place(a[1], b[1])
            if self.is_place(a) and self.is_place(b):
                return self.place(a, b)
            return len(a) == len(b) and all(map(self.eq, a, b))
        if a == b and not isinstance(a, int) or isinstance(a, bool):
            return a == b
        if isinstance(a, int):
            if a == b:
                return True
            return 0 <= a < len(self.Td) and 0 <= b < len(self.Tr) and self.Td[a]["s"] == self.Tr[b]["s"]
        return a == b

    def flag(self, s):
        """The value of `l = <literal bool>`."""
        if s and s[0] == "=" and not s[1][1] and s[2][0] == "use" and s[2][1][0] == "k":
            v = s[2][1][1].get("v")
            if isinstance(v, dict) and isinstance(v.get("b"), bool):
                return v["b"]
        return None

    # ---- the walk
    def run(self):
        for i in range(self.bd["argc"] + 1):
            if not self.local(i, i):
                raise Mismatch("shape", "signature")
        seen = set()
        todo = [((0, 0), (0, 0))]
        while todo:
            p, q = todo.pop()
            p, q = self.norm(self.bd, p), self.norm(self.br, q)
            if (p, q) in seen:
                continue
            seen.add((p, q))
            s, u = self.stmt(self.bd, p), self.stmt(self.br, q)
            if s is not None and u is not None:
                ar = self.arith_at(p)
                if ar is not None:
                    if not self.eq(ar[0][1:], u[1:]):
                        raise Mismatch("shape", "%s against %s" % (ar[0], u), self.span(self.bd, p))
                    todo.append((ar[1], (q[0], q[1] + 1)))
                    continue
                fs, fu = self.flag(s), self.flag(u)
                if fs is True and fu is False:
                    t = self.bd["blocks"][p[0]]["t"]
                    v = self.br["blocks"][q[0]]["t"]
                    ip, iq = self.norm(self.bd, (p[0], p[1] + 1)), self.norm(self.br, (q[0], q[1] + 1))
                    if self.stmt(self.bd, ip) is None and self.stmt(self.br, iq) is None and t["k"] == v["k"] == "switch" and t["on"][1] == s[1] and v["on"][1] == u[1]:
                        skip_d = next((x[1] for x in t["ts"] if x[0] == 0), None)
                        skip_r = next((x[1] for x in v["ts"] if x[0] == 0), None)
                        if skip_d is not None and skip_r is not None:
                            self.region(t["else"], skip_d, s)
                            self.regions += 1
                            todo.append(((skip_d, 0), (skip_r, 0)))
                            continue
                if s[0] != u[0] or not self.eq(s[1:], u[1:]):
                    raise Mismatch("shape", "%s against %s" % (json.dumps(s)[:160], json.dumps(u)[:160]), self.span(self.bd, p))
                todo.append(((p[0], p[1] + 1), (q[0], q[1] + 1)))
                continue
            if (s is None) != (u is None):
                raise Mismatch("shape", "%s against %s" % (json.dumps(s or self.bd["blocks"][p[0]]["t"])[:160], json.dumps(u or self.br["blocks"][q[0]]["t"])[:160]), self.span(self.bd, p))
            t, v = self.bd["blocks"][p[0]]["t"], self.br["blocks"][q[0]]["t"]
            if t["k"] != v["k"]:
                raise Mismatch("shape", "%s against %s" % (t["k"], v["k"]), t.get("sp"))
            ks = (set(t) | set(v)) - set(DROP) - {"to", "ts", "else"}
            if not all(self.eq(t.get(k), v.get(k)) for k in ks):
                raise Mismatch("shape", "%s against %s" % (json.dumps(t)[:200], json.dumps(v)[:200]), t.get("sp"))
            if t["k"] == "switch":
                if [x[0] for x in t["ts"]] != [x[0] for x in v["ts"]]:
                    raise Mismatch("shape", "branches", t.get("sp"))
                todo += [((x[1], 0), (y[1], 0)) for x, y in zip(t["ts"], v["ts"])] + [((t["else"], 0), (v["else"], 0))]
            elif "to" in t or "to" in v:
                if (t.get("to") is None) != (v.get("to") is None):
                    raise Mismatch("shape", "one side does not return", t.get("sp"))
                if t.get("to") is not None:
                    todo.append(((t["to"], 0), (v["to"], 0)))
        return self

    def span(self, body, pos):
        return body["blocks"][pos[0]]["t"].get("sp")

    # ---- code that only runs with debug assertions on
    def succ(self, t):
        out = [x[1] for x in t.get("ts", ())]
        for k in ("to", "else"):
            if t.get(k) is not None:
                out.append(t[k])
        return out

    def reach(self, b):
        seen, todo = {b}, [b]
        while todo:
            for w in self.succ(self.bd["blocks"][todo.pop()]["t"]):
                if w not in seen:
                    seen.add(w)
                    todo.append(w)
        return seen

    def past_units(self, pos):
        while True:
            pos = self.norm(self.bd, pos)
            s = self.stmt(self.bd, pos)
            if s and s[0] == "=" and not s[1][1] and s[2][0] == "use" and s[2][1][0] == "k" and self.Td[self.bd["locals"][s[1][0]]]["s"] == "()":
                pos = (pos[0], pos[1] + 1)
            else:
                return pos

    def region(self, enter, skip, s):
        blocks = self.reach(enter) - self.reach(skip)
        # whatever the assertion does, it either panics or goes on where the code without it goes on
        ends = [enter] if enter not in blocks else [w for i in blocks for w in self.succ(self.bd["blocks"][i]["t"]) if w not in blocks]
        join = self.past_units((skip, 0))
        for w in ends:
            if not self.bd["blocks"][w].get("c") and self.past_units((w, 0)) != join:
                raise Mismatch("shape", "code that runs only with debug assertions goes on elsewhere", self.bd["blocks"][enter]["t"].get("sp"))
        outside = [i for i, k in enumerate(self.bd["blocks"]) if i not in blocks and not k.get("c")]
        used = {0}
        unit = set()

        def places(x, out):
            if isinstance(x, list):
                if self.is_place(x):
                    out.add(x[0])
                for y in x:
                    places(y, out)
            elif isinstance(x, dict):
                for y in x.values():
                    places(y, out)
        for i in outside:
            for st in self.bd["blocks"][i]["s"]:
                if st[0] in ("live", "dead"):
                    continue
                if st[0] == "=" and not st[1][1]:
                    places(st[2], used)
                else:
                    places(st[1:], used)
            t = self.bd["blocks"][i]["t"]
            places({k: v for k, v in t.items() if k != "d"}, used)
        used |= set(range(1, self.bd["argc"] + 1))
        mine = set()
        for i in blocks:
            for st in self.bd["blocks"][i]["s"]:
                if st[0] == "=" and not st[1][1]:
                    mine.add(st[1][0])
            t = self.bd["blocks"][i]["t"]
            if t["k"] == "call" and t.get("d") and not t["d"][1]:
                mine.add(t["d"][0])

        def bad(text, sp):
            raise Mismatch("effect", text, sp)
        for i in blocks:
            blk = self.bd["blocks"][i]
            sp = blk["t"].get("sp")
            for st in blk["s"]:
                if st[0] in ("live", "dead"):
                    continue
                if st[0] != "=":
                    bad("a statement of debug-only code changes the state: %s" % json.dumps(st)[:120], sp)
                l, pr = st[1]
                if l in used and not (st[2][0] == "use" and st[2][1][0] == "k" and not pr and self.Td[self.bd["locals"][l]]["s"] == "()"):
                    bad("debug-only code assigns a variable used elsewhere", sp)
                if pr and l not in mine:
                    bad("debug-only code assigns through a variable of the function", sp)
                if st[2][0] == "use" and st[2][1][0] == "c" and st[2][1][1][0] not in mine and "&mut" in self.Td[self.bd["locals"][l]]["s"]:
                    bad("debug-only code copies a mutable reference", sp)
                if st[2][0] == "ref" and st[2][2] and st[2][1][0] not in mine:
                    bad("debug-only code takes a mutable reference", sp)
                for op in st[2]:
                    if isinstance(op, list) and len(op) == 2 and op[0] == "m" and self.is_place(op[1]) and op[1][0] not in mine:
                        bad("debug-only code moves a variable of the function", sp)
            t = blk["t"]
            if t["k"] == "ret":
                bad("debug-only code returns early", sp)
            if t["k"] == "drop" and t["p"][0] not in mine:
                bad("debug-only code drops a variable of the function", sp)
            if t["k"] == "call":
                for op in t["a"]:
                    if op[0] == "m" and op[1][0] not in mine:
                        bad("debug-only code moves a variable of the function into %s" % t["f"].get("path"), sp)
                    if op[0] in ("m", "c") and op[1][0] not in mine:
                        ty = self.Td[self.bd["locals"][op[1][0]]]["s"]
                        if "&mut" in ty or "{closure" in ty:
                            bad("debug-only code calls %s with a mutable reference" % t["f"].get("path"), sp)
                if t.get("d") and (t["d"][0] in used or t["d"][1] and t["d"][0] not in mine):
                    bad("debug-only code assigns a variable used elsewhere", sp)
