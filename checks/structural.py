"""Whole-program rules: call-graph cycles, effects, configuration independence, type-level witnesses."""
import glob, json, os, re, shutil, subprocess
from common import *
import dump as D


# ------------------------------------------------------------------ resolved call graph
class Graph:
    def __init__(self, d):
        self.d = d
        self.by_id = {b["id"]: b for b in d["bodies"]}
        self.edges = {}
        self.leaves = {}        # leaf path -> set of caller body ids
        for b in d["bodies"]:
            out = {}
            self._walk(b["blocks"], b, out, None)
            self.edges[b["id"]] = out

    def _walk(self, x, b, out, sp):
        if isinstance(x, dict):
            sp = x.get("fsp") or x.get("sp") or sp
            if "path" in x and "ipath" in x:
                i = x.get("id")
                if i in self.by_id:
                    out.setdefault(i, sp)
                else:
                    self.leaves.setdefault(x["ipath"] or x["path"], {}).setdefault(b["id"], sp)
            for v in x.values():
                self._walk(v, b, out, sp)
        elif isinstance(x, list):
            # closures created in a body count as called from it
            if len(x) == 6 and x[0] == "agg" and x[1] == "closure" and x[5] in self.by_id:
                out.setdefault(x[5], sp)
            for v in x:
                self._walk(v, b, out, sp)

    def sccs(self, cut=lambda a, b: False):
        idx, low, st, on, res, c = {}, {}, [], set(), [], [0]
        adj = {v: [w for w in es if w in self.by_id and not cut(v, w)] for v, es in self.edges.items()}
        for root in adj:
            if root in idx:
                continue
            work = [(root, iter(adj[root]))]
            idx[root] = low[root] = c[0]
            c[0] += 1
            st.append(root)
            on.add(root)
            while work:
                v, it = work[-1]
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = c[0]
                        c[0] += 1
                        st.append(w)
                        on.add(w)
                        work.append((w, iter(adj[w])))
                        break
                    elif w in on:
                        low[v] = min(low[v], idx[w])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == idx[v]:
                        comp = []
                        while True:
                            w = st.pop()
                            on.discard(w)
                            comp.append(w)
                            if w == v:
                                break
                        if len(comp) > 1 or v in adj[v]:
                            res.append(comp)
        return res, sum(map(len, adj.values()))

    def path(self, i):
        return self.by_id[i]["path"]

    def reach_from(self, roots):
        seen = set(roots)
        todo = list(roots)
        while todo:
            v = todo.pop()
            for w in self.edges.get(v, ()):
                if w not in seen:
                    seen.add(w)
                    todo.append(w)
        return seen


def fn_of(path):
    return re.sub(r"(::\{closure#\d+\})+$", "", path)


# ------------------------------------------------------------------ P02
# Cycles that do not grow with the input: one line of reason each.
BOUNDED_CYCLES = [
    # deserialize_unit hands anything but a start tag or attribute to deserialize_any, which hands back only start tags
    {"deserialize_any", "deserialize_unit"},
]


def check_recursion(chk):
    d = D.run_dump()
    g = Graph(d)
    res, n_edges = g.sccs()
    comps = {}
    for comp in res:
        local = frozenset(fn_of(g.path(i)) for i in comp if g.by_id[i]["local"])
        if not local:
            continue
        comps.setdefault(local, comp)
    n_local = sum(1 for b in d["bodies"] if b["local"])
    chk.cover.update(bodies=len(d["bodies"]), local_bodies=n_local, call_edges=n_edges, cycles=len(comps))
    if n_local < 700:
        chk.undecided("floor", "only %d local bodies exported" % n_local)
    anchors = {"sgmlish::parser::events::content": "nested INCLUDE marked sections", "sgmlish::parser::raw::declaration_subset": "nested declaration subsets"}
    for local, comp in sorted(comps.items(), key=lambda x: sorted(x[0])):
        short = {p.rsplit("::", 1)[-1] for p in local}
        if any(short <= b for b in BOUNDED_CYCLES):
            chk.ok("cycle %s is bounded by construction" % sorted(short))
            continue
        hit = [a for a in anchors if a in local]
        if hit:
            a = hit[0]
            # what is known is the re-entry of this one grammar rule: any cycle left once it is cut is new
            chk.violation("cycle-through:" + a, "call-graph cycle through %s: %s recurse with the input; functions: %s" % (a, anchors[a], sorted(local)))
            rest, _ = g.sccs(lambda v, w: fn_of(g.path(w)) == a and not "{closure" in g.path(w))
            for c2 in rest:
                l2 = frozenset(fn_of(g.path(i)) for i in c2 if g.by_id[i]["local"])
                if l2 and l2 <= local:
                    chk.violation("cycle:" + ",".join(sorted(l2)), cycle_text(g, c2))
            continue
        chk.violation("cycle:" + ",".join(sorted(local)), cycle_text(g, comp))
    for b in d["bodies"]:
        if b["local"] and not b["closure"] and b["id"] in d["roots"]:
            inc = any(fn_of(b["path"]) in l for l in comps)
            if not inc:
                chk.ok("%s is on no call cycle" % b["path"])
    return chk.finish(explanation="Call graph over resolved monomorphic-or-generic MIR instances (closures count as called where they are created); "
                      "every strongly connected component containing code of this crate is a violation unless it is bounded by construction or a listed finding.")


def cycle_text(g, comp):
    s = set(comp)
    start = next(i for i in comp if g.by_id[i]["local"])
    # shortest cycle through start
    prev, todo = {start: None}, [start]
    end = None
    while todo and end is None:
        v = todo.pop(0)
        for w in g.edges[v]:
            if w == start:
                end = v
                break
            if w in s and w not in prev:
                prev[w] = v
                todo.append(w)
    path = []
    v = end
    while v is not None:
        path.append(v)
        v = prev[v]
    path.reverse()
    return "native recursion whose depth the input controls:\n  " + "\n  -> ".join("%s (%s)" % (g.path(i), g.by_id[i].get("span")) for i in path) + "\n  -> back to start"


# ------------------------------------------------------------------ P04
DENY = [
    (r"^<?&?(mut )?(std|core|alloc)::(fs|net|env|process|thread|time|os)::", "operating-system state"),
    (r"^<?&?(mut )?std::io::", "input/output"),
    (r"\bstd::sync::(Mutex|RwLock|OnceLock|LazyLock|Once|mpsc|Condvar|Barrier)", "shared mutable state"),
    (r"\bstd::sync::atomic::Atomic.*::(store|swap|fetch_|compare_|get_mut|into_inner)", "shared mutable state"),
    (r"\bstd::cell::(OnceCell|LazyCell|RefCell|Cell|UnsafeCell)", "interior mutability"),
    (r"std::thread::LocalKey|std::thread_local", "thread-local state"),
    (r"RandomState|std::collections::hash|std::hash::random|DefaultHasher", "randomly seeded hashing"),
    (r"std::random::|std::alloc::(alloc|set_alloc)", "ambient state"),
    (r"std::panic::(catch_unwind|set_hook|take_hook)", "panic interception"),
    (r"std::any::type_name", "build-dependent names"),
]


def check_effects(chk):
    d = D.run_dump()
    g = Graph(d)
    roots = [i for i in d["roots"] if i in g.by_id]
    seen = g.reach_from(roots)
    nsites = 0
    nleaf = 0
    for leaf, callers in sorted(g.leaves.items()):
        cs = [c for c in callers if c in seen]
        if not cs:
            continue
        nleaf += 1
        nsites += len(cs)
        bad = [why for rx, why in DENY if re.search(rx, leaf)]
        # only sites in this crate or inlined library code called from it; the log facade's own level check is not an effect
        cs2 = [c for c in cs if not g.by_id[c]["path"].startswith(("log::", "<log::"))]
        if bad and cs2:
            c = cs2[0]
            chk.violation("effect:%s:%s" % (fn_of(g.path(c)), leaf), "%s depends on %s: it calls %s at %s" % (g.path(c), bad[0], leaf, callers[c]))
        else:
            chk.ok("leaf %s" % leaf)
    # also functions with bodies whose path is denied (reached through inlinable std code)
    for i in seen:
        p = g.path(i)
        bad = [why for rx, why in DENY if re.search(rx, p)]
        if bad:
            chk.violation("effect:" + p, "%s (%s) is reachable from the public API" % (p, bad[0]))
    for it in d["items"]:
        if it["kind"].startswith("Static"):
            if "mutability: Mut" in it["kind"] or not it.get("freeze", True):
                chk.violation("static:" + it["path"], "mutable static %s: %s at %s" % (it["path"], it.get("ty"), it["span"]))
            else:
                chk.ok("static %s is immutable" % it["path"])
    # addresses must not be observable: no pointer-to-integer conversions outside offset computations
    for b in d["bodies"]:
        if b["local"] and b["id"] in seen:
            for blk in b["blocks"]:
                for s in blk["s"]:
                    if "PointerExposeProvenance" in json.dumps(s):
                        chk.violation("address:" + fn_of(b["path"]), "%s converts an address to an integer at %s" % (b["path"], b["span"]))
    # every shared-borrow field type of the public configuration is free of interior mutability
    for t in d["types"]:
        if t["k"] == "adt" and t["path"].startswith("sgmlish::") and "v" in t:
            for var in t["v"]:
                for n, ft in var["f"]:
                    s = d["types"][ft]["s"]
                    if re.search(r"\b(Cell|RefCell|OnceCell|Mutex|RwLock|OnceLock|Atomic\w+|UnsafeCell)\b", s):
                        chk.violation("field:%s.%s" % (t["path"], n), "field %s of %s has interior mutability: %s" % (n, t["path"], s))
    # a positive control: the matcher must recognise a denied leaf
    for ctl in ("std::time::Instant::now", "std::env::var", "std::sync::atomic::Atomic::<usize>::fetch_add", "std::thread::LocalKey::<T>::with"):
        if not any(re.search(rx, ctl) for rx, _ in DENY):
            chk.violation("control", "the rule does not recognise %s" % ctl)
    chk.cover.update(reachable_bodies=len(seen), leaf_functions=nleaf, leaf_call_sites=nsites, statics=sum(it["kind"].startswith("Static") for it in d["items"]))
    if nleaf < 80:
        chk.undecided("floor", "only %d leaf functions" % nleaf)
    return chk.finish(explanation="Effect analysis over the resolved call graph reachable from the public API: leaf library calls, statics, field types and pointer casts are matched against a table of effectful items.")


# ------------------------------------------------------------------ P05
def check_configs(chk):
    d = D.run_dump()
    n = D.run_dump([], tag="noserde")

    def table(x):
        r = {}
        ids = set(x["roots"])
        for b in x["bodies"]:
            if b["local"] and (b["id"] in ids or b["closure"]):
                r.setdefault(b["path"], []).append(b)
        return r
    r1, r2 = table(d), table(n)
    p1 = {b["id"]: b["path"] for b in d["bodies"]}
    p2 = {b["id"]: b["path"] for b in n["bodies"]}
    T1, T2 = d["types"], n["types"]

    # the error enum has one extra variant with serde: derived code over its variant indices differs by construction
    expected = re.compile(r"^<sgmlish::(error::)?Error as ")

    def vname(T, x):
        t = T[x[2]]
        return t["v"][x[3]]["n"] if "v" in t else x[3]

    def eq(a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, dict):
            return all(eq(a.get(k), b.get(k)) for k in (set(a) | set(b)) - {"id", "span", "sp", "fsp", "reach"})
        if isinstance(a, list):
            if len(a) != len(b):
                return False
            if len(a) >= 5 and a[0] == "agg" and b[0] == "agg" and a[1] == b[1] == "adt" and a[3] != b[3]:
                # variant numbers of an enum with feature-dependent variants: compare the names
                if vname(T1, a) != vname(T2, b):
                    return False
                return all(map(eq, a[:3] + a[4:], b[:3] + b[4:]))
            return all(map(eq, a, b))
        if a == b:
            return True
        if isinstance(a, int) and not isinstance(a, bool):
            if 0 <= a < len(T1) and 0 <= b < len(T2) and T1[a]["s"] == T2[b]["s"]:
                return True
            return p1.get(a) is not None and p1.get(a) == p2.get(b)
        return False
    for p, bs in sorted(r2.items()):
        if p not in r1:
            chk.violation("config-only:" + p, "%s exists only without the serde feature" % p)
            continue
        if expected.search(p):
            chk.ok("%s (variant set differs by declaration)" % p)
            continue
        ok = all(any(eq(y, x) for y in r1[p]) for x in bs)
        if ok:
            chk.ok("%s compiles to the same MIR" % p)
        else:
            chk.violation("config:" + p, "%s (%s) behaves differently with and without the serde feature: its MIR differs" % (p, bs[0]["span"]))
    for p in sorted(r1):
        if p not in r2 and "::de::" not in p and not p.startswith("sgmlish::fragment::SgmlFragment::<'a>::deserialize") and not expected.search(p) and "de::" not in p:
            if not any(x in p for x in ("Deserial", "serde")):
                chk.violation("config-only:" + p, "%s (%s) exists only with the serde feature, outside the deserializer" % (p, r1[p][0]["span"]))
    vis1 = {i["path"] for i in d["items"] if i["reach"]}
    vis2 = {i["path"] for i in n["items"] if i["reach"]}
    for p in sorted(vis2 - vis1):
        chk.violation("api:" + p, "public item %s exists only without serde" % p)
    # optimized build: same decisions as the debug build, apart from assertions
    import builds
    r = D.run_dump(profile="release", tag="release")
    rel = {}
    for b in r["bodies"]:
        if b["local"]:
            rel.setdefault(b["path"], []).append(b)
    nb = checks = 0
    open_ = {}
    for b in d["bodies"]:
        if not b["local"]:
            continue
        p = b["path"]
        nb += 1
        worst = None
        for c in rel.get(p, ()):
            try:
                w = builds.Walk(d, r, b, c).run()
                checks += w.regions + w.arith
                worst = None
                break
            except builds.Mismatch as e:
                if worst is None or worst.text == "signature" or e.kind == "effect":
                    worst = e
        else:
            if worst is None:
                worst = builds.Mismatch("only", "it exists only with debug assertions", b["span"])
        if worst is None:
            chk.ok("%s is the same in an optimized build" % p)
        elif worst.kind == "effect":
            chk.violation("build-effect:" + p, "%s does more than assert when debug assertions are on: %s at %s" % (p, worst.text, worst.sp))
        else:
            open_.setdefault(fn_of(p), worst)
    if open_:
        import relational as R
        from product import Pair, Cmp
        R.PAIR = P = Pair(d, r)
        ch = set(P.changed())
        jobs = [(f, (), 120, {}) for f in open_ if f in ch]
        import time
        res = R.run_jobs(jobs, time.time() + 400)
        for f, e in open_.items():
            x = res.get(f)
            ds = [y for y in x["diffs"] if "panics" not in y[5]] if x else []
            if ds:
                kind, a, b2, where, wit, _ = ds[0]
                chk.violation("build:" + f, "%s decides differently in an optimized build (%s at %s)\n  debug:     %s\n  optimized: %s\n  on: %s" % (f, e.text, e.sp, a, b2, wit))
            elif x and x["status"] == "equal":
                chk.ok("%s: differs in an optimized build, but not in what it does" % f)
            else:
                chk.undecided("build:" + f, "its code depends on the build profile (%s at %s)" % (e.text, e.sp))
    if nb < 1000:
        chk.undecided("floor-build", "only %d bodies compared between builds" % nb)
    chk.cover.update(functions_compared=len(r2), functions_with_serde=len(r1), public_items=len(vis2), bodies_compared_between_builds=nb, assertion_sites=checks)
    if len(r2) < 150:
        chk.undecided("floor", "only %d functions to compare" % len(r2))
    return chk.finish(explanation="The crate is compiled with and without the serde feature; the MIR of every function present in both (closures included) must be identical up to type numbering. "
                      "It is also compiled with and without debug assertions; every body is walked in step in both (bisimulation), and may differ only by overflow checks and by assertion code without effects.")


# ------------------------------------------------------------------ P24
def check_witnesses(chk):
    env = D.base_env()
    D.ensure_lock()
    tdir = os.path.join(D.CACHE, "target-witness")
    env["CARGO_TARGET_DIR"] = tdir
    for f in glob.glob(os.path.join(tdir, "*", "*", "*sgmlish*")):
        shutil.rmtree(f, ignore_errors=True) if os.path.isdir(f) else os.unlink(f)
    r = subprocess.run(["cargo", "+stable", "check", "--offline", "--lib", "--message-format=json", "--manifest-path", os.path.join(D.REPO, "Cargo.toml")],
                       env=env, capture_output=True, text=True)
    if r.returncode:
        raise D.ToolError(r.stderr[-3000:])
    ext = {}
    for line in r.stdout.splitlines():
        m = json.loads(line)
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                if f.endswith(".rmeta"):
                    ext[m["target"]["name"].replace("-", "_")] = f
    out = os.path.join(D.CACHE, "witness-out")
    os.makedirs(out, exist_ok=True)

    def rustc(src, tag):
        p = os.path.join(out, tag + ".rs")
        open(p, "w").write(src)
        c = subprocess.run(["rustc", "+stable", "--edition", "2021", "--crate-type", "lib", "--crate-name", "w", "--emit=metadata", "-Awarnings", "--error-format=json",
                            "-o", os.path.join(out, tag + ".rmeta"), "--extern", "sgmlish=" + ext["sgmlish"], "--extern", "serde=" + ext["serde"],
                            "-L", "dependency=" + os.path.dirname(ext["sgmlish"]), p], env=env, capture_output=True, text=True)
        codes, msgs = [], []
        for line in c.stderr.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("level") == "error" and m.get("spans"):
                codes.append((m.get("code") or {}).get("code"))
                msgs.append(m.get("rendered", "")[:600])
        return c.returncode == 0, codes, msgs
    n = 0
    for f in sorted(glob.glob(os.path.join(VERIF, "witness", "*.rs"))):
        name = os.path.basename(f)[:-3]
        lines = open(f).read().splitlines()
        code = next(l.split(":")[1].strip() for l in lines if l.startswith("//! code:")).replace(" ", "")
        doc = lines[0][4:]
        bad = "\n".join(l for l in lines if "//~GOOD" not in l)
        good = "\n".join(l for l in lines if "//~BAD" not in l)
        okb, cb, mb = rustc(bad, name + "_bad")
        okg, cg, mg = rustc(good, name + "_good")
        n += 2
        if not okg:
            chk.violation("witness:%s:twin" % name, "%s\nthe program relying on it no longer compiles:\n%s" % (doc, "\n".join(mg)))
        elif okb:
            chk.violation("witness:%s" % name, "%s\na program violating it now compiles:\n%s" % (doc, bad))
        elif not set(cb) <= set(code.split(",")):
            chk.undecided(name, "rejected with %s instead of %s" % (cb, code))
        else:
            chk.ok("%s: %s" % (name, doc))
    shutil.rmtree(out, ignore_errors=True)
    chk.cover.update(programs_type_checked=n)
    if n < 26:
        chk.undecided("floor", "only %d witness programs" % n)
    return chk.finish(explanation="Compile-fail witnesses, each with a compiling twin that differs only in the offending line, type-checked against the crate's current metadata; the expected error code must be the only error.")
