"""Relational check: every function of the current tree against the same function of the reviewed reference model (spec/).

A function whose resolved MIR (with the functions it sees through) is the model's own needs no further argument.  Any
other is interpreted next to the model's on the same abstract arguments (engine/product.py): the current body is
partitioned into cells, and on each cell result, effects and the order of observable events must read the same.
"""
import os, re, time, json, signal
from multiprocessing import Process, Pipe
from common import *
import dump
import scale
from product import Pair, Cmp

WORKERS = 8
LIMIT = 640          # seconds for the comparisons of one check
PER_FN = 150
SHORTER = {"sgmlish::entities::expand_entities_with": 45}      # decided through its callers where not by itself
DEEPEST = 4         # iterations of a loop looked at when the first ones agree
DEEP = False


def deepen():
    """Thorough tier: more time, more rounds of loops, and functions whose MIR is the model's are interpreted all the same."""
    global LIMIT, PER_FN, DEEPEST, DEEP
    LIMIT, PER_FN, DEEPEST, DEEP = 5400, 900, 8, True



D = "sgmlish::de::"
# Which properties the behaviour of a function belongs to (regular expressions on its path, in order, all matching apply).
MAP = [
    # --- entities
    (r"entities::expand_entities_with$", "P01 P03 P07 P08 P12"),
    (r"entities::expand_(entities|parameter_entities|characters)$", "P01 P07 P08 P12 P13"),
    (r"entities::(char_ref|entity_ref|entity_or_char_ref)$", "P01 P03 P08 P12 P26"),
    (r"entities::EntityError as .*(Display|PartialEq|Clone)", "P08 P12"),
    # --- text
    (r"text::Escape", "P01 P13 P14"),
    (r"text::escape$", "P01 P13 P14"),
    (r"text::(is_blank|is_sgml_whitespace)$", "P01 P11 P20 P22 P26 P28"),
    # --- marked sections
    (r"marked_sections::", "P01 P09 P12"),
    # --- parser configuration
    (r"parser::ParserBuilder|parser::ParserConfig as|parser::Parser as|Parser::(new|builder)$|MarkedSectionHandling as|NameNormalization as", "P01 P06 P07 P09 P10 P11"),
    (r"parser::NameNormalization::normalize$", "P01 P06 P10"),
    (r"parser::MarkedSectionHandling::parse_keywords$", "P01 P07 P09 P10 P12"),
    (r"parser::ParserConfig::trim$", "P01 P10 P11 P26"),
    (r"parser::ParserConfig::(parse_rcdata|parse_markup_declaration_text)$", "P01 P07 P10 P12"),
    (r"parser::(Parser::parse|Parser::parse_with_detailed_errors|parse)$", "P01 P03 P10 P11 P12 P23"),
    (r"parser::into_nom_failure$", "P01 P12 P23"),
    (r"parser::omit$", "P10"),
    # --- events
    (r"parser::events::EventIter", "P01 P03 P11 P15 P16"),
    (r"parser::events::(document_entity|prolog|content|content_item)$", "P01 P03 P07 P09 P10 P11 P12 P25 P27"),
    (r"parser::events::(marked_section_body|marked_section_declaration)$", "P01 P03 P07 P09 P10 P11 P12 P25 P26 P27"),
    (r"parser::events::text$", "P01 P07 P09 P10 P11 P12 P25 P26 P27"),
    (r"parser::events::attribute$", "P01 P06 P07 P10 P11 P12 P25 P27"),
    (r"parser::events::(open_start_tag|end_tag|start_tag|empty_start_tag|close_start_tag|xml_close_empty_element)$", "P01 P03 P06 P07 P10 P11 P12 P27"),
    (r"parser::events::(markup_declaration|processing_instruction)$", "P01 P06 P07 P10 P11 P12 P25 P27"),
    (r"parser::events::unrecoverable$", "P01 P12 P25"),
    # --- raw grammar
    (r"parser::raw::(comment|comment_declaration|declaration_subset|markup_declaration|processing_instruction|marked_section_\w+|quoted_attribute_value)$",
     "P01 P03 P09 P10 P11 P12 P25 P26 P27"),
    (r"parser::raw::(attribute|attribute_value|attribute_parse_value|unquoted_attribute_value|open_start_tag|end_tag|empty_start_tag|close_start_tag|xml_close_empty_element)$",
     "P01 P03 P06 P07 P11 P12 P25 P26 P27"),
    (r"parser::raw::(text|plain_text)$", "P01 P03 P11 P12 P25 P27"),
    (r"parser::raw::(name|name_start|is_name_char|is_name_start_char)$", "P01 P03 P06 P08 P09 P26 P27"),
    (r"parser::raw::MarkedSectionEndHandling", "P27"),
    # --- utilities
    (r"parser::util::take_until_terminated$", "P01 P11 P12 P25"),
    (r"parser::util::", "P01 P03 P11 P12 P25 P26 P27"),
    # --- errors
    (r"parser::error::", "P01 P12 P23"),
    (r"error::Error as|DeserializationError as|NormalizationError as", "P01 P12 P18 P19 P21"),
    # --- events and fragments
    (r"SgmlEvent<.*> as std::fmt::Display|fragment::SgmlFragment<.*> as std::fmt::Display", "P01 P12 P14"),
    (r"into_owned$|make_owned$", "P01 P15"),
    (r"SgmlEvent<.*> as std::(clone|cmp)", "P15"),
    (r"fragment::SgmlFragment", "P01 P15 P17"),
    # --- transforms
    (r"transforms::transform::", "P01 P03 P17 P18"),
    (r"transforms::normalize_end_tags::", "P01 P03 P12 P17 P18"),
    # --- deserialization
    (r"de::buffer::", "P01 P22"),
    (r"de::ContentStrategy", "P19 P22"),
    (r"de::from_fragment$|fragment::SgmlFragment.*::deserialize$|SgmlDeserializer::<'de>::from_fragment$", "P01 P12 P19 P20 P22"),
    (r"SgmlDeserializer::<'de>::(push_elt|pop_elt|advance|advance_to_content|peek|peek_mut|check_stack_size|do_map|expect_start_tag|consume_text)$", "P01 P03 P12 P19 P20 P22 P28 P29"),
    (r"SgmlDeserializer::<'de>::(peek_content_type|peek_content_type_after)$", "P01 P03 P19 P20 P22 P28"),
    (r"SgmlDeserializer::<'de>::normalize_at_cursor$", "P01 P03 P12 P19 P20 P22"),
    (r"SgmlDeserializer::<'de>::check_progress$", "P01 P03 P12"),
    (r"Deserializer<'de>>::deserialize_([iu](8|16|32|64)|f32|f64|bool)$", "P01 P12 P20 P21"),
    (r"Deserializer<'de>>::is_human_readable$", "P21"),
    (r"Deserializer<'de>>::deserialize_(char|str|string|bytes|byte_buf)$", "P01 P12 P19 P20 P21 P22"),
    (r"Deserializer<'de>>::deserialize_(any|option|unit|unit_struct|newtype_struct|identifier|ignored_any)$", "P01 P03 P12 P19 P20 P21 P22 P29"),
    (r"Deserializer<'de>>::deserialize_(seq|tuple|tuple_struct)$", "P01 P03 P12 P19 P20 P22 P29"),
    (r"Deserializer<'de>>::deserialize_(map|struct)$", "P01 P03 P12 P19 P20 P22"),
    (r"Deserializer<'de>>::deserialize_enum$", "P01 P12 P19 P20 P28"),
    (r"de::EnumAccess", "P01 P03 P12 P19 P20 P22 P28"),
    (r"de::SeqAccess", "P01 P03 P12 P19 P20 P29"),
    (r"de::MapAccess", "P01 P03 P12 P19 P20 P21 P22 P28 P29"),
]
MAP = [(re.compile(r), set(ps.split())) for r, ps in MAP]
# Provided methods of traits, spelled out in the model as their traits define them: a tree need not have them.
PROVIDED = re.compile(r"Iterator>::(nth|count|last|fold)$|is_human_readable$")
SKIP = re.compile(r" as std::fmt::Debug>::fmt$|assert_fields_are_eq$")


def props_of(path):
    out = set()
    for r, ps in MAP:
        if r.search(path):
            out |= ps
    return out


# Which differences of a function's behaviour a property is about (all of them unless listed).
STEPPING = re.compile(r"check_progress$|next_key_seed$|next_element_seed$|::advance$|advance_to_content$|pop_elt$|push_elt$|consume_text$|do_map$")


def about(prop, fn, diff):
    kind, tags = diff[0], diff[5]
    if prop == "P01":
        return "panics" in tags
    if prop == "P03":
        return "endless" in tags or "more" in tags or (bool(STEPPING.search(fn)) and "value" in tags + [kind] + (["value"] if kind in ("effect", "trace") else []))
    if prop == "P12":
        return "error" in tags or "sink" in tags
    if prop == "P06" and "normalize" not in fn and "parser::events::" in fn:
        return "normalize" in tags
    if prop == "P07" and "parser::events::" in fn and "attribute" not in fn:
        return "expand" in tags
    return True


# ------------------------------------------------------------------ running comparisons
PAIR = None


def one(job):
    fn, inline, budget, opts = job
    t0 = time.time()
    # one round of each loop first: the cheapest place to see a difference
    r = Cmp(PAIR, fn, inline=inline, budget=min(60, budget * 0.4), opts=opts, peel=1).run()
    if r.status != "diff" and (r.cut or r.why or r.status != "equal"):
        r = Cmp(PAIR, fn, inline=inline, budget=max(5, budget - (time.time() - t0)), opts=opts).run()
    peel = 2
    # nothing found in the first rounds of its loops: look at more of them while that is cheap
    while r.status != "diff" and r.cut and peel < DEEPEST and r.why is None and (DEEP or r.time < 15) and time.time() - t0 + 8 * r.time < budget:
        peel += 1
        d = Cmp(PAIR, fn, inline=inline, budget=min(300 if DEEP else 60, budget - (time.time() - t0)), opts=opts, peel=peel).run()
        if d.status == "diff":
            r = d
        elif d.why is not None or d.status != r.status:
            break
        else:
            r = d
    r.time = time.time() - t0
    return {"fn": fn, "status": r.status, "why": r.why, "cells": r.cells, "pairs": r.pairs, "unk": r.unk, "cut": r.cut, "sampled": r.sampled, "time": round(r.time, 1),
            "diffs": [(d.kind, str(d.a), str(d.b), str(d.where), d.wit, d.tags) for d in r.diffs], "used": sorted(r.used),
            "only_a": sorted(getattr(r, "only_a", ())), "only_b": sorted(getattr(r, "only_b", ()))}


def child(conn, job):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    try:
        conn.send(one(job))
    except BaseException as e:
        conn.send({"fn": job[0], "status": "undecided", "why": "analysis process failed: %r" % (e,), "cells": 0, "pairs": 0, "unk": 0, "cut": 0,
                   "time": 0, "diffs": [], "used": [], "only_a": [], "only_b": []})
    conn.close()


def run_jobs(jobs, deadline):
    """One process per job, at most WORKERS at a time, each ended when its time is over."""
    res = {}
    todo = list(jobs)
    live = []
    while todo or live:
        while todo and len(live) < WORKERS:
            if time.time() > deadline - 5:
                j = todo.pop(0)
                res[j[0]] = {"fn": j[0], "status": "undecided", "why": "not reached in the time of one run", "cells": 0, "pairs": 0, "unk": 0, "cut": 0,
                             "time": 0, "diffs": [], "used": [], "only_a": [], "only_b": []}
                continue
            fn, inl, budget, opts = todo.pop(0)
            budget = min(budget, max(5, deadline - time.time()))
            a, b = Pipe(False)
            p = Process(target=child, args=(b, (fn, inl, budget, opts)))
            p.start()
            b.close()
            live.append((p, a, fn, time.time() + budget * 1.3 + 10))
        time.sleep(0.02)
        for x in list(live):
            p, a, fn, end = x
            if a.poll():
                try:
                    res[fn] = a.recv()
                except EOFError:
                    res[fn] = None
            elif p.is_alive() and time.time() < end:
                continue
            if fn not in res or res[fn] is None:
                res[fn] = {"fn": fn, "status": "undecided", "why": "analysis process ended without a result", "cells": 0, "pairs": 0, "unk": 0, "cut": 0,
                           "time": 0, "diffs": [], "used": [], "only_a": [], "only_b": []}
            if p.is_alive():
                p.terminate()
            p.join()
            live.remove(x)
    return res


class Relational:
    def __init__(self, da=None, db=None):
        global PAIR
        self.da = da or dump.run_dump()
        self.db = db or dump.spec_dump()
        PAIR = self.P = Pair(self.da, self.db)
        self.deadline = time.time() + LIMIT
        ch = [f for f in (self.P.cb.roots if DEEP else self.P.changed()) if f in self.P.ca.roots and not SKIP.search(f)]
        self.resigned = {f for f in ch if self.P.ca.sig(self.P.ca.roots[f]) != self.P.cb.sig(self.P.cb.roots[f])}
        self.changed = [f for f in ch if f not in self.resigned]
        self.reach = {b["path"]: b.get("reach") or b.get("trait") is not None for b in self.db["bodies"] if b["local"]}
        self.log = []
        self.callers = self.call_index()

    # direct callers (through closures) of each local function of the current tree
    def call_index(self):
        bodies = self.P.ca.d["bodies"]
        callees = {}

        def refs(x, out):
            if isinstance(x, dict):
                for k in ("fn", "f"):
                    if isinstance(x.get(k), dict) and x[k].get("id") is not None:
                        out.add(x[k]["id"])
                for y in x.values():
                    refs(y, out)
            elif isinstance(x, list):
                if len(x) > 5 and x[0] == "agg" and x[1] == "closure" and isinstance(x[5], int):
                    out.add(x[5])
                for y in x:
                    refs(y, out)
        for b in bodies:
            if b["local"]:
                out = set()
                refs(b["blocks"], out)
                callees[b["id"]] = out
        self.callees = callees
        rev = {}
        # instances of one function are that function
        roots = {b["id"]: b["path"] for b in bodies if b["local"] and not b["closure"] and b["path"] in self.P.ca.roots}
        start = {}
        for i, p in roots.items():
            start.setdefault(p, []).append(i)
        for p in self.P.ca.roots:
            seen = set()
            todo = list(start.get(p, ()))
            while todo:
                i = todo.pop()
                for j in callees.get(i, ()):
                    if j in seen:
                        continue
                    seen.add(j)
                    if j in roots:
                        if roots[j] != p:
                            rev.setdefault(roots[j], set()).add(p)
                        if roots[j] in self.P.shared:
                            continue
                    todo.append(j)
        return rev

    def own_changed(self, p):
        """Is the function's own code (not what it calls) different from the model's?"""
        a, b = self.P.ca.roots.get(p), self.P.cb.roots.get(p)
        return a is None or b is None or p in self.changed

    def bad_types(self, p):
        if not self.P.badadts:
            return False
        for P, d, roots in ((self.P, self.da, self.P.ca.roots), (self.P, self.db, self.P.cb.roots)):
            b = roots[p]
            for t in b["locals"]:
                s = d["types"][t]["s"]
                if any(x in s for x in self.P.badadts):
                    return True
        return False

    def run(self, fns):
        res = self.compare(fns)
        self.lower(res)
        return res

    def lower(self, res):
        """Look past the count thresholds that only the current tree has (see engine/scale.py)."""
        global PAIR
        th = scale.thresholds(self.P, [f for f in sorted(res) if res[f]["status"] in ("equal", "undecided")])
        if not th or time.time() > self.deadline - 20:
            return
        low = Relational(scale.lowered(self.da, [x for v in th.values() for x in v]), self.db)
        low.deadline = self.deadline
        try:
            second = low.compare(th)
        finally:
            PAIR = self.P
        for f, r in second.items():
            ks = sorted({x[2] for x in th[f]})
            if r["status"] == "diff":
                r["diffs"] = [(k, a, b, w, "%s, with the count it waits for (%s) lowered to 1 or 2" % (wit, ks), tags) for k, a, b, w, wit, tags in r["diffs"]]
                r["why"] = "beyond the count %s, which the model does not have" % ks
                res[f] = r
            elif r["status"] == "equal":
                res[f]["why"] = ((res[f]["why"] or "") + " also with the counts %s lowered" % ks).strip()

    def compare(self, fns):
        fns = sorted(fns)
        bad = [f for f in fns if self.bad_types(f)]
        res = run_jobs([(f, (), SHORTER.get(f, PER_FN), {}) for f in fns if f not in bad], self.deadline)
        for f in bad:
            res[f] = {"fn": f, "status": "undecided", "why": "works on a type whose definition differs from the model's", "cells": 0, "pairs": 0, "unk": 0,
                      "cut": 0, "time": 0, "diffs": [], "used": [], "only_a": [], "only_b": []}
        # a difference that may only be a contract spelled out in place: look through that contract on both sides
        again = []
        for f, r in res.items():
            inl = [x for x in r["only_a"] + r["only_b"] if x != f]
            if r["status"] == "diff" and inl:
                again.append((f, tuple(inl), PER_FN, {}))
        second = run_jobs(again, self.deadline)
        for f, r2 in second.items():
            r = res[f]
            if r2["status"] == "equal":
                r2["why"] = "equal once %s is seen through" % ", ".join(r["only_a"] + r["only_b"])
                res[f] = r2
            elif r2["status"] == "diff":
                res[f] = r2
            elif r["only_a"] and not r["only_b"]:
                r["status"], r["why"] = "undecided", "differs by the use of %s" % r["only_a"]
        # private functions: what counts is what their callers make of them
        for f in [f for f, r in res.items() if r["status"] == "diff" and not self.reach.get(f)]:
            v, why = self.through_callers(f, frozenset(), 0)
            if v == "equal":
                res[f]["status"], res[f]["why"] = "equal", "the difference is not observable by any caller (%s)" % why
                res[f]["diffs"] = []
            elif v == "undecided":
                res[f]["status"], res[f]["why"] = "undecided", why
        return res

    def through_callers(self, f, inl, depth):
        inl = inl | {f}
        cs = sorted(c for c in self.callers.get(f, ()) if c in self.P.cb.roots and c not in inl)
        if not cs:
            return "equal" if not self.callers.get(f) else "diff", "nothing calls it"
        rs = run_jobs([(c, tuple(sorted(inl)), PER_FN, {}) for c in cs], self.deadline)
        st = {c: rs[c]["status"] for c in cs}
        for c in cs:
            if st[c] == "diff" and not self.reach.get(c) and depth < 2:
                v, why = self.through_callers(c, inl, depth + 1)
                if v != "diff":
                    st[c] = v
        if "diff" in st.values():
            return "diff", ""
        if all(s == "equal" for s in st.values()):
            return "equal", ", ".join(cs)
        # inconclusive: the function itself provably differs; only a caller changed along with it could make up for that
        if any(self.own_changed(c) for c in cs):
            return "undecided", "its callers changed with it and could not be decided"
        return "diff", ""


def check(prop):
    def run(chk, rel=None):
        rel = rel or Relational()
        fns = [p for p in rel.P.cb.roots if prop in props_of(p)]
        ch = [f for f in fns if f in rel.changed]
        res = rel.run(ch)
        missing = [f for f in fns if f not in rel.P.ca.roots]
        for f in fns:
            if f in missing and PROVIDED.search(f):
                chk.ok("%s: left to the trait's own definition, as the model spells it out" % f)
            elif f in missing:
                chk.undecided(f, "not present in the current tree; its callers are compared instead")
            elif f in rel.resigned:
                chk.undecided(f, "its signature differs from the model's; its callers are compared seeing through it")
            elif f not in ch:
                chk.ok("%s: same resolved MIR as the model" % f)
            else:
                r = res[f]
                if r["status"] == "equal" and r.get("sampled"):
                    # (no sound argument: neither held against the tree nor counted for it)
                    chk.undecided(f, "no difference found, but on %d of %d joint cells the two results are different terms that agreed on every reading tried" % (
                        r["sampled"], r["pairs"]))
                elif r["status"] == "equal":
                    chk.ok("%s: equal on %d cells (%d joint cells, %d cut) %s" % (f, r["cells"], r["pairs"], r["cut"], r["why"] or ""))
                elif r["status"] == "diff":
                    ds = [d for d in r["diffs"] if about(prop, f, d)]
                    if not ds:
                        chk.ok("%s: differs from the model, but not in what this property is about (%s)" % (f, sorted({t for d in r["diffs"] for t in d[5]})))
                    for kind, a, b, where, wit, _ in ds[:1]:
                        chk.violation("%s:%s" % (f, kind),
                                      "%s does not do what %s requires (%s)\n  current tree: %s\n  required:     %s\n  on: %s\n  at: %s" % (
                                          f, prop, kind, a, b, wit, span(rel, f)))
                else:
                    chk.undecided(f, r["why"] or "%d joint cells without a witness" % r["unk"])
        b = rel.P.ca
        chk.cover.update({
            "functions": len(fns), "identical": len(fns) - len(ch) - len(missing), "compared": len(ch),
            "cells": sum(r["cells"] for r in res.values()), "joint_cells": sum(r["pairs"] for r in res.values()),
            "bodies_in_tree": len([1 for x in rel.da["bodies"] if x["local"]]),
            "rule": "for every function of the property: result, effects and order of events equal the reference model's on every cell of its abstract arguments",
        })
        chk.assumptions += [
            "rustc's MIR (nightly, mir-opt-level 0) means what the compiled crate does; std and nom behave as their models in engine/ say",
            "the reference model in /verif/spec is what the property requires (reviewed by hand, defects found in review were repaired in /repo)",
            "loops are compared for their first iterations (2 to 4, more while driven by constants); longer runs are cut, not claimed",
        ]
        return chk.finish(explanation="Relational abstract interpretation of MIR: each function the property rests on is partitioned into cells over symbolic arguments "
                          "and compared, cell by cell, with the same function of the reference model; a difference is reported only with a concrete assignment of the cell on which the two readings differ.")
    return run


def span(rel, f):
    b = rel.P.ca.roots.get(f)
    return b.get("span") if b else "?"
