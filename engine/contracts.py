"""Modular interpretation: functions of the crate that have a contract of their own are opaque to their callers.

A call of a contract function becomes a term built from the callee's name and the (abstract) arguments; its result,
and what it leaves behind its mutable references, are named by that term.  Calls of the caller's own code (trait
methods of type parameters, closures passed in) are recorded as events, in order, and may change anything they can
reach.  Two interpretations are comparable because equal calls get equal terms.
"""
import re, time
from core import *
import interp
from interp import Interp, ret, Outcome, showv
import models


def strip_generics(p):
    return p


class Contracts:
    """Which functions are opaque: recomputed from a dump."""

    def __init__(self, d):
        self.d = d
        self.T = d["types"]
        ids = set(d["roots"])
        self.roots = {}
        for b in d["bodies"]:
            if b["local"] and b["id"] in ids and not b["closure"]:
                self.roots[b["path"]] = b

    def sig(self, b):
        T = self.T
        return (iters(erase(T[b["locals"][0]]["s"])),) + tuple(erase(T[t]["s"]) for t in b["locals"][1:b["argc"] + 1])

    def has_fn_arg(self, b):
        for t in b["locals"][:b["argc"] + 1]:
            if self.fnlike(t, 0):
                return True
        return False

    def fnlike(self, t, d):
        ty = self.T[t]
        k = ty["k"]
        if k in ("closure", "fnptr", "fndef", "opaque", "dyn"):
            return k != "dyn" or "Fn" in ty["s"]
        if k == "param":
            return ty["s"] not in ("E", "V", "T", "I", "W", "K", "Self")
        if d > 3:
            return False
        if k in ("ref", "ptr"):
            return self.fnlike(ty["e"], d + 1)
        if k == "tuple":
            return any(self.fnlike(x, d + 1) for x in ty["f"])
        if k == "adt":
            if ty["path"].startswith("sgmlish"):
                return False
            return any(isinstance(x, int) and self.fnlike(x, d + 1) for x in ty["args"])
        if k in ("alias",):
            return True
        return False

    def is_parser(self, b):
        r = self.T[b["locals"][0]]
        return r["k"] == "adt" and r["path"] == "std::result::Result" and "nom::Err<" in self.T[r["args"][1]]["s"] and \
            self.T[r["args"][0]]["k"] == "tuple" and b["argc"] >= 1 and self.T[b["locals"][1]]["s"] == "&str"

    def has_loop(self, b, I):
        return bool(I.loops_of(b))


def iters(s):
    """Lazy iterators a function may give back (`impl Iterator`) are known by what they yield."""
    out, i = "", 0
    for m in re.finditer(r"std::iter::\w+<|std::vec::IntoIter<", s):
        if m.start() < i:
            continue
        d, j = 1, m.end()
        while d and j < len(s):
            d += {"<": 1, ">": -1}.get(s[j], 0) if s[j - 1] != "-" else 0
            j += 1
        out += s[i:m.start()] + "{iter}"
        i = j
    return out + s[i:]


def erase(s):
    s = re.sub(r"'[a-z_]\w*", "'_", s)
    s = re.sub(r"&'_ ", "&", s)
    s = re.sub(r"\{closure@[^}]*\}", "{closure}", s)
    s = re.sub(r"\{opaque[^}]*\}", "{opaque}", s)
    return s


# contract functions besides parsers and functions with loops: calls of these stay terms
EXTRA = {
    "sgmlish::parser::ParserConfig::trim", "sgmlish::parser::ParserConfig::parse_rcdata",
    "sgmlish::parser::ParserConfig::parse_markup_declaration_text", "sgmlish::parser::NameNormalization::normalize",
    "sgmlish::marked_sections::MarkedSectionStatus::from_keywords", "sgmlish::parser::MarkedSectionHandling::parse_keywords",
    "<sgmlish::marked_sections::MarkedSectionStatus as std::str::FromStr>::from_str",
    "sgmlish::text::is_blank", "sgmlish::parser::error::LocatedLine::<'a>::locate",
    "<sgmlish::parser::error::LocatedLine<'a> as std::fmt::Display>::fmt",
    "sgmlish::transforms::transform::Transform::<'a>::apply",
    "sgmlish::SgmlEvent::<'a>::into_owned", "<sgmlish::SgmlEvent<'_> as std::fmt::Display>::fmt",
    "sgmlish::entities::expand_characters",
    "sgmlish::parser::Parser::parse",
    "sgmlish::parser::error::ContextualizedError::<I>::describe",
    "sgmlish::transforms::normalize_end_tags::normalize_end_tags",
    "sgmlish::de::SgmlDeserializer::<'de>::consume_text",
    "sgmlish::de::SgmlDeserializer::<'de>::pop_elt",
    "sgmlish::de::SgmlDeserializer::<'de>::advance_to_content",
    "sgmlish::de::SgmlDeserializer::<'de>::peek_content_type_after",
    "<&'r mut sgmlish::de::SgmlDeserializer<'de> as serde::Deserializer<'de>>::deserialize_any",
    "<&'r mut sgmlish::de::SgmlDeserializer<'de> as serde::Deserializer<'de>>::deserialize_unit",
}
# small helpers with a loop or a parser type that are better seen through
NEVER = {"sgmlish::parser::raw::marked_section_body_character_data"}


# What the text begins with whenever a parser accepts it or fails for good (its first characters, one class each).
# Consequences of the model's own code; the functions themselves are compared in their own right.
_AL = CC.pred("alphabetic")
_LT = CC.chars("<")
_RAW, _EV, _UT = "sgmlish::parser::raw::", "sgmlish::parser::events::", "sgmlish::parser::util::"
_MD, _MS, _PI, _ST, _ET, _ES = (_LT, CC.chars("!"), _AL), (_LT, CC.chars("!"), CC.chars("[")), (_LT, CC.chars("?")), (_LT, _AL | CC.chars(">")), \
    (_LT, CC.chars("/")), (_LT, CC.chars(">"))
_TXT = ((_LT, CC.chars(">?") | _AL), (_LT, CC.chars("!"), CC.chars("-[") | _AL), (_LT, CC.chars("/"), CC.chars(">") | _AL))
_QUO, _UNQ = CC.chars("\"'"), CC.chars("\"'> \t\r\n").compl()
STARTS = {
    _RAW + "comment_declaration": [(_LT, CC.chars("!"), CC.chars("->"))],
    _RAW + "comment": [(CC.chars("-"), CC.chars("-"))],
    _RAW + "markup_declaration": [_MD], _EV + "markup_declaration": [_MD],
    _RAW + "declaration_subset": [(CC.chars("["),)],
    _RAW + "marked_section_start_and_keywords": [_MS], _EV + "marked_section_declaration": [_MS],
    _RAW + "marked_section_end": [(CC.chars("]"), CC.chars("]"), CC.chars(">"))],
    _RAW + "processing_instruction": [_PI], _EV + "processing_instruction": [_PI],
    _RAW + "text": [(ANYCHAR,)], _EV + "text": [(ANYCHAR,)],
    _RAW + "plain_text": [(_LT.compl(),)],
    _RAW + "open_start_tag": [(_LT, _AL)], _EV + "open_start_tag": [(_LT, _AL)],
    _RAW + "close_start_tag": [(CC.chars(">"),)], _EV + "close_start_tag": [(CC.chars(">"),)],
    _RAW + "xml_close_empty_element": [(CC.chars("/"), CC.chars(">"))], _EV + "xml_close_empty_element": [(CC.chars("/"), CC.chars(">"))],
    _RAW + "empty_start_tag": [_ES], _EV + "empty_start_tag": [_ES],
    _EV + "start_tag": [_ST],
    _RAW + "attribute": [(_AL,)], _RAW + "attribute_parse_value": [(_AL,)], _EV + "attribute": [(_AL,)],
    _RAW + "attribute_value": [(_QUO | _UNQ,)], _RAW + "quoted_attribute_value": [(_QUO,)], _RAW + "unquoted_attribute_value": [(_UNQ,)],
    _RAW + "end_tag": [_ET], _EV + "end_tag": [_ET],
    _RAW + "name": [(_AL,)], _RAW + "name_start": [(_AL,)],
    _EV + "content": [(ANYCHAR,)], _EV + "content_item": [(ANYCHAR,)],
}
NOT_STARTS = {_RAW + "text": _TXT, _EV + "text": _TXT}
# those that accept or fail for good whatever begins like that
SURE = {_RAW + n for n in ("comment_declaration", "comment", "markup_declaration", "marked_section_start_and_keywords", "marked_section_end", "processing_instruction",
                           "open_start_tag", "close_start_tag", "xml_close_empty_element", "empty_start_tag", "attribute", "end_tag", "name", "name_start",
                           "quoted_attribute_value", "declaration_subset")} | \
       {_EV + n for n in ("markup_declaration", "marked_section_declaration", "processing_instruction", "open_start_tag", "close_start_tag",
                          "xml_close_empty_element", "empty_start_tag", "attribute", "end_tag")}
# those that put out what they consume
CONSUMED = {_RAW + n for n in ("comment_declaration", "marked_section_end", "processing_instruction", "text", "plain_text", "close_start_tag",
                               "xml_close_empty_element", "empty_start_tag", "unquoted_attribute_value", "name", "name_start")} | \
           {_UT + n for n in ("spaces", "comments_and_spaces")}
# those that never turn the other way
NEVER_ERROR = {_UT + "spaces", _UT + "comments_and_spaces", _EV + "prolog"}
NEVER_FAIL = {_UT + "spaces"} | {_RAW + n for n in ("name", "name_start", "open_start_tag", "close_start_tag", "xml_close_empty_element", "empty_start_tag",
                                                  "marked_section_end", "text", "plain_text", "unquoted_attribute_value")} | \
             {_EV + n for n in ("open_start_tag", "close_start_tag", "xml_close_empty_element", "empty_start_tag")}

# What a step of the deserializer leaves alone, and what it does to the stack of open elements and the events ahead
# when it succeeds: (fields never changed, change of the stack's length, least number of events consumed).
_DE = "sgmlish::de::SgmlDeserializer::<'de>::"
STEPS = {
    _DE + "pop_elt": (("map_key", "accumulated_text"), -1, 1),
    _DE + "advance_to_content": (("stack", "map_key", "accumulated_text"), 0, 0),
    _DE + "consume_text": (("map_key",), 0, 0),
}

DISPLAY = " as std::fmt::Display>::fmt"


def heads(x, out):
    """Names of the functions a term is built from."""
    if isinstance(x, Lin):
        for v, _ in x.t:
            heads(v, out)
    elif isinstance(x, tuple) and x:
        if isinstance(x[0], str):
            out.add((x[0], x[1]) if x[0] in ("fmt", "pure", "call") and len(x) > 1 and isinstance(x[1], str) else x[0])
        for y in x:
            if isinstance(y, (tuple, Lin)):
                heads(y, out)


class CInterp(Interp):
    def __init__(self, dump, shared, inline=(), limits=None):
        super().__init__(dump, opaque=self.opaque_call, limits=limits)
        self.C = Contracts(dump)
        self.shared = shared            # paths with a contract on both sides
        self.inline = set(inline)
        self.root = None
        self.hasher = None
        self.used = set()               # contracts relied upon
        self.konst_cells = {}
        self._kc = {}
        self.slice_elem = {}
        self.pos_vars = set()
        self.samelen = {}
        self.nvariants = {}
        self.deadline = None
        self.symty = {}                 # symbols of enums and structures: term -> (interpreter, type)
        self.asked = set()              # heads of the terms decisions were taken on
        self._askseen = set()

    def decide(self, st, c):
        if c is not True and c is not False and c not in self._askseen:
            self._askseen.add(c)
            heads(c, self.asked)
        return super().decide(st, c)

    def assume_variant(self, st, v, idx):
        if v not in self._askseen:
            self._askseen.add(v)
            heads(v, self.asked)
        return super().assume_variant(st, v, idx)

    def exclude_variants(self, st, v, idxs):
        if v not in self._askseen:
            self._askseen.add(v)
            heads(v, self.asked)
        return super().exclude_variants(st, v, idxs)

    def has_contract(self, path):
        if path in self.shared and path not in self.inline:
            self.used.add(path)
            return True
        return False

    # ------------------------------------------------------------------ contract calls
    def opaque_call(self, I, st, f, args, site):
        if self.deadline and time.time() > self.deadline:
            from core import Unsupported
            raise Unsupported("time budget")
        i = f.get("id")
        if i is None:
            return None
        b = self.bodies[i]
        if not b["local"] or b["closure"]:
            return None
        p = b["path"]
        if p not in self.shared or p in self.inline:
            return None
        if p.endswith(DISPLAY):
            from models import write_arg
            self.used.add(p)
            t = self.T[b["locals"][1]]
            return write_arg(self, st, args[1], ("fmtarg", "display", t.get("e"), args[0]), (), site)
        if f["path"].startswith("std::ops::Fn"):
            args = list(args[1][1])
        self.used.add(p)
        return self.term_outcomes(st, p, b, args, site)

    def fz(self, st, v, d=0):
        """Freeze a value for use inside a term: no cells, no type numbers."""
        if isinstance(v, Lin):
            return self.fz_lin(st, st.norm(v))
        if not isinstance(v, tuple) or not v:
            return v
        k = v[0]
        if d > 14:
            return v
        if k in ("ref", "box"):
            path = v[2] if k == "ref" else ()
            try:
                x = self.get(st, self.cell_value(st, v[1]), path)
            except (Unsupported, KeyError):
                return ("dangling", v[1], path)
            return self.fz(st, x, d + 1)
        if k == "str":
            return self.simplify_str(st, v)
        if k == "cow":
            return ("cow*", self.fz(st, v[2], d + 1))
        if k == "sym" and len(v) == 2:
            return v
        if k == "sym":
            fct = st.variants.get(v[1])
            if fct and fct[0] is not None and v[2] is not None:
                ty = self.T[v[2]]
                if ty["k"] == "adt" and ty["kind"] == "enum" and "v" in ty and not ty["v"][fct[0]]["f"]:
                    return ("adt", ty["path"], ty["v"][fct[0]]["n"], ())
            w = self.mk(v[1], v[2]) if v[2] is not None else v
            if w[0] == "sym":
                # an enum symbol whose variant is known stays a symbol: facts are compared separately
                return ("sym", v[1])
            return self.fz(st, w, d + 1)
        if k == "adt":
            ty = self.adt_ty(v[1])
            name = v[2]
            if ty is not None and "v" in ty and v[2] < len(ty["v"]):
                name = ty["v"][v[2]]["n"]
                fs = ty["v"][v[2]]["f"]
                # a symbol that was only spelled out folds back into the symbol
                t = self.refold(v, ty)
                if t is not None:
                    if t not in self.symty and not any(isinstance(x, int) for x in ty["args"]):
                        self.symty[t] = (self, ty)
                    return ("sym", t)
                if "fo" in ty:
                    at = {n: i for i, (n, ft) in enumerate(fs)}
                    return ("adt", v[1], name, tuple((n, self.fz(st, v[3][at[n]], d + 1)) for n in ty["fo"]))
                return ("adt", v[1], name, tuple((fs[i][0] if i < len(fs) else i, self.fz(st, x, d + 1)) for i, x in enumerate(v[3])))
            return ("adt", v[1], name, tuple((i, self.fz(st, x, d + 1)) for i, x in enumerate(v[3])))
        if k == "tup":
            return ("tup", tuple(self.fz(st, x, d + 1) for x in v[1]))
        if k == "seq":
            return ("seq", tuple(("v", self.fz(st, s[1], d + 1)) if s[0] == "v" else ("s", s[1], st.norm(s[3]), st.norm(s[4]), self.proto(st, s, d)) for s in v[1]
                                 if s[0] == "v" or not st.lin_eq(s[3], s[4])))
        if k == "sref":
            try:
                base = self.get(st, self.cell_value(st, v[1]), v[2])
            except (Unsupported, KeyError):
                return ("sref", v[1], v[2], st.norm(v[3]), st.norm(v[4]))
            return ("sref", self.fz(st, base, d + 1), st.norm(v[3]), st.norm(v[4]))
        if k == "clo":
            return ("clo", self.hasher.body(v[2]) if self.hasher is not None and isinstance(v[2], int) else None, tuple(self.fz(st, x, d + 1) for x in v[3]))
        if k == "fmtargs":
            return ("fmtargs", tuple(("fa", self.fz(st, p[1], d + 1), p[2]) if p[0] == "fa" else p for p in v[1]))
        if k == "fmtarg":
            return ("fmtarg", v[1], self.fz(st, v[3], d + 1))
        if k == "fn":
            return ("fn", v[1].get("path"))
        if k == "perr":
            return tuple(self.fz(st, x, d + 1) if isinstance(x, (tuple, Lin)) else x for x in v)
        if k == "it":
            return ("it", v[1]) + tuple(self.fz(st, x, d + 1) if isinstance(x, (tuple, Lin)) else x for x in v[2:])
        return v

    def fz_lin(self, st, e):
        """Lengths of texts that the present facts know better."""
        for v, k in e.t:
            if isinstance(v, tuple) and v[0] in ("nchars", "ccount"):
                x = self.simplify_str(st, v[1])
                if x == EMPTY or all(p[0] == "sl" and st.lin_eq(p[2], p[3]) for p in x[1]):
                    e = e - L(v).scale(k)
                elif x != v[1]:
                    e = e - L(v).scale(k) + L((v[0], x) + v[2:]).scale(k)
        return e

    def proto(self, st, s, d):
        """An element of a symbolic run of elements, for any index."""
        if d > 8 or s[2] is None:
            return ("sym", ("elem", s[1], L(("#idx",))))
        return self.fz(st, self.mk(("elem", s[1], L(("#idx",))), s[2]), d + 1)

    _adts = None

    def adt_ty(self, path):
        if self._adts is None:
            self._adts = {}
            for t in self.T:
                if t["k"] == "adt" and "v" in t:
                    self._adts.setdefault(t["path"], t)
        return self._adts.get(path)

    def refold(self, v, ty):
        """('adt', enum/struct, fields of one symbol) -> that symbol's term, when every field is untouched."""
        term = None
        if not v[3] or ty["path"].startswith("std::ops::Range"):
            return None
        for (n, ft), x in zip(ty["v"][v[2]]["f"], v[3]):
            if n in ty.get("xf", ()):
                continue
            t = self.own_term(x)
            if not (isinstance(t, tuple) and len(t) == 3 and t[0] == "f"):
                return None
            want = n if ty["kind"] != "enum" else ty["v"][v[2]]["n"] + "." + n
            if t[2] != want or (term is not None and t[1] != term):
                return None
            term = t[1]
        return term

    def own_term(self, x):
        if isinstance(x, Lin):
            if x.c == 0 and len(x.t) == 1 and x.t[0][1] == 1:
                return x.t[0][0]
            return None
        if not isinstance(x, tuple):
            return None
        if x[0] == "cond" and x[1] not in (True, False) and x[1][0] == "b":
            return x[1][1]
        if x[0] in ("sym", "chs"):
            return x[1]
        if x[0] == "cow" and x[1] == "?":
            return x[3]
        if x[0] == "str" and len(x[1]) == 1 and x[1][0][0] == "sl" and x[1][0][2] == L(0) and x[1][0][3] == L(("len", x[1][0][1])):
            return x[1][0][1]
        if x[0] == "seq" and len(x[1]) == 1 and x[1][0][0] == "s" and x[1][0][3] == L(0) and x[1][0][4] == L(("len", x[1][0][1])):
            return x[1][0][1]
        if x[0] == "adt":
            ty = self.adt_ty(x[1])
            return self.refold(x, ty) if ty is not None and x[2] < len(ty["v"]) else None
        if x[0] in ("box", "ref") and isinstance(x[1], tuple) and x[1][0] == "*" and (x[0] == "box" or x[2] == ()):
            return x[1][1]
        return None

    def mut_targets(self, st, v, t, out, d=0):
        """Cells reachable through mutable references inside a value of type t."""
        if d > 6 or t is None or not isinstance(v, tuple) or not v:
            return
        ty = self.T[t]
        k = ty["k"]
        if k == "ref":
            if v[0] == "ref":
                if ty["mut"]:
                    out.append((v[1], v[2], ty["e"]))
                else:
                    return
            elif v[0] == "sym":
                if ty["mut"]:
                    a = self.deref(st, v)
                    if a[0] != "val":
                        out.append((a[0], a[1], ty["e"]))
            return
        if k == "adt":
            if v[0] == "sym":
                v = self.expand(st, v)
            if v[0] == "adt" and "v" in ty and v[2] < len(ty["v"]):
                for (n, ft), x in zip(ty["v"][v[2]]["f"], v[3]):
                    self.mut_targets(st, x, ft, out, d + 1)
        elif k == "tuple" and v[0] == "tup":
            for ft, x in zip(ty["f"], v[1]):
                self.mut_targets(st, x, ft, out, d + 1)
        elif k == "closure" and v[0] == "clo":
            for ft, x in zip(ty["f"], v[3]):
                self.mut_targets(st, x, ft, out, d + 1)

    def havoc(self, st, args, tys, T):
        tg = []
        for a, t in zip(args, tys):
            self.mut_targets(st, a, t, tg)
        done = set()
        for n, (cell, path, t) in enumerate(tg):
            if (cell, path) in done:
                continue
            done.add((cell, path))
            # mutable references stored behind this one (a structure holding `&mut`) are reached too
            inner = []
            try:
                cur = self.get(st, self.cell_value(st, cell), path)
            except (Unsupported, KeyError):
                cur = None
            if cur is not None and self.T[t]["k"] == "adt":
                self.mut_targets(st, cur, t, inner, 1)
            if inner and self.T[t]["path"].startswith("sgmlish"):
                for m, (c2, p2, t2) in enumerate(inner):
                    if (c2, p2) not in done:
                        done.add((c2, p2))
                        self.write(st, (c2, p2), self.mk(("post", T, n, m), t2))
                # plain fields of the holder
                fs = []
                tv = self.T[t]["v"][0]["f"]
                for (nm, ft), x in zip(tv, cur[3]):
                    has = []
                    self.mut_targets(st, x, ft, has, 2)
                    fs.append(x if has else self.mk(("post", T, n, nm), ft))
                self.write(st, (cell, path), ("adt", cur[1], cur[2], tuple(fs)))
                continue
            if self.T[t]["k"] in ("param", "alias", "opaque"):
                self.write(st, (cell, path), ("sym", ("post", T, n), t))
                continue
            self.write(st, (cell, path), self.mk(("post", T, n), t))

    def term_outcomes(self, st, p, b, args, site):
        T = self.named(st, p, tuple(self.fz(st, a) for a in args))
        if not st.calls or st.calls[-1] != T:
            st = st.copy()
            st.calls = st.calls + (T,)
        tys = b["locals"][1:b["argc"] + 1]
        rt = site[2] if len(site) > 2 and site[2] is not None else b["locals"][0]
        if self.C.is_parser(b) and isinstance(args[0], tuple) and args[0][0] == "str":
            return self.parser_outcomes(st, T, b, args, rt)
        st = st.copy()
        before = self.stepping(st, p, args, b)
        self.havoc(st, args, tys, T)
        r = self.result(T, rt)
        if before is None or not (isinstance(r, tuple) and r[0] == "sym"):
            return [ret(st, r)]
        known = st.variants.get(r[1])
        outs = []
        for k in (0, 1):
            if known is not None and (known[0] not in (None, k) or k in known[1]):
                continue
            s = st.copy()
            s.variants[r[1]] = (k, frozenset())
            try:
                self.stepped(s, p, before, k == 0)
            except Infeasible:
                continue
            outs.append(ret(s, r))
        return outs

    def stepping(self, st, p, args, b):
        """The deserializer a step works on, as it is before."""
        if p not in STEPS or not args or not isinstance(args[0], tuple) or args[0][0] != "ref":
            return None
        _, cell, path = args[0]
        try:
            v = self.get(st, self.cell_value(st, cell), path)
        except (Unsupported, KeyError):
            return None
        if v[0] != "adt":
            return None
        return cell, path, v

    def stepped(self, st, p, before, ok):
        cell, path, old = before
        new = self.get(st, self.cell_value(st, cell), path)
        ty = self.adt_ty(old[1])
        if new[0] != "adt" or ty is None:
            return
        keep, delta, least = STEPS[p]
        names = [n for n, _ in ty["v"][0]["f"]]
        fs = list(new[3])
        for n in keep:
            if n in names:
                fs[names.index(n)] = old[3][names.index(n)]
        if ok and "stack" in names and "events" in names:
            i, e = names.index("stack"), names.index("events")
            a, z = self.seq_len(old[3][e]), self.seq_len(fs[e])
            if a is not None and z is not None:
                st.assume_ge0(st.norm(a - z - L(least)))
            sk = old[3][i]
            if "stack" not in keep and sk[0] == "seq":
                if delta == 0:
                    fs[i] = sk
                elif sk[1] and sk[1][-1][0] == "v":
                    fs[i] = ("seq", sk[1][:-1])
                elif len(sk[1]) == 1:
                    _, t, et, lo, hi = sk[1][0]
                    st.assume_ge0(st.norm(hi - lo - L(1)))
                    fs[i] = ("seq", (("s", t, et, lo, hi - L(1)),))
                else:
                    a, z = self.seq_len(sk), self.seq_len(fs[i])
                    if a is not None and z is not None:
                        st.assume_ge0(st.norm(a - L(1) - z))
                        st.assume_ge0(st.norm(z - a + L(1)))
        self.write(st, (cell, path), ("adt", new[1], new[2], tuple(fs)))

    @staticmethod
    def seq_len(v):
        if not isinstance(v, tuple) or v[0] != "seq":
            return None
        n = L(0)
        for s in v[1]:
            n = n + (L(1) if s[0] == "v" else s[4] - s[3])
        return n

    def named(self, st, p, args):
        """The name of a call: the one an earlier call with equal arguments (under the present facts) has."""
        T = ("call", p, args)
        if T in st.calls:
            return T
        for U in st.calls:
            if U[0] == "call" and U[1] == p and self.same(st, U[2], args):
                return U
        return T

    def mk(self, term, t):
        v = super().mk(term, t)
        if isinstance(v, tuple) and v[0] == "sym" and term not in self.symty:
            self.symty[term] = (self, self.T[t])
        return v

    def spelled(self, st, term):
        """A symbol of an enum whose variant is known, as that variant with its fields."""
        e = self.symty.get(term)
        if e is None:
            return None
        I, ty = e
        if ty["k"] != "adt" or "v" not in ty:
            return None
        if ty["kind"] == "struct":
            if "fo" in ty or ty["path"].startswith("std::"):
                return None
            return ("adt", ty["path"], ty["v"][0]["n"], tuple((n, I.fz(st, I.mk(("f", term, n), ft))) for n, ft in ty["v"][0]["f"]))
        f = st.variants.get(term)
        if ty["kind"] != "enum" or not f or f[0] is None or f[0] >= len(ty["v"]):
            return None
        v = ty["v"][f[0]]
        return ("adt", ty["path"], v["n"], tuple((n, I.fz(st, I.mk(("f", term, v["n"] + "." + n), ft))) for n, ft in v["f"]))

    def same(self, st, x, y):
        if x == y:
            return True
        if isinstance(x, Lin) and isinstance(y, Lin):
            return st.lin_eq(x, y)
        if not isinstance(x, tuple) or not isinstance(y, tuple) or not x or not y:
            return False
        if x[0] == "str" and y[0] == "str":
            x, y = self.simplify_str(st, x), self.simplify_str(st, y)
            if x == y or st.bools.get(("streq", x, y)) or st.bools.get(("streq", y, x)):
                return True
        if x[0] == "sym" and y[0] in ("sym", "adt") or y[0] == "sym" and x[0] == "adt":
            u = self.spelled(st, x[1]) if x[0] == "sym" else x
            w = self.spelled(st, y[1]) if y[0] == "sym" else y
            if u is not None and w is not None and (u, w) != (x, y) and self.same(st, u, w):
                return True
        if len(x) != len(y) or isinstance(x[0], str) and x[0] != y[0]:
            return False
        return all(self.same(st, a, b) for a, b in zip(x, y))

    def result(self, T, rt):
        return self.mk(T, rt)

    def parser_outcomes(self, st, T, b, args, rt):
        outs = []
        known = st.variants.get(("pk", T))
        ty = self.T[rt]
        okt, errt = ty["args"][0], ty["args"][1]
        et = self.T[errt]["args"][0]
        outt = self.T[okt]["f"][1]
        s0 = args[0]
        p = T[1]
        for k, name in ((0, "ok"), (1, "error"), (2, "failure")):
            if known is not None and known[0] is not None and known[0] != k:
                continue
            if k == 1 and p in NEVER_ERROR or k == 2 and p in NEVER_FAIL:
                continue
            for s, pos in self.beginning(st, p, s0, k):
                s = s.copy()
                s.variants[("pk", T)] = (k, frozenset())
                if k == 0:
                    out = None
                    if len(s0[1]) == 1 and s0[1][0][0] == "sl":
                        _, base, lo, hi = s0[1][0]
                        hi = s.norm(hi)
                        end = L(("after", T, base, hi, s.norm(lo)))
                        rest = ("str", (("sl", base, end, hi),))
                        if pos is not None:
                            try:
                                s.assume_ge0(end - pos)
                            except Infeasible:
                                continue
                        if p in CONSUMED:
                            out = ("str", (("sl", base, s.norm(lo), s.norm(end)),))
                    elif not s0[1]:
                        rest = ("str", ())
                        if p in CONSUMED:
                            out = EMPTY
                    else:
                        rest = whole(("rest", T))
                    v = ("adt", RES, 0, (("tup", (rest, self.mk(("out", T), outt) if out is None else out)),))
                else:
                    v = ("adt", RES, 1, (("adt", "nom::Err", k, (self.mk(("perr*", T), et),)),))
                outs.append(ret(s, v))
        return outs

    def beginning(self, st, p, v, k):
        """States in which the text begins as the answer of the parser says: [(state, position after what is known)]."""
        seqs = STARTS.get(p)
        if seqs is None:
            return [(st, None)]
        simple = len(v[1]) == 1 and v[1][0][0] == "sl"
        if k == 1:
            if p not in SURE or not simple:
                return [(st, None)]
            _, base, lo, hi = v[1][0]
            s = st.copy()
            try:
                for seq in seqs:
                    s.not_begins(base, s.norm(hi), s.norm(lo), seq)
            except Infeasible:
                return []
            return [(s, None)]
        out = []
        for seq in seqs:
            cur = [(st, v)]
            for cc in seq:
                cur = [(s2, r) for s, w in cur for s2, b, r in self.first_is(s, w, cc) if b]
            for s, w in cur:
                if p in NOT_STARTS and simple:
                    _, base, lo, hi = v[1][0]
                    s = s.copy()
                    try:
                        for seq2 in NOT_STARTS[p]:
                            s.not_begins(base, s.norm(hi), s.norm(lo), seq2)
                    except Infeasible:
                        continue
                pos = w[1][0][2] if len(w[1]) == 1 and w[1][0][0] == "sl" else None
                out.append((s, pos))
        return out

    # ------------------------------------------------------------------ the caller's code
    PURE = re.compile(r"^(std::convert::(AsRef::as_ref|Into::into|From::from)|std::ops::Deref::deref|std::borrow::|std::clone::Clone::clone|std::cmp::|"
                      r"std::iter::IntoIterator::into_iter|std::string::ToString|serde::de::IntoDeserializer::into_deserializer|std::default::Default::default|std::error::Error)")

    LIB = re.compile(r"RcEqIdent::eq$|ExactSizeIterator::len$")

    def unknown_call(self, st, f, args, site):
        t = site[2] if len(site) > 2 else None
        if t is None:
            return None
        p = f["path"]
        if p == "std::default::Default::default":
            v = self.zero(t)
            if v is not None:
                return [ret(st, v)]
        if p == "std::iter::IntoIterator::into_iter" and args and isinstance(args[0], tuple) and args[0][0] == "sym":
            # an iterable of the caller's is known by what it yields
            return [ret(st, ("sym", args[0][1], t))]
        if self.PURE.match(p):
            T = ("pure", p, tuple(self.fz(st, a) for a in args))
            return [ret(st, self.mk(T, t))]
        if f.get("trait") is None and not f.get("generic"):
            tr = None
        if not self.user_call(f):
            return None
        if p.startswith("std::") and not self.opaque_self(st, args):
            # the library's own code on a value at hand, not the caller's: a term without reading
            if self.LIB.search(p):
                return [ret(st, self.mk(("pure", p, tuple(self.fz(st, a) for a in args)), t))]
            return None
        st = st.copy()
        n = sum(1 for e in st.trace if e[0] in ("ucall", "call"))
        T = ("ucall", p, n, tuple(self.fz(st, a) for a in args))
        for U in st.calls:
            if U[0] == "ucall" and U[1:3] == T[1:3] and self.same(st, U[3], T[3]):
                T = U
                break
        else:
            st.calls = st.calls + (T,)
        st.emit("ucall", p, T)
        tys = site[3] if len(site) > 3 else [None] * len(args)
        self.havoc(st, args, tys, T)
        return [ret(st, self.mk(T, t))]

    def opaque_self(self, st, args):
        x = self.fz(st, args[0]) if args else None
        return isinstance(x, tuple) and bool(x) and x[0] in ("sym", "dangling", "clo", "dynf")

    def zero(self, t):
        """The default of a primitive type."""
        ty = self.T[t]
        s = erase(ty["s"])
        if s == "bool":
            return False
        if s in ("usize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "isize"):
            return L(0)
        if s == "()":
            return UNIT
        if s in ("&str", "std::string::String") or (s.startswith("&") and s.endswith(" str")):
            return EMPTY
        if ty["k"] == "adt" and ty["path"] == "std::option::Option":
            return ("adt", ty["path"], 0, ())
        if ty["k"] == "adt" and ty["path"] == "std::vec::Vec":
            return ("seq", ())
        return None

    def user_call(self, f):
        return f["path"].startswith(("serde::", "serde_core::", "std::iter::Iterator::", "std::fmt::")) or f.get("trait") is not None
