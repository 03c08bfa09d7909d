"""Schema reader: every unit of xsd-parser/src/parser compared with its reference function (spec/src/parser.rs).

A unit is one reader (a tag dispatched by parse_node, or a helper).  Both sides are summarised over the same
symbolic node and the two entity terms compared; a difference is attributed to properties by the part of the
entity model in which it lies."""
import cmp
from core import *
from spec import tag, ins
from report import Report, loc

SP = "xsd_spec::parser::"
PM = "xsd_parser::parser::"

# tag -> reference function
TAGS = {"element": "element", "attribute": "attribute", "anyAttribute": "any_attribute", "any": "any_element",
        "attributeGroup": "attribute_group", "sequence": "group_content", "all": "group_content", "choice": "choice",
        "complexType": "complex_type", "complexContent": "content", "simpleContent": "content",
        "extension": "derivation", "restriction": "derivation", "simpleType": "simple_type", "list": "list",
        "union": "union", "import": "import", "include": "import"}
# helper -> (name, self type or module, reference function)
HELPERS = {"classify": ("xsd_type", None, "classify"),
           "enclosing_name": ("get_parent_name", None, "enclosing_name"),
           "set_name": ("set_name", "RsEntity", "set_name"),
           "set_comment": ("set_comment", "RsEntity", "set_comment"),
           "name": ("name", "RsEntity", "name"),
           "schema": ("parse_schema", None, "schema"),
           "structs": ("structs", "RsEntity", "structs_spec"),
           "types_map": ("get_types_map", "Struct", "types_map_spec"),
           "extend_base": ("extend_base", "Struct", "extend_base_spec"),
           "extend_attribute_group": ("extend_attribute_group", "Struct", "extend_attribute_group_spec"),
           "parse": ("parse", None, "parse")}

WORDS = {
    "C10": "every schema tag reaches the reader of its kind and yields that kind of entity",
    "C11": "cardinality markers of elements, choice cases and groups as a function of minOccurs/maxOccurs",
    "C12": "attributes: required, optional or left out; name and type from name/type/ref",
    "C13": "members of a type: one entry per declaration, in document order",
    "C14": "base placeholders are created, resolved and removed; own fields kept",
    "C15": "attribute-group references are recorded and replaced by the group's attributes",
    "C16": "each facet is read with its own value",
    "C17": "documentation of the declaration itself is stored with its entity",
    "C18": "names and referenced types copied from the declaration's attributes",
    "C19": "field source marker: attribute, element or choice",
    "C39": "an XML error is returned, not raised",
}

_cache = {}


def find(prog, name, owner):
    r = []
    for f in prog.fns.values():
        if f.id.split("::")[-1] != name or f.kind == "closure" or not f.id.startswith(PM):
            continue
        o = f.impl_self.n.split("::")[-1] if f.impl_self is not None and f.impl_self.k == "adt" else None
        if o == owner or (owner is None and (o is None or not f.impl_self.id.startswith("xsd_parser"))):
            r.append(f)
    return r[0] if len(r) == 1 else None


def anchors(ctx):
    pn = ctx.prog.fns.get(PM + "node_parser::parse_node") or find(ctx.prog, "parse_node", None)
    hs = {k: find(ctx.prog, n, o) for k, (n, o, _) in HELPERS.items()}
    return pn, hs


def aliases(ctx, pn, hs):
    gone = lambda f, n: f.id if f is not None else "xsd_parser::gone::" + n
    return {SP + "parse_node": gone(pn, "parse_node"), SP + "enclosing_name": gone(hs["enclosing_name"], "enclosing_name"),
            SP + "extend_base": gone(hs["extend_base"], "extend_base"),
            SP + "extend_attribute_group": gone(hs["extend_attribute_group"], "extend_attribute_group"),
            SP + "structs": gone(hs["structs"], "structs"), SP + "types_map": gone(hs["types_map"], "types_map"),
            SP + "read_schema": gone(hs["schema"], "parse_schema")}


def units(ctx):
    """[(unit, Result or reason)] — all of them take about two seconds, and every parser property shares them"""
    if ctx in _cache:
        return _cache[ctx]
    pn, hs = anchors(ctx)
    al = aliases(ctx, pn, hs)
    out = []
    for t, s in TAGS.items():
        want = ctx.prog.fns.get(SP + s)
        if pn is None or want is None:
            out.append((t, "the reader dispatcher or the reference function is missing"))
            continue
        out.append((t, cmp.compare(ctx, pn, want, facts=lambda n, q, t=t: [ins(tag(n), t)], cuts={pn.id},
                                   alias={SP + "parse_node": pn.id, SP + "enclosing_name": al[SP + "enclosing_name"]},
                                   cover=True)))
    for k, (n, o, s) in HELPERS.items():
        want = ctx.prog.fns.get(SP + s)
        if hs[k] is None or want is None:
            out.append((k, f"no single function {n} to compare, or the reference function is missing"))
            continue
        out.append((k, cmp.compare(ctx, hs[k], want, alias={a: b for a, b in al.items()}, cover=True)))
    _cache[ctx] = out
    return out


EL, AT = {"element", "sequence", "all", "choice"}, {"attribute", "anyAttribute", "any"}


def modifier_of(u):
    if u in EL:
        return {"C11"}
    if u in AT:
        return {"C12"}
    if u in ("list", "union"):
        return {"C13"}
    return {"C11"}


def owners(u, names, d):
    """properties a difference belongs to"""
    if u == "classify":
        r = {"C10"}
        if any("Facet" in n or "facet" in n for n in names):
            r.add("C16")
        return r
    if u in ("enclosing_name", "name", "set_name"):
        return {"C18"}
    if u == "set_comment":
        return {"C17"}
    if u == "schema":
        last = next((n.split(".")[-1] for n in reversed(names) if n.startswith("RsFile.")), None)
        return {"types": {"C13"}, "attribute_groups": {"C15"}, "target_ns": {"C25", "C31", "C19"}, "xsd_ns": {"C20"},
                "namespace": {"C25"}, "name": {"C18"}}.get(last, {"C13", "C15"})
    if u in ("extend_base", "structs", "types_map"):
        return {"C14", "C15"} if u != "extend_base" else {"C14"}
    if u == "extend_attribute_group":
        return {"C15"}
    if u == "parse":
        if d is not None and not any(isinstance(x, T) and (x.op in ("adt", "never") or x.ty is not None and x.ty.k == "adt")
                                     for x in (d[1], d[2])):
            return {"C14", "C15"}
        return {"C39", "C14", "C15"}
    for n in reversed(names):
        owner, _, f = n.partition(".")
        if f == "comment":
            return {"C17"}
        if f == "type_modifiers":
            return modifier_of(u)
        if f == "source":
            return {"C19"}
        if f in ("name", "type_name", "original", "location"):
            r = {"C18"}
            if u == "attribute":
                r.add("C12")
            if u in ("extension", "restriction", "complexContent", "simpleContent"):
                r.add("C14")
            if u == "attributeGroup":
                r.add("C15")
            return r
        if f == "value" and owner == "EnumCase":
            return {"C18", "C13"}
        if f == "attribute_groups":
            return {"C15"}
        if f in ("facets", "facet_type") or owner == "FacetType":
            return {"C16"}
        if f in ("fields", "cases", "subtypes", "types"):
            r = {"C13"}
            if u == "attributeGroup":
                r.add("C15")
            if u in ("extension", "restriction") and f == "fields":
                r.add("C14")
            if u in ("complexType",) and f == "fields":
                r.add("C12")
            return r
    return {"C10", "C13"} | {"attribute": {"C12"}, "attributeGroup": {"C15"}, "extension": {"C14"},
                             "restriction": {"C16"}}.get(u, set())


def uncovered_owners(u):
    if u in HELPERS:
        return owners(u, [], None)
    return {"C10", "C13"} | {"attribute": {"C12"}, "attributeGroup": {"C15"}, "extension": {"C14"}, "element": {"C11"},
                             "restriction": {"C14", "C16"}}.get(u, set())


# which units carry obligations of which property
PARTS = {
    "C10": set(TAGS) | {"classify"}, "C11": EL, "C12": {"attribute", "anyAttribute", "complexType", "any"},
    "C13": set(TAGS) | {"schema"}, "C14": {"extension", "restriction", "extend_base", "structs", "types_map", "parse"},
    "C15": {"attributeGroup", "complexType", "extension", "restriction", "extend_attribute_group", "structs", "types_map",
            "parse", "schema"},
    "C16": {"restriction", "simpleType", "classify"}, "C17": set(TAGS) | {"set_comment"},
    "C18": set(TAGS) | {"enclosing_name", "name", "set_name"}, "C19": set(TAGS) - {"import", "include"}, "C39": {"parse"},
    "C20": {"schema"}, "C25": {"schema"}, "C31": {"schema"},
}


def indirect(d):
    """the comparison stopped at a call of the dispatcher against a spelled-out entity: not a decided difference"""
    a, b = d[1], d[2]
    for x, y in ((a, b), (b, a)):
        if isinstance(x, T) and isinstance(y, T) and x.op == "app" and str(x.a[0]).endswith("parse_node") and \
                not (y.op == "app" and str(y.a[0]).endswith("parse_node")):
            return True
    return False


def add(rep, ctx, pid):
    """obligations of pid over the parser units"""
    for u, r in units(ctx):
        if u not in PARTS.get(pid, ()):
            continue
        rep.count("parser_units")
        if isinstance(r, str):
            rep.count("undecided_units")
            rep.notes.append(f"{u}: not decided: {r}")
            continue
        if r.undecided:
            rep.count("undecided_units")
            rep.notes.append(f"{u}: not decided: {r.undecided}")
            continue
        rep.count("rows_compared", r.rows)
        n = 0
        for d in r.diffs:
            names = cmp.pathname(ctx.prog, d[4])
            if pid not in owners(u, names, d):
                continue
            if indirect(d):
                rep.notes.append(f"{u}: {'.'.join(names)}: not decided: reader called directly")
                continue
            n += 1
            rep.fail(f"{u}:{'/'.join(names) or 'value'}", cmp.text(d), r.where)
        for d in r.unknown:
            names = cmp.pathname(ctx.prog, d[4])
            if pid in owners(u, names, d):
                rep.count("undecided_parts")
                rep.notes.append(f"{u}: {'.'.join(names)}: not decided (operation without a model): {cmp.text(d)[:300]}")
        if r.uncovered and pid in uncovered_owners(u):
            un = cmp.unknown_facts(r, r.uncovered[0][0])
            if not un:
                n += 1
                s, x = r.uncovered[0]
                rep.fail(f"{u}:not-handled", f"a panic or no result is reached when {show_facts(s)}; required is {show(x, 5)[:300]}",
                         r.where)
        if not n:
            rep.ob(f"{u}", True, "", r.where)


# stronger references the reader is known not to meet: one obligation each, listed in known_findings.json
EXTRA = {"C13": ("choice", "choice_members", "choice:members", "a member of a choice that is not an element yields no case"),
         "C15": ("attributeGroup", "nested_attribute_groups", "attributeGroup:nested",
                 "a global attribute group forgets the groups it refers to")}


def extra(rep, ctx, pid):
    if pid not in EXTRA:
        return
    t, s, key, what = EXTRA[pid]
    pn, hs = anchors(ctx)
    want = ctx.prog.fns.get(SP + s)
    if pn is None or want is None:
        return
    al = aliases(ctx, pn, hs)
    r = cmp.compare(ctx, pn, want, facts=lambda n, q: [ins(tag(n), t)], cuts={pn.id},
                    alias={SP + "parse_node": pn.id, SP + "enclosing_name": al[SP + "enclosing_name"]})
    if r.undecided:
        rep.notes.append(f"{key}: not decided: {r.undecided}")
        return
    rep.ob(key, not r.diffs, what + (": " + cmp.text(r.diffs[0]) if r.diffs else ""), r.where)


def show_facts(s):
    from dom import show_guard
    return show_guard(frozenset(s.f.items()))[:700]


ASSUME = ["roxmltree presents a document as its node tree (children, attributes, text) and is itself right",
          "operations of core/alloc/std behave as in models.py; an operation without a model leaves the part undecided and silent"]


def rule(pid):
    def f(ctx):
        rep = Report(pid, "agreement with a reference function over all inputs: the resolved MIR of each reader and of its "
                     "reference in spec/src/parser.rs is summarised by abstract interpretation into gated terms over the "
                     "same symbolic XML node; the terms must agree in every part this property owns. Part: " + WORDS[pid] + ".")
        add(rep, ctx, pid)
        extra(rep, ctx, pid)
        rep.assumptions += ASSUME
        return rep
    return f


for _p in WORDS:
    globals()[_p] = rule(_p)
