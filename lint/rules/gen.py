"""Schema generators: every method of the default generators compared with its reference (spec/src/gen.rs).

A unit is one method of a generator trait, seen with Self = the default generator.  The methods of the generator
traits are the interface: both sides are summarised with all other trait methods left as calls, so a unit is about
what this method does with what the others give.  A difference is looked at again with the methods of the same
generator inlined, and then with everything inlined; only what is left after that is a difference of the text."""
import re

import cmp, spec
from core import *
from dom import *
from rules import parser
from rules.parser import show_facts
from report import Report

SP = "xsd_spec::gen::"
GN = "xsd_parser::generator::"
TRAITS = {"StructFieldGenerator": "field", "StructGenerator": "struct", "EnumGenerator": "enum",
          "EnumCaseGenerator": "case", "TupleStructGenerator": "tuple", "AliasGenerator": "alias",
          "ImportGenerator": "import", "BaseGenerator": "base"}
FREE = {"generate_rs_file": "file", "generate": "dispatch", "base": "base", "struct_field_gen": "struct_field_gen",
        "enum_case_gen": "enum_case_gen"}

# (generator, method) -> properties its own text belongs to
def _own(g, m):
    if g == "base":
        return {"indent": {"C27", "C28"}, "indent_size": {"C27", "C28"}, "format_type_name": {"C20", "C21"},
                "format_name": {"C21"}, "mod_name": {"C21"}, "modify_type": {"C23"}, "format_comment": {"C28"},
                "join_subtypes": {"C27"}}.get(m, {"C27"})
    if m == "format_comment":
        return {"C17", "C28"}
    if m == "macros":
        return {"field": {"C19"}, "case": {"C22"}}.get(g, {"C31"})
    if m in ("get_name", "mod_name", "format_name"):
        return {"C21"} | ({"C22"} if g == "case" else set())
    if m == "format_original_type":
        return {"C21", "C20"}
    if m == "get_type_name":
        return {"C21"} if g == "struct" else {"C20"} if g == "enum" else {"C23", "C20"}
    if m == "validation":
        return {"C31", "C27"} | ({"C16"} if g == "tuple" else set())
    return {"C27"}


_cache = {}


def tail(i):
    return i.split("::")[-2:]


class Gens:
    def __init__(self, ctx):
        p = ctx.prog
        self.meth, self.selfty, self.all = {}, {}, {}
        for t, g in TRAITS.items():
            ids = [x for x in p.impl_ix if x.split("::")[-1] == t and x.startswith(GN)]
            if len(ids) != 1 or len(p.impl_ix[ids[0]]) != 1:
                continue
            ty, ms = p.impl_ix[ids[0]][0]
            self.selfty[g] = ty
            names = {f.id.split("::")[-1] for f in p.fns.values()
                     if f.id.startswith(ids[0] + "::") and f.kind != "closure" and f.id.count("::") == ids[0].count("::") + 1}
            names |= set(ms)
            self.all[g] = set()
            for m in names:
                f = p.fns.get(ms.get(m)) or p.fns.get(ids[0] + "::" + m)
                if f is not None:
                    self.meth[g, m] = f
                    self.all[g] |= {f.id, ids[0] + "::" + m}
        self.free = {}
        for n in FREE:
            c = [f for f in p.fns.values() if f.kind != "closure" and f.id.startswith(GN) and f.id.split("::")[-1] == n
                 and f.impl_self is not None and f.impl_self.k == "adt" and f.impl_self.id.split("::")[-1] == "Generator"]
            if len(c) == 1:
                self.free[n] = c[0]


def set_generators(prog, gen):
    """facts: every generator is installed (the builder's result)"""
    t = gen
    if t.op == "ptr":
        t = typed(mk("sym", t.a[0][2], _gen_ty(prog).s), _gen_ty(prog))
    out = []
    rec = prog.adts.get(_gen_ty(prog).id)
    for i, ft in enumerate(rec["ft"][0]):
        if ft is not None and ft.k == "adt" and ft.id.endswith("option::Option"):
            out.append(spec.isv(project(t, 0, i, ft), 1))
    return out


def _gen_ty(prog):
    for f in prog.fns.values():
        if f.impl_self is not None and f.impl_self.k == "adt" and f.impl_self.id.startswith(GN) and \
                f.impl_self.id.split("::")[-1] == "Generator":
            return f.impl_self
    raise KeyError("Generator")


def facts(ctx):
    def f(*av):
        for x in av:
            if x.op == "ptr" and len(x.a[0]) > 2 and x.a[0][2] == "gen":
                return set_generators(ctx.prog, x)
        return []
    return f


def passes(g, G):
    """what is left as calls: every other method; the other generators' methods; nothing but the recursion"""
    rec = {G.free["generate"].id} if "generate" in G.free else set()
    others = set().union(*[v for k, v in G.all.items() if k != g]) if G.all else set()
    mine = G.all.get(g, set())
    return rec, others, mine


def one(ctx, G, g, m, code, want, limit=30):
    """(result, attribution terms, verdict) of a unit; verdict: ok, custom (only visible to custom generators), bad"""
    rec, others, mine = passes(g, G)
    sub = (("Self", G.selfty[g]),) if g in G.selfty else ()
    k = dict(facts=facts(ctx), sub=sub, limit=limit, cover=True)
    me = {code.id}
    r0 = cmp.compare(ctx, code, want, cuts=(rec | others | mine) - me, **k)
    if not bad(r0) and not r0.undecided:
        return r0, r0, "ok"
    r1 = cmp.compare(ctx, code, want, cuts=(rec | others) - me, **k)
    if not bad(r1) and not r1.undecided:
        return r1, r0, "ok"
    r2 = cmp.compare(ctx, code, want, cuts=rec - me, **k)
    if r2.undecided:
        return r1, r0, "open" if bad(r1) and not r1.undecided else "ok"
    if not bad(r2):
        return r2, r0, "custom" if bad(r1) else "ok"
    return r2, r0, "bad"


def settle(out, G):
    """a unit that differs while everything inlined is out of reach: when the methods it calls are each as required,
    the difference is its own"""
    same = {(g, m) for g, m, u in out if not isinstance(u, str) and not u[1].undecided and not bad(u[1])}
    for i, (g, m, u) in enumerate(out):
        if isinstance(u, str) or u[2] != "open":
            continue
        called = set()
        for d in u[0].diffs:
            for x in (d[1], d[2]):
                called |= calls(x, G)
            for t in d[0].f:
                called |= calls(t, G)
        out[i] = (g, m, (u[0], u[1], "bad" if called <= same and u[0].diffs else "ok"))


def bad(r):
    return bool(r.diffs) or bool(r.uncovered and not cmp.unknown_facts(r, r.uncovered[0][0]))


def calls(t, G):
    """trait methods whose results a term is made of"""
    ids = {i: (g, i.split("::")[-1]) for g, v in G.all.items() for i in v}
    return {ids[x.a[0]] for x in subterms(t) if x.op == "app" and x.a[0] in ids} if isinstance(t, T) else set()


def units(ctx):
    if ctx in _cache:
        return _cache[ctx]
    G = Gens(ctx)
    out = []
    p = ctx.prog
    wants = {f.id[len(SP):]: f for f in p.fns.values() if f.id.startswith(SP) and f.kind != "closure"}
    for n, w in sorted(wants.items()):
        g, _, m = n.partition("_")
        if (g, m) in G.meth:
            out.append((g, m, one(ctx, G, g, m, G.meth[g, m], w)))
        elif g in TRAITS.values() and m and "::" not in n and n not in FREE.values() and (w.locals[1].k == "ref"
                and w.locals[1].a[0].id if w.argc and w.locals[1].k == "ref" and w.locals[1].a[0].k == "adt" else "").startswith(GN + {"field": "struct_field", "case": "enum_case", "tuple": "tuple_struct"}.get(g, g)):
            out.append((g, m, f"no method {m} to compare"))
    for n, s in FREE.items():
        w = wants.get(s)
        f = G.free.get(n)
        if w is None or f is None:
            out.append(("free", n, "the function or its reference is missing"))
            continue
        cuts = set().union(*G.all.values()) | ({G.free["generate"].id} if "generate" in G.free else set())
        r = cmp.compare(ctx, f, w, facts=facts(ctx), cuts=cuts - {f.id}, cover=True)
        out.append(("free", n, (r, r, "bad" if bad(r) else "ok")))
    settle(out, G)
    _cache[ctx] = out
    return out


def owners(ctx, G, g, m, r, r0, d):
    """properties a difference belongs to"""
    if g == "free":
        return {"generate_rs_file": {"C25"}, "generate": {"C26"}}.get(m, {"C26"})
    own = _own(g, m)
    pieces = set()
    for x in r0.diffs:
        a, b = calls(x[1], G), calls(x[2], G)
        pieces |= a ^ b
    ps = set()
    for q in pieces:
        ps |= _own(*q)
    if m in ("generate", "fields", "cases", "subtypes"):
        return own | ps
    return own | (ps & {"C20", "C23"})


def model_writes(rep, ctx):
    """C24: what the generators are given is the same afterwards"""
    for g, m, u in units(ctx):
        name = f"{g}.{m}"
        if isinstance(u, str) or u[1].undecided:
            rep.count("undecided_units")
            rep.notes.append(f"{name}: not decided: {u if isinstance(u, str) else u[1].undecided}")
            continue
        rep.count("generator_units")
        rep.count("rows", u[1].rows)
        w = sorted(c[2] for r in u[:2] for c in r.wrote if len(c) > 2 and c[2] not in ("gen", "self", "this") and c[0] == "arg")
        rep.ob(f"{name}:argument-unchanged", not w, f"after the call {', '.join(dict.fromkeys(w))} differs from what was given",
               u[1].where)


def dyn_of(t):
    """trait of a (boxed, optional) trait object type"""
    m = DYN.search(t.s) if t is not None and t.k == "adt" else None
    return m.group(1).split("::")[-1] if m else None


DYN = re.compile(r"\(?dyn ([\w:#]+)")


def inner(p, x, gid):
    """the Generator inside a builder value"""
    for _ in range(3):
        if x.op == "adt" and x.a[0] == gid:
            return x
        if x.op == "adt":
            nx = [y for y in x.a[2:] if y.op == "adt" and y.a[0] == gid or y.ty is not None and y.ty.k == "adt" and y.ty.id == gid]
            if len(nx) != 1:
                return None
            x = nx[0]
            continue
        if x.ty is None or x.ty.k != "adt":
            return None
        if x.ty.id == gid:
            return x
        rec = p.adts.get(x.ty.id)
        ix = [i for i, ft in enumerate(rec["ft"][0]) if ft is not None and ft.k == "adt" and ft.id == gid] if rec else []
        if len(ix) != 1:
            return None
        x = project(x, 0, ix[0], rec["ft"][0][ix[0]])
    return None


def builder(rep, ctx):
    """C26: a registration sets the one field of its kind; building fills only what is unset, with that kind's default"""
    p = ctx.prog
    G = Gens(ctx)
    gt = _gen_ty(p)
    rec = p.adts[gt.id]
    fts = rec["ft"][0]
    kinds = {i: dyn_of(ft) for i, ft in enumerate(fts) if dyn_of(ft)}
    name = lambda i: rec["v"][0]["f"][i]
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if f.kind == "closure" or f.impl_self is None or f.impl_self.k != "adt" or not f.impl_self.id.startswith(GN) or \
                f.impl_self.id == gt.id or not f.argc or f.locals[1].k != "adt" or f.locals[1].id != f.impl_self.id:
            continue
        ret = f.locals[0]
        given = [(i, dyn_of(f.locals[i + 1])) for i in range(f.argc) if dyn_of(f.locals[i + 1])]
        reg = len(given) == 1 and ret.k == "adt" and ret.id == f.impl_self.id
        fin = not given and ret.k == "adt" and ret.id == gt.id
        if not (reg or fin):
            continue
        short = f.id.split("::")[-1]
        where = f"{f.file}:{f.line} ({f.id})"
        v, args, E = run(rep, ctx, f, short)
        if v is None:
            continue
        old = inner(p, args[0], gt.id)
        rows = [(g, inner(p, x, gt.id)) for g, x in case_rows(v)]
        if old is None or any(x is None for _, x in rows):
            rep.count("undecided_units")
            rep.notes.append(f"{short}: not decided: the generator under construction is not followed")
            continue
        if reg:
            ix = [i for i, t in kinds.items() if t == given[0][1]]
            arg = args[given[0][0]]
            rep.count("registrations")
            if len(ix) != 1:
                rep.notes.append(f"{short}: not decided: {len(ix)} fields hold a {given[0][1]}")
                continue
            why = ""
            for g, new in rows:
                for i in range(len(fts)):
                    a, b = project(new, 0, i, fts[i]), project(old, 0, i, fts[i])
                    if i == ix[0]:
                        if not (a.op == "adt" and a.a[1] == 1 and a.a[2] is arg):
                            why = f"{name(i)} becomes {show(a, 4)[:120]}, not the generator that was given"
                    elif a is not b and i in kinds:
                        why = f"{name(i)} changes too: {show(a, 4)[:120]}"
            rep.ob(f"builder.{short}", not why, why, where)
        else:
            for i, tr in sorted(kinds.items()):
                was = project(old, 0, i, fts[i])
                g_ = TRAITS.get(tr)
                rep.count("defaults")
                if g_ not in G.selfty:
                    rep.notes.append(f"{short}.{name(i)}: not decided: no single implementation of {tr}")
                    continue
                impl, why = G.selfty[g_], ""
                for k in (0, 1):
                    st = cmp.eng.St().assume(was, ("V", frozenset([k]), 2))
                    for g, new in rows:
                        s = st.assume_g(g)
                        if s is None:
                            continue
                        x = project(new, 0, i, fts[i])
                        for s2, y, n in E.variant_split(s, x, fts[i]):
                            pay = y.a[2] if y.op == "adt" and len(y.a) > 2 else None
                            if k == 0 and (n == 0 or pay is None or pay is project(was, 1, 0, None)):
                                why = f"{name(i)} stays unset when nothing was registered"
                            elif k == 0 and not (pay.op == "adt" and impl.k == "adt" and pay.a[0] == impl.id):
                                why = f"{name(i)} becomes {show(pay, 4)[:100]} when nothing was registered, not {impl.s}"
                            elif k == 1 and not (y is was or pay is project(was, 1, 0, None) or
                                                 pay is not None and pay.op == "fld" and pay.a == (was, 1, 0)):
                                why = f"a registered {name(i)} is replaced by {show(y, 4)[:100]}"
                rep.ob(f"builder.{short}.{name(i)}", not why, why, where)


def run(rep, ctx, f, short):
    E = cmp.eng.Engine(ctx.prog, ctx.cg, cuts=set())
    try:
        with cmp.time_limit(30):
            v, rs, args = spec.summarize(E, f, cmp.eng.St())
        if v.op == "never":
            raise cmp.eng.Undecided("no result")
        return v, args, E
    except Exception as e:
        rep.count("undecided_units")
        rep.notes.append(f"{short}: not decided: {type(e).__name__} {e}")
        return None, None, None


def add(rep, ctx, pid):
    G = Gens(ctx)
    for g, m, u in units(ctx):
        name = f"{g}.{m}"
        mine = {"generate_rs_file": {"C25"}}.get(m, {"C26"}) if g == "free" else _own(g, m) | {"C26"}
        if isinstance(u, str):
            if pid in mine:
                rep.count("undecided_units")
                rep.notes.append(f"{name}: not decided: {u}")
            continue
        r, r0, verdict = u
        if r.undecided:
            if pid in mine:
                rep.count("undecided_units")
                rep.notes.append(f"{name}: not decided: {r.undecided}")
            continue
        if verdict == "bad":
            ds = r.diffs
            n = 0
            for d in ds:
                if pid in owners(ctx, G, g, m, r, r0, d):
                    rep.fail(name, cmp.text(d), r.where)
                    n += 1
                    break
            if not ds and r.uncovered and pid in mine - {"C26"} | ({"C26"} if g == "free" else set()):
                s, x = r.uncovered[0]
                rep.fail(f"{name}:not-handled", f"a panic or no result is reached when {show_facts(s)}; required is "
                         f"{show(x, 5)[:300]}", r.where)
                n += 1
            if not n and pid in mine:
                rep.ob(name, True, "", r.where)
        elif verdict == "custom":
            if pid == "C26":
                d = r0.diffs[0] if r0.diffs else None
                rep.fail(name, "a generator installed by the user is passed over: " + (cmp.text(d) if d else ""), r.where)
            elif pid in mine:
                rep.ob(name, True, "", r.where)
        elif pid in mine:
            rep.count("generator_units")
            rep.count("rows_compared", r.rows)
            rep.ob(name, True, "", r.where)
            for d in r.unknown[:1]:
                rep.count("undecided_parts")
                rep.notes.append(f"{name}: not decided (operation without a model or unrelated loop): {cmp.text(d)[:300]}")


WORDS = {
    "C16": "validation: one check per facet, with its comparison and its value",
    "C17": "every entity is written together with its own documentation",
    "C19": "serialisation markers of fields",
    "C20": "built-in types",
    "C21": "identifiers and type paths",
    "C22": "rename markers of enum cases",
    "C23": "cardinality markers in types",
    "C24": "the model is the same after generation",
    "C25": "the namespaces of the file are installed before its types are written, each once and in order",
    "C26": "dispatch to the registered generators; builder",
    "C27": "completeness and order of the text of an entity",
    "C28": "documentation text stays in comments",
    "C31": "namespace annotation, derives, defaults and validation of generated types",
}
ASSUME = ["operations of core/alloc/std behave as in models.py; an operation without a model leaves the part undecided and silent",
          "Inflector's case conversions are functions of their argument; counters of text length do not overflow"]


def rule(pid):
    def f(ctx):
        rep = Report(pid, "agreement with a reference function over all inputs: the resolved MIR of each method of the default "
                     "generators and of its reference in spec/src/gen.rs is summarised by abstract interpretation into gated "
                     "text terms over the same symbolic entity and generator; the terms must agree for every entity. Part: " +
                     WORDS[pid] + ".")
        if pid == "C24":
            model_writes(rep, ctx)
        else:
            add(rep, ctx, pid)
        if pid == "C26":
            builder(rep, ctx)
        if pid == "C28":
            from rules import wsdl
            wsdl.add(rep, ctx, pid)
        if pid in parser.PARTS:
            parser.add(rep, ctx, pid)
            rep.assumptions += parser.ASSUME[:1]
        rep.assumptions += ASSUME
        return rep
    return f


for _p in WORDS:
    globals()[_p] = rule(_p)
