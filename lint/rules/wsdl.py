"""Service descriptions: the reader and generator of wsdl-parser compared with the reference functions of
spec_wsdl/.  What the reader keeps is looked at through its public accessors."""
import cmp
from core import *
from dom import *
from report import Report, loc

SP = "wsdl_spec::"
WP = "wsdl_parser::"
XG = "xsd_parser::generator::"

# unit -> properties; the views wsdl_spec::code_* and wsdl_spec::want_*
VIEWS = {"kind": {"C35"}, "operation_kind": {"C35"}, "operation": {"C34"}, "part": {"C34"}, "part_name": {"C34"},
         "message": {"C34"}, "port_type": {"C34"}, "import": {"C34"}, "imports": {"C34"}, "messages": {"C34"},
         "port_types": {"C34"}, "types": {"C34"}, "target_namespace": {"C33"}}
NAMES = {"format_name": ("default_format_name", {"C33"}), "format_type": ("default_format_type", {"C33"}),
         "format_comment": ("default_format_comment", {"C33", "C28"})}
FUNCS = {"function": ("new", "Function", {"C32"}), "generate_function": ("generate_function", None, {"C32"}),
         "generate": ("generate", None, {"C32"})}

_cache = {}


def find(prog, name, owner=None):
    r = []
    for f in prog.fns.values():
        if f.kind == "closure" or not f.id.startswith(WP) or f.id.split("::")[-1] != name:
            continue
        o = f.impl_self.n.split("::")[-1] if f.impl_self is not None and f.impl_self.k == "adt" else None
        if o == owner:
            r.append(f)
    return r[0] if len(r) == 1 else None


def units(ctx):
    """{unit: Result or reason}"""
    if ctx in _cache:
        return _cache[ctx]
    p = ctx.prog
    out = {}
    missing = "the function or its reference is missing"
    for n in VIEWS:
        a, b = p.fns.get(SP + "code_" + n), p.fns.get(SP + "want_" + n)
        out[n] = cmp.compare(ctx, a, b, cover=True) if a and b else missing
    fs = {n: find(p, f) for n, (f, _) in NAMES.items()}
    for n, f in fs.items():
        w = p.fns.get(SP + n)
        out[n] = cmp.compare(ctx, f, w, cover=True) if f and w else missing
    gs = {n: find(p, f, o) for n, (f, o, _) in FUNCS.items()}
    # the whole generator first; its parts only say where a difference lies
    g, w = gs["generate"], p.fns.get(SP + "generate")
    whole = cmp.compare(ctx, g, w, cover=True, limit=120) if g and w else missing
    out["generate"] = whole
    if not isinstance(whole, str) and not whole.undecided and not whole.diffs and not whole.uncovered:
        out["_whole"] = True
    al = {SP + n: f.id for n, f in fs.items() if f}
    cut = {f.id for f in fs.values() if f}
    for n in ("function", "generate_function"):
        f, w = gs[n], p.fns.get(SP + n)
        out[n] = cmp.compare(ctx, f, w, cover=True, cuts=cut, alias=al) if f and w else missing
    f = p.fns.get(WP + "parser::definitions::{impl#0}::new") or find(p, "new", "Definitions")
    w = p.fns.get(SP + "want_bindings")
    out["bindings"] = cmp.compare(ctx, f, w, cover=True, post=field(p, "bindings")) if f and w else missing
    _cache[ctx] = out
    return out


def field(prog, name):
    def post(E, rs, v, ws, w):
        def one(x):
            rec = prog.adts.get(x.a[0]) if x.op == "adt" else None
            names = rec["v"][x.a[1]]["f"] if rec else []
            return project(x, x.a[1], names.index(name), None) if name in names else mk("app", "no_field")
        return dist(v, one), w
    return post


def loops_of(v):
    return [t for t in subterms(v) if t.op in ("fold", "loop")]


def uniqueness(rep, ctx):
    """a key that is taken is refused: no step of a loop puts a declaration under a key that may be in use"""
    p = ctx.prog
    f = p.fns.get(WP + "parser::definitions::{impl#0}::new") or find(p, "new", "Definitions")
    if f is None:
        rep.notes.append("uniqueness: not decided: no reader of definitions")
        return
    import spec
    E = cmp.eng.Engine(p, ctx.cg, cuts=set())
    try:
        with cmp.time_limit(40):
            v, rs, args = spec.summarize(E, f, cmp.eng.St())
    except Exception as e:
        rep.notes.append(f"uniqueness: not decided: {type(e).__name__} {e}")
        rep.count("undecided_units")
        return
    where = f"{f.file}:{f.line} ({f.id})"
    steps = {}
    for l in loops_of(v):
        for g, x in (l.a[4] if l.op == "fold" else [(g, y) for g, ys in l.a[3] for y in ys]):
            for t in subterms(x):
                if t.op == "ins" and any(y.op in ("accp", "acc") for y in subterms(t.a[0])):
                    kind = t.a[2].ty.n.split("::")[-1] if t.a[2].ty is not None else "?"
                    if t.a[2].op == "adt":
                        kind = t.a[2].a[0].split("::")[-1]
                    free = mk("app", "map_get", t.a[0], t.a[1])
                    ok_ = any(u is free and d[0] == "V" and set(d[1]) == {0} for u, d in g)
                    steps.setdefault(kind, []).append(ok_)
                    rep.count("insertions")
    for k, oks in sorted(steps.items()):
        rep.ob(f"definitions:unique:{k}", all(oks), f"a second {k} with the same key replaces the first one silently", where)


def nameless(st):
    """the input has a message part without a name, which no valid description has"""
    for t, d in st.f.items():
        if d[0] == "V" and set(d[1]) == {0} and t.op == "app" and len(t.a) > 2 and t.a[-1] == mk("str", "name"):
            for x in subterms(t.a[1]):
                if x.op in ("pick", "elem") and x.ty is not None and x.ty.k == "adt" and x.ty.n.endswith("message::Part"):
                    return True
    return False


def add(rep, ctx, pid):
    us = units(ctx)
    whole = us.get("_whole")
    named = False
    for n, r in us.items():
        if n == "_whole":
            continue
        mine = VIEWS.get(n) or (NAMES[n][1] if n in NAMES else {"C34"} if n == "bindings" else {"C32"})
        if n == "target_namespace":
            mine = {"C33", "C32"}
        if pid not in mine:
            continue
        if isinstance(r, str) or r.undecided:
            rep.count("undecided_units")
            rep.notes.append(f"wsdl.{n}: not decided: {r if isinstance(r, str) else r.undecided}")
            continue
        rep.count("service_units")
        rep.count("rows_compared", r.rows)
        bad = None
        nd = len(r.diffs)
        r.diffs = [d for d in r.diffs if not nameless(d[0])]
        r.uncovered = [u for u in r.uncovered or [] if not nameless(u[0])]
        if nd > len(r.diffs):
            rep.count("inputs_that_are_not_valid", nd - len(r.diffs))
        if r.diffs:
            bad = cmp.text(r.diffs[0])
        elif r.uncovered and not cmp.unknown_facts(r, r.uncovered[0][0]):
            s, x = r.uncovered[0]
            bad = f"a panic or no result is reached when {show_guard(frozenset(s.f.items()))[:700]}; required is {show(x, 5)[:300]}"
        for d in r.unknown[:1]:
            rep.count("undecided_parts")
            rep.notes.append(f"wsdl.{n}: not decided (operation without a model or unrelated loop): {cmp.text(d)[:300]}")
        if bad and whole and n in ("function", "generate_function"):
            # a difference that does not show in what is generated
            bad = None
        if bad and n == "generate" and blamed_elsewhere(us):
            rep.notes.append("wsdl.generate: differs through the names or types of its parts")
            bad = None
        rep.ob(f"wsdl.{n}", not bad, bad or "", r.where)


def blamed_elsewhere(us):
    """do the naming functions, and nothing else, explain a difference in the generated text?"""
    ok_ = lambda r: not isinstance(r, str) and not r.undecided and not r.diffs and not r.uncovered
    names = [us[n] for n in NAMES] + [us["target_namespace"]]
    return all(not isinstance(r, str) and not r.undecided for r in names) and not all(ok_(r) for r in names) and \
        ok_(us["function"]) and ok_(us["generate_function"])


def c33_direct(rep, ctx):
    """the two generators side by side, where their functions have the same shape"""
    p = ctx.prog
    a = find(p, "default_format_name")
    b = [f for f in p.fns.values() if f.id.startswith(XG) and f.id.split("::")[-1] == "default_format_name" and f.kind != "closure"]
    if a is None or len(b) != 1:
        rep.notes.append("names: not decided: the naming functions of the two generators were not found")
        return
    r = cmp.compare(ctx, a, b[0])
    if r.undecided:
        rep.notes.append(f"names: not decided: {r.undecided}")
        return
    rep.count("rows_compared", r.rows)
    rep.ob("names:same", not r.diffs, "service and schema generator give different names: " + (cmp.text(r.diffs[0]) if r.diffs else ""),
           r.where)


def c33_schema(rep, ctx):
    """the schema generator's side of the agreement"""
    from rules import gen
    for g, m, u in gen.units(ctx):
        if (g, m) not in (("base", "format_name"), ("base", "format_type_name"), ("base", "format_comment")) or isinstance(u, str):
            continue
        r, r0, verdict = u
        if r.undecided:
            rep.notes.append(f"{g}.{m}: not decided: {r.undecided}")
            continue
        rep.count("generator_units")
        rep.ob(f"{g}.{m}", verdict != "bad" or not r.diffs, cmp.text(r.diffs[0]) if r.diffs else "", r.where)


WORDS = {
    "C32": "one async function per operation, with the messages it refers to",
    "C33": "names, types and comments as the schema generator writes them",
    "C34": "every declaration is kept under its own key and a key that is taken is refused",
    "C35": "the kind of an operation by the order and presence of input and output",
}
ASSUME = ["roxmltree presents a document as its node tree (children, attributes, text) and is itself right",
          "operations of core/alloc/std behave as in models.py; an operation without a model leaves the part undecided and silent",
          "Inflector's case conversions are functions of their argument; counters of text length do not overflow"]


def rule(pid):
    def f(ctx):
        rep = Report(pid, "agreement with a reference function over all inputs: the resolved MIR of the service-description reader "
                     "and generator and of their references in spec_wsdl/src/lib.rs is summarised by abstract interpretation into "
                     "gated terms over the same symbolic XML node, description or text; the terms must agree. Part: " + WORDS[pid] + ".")
        add(rep, ctx, pid)
        if pid == "C34":
            uniqueness(rep, ctx)
        if pid == "C33":
            c33_direct(rep, ctx)
            c33_schema(rep, ctx)
        rep.assumptions += ASSUME
        return rep
    return f


for _p in WORDS:
    globals()[_p] = rule(_p)
