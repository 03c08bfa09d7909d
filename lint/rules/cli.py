"""The command-line tools compared with the reference functions of spec_cli/: the result of a run and the trace of
what it does to the file system, for every outcome of every file operation."""
import re
import cmp, eng, models, files
from core import *
from dom import *
from report import Report, loc

SP = "cli_spec::"
TOOLS = {"xsd": ("xsd_parser#bin", "xsd-parser-cli"), "wsdl": ("wsdl_parser#bin", "wsdl-parser-cli")}
CUTS = ("xsd_parser::parser::parse", "xsd_parser::parser::schema::parse_schema", "wsdl_parser::generator::generate")
_cache = {}


def opt(name):
    def f(E, fr, st, c, args):
        return [(st, typed(mk("sym", "opt." + name), c.rty))]
    return f


def pure(name):
    """reading and generating are functions of their input here; doing so with an output already open is recorded"""
    def f(E, fr, st, c, args):
        w = st.mem.get(eng.WORLD)
        if w is not None and w.op == "seq" and any(
                x.op == "one" and x.a[0].op == "app" and x.a[0].a[:2] == (files.F + "event", "open") for x in w.a):
            st = files.event(E, st, "work-after-open", S(name.split("::")[-1]))
        return [(st, E.pure_app(name, [E.deep(st, a) for a in args], c.rty))]
    return f


def cut_fns(p):
    out = {f for f in CUTS if f in p.fns}
    for f in p.fns.values():
        o = f.impl_self.n.split("::")[-1] if f.impl_self is not None and f.impl_self.k == "adt" else None
        n = f.id.split("::")[-1]
        if f.kind == "closure" or f.impl_trait and n != "default":
            continue
        if (o, n) in (("Generator", "generate_rs_file"), ("GeneratorBuilder", "build"), ("GeneratorBuilder", "default"),
                      ("Definitions", "new"), ("Definitions", "types"), ("Types", "schemas")):
            out.add(f.id)
    return out


def result(E, rs, v, ws, w):
    """only success or failure counts, not which error"""
    def res(x):
        if x.op == "tup" and len(x.a) == 2:
            return dist(x.a[0], res)
        if x.op == "adt" and x.a[0] == RES:
            return ok(UNIT) if x.a[1] == 0 else err(UNIT)
        return x
    return dist(v, res), dist(w, res)


def trace(E, rs, v, ws, w):
    def one(x):
        return x.a[1] if x.op == "tup" and len(x.a) == 2 else mk("seq")
    return dist(v, one), dist(w, one)


def recursive(p, cg, crate):
    """functions of the tool that reach themselves"""
    fs = {f.id for f in p.fns.values() if f.crate == crate}
    out = set()
    for a in fs:
        seen, work = set(), list(cg.succ.get(a, ()))
        while work:
            b = work.pop()
            if b in seen or b not in fs:
                continue
            seen.add(b)
            work += cg.succ.get(b, ())
        if a in seen:
            out.add(a)
    return out


def units(ctx):
    if ctx in _cache:
        return _cache[ctx]
    p, out = ctx.prog, {}
    cuts = cut_fns(p)
    for f in cuts:
        # what reads and generates is a function of its input here
        models.M["call " + f] = pure(f)
    for o in ("input", "output"):
        models.M["call " + SP + o] = opt(o)
        cuts.add(SP + o)
    for tool, (crate, _) in TOOLS.items():
        main, want = p.fns.get(crate + "::main"), p.fns.get(SP + tool + "_main")
        if main is None or want is None:
            out[tool] = "main or its reference is missing"
            continue
        rec = sorted(recursive(p, ctx.cg, crate))
        if len(rec) != 1 or p.fns[rec[0]].argc != 2 or SP + tool + "_dir" not in p.fns:
            out[tool] = f"directories are not handled by one recursive function of input and output path but by {rec}"
            continue
        d = p.fns[rec[0]]
        models.M["call " + d.id] = files.distp(lambda E, fr, st, c, args, v: files.attempt(E, st, "directory", v, ok(UNIT)))
        al = {SP + tool + "_dir": d.id}
        for part, post in (("result", result), ("trace", trace)):
            out[tool, part] = cmp.compare(ctx, main, want, cuts=cuts | {d.id}, alias=al, post=post, exits=True, sizes=())
            out[tool + "-dir", part] = cmp.compare(ctx, d, p.fns[SP + tool + "_dir"], cuts=cuts, alias=al, post=post, exits=True, sizes=())
    for k in [k for k in models.M if k.startswith("call ")]:
        del models.M[k]
    _cache[ctx] = out
    return out


def events(v):
    return {(x.a[1], x.a[2]) for x in subterms(v) if x.op == "app" and x.a[0] == files.F + "event" and len(x.a) > 2}


def which(t, memo=None):
    """the path of an operation, whichever entry of a directory it belongs to"""
    m = {}
    for x in subterms(t):
        if x.op in ("pick", "elem"):
            src = x.a[1] if x.op == "pick" else x.a[0]
            m[x] = typed(mk("app", "entry", src), x.ty)
    return rewrite(t, m) if m else t


def ordered(d):
    """entries in an order of their own: the order of a listing is not fixed anyway"""
    return any(x.op == "app" and x.a[0] == "sorted" for t in [*d[0].f, d[1], d[2]] if isinstance(t, T) for x in subterms(t))


def halfway(d):
    """the listing itself breaks off: whether what it gave before that is processed first is left open"""
    return any(t.op == "exists" and v == ("B", True) and all(len(g) == 1 and next(iter(g)) == (t.a[1], ("V", frozenset([1]), 2)) for g in t.a[2])
               for t, v in d[0].f.items())



def stopped(d):
    """one of the entries of a directory fails"""
    return any(t.op == "exists" and v == ("B", True) and t.a[0].op == "app" and t.a[0].a[0] == files.F + "entries" and
               all(any(w == ("B", False) or w == ("V", frozenset([0]), 2) and x.op == "app" for x, w in g) for g in t.a[2] if len(g) > 1)
               for t, v in d[0].f.items())


def extra_events(r):
    """what the code does somewhere that the reference does not do there"""
    have, want = ({(k, which(p)) for k, p in events(x)} for x in (r.value, r.want))
    return sorted(f"{k} {show(p, 6)}" for k, p in have - want if k != "work-after-open")


def add(rep, ctx, pid):
    for n, r in units(ctx).items():
        if isinstance(n, str):
            rep.count("undecided_units")
            rep.notes.append(f"{n}: not decided: {r}")
            continue
        tool, part = n
        if part == "trace" and pid == "C37" and tool.endswith("-dir") and not r.undecided:
            late = [d for d in r.diffs if stopped(d) and not ordered(d) and not halfway(d)]
            if late and not extra_events(r):
                rep.ob(f"{tool}:stops", False, "more or less is done when one of the files fails: " + cmp.text(late[0]), r.where)
        if (part == "result") != (pid == "C37"):
            continue
        if r.undecided:
            rep.count("undecided_units")
            rep.notes.append(f"{tool}: not decided: {r.undecided}")
            continue
        soft = [d for d in r.diffs if ordered(d) or part == "trace" and halfway(d)]
        r.diffs, r.unknown = [d for d in r.diffs if d not in soft], r.unknown + soft
        rep.count("tool_units")
        rep.count("rows_compared", r.rows)
        for d in r.unknown[:1]:
            rep.count("undecided_parts")
            rep.notes.append(f"{tool}: not decided (operation without a model or unrelated loop): {cmp.text(d)[:300]}")
        if pid == "C37":
            rep.ob(f"{tool}:result", not r.diffs, cmp.text(r.diffs[0]) if r.diffs else "", r.where)
            continue
        rep.count("file_operations", len({(k, which(p)) for k, p in events(r.value)}))
        extra = extra_events(r)
        if pid == "C36":
            rep.ob(f"{tool}:targets", not (r.diffs and extra), "touches " + "; ".join(extra)[:600] + ". " +
                   (cmp.text(r.diffs[0]) if r.diffs else ""), r.where)
        else:
            rep.ob(f"{tool}:order", not (r.diffs and not extra), cmp.text(r.diffs[0]) if r.diffs else "", r.where)


GONE = re.compile(r"^std::fs::(remove_|rename|hard_link|soft_link|set_permissions)|^std::fs::File::set_len|^std::os::.*::symlink")
BUFFER = re.compile(r"^std::io::(BufWriter|LineWriter)::(new|with_capacity)")
RESULT = "core::result::Result"


def calls(rep, ctx, pid):
    """rules on the single call sites of the tools, which hold whatever their shape is"""
    for tool, (crate, _) in TOOLS.items():
        if pid == "C37":
            sites = [(f, s) for f in ctx.prog.fns.values() if f.crate == crate for s in ctx.cg.sites.get(f.id, ())]
            flushed = any(models.norm(s.name).endswith(("::flush", "::into_inner")) for _, s in sites)
            for f, s in sites:
                if BUFFER.search(models.norm(s.name)) and not flushed:
                    rep.fail(f"{tool}:unflushed", f"{s.name}: what is left in the buffer is written when it is dropped, where a failure is "
                             "not reported", loc(f, s.line))
            rep.ob(f"{tool}:buffers", True)
        fs = [f for f in ctx.prog.fns.values() if f.crate == crate and f.kind != "const" and "{impl#" not in f.id]
        for f in fs:
            for s in ctx.cg.sites.get(f.id, ()):
                rep.count("call_sites")
                if pid == "C36" and GONE.search(models.norm(s.name)):
                    rep.fail(f"{tool}:{f.id.split('::')[-1]}:{models.norm(s.name)}", f"calls {s.name}", loc(f, s.line))
        rep.ob(f"{tool}:calls", True)


WORDS = {
    "C36": "every path that is written, created or changed lies where the reference writes",
    "C37": "the run fails for exactly the outcomes of file operations, parsing and nested runs for which the reference fails",
    "C38": "the order, condition and contents of everything done to the output",
}
ASSUME = ["the standard library's file operations succeed or fail as their documentation says and do nothing else; models in files.py",
          "reading and generating are taken as functions of their input (C10 to C35 are about them)",
          "a directory listing does not change while it is processed; messages printed on the terminal are left out"]


def rule(pid):
    def f(ctx):
        rep = Report(pid, "agreement with a reference function for every outcome of every file operation: the resolved MIR of each tool's "
                     "main and directory function, with what they call inlined, is summarised by abstract interpretation into a result "
                     "and a trace of file system events and compared with spec_cli/src/lib.rs. Part: " + WORDS[pid] + ".")
        add(rep, ctx, pid)
        calls(rep, ctx, pid)
        rep.assumptions += ASSUME
        return rep
    return f


for _p in WORDS:
    globals()[_p] = rule(_p)
