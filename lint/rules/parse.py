"""Parsers of the built-in value types on every text: the text is split into parts only as far as the code (or the reference
function) looks at it, so that a finite number of shapes stands for all texts."""
import time
import cmp, eng, shapes
from core import *
from dom import *
from report import Report

MOD = "types_spec::parse::"
ZONE_FN = "xsd_types::types::utils::parse_timezone"
TEXT, RANGE, ZONE = 1, 2, 3
CHRONO = {"chrono::NaiveDate::parse_from_str", "chrono::NaiveTime::parse_from_str", "chrono::DateTime::parse_from_rfc3339"}
MODELLED = CHRONO | {"cls", "zone", "decimal", "fits", "parse-error", "abs", "byte", "byteof"}
_cache = {}


def pairs(p):
    for n in sorted(p.fns):
        f = p.fns[n]
        if n.startswith(MOD + "code_") and f.kind != "closure" and "::" not in n[len(MOD):]:
            w = p.fns.get(n.replace("::code_", "::want_"))
            if w is not None:
                yield n.split("::code_")[-1], f, w
    if ZONE_FN in p.fns and MOD + "want_timezone" in p.fns:
        yield "timezone", p.fns[ZONE_FN], p.fns[MOD + "want_timezone"]


def units(ctx, want=True):
    k = (ctx, want)
    if k not in _cache:
        _cache[k] = [(n, shapes.compare(ctx, f, w if want else None, limit=90)) for n, f, w in pairs(ctx.prog)]
    return _cache[k]


VALUES = {"gday": ["---dd"], "gmonth": ["--dd"], "gmonthday": ["--dd-dd"], "gyear": ["dddd", "-dddd"], "gyearmonth": ["dddd-dd", "-dddd-dd"],
          "date": ["dddd-dd-dd"], "time": ["dd:dd:dd"], "datetime": ["dddd-dd-ddTdd:dd:dd"], "datetimestamp": ["dddd-dd-ddTdd:dd:dd"],
          "timezone": [""]}
ZONES = ("", "Z", "+dd:dd", "-dd:dd")


def forms(n):
    """literals of a type and what one edit makes of them"""
    base = [v + z for v in VALUES[n] for z in ZONES]
    out = dict.fromkeys(base)
    for w in base[1:]:
        out.update(dict.fromkeys(w[:i] for i in range(len(w))))
    for w in base:
        for i in range(len(w), -1, -1):
            out.update(dict.fromkeys(w[:i] + x + w[i:] for x in (":dd", "-dd:dd", "+dd:dd", "Z", "-", "+", ":", "d", "\u00e9", " ")))
    for w in base:
        for i in range(len(w)):
            out[w[:i] + w[i + 1:]] = None
            out.update(dict.fromkeys(w[:i] + x + w[i + 1:] for x in "-+:Z\u00e9x d"))
    return list(out)


def bounded(ctx, n, want, limit=75):
    """a unit that is not decided for all texts, on texts near the literals of its type"""
    k = (ctx, n, want)
    if k not in _cache:
        f, w = {x: (f, w) for x, f, w in pairs(ctx.prog)}[n]
        _cache[k] = shapes.fixed(ctx, f, w if want else None, forms(n), limit=limit) if n in VALUES else None
    return _cache[k]


def modelled(t):
    """is a term made only of operations with a model?"""
    return all(x.op != "app" or x.a[0] in MODELLED for x in subterms(t)) and not any(
        x.op in ("after", "eff", "acc", "pick", "elem", "loop") for x in subterms(t))


def clear(st, *vs):
    return not shapes.tangled(st) and all(modelled(t) for t in st.f) and all(modelled(v) for v in vs)


def result(v):
    """(is Ok, payload) of a Result value, or None"""
    if v.op == "adt" and v.a[0] == shapes.RES and len(v.a) == 3:
        return v.a[1] == 0, v.a[2]
    return None


def kind(code, want):
    """which property a difference breaks"""
    a, b = result(code), result(want)
    if a is None or b is None:
        return "C03"
    if a[0] and not b[0] and b[1].op == "int" and b[1].a[0] in (RANGE, ZONE):
        return "C02"
    return "C03"


def describe(st, a, b):
    return (f"a text like {shapes.example(st)!r}: the code gives {show(a, 8)[:300]}, required is {show(b, 8)[:300]}, "
            f"on every text with {show_guard(frozenset(st.f.items()))[:700]}")


def add(rep, ctx, pid):
    for n, r in units(ctx):
        if r.undecided:
            rep.count("undecided_units")
            rep.notes.append(f"parse.{n}: not decided: {r.undecided}")
            b = bounded(ctx, n, True)
            if b is not None:
                rep.count("forms", b.rows)
                for w, s, _, _, v, u in b.diffs:
                    if clear(s, v, u) and kind(v, u) == pid:
                        rep.ob(f"parse.{n}", False, f"a text like {w!r} (d: any digit): the code gives {show(v, 8)[:300]}, required is "
                               f"{show(u, 8)[:300]}, when {show_guard(frozenset(s.f.items()))[:500]}", r.where)
                        break
            continue
        rep.count("units")
        rep.count("shapes", r.cases)
        sure = [x for x in r.diffs if clear(x[0], x[3], x[4])]
        if len(sure) < len(r.diffs):
            rep.count("undecided_parts")
            rep.notes.append(f"parse.{n}: not decided (operation without a model)")
        mine = [x for x in sure if kind(x[3], x[4]) == pid]
        rep.ob(f"parse.{n}", not mine, describe(mine[0][0], mine[0][3], mine[0][4]) if mine else "", r.where)


def total(ctx, fn):
    """panics of a function of a text, read by the engine without shapes"""
    r = cmp.Result()
    t0 = time.time()
    r.panics = []
    try:
        with cmp.time_limit(60):
            E = eng.Engine(ctx.prog, ctx.cg)
            E.alias = {}
            rs = E.run_fn(fn, [typed(mk("sym", "text"), STR_TY)], eng.St(), ())
            r.rows = len(rs)
            for ps in E.panics.values():
                r.panics += ps
            r.E = E
    except (eng.Undecided, Mixed) as e:
        r.undecided = f"{type(e).__name__}: {e}"
    except cmp.Timeout:
        r.undecided = "time limit 60 s"
    except (RecursionError, KeyError, IndexError, AttributeError, TypeError, AssertionError, ValueError) as e:
        r.undecided = f"analysis error {type(e).__name__}: {e}"
    r.secs = round(time.time() - t0, 2)
    r.where = f"{fn.file}:{fn.line} ({fn.id})"
    return r


def C01(ctx):
    rep = Report("C01", "panic freedom of the parsers on every text: abstract interpretation of their resolved MIR over shapes of texts (parts of "
                 "unknown characters split only where the code looks), so that every slice, index, unwrap, expect and arithmetic operation "
                 "reached is either shown to succeed for every text of the shape or reported with the shape.")
    for n, r in units(ctx, False):
        if r.undecided:
            rep.count("undecided_units")
            rep.notes.append(f"parse.{n}: not decided: {r.undecided}")
            b = bounded(ctx, n, False)
            if b is not None:
                rep.count("forms", b.rows)
                for w, s, q in b.panics:
                    if clear(s) and q.fn.crate != "types_spec":
                        rep.ob(f"parse.{n}", False, f"panic ({q.kind} {q.detail[:120]}) at {q.fn.file}:{q.fn.line} for a text like {w!r} (d: any "
                               f"digit), when {show_guard(frozenset(s.f.items()))[:500]}", r.where)
                        break
            continue
        rep.count("units")
        rep.count("shapes", r.rows)
        sure = [(s, q) for s, q in r.panics if clear(s) and q.fn.crate != "types_spec"]
        if not sure and r.panics:
            rep.count("undecided_parts")
            rep.notes.append(f"parse.{n}: not decided (operation without a model): {r.panics[0][1].fn.id}:{r.panics[0][1].line}")
        rep.ob(f"parse.{n}", not sure, "" if not sure else
               f"panic ({sure[0][1].kind} {sure[0][1].detail[:120]}) at {sure[0][1].fn.file}:{sure[0][1].line} for a text like "
               f"{shapes.example(sure[0][0])!r}, on every text with {show_guard(frozenset(sure[0][0].f.items()))[:700]}", r.where)
    for n in sorted(ctx.prog.fns):
        f = ctx.prog.fns[n]
        if not n.startswith(MOD + "total_") or f.kind == "closure" or "::" in n[len(MOD):]:
            continue
        k = n.split("::total_")[-1]
        r = total(ctx, f)
        if r.undecided:
            rep.count("undecided_units")
            rep.notes.append(f"parse.{k}: not decided: {r.undecided}")
            continue
        rep.count("units")
        rep.count("rows", r.rows)
        rep.ob(f"parse.{k}", not r.panics, "" if not r.panics else
               f"panic ({r.panics[0].kind} {r.panics[0].detail[:120]}) at {r.panics[0].fn.file}:{r.panics[0].line} when "
               f"{show_guard(r.panics[0].guard)[:700]}", r.where)
    rep.assumptions += ASSUME
    return rep


def C03(ctx):
    rep = Report("C03", "agreement of the parsers with reference functions on every text: abstract interpretation of resolved MIR over shapes of "
                 "texts; every outcome of the code is compared with the outcomes of the reference (spec_types/src/parse.rs) on the same texts.")
    add(rep, ctx, "C03")
    rep.assumptions += ASSUME
    return rep


ASSUME = ["texts shorter than 2^56 bytes; the parsers of chrono accept no text outside the forms form_date, form_time and form_rfc3339 of "
          "spec_types/src/parse.rs and are otherwise functions of the text; bigdecimal and num-bigint parse without panics"]
