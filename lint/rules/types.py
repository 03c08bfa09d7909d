"""The built-in value types and the derived implementations compared with the reference functions of spec_types/:
every pair code_*/want_* of a module must agree for every value, text and outcome of the XML writer or reader."""
import os, re
import auto, cmp, shapes
from rules import parse
from core import *
from dom import *
from report import Report

_cache = {}

# property -> (module of spec_types, names); a name that ends in _ stands for every pair that starts with it
PARTS = {
    "C02": [("types_spec::range", "")],
    "C04": [("types_spec::print", "")],
    "C05": [("types_spec::duration", "print")],
    "C06": [("types_spec::duration", "clock")],
    "C07": [("types_spec::serde", "")],
    "C08": [("derive_spec::union", "")],
    "C09": [("derive_spec::wrapper", "")],
}


def cuts_of(p, mod):
    """parsers of the values, which the code under comparison only calls"""
    if mod not in ("types_spec::serde", "derive_spec::union", "derive_spec::wrapper"):
        return ()
    out = {f.id for f in p.fns.values() if f.crate == "xsd_types" and f.id.split("::")[-1] == "from_str" and f.kind != "closure"}
    for f in p.fns.values():
        o = f.impl_self
        if f.crate == "derive_spec" and o is not None and o.k == "adt" and o.n.split("::")[-1] in ("Own", "Other") and \
                f.id.split("::")[-1] == "from_str":
            out.add(f.id)
    return out | {n for n in ("derive_spec::union::own_text", "derive_spec::union::other_text") if n in p.fns}


def pairs(p, mod, part):
    pre = f"{mod}::code_{part}"
    for n in sorted(p.fns):
        f = p.fns[n]
        if n.startswith(pre) and f.kind != "closure" and "{" not in n[len(pre):] and "::" not in n[len(pre):]:
            w = p.fns.get(n.replace("::code_", "::want_"))
            if w is not None:
                yield n.split("::code_")[-1], f, w


def units(ctx, mod, part):
    k = (ctx, mod, part)
    if k not in _cache:
        p = ctx.prog
        cuts = cuts_of(p, mod)
        _cache[k] = [(n, cmp.compare(ctx, f, w, cuts=cuts, cover=True)) for n, f, w in pairs(p, mod, part)]
    return _cache[k]


def plausible(st):
    """an overflow is reported when what overflows is made of values nothing else is known about"""
    big = [t for t, d in st.f.items() if t.op == "ovf" and d == TRUE]
    for t in big:
        if len(t.a) != 2 or not isinstance(t.a[1], T):
            return False
        xs = subterms(t.a[1])
        if any(x.op in ("app", "cmp", "case", "pick", "acc", "elem") for x in xs):
            return False
        leaves = {x for x in xs if x.op in ("sym", "proj", "field", "arg")}
        for u in st.f:
            if u.op in ("cmp", "app") and leaves & subterms(u):
                return False
    return True


DERIVES = {"C08": "UtilsUnionSerDe", "C09": "UtilsTupleIo"}
ORIGIN = re.compile(r"originates in the derive macro `(\w+)`|^error: (proc-macro derive panicked)")


def expands(rep, ctx, pid):
    """the derive's expansion is valid code for types with the traits that generated types have"""
    if any(f.crate == "derive_spec" for f in ctx.prog.fns.values()):
        rep.ob("expansion", True, "", "spec_derive/src")
        return
    log = os.path.join(os.path.dirname(ctx.mir.rstrip("/")), "spec_derive.log")
    text = open(log).read() if os.path.exists(log) else ""
    for block in re.split(r"\n(?=error)", text):
        m = ORIGIN.search(block)
        if block.startswith("error") and m and (m[1] == DERIVES[pid] or m[2] and f"derive({DERIVES[pid]})" in block.replace(" ", "")):
            rep.fail("expansion", "the derived code is not valid for a witness type: " + " ".join(block.split())[:500], "spec_derive/src")
            return


def add(rep, ctx, pid):
    if pid in DERIVES:
        expands(rep, ctx, pid)
    for mod, part in PARTS[pid]:
        us = units(ctx, mod, part)
        mod = mod.split("::")[-1]
        for n, r in us:
            if r.undecided:
                rep.count("undecided_units")
                rep.notes.append(f"{mod}.{n}: not decided: {r.undecided}")
                continue
            rep.count("units")
            rep.count("rows_compared", r.rows)
            if r.unknown:
                rep.count("undecided_parts")
                rep.notes.append(f"{mod}.{n}: not decided (operation without a model): {cmp.text(r.unknown[0])[:300]}")
            rep.ob(f"{mod}.{n}", not r.diffs, cmp.text(r.diffs[0]) if r.diffs else "", r.where)
            if not r.diffs:
                for s, x in r.uncovered:
                    if not cmp.unknown_facts(r, s) and plausible(s):
                        rep.fail(f"{mod}.{n}:not-handled", "a panic or no result is reached when "
                                 f"{cmp.show_guard(frozenset(s.f.items()))[:700]}; required is {show(x, 5)[:300]}", r.where)
                        break


def machine(rep, ctx):
    """reading a duration, character by character"""
    p = ctx.prog
    f, w = p.fns.get("types_spec::duration::code_parse"), p.fns.get("types_spec::duration::want_parse")
    if ctx not in _machine:
        _machine[ctx] = auto.compare(ctx, f, w, limit=200)
    r = _machine[ctx]
    if r.undecided or r.unconfirmed and not r.diffs:
        rep.count("undecided_units")
        rep.notes.append("duration.parse: not decided: " + (r.undecided or f"the outcomes for texts like {r.unconfirmed[0][0]!r} could not be told apart"))
        k = (ctx, "fixed")
        if k not in _machine:
            _machine[k] = shapes.fixed(ctx, f, w, durations(), limit=120)
        b = _machine[k]
        rep.count("forms", b.rows)
        for t, s, _, _, v, u in b.diffs:
            if not shapes.tangled(s) and apart(v, u):
                rep.ob("duration.parse", False, f"for the text {t!r} the code gives {show(v, 8)[:300]}, required is {show(u, 8)[:300]}", r.where)
                break
        return
    rep.count("units")
    rep.count("states_of_the_code", max(x[0] for x in r.states))
    rep.count("pairs_of_states", sum(x[2] for x in r.states))
    rep.ob("duration.parse", not r.diffs, "" if not r.diffs else "; ".join(
        f"for the text {t!r} the code gives {show(a, 8)[:300]}, required is {show(b, 8)[:300]}" for t, a, b in r.diffs[:3]), r.where)


_machine = {}
LIMITS = [0, 1, 9, 10, 11, 12, 13, 23, 24, 25, 28, 29, 30, 31, 32, 59, 60, 61, 99, 100, 365, 366] + [
    2**k + j for k in (7, 8, 15, 16, 31, 32, 53, 63, 64) for j in (-1, 0, 1)] + [10**k for k in (3, 4, 6, 9, 12, 18, 19, 20)]


def durations():
    """durations of one and of several components, with values around the limits of the number types, and what edits make of them"""
    one = [("P", "Y"), ("P", "M"), ("P", "D"), ("PT", "H"), ("PT", "M"), ("PT", "S")]
    out = [g + a + str(n) + b for n in LIMITS for a, b in one for g in ("", "-")]
    full = ["P1Y2M3DT4H5M6S", "P1Y", "P2M", "P3D", "PT4H", "PT5M", "PT6S", "P1YT5M", "P2MT6.7S", "P1Y2M3D", "PT4H5M6S", "-P1Y2M3DT4H5M6.75S"]
    for t in full:
        out += [t] + [t[:i] + t[i + 1:] for i in range(len(t))]
        out += [t[:i] + x + t[i:] for i in range(len(t) + 1) for x in ("-", "+", "P", "T", "Y", "M", "D", "H", "S", ".", "0", "1", " ", "\u0663", "y")]
    out += [f"PT{a}.{b}S" for a in ("", "0", "7", "61") for b in ("", "0", "5", "05", "999999999", "1" * 19, "1" * 20, "1" * 21, "0" * 30)]
    return list(dict.fromkeys(out))


def apart(v, u):
    """surely different results (numbers with a fraction are not compared)"""
    if not all(x.op == "adt" and x.a[0] == shapes.RES for x in (v, u)):
        return False
    if v.a[1] != u.a[1]:
        return True
    if v.a[1] != 0:
        return False
    return v.a[2].op == u.a[2].op == "adt" and any(
        isinstance(x, T) and isinstance(y, T) and x.op == y.op and x.op in ("int", "bool") and x is not y for x, y in zip(v.a[2].a[2:], u.a[2].a[2:]))


WORDS = {
    "C02": "which arguments and numbers the range-checked constructors and the integer parsers accept; which texts the parsers accept",
    "C04": "every printed form, for every value of every zoned or numeric type",
    "C05": "the printed form of a duration; the loop that reads one, as a transducer run side by side with the reference's on every text",
    "C06": "conversion of a duration to clock time, with every overflow",
    "C07": "the trace of events exchanged with the XML writer and reader, for every setting of the skip flag and every point of failure",
    "C08": "the code derived for unions of 1, 2, 3 and 17 members of every kind of type name",
    "C09": "the code derived for wrappers of every kind of type name and lists of them",
}
ASSUME = ["core, alloc and std by written models; chrono's component accessors and number formatting by models in values.py; chrono and "
          "num-bigint functions without a model are functions of their arguments"]


def rule(pid):
    def f(ctx):
        rep = Report(pid, "agreement with a reference function for every input: the resolved MIR of the code, with what it calls inlined, "
                     "is summarised by abstract interpretation and compared with spec_types/ or spec_derive/. Part: " + WORDS[pid] + ".")
        add(rep, ctx, pid)
        rep.assumptions += ASSUME
        if pid == "C05":
            machine(rep, ctx)
            rep.assumptions.append("texts shorter than 2^56 bytes")
        if pid == "C02":
            parse.add(rep, ctx, pid)
            rep.assumptions += parse.ASSUME
        return rep
    return f


for _p in WORDS:
    globals()[_p] = rule(_p)
