"""Transfer functions for the operations the value types use: calendar values of chrono, big numbers, clock durations.
What these crates do inside is trusted; here equal results get equal names."""
import re
from core import *
from dom import *
import models
from models import M, norm, unref, NONE, BOOL_TY, STRING_TY, UNIT_TY, render, fmt_spec

U32 = mkty("u32", s="u32")
I32 = mkty("i32", s="i32")
ZERO_PAD = 1761607712          # flags of `{:0w$}`: fill with zeros, sign aware
RANGE = {"month": (1, 12), "day": (1, 31), "hour": (0, 23), "minute": (0, 59), "second": (0, 59), "nanosecond": (0, 1_999_999_999),
         "ordinal": (1, 366)}


def part(E, name, x):
    t = I32 if name == "year" else U32
    return typed(mk("app", "time:" + name, x), t)


def dmodel(*names):
    """a model of one value argument, distributed over its cases"""
    def deco(f):
        def g(E, fr, st, c, args):
            v = E.deep(st, args[0])
            rest = [E.deep(st, a) for a in args[1:]]
            if v.op == "case":
                out = []
                for gg, x in v.a[0]:
                    s = st.assume_g(gg)
                    if s is not None:
                        r = f(E, fr, s, c, [x] + rest)
                        if r is None:
                            return None
                        out += r
                return out
            return f(E, fr, st, c, [v] + rest)
        for n in names:
            M[n] = g
        return f
    return deco


def deco_parts(prefix, names):
    for n in names:
        def f(E, fr, st, c, a, n=n):
            return [(st, part(E, n, a[0]))]
        for p in prefix:
            dmodel(f"{p}::{n}")(f)
    for n in ("month", "day", "ordinal"):
        if n in names:
            def f0(E, fr, st, c, a, n=n):
                return [(st, E.addk(part(E, n, a[0]), -1, U32))]
            for p in prefix:
                dmodel(f"{p}::{n}0")(f0)


deco_parts(("chrono::Datelike", "chrono::NaiveDate", "chrono::NaiveDateTime"), ("year", "month", "day", "ordinal"))
deco_parts(("chrono::Timelike", "chrono::NaiveTime"), ("hour", "minute", "second", "nanosecond"))


# ------------------------------------------------------------------ printing by pattern
@dmodel("chrono::format::StrftimeItems::new")
def m_items(E, fr, st, c, a):
    return [(st, mk("app", "strftime-items", a[0]))]


@dmodel("chrono::NaiveDate::format_with_items", "chrono::NaiveTime::format_with_items", "chrono::NaiveDateTime::format_with_items",
        "chrono::DateTime::format_with_items")
def m_format_items(E, fr, st, c, a):
    if a[1].op == "app" and a[1].a[0] == "strftime-items":
        return [(st, typed(mk("app", "strftime", a[0], a[1].a[1]), c.rty))]
    return None


@dmodel("chrono::NaiveDate::format", "chrono::NaiveTime::format", "chrono::NaiveDateTime::format", "chrono::DateTime::format")
def m_format(E, fr, st, c, a):
    return [(st, typed(mk("app", "strftime", a[0], a[1]), c.rty))]


def two(x):
    return fmt_spec(x, (ZERO_PAD, 2, None, False, False))


def year_text(E, st, x):
    """four digits, a sign for years outside 0..=9999"""
    y = part(E, "year", x)
    out = []
    for d, f in ((((0, 9999),), lambda s: number(E, s, y, 4)),
                 (((INTK["i32"][0], -1),), lambda s: number(E, s, y, 5)),
                 (((10000, INTK["i32"][1]),), lambda s: cat(S("+"), typed(mk("app", "to_string", y), STRING_TY)))):
        s = st.assume(y, ("I", d))
        if s is not None:
            out.append((s, f(s)))
    return out


def number(E, st, x, width):
    return padded(E, st, x, (ZERO_PAD, width, None, False, False))


def pattern(E, st, x, pat):
    """[(state, text)] of a value printed by a pattern, or None"""
    pat = pat.replace("%F", "%Y-%m-%d").replace("%T", "%H:%M:%S").replace("%R", "%H:%M")
    toks = re.findall(r"%[YmdHMS]|[^%]+|%.", pat)
    rows = [(st, S(""))]
    name = {"%m": "month", "%d": "day", "%H": "hour", "%M": "minute"}
    for t in toks:
        nx = []
        for s, acc in rows:
            if t == "%Y":
                nx += [(s2, cat(acc, y)) for s2, y in year_text(E, s, x)]
            elif t in name:
                nx.append((s, cat(acc, two(part(E, name[t], x)))))
            elif t == "%S":
                # a leap second is kept in the nanoseconds
                n = part(E, "nanosecond", x)
                for d, lead in ((((0, 999_999_999),), False), (((1_000_000_000, 1_999_999_999),), True)):
                    s2 = s.assume(n, ("I", d))
                    if s2 is not None:
                        sec = part(E, "second", x)
                        nx.append((s2, cat(acc, two(E.addk(sec, 1, U32) if lead else sec))))
            elif t[0] == "%":
                return None
            else:
                nx.append((s, cat(acc, S(t))))
        rows = nx
    return rows


def display_value(E, st, v, t):
    """[(state, text)] for `{}` of a value of another crate, or None"""
    n = t.n if t.k == "adt" else ""
    if n.startswith("chrono::") and v.op == "case":
        out = []
        for g, x in v.a[0]:
            s = st.assume_g(g)
            if s is not None:
                r = display_value(E, s, x, t)
                out += r if r is not None else [(s, typed(mk("app", "to_string", x), STRING_TY))]
        return out
    if v.op == "app" and v.a[0] == "strftime" and v.a[2].op == "str":
        return pattern(E, st, v.a[1], v.a[2].a[0])
    if n.endswith("::NaiveDate"):
        return pattern(E, st, v, "%Y-%m-%d")
    if n.endswith("::NaiveTime"):
        ns = part(E, "nanosecond", v)
        out = []
        for s, z in E.bool_split(st, E.member(ns, ("I", ((0, 0),)))):
            if z:
                out += pattern(E, s, v, "%H:%M:%S")
            else:
                out.append((s, typed(mk("app", "to_string", v), STRING_TY)))
        return out
    return None


def plain(x):
    """a number without the conversions that keep its value"""
    while x.op == "icast":
        x = x.a[0]
    return x


def padded(E, st, x, spec):
    """numbers padded with zeros: the sign of a negative number takes one of the places"""
    fl, w = spec[0], spec[1]
    x = plain(x)
    if fl & 0x1fffff == ord("0") and fl >> 29 & 3 == 1 and not fl & (1 << 24) and x.op not in ("int", "case") and \
            x.ty is not None and x.ty.k in INTK and E.irange(st, x)[0] >= 0:
        # filled with zeros from the left: the same as the 0 flag for what is not negative
        fl = fl & ~0x1fffff & ~(3 << 29) | ord(" ") | 1 << 24 | 3 << 29
        spec = (fl,) + tuple(spec[1:])
    if x.op in ("int", "case") or not (fl & (1 << 24)) or w is None or spec[2] is not None or spec[3] or spec[4] or \
            fl & (1 << 21) or x.ty is None or x.ty.k not in INTK:
        return fmt_spec(x, spec)
    x = positive(E, st, x)
    if E.irange(st, x)[1] < 0:
        return cat(S("-"), fmt_spec(typed(mk("app", "abs", x), x.ty), (fl, w - 1, None, False, False)))
    return fmt_spec(x, spec)


def positive(E, st, x):
    """-y for a negative y is its absolute value"""
    if x.op == "arith":
        co = {}
        k = lin(x, co)
        if k == 0 and len(co) == 1:
            (y, n), = co.items()
            if n == -1 and E.irange(st, y)[1] <= 0:
                return typed(mk("app", "abs", y), x.ty)
    return x


# ------------------------------------------------------------------ big numbers
@dmodel("num_bigint::BigInt::to_str_radix", "num_bigint::BigUint::to_str_radix")
def m_radix(E, fr, st, c, a):
    if a[1].op == "int" and a[1].a[0] == 10:
        return [(st, typed(mk("app", "to_string", a[0]), STRING_TY))]
    return None


def big(t):
    t = unref(t) if t is not None else None
    return t is not None and t.k == "adt" and t.n.split("::")[-1] in ("BigInt", "BigUint")


@models.model("num_bigint::ToBigInt::to_bigint", "num_bigint::ToBigUint::to_biguint")
def m_to_big(E, fr, st, c, args):
    v = E.deref_all(st, args[0])
    t = unref(c.a[0]) if c.a else None
    if t is None or not (t.k in INTK or big(t)):
        return None
    if not norm(c.c["n"]).endswith("uint") or v.op == "int" and v.a[0] >= 0 or t.k[0] == "u":
        return [(st, some(v))]
    if v.op == "int":
        return [(st, NONE)]
    return [(s, some(v) if y else NONE) for s, y in E.bool_split(st, dist(v, lambda x: E.cmp(st, "Ge", x, I(0)), BOOL_TY))]


def m_const(n):
    def f(E, fr, st, c, args):
        return [(st, I(n))] if big(c.rty) or c.rty is not None and c.rty.k in INTK else None
    return f


M["num_traits::Zero::zero"] = m_const(0)
M["num_traits::One::one"] = m_const(1)


def m_sign(op):
    def f(E, fr, st, c, args):
        t = unref(c.a[0]) if c.a else None
        if t is not None and not (big(t) or t.k in INTK):
            return None
        return [(st, dist(E.deref_all(st, args[0]), lambda x: E.cmp(st, op, x, I(0)), BOOL_TY))]
    return f


M["num_traits::Signed::is_negative"] = m_sign("Lt")
M["num_traits::Signed::is_positive"] = m_sign("Gt")
M["num_traits::Zero::is_zero"] = m_sign("Eq")


@models.model("num_bigint::BigInt::sign")
def m_bigsign(E, fr, st, c, args):
    v = E.deref_all(st, args[0])
    n = c.rty.id if c.rty is not None and c.rty.k == "adt" else None
    if n is None or v.op == "case":
        return None
    out = []
    for k, d in ((0, (-2**127, -1)), (1, (0, 0)), (2, (1, 2**127))):
        s = st.assume_g([(v, ("I", (d,)))]) if v.op != "int" else (st if d[0] <= v.a[0] <= d[1] else None)
        if s is not None:
            out.append((s, mk("adt", n, k)))
    return out


# ------------------------------------------------------------------ time zones
ZONE = (-86399, 86399)


def zone(neg, must):
    def f(E, fr, st, c, args):
        v = E.deref_all(st, args[0])
        if v.op == "case":
            return None
        x = values_neg(v) if neg else v
        t = c.rty if must else (c.rty.a[0] if c.rty is not None and c.rty.a else None)
        z = typed(mk("app", "zone", x), t)
        out = []
        for s, y in E.bool_split(st, E.b_and(E.cmp(st, "Ge", v, I(ZONE[0])), E.cmp(st, "Le", v, I(ZONE[1])))):
            if y:
                out.append((s, z if must else some(z)))
            elif must:
                E.panic(s, fr, c.line, "zone")
            else:
                out.append((s, NONE))
        return out
    return f


def values_neg(v):
    return I(-v.a[0]) if v.op == "int" else mkmul(v, -1, I32)


for _n, _neg in (("east", False), ("west", True)):
    for _p in ("chrono::FixedOffset::", "chrono::offset::FixedOffset::", "chrono::offset::fixed::FixedOffset::"):
        M[_p + _n] = zone(_neg, True)
        M[_p + _n + "_opt"] = zone(_neg, False)


def m_local(neg):
    def f(E, fr, st, c, args):
        v = E.deref_all(st, args[0])
        if v.op == "app" and v.a[0] == "zone":
            return [(st, values_neg(v.a[1]) if neg else v.a[1])]
        return None
    return f


for _p in ("chrono::FixedOffset::", "chrono::offset::FixedOffset::", "chrono::offset::fixed::FixedOffset::"):
    M[_p + "local_minus_utc"] = m_local(False)
    M[_p + "utc_minus_local"] = m_local(True)


# ------------------------------------------------------------------ clock durations
@dmodel("std::time::Duration::from_secs")
def m_from_secs(E, fr, st, c, a):
    return [(st, typed(mk("app", "clock", a[0], I(0)), c.rty))]


@dmodel("std::time::Duration::new")
def m_clock_new(E, fr, st, c, a):
    if a[1].op == "int" and a[1].a[0] < 10 ** 9:
        return [(st, typed(mk("app", "clock", a[0], a[1]), c.rty))]
    return None


@dmodel("std::time::Duration::checked_add")
def m_clock_add(E, fr, st, c, a):
    x, y = sorted(a, key=lambda t: t.uid)
    return [(st, typed(mk("app", "clock-sum", x, y), c.rty))]


ADD = M["std::ops::Add::add"]


@models.model("std::time::Duration::saturating_add", "std::ops::Add::add")
def m_clock_sat(E, fr, st, c, args):
    a = [E.deref_all(st, x) for x in args]
    if c.rty is None or c.rty.k != "adt" or not c.rty.n.endswith("time::Duration"):
        return ADD(E, fr, st, c, args)
    x, y = sorted(a, key=lambda t: t.uid)
    v = mk("app", "clock-sum", x, y)
    out = []
    for k in (0, 1):
        s = st.assume(v, ("V", frozenset([k]), 2))
        if s is not None and k == 1:
            out.append((s, project(v, k, 0, c.rty)))
        elif s is not None and "saturating" in c.c["n"]:
            out.append((s, typed(mk("app", "clock-max"), c.rty)))
        elif s is not None:
            E.panic(s, fr, c.line, "add")
    return out


@dmodel("std::time::Duration::try_from_secs_f64")
def m_try_from(E, fr, st, c, a):
    return [(st, typed(mk("app", "clock-of", a[0]), c.rty))]


def payload(E, fr, st, c, t):
    """the value of a result or option, or a panic"""
    v = typed(t, None)
    out = []
    for k in (0, 1):
        s = st.assume(v, ("V", frozenset([k]), 2))
        if s is None:
            continue
        good = 1 if v.a[0] == "clock-sum" else 0
        if k == good:
            out.append((s, project(v, k, 0, c.rty)))
        else:
            E.panic(s, fr, c.line, c.c["n"].split("::")[-1])
    return out


@models.model("std::time::Duration::from_secs_f64")
def m_from_f64(E, fr, st, c, args):
    return payload(E, fr, st, c, mk("app", "clock-of", E.deref_all(st, args[0])))


# ------------------------------------------------------------------ XML events written and read
def count(st, kind):
    """how many events of a kind the trace holds, or None when it is not a plain list"""
    w = st.mem.get(files.WORLD)
    if w is None:
        return 0
    if w.op != "seq" or any(x.op != "one" for x in w.a):
        return None
    return sum(1 for x in w.a if x.a[0].op == "app" and x.a[0].a[:2] == (files.F + "event", kind))


def outcome(E, st, name, n):
    return E.bool_split(st, typed(mk("app", name, I(n)), BOOL_TY))


@dmodel("xml::writer::XmlEvent::start_element", "xml::writer::events::XmlEvent::start_element")
def m_xml_start(E, fr, st, c, a):
    return [(st, typed(mk("app", "xml:start", a[0]), c.rty))]


@dmodel("xml::writer::XmlEvent::characters", "xml::writer::events::XmlEvent::characters")
def m_xml_chars(E, fr, st, c, a):
    return [(st, typed(mk("app", "xml:characters", a[0]), c.rty))]


def xml_event(E, v):
    """the event a directly built variant stands for"""
    if v.op == "adt" and v.a[0].endswith("XmlEvent"):
        rec = E.prog.adts.get(v.a[0])
        n = rec["v"][v.a[1]]["n"] if rec else None
        if n == "Characters":
            return mk("app", "xml:characters", v.a[2])
        if n == "EndElement" and v.a[2] is NONE:
            return mk("app", "xml:end")
    return v


@dmodel("xml::writer::XmlEvent::end_element", "xml::writer::events::XmlEvent::end_element")
def m_xml_end0(E, fr, st, c, a):
    return [(st, typed(mk("app", "xml:end"), c.rty))]


def m_xml_end(E, fr, st, c, args):
    return [(st, typed(mk("app", "xml:end"), c.rty))]


for _n in ("xml::writer::XmlEvent::end_element", "xml::writer::events::XmlEvent::end_element"):
    M[_n] = m_xml_end


@models.model("yaserde::ser::Serializer::write", "xml::writer::EventWriter::write")
def m_xml_write(E, fr, st, c, args):
    n = count(st, "xml")
    if n is None:
        return None
    v = dist(E.deep(st, args[1]), lambda x: xml_event(E, x))
    st = files.event(E, st, "xml", v)
    return [(s, ok(UNIT) if y else err(mk("app", "xml:error", I(n)))) for s, y in outcome(E, st, "xml:wrote", n)]


@models.model("yaserde::ser::Serializer::skip_start_end")
def m_skip(E, fr, st, c, args):
    return [(st, typed(mk("app", "xml:skip"), BOOL_TY))]


@models.model("yaserde::ser::Serializer::get_start_event_name")
def m_start_name(E, fr, st, c, args):
    return [(st, typed(mk("app", "xml:name"), c.rty))]


def head(E, n, rty):
    """the event at the head of the input after n were consumed"""
    return typed(mk("app", "xml:peek", I(n)), rty)


@models.model("yaserde::de::Deserializer::peek")
def m_peek(E, fr, st, c, args):
    n = count(st, "xml-next")
    return None if n is None else [(st, head(E, n, c.rty))]


@models.model("yaserde::de::Deserializer::next_event")
def m_next_event(E, fr, st, c, args):
    n = count(st, "xml-next")
    if n is None:
        return None
    st = files.event(E, st, "xml-next")
    t = c.rty.a[0] if c.rty is not None and c.rty.a else None
    return [(s, ok(project(head(E, n, None), 0, 0, t)) if y else err(mk("app", "xml:error", I(n))))
            for s, y in outcome(E, st, "xml:read", n)]


import files
