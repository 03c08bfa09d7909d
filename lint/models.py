"""Transfer functions for the external (std and third-party) operations the code base uses."""
import re
from core import *
from core import _rw as core_rw
from dom import *
import chars

PATH_IDS = {"std::path::PathBuf", "std::path::Path", "std::ffi::os_str::OsString", "std::ffi::os_str::OsStr"}
STR_IDS = {"alloc::string::String", "alloc::borrow::Cow"}


def stringy(t):
    while t is not None:
        if t.k == "str":
            return True
        if t.k == "ref" and t.a:
            t = t.a[0]
            continue
        if t.k == "adt":
            if t.id == "alloc::string::String" or t.id in PATH_IDS:
                return True
            if t.id in ("alloc::borrow::Cow", "alloc::boxed::Box", "alloc::rc::Rc", "core::cell::Ref", "core::cell::RefMut", "alloc::sync::Arc") and t.a:
                t = t.a[-1] if t.id == "alloc::borrow::Cow" else t.a[0]
                continue
        return False
    return False


def unref(t):
    while t is not None and t.k == "ref" and t.a:
        t = t.a[0]
    return t


_norm = {}


def norm(n):
    r = _norm.get(n)
    if r is not None:
        return r
    out, i = [], 0
    while i < len(n):
        if n.startswith("::<", i) and not n.startswith("::<impl", i):
            d, j = 0, i + 2
            while j < len(n):
                if n[j] == "<":
                    d += 1
                elif n[j] == ">" and n[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(n[i])
        i += 1
    r = "".join(out)
    r = re.sub(r"<impl [^>]*? for ([a-z]+|\[T\])>", r"<impl \1>", r)
    _norm[n] = r
    return r


class Call:
    __slots__ = ("c", "a", "rty", "line")

    def __init__(self, c, a, rty, line):
        self.c, self.a, self.rty, self.line = c, a, rty, line


M = {}


def model(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f
    return deco


def lookup(c):
    for n in (c["n"], c.get("rn")):
        if n:
            k = norm(n)
            if k in M:
                return M[k]
            # inherent methods of slices/str/char/ints: `core::str::<impl str>::len`
            m = re.match(r".*<impl (.+)>::(\w+)$", k)
            if m:
                k2 = f"{m.group(1)}::{m.group(2)}"
                if k2 in M:
                    return M[k2]
    return None


WORLD_RE = re.compile(r"^std::(fs|net|process|env|io)::|^<std::fs|std::io::(Read|Write|BufRead)::|^clap::Parser::|"
                      r"std::path::Path::(exists|is_dir|is_file|metadata)$")


def is_world(c, name):
    if c is not None and WORLD_RE.search(norm(c["n"])):
        return True
    return bool(WORLD_RE.search(name))


def type_matters(name):
    return name.endswith(("::parse", "::into", "::from", "::default", "parse_from_str", "::sum", "::try_into", "::try_from"))


def shared_only(c, args, p):
    """shared references handed to std/third-party code are not written through"""
    n = norm(c["n"]) if c else ""
    if n.startswith(("roxmltree::", "core::fmt", "std::fmt::Arguments", "std::fmt::format")):
        return True
    if c is not None and "sig_mut" in c:
        return not c["sig_mut"]
    m = n.split("::")[-1]
    if m in ("to_string", "clone", "eq", "ne", "cmp", "partial_cmp", "fmt", "hash", "as_ref", "len", "is_empty",
             "new_debug", "new_display", "skip_start_end", "get_start_event_name"):
        return True
    return False


# ------------------------------------------------------------------ derived impls
def derived(E, fr, st, fn, c, args, rty):
    m = fn.id.split("::")[-1]
    if m == "clone":
        return [(st, snap(E, st, args[0]))]
    if m in ("eq", "ne"):
        b = eq(E, st, args[0], args[1])
        return [(st, b if m == "eq" else E.b_not(b))]
    if m == "fmt":
        return fmt_push(E, st, args[1], typed(mk("app", "debug", E.deep(st, args[0])), STRING_TY))
    if m in ("partial_cmp", "cmp", "hash"):
        return [(st, E.pure_app(fn.id, [E.deep(st, x) for x in args], rty))]
    return None


def snap(E, st, v):
    """one level of dereference (Clone::clone(&x), *r)"""
    if v.op == "ptr":
        return E.load(st, v.a[0], v.a[1])
    return v


def eq(E, st, a, b, d=0):
    a, b = E.deref_all(st, a), E.deref_all(st, b)
    if a is b:
        return TRUE
    if a.op == "case":
        return dist(a, lambda x: eq(E, st, x, b, d), BOOL_TY)
    if b.op == "case":
        return dist(b, lambda x: eq(E, st, a, x, d), BOOL_TY)
    if a.op in ("str", "char", "int", "bool") and b.op in ("str", "char", "int", "bool"):
        return B(a.a[0] == b.a[0])
    if b.op == "adt" and a.op != "adt":
        a, b = b, a
    if a.op == "adt":
        if b.op == "adt":
            if a.a[0] != b.a[0]:
                return typed(mk("cmp", "Eq", *sorted((a, b), key=lambda t: t.uid)), BOOL_TY)
            if a.a[1] != b.a[1]:
                return FALSE
            r = TRUE
            for x, y in zip(a.a[2:], b.a[2:]):
                r = E.b_and(r, eq(E, st, x, y, d + 1))
            return r
        rec = E.prog.adts.get(a.a[0])
        if rec is not None and rec["k"] == "enum":
            n = len(rec["v"])
            r = E.member(b, ("V", frozenset([a.a[1]]), n))
            fts = rec["ft"][a.a[1]] if rec["ft"] else [None] * 10
            for i, x in enumerate(a.a[2:]):
                ft = fts[i] if i < len(fts) else None
                if ft is None or ft.k == "param":
                    ft = x.ty
                r = E.b_and(r, eq(E, st, x, project(b, a.a[1], i, ft), d + 1))
            return r
        if rec is not None:
            r = TRUE
            for i, x in enumerate(a.a[2:]):
                ft = rec["ft"][0][i] if rec["ft"] else x.ty
                r = E.b_and(r, eq(E, st, x, project(b, 0, i, ft), d + 1))
            return r
    if a.op == "tup" and b.op == "tup" and len(a.a) == len(b.a):
        r = TRUE
        for x, y in zip(a.a, b.a):
            r = E.b_and(r, eq(E, st, x, y, d + 1))
        return r
    if a.op in ("str", "char"):
        a, b = b, a
    if b.op in ("str", "char"):
        if a.op == "cat":
            return cat_eq(E, a, b.a[0])
        return E.member(a, ("S", True, frozenset([b.a[0]])))
    if b.op == "int" or a.op == "int" or (a.ty is not None and a.ty.k in INTK):
        return E.cmp(st, "Eq", a, b)
    if a.op == "bool" or b.op == "bool":
        return E.cmp(st, "Eq", a, b)
    if a.op == "seq" and not a.a:
        a, b = b, a
    if b.op == "seq" and not b.a:
        s = E.seq_of(a)
        return E.b_not(E.nonempty(s))
    if a.op == "seq" and b.op == "seq" and all(x.op == "one" for x in a.a + b.a):
        if len(a.a) != len(b.a):
            return FALSE
        r = TRUE
        for x, y in zip(a.a, b.a):
            r = E.b_and(r, eq(E, st, x.a[0], y.a[0], d + 1))
        return r
    return E.cmp(st, "Eq", a, b)


def cat_eq(E, a, lit):
    ps = list(a.a)
    i, j = 0, len(lit)
    while ps and ps[0].op == "str":
        if not lit.startswith(ps[0].a[0], i):
            return FALSE
        i += len(ps[0].a[0])
        ps.pop(0)
    while ps and ps[-1].op == "str":
        if not lit[i:j].endswith(ps[-1].a[0]):
            return FALSE
        j -= len(ps[-1].a[0])
        ps.pop()
    if j < i:
        return FALSE
    rest = lit[i:j]
    if not ps:
        return B(rest == "")
    if len(ps) == 1:
        return dist(ps[0], lambda x: B(x.a[0] == rest) if x.op == "str" else (
            cat_eq(E, x, rest) if x.op == "cat" else E.member(x, ("S", True, frozenset([rest])))), BOOL_TY)
    if rest == "":
        r = TRUE
        for p in ps:
            r = E.b_and(r, dist(p, lambda x: B(x.a[0] == "") if x.op == "str" else (
                cat_eq(E, x, "") if x.op == "cat" else E.member(x, ("S", True, frozenset([""])))), BOOL_TY))
        return r
    return E.member(a, ("S", True, frozenset([lit])))


def char_items(x):
    """the comprehension behind a string that is put together from single characters"""
    if x.op != "strof" or len(x.a) != 1 or x.a[0].op != "comp":
        return None
    for g, segs in x.a[0].a[2]:
        for y in segs:
            if y.op != "one" or not (y.a[0].op == "char" or y.a[0].ty is not None and y.a[0].ty.k == "char"):
                return None
    return x.a[0]


def alphabet(x):
    """classes of the characters that can occur in a string"""
    if x.op in ("str", "char"):
        return frozenset(chars.cls(c) for c in x.a[0])
    if x.op in ("cat", "case"):
        r = frozenset()
        for y in (x.a if x.op == "cat" else [v for _, v in x.a[0]]):
            r |= alphabet(y)
        return r
    if x.op in ("before", "past"):
        return alphabet(x.a[1])
    k = char_items(x)
    if k is not None:
        r = frozenset()
        for g, segs in k.a[2]:
            f = dict(g)
            for y in segs:
                c = y.a[0]
                d = f.get(cls_of(c))
                r |= frozenset([chars.cls(c.a[0])]) if c.op == "char" else d[1] if d is not None else chars.ALL
        return r
    if x.ty is not None and x.ty.k == "char":
        return chars.ALL
    return chars.ALL


def may_equal(x, w):
    """could the string be the literal?  (decided by the characters it is made of)"""
    if x.op == "strof":
        return {chars.cls(c) for c in w} <= alphabet(x)
    if x.op == "cat":
        if x.a[0].op == "str" and not w.startswith(x.a[0].a[0]) or x.a[-1].op == "str" and not w.endswith(x.a[-1].a[0]):
            return False
        i = 0
        for y in x.a:
            if y.op == "str":
                i = w.find(y.a[0], i)
                if i < 0:
                    return False
                i += len(y.a[0])
        return {chars.cls(c) for c in w} <= alphabet(x)
    return True


def str_isempty(E, v):
    if v.op == "case":
        return dist(v, lambda x: str_isempty(E, x), BOOL_TY)
    if v.op == "str":
        return B(v.a[0] == "")
    if v.op == "cat":
        return cat_eq(E, v, "")
    return E.member(v, ("S", True, frozenset([""])))


# ------------------------------------------------------------------ identities
def ident(E, fr, st, c, args):
    return [(st, args[0])]


for n in ("std::string::String::as_str", "std::hint::must_use", "std::string::String::into_boxed_str",
          "std::borrow::Cow::into_owned", "std::borrow::Cow::to_mut", "std::boxed::Box::new", "std::rc::Rc::new",
          "std::cell::RefCell::new", "std::cell::RefCell::into_inner", "std::vec::Vec::as_slice", "std::vec::Vec::into_boxed_slice",
          "std::option::Option::as_deref", "std::iter::Iterator::peekable", "std::iter::Iterator::by_ref",
          "std::iter::Iterator::fuse", "str::as_bytes_", "std::cell::Cell::new", "std::path::Path::new", "std::path::PathBuf::as_path",
          "std::str::<impl str>::into_string", "str::to_string", "std::convert::identity", "std::vec::Vec::as_mut_slice",
          "std::string::String::leak", "core::fmt::rt::Argument::none", "std::slice::<impl [T]>::into_vec", "[T]::into_vec", "[T]::to_vec",
          "std::boxed::Box::leak", "std::boxed::Box::into_inner", "std::string::String::shrink_to_fit", "anyhow::__private::must_use",
          "std::string::String::into_string", "std::path::PathBuf::into_os_string", "std::borrow::Cow::is_borrowed_"):
    M[n] = ident


@model("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::option::Option::cloned",
       "std::option::Option::copied", "std::clone::Clone::clone_from_")
def m_clone(E, fr, st, c, args):
    v = snap(E, st, args[0])
    if norm(c.c["n"]).endswith(("cloned", "copied")):
        return [(st, dist(args[0], lambda x: mk("adt", OPT, 1, snap(E, st, x.a[2])) if x.op == "adt" and x.a[1] == 1 else x, c.rty))]
    return [(st, v)]


@model("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut",
       "std::borrow::Borrow::borrow", "std::borrow::BorrowMut::borrow_mut")
def m_deref(E, fr, st, c, args):
    v = args[0]
    if v.op == "ptr":
        x = E.load(st, v.a[0], v.a[1])
        t = unref(c.a[0]) if c.a else None
        if x.op == "ptr" and t is not None and t.k == "adt" and t.id in ("core::cell::Ref", "core::cell::RefMut", "alloc::boxed::Box", "alloc::rc::Rc"):
            return [(st, x)]
        if t is not None and t.k == "adt" and t.id in ("core::cell::Ref",):
            return [(st, x)]
    return [(st, v)]


@model("std::cell::RefCell::borrow", "std::cell::RefCell::borrow_mut", "std::cell::RefCell::get_mut", "std::cell::RefCell::try_borrow_")
def m_borrow(E, fr, st, c, args):
    v = args[0]
    if v.op != "ptr" and not norm(c.c["n"]).endswith("::borrow"):
        st = st.copy()
        cell = ("o", v)
        return [(st, mk("ptr", cell, ()))]
    if v.op == "ptr" and norm(c.c["n"]).endswith("::borrow"):
        t = c.a[0] if c.a else None
        if t is not None and E.prog.freeze(t):
            return [(st, E.load(st, v.a[0], v.a[1]))]
    return [(st, v)]


@model("std::cell::RefCell::replace", "std::mem::replace", "std::cell::Cell::replace")
def m_replace(E, fr, st, c, args):
    p = args[0]
    if p.op != "ptr":
        return None
    st = st.copy()
    old = E.load(st, p.a[0], p.a[1])
    E.store(st, p.a[0], p.a[1], args[1])
    return [(st, old)]


@model("std::mem::take", "std::cell::RefCell::take", "std::option::Option::take")
def m_take(E, fr, st, c, args):
    p = args[0]
    if p.op != "ptr":
        return None
    st = st.copy()
    old = E.load(st, p.a[0], p.a[1])
    nm = norm(c.c["n"])
    if nm.endswith("Option::take"):
        E.store(st, p.a[0], p.a[1], NONE)
        return [(st, old)]
    out = []
    for s, d in default_value(E, fr, st, c.a[0], c.line):
        s = s.copy()
        E.store(s, p.a[0], p.a[1], d)
        out.append((s, old))
    return out


@model("std::mem::swap")
def m_swap(E, fr, st, c, args):
    a, b = args
    st = st.copy()
    x, y = E.load(st, a.a[0], a.a[1]), E.load(st, b.a[0], b.a[1])
    E.store(st, a.a[0], a.a[1], y)
    E.store(st, b.a[0], b.a[1], x)
    return [(st, UNIT)]


@model("std::mem::drop", "std::mem::forget")
def m_drop(E, fr, st, c, args):
    return [(st, UNIT)]


@model("std::boxed::Box::new_uninit")
def m_uninit(E, fr, st, c, args):
    st = st.copy()
    i = 0
    while ("h", len(E.stack), c.line, i) in st.mem:
        i += 1
    cell = ("h", len(E.stack), c.line, i)
    st.mem[cell] = mk("undef")
    return [(st, mk("ptr", cell, ()))]


@model("std::boxed::box_assume_init_into_vec_unsafe")
def m_into_vec(E, fr, st, c, args):
    p = args[0]
    v = E.load(st, p.a[0], p.a[1])
    st = st.copy()
    if p.a[0][0] == "h":
        st.mem.pop(p.a[0], None)
    return [(st, v)]


# ------------------------------------------------------------------ defaults and conversions
def default_value(E, fr, st, t, line):
    if t is None:
        return [(st, mk("app", "default:?"))]
    if stringy(t):
        return [(st, typed(S(""), t))]
    if t.k in INTK:
        return [(st, typed(I(0), t))]
    if t.k == "bool":
        return [(st, FALSE)]
    if t.k == "tuple":
        if not t.a:
            return [(st, UNIT)]
        vs = []
        for x in t.a:
            r = default_value(E, fr, st, x, line)
            if len(r) != 1:
                return [(st, mk("float", "0f64") if t.k == "f64" else typed(mk("app", f"default:{t.s}"), t))]
            vs.append(r[0][1])
        return [(st, typed(mk("tup", *vs), t))]
    if t.k == "adt":
        if t.id == OPT:
            return [(st, typed(mk("adt", OPT, 0), t))]
        if t.id in (VEC,) or t.id.endswith(("VecDeque", "linked_list::LinkedList")):
            return [(st, typed(mk("seq"), t))]
        if t.id in ("core::cell::RefCell", "alloc::boxed::Box", "alloc::rc::Rc", "core::cell::Cell") and t.a:
            return default_value(E, fr, st, t.a[0], line)
        if t.id.endswith(("HashMap", "HashSet", "BTreeMap", "BTreeSet")):
            return [(st, typed(mk("map"), t))]
        if values.big(t):
            return [(st, I(0))]
        for pt, ms in E.prog.impl_ix.get("core::default::Default", ()):
            b = {}
            if unify_ty(pt, t, b) and ms.get("default") in E.prog.fns:
                fn = E.prog.fns[ms["default"]]
                return E.invoke(fr, st, fn, [], tuple(sorted(b.items())), t, line)
    return [(st, mk("float", "0f64") if t.k == "f64" else typed(mk("app", f"default:{t.s}"), t))]


@model("std::default::Default::default")
def m_default(E, fr, st, c, args):
    return default_value(E, fr, st, c.a[0] if c.a else c.rty, c.line)


def convert(E, fr, st, v, src, dst, line):
    """From/Into"""
    s0, d0 = src, dst
    if src is dst or (src is not None and dst is not None and stringy(src) and stringy(dst)):
        return [(st, E.deref_all(st, v) if stringy(dst) and v.op == "ptr" else v)]
    if src is not None and dst is not None:
        if src.s == dst.s:
            return [(st, v)]
        for pt, ms in E.prog.impl_ix.get("core::convert::From", ()):
            if unify_ty(pt, dst, {}) and ms.get("from") in E.prog.fns:
                fn = E.prog.fns[ms["from"]]
                at = fn.locals[1]
                if at.s == src.s or (stringy(at) and stringy(src)) or unify_ty(at, src, {}):
                    return E.invoke(fr, st, fn, [v], (), dst, line)
        for pt, ms in E.prog.impl_ix.get("core::convert::Into", ()):
            if unify_ty(pt, src, {}) and ms.get("into") in E.prog.fns:
                fn = E.prog.fns[ms["into"]]
                if fn.locals[0].s == dst.s:
                    return E.invoke(fr, st, fn, [v], (), dst, line)
        if dst.k in INTK and src.k in INTK:
            return [(st, E.cast(st, "IntToInt", v, dst))]
        if values.big(dst) and src.k in INTK and (src.k[0] == "u" or dst.n.endswith("BigInt")):
            return [(st, v)]
        if dst.k == "adt" and dst.id == OPT and dst.a and (dst.a[0] is src or dst.a[0].s == src.s):
            return [(st, some(v))]
        if dst.k == "adt" and src.k == "adt" and dst.id in ("alloc::rc::Rc", "alloc::boxed::Box", "core::cell::RefCell") and dst.a and dst.a[0] is src:
            return [(st, v)]
        if dst.k == "adt" and dst.id == VEC and (src.k in ("array", "slice") or unref(src).k in ("array", "slice")):
            return [(st, v)]
        if dst.k == "adt" and dst.id == STRING and src.k == "char":
            return [(st, cat(v))]
    if dst is not None and dst.s.startswith("xml::writer::") and src is not None and src.s.startswith("xml::writer::"):
        # a builder of an event as the event it builds
        return [(st, E.deep(st, v))]
    return [(st, E.pure_app(f"into:{dst.s if dst else '?'}", [E.deep(st, v)], dst))]


@model("std::convert::Into::into")
def m_into(E, fr, st, c, args):
    return convert(E, fr, st, args[0], c.a[0], c.a[1] if len(c.a) > 1 else c.rty, c.line)


@model("std::convert::From::from")
def m_from(E, fr, st, c, args):
    return convert(E, fr, st, args[0], c.a[1] if len(c.a) > 1 else None, c.a[0], c.line)


@model("std::string::ToString::to_string", "std::string::SpecToString::spec_to_string")
def m_to_string(E, fr, st, c, args):
    return display(E, fr, st, args[0], c.a[0] if c.a else None, c.line)


def display(E, fr, st, v, t, line, spec=None):
    """[(state, string)] for `{}` of a value of type t"""
    v = E.deref_all(st, v)
    t = unref(t)
    if t is None or stringy(t):
        if t is None and v.ty is not None and not stringy(v.ty) and v.op not in ("str", "cat"):
            t = unref(v.ty)
        else:
            return [(st, v)]
    if t.k == "char":
        return [(st, dist(v, lambda x: S(x.a[0]) if x.op == "char" else typed(cat(x), STRING_TY), STRING_TY))]
    if v.op == "int":
        return [(st, S(str(v.a[0])))]
    if t.k == "adt" and t.id in ("alloc::boxed::Box", "alloc::rc::Rc", "core::cell::Ref") and t.a:
        return display(E, fr, st, v, t.a[0], line, spec)
    for pt, ms in E.prog.impl_ix.get("core::fmt::Display", ()):
        b = {}
        if unify_ty(pt, t, b) and ms.get("fmt") in E.prog.fns:
            fn = E.prog.fns[ms["fmt"]]
            st = st.copy()
            cell = ("fmt", len(E.stack))
            keep = st.mem.get(cell)
            st.mem[cell] = typed(S(""), STRING_TY)
            out = []
            for s, r in E.invoke(fr, st, fn, [v, mk("ptr", cell, ())], tuple(sorted(b.items())), None, line):
                s = s.copy()
                txt = s.mem.pop(cell)
                if keep is not None:
                    s.mem[cell] = keep
                out.append((s, typed(txt, STRING_TY)))
            return E.merge_rows(st, out, STRING_TY) if len(out) > 1 else out
    r = values.display_value(E, st, v, t)
    if r is not None:
        return E.merge_rows(st, r, STRING_TY) if len(r) > 1 else r
    return [(st, dist(v, lambda x: S(str(x.a[0])) if x.op == "int" else typed(mk("app", "to_string", values.plain(x)), STRING_TY), STRING_TY))]


# ------------------------------------------------------------------ formatting
@model("core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug", "core::fmt::rt::Argument::new_lower_hex",
       "core::fmt::rt::Argument::new_upper_hex")
def m_arg(E, fr, st, c, args):
    kind = norm(c.c["n"]).split("_", 1)[1]
    return [(st, mk("fmtarg", kind, E.deep(st, args[0]) , TyBox.get(c.a[0] if c.a else None)))]


class TyBox:
    _t = {}
    __slots__ = ("t",)

    @classmethod
    def get(cls, t):
        r = cls._t.get(t)
        if r is None:
            r = cls._t[t] = cls()
            r.t = t
        return r

    def __repr__(self):
        return self.t.s if self.t is not None else "?"


@model("std::fmt::Arguments::new", "core::fmt::rt::<impl std::fmt::Arguments<'a>>::new", "std::fmt::Arguments::new_v1")
def m_arguments(E, fr, st, c, args):
    tpl, aa = E.deref_all(st, args[0]), E.deref_all(st, args[1])
    if tpl.op != "bytes" or aa.op != "seq":
        return None
    fa = [x.a[0] for x in aa.a]
    b = tpl.a[0]
    parts, i, nxt = [], 0, 0
    while i < len(b) and b[i] != 0:
        x = b[i]
        if x < 0x80:
            parts.append(S(bytes(b[i + 1:i + 1 + x]).decode("utf8", "replace")))
            i += 1 + x
        elif x == 0x80:
            n = b[i + 1] | (b[i + 2] << 8)
            parts.append(S(bytes(b[i + 3:i + 3 + n]).decode("utf8", "replace")))
            i += 3 + n
        else:
            i += 1
            fl, w, pr = 0, None, None
            if x & 1:
                fl = int.from_bytes(bytes(b[i:i + 4]), "little")
                i += 4
            if x & 2:
                w = int.from_bytes(bytes(b[i:i + 2]), "little")
                i += 2
            if x & 4:
                pr = int.from_bytes(bytes(b[i:i + 2]), "little")
                i += 2
            if x & 8:
                nxt = int.from_bytes(bytes(b[i:i + 2]), "little")
                i += 2
            spec = (fl, w, pr, bool(x & 16), bool(x & 32)) if (x & 7) else None
            parts.append(mk("hole", fa[nxt], spec))
            nxt += 1
    return [(st, mk("fmtargs", *parts))]


@model("std::fmt::Arguments::from_str", "std::fmt::Arguments::from_str_nonconst", "std::fmt::Arguments::new_const")
def m_arguments_str(E, fr, st, c, args):
    v = E.deref_all(st, args[0])
    if v.op == "seq":
        v = cat(*[x.a[0] for x in v.a])
    return [(st, mk("fmtargs", v))]


def render(E, fr, st, fa, line):
    """[(state, string)] of a fmt::Arguments value"""
    if fa.op != "fmtargs":
        return [(st, typed(mk("app", "render", fa), STRING_TY))]
    rs = [(st, S(""))]
    for p in fa.a:
        nx = []
        for s, acc in rs:
            if p.op != "hole":
                nx.append((s, cat(acc, p)))
                continue
            arg, spec = p.a
            if arg.op != "fmtarg":
                nx.append((s, cat(acc, typed(mk("app", "render", arg), STRING_TY))))
                continue
            kind, v, tb = arg.a
            if kind != "display":
                if v.op == "str" and kind == "debug":
                    nx.append((s, cat(acc, S('"' + v.a[0].replace("\\", "\\\\").replace('"', '\\"') + '"'))))
                    continue
                nx.append((s, cat(acc, typed(mk("app", kind, v), STRING_TY))))
                continue
            if spec is not None:
                nx.append((s, cat(acc, dist(v, lambda x: values.padded(E, s, x, spec), STRING_TY))))
                continue
            for s2, x in display(E, fr, s, v, tb.t, line):
                nx.append((s2, cat(acc, x)))
        rs = nx
    return rs


def fmt_spec(v, spec):
    if v.op == "int" and spec[1] is not None and spec[2] is None and not spec[3] and not spec[4]:
        fl = spec[0]
        fill = chr(fl & 0x1fffff)
        if fl & (1 << 24):
            return S(("-" if v.a[0] < 0 else "") + str(abs(v.a[0])).rjust(spec[1] - (v.a[0] < 0), "0"))
    return dist(v, lambda x: typed(mk("app", "format", x, mk("spec", *spec)), STRING_TY), STRING_TY)


@model("std::fmt::format", "std::fmt::format::format_inner")
def m_format(E, fr, st, c, args):
    return render(E, fr, st, args[0], c.line)


def fmt_push(E, st, f, text):
    st = st.copy()
    f0 = f
    while f.op == "ptr":
        v = E.load(st, f.a[0], f.a[1])
        if v.op == "ptr":
            f = v
            continue
        E.store(st, f.a[0], f.a[1], typed(cat(v, text), v.ty or STRING_TY))
        break
    else:
        cell = ("o", f0)
        st.mem[cell] = cat(E.load(st, cell, ()), text)
    return [(st, ok(UNIT))]


@model("std::fmt::Formatter::write_fmt", "std::fmt::Write::write_fmt", "core::fmt::Write::write_fmt")
def m_write_fmt(E, fr, st, c, args):
    if c.c.get("tr") and not (c.a and (stringy(c.a[0]) or "Formatter" in c.a[0].s)):
        return None
    out = []
    for s, t in render(E, fr, st, args[1], c.line):
        out += fmt_push(E, s, args[0], t)
    return out


@model("std::fmt::Formatter::write_str", "std::fmt::Write::write_str", "std::fmt::Formatter::pad", "std::fmt::Formatter::write_char",
       "std::fmt::Write::write_char")
def m_write_str(E, fr, st, c, args):
    return fmt_push(E, st, args[0], E.deref_all(st, args[1]))


@model("std::fmt::Display::fmt")
def m_display_fmt(E, fr, st, c, args):
    out = []
    for s, t in display(E, fr, st, args[0], c.a[0] if c.a else None, c.line):
        out += fmt_push(E, s, args[1], t)
    return out


@model("std::fmt::Debug::fmt")
def m_debug_fmt(E, fr, st, c, args):
    return fmt_push(E, st, args[1], typed(mk("app", "debug", E.deep(st, args[0])), STRING_TY))


# ------------------------------------------------------------------ panics
def m_panic(E, fr, st, c, args):
    det = ""
    for a in args:
        a = E.deref_all(st, a)
        if a.op == "str":
            det = a.a[0]
        elif a.op == "fmtargs":
            det = "".join(p.a[0] if p.op == "str" else "{}" for p in a.a)
    E.panic(st, fr, c.line, "panic", det)
    return []


for n in ("core::panicking::panic", "core::panicking::panic_fmt", "std::rt::panic_fmt", "std::rt::begin_panic",
          "core::panicking::unreachable_display", "core::panicking::assert_failed", "core::panicking::panic_display",
          "core::panicking::panic_explicit", "core::panicking::panic_default_msg", "core::panicking::panic_nounwind", "std::rt::panic_display", "core::panicking::panic_str_2015",
          "core::panicking::unreachable_default_msg", "core::panicking::panic_const::panic_const_async_fn_resumed",
          "core::panicking::assert_matches_failed", "std::process::abort", "std::rt::begin_panic_fmt"):
    M[n] = m_panic


@model("std::process::exit")
def m_exit(E, fr, st, c, args):
    """an outcome of the whole run where the comparison asks for it"""
    if E.exits is None:
        return m_panic(E, fr, st, c, args)
    if E.elems_active:
        return None
    v = E.deep(st, args[0])
    for g, x in (v.a[0] if v.op == "case" else [(frozenset(), v)]):
        s = st.assume_g(g)
        if s is None:
            continue
        if x.op != "int":
            return None
        E.exits.append((s, ok(UNIT) if x.a[0] == 0 else err(UNIT)))
    return []


# ------------------------------------------------------------------ Option / Result
def optty(c, args):
    return None


def o_split(E, st, v, c):
    t = None
    nm = norm(c.c["n"])
    if c.a:
        t = mkty("adt", n="std::option::Option", id=OPT, a=(c.a[0],), s=f"Option<{c.a[0].s}>")
    return E.split_opt(st, E.deref_all(st, v), t)


def opt_model(*names):
    def deco(f):
        for n in names:
            M["std::option::Option::" + n] = f
        return f
    return deco


def res_model(*names):
    def deco(f):
        for n in names:
            M["std::result::Result::" + n] = f
        return f
    return deco


def r_split(E, st, v, c):
    t = None
    if len(c.a) >= 2:
        t = mkty("adt", n="std::result::Result", id=RES, a=(c.a[0], c.a[1]), s=f"Result<{c.a[0].s}, {c.a[1].s}>")
    return E.split_res(st, E.deref_all(st, v), t)


@opt_model("map")
def o_map(E, fr, st, c, args):
    out = []
    for s, p in o_split(E, st, args[0], c):
        if p is None:
            out.append((s, NONE))
        else:
            out += [(s2, some(v)) for s2, v in E.call_closure(fr, s, args[1], [p], None, c.line)]
    return out


@opt_model("and_then")
def o_and_then(E, fr, st, c, args):
    out = []
    for s, p in o_split(E, st, args[0], c):
        if p is None:
            out.append((s, NONE))
        else:
            out += E.call_closure(fr, s, args[1], [p], c.rty, c.line)
    return out


@opt_model("filter")
def o_filter(E, fr, st, c, args):
    out = []
    for s, p in o_split(E, st, args[0], c):
        if p is None:
            out.append((s, NONE))
        else:
            for s2, b in E.call_closure(fr, s, args[1], [p], BOOL_TY, c.line):
                for s3, y in E.bool_split(s2, b):
                    out.append((s3, some(p) if y else NONE))
    return out


@opt_model("unwrap_or")
def o_unwrap_or(E, fr, st, c, args):
    return [(s, args[1] if p is None else p) for s, p in o_split(E, st, args[0], c)]


@opt_model("unwrap_or_else")
def o_unwrap_or_else(E, fr, st, c, args):
    out = []
    for s, p in o_split(E, st, args[0], c):
        out += [(s, p)] if p is not None else E.call_closure(fr, s, args[1], [], c.rty, c.line)
    return out


@opt_model("unwrap_or_default")
def o_unwrap_or_default(E, fr, st, c, args):
    out = []
    for s, p in o_split(E, st, args[0], c):
        out += [(s, p)] if p is not None else default_value(E, fr, s, c.a[0], c.line)
    return out


@opt_model("map_or")
def o_map_or(E, fr, st, c, args):
    out = []
    for s, p in o_split(E, st, args[0], c):
        out += [(s, args[1])] if p is None else E.call_closure(fr, s, args[2], [p], c.rty, c.line)
    return out


@opt_model("map_or_else")
def o_map_or_else(E, fr, st, c, args):
    out = []
    for s, p in o_split(E, st, args[0], c):
        out += E.call_closure(fr, s, args[1], [], c.rty, c.line) if p is None else \
            E.call_closure(fr, s, args[2], [p], c.rty, c.line)
    return out


@opt_model("is_some_and", "is_none_or")
def o_is_some_and(E, fr, st, c, args):
    out = []
    dflt = B(norm(c.c["n"]).endswith("is_none_or"))
    for s, p in o_split(E, st, args[0], c):
        out += [(s, dflt)] if p is None else E.call_closure(fr, s, args[1], [p], BOOL_TY, c.line)
    return out


@opt_model("ok_or")
def o_ok_or(E, fr, st, c, args):
    return [(s, err(args[1]) if p is None else ok(p)) for s, p in o_split(E, st, args[0], c)]


@opt_model("ok_or_else")
def o_ok_or_else(E, fr, st, c, args):
    out = []
    for s, p in o_split(E, st, args[0], c):
        if p is None:
            out += [(s2, err(v)) for s2, v in E.call_closure(fr, s, args[1], [], None, c.line)]
        else:
            out.append((s, ok(p)))
    return out


@opt_model("or")
def o_or(E, fr, st, c, args):
    return [(s, args[1] if p is None else some(p)) for s, p in o_split(E, st, args[0], c)]


@opt_model("and")
def o_and(E, fr, st, c, args):
    return [(s, NONE if p is None else args[1]) for s, p in o_split(E, st, args[0], c)]


@opt_model("xor")
def o_xor(E, fr, st, c, args):
    return None


@opt_model("or_else")
def o_or_else(E, fr, st, c, args):
    out = []
    for s, p in o_split(E, st, args[0], c):
        out += E.call_closure(fr, s, args[1], [], c.rty, c.line) if p is None else [(s, some(p))]
    return out


@opt_model("is_some", "is_none")
def o_is(E, fr, st, c, args):
    v = E.deref_all(st, args[0])
    want = 1 if norm(c.c["n"]).endswith("is_some") else 0
    return [(st, E.member(v, ("V", frozenset([want]), 2)))]


@opt_model("flatten")
def o_flatten(E, fr, st, c, args):
    out = []
    for s, p in E.split_opt(st, args[0]):
        out.append((s, NONE if p is None else p))
    return out


@opt_model("zip")
def o_zip(E, fr, st, c, args):
    out = []
    for s, p in o_split(E, st, args[0], c):
        if p is None:
            out.append((s, NONE))
            continue
        for s2, q in E.split_opt(s, args[1]):
            out.append((s2, NONE if q is None else some(tup(p, q))))
    return out


@opt_model("expect", "unwrap")
def o_unwrap(E, fr, st, c, args):
    out = []
    for s, p in o_split(E, st, args[0], c):
        if p is None:
            E.panic(s, fr, c.line, "unwrap-none", show(args[0], 4))
        else:
            out.append((s, p))
    return out


@opt_model("unwrap_unchecked")
def o_unwrap_unchecked(E, fr, st, c, args):
    return [(s, p) for s, p in o_split(E, st, args[0], c) if p is not None]


@opt_model("as_ref", "as_mut", "as_deref_mut", "as_slice_")
def o_as_ref(E, fr, st, c, args):
    v = args[0]
    if v.op != "ptr":
        return [(st, v)]
    t = c.a[0] if c.a else None
    mut = not norm(c.c["n"]).endswith("as_ref")
    if not mut and t is not None and E.prog.freeze(t):
        return [(st, E.load(st, v.a[0], v.a[1]))]
    x = E.load(st, v.a[0], v.a[1])
    if x.op == "ptr":
        return [(st, x)]
    out = []
    ot = mkty("adt", n="std::option::Option", id=OPT, a=(t,), s="Option") if t is not None else None
    for s, p in E.split_opt(st, x, ot):
        if p is None:
            out.append((s, NONE))
        elif p.op == "ptr":
            out.append((s, some(p)))
        else:
            out.append((s, some(mk("ptr", v.a[0], v.a[1] + (("f", 1, 0, t),)))))
    return out


@opt_model("get_or_insert_with", "get_or_insert", "insert")
def o_get_or_insert(E, fr, st, c, args):
    v = args[0]
    if v.op != "ptr":
        return None
    t = c.a[0] if c.a else None
    nm = norm(c.c["n"]).split("::")[-1]
    slot = mk("ptr", v.a[0], v.a[1] + (("f", 1, 0, t),))
    out = []
    x = E.load(st, v.a[0], v.a[1])
    for s, p in o_split(E, st, x, c):
        if p is not None and nm != "insert":
            s = s.copy()
            E.store(s, v.a[0], v.a[1], some(p))
            out.append((s, slot))
            continue
        rs = E.call_closure(fr, s, args[1], [], None, c.line) if nm == "get_or_insert_with" else [(s, args[1])]
        for s2, nv in rs:
            s2 = s2.copy()
            E.store(s2, v.a[0], v.a[1], some(nv))
            out.append((s2, slot))
    return out


@opt_model("iter", "into_iter", "iter_mut")
def o_iter(E, fr, st, c, args):
    v = E.deref_all(st, args[0])
    return [(st, opt_seq(E, st, v, c.a[0] if c.a else None))]


def opt_seq(E, st, v, t):
    rows = []
    ot = mkty("adt", n="std::option::Option", id=OPT, a=(t,), s="Option") if t is not None else None
    for s, p in E.split_opt(st, v, ot):
        g = frozenset(x for x in s.f.items() if st.f.get(x[0]) != x[1])
        rows.append((g, () if p is None else (mk("one", p),)))
    if len(rows) == 1:
        return mk("seq", *rows[0][1])
    return mk("seq", mk("if", tuple(rows)))


@opt_model("transpose")
def o_transpose(E, fr, st, c, args):
    out = []
    for s, p in E.split_opt(st, args[0]):
        if p is None:
            out.append((s, ok(NONE)))
        else:
            for s2, k, x in E.split_res(s, p):
                out.append((s2, ok(some(x)) if k else err(x)))
    return out


@opt_model("replace")
def o_replace(E, fr, st, c, args):
    p = args[0]
    if p.op != "ptr":
        return None
    st = st.copy()
    old = E.load(st, p.a[0], p.a[1])
    E.store(st, p.a[0], p.a[1], some(args[1]))
    return [(st, old)]


@res_model("map", "map_err")
def r_map(E, fr, st, c, args):
    out = []
    onok = norm(c.c["n"]).endswith("::map")
    for s, k, p in r_split(E, st, args[0], c):
        if k == onok:
            out += [(s2, ok(v) if k else err(v)) for s2, v in E.call_closure(fr, s, args[1], [p], None, c.line)]
        else:
            out.append((s, ok(p) if k else err(p)))
    return out


@res_model("and_then", "or_else")
def r_and_then(E, fr, st, c, args):
    out = []
    onok = norm(c.c["n"]).endswith("and_then")
    for s, k, p in r_split(E, st, args[0], c):
        if k == onok:
            out += E.call_closure(fr, s, args[1], [p], c.rty, c.line)
        else:
            out.append((s, ok(p) if k else err(p)))
    return out


@res_model("ok", "err")
def r_ok(E, fr, st, c, args):
    want = norm(c.c["n"]).endswith("::ok")
    return [(s, some(p) if k == want else NONE) for s, k, p in r_split(E, st, args[0], c)]


@res_model("is_ok", "is_err")
def r_is(E, fr, st, c, args):
    v = E.deref_all(st, args[0])
    return [(st, E.member(v, ("V", frozenset([0 if norm(c.c["n"]).endswith("is_ok") else 1]), 2)))]


@res_model("unwrap", "expect", "unwrap_err", "expect_err")
def r_unwrap(E, fr, st, c, args):
    out = []
    want = not norm(c.c["n"]).endswith("_err")
    for s, k, p in r_split(E, st, args[0], c):
        if k == want:
            out.append((s, p))
        else:
            E.panic(s, fr, c.line, "unwrap-err", show(args[0], 4))
    return out


@res_model("unwrap_or")
def r_unwrap_or(E, fr, st, c, args):
    return [(s, p if k else args[1]) for s, k, p in r_split(E, st, args[0], c)]


@res_model("unwrap_or_else")
def r_unwrap_or_else(E, fr, st, c, args):
    out = []
    for s, k, p in r_split(E, st, args[0], c):
        out += [(s, p)] if k else E.call_closure(fr, s, args[1], [p], c.rty, c.line)
    return out


@res_model("unwrap_or_default")
def r_unwrap_or_default(E, fr, st, c, args):
    out = []
    for s, k, p in r_split(E, st, args[0], c):
        out += [(s, p)] if k else default_value(E, fr, s, c.a[0], c.line)
    return out


@res_model("map_or", "map_or_else")
def r_map_or(E, fr, st, c, args):
    out = []
    els = norm(c.c["n"]).endswith("else")
    for s, k, p in r_split(E, st, args[0], c):
        if k:
            out += E.call_closure(fr, s, args[2], [p], c.rty, c.line)
        elif els:
            out += E.call_closure(fr, s, args[1], [p], c.rty, c.line)
        else:
            out.append((s, args[1]))
    return out


@res_model("as_ref", "as_deref", "copied", "cloned", "as_mut")
def r_as_ref(E, fr, st, c, args):
    return [(st, E.deref_all(st, args[0]))]


@model("std::ops::Try::branch")
def m_branch(E, fr, st, c, args):
    t = unref(c.a[0]) if c.a else args[0].ty
    v = args[0]
    out = []
    if t is not None and t.id == OPT:
        for s, p in E.split_opt(st, v, t):
            out.append((s, mk("adt", CF, 1, NONE) if p is None else mk("adt", CF, 0, p)))
    elif t is not None and t.id == RES:
        for s, k, p in E.split_res(st, v, t):
            out.append((s, mk("adt", CF, 0, p) if k else mk("adt", CF, 1, err(p))))
    else:
        return None
    return out


@model("std::ops::FromResidual::from_residual")
def m_residual(E, fr, st, c, args):
    t = c.a[0]
    v = args[0]
    if t.id == OPT:
        return [(st, NONE)]
    if t.id == RES:
        src = c.a[1] if len(c.a) > 1 else v.ty
        out = []
        for s, k, p in E.split_res(st, v, src):
            if k:
                continue
            et = src.a[1] if src is not None and src.id == RES and len(src.a) > 1 else None
            for s2, e in convert(E, fr, s, p, et, t.a[1], c.line):
                out.append((s2, err(e)))
        return out
    return None


@model("std::ops::Try::from_output")
def m_from_output(E, fr, st, c, args):
    t = c.a[0]
    return [(st, some(args[0]) if t.id == OPT else ok(args[0]))]


@model("anyhow::context::<impl anyhow::Context<T, E> for std::result::Result<T, E>>::context", "anyhow::Context::context",
       "anyhow::Context::with_context")
def m_context(E, fr, st, c, args):
    out = []
    v = E.deref_all(st, args[0])
    t = c.a[0] if c.a and unref(c.a[0]).id in (RES, OPT) else v.ty
    if t is not None and t.id == OPT:
        for s, p in E.split_opt(st, v, t):
            out.append((s, ok(p) if p is not None else err(mk("app", "anyhow:context", args[1]))))
        return out
    if t is None or t.id != RES:
        if len(c.a) >= 2:
            t = mkty("adt", n="std::result::Result", id=RES, a=(c.a[0], c.a[1]), s="Result")
    for s, k, p in E.split_res(st, v, t):
        out.append((s, ok(p) if k else err(mk("app", "anyhow:context", p, args[1]))))
    return out


# ------------------------------------------------------------------ comparison
@model("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def m_eq(E, fr, st, c, args):
    b = eq(E, st, args[0], args[1])
    return [(st, b if norm(c.c["n"]).endswith("::eq") else E.b_not(b))]


@model("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge")
def m_ord(E, fr, st, c, args):
    a, b = E.deref_all(st, args[0]), E.deref_all(st, args[1])
    op = norm(c.c["n"]).split("::")[-1].capitalize()
    t = unref(c.a[0]) if c.a else None
    if t is not None and (t.k in INTK or t.k == "char" or values.big(t)):
        return [(st, dist2(a, b, lambda x, y: E.cmp(st, op, x, y)))]
    if op in ("Gt", "Ge"):
        a, b = b, a
        op = "Lt" if op == "Gt" else "Le"
    return [(st, E.pure_app("ord:" + op, [E.deep(st, a), E.deep(st, b)], BOOL_TY))]


@model("std::cmp::Ord::max", "std::cmp::Ord::min", "std::cmp::max", "std::cmp::min")
def m_max(E, fr, st, c, args):
    a, b = E.deref_all(st, args[0]), E.deref_all(st, args[1])
    t = unref(c.a[0]) if c.a else None
    if t is None or not (t.k in INTK or t.k == "char"):
        return [(st, E.pure_app(norm(c.c["n"]), [E.deep(st, a), E.deep(st, b)], c.rty))]
    top = norm(c.c["n"]).endswith("max")
    return [(s, b if y is top else a) for s, y in E.bool_split(st, dist2(a, b, lambda x, y: E.cmp(st, "Lt", x, y)))]


@model("std::ops::RangeInclusive::contains", "std::ops::Range::contains", "std::ops::RangeFrom::contains", "std::ops::RangeToInclusive::contains", "std::ops::RangeTo::contains")
def m_range_contains(E, fr, st, c, args):
    r, x = E.deref_all(st, args[0]), E.deref_all(st, args[1])
    nm = norm(c.c["n"])
    def bound(b, op, x):
        return dist2(x, b, lambda p, q: E.cmp(st, op, p, q))
    if "RangeInclusive" in nm and "To" not in nm:
        lo, hi = project(r, 0, 0, x.ty), project(r, 0, 1, x.ty)
        return [(st, E.b_and(bound(lo, "Ge", x), bound(hi, "Le", x)))]
    if "RangeFrom" in nm:
        return [(st, bound(project(r, 0, 0, x.ty), "Ge", x))]
    if "RangeToInclusive" in nm:
        return [(st, bound(project(r, 0, 0, x.ty), "Le", x))]
    if "RangeTo" in nm:
        return [(st, bound(project(r, 0, 0, x.ty), "Lt", x))]
    return [(st, E.b_and(bound(project(r, 0, 0, x.ty), "Ge", x), bound(project(r, 0, 1, x.ty), "Lt", x)))]


@model("std::ops::RangeInclusive::new")
def m_range_new(E, fr, st, c, args):
    return [(st, typed(mk("adt", "core::ops::range::RangeInclusive", 0, args[0], args[1], FALSE), c.rty))]


# ------------------------------------------------------------------ functions as values
@model("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
def m_callfn(E, fr, st, c, args):
    f = E.deref_all(st, args[0])
    tupv = args[1]
    n = len(tupv.a) if tupv.op == "tup" else 0
    xs = list(tupv.a) if tupv.op == "tup" else [tupv]
    return E.call_closure(fr, st, f, xs, c.rty, c.line)


# ------------------------------------------------------------------ iterators
def refs(E, st, v, ety, mut):
    """sequence of references to the elements of the container v (value or pointer)"""
    if v.op != "ptr":
        s = E.seq_of(v, ety)
        return (st, s) if s is not None else (st, None)
    val = E.load(st, v.a[0], v.a[1])
    while val.op == "ptr":
        v = val
        val = E.load(st, v.a[0], v.a[1])
    s = E.seq_of(val, ety)
    if s is None:
        return st, None
    if not mut and (ety is None or E.prog.freeze(ety)):
        return st, s
    out = []
    allone = True
    for i, x in enumerate(s.a):
        if x.op == "one":
            if allone:
                out.append(mk("one", mk("ptr", v.a[0], v.a[1] + (("ix", I(i), ety),))))
            else:
                out.append(x)
        elif x.op == "comp":
            allone = False
            src, elem, rows = x.a
            ident_ = E.is_identity(x)
            nelem = elem
            if ident_:
                st = st.copy()
                if mut:
                    st.mem[("org", nelem)] = v
                out.append(mk("comp", src, nelem, ((EMPTY, (mk("one", mk("ptr", ("e", nelem), ())),)),)))
            else:
                nrows = []
                for g, segs in rows:
                    ns = []
                    for y in segs:
                        if y.op == "one" and not mut:
                            ns.append(mk("one", mk("ptr", ("o", y.a[0]), ())) if y.a[0].op != "ptr" else y)
                        elif y.op == "one":
                            ns.append(mk("one", mk("ptr", ("o", y.a[0]), ())))
                        else:
                            ns.append(y)
                    nrows.append((g, tuple(ns)))
                out.append(mk("comp", src, elem, tuple(nrows)))
        else:
            allone = False
            out.append(x)
    return st, mk("seq", *out)


def per_row(E, st, v, f):
    """apply f(state, value) -> rows to each row of a gated value"""
    if v.op != "case":
        return f(st, v)
    out = []
    for g, x in v.a[0]:
        s = st.assume_g(g)
        if s is not None:
            out += f(s, x)
    return out


@model("[T]::iter", "std::vec::Vec::iter", "core::slice::<impl [T]>::iter", "[T]::iter_mut", "std::vec::Vec::iter_mut")
def m_iter(E, fr, st, c, args):
    mut = "iter_mut" in c.c["n"]
    v = args[0]
    ety = c.a[0] if c.a else None
    if v.op == "case":
        return per_row(E, st, v, lambda s, x: m_iter(E, fr, s, c, [x]))
    if v.op == "ptr":
        val = E.load(st, v.a[0], v.a[1])
        if val.op == "case":
            out = []
            for g, x in val.a[0]:
                s = st.assume_g(g)
                if s is not None:
                    s = s.copy()
                    E.store(s, v.a[0], v.a[1], x)
                    out += m_iter(E, fr, s, c, args)
            return out
    st, s = refs(E, st, v, ety, mut)
    return [(st, s)]


@model("std::iter::IntoIterator::into_iter")
def m_into_iter(E, fr, st, c, args):
    t = c.a[0] if c.a else None
    v = args[0]
    if v.op == "case":
        return per_row(E, st, v, lambda s, x: m_into_iter(E, fr, s, c, [x]))
    if t is not None:
        if t.k == "ref":
            u = unref(t)
            if u.k == "adt" and u.id == OPT:
                return [(st, opt_seq(E, st, E.deref_all(st, v), u.a[0]))]
            if u.k in ("slice", "array") or (u.k == "adt" and u.id == VEC):
                st, s = refs(E, st, v, E.elem_ty(u), t.m)
                return [(st, s)] if s is not None else None
            if "Iter" in u.s or u.k == "param":
                return [(st, v)]
            return None
        if t.k == "adt" and t.id == OPT:
            return [(st, opt_seq(E, st, v, t.a[0]))]
        if t.k == "adt" and t.id == RES:
            return None
        if t.k == "array" or (t.k == "adt" and t.id == VEC):
            s = E.seq_of(v, E.elem_ty(t))
            return [(st, s)] if s is not None else None
        if t.k == "adt" and t.id == "core::ops::range::Range":
            return [(st, range_seq(E, st, v, t))]
        if t.k == "adt" and t.id == "core::ops::range::RangeInclusive":
            return [(st, range_seq(E, st, v, t, True))]
        if t.k == "adt" and t.id.endswith(("HashMap", "HashSet", "BTreeMap", "BTreeSet")):
            return None
    if v.op == "seq" or v.op == "ptr":
        return [(st, v)]
    return [(st, as_iter(E, v, c.rty))]


def range_seq(E, st, v, t, incl=False):
    lo, hi = project(v, 0, 0, t.a[0]), project(v, 0, 1, t.a[0])
    if lo.op == "int" and hi.op == "int" and hi.a[0] - lo.a[0] <= 300:
        n = hi.a[0] + (1 if incl else 0)
        return mk("seq", *[mk("one", typed(I(i), t.a[0])) for i in range(lo.a[0], n)])
    src = mk("range", lo, hi, B(incl))
    e = E.elem(src, t.a[0])
    return mk("seq", mk("comp", src, e, ((EMPTY, (mk("one", e),)),)))


def as_iter(E, v, ty):
    """an opaque iterator value as a sequence"""
    if v.op == "seq":
        return v
    if v.op == "case":
        return v
    ety = iter_item(E, ty or v.ty)
    return mk("seq", E.splice(v, ety))


def iter_item(E, t):
    if t is None:
        return None
    t = unref(t)
    s = t.s
    if t.k == "adt":
        if t.id.endswith(("str::iter::Split", "SplitWhitespace", "str::iter::Lines", "RSplit", "SplitN", "RSplitN", "SplitTerminator", "Matches")) or "::str::" in t.n and "Chars" not in t.n and "Bytes" not in t.n:
            return mkty("ref", a=(STR_TY,), s="&str")
        if t.id.endswith("::Chars"):
            return CHAR_TY
        if t.id == "roxmltree::Children" or t.id.endswith(("roxmltree::Descendants", "roxmltree::AxisIter")) or "roxmltree" in t.id and t.id.endswith(("Children", "Descendants", "Ancestors")):
            for x in Ty._tab.values():
                if x.k == "adt" and x.id == "roxmltree::Node":
                    return x
        if "roxmltree" in t.id and "Namespace" in t.id:
            for x in Ty._tab.values():
                if x.k == "adt" and x.id == "roxmltree::Namespace":
                    return x
        if t.a:
            return t.a[0]
    return None


def get_seq(E, st, v, ty=None):
    """[(state, seq, pointer or None)]"""
    p = None
    while v.op == "ptr":
        p = v
        v = E.load(st, v.a[0], v.a[1])
    if v.op == "case":
        out = []
        for g, x in v.a[0]:
            s = st.assume_g(g)
            if s is not None:
                out += [(s2, q, p) for s2, q, _ in get_seq(E, s, x, ty)]
        return out
    q = as_iter(E, v, ty)
    if q.a and q.a[0].op == "rest":
        q = typed(mk("seq", *[tail_of(E, x) for x in q.a]), q.ty)
    return [(st, q, p)]


def tail_of(E, x):
    """what an iterator still holds after the element the enclosing loop is looking at"""
    if x.op != "rest" or len(x.a) != 3:
        return x
    src, elem, rows = x.a[1].a
    nsrc = typed(mk("after", src, x.a[2]), src.ty)
    ne = E.elem(nsrc, elem.ty)
    return rewrite(mk("comp", nsrc, elem, rows), {elem: ne})


def it_model(*names):
    def deco(f):
        for n in names:
            M["std::iter::Iterator::" + n] = f
            M["std::iter::DoubleEndedIterator::" + n] = f
        return f
    return deco


def self_ty(c):
    return c.a[0] if c.a else None


def simple_iter(body_of):
    def f(E, fr, st, c, args):
        out = []
        for s, q, p in get_seq(E, st, args[0], self_ty(c)):
            n, br = E.iterate(s, q.a, body_of(E, fr, c, args))
            for s2, segs in n:
                out.append((s2, mk("seq", *segs)))
        return out
    return f


def b_map(E, fr, c, args):
    def body(s, v):
        return [(s2, (mk("one", r),), None) for s2, r in E.call_closure(fr, s, args[1], [v], None, c.line)]
    return body


def b_filter(E, fr, c, args):
    def body(s, v):
        out = []
        for s2, r in E.call_closure(fr, s, args[1], [v], BOOL_TY, c.line):
            for s3, y in E.bool_split(s2, r):
                out.append((s3, (mk("one", v),) if y else (), None))
        return out
    return body


def b_filter_map(E, fr, c, args):
    def body(s, v):
        out = []
        for s2, r in E.call_closure(fr, s, args[1], [v], None, c.line):
            for s3, p in E.split_opt(s2, r):
                out.append((s3, () if p is None else (mk("one", p),), None))
        return out
    return body


def seq_from(E, s, r, t=None):
    """[(state, segs)] of an IntoIterator value"""
    t = t or r.ty
    if r.op == "adt" and r.a[0] == OPT or (t is not None and t.k == "adt" and t.id == OPT):
        out = []
        for s2, p in E.split_opt(s, r, t):
            out.append((s2, () if p is None else (mk("one", p),)))
        return out
    if r.op == "adt" and r.a[0] == RES or (t is not None and t.k == "adt" and t.id == RES):
        return [(s2, (mk("one", p),) if k else ()) for s2, k, p in E.split_res(s, r, t)]
    out = []
    for s2, q, p in get_seq(E, s, r, t):
        if p is not None:
            ety = E.elem_ty(unref(t)) if t is not None else None
            s2, q2 = refs(E, s2, p, ety, False)
            q = q2 or q
        out.append((s2, q.a))
    return out


def b_flat_map(E, fr, c, args):
    def body(s, v):
        out = []
        for s2, r in E.call_closure(fr, s, args[1], [v], None, c.line):
            for s3, segs in seq_from(E, s2, r):
                out.append((s3, tuple(segs), None))
        return out
    return body


def b_flatten(E, fr, c, args):
    def body(s, v):
        return [(s3, tuple(segs), None) for s3, segs in seq_from(E, s, v)]
    return body


def b_cloned(E, fr, c, args):
    def body(s, v):
        return [(s, (mk("one", snap(E, s, v)),), None)]
    return body


def b_inspect(E, fr, c, args):
    def body(s, v):
        return [(s2, (mk("one", v),), None) for s2, r in E.call_closure(fr, s, args[1], [v], None, c.line)]
    return body


M["std::iter::Iterator::map"] = simple_iter(b_map)
M["std::iter::Iterator::filter"] = simple_iter(b_filter)
M["std::iter::Iterator::filter_map"] = simple_iter(b_filter_map)
M["std::iter::Iterator::flat_map"] = simple_iter(b_flat_map)
M["std::iter::Iterator::flatten"] = simple_iter(b_flatten)
M["std::iter::Iterator::cloned"] = simple_iter(b_cloned)
M["std::iter::Iterator::copied"] = simple_iter(b_cloned)
M["std::iter::Iterator::inspect"] = simple_iter(b_inspect)


@it_model("enumerate")
def it_enumerate(E, fr, st, c, args):
    out = []
    for s, q, p in get_seq(E, st, args[0], self_ty(c)):
        segs, i = [], 0
        conc = True
        for x in q.a:
            if x.op == "one" and conc:
                segs.append(mk("one", tup(typed(I(i), USIZE_TY), x.a[0])))
                i += 1
            elif x.op == "comp" and conc:
                conc = False
                src, elem, rows = x.a
                if any(len(ss) > 1 or ss and ss[0].op != "one" for _, ss in rows):
                    return None
                # the position depends on which elements get there, not on what became of them
                kept = E.mkcomp(src, elem, [(g, (mk("one", elem),)) for g, ss in rows if ss])
                ix = typed(mk("idxof", elem), USIZE_TY) if E.is_identity(kept) else typed(mk("idxin", kept, elem), USIZE_TY)
                ix = E.addk(ix, i, USIZE_TY) if i else ix
                segs.append(mk("comp", src, elem, tuple(
                    (g, tuple(mk("one", tup(ix, y.a[0])) if y.op == "one" else y for y in ss)) for g, ss in rows)))
            else:
                return None
        out.append((s, mk("seq", *segs)))
    return out


@it_model("chain")
def it_chain(E, fr, st, c, args):
    out = []
    for s, q, p in get_seq(E, st, args[0], self_ty(c)):
        for s2, segs in seq_from(E, s, args[1], c.a[1] if len(c.a) > 1 else None):
            out.append((s2, mk("seq", *q.a, *segs)))
    return out


@it_model("rev")
def it_rev(E, fr, st, c, args):
    out = []
    for s, q, p in get_seq(E, st, args[0], self_ty(c)):
        segs = []
        for x in reversed(q.a):
            if x.op == "one":
                segs.append(x)
            else:
                segs.append(mk("revd", x))
        if any(x.op == "revd" for x in segs):
            v = mk("seq", *[_rev_comp(E, x.a[0]) if x.op == "revd" else x for x in segs])
        else:
            v = mk("seq", *segs)
        out.append((s, v))
    return out


def _rev_comp(E, x):
    if x.op == "comp":
        src, elem, rows = x.a
        if src.op == "rev":
            nsrc = src.a[0]
        else:
            nsrc = typed(mk("rev", src), src.ty)
        ne = E.elem(nsrc, elem.ty)
        return rewrite(mk("comp", nsrc, elem, tuple((g, tuple(reversed(ss))) for g, ss in rows)), {elem: ne})
    return mk("comp", mk("rev", x), E.elem(mk("rev", x), None), ())


def pick(E, st, comp, mode):
    """[(state, value or None)]: first/last produced element of a comprehension"""
    src, elem, rows = comp.a
    flat = []
    for g, segs in rows:
        ones = [y for y in segs if y.op == "one"]
        if not ones or len(ones) != len(segs):
            if segs:
                return None
            continue
        flat.append((g, (ones[0] if mode == "first" else ones[-1]).a[0]))
    while src.op == "rev":
        mode = "last" if mode == "first" else "first"
        nsrc = src.a[0]
        ne = E.elem(nsrc, elem.ty)
        flat = [(frozenset((rewrite(t, {elem: ne}), d) for t, d in g), rewrite(v, {elem: ne})) for g, v in flat]
        src, elem = nsrc, ne
    gs = frozenset(g_joinall([g for g, _ in flat]))
    ex = E.mkexists(src, elem, gs)
    pk = typed(mk("pick", mode, src, elem, gs), elem.ty)
    out = []
    for s, y in E.bool_split(st, ex):
        if not y:
            out.append((s, None))
            continue
        for g, v in flat:
            s2 = s.assume_g([(rewrite(t, {elem: pk}), d) for t, d in g]) if len(flat) > 1 else s
            if s2 is None:
                continue
            v2 = rewrite(v, {elem: pk})
            if v2.op == "ptr" and v2.a[0] == ("e", elem):
                v2 = mk("ptr", ("o", pk), v2.a[1])
            out.append((s2, v2))
    return out


def first_of(E, st, segs, mode="first"):
    """[(state, value or None)]"""
    segs = list(segs)
    if mode == "last":
        segs.reverse()
    cur = [st]
    out = []
    for x in segs:
        x = tail_of(E, x)
        nxt = []
        for s in cur:
            if x.op == "one":
                out.append((s, x.a[0]))
            elif x.op == "if":
                for g, ss in x.a[0]:
                    s2 = s.assume_g(g)
                    if s2 is None:
                        continue
                    for s3, v in first_of(E, s2, ss, mode):
                        (nxt.append(s3) if v is None else out.append((s3, v)))
            elif x.op == "comp":
                r = pick(E, s, x, mode)
                if r is None:
                    nm = mk("app", "first_of" if mode == "first" else "last_of", x)
                    for s2, y in E.bool_split(s, mk("nonempty", x)):
                        (out.append((s2, nm)) if y else nxt.append(s2))
                    continue
                for s2, v in r:
                    (nxt.append(s2) if v is None else out.append((s2, v)))
            else:
                for s2, y in E.bool_split(s, mk("nonempty", x)):
                    (out.append((s2, mk("app", "item_of", x))) if y else nxt.append(s2))
        cur = E.join_states(nxt)
        if not cur:
            break
    return out + [(s, None) for s in cur]


def opt_of(rs):
    return [(s, NONE if v is None else some(v)) for s, v in rs]


@it_model("last")
def it_last(E, fr, st, c, args):
    out = []
    for s, q, p in get_seq(E, st, args[0], self_ty(c)):
        out += opt_of(first_of(E, s, q.a, "last"))
    return out


def tail_comp(E, comp):
    src, elem, rows = comp.a
    if E.is_identity(comp) or (len(rows) == 1 and rows[0][0] == EMPTY and src.op in ("chars", "split", "range", "bytes", "drop")):
        if src.op == "drop":
            nsrc = mk("drop", src.a[0], src.a[1] + 1)
        else:
            nsrc = mk("drop", src, 1)
        typed(nsrc, src.ty)
        ne = E.elem(nsrc, elem.ty)
        return rewrite(mk("comp", nsrc, elem, rows), {elem: ne})
    gs = frozenset(g_joinall([g for g, ss in rows if ss]))
    nsrc = typed(mk("after", src, typed(mk("pick", "first", src, elem, gs), elem.ty)), src.ty)
    ne = E.elem(nsrc, elem.ty)
    return rewrite(mk("comp", nsrc, elem, rows), {elem: ne})


@it_model("next")
def it_next(E, fr, st, c, args):
    out = []
    p = args[0]
    if p.op != "ptr":
        # iterator passed by value reference: first element
        for s, q, _ in get_seq(E, st, p, self_ty(c)):
            out += opt_of(first_of(E, s, q.a))
        return out
    while True:
        v = E.load(st, p.a[0], p.a[1])
        if v.op == "ptr":
            p = v
            continue
        break
    for s, q, _ in get_seq(E, st, p, self_ty(c)):
        s = s.copy()
        if not q.a:
            E.store(s, p.a[0], p.a[1], q)
            out.append((s, NONE))
            continue
        x, rest = q.a[0], q.a[1:]
        if x.op == "one":
            E.store(s, p.a[0], p.a[1], mk("seq", *rest))
            out.append((s, some(x.a[0])))
        elif x.op == "comp":
            r = pick(E, s, x, "first")
            if r is None:
                return None
            tc = tail_comp(E, x)
            for s2, v in r:
                s2 = s2.copy()
                if v is None and rest:
                    E.store(s2, p.a[0], p.a[1], mk("seq", *rest))
                    out += it_next(E, fr, s2, c, [p])
                    continue
                E.store(s2, p.a[0], p.a[1], mk("seq", tc, *rest))
                out.append((s2, NONE if v is None else some(v)))
        elif x.op == "if":
            for g, ss in x.a[0]:
                s2 = s.assume_g(g)
                if s2 is not None:
                    s2 = s2.copy()
                    E.store(s2, p.a[0], p.a[1], mk("seq", *ss, *rest))
                    out += it_next(E, fr, s2, c, [p])
        else:
            u = typed(mk("app", "next_of", q), c.rty)
            E.store(s, p.a[0], p.a[1], mk("seq", mk("rest", q)))
            out.append((s, u))
    return out


@it_model("next_back")
def it_next_back(E, fr, st, c, args):
    p = args[0]
    out = []
    for s, q, pp in get_seq(E, st, p, self_ty(c)):
        if pp is None:
            out += opt_of(first_of(E, s, q.a, "last"))
            continue
        s = s.copy()
        if q.a and q.a[-1].op == "one":
            E.store(s, pp.a[0], pp.a[1], mk("seq", *q.a[:-1]))
            out.append((s, some(q.a[-1].a[0])))
        elif not q.a:
            out.append((s, NONE))
        else:
            for s2, v in opt_of(first_of(E, s, q.a, "last")):
                s2 = s2.copy()
                E.store(s2, pp.a[0], pp.a[1], mk("seq", mk("rest", q)))
                out.append((s2, v))
    return out


@model("std::iter::Peekable::peek", "std::iter::Peekable::peek_mut")
def it_peek(E, fr, st, c, args):
    out = []
    for s, q, p in get_seq(E, st, args[0], None):
        out += opt_of(first_of(E, s, q.a))
    return out


@it_model("nth")
def it_nth(E, fr, st, c, args):
    n = args[1]
    if n.op != "int":
        return None
    cur = [(st, None)]
    for _ in range(n.a[0] + 1):
        nx = []
        for s, _v in cur:
            nx += it_next(E, fr, s, c, [args[0]])
        cur = nx
    return cur


@it_model("skip", "take")
def it_skip(E, fr, st, c, args):
    n = args[1]
    take = norm(c.c["n"]).endswith("take")
    out = []
    for s, q, p in get_seq(E, st, args[0], self_ty(c)):
        segs = list(q.a)
        if n.op == "int" and all(x.op == "one" for x in segs[:n.a[0]]) and len(segs) >= n.a[0]:
            out.append((s, mk("seq", *(segs[:n.a[0]] if take else segs[n.a[0]:]))))
            continue
        if n.op == "int" and all(x.op == "one" for x in segs):
            out.append((s, mk("seq", *(segs if take else ()))))
            continue
        if not take and n.op == "int" and len(segs) == 1 and segs[0].op == "comp":
            x = segs[0]
            for _ in range(n.a[0]):
                x = tail_comp(E, x)
            out.append((s, mk("seq", x)))
            continue
        src = mk("take" if take else "skip", q, n)
        ety = segs[0].a[1].ty if segs and segs[0].op == "comp" else None
        out.append((s, mk("seq", E.splice(src, ety))))
    return out


@it_model("take_while", "skip_while", "map_while", "step_by", "zip", "scan", "dedup")
def it_opaque(E, fr, st, c, args):
    if norm(c.c["n"]).endswith("::zip"):
        out = []
        for s, q, p in get_seq(E, st, args[0], self_ty(c)):
            for s2, segs in seq_from(E, s, args[1], c.a[1] if len(c.a) > 1 else None):
                if all(x.op == "one" for x in q.a) and all(x.op == "one" for x in segs):
                    out.append((s2, mk("seq", *[mk("one", tup(x.a[0], y.a[0])) for x, y in zip(q.a, segs)])))
                else:
                    out.append((s2, mk("seq", E.splice(mk("zip", q, mk("seq", *segs)), None))))
        return out
    if norm(c.c["n"]).endswith("::skip_while"):
        r = skip_while(E, fr, st, c, args)
        if r is not None:
            return r
    out = []
    for s, q, p in get_seq(E, st, args[0], self_ty(c)):
        vals = [q] + [E.deep(s, a) for a in args[1:]]
        E.opaque[norm(c.c["n"])] = E.opaque.get(norm(c.c["n"]), 0) + 1
        src = mk("app", norm(c.c["n"]), *vals)
        ety = q.a[0].a[1].ty if q.a and q.a[0].op == "comp" else None
        out.append((s, mk("seq", E.splice(src, ety))))
    return out


def skip_while(E, fr, st, c, args):
    """from the first element on that the predicate refuses"""
    out = []
    for s, q, p in get_seq(E, st, args[0], self_ty(c)):
        if p is not None or len(q.a) > 1 or q.a and q.a[0].op != "comp":
            return None
        x = q.a[0] if q.a else None

        def body(b, v):
            return [(s3, (), None if y else ("v", v)) for s2, t in E.call_closure(fr, b, args[1], [v], BOOL_TY, c.line)
                    for s3, y in E.bool_split(s2, t)]
        n, br = E.iterate(s, q.a, body)
        for s2, _ in n:
            out.append((s2, mk("seq")))
        for s2, k in br:
            v = k[1]
            if v.op == "ptr" and v.a[0][0] == "e" and v.a[0][1].op == "pick":
                v = mk("ptr", ("o", v.a[0][1]), v.a[1])
            at = [t for t in subterms(v) if t.op == "pick" and t.a[0] == "first" and t.a[1] is x.a[0]]
            if len(at) != 1:
                return None
            src, elem, rows = x.a
            nsrc = typed(mk("after", src, at[0]), src.ty)
            rest = rewrite(mk("comp", nsrc, elem, rows), {elem: E.elem(nsrc, elem.ty)})
            out.append((s2, mk("seq", mk("one", v), rest)))
    return out


@it_model("count")
def it_count(E, fr, st, c, args):
    out = []
    for s, q, p in get_seq(E, st, args[0], self_ty(c)):
        out.append((s, E.seqlen(s, q)))
    return out


@it_model("any", "all")
def it_any(E, fr, st, c, args):
    isany = norm(c.c["n"]).endswith("::any")
    out = []
    for s, q, p in get_seq(E, st, args[0], self_ty(c)):
        def body(b, v):
            r = []
            for s2, t in E.call_closure(fr, b, args[1], [v], BOOL_TY, c.line):
                for s3, y in E.bool_split(s2, t):
                    hit = y == isany
                    r.append((s3, (), "hit" if hit else None))
            return r
        n, br = E.iterate(s, q.a, body)
        for s2, _ in n:
            out.append((s2, B(not isany)))
        for s2, _ in br:
            out.append((drop_pick(s, s2, q), B(isany)))
    return out


def drop_pick(s, s2, q):
    """forget what was learnt about the witness, taken from q, of an existential that nobody names"""
    src = {x.a[0] for x in q.a if x.op == "comp"}
    f = {t: d for t, d in s2.f.items() if s.f.get(t) == d or t.op == "exists"
         or not any(x.op == "pick" and x.a[1] in src for x in subterms(t) if x is not t)}
    from eng import St
    return St(dict(s2.mem), f)


@it_model("find", "find_map", "position", "rfind")
def it_find(E, fr, st, c, args):
    nm = norm(c.c["n"]).split("::")[-1]
    out = []
    for s, q, p in get_seq(E, st, args[0], self_ty(c)):
        if nm == "position":
            return None
        if nm == "rfind":
            q = it_rev(E, fr, s, c, [q])[0][1]

        def body(b, v):
            r = []
            for s2, t in E.call_closure(fr, b, args[1], [v], None, c.line):
                if nm in ("find", "rfind"):
                    for s3, y in E.bool_split(s2, t):
                        r.append((s3, (), ("v", v) if y else None))
                else:
                    for s3, pv in E.split_opt(s2, t):
                        r.append((s3, (), ("v", pv) if pv is not None else None))
            return r
        n, br = E.iterate(s, q.a, body)
        for s2, _ in n:
            out.append((s2, NONE))
        for s2, k in br:
            v = k[1]
            if v.op == "ptr" and v.a[0][0] == "e" and v.a[0][1].op == "pick":
                v = mk("ptr", ("o", v.a[0][1]), v.a[1])
            out.append((s2, some(v)))
    return out


@model(*[p + "bool::<impl bool>::" + m for p in ("core::", "std::") for m in ("then", "then_some")],
       "bool::then", "bool::then_some")
def b_then(E, fr, st, c, args):
    out = []
    for s, y in E.bool_split(st, E.deref_all(st, args[0])):
        if not y:
            out.append((s, NONE))
        elif norm(c.c["n"]).endswith("then_some"):
            out.append((s, some(args[1])))
        else:
            out += [(s2, some(v)) for s2, v in E.call_closure(fr, s, args[1], [], None, c.line)]
    return out


@it_model("fold")
def it_fold(E, fr, st, c, args):
    out = []
    for s, q, p in get_seq(E, st, args[0], self_ty(c)):
        s = s.copy()
        cell = ("t", len(E.stack), c.line)
        s.mem[cell] = typed(args[1], c.rty) if args[1].ty is None else args[1]

        def body(b, v):
            r = []
            for s2, t in E.call_closure(fr, b, args[2], [b.mem[cell], v], c.rty, c.line):
                s2 = s2.copy()
                s2.mem[cell] = t
                r.append((s2, (), None))
            return r
        n, br = E.iterate(s, q.a, body)
        for s2, _ in n:
            s2 = s2.copy()
            out.append((s2, s2.mem.pop(cell)))
    return out


@it_model("for_each")
def it_for_each(E, fr, st, c, args):
    out = []
    for s, q, p in get_seq(E, st, args[0], self_ty(c)):
        def body(b, v):
            return [(s2, (), None) for s2, _ in E.call_closure(fr, b, args[1], [v], None, c.line)]
        n, br = E.iterate(s, q.a, body)
        out += [(s2, UNIT) for s2, _ in n]
    return out


@it_model("try_for_each")
def it_try_for_each(E, fr, st, c, args):
    out = []
    rt = c.rty
    for s, q, p in get_seq(E, st, args[0], self_ty(c)):
        def body(b, v):
            r = []
            for s2, t in E.call_closure(fr, b, args[1], [v], rt, c.line):
                if rt is not None and rt.id == RES:
                    for s3, k, pv in E.split_res(s2, t, rt):
                        r.append((s3, (), None if k else ("v", err(pv))))
                else:
                    for s3, pv in E.split_opt(s2, t, rt):
                        r.append((s3, (), None if pv is not None else ("v", NONE)))
            return r
        n, br = E.iterate(s, q.a, body)
        out += [(s2, ok(UNIT) if rt is not None and rt.id == RES else some(UNIT)) for s2, _ in n]
        out += [(s2, k[1]) for s2, k in br]
    return out


def build(E, fr, st, segs, t, line):
    """FromIterator for type t"""
    if t is not None:
        if stringy(t):
            return [(st, E.strof(mk("seq", *segs)))]
        if t.k == "adt" and t.id in (RES, OPT):
            isres = t.id == RES

            def body(b, v):
                r = []
                if isres:
                    for s3, k, pv in E.split_res(b, v):
                        r.append((s3, (mk("one", pv),) if k else (), None if k else ("v", err(pv))))
                else:
                    for s3, pv in E.split_opt(b, v):
                        r.append((s3, (mk("one", pv),) if pv is not None else (), None if pv is not None else ("v", NONE)))
                return r
            n, br = E.iterate(st, segs, body)
            out = []
            for s2, sg in n:
                for s3, x in build(E, fr, s2, sg, t.a[0], line):
                    out.append((s3, ok(x) if isres else some(x)))
            out += [(s2, k[1]) for s2, k in br]
            return out
        if t.k == "adt" and t.id.endswith(("HashMap", "HashSet", "BTreeMap", "BTreeSet")):
            return [(st, typed(mk("app", "map_of:" + t.id.split("::")[-1], mk("seq", *segs)), t))]
        if t.k == "adt" and t.id in ("alloc::boxed::Box", "alloc::borrow::Cow", "alloc::rc::Rc") and t.a:
            return build(E, fr, st, segs, t.a[0], line)
        if t.k == "tuple" and not t.a:
            return [(st, UNIT)]
    return [(st, E.mkseq(segs, t))]


@it_model("collect")
def it_collect(E, fr, st, c, args):
    out = []
    for s, q, p in get_seq(E, st, args[0], self_ty(c)):
        out += build(E, fr, s, load_refs(E, s, q.a, c.rty), c.rty, c.line)
    return out


def load_refs(E, st, segs, t):
    """string building from pointers to strings"""
    return segs


@model("std::iter::FromIterator::from_iter")
def m_from_iter(E, fr, st, c, args):
    out = []
    for s, segs in seq_from(E, st, args[0], c.a[1] if len(c.a) > 1 else None):
        out += build(E, fr, s, segs, c.rty, c.line)
    return out


@it_model("partition")
def it_partition(E, fr, st, c, args):
    out = []
    for s, q, p in get_seq(E, st, args[0], self_ty(c)):
        ys, ns = [], []
        n1, _ = E.iterate(s, q.a, b_filter(E, fr, c, args))
        def neg(b, v):
            r = []
            for s2, t in E.call_closure(fr, b, args[1], [v], BOOL_TY, c.line):
                for s3, y in E.bool_split(s2, t):
                    r.append((s3, () if y else (mk("one", v),), None))
            return r
        for s2, a in n1:
            n2, _ = E.iterate(s2, q.a, neg)
            for s3, b in n2:
                out.append((s3, tup(E.mkseq(a), E.mkseq(b))))
    return out


@it_model("min", "max", "sum", "product", "min_by_key", "max_by_key", "unzip", "reduce", "cmp", "eq")
def it_reduce(E, fr, st, c, args):
    out = []
    for s, q, p in get_seq(E, st, args[0], self_ty(c)):
        out.append((s, E.pure_app(norm(c.c["n"]), [q] + [E.deep(s, a) for a in args[1:]], c.rty)))
    return out


# ------------------------------------------------------------------ Vec / slices
def vec_model(*names):
    def deco(f):
        for n in names:
            M["std::vec::Vec::" + n] = f
            M["[T]::" + n] = f
        return f
    return deco


@vec_model("new", "with_capacity")
def v_new(E, fr, st, c, args):
    return [(st, typed(mk("seq"), c.rty) if False else mk("seq"))]


M["std::string::String::new"] = lambda E, fr, st, c, args: [(st, typed(S(""), STRING_TY))]
M["std::string::String::with_capacity"] = M["std::string::String::new"]
for _n in ("std::string::String::reserve", "std::vec::Vec::reserve", "std::vec::Vec::shrink_to_fit"):
    M[_n] = lambda E, fr, st, c, args: [(st, UNIT)]


def vec_update(E, st, p, f):
    """[(state)] after replacing the sequence behind p by f(seq)"""
    out = []
    for s, q, pp in get_seq(E, st, p):
        s = s.copy()
        if pp is None:
            pp = mk("ptr", ("o", p), ())
        old = E.load(s, pp.a[0], pp.a[1])
        E.store(s, pp.a[0], pp.a[1], typed(f(s, q), old.ty if old.op != "seq" else None))
        out.append(s)
    return out


@vec_model("push", "push_back")
def v_push(E, fr, st, c, args):
    return [(s, UNIT) for s in vec_update(E, st, args[0], lambda s, q: E.mkseq(list(q.a) + [mk("one", args[1])]))]


@vec_model("insert")
def v_insert(E, fr, st, c, args):
    i = args[1]
    lost = []
    def f(s, q):
        if i is E.seqlen(s, q) or i is E.seqlen(s, args[0]):
            return E.mkseq(list(q.a) + [mk("one", args[2])])
        if i.op == "int" and len(q.a) >= i.a[0] and all(x.op == "one" for x in q.a[:i.a[0]]):
            return E.mkseq(list(q.a[:i.a[0]]) + [mk("one", args[2])] + list(q.a[i.a[0]:]))
        lost.append(q)
        return q
    out = [(s, UNIT) for s in vec_update(E, st, args[0], f)]
    return None if lost else out


@vec_model("append")
def v_append(E, fr, st, c, args):
    out = []
    for s, q, pp in get_seq(E, st, args[1]):
        for s2 in vec_update(E, s, args[0], lambda s_, q0: E.mkseq(list(q0.a) + list(q.a))):
            s2 = s2.copy()
            if pp is not None:
                E.store(s2, pp.a[0], pp.a[1], mk("seq"))
            out.append((s2, UNIT))
    return out


@model("std::iter::Extend::extend", "std::vec::Vec::extend_from_slice")
def v_extend(E, fr, st, c, args):
    t = unref(c.a[0]) if c.a else None
    if norm(c.c["n"]).endswith("extend_from_slice"):
        t = None
    if t is not None and t.k == "adt" and t.id.endswith(("HashMap", "BTreeMap", "HashSet", "BTreeSet")):
        p = args[0]
        while p.op == "ptr" and E.load(st, p.a[0], p.a[1]).op == "ptr":
            p = E.load(st, p.a[0], p.a[1])
        if p.op != "ptr":
            return None
        st = st.copy()
        old = E.load(st, p.a[0], p.a[1])
        E.store(st, p.a[0], p.a[1], typed(mk("mapext", old, E.deep(st, args[1])), old.ty))
        return [(st, UNIT)]
    out = []
    for s, segs in seq_from(E, st, args[1], c.a[-1] if len(c.a) > 1 and t is not None else None):
        if t is not None and stringy(t):
            p = args[0]
            s = s.copy()
            old = E.load(s, p.a[0], p.a[1])
            E.store(s, p.a[0], p.a[1], cat(old, E.strof(mk("seq", *segs))))
            out.append((s, UNIT))
            continue
        out += [(s2, UNIT) for s2 in vec_update(E, s, args[0], lambda s_, q: E.mkseq(list(q.a) + list(segs)))]
    return out


@vec_model("pop", "pop_back")
def v_pop(E, fr, st, c, args):
    out = []
    for s, q, pp in get_seq(E, st, args[0]):
        if not q.a:
            out.append((s, NONE))
        elif q.a[-1].op == "one" and pp is not None:
            s = s.copy()
            E.store(s, pp.a[0], pp.a[1], E.mkseq(q.a[:-1]))
            out.append((s, some(q.a[-1].a[0])))
        else:
            for s2, v in first_of(E, s, q.a, "last"):
                s2 = s2.copy()
                if v is not None and pp is not None:
                    E.store(s2, pp.a[0], pp.a[1], mk("app", "popped", q))
                out.append((s2, NONE if v is None else some(v)))
    return out


@vec_model("clear", "truncate")
def v_clear(E, fr, st, c, args):
    if norm(c.c["n"]).endswith("truncate") and not (args[1].op == "int" and args[1].a[0] == 0):
        return None
    return [(s, UNIT) for s in vec_update(E, st, args[0], lambda s, q: mk("seq"))]


@vec_model("retain", "retain_mut")
def v_retain(E, fr, st, c, args):
    out = []
    for s, q, pp in get_seq(E, st, args[0]):
        n, br = E.iterate(s, q.a, b_filter(E, fr, c, args))
        for s2, segs in n:
            s2 = s2.copy()
            if pp is not None:
                E.store(s2, pp.a[0], pp.a[1], E.mkseq(segs))
            out.append((s2, UNIT))
    return out


@vec_model("drain")
def v_drain(E, fr, st, c, args):
    r = E.deref_all(st, args[1])
    if not (r.op == "adt" and r.a[0].endswith("RangeFull")) and r is not UNIT:
        return None
    out = []
    for s, q, pp in get_seq(E, st, args[0]):
        s = s.copy()
        if pp is not None:
            E.store(s, pp.a[0], pp.a[1], mk("seq"))
        out.append((s, q))
    return out


@vec_model("len")
def v_len(E, fr, st, c, args):
    return [(st, E.seqlen(st, args[0]))]


@vec_model("is_empty")
def v_is_empty(E, fr, st, c, args):
    v = E.deref_all(st, args[0])
    def f(x):
        if x.ty is not None and stringy(x.ty):
            return str_isempty(E, x)
        return E.b_not(E.nonempty(E.seq_of(x, c.a[0] if c.a else None)))
    return [(st, dist(v, f, BOOL_TY))]


@vec_model("contains")
def v_contains(E, fr, st, c, args):
    out = []
    x = E.deref_all(st, args[1])
    for s, q, pp in get_seq(E, st, args[0]):
        if all(y.op == "one" for y in q.a):
            items = [E.deref_all(s, y.a[0]) for y in q.a]
            if items and all(i.op in ("str", "char") for i in items):
                lits = frozenset(i.a[0] for i in items)
                out.append((s, dist(x, lambda v: E.member(v, ("S", True, lits)), BOOL_TY)))
                continue
            if items and all(i.op == "adt" and len(i.a) == 2 for i in items) and E.prog.adts.get(items[0].a[0], {}).get("k") == "enum":
                n = len(E.prog.adts[items[0].a[0]]["v"])
                vs = frozenset(i.a[1] for i in items)
                full = E.prog.adts[items[0].a[0]]
                if all(not full["v"][k]["f"] for k in vs):
                    out.append((s, dist(x, lambda v: E.member(v, ("V", vs, n)), BOOL_TY)))
                    continue
            r = FALSE
            for i in items:
                r = E.b_or(r, eq(E, s, i, x))
            out.append((s, r))
            continue

        def body(b, v):
            r = []
            for s3, y in E.bool_split(b, eq(E, b, v, x)):
                r.append((s3, (), "hit" if y else None))
            return r
        n, br = E.iterate(s, q.a, body)
        out += [(s2, FALSE) for s2, _ in n]
        out += [(drop_pick(s, s2, q), TRUE) for s2, _ in br]
    return out


@vec_model("first", "last", "first_mut", "last_mut")
def v_first(E, fr, st, c, args):
    out = []
    nm = norm(c.c["n"]).split("::")[-1]
    ety = c.a[0] if c.a else None
    for s, q, pp in get_seq(E, st, args[0]):
        if pp is not None and (nm.endswith("_mut") or (ety is not None and not E.prog.freeze(ety))):
            s, q2 = refs(E, s, pp, ety, False)
            q = q2 or q
        out += opt_of(first_of(E, s, q.a, "first" if nm.startswith("first") else "last"))
    return out


@vec_model("get", "get_mut")
def v_get(E, fr, st, c, args):
    v = E.deref_all(st, args[0])
    i = args[1]
    if i.op == "int" and v.op == "seq":
        if all(x.op == "one" for x in v.a[:i.a[0] + 1]) and (len(v.a) > i.a[0]):
            if args[0].op == "ptr" and (norm(c.c["n"]).endswith("_mut") or not (c.a and E.prog.freeze(c.a[0]))):
                return [(st, some(mk("ptr", args[0].a[0], args[0].a[1] + (("ix", i, c.a[0] if c.a else None),))))]
            return [(st, some(v.a[i.a[0]].a[0]))]
        if all(x.op == "one" for x in v.a):
            return [(st, NONE)]
    if i.op == "int" and i.a[0] == 0:
        q = E.seq_of(v, c.a[0] if c.a else None)
        if q is not None:
            return opt_of(first_of(E, st, q.a))
    return None


@vec_model("split_first", "split_last", "swap", "sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by",
           "sort_unstable_by_key", "reverse", "dedup", "dedup_by_key", "sort_by_cached_key")
def v_sort(E, fr, st, c, args):
    nm = norm(c.c["n"]).split("::")[-1]
    if nm in ("split_first", "split_last", "swap"):
        return None

    def f(s, q):
        if nm == "reverse":
            r = it_rev(E, fr, s, c, [q])
            return r[0][1]
        if all(x.op == "one" for x in q.a) and len(q.a) <= 1:
            return q
        if nm.startswith("sort"):
            return sorted_seq(E, q)
        return mk("app", nm, q)
    return [(s, UNIT) for s in vec_update(E, st, args[0], f)]




def sorted_seq(E, q):
    """the elements in the order of their keys; choosing and projecting elements first or last is the same"""
    if len(q.a) == 1 and q.a[0].op == "comp" and not E.is_identity(q.a[0]):
        src, elem, rows = q.a[0].a
        if all(len(segs) <= 1 and all(x.op == "one" for x in segs) for _, segs in rows):
            plain = typed(mk("seq", mk("comp", src, elem, ((EMPTY, (mk("one", elem),)),))), src.ty)
            s2 = typed(mk("app", "sorted", plain), None)
            e2 = E.elem(s2, elem.ty)
            return mk("seq", mk("comp", s2, e2, core_rw(rows, {elem: e2}, {})))
    return mk("app", "sorted", q)


@model("[T]::join", "[T]::concat", "std::slice::Join::join", "std::slice::Concat::concat")
def v_join(E, fr, st, c, args):
    out = []
    sep = E.deref_all(st, args[1]) if len(args) > 1 else S("")
    for s, q, pp in get_seq(E, st, args[0]):
        out.append((s, join_str(E, s, q, sep)))
    return out


def join_str(E, st, q, sep):
    if sep.op == "str" and sep.a[0] == "":
        return E.strof(q)
    if all(x.op == "one" for x in q.a):
        ps = []
        for i, x in enumerate(q.a):
            if i:
                ps.append(sep)
            ps.append(E.deref_all(st, x.a[0]))
        return typed(cat(*ps), STRING_TY)
    if q.a and q.a[0].op == "one" and sep.op == "str":
        more = led(E, st, q.a[1:], sep)
        if more is not None:
            return typed(cat(E.deref_all(st, q.a[0].a[0]), E.strof(mk("seq", *more))), STRING_TY)
    return typed(mk("join", q, sep), STRING_TY)


def led(E, st, segs, sep):
    """the same items, each after the separator"""
    out = []
    for x in segs:
        if x.op == "one":
            out.append(mk("one", cat(sep, E.deref_all(st, x.a[0]))))
        elif x.op in ("comp", "if"):
            rows = []
            for g, ss in x.a[-1] if x.op == "comp" else x.a[0]:
                n = led(E, st, ss, sep)
                if n is None:
                    return None
                rows.append((g, tuple(n)))
            out.append(mk("comp", x.a[0], x.a[1], tuple(rows)) if x.op == "comp" else mk("if", tuple(rows)))
        else:
            return None
    return out


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def m_index(E, fr, st, c, args):
    t = unref(c.a[0]) if c.a else None
    it = c.a[1] if len(c.a) > 1 else None
    if t is not None and stringy(t):
        return str_slice(E, fr, st, c, E.deref_all(st, args[0]), args[1], True)
    v, i = args[0], args[1]
    if it is not None and it.k == "usize":
        val = E.deref_all(st, v)
        out = []
        for s, ln in [(st, E.seqlen(st, val))]:
            if i.op == "int" and ln.op == "int":
                if i.a[0] >= ln.a[0]:
                    E.panic(s, fr, c.line, "bounds", show(v, 3))
                    continue
                ss = [s]
            else:
                ss = []
                for s2, y in E.bool_split(s, dist2(i, ln, lambda x, y_: E.cmp(s, "Lt", x, y_))):
                    if y:
                        ss.append(s2)
                    else:
                        E.panic(s2, fr, c.line, "bounds", f"{show(v, 3)}[{show(i, 3)}]")
            for s2 in ss:
                ety = E.elem_ty(t)
                if v.op == "ptr" and (c.c["n"].endswith("_mut") or not (ety is None or E.prog.freeze(ety))):
                    if i.op == "int" and i.a[0] == 0:
                        q = E.seq_of(val, ety)
                        if q is not None and q.a and q.a[0].op == "comp":
                            for s3, x in first_of(E, s2, q.a):
                                if x is not None:
                                    out.append((s3, mk("ptr", ("o", x), ())))
                            continue
                    out.append((s2, mk("ptr", v.a[0], v.a[1] + (("ix", i, ety),))))
                else:
                    if i.op == "int" and i.a[0] == 0:
                        q = E.seq_of(val, ety)
                        if q is not None:
                            out += [(s3, x) for s3, x in first_of(E, s2, q.a) if x is not None]
                            continue
                    out.append((s2, E.index(s2, val, i, ety)))
        return out
    if it is not None and it.k == "adt" and it.id.startswith("core::ops::range"):
        q = E.seq_of(E.deref_all(st, v), E.elem_ty(t))
        r = E.deref_all(st, i)
        if it.id.endswith("RangeFull"):
            return [(st, v)]
        if q is not None and all(x.op == "one" for x in q.a):
            lo, hi = range_of(r, it, I(len(q.a)))
            if lo.op == "int" and hi.op == "int":
                if lo.a[0] > hi.a[0] or hi.a[0] > len(q.a):
                    E.panic(st, fr, c.line, "bounds", show(v, 3))
                    return []
                return [(st, E.mkseq(q.a[lo.a[0]:hi.a[0]]))]
        E.panic(st, fr, c.line, "slice-bounds", show(r, 3))
        lo, hi = range_of(r, it, E.seqlen(st, v))
        return [(st, typed(mk("subslice", E.deref_all(st, v), lo, hi), c.rty))]
    return None


def range_of(r, it, ln):
    if it.id.endswith("RangeInclusive"):
        return project(r, 0, 0, USIZE_TY), mk("arith", "Add", project(r, 0, 1, USIZE_TY), I(1))
    if it.id.endswith("RangeFrom"):
        return project(r, 0, 0, USIZE_TY), ln
    if it.id.endswith("RangeToInclusive"):
        return I(0), mk("arith", "Add", project(r, 0, 0, USIZE_TY), I(1))
    if it.id.endswith("RangeTo"):
        return I(0), project(r, 0, 0, USIZE_TY)
    if it.id.endswith("RangeFull"):
        return I(0), ln
    return project(r, 0, 0, USIZE_TY), project(r, 0, 1, USIZE_TY)


# ------------------------------------------------------------------ strings
def smodel(*names):
    def deco(f):
        for n in names:
            M["str::" + n] = f
            M["std::string::String::" + n] = f
        return f
    return deco


def sval(E, st, v):
    return E.deref_all(st, v)


def on_str(f):
    """lift a per-row string function (E, st, c, s, args) -> value"""
    def g(E, fr, st, c, args):
        v = sval(E, st, args[0])
        rest = [E.deref_all(st, a) for a in args[1:]]
        return [(st, dist(v, lambda x: f(E, st, c, x, rest), c.rty))]
    return g


@smodel("len")
def s_len(E, fr, st, c, args):
    return [(st, dist(sval(E, st, args[0]), lambda x: strlen(E, x), USIZE_TY))]


def strlen(E, x):
    if x.op == "str":
        return typed(I(len(x.a[0].encode())), USIZE_TY)
    return typed(mk("len", typed(x, x.ty or STRING_TY)), USIZE_TY)


@smodel("is_empty")
def s_is_empty(E, fr, st, c, args):
    return [(st, str_isempty(E, sval(E, st, args[0])))]


@smodel("push_str", "push")
def s_push(E, fr, st, c, args):
    p = args[0]
    if p.op != "ptr":
        return None
    while E.load(st, p.a[0], p.a[1]).op == "ptr":
        p = E.load(st, p.a[0], p.a[1])
    st = st.copy()
    old = E.load(st, p.a[0], p.a[1])
    E.store(st, p.a[0], p.a[1], typed(cat(old, E.deref_all(st, args[1])), STRING_TY))
    return [(st, UNIT)]


@smodel("insert_str", "insert")
def s_insert(E, fr, st, c, args):
    p = args[0]
    if p.op != "ptr" or not (args[1].op == "int" and args[1].a[0] == 0):
        return None
    st = st.copy()
    old = E.load(st, p.a[0], p.a[1])
    E.store(st, p.a[0], p.a[1], typed(cat(E.deref_all(st, args[2]), old), STRING_TY))
    return [(st, UNIT)]


@smodel("clear")
def s_clear(E, fr, st, c, args):
    p = args[0]
    st = st.copy()
    E.store(st, p.a[0], p.a[1], typed(S(""), STRING_TY))
    return [(st, UNIT)]


@model("std::ops::Add::add", "std::ops::AddAssign::add_assign")
def m_add(E, fr, st, c, args):
    t = unref(c.a[0]) if c.a else None
    asg = norm(c.c["n"]).endswith("assign")
    if t is not None and stringy(t):
        if asg:
            return s_push(E, fr, st, c, args)
        return [(st, typed(cat(E.deref_all(st, args[0]), E.deref_all(st, args[1])), STRING_TY))]
    if t is not None and t.k in INTK and not asg:
        return [(st, E.binop(st, "Add", E.deref_all(st, args[0]), E.deref_all(st, args[1]), t))]
    return None


def pat_of(E, st, p):
    """(literal or None, closure or None) of a string pattern"""
    p = E.deref_all(st, p)
    if p.op in ("str", "char"):
        return p.a[0], None
    return None, p


def sopq(E, name, s, rest, ty):
    if any(r.op in ("clo", "fn") for r in rest):
        name += " (predicate)"
        E.opaque.add(name)
    return E.pure_app(name, [s] + list(rest), ty)


def char_pat(E, st, other):
    """a pattern that stands for one character: a predicate or a list of literal characters"""
    if other is None:
        return False
    if other.op in ("clo", "fn"):
        return True
    return other.op == "seq" and other.a and all(y.op == "one" and E.deref_all(st, y.a[0]).op == "char" for y in other.a)


def char_hit(E, fr, st, other, v, line):
    """[(state, does the character v match)]"""
    if other.op == "seq":
        lits = frozenset(E.deref_all(st, y.a[0]).a[0] for y in other.a)
        return E.bool_split(st, dist(E.deref_all(st, v), lambda x: E.member(x, ("S", True, lits)), BOOL_TY))
    out = []
    for s2, t in E.call_closure(fr, st, other, [v], BOOL_TY, line):
        out += E.bool_split(s2, t)
    return out


def char_edge(E, fr, st, s0, other, mode, line):
    """does the first / last character of the text exist and match?"""
    def f(s, x):
        out = []
        for s1, q in s_chars_of(E, s, x):
            for s2, v in first_of(E, s1, q.a, mode):
                if v is None:
                    out.append((s2, FALSE))
                else:
                    out += [(s3, B(y)) for s3, y in char_hit(E, fr, s2, other, v, line)]
        return out
    return per_row(E, st, s0, f)


def char_any(E, fr, st, s0, other, line):
    """does some character of the text match?"""
    def f(s, x):
        out = []
        for s1, q in s_chars_of(E, s, x):
            def body(b, v):
                return [(s3, (), "hit" if y else None) for s3, y in char_hit(E, fr, b, other, v, line)]
            n, br = E.iterate(s1, q.a, body)
            out += [(s2, FALSE) for s2, _ in n] + [(drop_pick(s1, s2, q), TRUE) for s2, _ in br]
        return out
    return per_row(E, st, s0, f)


def s_chars_of(E, s, x):
    class C:
        c = {"n": "str::chars"}
    return s_chars(E, None, s, C, [x])


@smodel("contains")
def s_contains(E, fr, st, c, args):
    s0 = sval(E, st, args[0])
    lit, other = pat_of(E, st, args[1])
    if char_pat(E, st, other):
        return char_any(E, fr, st, s0, other, c.line)

    def f(x):
        if lit is None:
            return sopq(E, "str::contains", x, [E.deep(st, other)], BOOL_TY)
        if x.op == "str":
            return B(lit in x.a[0])
        if lit == "":
            return TRUE
        return has_term(E, x, lit)
    return [(st, dist(s0, f, BOOL_TY))]


@smodel("starts_with", "ends_with")
def s_starts(E, fr, st, c, args):
    nm = norm(c.c["n"]).split("::")[-1]
    s0 = sval(E, st, args[0])
    lit, other = pat_of(E, st, args[1])
    if char_pat(E, st, other):
        return char_edge(E, fr, st, s0, other, "first" if nm == "starts_with" else "last", c.line)
    return [(st, dist(s0, lambda x: affix(E, st, x, lit, other, nm == "starts_with"), BOOL_TY))]


def affix(E, st, x, lit, other, start):
    nm = "starts" if start else "ends"
    if lit is None:
        if other is not None and other.op in ("clo", "fn", "seq"):
            return sopq(E, "str::" + nm + "_with", x, [E.deep(st, other)], BOOL_TY)
        return typed(mk(nm, x, E.deep(st, other)), BOOL_TY)
    if lit == "":
        return TRUE
    if x.op == "str":
        return B(x.a[0].startswith(lit) if start else x.a[0].endswith(lit))
    if x.op == "cat":
        e = x.a[0] if start else x.a[-1]
        if e.op == "str":
            if (e.a[0].startswith(lit) if start else e.a[0].endswith(lit)):
                return TRUE
            if len(e.a[0]) >= len(lit):
                return FALSE
    return typed(mk(nm, x, S(lit)), BOOL_TY)


@smodel("strip_prefix", "strip_suffix")
def s_strip(E, fr, st, c, args):
    start = norm(c.c["n"]).endswith("prefix")
    s0 = sval(E, st, args[0])
    lit, other = pat_of(E, st, args[1])
    if lit is None and other.op in ("clo", "fn"):
        return None

    def f(s, x):
        out = []
        for s2, y in E.bool_split(s, affix(E, s, x, lit, other, start)):
            if not y:
                out.append((s2, NONE))
                continue
            if x.op == "str":
                out.append((s2, some(S(x.a[0][len(lit):] if start else x.a[0][:len(x.a[0]) - len(lit)]))))
            else:
                out.append((s2, some(typed(mk("strip", "pre" if start else "suf", x, S(lit) if lit is not None else E.deep(s2, other)), STR_TY))))
        return out
    return per_row(E, st, s0, f)


def has_term(E, x, lit):
    if x.op == "str":
        return B(lit in x.a[0])
    if x.op == "cat" and any(p.op == "str" and lit in p.a[0] for p in x.a):
        return TRUE
    if x.op in ("strof", "cat", "before", "past") and lit:
        a = alphabet(x)
        if any(chars.cls(c) not in a for c in lit):
            return FALSE
    return typed(mk("has", x, S(lit)), BOOL_TY)


@smodel("find", "rfind")
def s_find(E, fr, st, c, args):
    nm = norm(c.c["n"]).split("::")[-1]
    s0 = sval(E, st, args[0])
    lit, other = pat_of(E, st, args[1])
    if lit is None:
        return [(st, sopq(E, "str::" + nm, s0, [E.deep(st, other)], c.rty))]

    def f(s, x):
        out = []
        for s2, y in E.bool_split(s, has_term(E, x, lit)):
            if not y:
                out.append((s2, NONE))
            elif x.op == "str":
                i = x.a[0].find(lit) if nm == "find" else x.a[0].rfind(lit)
                out.append((s2, some(typed(I(len(x.a[0][:i].encode())), USIZE_TY))))
            else:
                out.append((s2, some(typed(mk("idx", nm, x, S(lit)), USIZE_TY))))
        return out
    return per_row(E, st, s0, f)


@smodel("split_once", "rsplit_once")
def s_split_once(E, fr, st, c, args):
    nm = "rfind" if "rsplit" in c.c["n"] else "find"
    s0 = sval(E, st, args[0])
    lit, other = pat_of(E, st, args[1])
    if lit is None:
        return None

    def f(s, x):
        out = []
        for s2, y in E.bool_split(s, has_term(E, x, lit)):
            if not y:
                out.append((s2, NONE))
            elif x.op == "str":
                a = x.a[0].split(lit, 1) if nm == "find" else x.a[0].rsplit(lit, 1)
                out.append((s2, some(tup(S(a[0]), S(a[1])))))
            else:
                out.append((s2, some(tup(before(x, lit, nm), after_(x, lit, nm)))))
        return out
    return per_row(E, st, s0, f)


def before(x, lit, nm):
    return typed(mk("before", nm, x, S(lit)), STR_TY)


def after_(x, lit, nm):
    return typed(mk("past", nm, x, S(lit)), STR_TY)


def pieces(x, lit):
    """the parts of a string between the separators, when only its literal parts can hold (a part of) one"""
    ps = x.a if x.op == "cat" else (x,)
    sep = {chars.cls(c) for c in lit}
    out, cur = [], []
    for p in ps:
        if p.op == "str":
            bits = p.a[0].split(lit)
            cur.append(S(bits[0]))
            for b in bits[1:]:
                out.append(cat(*cur))
                cur = [S(b)]
        elif alphabet(p) & sep:
            return None
        else:
            cur.append(p)
    return out + [cat(*cur)]


@smodel("split", "rsplit", "splitn", "rsplitn", "split_terminator", "split_inclusive")
def s_split(E, fr, st, c, args):
    nm = norm(c.c["n"]).split("::")[-1]
    s0 = sval(E, st, args[0])
    pa = args[-1] if nm in ("splitn", "rsplitn") else args[1]
    lit, other = pat_of(E, st, pa)

    def f(s, x):
        if lit is not None and x.op == "str" and nm in ("split", "rsplit"):
            ps = x.a[0].split(lit)
            if nm == "rsplit":
                ps.reverse()
            return [(s, mk("seq", *[mk("one", typed(S(p), STR_TY)) for p in ps]))]
        if lit and nm in ("split", "rsplit") and x.op in ("strof", "cat"):
            ps = pieces(x, lit)
            if ps is not None:
                if nm == "rsplit":
                    ps.reverse()
                return [(s, mk("seq", *[mk("one", typed(p, STR_TY)) for p in ps]))]
        key = S(lit) if lit is not None else E.deep(s, other)
        sty = mkty("ref", a=(STR_TY,), s="&str")
        if lit is not None and nm in ("split", "rsplit"):
            # [] is impossible: `split` yields at least one piece; pieces are named by position from either end
            src = mk("split", x, key)
            if nm == "rsplit":
                src = mk("rev", src)
        elif nm in ("splitn", "rsplitn") and lit is not None and args[1].op == "int" and args[1].a[0] == 2:
            mode = "find" if nm == "splitn" else "rfind"
            out = []
            for s2, y in E.bool_split(s, has_term(E, x, lit)):
                if not y:
                    out.append((s2, mk("seq", mk("one", x))))
                else:
                    a, b = before(x, lit, mode), after_(x, lit, mode)
                    out.append((s2, mk("seq", mk("one", a), mk("one", b)) if nm == "splitn" else mk("seq", mk("one", b), mk("one", a))))
            return out
        else:
            src = mk("app", "str::" + nm, x, key, *([args[1]] if nm.endswith("n") else []))
        e = E.elem(src, sty)
        return [(s, mk("seq", mk("comp", src, e, ((EMPTY, (mk("one", e),)),))))]
    return per_row(E, st, s0, f)


@smodel("chars", "bytes", "char_indices", "lines", "split_whitespace", "split_ascii_whitespace")
def s_chars(E, fr, st, c, args):
    nm = norm(c.c["n"]).split("::")[-1]
    s0 = sval(E, st, args[0])

    def f(s, x):
        if x.op == "str":
            t = x.a[0]
            if nm == "chars":
                return [(s, mk("seq", *[mk("one", mk("char", ch)) for ch in t]))]
            if nm == "lines":
                return [(s, mk("seq", *[mk("one", S(p)) for p in t.replace("\r\n", "\n").split("\n")][: None if not t.endswith("\n") else -1] if t else ()))]
            if nm in ("split_whitespace", "split_ascii_whitespace"):
                return [(s, mk("seq", *[mk("one", S(p)) for p in t.split()]))]
        if nm == "chars":
            if x.op == "cat":
                out = []
                for p in x.a:
                    out += f(s, p)[0][1].a
                return [(s, mk("seq", *out))]
            k = char_items(x)
            if k is not None:
                return [(s, mk("seq", k))]
        ty = {"chars": CHAR_TY, "lines": STR_TY, "split_whitespace": STR_TY, "split_ascii_whitespace": STR_TY}.get(nm)
        src = mk("chars", x) if nm == "chars" else mk("app", "str::" + nm, x)
        e = E.elem(src, ty)
        return [(s, mk("seq", mk("comp", src, e, ((EMPTY, (mk("one", e),)),))))]
    return per_row(E, st, s0, f)


TRIMS = {"trim": str.strip, "trim_start": str.lstrip, "trim_end": str.rstrip, "to_lowercase": str.lower,
         "to_uppercase": str.upper, "to_ascii_lowercase": str.lower, "to_ascii_uppercase": str.upper}
for _n in TRIMS:
    def _mk(_n):
        def f(E, st, c, x, rest):
            if x.op == "str":
                return typed(S(TRIMS[_n](x.a[0])), c.rty)
            if x.op == "app" and x.a[0] == "str::" + _n:
                return x
            return sopq(E, "str::" + _n, x, [], STRING_TY)
        return on_str(f)
    M["str::" + _n] = _mk(_n)


@smodel("replace")
def s_replace(E, fr, st, c, args):
    a, b = E.deref_all(st, args[1]), E.deref_all(st, args[2])

    def f(x):
        if x.op == "str" and a.op in ("str", "char") and b.op == "str":
            return S(x.a[0].replace(a.a[0], b.a[0]))
        return sopq(E, "str::replace", x, [a, b], STRING_TY)
    return [(st, dist(sval(E, st, args[0]), f, STRING_TY))]


@smodel("repeat")
def s_repeat(E, fr, st, c, args):
    n = args[1]

    def f(x):
        if x.op == "str" and n.op == "int":
            return S(x.a[0] * n.a[0])
        if x.op == "str" and x.a[0] == "":
            return S("")
        return sopq(E, "str::repeat", x, [n], STRING_TY)
    return [(st, dist(sval(E, st, args[0]), f, STRING_TY))]


@smodel("parse")
def s_parse(E, fr, st, c, args):
    t = c.a[0] if c.a else None
    v = sval(E, st, args[0])
    if t is not None and t.k == "adt" and t.id == STRING:
        return [(st, ok(v))]
    if t is not None:
        for pt, ms in E.prog.impl_ix.get("core::str::traits::FromStr", ()):
            b = {}
            if unify_ty(pt, t, b) and ms.get("from_str") in E.prog.fns:
                return E.invoke(fr, st, E.prog.fns[ms["from_str"]], [v], tuple(sorted(b.items())), c.rty, c.line)

    def f(x):
        if x.op == "str" and t is not None and t.k in INTK:
            s = x.a[0]
            if re.fullmatch(r"[+-]?\d+" if t.k[0] == "i" else r"\+?\d+", s, re.A) and INTK[t.k][0] <= int(s) <= INTK[t.k][1]:
                return ok(typed(I(int(s)), t))
            return err(typed(mk("app", "parse-error", x), c.rty.a[1] if c.rty is not None and len(c.rty.a) > 1 else None))
        return typed(mk("app", f"parse:{t.s if t else '?'}", x), c.rty)
    return [(st, dist(v, f, c.rty))]


@model("std::str::FromStr::from_str")
def m_from_str(E, fr, st, c, args):
    c2 = Call(c.c, c.a[:1], c.rty, c.line)
    return s_parse(E, fr, st, c2, args)


@smodel("get")
def s_get(E, fr, st, c, args):
    return str_slice(E, fr, st, c, sval(E, st, args[0]), args[1], False)


@smodel("as_bytes")
def s_as_bytes(E, fr, st, c, args):
    return [(st, dist(sval(E, st, args[0]), lambda x: typed(mk("bytesof", x), mkty("slice", a=(mkty("u8", s="u8"),), s="[u8]")), None))]


@smodel("is_char_boundary")
def s_icb(E, fr, st, c, args):
    return [(st, E.pure_app("str::is_char_boundary", [sval(E, st, args[0]), args[1]], BOOL_TY))]


@smodel("is_ascii")
def s_is_ascii(E, fr, st, c, args):
    return [(st, dist(sval(E, st, args[0]), lambda x: B(x.a[0].isascii()) if x.op == "str" else typed(mk("app", "str::is_ascii", x), BOOL_TY), BOOL_TY))]


@smodel("matches", "match_indices", "rmatches")
def s_matches(E, fr, st, c, args):
    v = sval(E, st, args[0])
    src = mk("app", "str::" + norm(c.c["n"]).split("::")[-1], v, E.deep(st, args[1]))
    e = E.elem(src, STR_TY)
    return [(st, mk("seq", mk("comp", src, e, ((EMPTY, (mk("one", e),)),))))]


# `&s[a..b]` -----------------------------------------------------------------
def ascii_lit(t):
    return t.op == "str" and t.a[0].isascii()


def boundary_ok(E, st, s, i):
    """is byte offset i provably <= len(s) and on a character boundary of s?"""
    if i.op == "int":
        k = i.a[0]
        if k == 0:
            return True
        if s.op == "str":
            b = s.a[0].encode()
            if k > len(b):
                return False
            try:
                b[:k].decode()
                return True
            except UnicodeDecodeError:
                return False
        if s.op == "cat" and s.a[0].op == "str":
            b = s.a[0].a[0].encode()
            if k <= len(b):
                try:
                    b[:k].decode()
                    return True
                except UnicodeDecodeError:
                    return False
        for t, d in st.f.items():
            if t.op == "starts" and t.a[0] is s and d == ("B", True) and t.a[1].op == "str":
                b = t.a[1].a[0].encode()
                if k <= len(b):
                    try:
                        b[:k].decode()
                        return True
                    except UnicodeDecodeError:
                        pass
            if t.op == "app" and t.a[0] == "str::is_char_boundary" and t.a[1] is s and t.a[2] is i and d == ("B", True):
                return True
        a = st.f.get(mk("app", "str::is_ascii", s))
        if a == ("B", True):
            lo = E.irange(st, mk("len", s))[0]
            d = st.f.get(s)
            if lo == 0 and d is not None and d[0] == "S" and not d[1] and "" in d[2]:
                lo = 1
            return lo >= k
        return False
    if i.op == "len" and i.a[0] is s:
        return True
    if i.op == "idx" and i.a[1] is s:
        return True
    if i.op == "arith" and i.a[0] == "Add" and i.a[1].op == "idx" and i.a[1].a[1] is s and i.a[2].op == "int":
        lit = i.a[1].a[2].a[0].encode()
        k = i.a[2].a[0]
        if 0 <= k <= len(lit):
            try:
                lit[:k].decode()
                return True
            except UnicodeDecodeError:
                return False
    if i.op == "arith" and i.a[0] == "Add" and i.a[1].op == "len" and i.a[1].a[0] is s and i.a[2].op == "int" and i.a[2].a[0] < 0:
        k = -i.a[2].a[0]
        for t, d in st.f.items():
            if t.op == "ends" and t.a[0] is s and d == ("B", True) and t.a[1].op == "str":
                b = t.a[1].a[0].encode()
                if k <= len(b) and all(x < 0x80 for x in b[-k:]):
                    return True
        if st.f.get(mk("app", "str::is_ascii", s)) == ("B", True):
            return E.irange(st, mk("len", s))[0] >= k
    return False


def slice_val(E, s, lo, hi):
    if s.op == "str" and lo.op == "int" and (hi is None or hi.op == "int"):
        b = s.a[0].encode()
        h = len(b) if hi is None else hi.a[0]
        try:
            return typed(S(b[lo.a[0]:h].decode()), STR_TY)
        except UnicodeDecodeError:
            return mk("bad")
    z = lo.op == "int" and lo.a[0] == 0
    end = hi is None or (hi.op == "len" and hi.a[0] is s)
    if z and end:
        return s
    if z and hi is not None and hi.op == "idx" and hi.a[1] is s:
        return before(s, hi.a[2].a[0], hi.a[0])
    if end and lo.op == "arith" and lo.a[0] == "Add" and lo.a[1].op == "idx" and lo.a[1].a[1] is s and \
            lo.a[2].op == "int" and lo.a[2].a[0] == len(lo.a[1].a[2].a[0].encode()):
        return after_(s, lo.a[1].a[2].a[0], lo.a[1].a[0])
    return typed(mk("substr", s, lo, hi if hi is not None else UNIT), STR_TY)


def str_slice(E, fr, st, c, s0, rng, panics):
    it = c.a[1] if len(c.a) > 1 else rng.ty
    if not panics:
        it = c.a[0] if c.a else rng.ty
    r = E.deref_all(st, rng)
    if it is None or it.k != "adt":
        return None

    def f(s_, s):
        lo, hi = range_of(r, it, None) if not it.id.endswith(("RangeFrom", "RangeFull")) else (
            (project(r, 0, 0, USIZE_TY), None) if it.id.endswith("RangeFrom") else (I(0), None))
        out = []
        los = lo.a[0] if lo.op == "case" else ((EMPTY, lo),)
        his = hi.a[0] if hi is not None and hi.op == "case" else ((EMPTY, hi),)
        for g1, l in los:
            s1 = s_.assume_g(g1)
            if s1 is None:
                continue
            for g2, h in his:
                s2 = s1.assume_g(g2)
                if s2 is None:
                    continue
                good = boundary_ok(E, s2, s, l) and (h is None or boundary_ok(E, s2, s, h)) and ordered(E, s2, l, h)
                v = slice_val(E, s, l, h)
                if panics:
                    if not good:
                        E.panic(s2, fr, c.line, "str-slice", f"{show(s, 3)}[{show(l, 3)}..{show(h, 3) if h is not None else ''}]")
                    if v.op != "bad":
                        out.append((s2, v))
                elif good:
                    out.append((s2, some(v)))
                else:
                    q = typed(mk("app", "str::get", s, l, h if h is not None else UNIT), BOOL_TY)
                    for s3, y in E.bool_split(s2, q):
                        out.append((s3, some(v) if y else NONE))
        return out
    return per_row(E, st, s0, f)


def ordered(E, st, l, h):
    if h is None or (l.op == "int" and l.a[0] == 0):
        return True
    if l.op == "int" and h.op == "int":
        return l.a[0] <= h.a[0]
    return E.le(st, l, h)


# ------------------------------------------------------------------ chars
def cmodel(name, cls):
    def f(E, fr, st, c, args):
        return [(st, dist(E.deref_all(st, args[0]), lambda x: char_in(E, x, cls), BOOL_TY))]
    M["char::" + name] = f
    M["std::char::methods::<impl char>::" + name] = f


def cls_of(x):
    return mk("app", "cls", x)


def char_in(E, x, cls):
    return E.member(cls_of(x), ("V", cls, chars.N))


for _n, _c in chars.PRED.items():
    cmodel(_n, _c)


@model("char::to_digit")
def c_to_digit(E, fr, st, c, args):
    v, r = E.deref_all(st, args[0]), args[1]
    u32 = mkty("u32", s="u32")

    def f(s, x):
        if x.op == "char" and r.op == "int":
            try:
                return [(s, some(typed(I(int(x.a[0], r.a[0])), u32)) if x.a[0].isascii() else NONE)]
            except ValueError:
                return [(s, NONE)]
        pred = char_in(E, x, chars.digits(r.a[0])) if r.op == "int" else typed(mk("app", "char::is_digit", x, r), BOOL_TY)
        out = []
        for s2, y in E.bool_split(s, pred):
            if y:
                d = typed(mk("digit", x, r), u32)
                hi = r.a[0] - 1 if r.op == "int" else 35
                s3 = s2.assume(d, ("I", ((0, hi),)))
                out.append((s3, some(d)))
            else:
                out.append((s2, NONE))
        return out
    return per_row(E, st, v, f)


# ------------------------------------------------------------------ checked integer arithmetic
def imodel(name, f):
    for t in INTK:
        M[f"{t}::{name}"] = f
        M[f"core::num::<impl {t}>::{name}"] = f


def _int_ty(c):
    m = re.search(r"<impl (\w+)>", c.c["n"])
    return m.group(1) if m else None


def mk_checked(op):
    def f(E, fr, st, c, args):
        k = _int_ty(c)
        t = mkty(k, s=k)
        nm = norm(c.c["n"]).split("::")[-1]
        a, b = E.deref_all(st, args[0]), E.deref_all(st, args[1])
        if op in ("Div", "Rem"):
            out = []
            for s, z in E.bool_split(st, dist(b, lambda x: E.cmp(st, "Eq", x, I(0)), BOOL_TY)):
                if z:
                    out.append((s, NONE))
                else:
                    out.append((s, some(E.binop(s, op, a, b, t))))
            return out
        r = E.binop(st, op + "WithOverflow", a, b, t)
        v, o = project(r, None, 0, t) if r.op == "tup" else dist(r, lambda x: project(x, None, 0, t), t), \
            dist(r, lambda x: project(x, None, 1, BOOL_TY), BOOL_TY)
        out = []
        for s, y in E.bool_split(st, o):
            if nm.startswith("checked"):
                out.append((s, NONE if y else some(v)))
            elif nm.startswith("saturating"):
                end = I(0 if op == "Sub" else INTK[k][1]) if k[0] == "u" else mk("app", nm, a, b)
                out.append((s, typed(end, t) if y else v))
            elif nm.startswith("wrapping"):
                out.append((s, typed(mk("app", nm, a, b), t) if y else v))
            else:
                out.append((s, tup(v, B(y))))
        return out
    return f


for _p in ("checked", "saturating", "wrapping", "overflowing"):
    for _o in ("add", "sub", "mul"):
        imodel(f"{_p}_{_o}", mk_checked(_o.capitalize()))
for _o in ("div", "rem"):
    imodel(f"checked_{_o}", mk_checked(_o.capitalize()))


def m_checked_pow(E, fr, st, c, args):
    k = _int_ty(c)
    t = mkty(k, s=k)
    a, b = E.deref_all(st, args[0]), E.deref_all(st, args[1])
    if a.op == "int" and b.op == "int" and b.a[0] < 200:
        n = a.a[0] ** b.a[0]
        lo, hi = INTK[k]
        return [(st, some(typed(I(n), t)) if lo <= n <= hi else NONE)]
    return None


imodel("checked_pow", m_checked_pow)


def m_unsigned_abs(E, fr, st, c, args):
    k = _int_ty(c)
    u = "u" + k[1:]
    t = mkty(u, s=u)
    v = E.deref_all(st, args[0])
    return [(st, dist(v, lambda x: typed(I(abs(x.a[0])), t) if x.op == "int" else typed(mk("app", "abs", values.plain(x)), t), t))]


imodel("unsigned_abs", m_unsigned_abs)


def m_pow(E, fr, st, c, args):
    k = _int_ty(c)
    t = mkty(k, s=k)
    a, b = E.deref_all(st, args[0]), E.deref_all(st, args[1])
    lo, hi = INTK[k]
    if a.op == "int" and b.op == "int" and b.a[0] < 200 and lo <= a.a[0] ** b.a[0] <= hi:
        return [(st, typed(I(a.a[0] ** b.a[0]), t))]
    rb = E.irange(st, b)
    if a.op == "int" and rb[1] < 200 and lo <= a.a[0] ** rb[1] <= hi:
        return [(st, typed(mk("app", "pow", a, b), t))]
    E.panic(st, fr, c.line, "overflow:Pow", show(a, 3))
    return [(st, typed(mk("app", "pow", a, b), t))]


imodel("pow", m_pow)


def m_iabs(E, fr, st, c, args):
    k = _int_ty(c)
    t = mkty(k, s=k)
    v = E.deref_all(st, args[0])
    if E.irange(st, v)[0] <= INTK[k][0]:
        E.panic(st, fr, c.line, "overflow:Abs", show(v, 3))
    return [(st, dist(v, lambda x: typed(I(abs(x.a[0])), t) if x.op == "int" else typed(mk("app", "abs", values.plain(x)), t), t))]


imodel("abs", m_iabs)


# ------------------------------------------------------------------ hash maps (pure terms)
@model("std::collections::HashMap::new", "std::collections::BTreeMap::new", "std::collections::HashSet::new", "std::collections::BTreeSet::new",
       "std::collections::HashMap::with_capacity", "std::collections::HashSet::with_capacity")
def h_new(E, fr, st, c, args):
    return [(st, typed(mk("map"), c.rty))]


def map_place(E, st, p):
    while p.op == "ptr" and E.load(st, p.a[0], p.a[1]).op == "ptr":
        p = E.load(st, p.a[0], p.a[1])
    return p if p.op == "ptr" else None


def map_base(m):
    """what the insertions were made into"""
    while m.op == "ins":
        m = m.a[0]
    return m


def map_find(E, st, m, k):
    """the newest entry of a key, in a map whose insertions are all known: [(state, Option)]"""
    if m.op == "map":
        return [(st, NONE)]
    out = []
    for s, y in E.bool_split(st, eq(E, st, m.a[1], k)):
        if y:
            out.append((s, some(m.a[2])))
        else:
            out += map_find(E, s, m.a[0], k)
    return out


@model("std::collections::HashMap::insert", "std::collections::BTreeMap::insert")
def h_insert(E, fr, st, c, args):
    p = map_place(E, st, args[0])
    if p is None:
        return None
    old = E.load(st, p.a[0], p.a[1])
    k, v = E.deep(st, args[1]), E.deep(st, args[2])
    if map_base(old).op == "map":
        r = map_find(E, st, E.deep(st, old), k)
    else:
        r = [(st, typed(mk("app", "map_get", E.deep(st, old), k), c.rty))]
    out = []
    for s, x in r:
        s = s.copy()
        E.store(s, p.a[0], p.a[1], typed(mk("ins", old, k, v), old.ty))
        out.append((s, x))
    return out


@model("std::collections::HashSet::insert", "std::collections::BTreeSet::insert")
def hs_insert(E, fr, st, c, args):
    """whether the element is new"""
    p = map_place(E, st, args[0])
    if p is None:
        return None
    old = E.load(st, p.a[0], p.a[1])
    k = E.deep(st, args[1])
    if map_base(old).op != "map":
        return None
    out = []
    for s, x in map_find(E, st, E.deep(st, old), k):
        new = x is NONE
        if new:
            s = s.copy()
            E.store(s, p.a[0], p.a[1], typed(mk("ins", old, k, UNIT), old.ty))
        out.append((s, B(new)))
    return out


@model("std::collections::HashSet::contains", "std::collections::BTreeSet::contains")
def hs_contains(E, fr, st, c, args):
    m, k = E.deep(st, args[0]), E.deep(st, args[1])
    if map_base(m).op != "map":
        return None
    return [(s, B(x is not NONE)) for s, x in map_find(E, st, m, k)]


@model("std::collections::HashMap::entry", "std::collections::BTreeMap::entry")
def h_entry(E, fr, st, c, args):
    p = map_place(E, st, args[0])
    if p is None or map_base(E.load(st, p.a[0], p.a[1])).op != "map":
        return None
    return [(st, typed(mk("entry", p, E.deep(st, args[1])), c.rty))]


@model(*("std::collections::%s::Entry::%s" % (m, f) for m in ("hash_map", "btree_map")
         for f in ("or_insert", "or_insert_with", "or_default")))
def h_or_insert(E, fr, st, c, args):
    """the value of the key as a place of its own, which the map refers to from then on"""
    if args[0].op != "entry":
        return None
    p, k = args[0].a
    nm = norm(c.c["n"]).split("::")[-1]
    out = []
    for s, x in map_find(E, st, E.deep(st, E.load(st, p.a[0], p.a[1])), k):
        if x is not NONE:
            vs = [(s, x.a[2])]
        elif nm == "or_insert":
            vs = [(s, args[1])]
        elif nm == "or_insert_with":
            vs = E.call_closure(fr, s, args[1], [], None, c.line)
        else:
            t = c.rty.a[0] if c.rty is not None and c.rty.k == "ref" else None
            vs = default_value(E, fr, s, t, c.line) if t is not None else None
        if vs is None:
            return None
        for s2, v in vs:
            s2 = s2.copy()
            i = 0
            while ("h", len(E.stack), c.line, i) in s2.mem:
                i += 1
            cell = ("h", len(E.stack), c.line, i)
            s2.mem[cell] = v
            q = mk("ptr", cell, ())
            old = E.load(s2, p.a[0], p.a[1])
            E.store(s2, p.a[0], p.a[1], typed(mk("ins", old, k, q), old.ty))
            out.append((s2, q))
    return out


def same_keys(E, m):
    """a map behind a shared reference keeps its keys and the identity of what it refers to, whatever happens to
    the cells inside it"""
    x = m
    while x.op == "after" and len(x.a) > 1 and isinstance(x.a[1], T):
        x = x.a[1]
    if not E.stack or x.op not in ("accp", "sym"):
        return m
    top = E.stack[0]
    name = (x.a[2][2] if x.a[2] is not None and x.a[2][0] == "arg" else None) if x.op == "accp" else x.a[0]
    for i in range(1, top.argc + 1):
        t = top.locals[i]
        if top.names.get(i) == name and t.k == "ref" and not t.m:
            return typed(mk("sym", name, t.a[0].s), t.a[0])
    return m


@model("std::collections::HashMap::get", "std::collections::BTreeMap::get")
def h_get(E, fr, st, c, args):
    m, k = same_keys(E, E.deep(st, args[0])), E.deep(st, args[1])
    if map_base(m).op == "map":
        return map_find(E, st, m, k)
    return [(st, dist(k, lambda x: typed(mk("app", "map_get", m, x), c.rty), c.rty))]


@model("std::collections::HashMap::contains_key", "std::collections::BTreeMap::contains_key")
def h_contains(E, fr, st, c, args):
    m, k = same_keys(E, E.deep(st, args[0])), E.deep(st, args[1])
    if map_base(m).op == "map":
        return [(s, B(x is not NONE)) for s, x in map_find(E, st, m, k)]
    return [(st, E.member(typed(mk("app", "map_get", m, k), None), ("V", frozenset([1]), 2)))]


@model("std::collections::HashMap::is_empty", "std::collections::BTreeMap::is_empty")
def h_is_empty(E, fr, st, c, args):
    m = same_keys(E, E.deep(st, args[0]))
    if m.op in ("map", "ins"):
        return [(st, B(m.op == "map"))]
    return [(st, E.b_not(E.mkexists(mk("app", "map_iter", m), E.elem(mk("app", "map_iter", m), None), [EMPTY])))]


@model("std::collections::HashMap::values", "std::collections::BTreeMap::values", "std::collections::HashMap::keys",
       "std::collections::BTreeMap::keys", "std::collections::HashMap::iter", "std::collections::BTreeMap::iter")
def h_values(E, fr, st, c, args):
    m = E.deep(st, args[0])
    nm = norm(c.c["n"]).split("::")[-1]
    e = E.elem(mk("app", "map_iter", m), None)
    x = e
    if nm != "iter":
        # keys and values are those of the pairs
        i = 0 if nm == "keys" else 1
        x = project(e, None, i, c.a[i] if len(c.a) > i else None)
    return [(st, mk("seq", mk("comp", e.a[0], e, ((EMPTY, (mk("one", x),)),))))]


# ------------------------------------------------------------------ roxmltree (read-only XML tree)
def tagname(E, n):
    return dist(n, lambda x: typed(mk("app", "tag", x), STR_TY), STR_TY)


@model("roxmltree::Node::tag_name")
def x_tag(E, fr, st, c, args):
    return [(st, dist(E.deref_all(st, args[0]), lambda x: typed(mk("app", "tag_name", x), c.rty), c.rty))]


@model("roxmltree::ExpandedName::name")
def x_name(E, fr, st, c, args):
    def f(x):
        if x.op == "app" and x.a[0] == "tag_name":
            return tagname(E, x.a[1])
        return typed(mk("app", "expanded_name.name", x), c.rty)
    return [(st, dist(E.deref_all(st, args[0]), f, STR_TY))]


def is_element(E, x):
    return E.b_not(E.member(tagname(E, x), ("S", True, frozenset([""]))))


@model("roxmltree::Node::is_element")
def x_is_element(E, fr, st, c, args):
    return [(st, dist(E.deref_all(st, args[0]), lambda x: is_element(E, x), BOOL_TY))]


@model("roxmltree::Node::has_tag_name")
def x_has_tag(E, fr, st, c, args):
    nm = E.deref_all(st, args[1])
    if nm.op != "str":
        return None
    return [(st, dist(E.deref_all(st, args[0]), lambda x: E.member(tagname(E, x), ("S", True, frozenset([nm.a[0]]))), BOOL_TY))]


OPTSTR = mkty("adt", n="std::option::Option", id=OPT, a=(mkty("ref", a=(STR_TY,), s="&str"),), s="std::option::Option<&str>")


@model("roxmltree::Node::attribute")
def x_attr(E, fr, st, c, args):
    k = E.deref_all(st, args[1])
    return [(st, dist2(E.deref_all(st, args[0]), k, lambda x, y: typed(mk("app", "attr", x, y), OPTSTR)))]


@model("roxmltree::Node::has_attribute")
def x_has_attr(E, fr, st, c, args):
    k = E.deref_all(st, args[1])
    return [(st, dist2(E.deref_all(st, args[0]), k, lambda x, y: E.member(typed(mk("app", "attr", x, y), OPTSTR), ("V", frozenset([1]), 2))))]


def x_children_of(E, x):
    src = mk("app", "children", x)
    if E.small is not None:
        return mk("seq", *[mk("one", typed(mk("app", "nth_child", x, I(i)), node_ty(E))) for i in range(E.small)])
    e = E.elem(src, node_ty(E))
    return mk("seq", mk("comp", src, e, ((EMPTY, (mk("one", e),)),)))


def node_ty(E):
    r = getattr(E, "_nodety", None)
    if r is None:
        for x in list(Ty._tab.values()):
            if x.k == "adt" and x.id == "roxmltree::Node":
                r = E._nodety = x
                break
    return r


@model("roxmltree::Node::children")
def x_children(E, fr, st, c, args):
    return per_row(E, st, E.deref_all(st, args[0]), lambda s, x: [(s, x_children_of(E, x))])


@model("roxmltree::Node::first_element_child", "roxmltree::Node::last_element_child", "roxmltree::Node::first_child", "roxmltree::Node::last_child")
def x_first_child(E, fr, st, c, args):
    nm = norm(c.c["n"]).split("::")[-1]

    def f(s, x):
        q = x_children_of(E, x)
        if E.small is not None:
            segs = q.a
            if "element" in nm:
                segs = tuple(mk("if", ((frozenset([(tagname(E, y.a[0]), ("S", False, frozenset([""])))]), (y,)),)) for y in segs)
            return opt_of(first_of(E, s, segs, "first" if nm.startswith("first") else "last"))
        comp = q.a[0]
        if "element" in nm:
            e = comp.a[1]
            g = frozenset([(tagname(E, e), ("S", False, frozenset([""])))])
            comp = mk("comp", comp.a[0], e, ((g, (mk("one", e),)),))
        return opt_of(first_of(E, s, (comp,), "first" if nm.startswith("first") else "last"))
    return per_row(E, st, E.deref_all(st, args[0]), f)


@model("roxmltree::Node::namespaces", "roxmltree::Node::attributes", "roxmltree::Node::descendants", "roxmltree::Node::ancestors")
def x_namespaces(E, fr, st, c, args):
    nm = norm(c.c["n"]).split("::")[-1]
    ety = iter_item(E, c.rty)
    if nm in ("descendants", "ancestors"):
        ety = node_ty(E)
    if nm == "namespaces":
        for x in list(Ty._tab.values()):
            if x.k == "adt" and x.id == "roxmltree::Namespace":
                ety = x

    def f(s, x):
        src = mk("app", nm, x)
        e = E.elem(src, ety)
        return [(s, mk("seq", mk("comp", src, e, ((EMPTY, (mk("one", e),)),))))]
    return per_row(E, st, E.deref_all(st, args[0]), f)


def x_simple(name, short, *alias):
    def f(E, fr, st, c, args):
        return [(st, dist(E.deref_all(st, args[0]), lambda x: typed(mk("app", short, x), c.rty), c.rty))]
    M[name] = f


x_simple("roxmltree::Node::parent_element", "parent_element")
x_simple("roxmltree::Node::parent", "parent")
x_simple("roxmltree::Node::text", "text")
x_simple("roxmltree::Namespace::name", "ns.name")
x_simple("roxmltree::Namespace::uri", "ns.uri")
x_simple("roxmltree::Document::root", "doc.root")
x_simple("roxmltree::Document::root_element", "doc.root_element")
x_simple("inflector::cases::pascalcase::to_pascal_case", "pascal")
x_simple("inflector::cases::snakecase::to_snake_case", "snake")


import values


@model("[T]::get", "std::vec::Vec::get", "core::slice::<impl [T]>::get", "slice::get")
def sl_get(E, fr, st, c, args):
    """element number i, or nothing"""
    i = args[1]
    if i.ty is not None and i.ty.k not in ("usize",) and i.op != "int":
        return None
    val = E.deref_all(st, args[0])
    if val.op == "case":
        return None
    s = E.seq_of(val, None)
    if s is None or len(s.a) > 64 or not all(x.op == "one" for x in s.a):
        return None
    out = []
    for s2, y in E.bool_split(st, dist2(i, I(len(s.a)), lambda x, y_: E.cmp(st, "Lt", x, y_))):
        if y:
            out.append((s2, some(E.index(s2, val, i))))
        else:
            out.append((s2, NONE))
    return out
