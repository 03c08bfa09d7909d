"""Transfer functions for the file system.  Whether an operation succeeds is a fact about its kind and path; an
operation that changes something is appended to the trace of events the state carries.  Nothing is executed."""
from core import *
from dom import *
import models
from models import model, norm, NONE, BOOL_TY, STRING_TY, UNIT_TY
WORLD = ("world",)

F = "fs:"


def fact(name, *a):
    return typed(mk("app", F + name, *a), BOOL_TY)


def text(name, *a):
    return typed(mk("app", F + name, *a), STRING_TY)


def joined(a, b):
    """a path below another; two constant ones are one constant"""
    if a.op == "str" and b.op == "str" and b.a[0] and not b.a[0].startswith("/"):
        return S(a.a[0].rstrip("/") + "/" + b.a[0] if a.a[0] else b.a[0])
    return text("join", a, b)


def val(E, st, v):
    return E.deep(st, v)


def event(E, st, *what):
    st = st.copy()
    w = st.mem.get(WORLD) or mk("seq")
    s = E.seq_of(w)
    if s is None:
        s = mk("seq", mk("comp", w, E.elem(w, None), ((EMPTY, (mk("one", E.elem(w, None)),)),)))
    st.mem[WORLD] = E.mkseq(list(s.a) + [mk("one", mk("app", F + "event", *what))], None)
    return st


def failure(*a):
    return err(mk("app", F + "error", *a))


def distp(f):
    """one outcome per gated value of the arguments"""
    def g(E, fr, st, c, args):
        vs = [val(E, st, a) for a in args]
        rows = [(st, [])]
        for v in vs:
            nx = []
            for s, done in rows:
                if v.op == "case":
                    for gg, x in v.a[0]:
                        s2 = s.assume_g(gg)
                        if s2 is not None:
                            nx.append((s2, done + [x]))
                else:
                    nx.append((s, done + [v]))
            rows = nx
        out = []
        for s, vs2 in rows:
            r = f(E, fr, s, c, args, vs2)
            if r is None:
                return None
            out += r
        return out
    return g


def fmodel(*names):
    def deco(f):
        h = distp(f)
        for n in names:
            models.M[n] = h
        return f
    return deco


def try_(E, st, f, good, bad=None):
    """[(state, Ok(good) or Err)]"""
    out = []
    for s, y in E.bool_split(st, f):
        out.append((s, good(s) if y else (bad or failure(f))))
    return [(v[0], v[1]) if isinstance(v, tuple) else (s, v) for s, v in out]


def present(p):
    return fact("exists", p)


# ------------------------------------------------------------------ asking
@fmodel("std::path::Path::exists")
def m_exists(E, fr, st, c, args, v):
    return [(st, present(v[0]))]


@fmodel("std::fs::exists", "std::path::Path::try_exists")
def m_try_exists(E, fr, st, c, args, v):
    return [(st, ok(present(v[0])))]


@fmodel("std::path::Path::is_dir", "std::path::Path::is_file")
def m_is_dir(E, fr, st, c, args, v):
    want = norm(c.c["n"]).endswith("is_dir")
    out = []
    for s, y in E.bool_split(st, present(v[0])):
        if not y:
            out.append((s, FALSE))
        else:
            d = fact("is_dir", v[0])
            out += [(s2, TRUE if k == want else FALSE) for s2, k in E.bool_split(s, d)]
    return out


@fmodel("std::fs::metadata", "std::path::Path::metadata")
def m_metadata(E, fr, st, c, args, v):
    return try_(E, st, present(v[0]), lambda s: ok(mk("app", F + "meta", v[0])))


@fmodel("std::fs::Metadata::is_dir", "std::fs::Metadata::is_file")
def m_meta_dir(E, fr, st, c, args, v):
    if v[0].op != "app" or v[0].a[0] != F + "meta":
        return None
    want = norm(c.c["n"]).endswith("is_dir")
    return [(s, TRUE if k == want else FALSE) for s, k in E.bool_split(st, fact("is_dir", v[0].a[1]))]


@fmodel("std::fs::Metadata::modified", "std::fs::Metadata::accessed", "std::fs::Metadata::created")
def m_meta_time(E, fr, st, c, args, v):
    if v[0].op != "app" or v[0].a[0] != F + "meta":
        return None
    return [(st, ok(mk("app", F + norm(c.c["n"]).split("::")[-1], v[0].a[1])))]


@fmodel("std::io::Error::kind")
def m_kind(E, fr, st, c, args, v):
    """reading, writing or opening for writing may fail for any reason"""
    if v[0].op != "app" or v[0].a[0] != F + "error" or v[0].a[1] not in ("read", "write"):
        return None
    return [(st, typed(mk("app", F + "kind", v[0]), c.rty))]


# ------------------------------------------------------------------ reading
def reading(E, st, p, then):
    """opening an existing file, which may fail"""
    out = []
    for s, y in E.bool_split(st, present(p)):
        if not y:
            out.append((s, failure("open", p)))
            continue
        for s2, k in E.bool_split(s, fact("opens", p)):
            out += then(s2) if k else [(s2, failure("open", p))]
    return out


def contents(E, st, p, then):
    return [x for s, y in E.bool_split(st, fact("reads", p))
            for x in (then(s) if y else [(s, failure("read", p))])]


@fmodel("std::fs::File::open")
def m_open(E, fr, st, c, args, v):
    return reading(E, st, v[0], lambda s: [(s, ok(mk("app", F + "file", v[0], "r")))])


@fmodel("std::fs::read_to_string", "std::fs::read")
def m_read(E, fr, st, c, args, v):
    return reading(E, st, v[0], lambda s: contents(E, s, v[0], lambda s2: [(s2, ok(text("text", v[0])))]))


@fmodel("std::io::BufReader::new", "std::io::BufWriter::new", "std::io::LineWriter::new")
def m_buffered(E, fr, st, c, args, v):
    """a buffer that is emptied with flush (rules/cli.py: unflushed) does what its file does"""
    return [(st, args[0])]


@fmodel("std::io::BufWriter::with_capacity", "std::io::BufReader::with_capacity")
def m_buffered_cap(E, fr, st, c, args, v):
    return [(st, args[1])]


@fmodel("std::io::BufWriter::into_inner", "std::io::LineWriter::into_inner")
def m_into_inner(E, fr, st, c, args, v):
    return [(st, ok(args[0]))] if the_file(v[0]) is not None else None


def the_file(x):
    if x.op == "app" and x.a[0] in (F + "file",):
        return x.a[1], x.a[2]
    return None


@fmodel("std::io::Read::read_to_string")
def m_read_to_string(E, fr, st, c, args, v):
    f = the_file(v[0])
    if f is None or f[1] != "r" or args[1].op != "ptr":
        return None

    def done(s):
        s = s.copy()
        p = args[1]
        old = E.load(s, p.a[0], p.a[1])
        while old.op == "ptr":
            p, old = old, E.load(s, old.a[0], old.a[1])
        E.store(s, p.a[0], p.a[1], cat(E.deep(s, old), text("text", f[0])))
        return [(s, ok(mk("app", F + "count", f[0])))]
    return contents(E, st, f[0], done)


@fmodel("std::io::read_to_string")
def m_io_rts(E, fr, st, c, args, v):
    f = the_file(v[0])
    if f is None or f[1] != "r":
        return None
    return contents(E, st, f[0], lambda s: [(s, ok(text("text", f[0])))])


@fmodel("std::fs::read_dir", "std::path::Path::read_dir")
def m_read_dir(E, fr, st, c, args, v):
    return try_(E, st, fact("lists", v[0]),
                lambda s: ok(typed(mk("app", F + "entries", v[0]), c.rty.a[0] if c.rty is not None and c.rty.a else None)))


@fmodel("std::fs::DirEntry::path")
def m_entry_path(E, fr, st, c, args, v):
    return [(st, text("entry_path", v[0]))]


@fmodel("std::fs::DirEntry::file_name")
def m_entry_name(E, fr, st, c, args, v):
    return [(st, text("file_name", text("entry_path", v[0])))]


# ------------------------------------------------------------------ names
def is_entry(p):
    return p.op == "app" and p.a[0] == F + "entry_path"


@fmodel("std::path::Path::file_name", "std::path::Path::file_stem")
def m_file_name(E, fr, st, c, args, v):
    what = norm(c.c["n"]).split("::")[-1]
    p = v[0]
    if is_entry(p):
        return [(st, some(text(what, p)))]
    if p.op == "app" and p.a[0] == F + "file_name" and what == "file_name":
        return [(st, some(p))]
    if p.op == "app" and p.a[0] == F + "join" and p.a[2].op == "app" and p.a[2].a[0] == F + "file_name":
        return [(st, some(p.a[2] if what == "file_name" else text("file_stem", p.a[2].a[1])))]
    if p.op == "app" and p.a[0] == F + "file_name" and what == "file_stem":
        return [(st, some(text("file_stem", p.a[1])))]
    return [(s, some(text(what, p)) if y else NONE) for s, y in E.bool_split(st, fact("has_name", p))]


def with_ext(p, e):
    if p.op == "app" and p.a[0] == F + "join":
        return joined(p.a[1], with_ext(p.a[2], e))
    if p.op == "app" and p.a[0] == F + "file_name" and not (e.op == "str" and e.a[0] == ""):
        return cat(text("file_stem", p.a[1]), S("."), e)
    return text("with_extension", p, e)


@fmodel("std::path::Path::with_extension")
def m_with_ext(E, fr, st, c, args, v):
    return [(st, with_ext(v[0], v[1]))]


@fmodel("std::path::Path::with_file_name")
def m_with_name(E, fr, st, c, args, v):
    if v[0].op == "app" and v[0].a[0] == F + "join":
        return [(st, joined(v[0].a[1], v[1]))]
    return [(st, text("with_file_name", v[0], v[1]))]


@fmodel("std::path::PathBuf::set_extension", "std::path::PathBuf::push", "std::path::PathBuf::set_file_name")
def m_set(E, fr, st, c, args, v):
    what = norm(c.c["n"]).split("::")[-1]
    if args[0].op != "ptr":
        return None
    st = st.copy()
    p, old = args[0], E.load(st, args[0].a[0], args[0].a[1])
    while old.op == "ptr":
        p, old = old, E.load(st, old.a[0], old.a[1])
    new = with_ext(v[0], v[1]) if what == "set_extension" else joined(v[0], v[1]) if what == "push" else \
        m_with_name(E, fr, st, c, args, v)[0][1]
    E.store(st, p.a[0], p.a[1], new)
    return [(st, TRUE if what == "set_extension" else models.UNIT)]


@fmodel("std::path::Path::join")
def m_join(E, fr, st, c, args, v):
    return [(st, joined(v[0], v[1]))]


@fmodel("std::path::Path::parent")
def m_parent(E, fr, st, c, args, v):
    if v[0].op == "app" and v[0].a[0] == F + "join" and v[0].a[2].op in ("cat", "app"):
        return [(st, some(v[0].a[1]))]
    return None


@fmodel("std::path::Path::to_path_buf", "std::path::Path::as_os_str", "std::ffi::OsStr::to_os_string",
        "std::path::Path::to_string_lossy_", "std::path::PathBuf::new")
def m_same(E, fr, st, c, args, v):
    return [(st, v[0] if v else S(""))]


# ------------------------------------------------------------------ writing
def attempt(E, st, kind, v, good):
    st = event(E, st, kind, *v)
    return [(s, good if y else failure(kind, *v)) for s, y in E.bool_split(st, fact("did:" + kind, *[x for x in v if kind != "write" or x is v[0]]))]


@fmodel("std::fs::create_dir_all")
def m_mkdirs(E, fr, st, c, args, v):
    out = []
    for s, y in E.bool_split(st, present(v[0])):
        out += [(s, ok(UNIT))] if y else attempt(E, s, "create_dir_all", v, ok(UNIT))
    return out


def mutator(kind):
    @fmodel("std::fs::" + kind)
    def m(E, fr, st, c, args, v):
        return attempt(E, st, kind, v, ok(UNIT))


for k_ in ("remove_file", "remove_dir", "remove_dir_all", "rename", "copy", "hard_link", "soft_link", "create_dir",
           "set_permissions"):
    mutator(k_)


def opened(E, st, p, flags, good):
    return attempt(E, st, "open", [p, mk("str", ",".join(sorted(flags)))], good)


CREATE = ("create", "truncate", "write")


@fmodel("std::fs::File::create")
def m_create(E, fr, st, c, args, v):
    return opened(E, st, v[0], CREATE, ok(mk("app", F + "file", v[0], "w")))


@fmodel("std::fs::OpenOptions::new", "std::fs::File::options")
def m_options(E, fr, st, c, args, v):
    return [(st, mk("app", F + "options"))]


@fmodel("std::fs::OpenOptions::write", "std::fs::OpenOptions::truncate", "std::fs::OpenOptions::create",
        "std::fs::OpenOptions::append", "std::fs::OpenOptions::read", "std::fs::OpenOptions::create_new")
def m_option(E, fr, st, c, args, v):
    what = norm(c.c["n"]).split("::")[-1]
    if v[0].op != "app" or v[0].a[0] != F + "options" or v[1] not in (TRUE, FALSE) or args[0].op != "ptr":
        return None
    fl = set(v[0].a[1:])
    (fl.add if v[1] is TRUE else fl.discard)(what)
    st = st.copy()
    E.store(st, args[0].a[0], args[0].a[1], mk("app", F + "options", *sorted(fl)))
    return [(st, args[0])]


@fmodel("std::fs::OpenOptions::open")
def m_opt_open(E, fr, st, c, args, v):
    if v[0].op != "app" or v[0].a[0] != F + "options":
        return None
    fl = v[0].a[1:]
    if fl == ("read",):
        return m_open(E, fr, st, c, args[1:], v[1:])
    return opened(E, st, v[1], fl, ok(mk("app", F + "file", v[1], "w")))


def put(E, st, f, t):
    return attempt(E, st, "write", [f[0], t], ok(UNIT))


@fmodel("std::fs::write")
def m_write(E, fr, st, c, args, v):
    out = []
    for s, r in opened(E, st, v[0], CREATE, ok(UNIT)):
        out += put(E, s, (v[0],), plain(v[1])) if r is ok(UNIT) else [(s, r)]
    return out


def plain(t):
    return t.a[0] if t.op == "bytesof" else t


@fmodel("std::io::Write::write_all")
def m_write_all(E, fr, st, c, args, v):
    f = the_file(v[0])
    if f is None or f[1] != "w":
        return None
    return put(E, st, f, plain(v[1]))


old_write_fmt = models.M["std::fmt::Write::write_fmt"]


@model("std::io::Write::write_fmt")
def m_write_fmt(E, fr, st, c, args):
    f = the_file(val(E, st, args[0]))
    if f is None or f[1] != "w":
        return None
    out = []
    for s, t in models.render(E, fr, st, args[1], c.line):
        out += put(E, s, f, t)
    return out


@fmodel("std::io::Write::flush")
def m_flush(E, fr, st, c, args, v):
    return [(st, ok(UNIT))] if the_file(v[0]) is not None else None


@model("std::io::_print", "std::io::_eprint", "std::io::stdio::_print", "std::io::stdio::_eprint")
def m_print(E, fr, st, c, args):
    return [(st, UNIT)]


# ------------------------------------------------------------------ the command line
@model("clap::Parser::parse", "clap::Parser::try_parse")
def m_parse(E, fr, st, c, args):
    t = c.a[0] if c.a else None
    rec = E.prog.adts.get(t.id) if t is not None and t.k == "adt" else None
    if rec is None or rec["k"] != "struct" or not norm(c.c["n"]).endswith("::parse"):
        return None
    v = rec["v"][0]
    return [(st, mk("adt", t.id, 0, *[typed(mk("sym", "opt." + n), ft) for n, ft in zip(v["f"], rec["ft"][0])]))]
