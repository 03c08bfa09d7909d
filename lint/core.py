"""Program model: resolved MIR of every workspace crate (exported by /verif/driver),
interned types and interned abstract terms."""
import chars
import json, os, glob, sys

sys.setrecursionlimit(20000)


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ("k", "n", "id", "a", "s", "m", "len", "i", "_fz", "__weakref__")
    _tab = {}

    def __repr__(self):
        return f"<{self.s}>"


def mkty(k, n="", id="", a=(), s="", m=False, ln=-1, i=-1):
    a = tuple(a)
    key = (k, id or n, a, m, ln, i)
    t = Ty._tab.get(key)
    if t is None:
        t = Ty()
        t.k, t.n, t.id, t.a, t.s, t.m, t.len, t.i, t._fz = k, n, id, a, s, m, ln, i, None
        Ty._tab[key] = t
    return t


UNIT_TY = mkty("tuple", s="()")
BOOL_TY = mkty("bool", s="bool")
STR_TY = mkty("str", s="str")
USIZE_TY = mkty("usize", s="usize")
CHAR_TY = mkty("char", s="char")
STRING_TY = mkty("adt", n="std::string::String", id="alloc::string::String", s="std::string::String")
INTK = {"i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1),
        "i64": (-2**63, 2**63 - 1), "i128": (-2**127, 2**127 - 1), "isize": (-2**63, 2**63 - 1),
        "u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1),
        "u128": (0, 2**128 - 1), "usize": (0, 2**64 - 1)}


def subst_ty(t, sub):
    """sub: tuple of (param name, Ty)"""
    if t is None or not sub:
        return t
    if t.k == "param":
        for n, x in sub:
            if n == t.n:
                return x
        return t
    if not t.a:
        return t
    a = tuple(subst_ty(x, sub) for x in t.a)
    if a == t.a:
        return t
    return mkty(t.k, t.n, t.id, a, t.s, t.m, t.len, t.i)


def unify_ty(pat, t, out):
    """match an impl's self type against a concrete type, binding its parameters"""
    if pat is t:
        return True
    if pat.k == "param":
        out.setdefault(pat.n, t)
        return True
    if pat.k != t.k or len(pat.a) != len(t.a):
        return False
    if pat.k in ("adt", "dyn", "closure") and (pat.id or pat.n) != (t.id or t.n):
        return False
    return all(unify_ty(x, y, out) for x, y in zip(pat.a, t.a))


# ------------------------------------------------------------------ program
class Fn:
    __slots__ = ("id", "name", "kind", "file", "line", "argc", "locals", "names", "pub", "gen", "in_trait",
                 "impl_self", "impl_trait", "derived", "blocks", "crate", "cx", "_cfg")

    def __repr__(self):
        return f"Fn({self.id})"


class Program:
    def __init__(self, outdir):
        self.fns = {}
        self.adts = {}
        self.impls = []          # (trait id, self Ty, {method: id}, crate)
        self.crates = []
        self.dups = {}
        for p in sorted(glob.glob(os.path.join(outdir, "*.json"))):
            self._load(json.load(open(p)))
        self.impl_ix = {}
        for tr, st, ms, cr in self.impls:
            self.impl_ix.setdefault(tr, []).append((st, ms))

    def _load(self, d):
        cr = d["crate"] + ("#bin" if d["type"] == "bin" else "")
        self.crates.append(cr)
        raw = d["types"]
        tys = [None] * len(raw)
        busy = set()

        def get(i):
            if tys[i] is not None:
                return tys[i]
            r = raw[i]
            if i in busy:
                return mkty("other", s="rec")
            busy.add(i)
            a = tuple(get(j) for j in r.get("a", []))
            tys[i] = mkty(r["k"], r.get("n", ""), self._fix(r.get("id", ""), cr), a, r["s"], r.get("m", False),
                          r.get("len", -1), r.get("i", -1))
            busy.discard(i)
            return tys[i]

        for i in range(len(raw)):
            get(i)
        for k, v in d["adts"].items():
            k = self._fix(k, cr)
            old = self.adts.get(k)
            rec = {"k": v["k"], "n": v["n"], "v": v["v"], "ft": [[tys[j] for j in r] for r in v["ft"]]}
            if old is None or (not old["ft"] and rec["ft"]):
                self.adts[k] = rec
        for im in d["impls"]:
            self.impls.append((self._fix(im["trait"], cr), tys[im["self"]],
                               {m: self._fix(i, cr) for m, i in im["m"].items()}, cr))
        for f in d["fns"]:
            fn = Fn()
            fn.id = self._fix(f["id"], cr)
            fn.name, fn.kind, fn.file, fn.line, fn.argc = f["name"], f["kind"], f["file"], f["line"], f["argc"]
            fn.locals = [tys[i] for i in f["locals"]]
            fn.names = {int(k): v for k, v in f["names"].items()}
            fn.pub = f.get("pub", False)
            fn.gen = f.get("gen", [])
            fn.in_trait = f.get("in_trait")
            if fn.in_trait:
                fn.in_trait = self._fix(fn.in_trait, cr)
            fn.impl_self = tys[f["impl_self"]] if "impl_self" in f else None
            fn.impl_trait = self._fix(f["impl_trait"], cr) if "impl_trait" in f else None
            fn.derived = f.get("derived", False)
            fn.crate = cr
            fn.cx = tys
            fn._cfg = None
            self._remap(f["blocks"], tys, cr)
            fn.blocks = f["blocks"]
            self.fns[fn.id] = fn

    def _fix(self, i, cr):
        """A library and a binary target may share a crate name: keep their ids apart."""
        if cr.endswith("#bin") and i:
            c = cr[:-4]
            if i == c or i.startswith(c + "::") or i.startswith(c + "{"):
                # the bin refers to its own items and to the library of the same name alike;
                # own items are those exported by this very dump
                return i.replace(c + "::", c + "#bin::", 1) if self._own(i, c) else i
        return i

    def _own(self, i, c):
        # bins of this workspace are single-file crates with items at the root; the libraries'
        # items live in modules `parser`/`generator`
        rest = i[len(c) + 2:]
        return not (rest.startswith("parser::") or rest.startswith("generator::"))

    def _remap(self, blocks, tys, cr):
        def op(o):
            if o[0] == "k":
                c = o[1]
                c["t"] = tys[c["t"]]
                if "fn" in c:
                    fn = c["fn"]
                    fn["a"] = tuple(tys[i] for i in fn["a"])
                    for k in ("id", "rid", "tr"):
                        if k in fn:
                            fn[k] = self._fix(fn[k], cr)
                if "item" in c:
                    c["item"] = self._fix(c["item"], cr)
                if "static" in c:
                    c["sty"] = tys[c["sty"]]
            else:
                place(o[1])

        def place(p):
            for e in p[1]:
                if isinstance(e, list) and e[0] == "f":
                    e[2] = tys[e[2]]

        def rv(r):
            k = r[0]
            if k in ("use", "repeat"):
                op(r[1])
            elif k == "ref":
                place(r[2])
            elif k in ("rawptr", "discr"):
                place(r[1])
            elif k == "cast":
                op(r[2]); r[3] = tys[r[3]]
            elif k == "bin":
                op(r[2]); op(r[3])
            elif k == "un":
                op(r[2])
            elif k == "agg":
                if r[1][0] in ("adt", "closure"):
                    r[1][1] = self._fix(r[1][1], cr)
                for o in r[2]:
                    op(o)

        for b in blocks:
            if not b:
                continue
            for s in b["s"]:
                place(s[0]); rv(s[1])
            t = b["t"]
            if t[0] == "switch":
                op(t[1]); t[4] = tys[t[4]]
            elif t[0] == "drop":
                place(t[1]); t[3] = tys[t[3]]
            elif t[0] == "call":
                op(t[1]); place(t[3])
                for a in t[2]:
                    op(a)
            elif t[0] == "assert":
                op(t[1])
                for a in t[4]:
                    op(a)

    # ---------------------------------------------------------------- queries
    def find_impl(self, trait, st, method):
        for t, ms in self.impl_ix.get(trait, ()):
            if t is st or match_ty(t, st):
                return ms.get(method), True
        return None, False

    def freeze(self, t):
        """No interior mutability reachable by value in t (references included: `&RefCell`)."""
        if t is None:
            return True
        if t._fz is not None:
            return t._fz
        t._fz = True  # optimistic on recursion
        r = True
        if t.k == "adt":
            if t.id.startswith("core::cell::") or "::sync::" in t.id:
                r = False
            else:
                rec = self.adts.get(t.id)
                if rec and rec["ft"]:
                    for vs in rec["ft"]:
                        for ft in vs:
                            if not self.freeze(ft):
                                r = False
                if r:
                    for x in t.a:
                        if not self.freeze(x):
                            r = False
        elif t.k in ("ref", "ptr", "slice", "array", "tuple", "closure"):
            r = all(self.freeze(x) for x in t.a)
        t._fz = r
        return r


    def owns_no_cell(self, t, busy=None):
        """no interior mutability in t itself (what it refers to left aside)"""
        busy = busy or set()
        if t.k in ("ref", "ptr") or t in busy:
            return True
        busy = busy | {t}
        if t.k == "adt":
            if t.id.startswith("core::cell::") or "::sync::" in t.id:
                return False
            rec = self.adts.get(t.id)
            if rec and rec["ft"] and not all(self.owns_no_cell(f, busy) for vs in rec["ft"] for f in vs):
                return False
        return all(self.owns_no_cell(x, busy) for x in t.a)


def match_ty(pat, t):
    if pat is t:
        return True
    if pat.k == "param":
        return True
    if pat.k != t.k:
        return False
    if pat.k in ("adt", "dyn", "closure"):
        if (pat.id or pat.n) != (t.id or t.n):
            return False
    elif pat.k in ("ref",) and pat.m != t.m:
        return False
    elif pat.k not in ("ref", "slice", "array", "tuple", "ptr") and pat.s != t.s:
        return False
    if len(pat.a) != len(t.a):
        return False
    return all(match_ty(x, y) for x, y in zip(pat.a, t.a))


# ------------------------------------------------------------------ terms
class T:
    """Interned abstract term: identity is equality."""
    __slots__ = ("op", "a", "ty", "uid", "_sub", "_hc")
    _tab = {}
    _n = 0

    def __repr__(self):
        return show(self, 6)


def mk(op, *a):
    key = (op,) + a
    t = T._tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.ty = op, a, None
        T._n += 1
        t.uid = T._n
        t._sub = None
        t._hc = None
        T._tab[key] = t
    return t


def typed(t, ty):
    if t.ty is None and ty is not None:
        t.ty = ty
    return t


def accp(i, elem, cell, ty):
    """the value a loop's state variable has at the start of a round (variables of different types are different)"""
    return typed(mk("accp", i, elem, cell, ty.s if ty is not None else None), ty)


def S(s):
    return mk("str", s)


def I(n):
    return mk("int", int(n))


TRUE, FALSE = mk("bool", "t"), mk("bool", "f")


def B(b):
    return TRUE if b else FALSE


UNIT = mk("tup")
OPT, RES, COW, STRING, VEC = ("core::option::Option", "core::result::Result", "alloc::borrow::Cow",
                              "alloc::string::String", "alloc::vec::Vec")
CF = "core::ops::control_flow::ControlFlow"
NONE = mk("adt", OPT, 0)


def some(x):
    return mk("adt", OPT, 1, x)


def ok(x):
    return mk("adt", RES, 0, x)


def err(x):
    return mk("adt", RES, 1, x)


def tup(*x):
    return mk("tup", *x)


def subterms(t):
    if t._sub is None:
        s = {t}
        stack = list(_kids(t))
        while stack:
            x = stack.pop()
            if x in s:
                continue
            if x._sub is not None:
                s |= x._sub
                continue
            s.add(x)
            stack.extend(_kids(x))
        t._sub = frozenset(s)
    return t._sub


def _kids(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, (tuple, frozenset)):
            yield from _kt(x)


def _kt(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, (tuple, frozenset)):
            yield from _kt(y)


def contains(t, x):
    return x in subterms(t)


BINDERS = {"comp": 1, "exists": 1, "pick": 2, "fold": 1, "loop": 1}


def rewrite(t, m, memo=None):
    """Replace subterms by map m (T->T), re-normalising cats/seqs through the constructors."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif not any(k in subterms(t) for k in m):
        r = t
    elif t.op in BINDERS and (t.a[BINDERS[t.op]] in m or any(binds(t, k) for k in m)):
        # the element of a comprehension (and the state of a loop) is bound there: only its source is outside the scope
        b = BINDERS[t.op]
        inner = {k: v for k, v in m.items() if k is not t.a[b] and not binds(t, k)}
        a = tuple(_rw(x, m, memo) if i < b else (_rw(x, inner, {}) if inner else x) for i, x in enumerate(t.a))
        r = typed(mk(t.op, *a), t.ty)
    else:
        a = tuple(_rw(x, m, memo) for x in t.a)
        if t.op == "cat":
            r = cat(*a)
        elif t.op == "case":
            import dom
            r = dom.mkcase(a[0], t.ty)
        elif t.op == "cmp" and a[0] == "Eq":
            r = mk("cmp", "Eq", *sorted(a[1:], key=lambda x: x.uid))
        elif t.op == "arith" and a[0] in ("Add", "Sub"):
            r = mksum(a[1], a[2], 1 if a[0] == "Add" else -1, t.ty) or mk(t.op, *a)
        elif t.op == "arith" and a[0] == "Mul" and a[2].op == "int":
            r = mkmul(a[1], a[2].a[0], t.ty)
        elif t.op == "fld":
            r = project(a[0], a[1], a[2], t.ty)
        else:
            r = mk(t.op, *a)
        typed(r, t.ty)
    memo[t] = r
    return r


def lin(t, out, f=1):
    """sum of products form: coefficients into out, the constant returned"""
    if t.op == "int":
        return t.a[0] * f
    if t.op == "arith" and t.a[0] in ("Add", "Sub"):
        return lin(t.a[1], out, f) + lin(t.a[2], out, f if t.a[0] == "Add" else -f)
    if t.op == "arith" and t.a[0] == "Mul" and t.a[2].op == "int":
        return lin(t.a[1], out, f * t.a[2].a[0])
    out[t] = out.get(t, 0) + f
    return 0


def mksum(a, b, f, ty):
    """a + f*b in normal form (f is 1 or -1)"""
    co = {}
    k = lin(a, co) + lin(b, co, f)
    return unlin(co, k, ty)


def unlin(co, k, ty):
    if sum(1 for n in co.values() if n) > 24:
        return None
    r = None

    def times(t, n):
        return t if n == 1 else typed(mk("arith", "Mul", t, I(n)), ty)
    for t, n in sorted(co.items(), key=lambda x: x[0].uid):
        if n > 0:
            r = times(t, n) if r is None else typed(mk("arith", "Add", r, times(t, n)), ty)
    for t, n in sorted(co.items(), key=lambda x: x[0].uid):
        if n < 0:
            r = typed(mk("arith", "Sub", I(0) if r is None else r, times(t, -n)), ty)
    if r is None:
        return typed(I(k), ty)
    return r if k == 0 else typed(mk("arith", "Add", r, I(k)), ty)


def mkmul(a, k, ty):
    co = {}
    c = lin(a, co, k)
    return unlin(co, c, ty) or typed(mk("arith", "Mul", a, I(k)), ty)


def binds(t, k):
    """is k a state variable of the loop t?"""
    return k.op == "accp" and (t.op == "fold" and t.a[2] is k or t.op == "loop" and k.a[1] is t.a[1])


def _rw(x, m, memo):
    if isinstance(x, T):
        return rewrite(x, m, memo)
    if isinstance(x, tuple):
        return tuple(_rw(y, m, memo) for y in x)
    if isinstance(x, frozenset):
        return frozenset(_rw(y, m, memo) for y in x)
    return x


def cat(*parts):
    """String concatenation, flattened, literals merged."""
    out = []
    for p in parts:
        if p.op == "cat":
            ps = p.a
        else:
            ps = (p,)
        for q in ps:
            if q.op == "char":
                q = S(q.a[0])
            if q.op == "str":
                if q.a[0] == "":
                    continue
                if out and out[-1].op == "str":
                    out[-1] = S(out[-1].a[0] + q.a[0])
                    continue
            out.append(q)
    if not out:
        return S("")
    if len(out) == 1:
        return out[0]
    return typed(mk("cat", *out), STRING_TY)


def project(base, variant, i, ty):
    if base.op == "adt":
        if base.a[1] == variant or variant is None:
            return base.a[2 + i] if 2 + i < len(base.a) else mk("bad")
        return mk("bad")
    if base.op == "tup":
        return base.a[i]
    if base.op == "clo":
        return base.a[2][i]
    return typed(mk("fld", base, variant, i), ty)


def show(t, d=8):
    if not isinstance(t, T):
        if isinstance(t, tuple) and len(t) == 3 and t[0] == "V" and t[2] == chars.N:
            return chars.show(t[1])
        if isinstance(t, frozenset) and len(t) > 6 and not any(isinstance(x, (T, tuple)) for x in t):
            return "{" + ",".join(sorted(map(str, t))[:5]) + f",..{len(t)}" + "}"
        if isinstance(t, (tuple, frozenset)):
            return "(" + ", ".join(show(x, d) for x in t) + ")"
        return str(t)
    if d <= 0:
        return ".."
    o = t.op
    if o == "str":
        return repr(t.a[0])
    if o in ("int", "sym"):
        return str(t.a[0])
    if o == "bool":
        return "true" if t is TRUE else "false"
    if o == "char":
        return "'" + t.a[0] + "'"
    if o == "adt":
        nm = t.a[0].split("::")[-1]
        return f"{nm}#{t.a[1]}" + ("(" + ", ".join(show(x, d - 1) for x in t.a[2:]) + ")" if len(t.a) > 2 else "")
    if o == "tup":
        return "(" + ", ".join(show(x, d - 1) for x in t.a) + ")"
    if o == "fld":
        return f"{show(t.a[0], d - 1)}.{t.a[1] if t.a[1] else ''}.{t.a[2]}"
    if o == "app":
        return f"{t.a[0]}(" + ", ".join(show(x, d - 1) for x in t.a[1:]) + ")"
    return f"{o}(" + ", ".join(show(x, d - 1) for x in t.a) + ")"
