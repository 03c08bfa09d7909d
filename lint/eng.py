"""Gated value-flow analysis of resolved MIR.

For every function the engine computes a summary: a finite set of rows (guard -> result term, effects),
by a forward dataflow pass over the CFG in reverse post order.  States that reach the same block with the
same live values are joined, calls are applied through callee summaries, loops and iterator chains are
abstracted into comprehension terms (never executed element by element on symbolic sources).  No
solver is involved: guards are conjunctions of membership facts in finite lattices."""
import re
from math import gcd
from collections import deque
from core import *
from core import _rw
from dom import *
import models
import chars

TRANSP = {"alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull",
          "core::mem::maybe_uninit::MaybeUninit", "core::mem::manually_drop::ManuallyDrop",
          "alloc::boxed::BoxRaw", "alloc::rc::Rc", "alloc::sync::Arc", "core::pin::Pin"}
CELLS = {"core::cell::RefCell", "core::cell::Cell", "core::cell::UnsafeCell", "core::cell::Ref", "core::cell::RefMut"} | TRANSP
STRINGY = {"alloc::string::String", "alloc::borrow::Cow", "alloc::boxed::Box"}
HEAP = ("world", "heap")
WORLD = ("world",)
LENMAX = 2**63 - 1


class Undecided(Exception):
    pass


def ovf(op, a, b, r=None, ty=None):
    """does the exact result lie outside the type?"""
    if r is not None and ty is not None and op in ("Add", "Sub", "Mul") and r.op == "arith":
        return mk("ovf", ty.k, r)
    if op[:3] in ("Add", "Mul") and (b.op != "int" if a.op == "int" else b.op != "int" and a.uid > b.uid):
        a, b = b, a
    return mk("ovf", op, a, b)


_poly = {}


def poly(t):
    """coefficients and constant of an unsigned sum with non-negative coefficients"""
    r = _poly.get(t)
    if r is None:
        co = {}
        k = lin(t, co)
        r = _poly[t] = (co, k) if k >= 0 and all(n >= 0 and x.ty is not None and x.ty.k in INTK and x.ty.k[0] == "u"
                                                 for x, n in co.items()) else ()
    return r or None


def smaller(p, q):
    """p <= q whatever the (unsigned) variables are"""
    a, b = poly(p), poly(q)
    return a is not None and b is not None and a[1] <= b[1] and all(b[0].get(x, 0) >= n for x, n in a[0].items())


def fits(st, t):
    """what other sums of the same type say about an overflow"""
    for q, d in st.f.items():
        if q.op == "ovf" and q is not t and len(q.a) == 2 and q.a[0] == t.a[0] and d[0] == "B":
            if d[1] is False and smaller(t.a[1], q.a[1]):
                return ("B", False)
            if d[1] is True and smaller(q.a[1], t.a[1]):
                return ("B", True)
    return None


def merged(iv):
    out = []
    for l, h in sorted(iv):
        if out and out[-1][1] + 1 >= l:
            out[-1] = (out[-1][0], max(h, out[-1][1]))
        else:
            out.append((l, h))
    return tuple(out)


def shift(x, d):
    """a range of a sum as a range of what varies in it: no constant, no common factor, the first sign positive"""
    co = {}
    k = lin(x, co)
    while any(t.op == "icast" for t in co):
        nx = {}
        for t, n in co.items():
            if t.op == "icast":
                k += lin(t.a[0], nx, n)
            else:
                nx[t] = nx.get(t, 0) + n
        co = nx
    co = {t: n for t, n in co.items() if n}
    if not co:
        return I(k), d
    f = 0
    for n in co.values():
        f = gcd(f, n)
    if co[min(co, key=lambda t: t.uid)] < 0:
        f = -f
    if f == 1 and k == 0 and x.op != "icast":
        return x, d
    big = 2 ** 127
    iv = []
    for lo, hi in d[1]:
        lo, hi = lo - k if lo > -big else None, hi - k if hi < big else None
        if f < 0:
            lo, hi = (-hi if hi is not None else None), (-lo if lo is not None else None)
        g = abs(f)
        lo = -big if lo is None else -((-lo) // g)
        hi = big if hi is None else hi // g
        if lo <= hi:
            iv.append((lo, hi))
    y = unlin({t: n // f for t, n in co.items()}, 0, x.ty)
    return (x, d) if y is None else (y, ("I", tuple(sorted(iv))))


def closed(v):
    return v.op in ("bool", "int", "str")


def interleaved(c):
    """(comprehension, separator) if every element but the first is preceded by the same constant text"""
    src, elem, rows = c.a
    if src.op == "comp":
        return None
    at = mk("idxof", elem)
    zero, later, seps = {}, {}, set()
    for g, segs in rows:
        d = dict(g)
        i = d.pop(at, None)
        if i is None or len(segs) != 1 or segs[0].op != "one":
            return None
        g2, v = frozenset(d.items()), segs[0].a[0]
        if i == ("I", ((0, 0),)):
            zero[g2] = v
            continue
        ps = v.a if v.op == "cat" else (v,)
        if i[0] != "I" or i[1][0][0] != 1 or len(i[1]) != 1 or ps[0].op != "str":
            return None
        later.setdefault(g2, ps)
    if not later or set(zero) != set(later) or g_joinall(list(zero)) != [EMPTY]:
        return None
    for g2, v in zero.items():
        ps = later[g2]
        vs = v.a if v.op == "cat" else (v,)
        if v == S("") or not vs:
            vs = ()
        lead, have = ps[0].a[0], vs[0].a[0] if vs and vs[0].op == "str" else ""
        if not lead.endswith(have) or (ps[1:] != vs[1:] if have else ps[1:] != vs):
            return None
        seps.add(lead[:len(lead) - len(have)])
    if len(seps) != 1:
        return None
    return mk("comp", src, elem, tuple(sorted(((g, (mk("one", v),)) for g, v in zero.items()),
                                              key=lambda r: (tuple(x.uid for x in r[1]), g_sortkey(r[0]))))), S(seps.pop())


class St:
    __slots__ = ("mem", "f")

    def __init__(self, mem=None, f=None):
        self.mem = mem if mem is not None else {}
        self.f = f if f is not None else {}

    def copy(self):
        return St(dict(self.mem), self.f)

    def assume(self, t, d):
        """meet a fact; None when contradictory"""
        if t.op == "app" and t.a[0] == "cls" and t.a[1].op == "char":
            return self if (chars.cls(t.a[1].a[0]) in d[1]) else None
        if d[0] == "I" and t.op == "app" and t.a[0] == "byte":
            return self.assume(models.cls_of(t.a[1]), shapes.byte_fact(d))
        k = implied(t)
        if AXIOMS:
            x = axiom(self, t)
            if x is not None:
                k = x if k is None else d_meet(k, x)
        o = self.f.get(t)
        base = o if k is None else (k if o is None else d_meet(o, k))
        n = d if base is None else d_meet(base, d)
        if d_empty(n):
            return None
        if n == base and (o is not None or k is not None):
            return self
        s = St(dict(self.mem), dict(self.f))
        s.f[t] = n
        if AXIOMS and refuted(s, t, n):
            return None
        return s

    def assume_g(self, g):
        s = self
        for t, d in g:
            s = s.assume(t, d)
            if s is None:
                return None
        return s

    def known(self, t):
        o, k = self.f.get(t), implied(t)
        if AXIOMS:
            x = axiom(self, t)
            if x is not None:
                k = x if k is None else d_meet(k, x)
        return o if k is None else (k if o is None else d_meet(o, k))


# Schema documents are assumed to be valid in one respect (switched on by the comparisons of the schema reader):
# a facet element has a value attribute, and that of whiteSpace is one of the three words of the standard.
AXIOMS = set()
FACETS = frozenset("""enumeration fractionDigits length maxExclusive maxInclusive maxLength minExclusive minInclusive
minLength pattern totalDigits whiteSpace""".split())
_ONE = ("V", frozenset([1]), 2)
_WS = ("S", True, frozenset(["preserve", "replace", "collapse"]))


def total(t):
    return t is not None and (t.k in INTK or t.k == "char" or models.stringy(t) or t.k == "adt" and t.n.split("::")[-1] in ("BigInt", "BigUint"))


def compared(st, t):
    """what other comparisons of the same two values say"""
    op, a, b = t.a
    f = st.f

    def is_(o, x, y, v):
        d = f.get(mk("cmp", o, x, y))
        return d is not None and d[1] is v
    if op == "Eq":
        for x, y in ((a, b), (b, a)):
            if is_("Lt", x, y, True) or is_("Le", x, y, False):
                return ("B", False)
        if total(a.ty) and is_("Lt", a, b, False) and is_("Lt", b, a, False):
            return ("B", True)
        return None
    e = (a, b) if a.uid <= b.uid else (b, a)
    if op == "Lt":
        if is_("Eq", *e, True) or is_("Lt", b, a, True) or is_("Le", b, a, True) or is_("Le", a, b, False):
            return ("B", False)
        if total(a.ty) and (is_("Lt", b, a, False) and is_("Eq", *e, False) or is_("Le", b, a, False)):
            return ("B", True)
    elif op == "Le":
        if is_("Eq", *e, True) or is_("Lt", a, b, True):
            return ("B", True)
        if is_("Lt", b, a, True):
            return ("B", False)
        if total(a.ty) and (is_("Lt", b, a, False) or is_("Le", b, a, False)):
            return ("B", True)
    return None


def axiom(st, t):
    v = t
    if "shapes" in AXIOMS:
        x = shapes.axiom(st, t)
        if x is not None:
            return x
    if t.op == "app" and t.a[0][:5] == "time:" and t.a[0][5:] in models.values.RANGE:
        return ("I", (models.values.RANGE[t.a[0][5:]],))
    if t.op == "ovf":
        return fits(st, t) if len(t.a) == 2 else None
    if t.op == "cmp":
        return compared(st, t)
    if t.op == "app" and t.a[0] == "map_get":
        # a map without pairs has no key
        for x, d in st.f.items():
            if x.op == "exists" and x.a[0].op == "app" and x.a[0].a == ("map_iter", t.a[1]) and d == ("B", False) and EMPTY in x.a[2]:
                return ("V", frozenset([0]), 2)
        return None
    if t.op == "exists" and EMPTY in t.a[2]:
        d = st.f.get(mk("len", t.a[0]))
        if d is not None and d[0] == "I":
            if d[1][0][0] >= 1:
                return ("B", True)
            if d[1][-1][1] <= 0:
                return ("B", False)
    if t.op == "len":
        for x, d in st.f.items():
            if x.op == "exists" and x.a[0] is t.a[0] and EMPTY in x.a[2]:
                return ("I", ((1, LENMAX),)) if d == ("B", True) else ("I", ((0, 0),))
        return None
    if t.op == "exists" and t.a[0].op == "app" and t.a[0].a[0] == "map_iter" and EMPTY in t.a[2]:
        m = t.a[0].a[1]
        for x, d in st.f.items():
            if x.op == "app" and x.a[0] == "map_get" and x.a[1] is m and d[:2] == ("V", frozenset([1])):
                return ("B", True)
        return None
    if t.op == "fld" and t.a[1] == 1 and t.a[2] == 0:
        v = t.a[0]
    if v.op != "app" or v.a[0] != "attr" or v.a[2].a[0] != "value":
        return None
    tg = mk("app", "tag", v.a[1])
    d, k = st.f.get(tg), implied(tg)
    if k is not None:
        d = k if d is None else d_meet(d, k)
    if d is None or d[0] != "S" or not d[1]:
        return None
    if v is t:
        return _ONE if d[2] <= FACETS else None
    return _WS if d[2] <= {"whiteSpace"} else None


def strip(g):
    """drop the facts that the axioms imply"""
    f = dict(g)
    s = St({}, f)
    for t in list(f):
        x = axiom(s, t)
        if x is not None and d_meet(f[t], x) == x:
            del f[t]
    return f


def bounds(st, x):
    if x.op == "int":
        return x.a[0], x.a[0]
    d = st.f.get(x)
    if d is not None and d[0] == "I" and d[1]:
        return d[1][0][0], d[1][-1][1]
    return INTK.get(x.ty.k, (None, None)) if x.ty is not None and x.ty.k in INTK else (None, None)


def disordered(st, t, v):
    """a comparison of two numbers that their ranges contradict"""
    op, a, b = t.a
    (al, ah), (bl, bh) = bounds(st, a), bounds(st, b)
    if al is None or bl is None:
        return False
    if op == "Lt":
        return al >= bh if v else ah < bl
    if op == "Le":
        return al > bh if v else ah <= bl
    return op == "Eq" and v and (ah < bl or bh < al)


def refuted(st, t, n):
    """a fact that contradicts another one: a comparison and a range, or a tag and its value attribute"""
    if "shapes" in AXIOMS and shapes.refuted(st, t):
        return True
    if t.op == "cmp" and n[0] == "B" and disordered(st, t, n[1]):
        return True
    if n[0] == "I":
        for q, d in st.f.items():
            if q.op == "cmp" and d[0] == "B" and (q.a[1] is t or q.a[2] is t) and disordered(st, q, d[1]):
                return True
    if t.op == "app" and t.a[0] == "tag" and n[0] == "S" and n[1] and n[2] <= FACETS:
        a = mk("app", "attr", t.a[1], S("value"))
        d = st.f.get(a)
        if d is not None and d[1] == frozenset([0]):
            return True
        if n[2] <= {"whiteSpace"}:
            d = st.f.get(mk("fld", a, 1, 0))
            return d is not None and d_empty(d_meet(d, _WS))
    return False


_impl = {}


def implied(t):
    """facts that hold of a term by construction (a picked element satisfies the picking guard)"""
    if t in _impl:
        return _impl[t]
    _impl[t] = None
    r = None
    for p in subterms(t):
        if p.op == "pick" and p is not t or (p.op == "pick" and p is t):
            mode, src, elem, gs = p.a
            if len(gs) >= 1:
                back = rewrite(t, {p: elem})
                u, first = None, True
                for g in gs:
                    d = dict(g).get(back)
                    if d is None:
                        u = None
                        break
                    u = d if first else d_union(u, d)
                    first = False
                    if u is None:
                        break
                if u is not None:
                    r = u if r is None else d_meet(r, u)
    _impl[t] = r
    return r


class Panic:
    __slots__ = ("fn", "line", "kind", "detail", "guard", "stack")

    def __repr__(self):
        return f"{self.kind}@{self.fn.id}:{self.line} {self.detail} when {show_guard(self.guard)}"


class Frame:
    __slots__ = ("fn", "sub", "depth", "ret")


class Cfg:
    def __init__(self, fn):
        self.fn = fn
        B = fn.blocks
        n = len(B)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(B):
            if not b:
                continue
            t = b["t"]
            k = t[0]
            if k == "goto":
                self.succ[i] = [t[1]]
            elif k == "switch":
                self.succ[i] = list(dict.fromkeys([x[1] for x in t[2]] + [t[3]]))
            elif k == "drop":
                self.succ[i] = [t[2]]
            elif k == "call":
                self.succ[i] = [t[4]] if t[4] >= 0 else []
            elif k == "assert":
                self.succ[i] = [t[5]]
            self.succ[i] = [s for s in self.succ[i] if s < n and B[s] is not None]
        seen, order, onst = set(), [], set()
        self.back = []
        st = [(0, iter(self.succ[0]))]
        seen.add(0); onst.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); onst.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
                if s in onst:
                    self.back.append((b, s))
            else:
                order.append(b); onst.discard(b)
                st.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                pred[s].append(b)
        self.pred = pred
        self.loops = {}
        for b, h in self.back:
            L = self.loops.setdefault(h, {h})
            w = [b]
            while w:
                x = w.pop()
                if x in L:
                    continue
                L.add(x)
                w.extend(pred[x])
        self._live()

    def _live(self):
        fn = self.fn
        use, dfn = {}, {}

        def places(o, u):
            if o[0] in ("c", "m"):
                pl(o[1], u)

        def pl(p, u):
            u.add(p[0])
            for e in p[1]:
                if isinstance(e, list) and e[0] == "i":
                    u.add(e[1])
        from cg import rv_operands
        for b in self.order:
            blk = fn.blocks[b]
            U, D = set(), set()
            for s in blk["s"]:
                u = set()
                for o in rv_operands(s[1]):
                    places(o, u)
                if s[1][0] == "ref":
                    pl(s[1][2], u)
                elif s[1][0] in ("rawptr", "discr"):
                    pl(s[1][1], u)
                if s[0][1]:
                    pl(s[0], u)
                U |= u - D
                if not s[0][1] and s[1][0] != "setd":
                    D.add(s[0][0])
            t = blk["t"]
            u = set()
            if t[0] == "switch":
                places(t[1], u)
            elif t[0] == "call":
                places(t[1], u)
                for o in t[2]:
                    places(o, u)
                if t[3][1]:
                    pl(t[3], u)
            elif t[0] == "assert":
                places(t[1], u)
                for o in t[4]:
                    places(o, u)
            elif t[0] == "ret":
                u.add(0)
            U |= u - D
            if t[0] == "call" and not t[3][1]:
                D.add(t[3][0])
            use[b], dfn[b] = U, D
        live = {b: set() for b in self.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                out = set()
                for s in self.succ[b]:
                    out |= live[s]
                n = use[b] | (out - dfn[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.livein = live


def sizelike(t):
    """built from lengths of things in memory and small constants by addition only: assumed never to overflow usize"""
    if t.op == "int":
        return 0 <= t.a[0] < 2 ** 40
    if t.op == "arith":
        return t.a[0] == "Add" and sizelike(t.a[1]) and sizelike(t.a[2])
    return t.op in ("len", "acc", "accp")


class Engine:
    def __init__(self, prog, cg, cuts=(), limit=4000):
        self.prog, self.cg = prog, cg
        self.cuts = set(cuts)
        self.alias = {}
        self.panics = {}
        self.exits = None       # [(state, process result)] where ending the process is an outcome
        self.memo = {}
        self.consts = {}
        self.stack = []
        self.opaque = {}
        self.limit = limit
        self.trace = False
        self.widened = []
        self.frames = {}
        self.auto = None
        self.steps = 0
        self.elems_active = []
        self.small = None       # a number: every list of the input and every XML node has exactly so many elements

    # ------------------------------------------------------------ reporting
    def panic(self, st, fr, line, kind, detail=""):
        p = Panic()
        p.fn, p.line, p.kind, p.detail = fr.fn, line, kind, detail
        p.guard = frozenset(st.f.items())
        p.stack = tuple(f.id for f in self.stack)
        key = (fr.fn.id, line, kind, p.stack)
        self.panics.setdefault(key, []).append(p)
        if self._plog is not None:
            self._plog.append((key, p))
        if not kind.startswith("overflow"):
            self.left_open(fr.fn, st.f)

    _plog = None

    def left_open(self, fn, facts):
        """a reference function says nothing about these inputs"""
        if self.opens is not None and fn.crate.endswith("_spec"):
            self.opens.append(dict(facts))

    opens = None
    nomemo = False

    # ------------------------------------------------------------ cells
    def load(self, st, cell, path):
        v = st.mem.get(cell)
        if v is None:
            if cell[0] == "e":
                v = cell[1]
            elif cell[0] == "o":
                v = cell[1]
            elif cell == WORLD:
                v = mk("seq")
            else:
                v = mk("sym", f"uninit{cell}")
        for i, e in enumerate(path):
            if v.op == "ptr":
                return self.load(st, v.a[0], v.a[1] + path[i:])
            v = self.proj1(st, v, e)
        return v

    def proj1(self, st, v, e):
        if e[0] == "ix":
            return self.index(st, v, e[1], e[2] if len(e) > 2 else None)
        variant, i, ty = e[1], e[2], e[3]
        return dist(v, lambda x: project(x, variant, i, ty), ty)

    def index(self, st, v, i, ty=None):
        if v.op == "case":
            return dist(v, lambda x: self.index(st, x, i, ty), ty)
        s = self.seq_of(v, ty)
        if "shapes" in AXIOMS and s is not None and any(x.op == "chs" for x in s.a):
            return shapes.item_at(self, st, s, i, ty)
        if s is not None and i.op == "int" and all(x.op == "one" for x in s.a[:i.a[0] + 1]) and i.a[0] < len(s.a):
            return s.a[i.a[0]].a[0]
        if s is not None and i.op == "int" and i.a[0] == 0:
            # the first element, as first() names it
            rs = [(q, x) for q, x in models.first_of(self, st, s.a) if x is not None]
            if len(rs) == 1:
                return rs[0][1]
            if rs:
                return mkcase([(frozenset((t, d) for t, d in q.f.items() if st.f.get(t) != d), x) for q, x in rs], ty)
        if s is not None and i.op != "int" and len(s.a) <= 64 and all(x.op == "one" for x in s.a):
            # a table looked up with a number that is not known
            lo, hi = self.irange(st, i)
            if 0 <= lo and hi < len(s.a):
                rows = {}
                for n in range(lo, hi + 1):
                    rows.setdefault(s.a[n].a[0], []).append((n, n))
                vs = [(self.member(i, ("I", merged(iv))), x) for x, iv in rows.items()]
                if len(vs) == 1:
                    return vs[0][1]
                if all(b.op == "cmpi" for b, _ in vs):
                    return mkcase([(frozenset([(b.a[0], ("I", b.a[1]))]), x) for b, x in vs], ty)
        return typed(mk("nth", v, i), ty)

    def store(self, st, cell, path, v):
        if not path:
            st.mem[cell] = v
            return
        cur = st.mem.get(cell)
        if cur is None:
            cur = self.load(st, cell, ())
        for i in range(len(path)):
            pass
        st.mem[cell] = self.upd(st, cur, path, v)

    def upd(self, st, cur, path, v):
        if not path:
            return v
        e = path[0]
        if cur.op == "ptr":
            self.store(st, cur.a[0], cur.a[1] + path, v)
            return cur
        if e[0] == "ix":
            s = self.seq_of(cur)
            i = e[1]
            if s is not None and i.op == "int" and i.a[0] < len(s.a) and all(x.op == "one" for x in s.a[:i.a[0] + 1]):
                items = list(s.a)
                items[i.a[0]] = mk("one", self.upd(st, items[i.a[0]].a[0], path[1:], v))
                return self.mkseq(items, cur.ty)
            return typed(mk("updix", cur, i, v), cur.ty)
        variant, i, ty = e[1], e[2], e[3]
        if cur.op == "case":
            rows = []
            for g, x in cur.a[0]:
                if x.op == "adt" and x.a[1] != variant:
                    rows.append((g, x))
                else:
                    rows.append((g, self.upd(st, x, path, v)))
            return mkcase(rows, cur.ty)
        if cur.op == "adt":
            if cur.a[1] != variant:
                return cur
            a = list(cur.a)
            while len(a) < 3 + i:
                a.append(mk("undef"))
            a[2 + i] = self.upd(st, a[2 + i], path[1:], v)
            return typed(mk("adt", *a), cur.ty)
        if cur.op == "tup":
            a = list(cur.a)
            while len(a) <= i:
                a.append(mk("undef"))
            a[i] = self.upd(st, a[i], path[1:], v)
            return typed(mk("tup", *a), cur.ty)
        if cur.op == "clo":
            a = list(cur.a[2])
            a[i] = self.upd(st, a[i], path[1:], v)
            return mk("clo", cur.a[0], cur.a[1], tuple(a))
        # symbolic aggregate: expand
        ty0 = cur.ty
        if ty0 is not None and ty0.k == "adt":
            rec = self.prog.adts.get(ty0.id)
            if rec and variant < len(rec["v"]):
                n = len(rec["v"][variant]["f"])
                fts = rec["ft"][variant] if rec["ft"] else [None] * n
                x = typed(mk("adt", ty0.id, variant, *[project(cur, variant, k, fts[k]) for k in range(n)]), ty0)
                return self.upd(st, x, path, v)
        if ty0 is not None and ty0.k == "tuple":
            x = typed(mk("tup", *[project(cur, None, k, ty0.a[k]) for k in range(len(ty0.a))]), ty0)
            return self.upd(st, x, path, v)
        if self.is_undef(cur):
            # field-by-field initialisation of a fresh aggregate
            return self.upd(st, mk("tup"), (("f", None, i, ty),) + path[1:], v)
        return typed(mk("upd", cur, variant, i, self.upd(st, project(cur, variant, i, ty), path[1:], v)), ty0)

    def is_undef(self, v):
        return v.op == "undef" or (v.op == "sym" and str(v.a[0]).startswith("uninit"))

    def deref_all(self, st, v, d=0):
        """value snapshot behind pointers (for opaque calls and comparisons)"""
        while v.op == "ptr":
            v = self.load(st, v.a[0], v.a[1])
        return v

    def deep(self, st, v, d=0):
        """snapshot with nested pointers replaced by their contents"""
        v = self.deref_all(st, v)
        if not has_ptr(v) or d > 8:
            return v
        m = {}
        for p in subterms(v):
            if p.op == "ptr":
                m[p] = self.deep(st, p, d + 1)
        return rewrite(v, m)

    # ------------------------------------------------------------ sequences
    def mkseq(self, segs, ty=None):
        out = []
        for s in segs:
            if s.op == "seq":
                out.extend(s.a)
            else:
                out.append(s)
        if len(out) == 1 and out[0].op == "comp" and self.is_identity(out[0]):
            return out[0].a[0]
        return typed(mk("seq", *out), ty)

    def is_identity(self, c):
        src, elem, rows = c.a
        return len(rows) == 1 and rows[0][0] == EMPTY and len(rows[0][1]) == 1 and \
            rows[0][1][0].op == "one" and rows[0][1][0].a[0] is elem and src.op not in ("chars", "split", "range", "bytes")

    def elem(self, src, ty):
        lvl = sum(1 for e in self.elems_active if e.a[0] is src)
        return typed(mk("elem", src, lvl), ty)

    def splice(self, v, ty):
        e = self.elem(v, ty)
        return mk("comp", v, e, ((EMPTY, (mk("one", e),)),))

    def elem_ty(self, t):
        if t is None:
            return None
        while t.k == "ref" and t.a:
            t = t.a[0]
        if t.k in ("slice", "array"):
            return t.a[0]
        if t.k == "adt" and t.a:
            return t.a[0]
        return None

    def seq_of(self, v, ety=None):
        """view a vector-like value as a seq term (None for gated values)"""
        if v.op == "seq":
            return v
        if v.op == "case":
            return None
        if self.small is not None and self.countable(v):
            t = ety or self.elem_ty(v.ty)
            return typed(mk("seq", *[mk("one", typed(mk("nth", v, I(i)), t)) for i in range(self.small)]), v.ty)
        return mk("seq", self.splice(v, ety or self.elem_ty(v.ty)))

    def countable(self, v):
        """a list of the input, which has just so many elements when inputs of one size are looked at"""
        t = v.ty
        while t is not None and t.a and (t.k == "ref" or t.k == "adt" and t.id in (
                "core::cell::RefCell", "core::cell::Ref", "core::cell::RefMut", "alloc::boxed::Box", "alloc::rc::Rc")):
            t = t.a[0]
        return v.op in ("fld", "sym", "nth", "app") and t is not None and \
            (t.k == "slice" or t.k == "adt" and t.id == models.VEC) and t.a and t.a[0].k not in ("u8", "char") and \
            not self.is_undef(v)

    def nonempty(self, s):
        """bool term: the sequence has an element"""
        ors = []
        for x in s.a:
            if x.op == "one":
                return TRUE
            if x.op == "comp":
                gs, nest = [], False
                for g, segs in x.a[2]:
                    if any(y.op == "one" for y in segs):
                        gs.append(g)
                    elif segs:
                        nest = True
                if nest:
                    ors.append(mk("nonempty", x))
                elif gs:
                    ors.append(self.mkexists(x.a[0], x.a[1], gs))
            elif x.op == "if":
                rows = [(g, self.nonempty(mk("seq", *segs))) for g, segs in x.a[0]]
                ors.append(mkcase(rows, BOOL_TY))
            else:
                ors.append(mk("nonempty", x))
        if not ors:
            return FALSE
        r = ors[0]
        for o in ors[1:]:
            r = self.b_or(r, o)
        return r

    def unrev(self, src, elem, gs):
        """the same elements, in the order of the source"""
        while src.op == "rev":
            nsrc = src.a[0]
            ne = self.elem(nsrc, elem.ty)
            gs = frozenset(frozenset((rewrite(t, {elem: ne}), d) for t, d in g) for g in gs)
            src, elem = nsrc, ne
        return src, elem, gs

    def mkpick(self, mode, src, elem, gs):
        """the first / last element of src with one of the conditions gs"""
        n = 0
        while src.op == "rev" and n < 8:
            mode = "last" if mode == "first" else "first"
            nsrc = src.a[0]
            ne = self.elem(nsrc, elem.ty)
            gs = frozenset(frozenset((rewrite(t, {elem: ne}), d) for t, d in g) for g in gs)
            src, elem, n = nsrc, ne, n + 1
        return typed(mk("pick", mode, src, elem, frozenset(gs)), elem.ty)

    def mkexists(self, src, elem, gs):
        gs = frozenset(g_joinall(list(gs)))
        if not gs:
            return FALSE
        src, elem, gs = self.unrev(src, elem, gs)
        if src.op == "split" and EMPTY in gs:
            return TRUE           # str::split yields at least one piece
        if src.op == "chars" and EMPTY in gs:
            return self.b_not(self.member(src.a[0], ("S", True, frozenset([""]))))
        return typed(mk("exists", src, elem, gs), BOOL_TY)

    def b_not(self, b):
        if b is TRUE:
            return FALSE
        if b is FALSE:
            return TRUE
        if b.op == "not":
            return b.a[0]
        if b.op == "case":
            return dist(b, self.b_not, BOOL_TY)
        return typed(mk("not", b), BOOL_TY)

    def b_or(self, a, b):
        if a is TRUE or b is TRUE:
            return TRUE
        if a is FALSE:
            return b
        if b is FALSE:
            return a
        if a is b:
            return a
        return typed(mk("or", *sorted((a, b), key=lambda t: t.uid)), BOOL_TY)

    def b_and(self, a, b):
        return self.b_not(self.b_or(self.b_not(a), self.b_not(b)))

    # ------------------------------------------------------------ splitting on values
    def join_states(self, sts):
        """exact join of the facts of states with equal memory"""
        if len(sts) < 2:
            return sts
        groups = {}
        for s in sts:
            groups.setdefault(frozenset(s.mem.items()), []).append(s)
        out = []
        for ss in groups.values():
            if len(ss) == 1:
                out += ss
                continue
            gs = g_joinall([frozenset(s.f.items()) for s in ss])
            for g in gs:
                out.append(St(dict(ss[0].mem), strip(g) if AXIOMS else dict(g)))
        return out

    def bool_split(self, st, v):
        """[(state, bool)]"""
        yes, no = [], []
        self._bs(st, v, yes, no)
        return [(s, True) for s in self.join_states(yes)] + [(s, False) for s in self.join_states(no)]

    def _bs(self, st, v, yes, no):
        if v is TRUE:
            yes.append(st)
        elif v is FALSE:
            no.append(st)
        elif v.op == "case":
            for g, x in v.a[0]:
                s = st.assume_g(g)
                if s is not None:
                    self._bs(s, x, yes, no)
        elif v.op == "not":
            self._bs(st, v.a[0], no, yes)
        elif v.op == "or":
            y1, n1 = [], []
            self._bs(st, v.a[0], y1, n1)
            yes += y1
            for s in n1:
                self._bs(s, v.a[1], yes, no)
        elif v.op == "isin":
            self._dom(st, v.a[0], ("S", True, v.a[1]), yes, no)
        elif v.op == "cmpi":
            self._dom(st, v.a[0], ("I", v.a[1]), yes, no, self.irange(st, v.a[0]))
        elif v.op == "var":
            self._dom(st, v.a[0], ("V", v.a[1], v.a[2]), yes, no)
        else:
            self._dom(st, v, ("B", True), yes, no)

    def _dom(self, st, t, d, yes, no, full=None):
        if "shapes" in AXIOMS and d[0] == "S" and shapes.active(t):
            for s, y in shapes.word_split(st, t, d):
                (yes if y else no).append(s)
            return
        if t.op == "case":
            for g, x in t.a[0]:
                s = st.assume_g(g)
                if s is not None:
                    b = self.member(x, d)
                    self._bs(s, b, yes, no)
            return
        y = st.assume(t, d)
        if y is not None:
            yes.append(y)
        c = d_compl(d, full)
        if c is not None:
            n = st.assume(t, c)
            if n is not None:
                no.append(n)

    def member(self, x, d):
        """bool term: x in d"""
        if x.op == "case":
            return dist(x, lambda y: self.member(y, d), BOOL_TY)
        k = d[0]
        if k == "I" and x.op == "app" and x.a[0] == "byte":
            return self.member(models.cls_of(x.a[1]), shapes.byte_fact(d))
        if k == "S":
            if x.op in ("str", "char"):
                return B((x.a[0] in d[2]) == d[1])
            if x.ty is not None and x.ty.k == "char" and all(len(w) == 1 and ord(w) < 128 for w in d[2]):
                w = frozenset(ord(c) for c in d[2])
                return self.member(models.cls_of(x), ("V", w if d[1] else chars.ALL - w, chars.N))
            w = d[2]
            if x.op in ("strof", "cat"):
                w = frozenset(y for y in w if models.may_equal(x, y))
                k = models.char_items(x) if "" in w else None
                if k is not None:
                    r = self.b_not(self.nonempty(mk("seq", k)))
                    w = w - {""}
                    if w:
                        r = self.b_or(r, typed(mk("isin", x, w), BOOL_TY))
                    return r if d[1] else self.b_not(r)
            if not w:
                return B(not d[1])
            r = typed(mk("isin", x, w), BOOL_TY)
            return r if d[1] else self.b_not(r)
        if k == "I":
            if x.op == "int":
                return B(any(lo <= x.a[0] <= hi for lo, hi in d[1]))
            if x.op in ("icast", "arith"):
                y, e = shift(x, d)
                if y is not x:
                    return self.member(y, e)
            if x.op == "len":
                if d[1] and d[1][0] == (0, 0) and len(d[1]) == 1:
                    return self.b_not(self.len_pos(x.a[0]))
                if len(d[1]) == 1 and d[1][0][0] == 1 and d[1][0][1] >= 2**62:
                    return self.len_pos(x.a[0])
            return typed(mk("cmpi", x, d[1]), BOOL_TY)
        if k == "V":
            if x.op == "adt":
                return B(x.a[1] in d[1])
            if x.op == "app" and x.a[0] == "cls" and x.a[1].op == "char":
                return B(chars.cls(x.a[1].a[0]) in d[1])
            return typed(mk("var", x, d[1], d[2]), BOOL_TY)
        if k == "B":
            return x if d[1] else self.b_not(x)

    def single(self, id_, n):
        rec = self.prog.adts.get(id_)
        return rec is not None and rec["k"] == "struct" and bool(rec["ft"]) and len(rec["ft"][0]) == n

    def len_pos(self, v):
        if v.ty is not None and models.stringy(v.ty):
            return self.b_not(self.member(v, ("S", True, frozenset([""]))))
        s = self.seq_of(v)
        return self.nonempty(s) if s is not None else mk("nonempty", v)

    def nvar(self, ty):
        while ty is not None and ty.k == "adt" and ty.id in CELLS and ty.a:
            ty = ty.a[0]
        rec = self.prog.adts.get(ty.id) if ty is not None and ty.k == "adt" else None
        return rec

    def variant_split(self, st, v, ty, d=0):
        """[(state, value row, variant index)] for an enum value"""
        while v.op == "ptr":
            v = self.load(st, v.a[0], v.a[1])
        out = []
        if v.op == "adt":
            return [(st, v, v.a[1])]
        if v.op == "case":
            for g, x in v.a[0]:
                s = st.assume_g(g)
                if s is not None:
                    out += self.variant_split(s, x, ty, d + 1)
            if d == 0:
                by = {}
                for s, x, k in out:
                    by.setdefault((k, x), []).append(s)
                out = [(s, x, k) for (k, x), ss in by.items() for s in self.join_states(ss)]
            return out
        if v.op == "never" or v.op == "bad":
            return []
        ty = v.ty if v.ty is not None and v.ty.k == "adt" else ty
        rec = self.nvar(ty)
        if rec is None or rec["k"] != "enum":
            raise Undecided(f"variant of {show(v, 4)} : {ty}")
        n = len(rec["v"])
        for k in range(n):
            s = st.assume(v, ("V", frozenset([k]), n))
            if s is not None:
                out.append((s, v, k))
        return out

    def payload(self, v, variant, i, ty):
        return project(v, variant, i, ty)

    def split_opt(self, st, v, ty=None):
        """[(state, payload or None)] for an Option value"""
        ot = v.ty if v.ty is not None and v.ty.k == "adt" else ty
        while ot is not None and ot.k == "adt" and ot.id in CELLS and ot.a:
            ot = ot.a[0]
        out = []
        for s, x, k in self.variant_split(st, v, ot):
            if k == 0:
                out.append((s, None))
            else:
                out.append((s, project(x, 1, 0, ot.a[0] if ot is not None and ot.a else None)))
        return out

    def split_res(self, st, v, ty=None):
        """[(state, ok?, payload)]"""
        rt = v.ty if v.ty is not None and v.ty.k == "adt" else ty
        out = []
        for s, x, k in self.variant_split(st, v, rt):
            t = rt.a[k] if rt is not None and len(rt.a) > k else None
            out.append((s, k == 0, project(x, k, 0, t)))
        return out

    # ------------------------------------------------------------ integers
    def irange(self, st, t):
        """(lo, hi) bounds of an integer term"""
        if t.op == "int":
            return (t.a[0], t.a[0])
        base = None
        if "shapes" in AXIOMS and shapes.lens_in(t):
            x = shapes.bound(st, t)
            if x is not None:
                return x
        if t.ty is not None and t.ty.k in INTK:
            base = INTK[t.ty.k]
        elif t.ty is not None and t.ty.k == "adt" and t.ty.n.endswith("::BigUint"):
            base = (0, 2**127)
        if t.op in ("len", "count", "strlen", "idx", "charlen"):
            base = (0, LENMAX)
        if t.op == "more":
            base = (1, shapes.BIG) if t.a[0] == "split" else (0, shapes.BIG)
        if t.op == "app" and t.a[0].startswith("time:") and t.a[0][5:] in models.values.RANGE:
            base = models.values.RANGE[t.a[0][5:]]
        if t.op == "app" and t.a[0] in ("byte", "byteof"):
            return shapes.byte_range(st, t)
        if t.op == "app" and t.a[0] == "abs":
            x = self.irange(st, t.a[1])
            base = (max(0, x[0], -x[1]), max(abs(x[0]), abs(x[1])))
        r = base or (-2**127, 2**127)
        if t.op == "arith":
            op, a, b = t.a
            ra, rb = self.irange(st, a), self.irange(st, b)
            x = arith_range(op, ra, rb)
            if x is not None:
                r = (max(r[0], x[0]), min(r[1], x[1])) if base else x
        elif t.op == "case":
            rs = [self.irange(st, x) for _, x in t.a[0]]
            r = (max(r[0], min(x[0] for x in rs)), min(r[1], max(x[1] for x in rs)))
        elif t.op == "icast":
            x = self.irange(st, t.a[0])
            if base and base[0] <= x[0] and x[1] <= base[1]:
                r = x
        elif t.op == "fold" or t.op == "wid":
            pass
        d = st.known(t)
        if d is not None and d[0] == "I" and d[1]:
            r = (max(r[0], d[1][0][0]), min(r[1], d[1][-1][1]))
        return r

    def binop(self, st, op, a, b, ty):
        if a.op == "case" or b.op == "case":
            if op.endswith("WithOverflow") and (len(case_rows(a)) * len(case_rows(b)) > 64):
                return tup(mk("arith", op, a, b), ovf(op, a, b))
            return dist2(a, b, lambda x, y: self.binop(st, op, x, y, ty))
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.cmp(st, op, a, b)
        wo = op.endswith("WithOverflow")
        base = op[:-12] if wo else (op[:-9] if op.endswith("Unchecked") else op)
        if base in ("BitAnd", "BitOr", "BitXor") and (a.ty is BOOL_TY or b.ty is BOOL_TY or a.op == "bool" or b.op == "bool"):
            if base == "BitAnd":
                return self.b_and(a, b)
            if base == "BitOr":
                return self.b_or(a, b)
            return self.b_or(self.b_and(a, self.b_not(b)), self.b_and(self.b_not(a), b))
        if base == "Offset":
            return mk("arith", base, a, b)
        if "shapes" in AXIOMS and base == "Sub":
            r = shapes.digit_of(st, a, b)
            if r is not None:
                return tup(r, FALSE) if wo else r
        rty = a.ty if a.ty is not None and a.ty.k in INTK else (b.ty if b.ty is not None and b.ty.k in INTK else ty)
        if rty is not None and rty.k == "tuple":
            rty = rty.a[0]
        rng = INTK.get(rty.k) if rty is not None else None
        if a.op == "int" and b.op == "int":
            n = fold_int(base, a.a[0], b.a[0])
            if n is not None:
                ov = rng is not None and not (rng[0] <= n <= rng[1])
                if ov and rng:
                    w = rng[1] - rng[0] + 1
                    n = (n - rng[0]) % w + rng[0]
                r = typed(I(n), rty)
                return tup(r, B(ov)) if wo else r
        if a.op == "float" and b.op == "float" and base in ("Add", "Sub", "Mul", "Div") and a.a[0].endswith("f64") and b.a[0].endswith("f64"):
            x, y = float(a.a[0][:-3]), float(b.a[0][:-3])
            if base != "Div" or y:
                return flt(x + y if base == "Add" else x - y if base == "Sub" else x * y if base == "Mul" else x / y)
        # linear normal form for +/- constants
        if base == "Sub" and b.op == "int":
            r = self.addk(a, -b.a[0], rty)
        elif base == "Add" and b.op == "int":
            r = self.addk(a, b.a[0], rty)
        elif base == "Add" and a.op == "int":
            r = self.addk(b, a.a[0], rty)
        elif base in ("Add", "Sub") and rty is not None and rty.k in INTK and mksum(a, b, 1, rty) is not None:
            r = mksum(a, b, 1 if base == "Add" else -1, rty)
        else:
            if base in ("Add", "Mul") and (a.uid > b.uid or a.op == "int") and b.op != "int":
                a, b = b, a
            if base == "Mul" and b.op == "int" and rty is not None and rty.k in INTK:
                r = mkmul(a, b.a[0], rty)
            else:
                r = typed(mk("arith", base, a, b), rty)
        if not wo:
            return r
        x = arith_range(base, self.irange(st, a), self.irange(st, b))
        if x is not None and rng and rng[0] <= x[0] and x[1] <= rng[1]:
            return tup(r, FALSE)
        if "shapes" in AXIOMS and rng and base in ("Add", "Sub") and shapes.lens_in(r):
            x = shapes.bound(st, r)
            if x is not None and rng[0] <= x[0] and x[1] <= rng[1]:
                return tup(r, FALSE)
            if base == "Sub" and rng[0] == 0 and shapes.diff(st, a, b) is not None:
                return tup(r, self.cmp(st, "Lt", a, b))
        if base == "Sub" and self.le(st, b, a):
            return tup(r, FALSE)
        if base == "Add" and rty is not None and rty.k == "usize" and sizelike(a) and sizelike(b):
            return tup(r, FALSE)
        if base == "Mul" and rty is not None and rty.k == "usize" and \
                any(sizelike(x) and y.op == "int" and 0 <= y.a[0] <= 2**16 for x, y in ((a, b), (b, a))):
            return tup(r, FALSE)      # no collection or text takes more than the address space of a process
        return tup(r, typed(ovf(base, a, b, r, rty), BOOL_TY))

    def addk(self, a, k, ty):
        if a.op == "arith" and a.a[0] == "Add" and a.a[2].op == "int":
            return self.addk(a.a[1], a.a[2].a[0] + k, ty)
        if k == 0:
            return a
        if a.op == "arith" and a.a[0] == "Sub" and ty is not None and ty.k in INTK:
            r = mksum(a, I(k), 1, ty)
            if r is not None:
                return r
        return typed(mk("arith", "Add", a, I(k)), ty)

    def le(self, st, a, b):
        """a <= b known"""
        ra, rb = self.irange(st, a), self.irange(st, b)
        if ra[1] <= rb[0]:
            return True
        d = st.f.get(mk("cmp", "Le", a, b))
        if d is not None and d[1] is True:
            return True
        d = st.f.get(mk("cmp", "Lt", b, a))
        return d is not None and d[1] is False

    def cmp(self, st, op, a, b):
        if "shapes" in AXIOMS and (shapes.lens_in(a) or shapes.lens_in(b)):
            x = shapes.diff(st, a, b)
            if x is not None:
                co, k, flip = x
                if flip:
                    op = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op)
                a = unlin(co, 0, shapes.NUM)
                b = I(-k)
        if a is b and op in ("Eq", "Le", "Ge"):
            return TRUE
        if a is b and op in ("Ne", "Lt", "Gt"):
            return FALSE
        if a.op == "int" and b.op == "int":
            x, y = a.a[0], b.a[0]
            return B({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op])
        if b.op == "int" or a.op == "int":
            if a.op == "int":
                a, b = b, a
                op = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op)
            k = b.a[0]
            if a.op == "arith" and a.a[0] == "Add" and a.a[2].op == "int" and a.ty is not None and a.ty.k in ("usize", "u8", "u16", "u32", "u64") and a.a[2].a[0] > 0 and op in ("Eq", "Ne"):
                pass
            lo, hi = INTK.get(a.ty.k, (-2**127, 2**127)) if a.ty is not None else (-2**127, 2**127)
            if a.op in ("len", "count", "strlen", "idx"):
                lo, hi = 0, LENMAX
            iv = {"Eq": ((k, k),), "Ne": ((lo, k - 1), (k + 1, hi)), "Lt": ((lo, k - 1),), "Le": ((lo, k),),
                  "Gt": ((k + 1, hi),), "Ge": ((k, hi),)}[op]
            iv = tuple((max(l, lo), min(h, hi)) for l, h in iv if max(l, lo) <= min(h, hi))
            if not iv:
                return FALSE
            if iv == ((lo, hi),):
                return TRUE
            r = self.irange(st, a)
            if all(not (l <= r[1] and r[0] <= h) for l, h in iv):
                return FALSE
            if any(l <= r[0] and r[1] <= h for l, h in iv):
                return TRUE
            return self.member(a, ("I", iv))
        if a.op in ("char", "str") or b.op in ("char", "str"):
            if a.op in ("char", "str") and b.op in ("char", "str"):
                x, y = a.a[0], b.a[0]
                return B({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op])
            if op in ("Eq", "Ne"):
                if a.op in ("char", "str"):
                    a, b = b, a
                r = self.member(a, ("S", True, frozenset([b.a[0]])))
                return r if op == "Eq" else self.b_not(r)
            x, o, p = (a, b, op) if b.op == "char" else (b, a, {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[op])
            if o.op == "char" and x.ty is not None and x.ty.k == "char" and ord(o.a[0]) < 128:
                k = ord(o.a[0])
                w = frozenset(range(k + (p in ("Le", "Gt"))))
                return self.member(models.cls_of(x), ("V", w if p in ("Lt", "Le") else chars.ALL - w, chars.N))
        if a.op == "bool" or b.op == "bool":
            if a.op == "bool":
                a, b = b, a
            r = b is TRUE
            if op in ("Eq", "Ne"):
                return a if r == (op == "Eq") else self.b_not(a)
        if op in ("Eq", "Ne") and a.ty is BOOL_TY and b.ty is BOOL_TY:
            r = self.b_or(self.b_and(a, b), self.b_and(self.b_not(a), self.b_not(b)))
            return r if op == "Eq" else self.b_not(r)
        if op in ("Eq", "Ne"):
            if a.uid > b.uid:
                a, b = b, a
            r = typed(mk("cmp", "Eq", a, b), BOOL_TY)
            return r if op == "Eq" else self.b_not(r)
        if op in ("Gt", "Ge"):
            a, b = b, a
            op = "Lt" if op == "Gt" else "Le"
        ra, rb = self.irange(st, a), self.irange(st, b)
        if op == "Lt":
            if ra[1] < rb[0]:
                return TRUE
            if ra[0] >= rb[1]:
                return FALSE
        else:
            if ra[1] <= rb[0]:
                return TRUE
            if ra[0] > rb[1]:
                return FALSE
        return typed(mk("cmp", op, a, b), BOOL_TY)

    # ------------------------------------------------------------ places
    def lv(self, st, fr, p):
        """resolve a place to ('loc', cell, path, ty) or ('val', value, ty)"""
        cell, path, val = (fr.depth, p[0]), (), None
        ty = subst_ty(fr.fn.locals[p[0]], fr.sub)
        variant = None
        for e in p[1]:
            if e == "*":
                v = val if val is not None else self.load(st, cell, path)
                ity = ty.a[0] if ty is not None and ty.a and ty.k in ("ref", "ptr") else (
                    ty.a[0] if ty is not None and ty.k == "adt" and ty.id in TRANSP and ty.a else ty)
                if v.op == "ptr":
                    cell, path, val = v.a[0], v.a[1], None
                else:
                    val = v
                ty = ity
                variant = None
            elif e[0] == "f":
                fty = subst_ty(e[2], fr.sub)
                if ty is not None and ty.k == "adt" and ty.id in TRANSP or (
                        fty.k == "adt" and fty.id in TRANSP and ty is not None and ty.k == "adt" and ty.id in TRANSP):
                    ty = ty.a[0] if fty.k in ("ptr",) and False else fty
                    variant = None
                    continue
                vr = variant if variant is not None else (0 if ty is not None and ty.k == "adt" else None)
                pe = ("f", vr, e[1], fty)
                if val is not None:
                    val = self.proj1(st, val, pe)
                else:
                    # a pointer stored in the middle of the path is followed by load/upd
                    path = path + (pe,)
                ty = fty
                variant = None
            elif e[0] == "d":
                variant = e[1]
            elif e[0] == "i":
                ix = self.load(st, (fr.depth, e[1]), ())
                ety = self.elem_ty(ty)
                if val is not None:
                    val = self.index(st, val, ix, ety)
                else:
                    path = path + (("ix", ix, ety),)
                ty = ety
            elif e[0] == "ci":
                ety = self.elem_ty(ty)
                if e[3]:
                    v = val if val is not None else self.load(st, cell, path)
                    val = typed(mk("nth_back", v, I(e[1])), ety)
                    s = self.seq_of(v)
                    if s is not None and all(x.op == "one" for x in s.a) and e[1] <= len(s.a):
                        val = s.a[-e[1]].a[0]
                elif val is not None:
                    val = self.index(st, val, I(e[1]), ety)
                else:
                    path = path + (("ix", I(e[1]), ety),)
                ty = ety
            elif e[0] == "sub":
                v = val if val is not None else self.load(st, cell, path)
                s = self.seq_of(v)
                if s is not None and all(x.op == "one" for x in s.a):
                    hi = len(s.a) - e[2] if e[3] else e[2]
                    val = self.mkseq(s.a[e[1]:hi], ty)
                else:
                    val = typed(mk("subslice", v, I(e[1]), I(e[2]), B(e[3])), ty)
            else:
                raise Undecided(f"projection {e}")
        if val is not None:
            return ("val", val, ty)
        return ("loc", cell, path, ty)

    def read(self, st, fr, p):
        l = self.lv(st, fr, p)
        if l[0] == "val":
            v, ty = l[1], l[2]
        else:
            v, ty = self.load(st, l[1], l[2]), l[3]
        return v

    def write(self, st, fr, p, v):
        if not p[1]:
            st.mem[(fr.depth, p[0])] = v
            return
        l = self.lv(st, fr, p)
        if l[0] == "val":
            self.store(st, ("o", l[1]), (), v)
            return
        cell, path = l[1], l[2]
        # follow pointers met inside the path
        for i in range(len(path) + 1):
            x = self.load(st, cell, path[:i]) if i < len(path) else None
            if x is not None and x.op == "ptr" and i > 0:
                self.store(st, x.a[0], x.a[1] + path[i:], v)
                return
        self.store(st, cell, path, v)

    # ------------------------------------------------------------ operands and rvalues
    def operand(self, st, fr, o):
        if o[0] in ("c", "m"):
            return self.read(st, fr, o[1])
        return self.konst(st, fr, o[1])

    def konst(self, st, fr, c):
        ty = subst_ty(c["t"], fr.sub)
        if "fn" in c:
            f = c["fn"]
            a = tuple(subst_ty(t, fr.sub) for t in f["a"])
            return mk("fn", FnRef.get(f, a))
        if "str" in c:
            return typed(S(c["str"]), ty)
        if "bytes" in c:
            return mk("bytes", tuple(c["bytes"]))
        if "bool" in c:
            return B(c["bool"])
        if "char" in c:
            return typed(mk("char", c["char"]), CHAR_TY)
        if "int" in c:
            return typed(mk("int", int(c["int"])), ty)
        if "float" in c:
            return mk("float", c["float"])
        if "zst" in c:
            if ty.k == "closure":
                return mk("clo", ty.id, fr.sub, ())
            if ty.k == "adt":
                return typed(mk("adt", ty.id, 0), ty)
            if ty.k == "fndef":
                return mk("fn", FnRef.get({"n": ty.n, "id": ty.id}, ty.a))
            return UNIT
        if "item" in c:
            i = c["item"]
            if c.get("p", -1) is not None and c.get("p", -1) >= 0:
                i = f"{i}#p{c['p']}"
            return self.const_item(i, ty, fr)
        if "static" in c:
            return typed(mk("static", c["static"]), ty)
        return typed(mk("konst", c.get("dbg", "?")), ty)

    def const_item(self, i, ty, fr):
        fn = self.prog.fns.get(i)
        if fn is None:
            if i.startswith("core::num::") and ty is not None and ty.k in INTK and i.endswith(("::MAX", "::MIN")):
                return typed(I(INTK[ty.k][1 if i.endswith("::MAX") else 0]), ty)
            return typed(mk("app", f"const:{i}"), ty)
        key = (i, fr.sub if fn.kind == "promoted" else ())
        v = self.consts.get(key)
        if v is None:
            self.consts[key] = typed(mk("app", f"const:{i}"), ty)
            sub = fr.sub if fn.kind == "promoted" else ()
            st = St()
            keep, self.stack = self.stack, []
            rs = self.run_fn(fn, [], st, sub, depth=900)
            self.stack = keep
            if len(rs) == 1:
                v = self.deep(rs[0][0], rs[0][1])
                v = typed(v, ty)
            else:
                v = self.consts[key]
            self.consts[key] = v
        return v

    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref" or k == "rawptr":
            mut, p = (r[1], r[2]) if k == "ref" else (True, r[1])
            l = self.lv(st, fr, p)
            if l[0] == "val":
                return l[1]
            cell, path, ty = l[1], l[2], l[3]
            if not mut and (ty is None or self.prog.freeze(ty)):
                v = self.load(st, cell, path)
                return v
            # reborrow of a pointer held at that place
            return self.ptr(st, cell, path)
        if k == "cast":
            v = self.operand(st, fr, r[2])
            return self.cast(st, r[1], v, subst_ty(r[3], fr.sub))
        if k == "bin":
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, dty)
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if dty is BOOL_TY or a.ty is BOOL_TY or a.op == "bool":
                    return self.b_not(a)
                return typed(mk("arith", "Not", a, UNIT), dty)
            if r[1] == "Neg":
                if a.op == "int":
                    return typed(I(-a.a[0]), dty)
                return dist(a, lambda x: typed(I(-x.a[0]), dty) if x.op == "int" else mkmul(x, -1, dty) if dty.k in INTK
                            else typed(mk("arith", "Neg", x, UNIT), dty))
            if r[1] == "PtrMetadata":
                return self.seqlen(st, a)
            return typed(mk("un", r[1], a), dty)
        if k == "discr":
            v = self.read(st, fr, r[1])
            v = self.deref_all(st, v)
            l = self.lv(st, fr, r[1])
            return mk("discr", v, l[2] if l[0] == "val" else l[3])
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r[2]]
            kk = r[1][0]
            if kk == "array":
                return typed(mk("seq", *[mk("one", o) for o in ops]), dty)
            if kk == "tuple":
                return typed(mk("tup", *ops), dty) if ops else UNIT
            if kk == "adt":
                if r[1][1] in TRANSP:
                    return ops[0] if ops else UNIT
                b = ops[0].a[0] if r[1][2] == 0 and len(ops) > 1 and ops[0].op == "fld" else None
                bt = models.unref(b.ty) if b is not None else None
                if bt is not None and bt.k == "adt" and bt.id == r[1][1] and \
                        all(x.op == "fld" and x.a == (b, 0, i) or x.op == "fld" and x.a[0] is b and x.a[2] == i
                            for i, x in enumerate(ops)) and self.single(r[1][1], len(ops)):
                    return b            # put together again from all of its fields
                return typed(mk("adt", r[1][1], r[1][2], *ops), dty if dty is not None and dty.k == "adt" else None)
            if kk == "closure":
                return mk("clo", r[1][1], fr.sub, tuple(ops))
            raise Undecided(f"aggregate {r[1]}")
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            if 0 <= r[2] <= 64:
                return typed(mk("seq", *[mk("one", v)] * r[2]), dty)
            return typed(mk("app", "repeat", v, I(r[2])), dty)
        if k == "tls":
            return mk("static", r[1])
        raise Undecided(f"rvalue {r[:2]}")

    def ptr(self, st, cell, path):
        for i in range(1, len(path) + 1):
            x = self.load(st, cell, path[:i])
            if x.op == "ptr":
                if i == len(path):
                    # the place itself holds a pointer: reference to that slot
                    return mk("ptr", cell, path)
                return self.ptr(st, x.a[0], x.a[1] + path[i:])
        return mk("ptr", cell, path)

    def cast(self, st, kind, v, ty):
        if v.op == "case" and kind.startswith(("IntToInt", "FloatToInt")):
            return dist(v, lambda x: self.cast(st, kind, x, ty), ty)
        if kind.startswith("IntToInt"):
            if v.op == "int":
                rng = INTK.get(ty.k)
                n = v.a[0]
                if rng and not (rng[0] <= n <= rng[1]):
                    w = rng[1] - rng[0] + 1
                    n = (n - rng[0]) % w + rng[0]
                return typed(mk("int", n), ty)
            if v.op == "discr":
                return v
            if v.op == "char":
                return typed(I(ord(v.a[0])), ty)
            if v.op == "bool":
                return I(1 if v is TRUE else 0)
            rng = INTK.get(ty.k)
            rv = self.irange(st, v)
            if rng and rng[0] <= rv[0] and rv[1] <= rng[1] and v.ty is not None and v.ty.k in INTK:
                return typed(mk("icast", v, ty.k), ty)
            return typed(mk("trunc", v, ty.k), ty)
        if kind == "IntToFloat" and v.op == "int" and ty.k == "f64":
            return flt(float(v.a[0]))
        if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "Transmute", "Subtype", "BoxDerefTransmute"):
            return v
        return typed(mk("app", f"cast:{kind}:{ty.s}", v), ty)

    def seqlen(self, st, v):
        v = self.deref_all(st, v)
        if v.op == "case":
            return dist(v, lambda x: self.seqlen(st, x), USIZE_TY)
        if v.op == "seq":
            if all(x.op == "one" for x in v.a):
                return typed(I(len(v.a)), USIZE_TY)
            if any(x.op == "chs" for x in v.a):
                return shapes.count(v)
            return typed(mk("len", v), USIZE_TY)
        if v.op == "bytes":
            return typed(I(len(v.a[0])), USIZE_TY)
        if self.small is not None and self.countable(v):
            return typed(I(self.small), USIZE_TY)
        if v.ty is not None and v.ty.k == "array" and v.ty.len >= 0:
            return typed(I(v.ty.len), USIZE_TY)
        return typed(mk("len", v), USIZE_TY)

    # ------------------------------------------------------------ running a function
    def cfg(self, fn):
        if fn._cfg is None:
            fn._cfg = Cfg(fn)
        return fn._cfg

    def place_ty(self, fr, p):
        """the type of a place, as far as it is written down"""
        t = subst_ty(fr.fn.locals[p[0]], fr.sub)
        for e in p[1]:
            if e == "*":
                t = t.a[0] if t is not None and t.k in ("ref", "ptr") and t.a else None
            elif e[0] == "f":
                t = subst_ty(e[2], fr.sub)
            elif e[0] in ("i", "ci"):
                t = self.elem_ty(t)
            elif e[0] != "d":
                t = None
        return t

    def declared(self, cell, v):
        """the type of what a cell holds (literals are shared by the types they are written in: the variable tells)"""
        fr = self.frames.get(cell[0])
        if (v.ty is None or v.op == "int") and fr is not None and isinstance(cell[1], int) and cell[1] < len(fr.fn.locals):
            return subst_ty(fr.fn.locals[cell[1]], fr.sub)
        return v.ty

    def run_fn(self, fn, args, st, sub, depth=None):
        """[(state, return value)]: the summary rows of one activation"""
        if len(self.stack) > 60:
            raise Undecided("call depth")
        fr = Frame()
        fr.fn, fr.sub = fn, sub
        fr.depth = (len(self.stack) + 1) if depth is None else depth + len(self.stack)
        st = st.copy()
        self.frames[fr.depth] = fr
        for i, a in enumerate(args):
            st.mem[(fr.depth, i + 1)] = a
        self.stack.append(fn)
        try:
            cfg = self.cfg(fn)
            exits, backs, rets = self.run_region(fr, {0: [st]}, None, None)
        finally:
            self.stack.pop()
        out = []
        for s in rets:
            v = s.mem.get((fr.depth, 0), UNIT)
            if fn.locals[0].k == "tuple" and not fn.locals[0].a:
                v = UNIT
            s2 = St({k: x for k, x in s.mem.items() if k[0] != fr.depth}, s.f)
            if v.ty is None:
                typed(v, subst_ty(fn.locals[0], sub))
            if has_ptr_to(v, fr.depth):
                m = {p: self.deep(s, p) for p in subterms(v) if p.op == "ptr" and p.a[0][0] == fr.depth}
                v = rewrite(v, m)
            out.append((s2, v))
        return out

    def prune(self, fr, cfg, st, b):
        live = cfg.livein[b]
        d = fr.depth
        mem = st.mem
        mine = [k for k in mem if k[0] == d and not (isinstance(k[1], int) and k[1] in live) ]
        if not mine:
            return
        # keep dead-looking cells that a live value still points to
        need = set()
        todo = [v for k, v in mem.items() if not (k in mine)] if len(mine) < len(mem) else []
        mine_s = set(mine)
        for v in todo:
            if has_ptr(v):
                for p in subterms(v):
                    if p.op == "ptr" and p.a[0] in mine_s:
                        need.add(p.a[0])
        while True:
            add = set()
            for k in need:
                if k in mem and has_ptr(mem[k]):
                    for p in subterms(mem[k]):
                        if p.op == "ptr" and p.a[0] in mine_s and p.a[0] not in need:
                            add.add(p.a[0])
            if not add:
                break
            need |= add
        for k in mine:
            if k not in need:
                del mem[k]

    def run_region(self, fr, entries, region, header):
        cfg = self.cfg(fr.fn)
        pend = {b: list(ss) for b, ss in entries.items()}
        exits, backs, rets = [], [], []
        first = True
        guard_steps = 0
        while pend:
            b = min(pend, key=lambda x: cfg.rpo[x])
            sts = pend.pop(b)
            for s in sts:
                self.prune(fr, cfg, s, b)
            sts = self.join_states(sts)
            if len(sts) > 600:
                raise Undecided(f"{fr.fn.id}: too many states at bb{b}")
            if b in cfg.loops and b != header:
                for s in sts:
                    ex, rt = self.do_loop(fr, b, s, region)
                    rets += rt
                    for tgt, s2 in ex:
                        self.dispatch(fr, cfg, tgt, s2, region, header, pend, exits, backs)
                continue
            for s in sts:
                guard_steps += 1
                self.steps += 1
                for tgt, s2 in self.block(fr, b, s, rets):
                    self.dispatch(fr, cfg, tgt, s2, region, header, pend, exits, backs)
        return exits, backs, rets

    def dispatch(self, fr, cfg, tgt, s, region, header, pend, exits, backs):
        if tgt == header:
            backs.append(s)
        elif region is not None and tgt not in region:
            exits.append((tgt, s))
        else:
            pend.setdefault(tgt, []).append(s)

    def block(self, fr, b, st, rets):
        """execute one block on one state -> [(target, state)]"""
        if "shapes" not in AXIOMS:
            return self.block1(fr, b, st, rets)
        n = len(rets)
        try:
            return self.block1(fr, b, st, rets)
        except shapes.Split as e:
            # a value depends on how a text is taken apart: once more for every way
            if e.facts != st.f:
                raise Undecided("an item of a text")
            del rets[n:]
            out = []
            for f in e.rows:
                out += self.block(fr, b, St(dict(st.mem), f), rets)
            return out

    def block1(self, fr, b, st, rets):
        st = st.copy()
        blk = fr.fn.blocks[b]
        for s in blk["s"]:
            if s[1][0] == "setd":
                v = self.read(st, fr, s[0])
                if v.op == "adt":
                    self.write(st, fr, s[0], mk("adt", v.a[0], s[1][1], *v.a[2:]))
                continue
            if s[1][0] == "other":
                continue
            dty = self.place_ty(fr, s[0])
            v = self.rvalue(st, fr, s[1], dty)
            if dty is not None and v.ty is None and v.op not in ("discr", "ptr"):
                typed(v, dty)
            self.write(st, fr, s[0], v)
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            rets.append(st)
            return []
        if k == "unreach":
            return []
        if k == "drop":
            return [(t[2], st)]
        if k == "assert":
            if t[3] == "other":
                return [(t[5], st)]
            c = self.operand(st, fr, t[1])
            out = []
            for s, v in self.bool_split(st, c):
                if v == t[2]:
                    out.append((t[5], s))
                else:
                    ops = [self.operand(s, fr, o) for o in t[4]]
                    if t[3] == "bounds" and self.in_bounds(s, ops):
                        out.append((t[5], s))
                        continue
                    self.panic(s, fr, t[6], t[3], ", ".join(show(o, 4) for o in ops))
            return out
        if k == "switch":
            return self.switch(fr, st, t)
        if k == "call":
            return self.call(fr, b, st, t)
        raise Undecided(f"terminator {k}")

    def in_bounds(self, st, ops):
        ln, ix = ops
        ri, rl = self.irange(st, ix), self.irange(st, ln)
        return ri[1] < rl[0]

    def switch(self, fr, st, t):
        v = self.operand(st, fr, t[1])
        out = []
        cases = t[2]
        if v.op == "discr":
            ty = v.a[1]
            x = v.a[0]
            if x.ty is not None and x.ty.k == "adt" and self.nvar(x.ty) is not None and self.nvar(x.ty)["k"] == "enum":
                ty = x.ty
            elif x.op == "adt" and (ty is None or ty.k != "adt"):
                ty = None
            rec = self.nvar(ty) if ty is not None else None
            by = {}
            for s, row, k in self.variant_split(st, x, ty):
                rc = (self.prog.adts.get(row.a[0]) if row.op == "adt" else None) or rec
                d = int(rc["v"][k]["d"]) if rc else k
                tgt = next((c[1] for c in cases if c[0] == d), t[3])
                by.setdefault(tgt, []).append(s)
            for tgt, ss in by.items():
                for s in self.join_states(ss):
                    out.append((tgt, s))
            return out
        if t[4].k == "bool":
            f = next((c[1] for c in cases if c[0] == 0), None)
            tr = next((c[1] for c in cases if c[0] == 1), t[3])
            if f is None:
                f = t[3]
            for s, b in self.bool_split(st, v):
                out.append((tr if b else f, s))
            return out
        if t[4].k == "char":
            rest = [st]
            for c, tgt in cases:
                nxt = []
                for s in rest:
                    for s2, b in self.bool_split(s, self.member(v, ("S", True, frozenset([chr(c)])))):
                        (out.append((tgt, s2)) if b else nxt.append(s2))
                rest = nxt
            return out + [(t[3], s) for s in rest]
        rest = [st]
        for c, tgt in cases:
            nxt = []
            for s in rest:
                b_ = self.cmp(s, "Eq", v, I(c)) if v.op != "case" else dist(v, lambda x: self.cmp(s, "Eq", x, I(c)), BOOL_TY)
                for s2, b in self.bool_split(s, b_):
                    (out.append((tgt, s2)) if b else nxt.append(s2))
            rest = nxt
        return out + [(t[3], s) for s in rest]

    # ------------------------------------------------------------ calls
    def call(self, fr, b, st, t):
        args = [self.operand(st, fr, o) for o in t[2]]
        rty = self.place_ty(fr, t[3])
        fv = self.operand(st, fr, t[1])
        if rty is None:
            l = self.lv(st, fr, t[3])
            rty = l[2] if l[0] == "val" else l[3]
        rs = self.apply(fr, st, fv, args, rty, t[5], direct=True)
        rs = self.merge_rows(st, rs, rty)
        out = []
        for s, v in rs:
            if t[4] < 0:
                continue
            self.write(s, fr, t[3], v)
            out.append((t[4], s))
        return out

    def merge_rows(self, st, rs, rty):
        """join the outcomes of a call: one state per distinct memory, results gated by the facts learnt"""
        if len(rs) <= 1:
            return [(s.copy(), v) for s, v in rs]
        if self.nomemo:
            # every outcome on its own
            by, out = {}, []
            for s, v in rs:
                if v.op == "case":
                    for g, x in v.a[0]:
                        s2 = s.assume_g(g)
                        if s2 is not None:
                            by.setdefault(x, []).append(s2)
                elif v.op != "never":
                    by.setdefault(v, []).append(s)
            for v, ss in by.items():
                out += [(s.copy(), v) for s in self.join_states(ss)]
            return out
        groups = {}
        for s, v in rs:
            if v.op == "never":
                continue
            groups.setdefault(frozenset(s.mem.items()), []).append((s, v))
        out = []
        for mem, rows in groups.items():
            if len(rows) == 1:
                out.append((rows[0][0].copy(), rows[0][1]))
                continue
            if len(groups) > 1:
                # outcomes that left different memory behind must stay mutually exclusive: join facts exactly
                gs = [(frozenset(x for x in s.f.items() if st.f.get(x[0]) != x[1]), v) for s, v in rows]
                for j in self.join_states([St(dict(mem), s.f) for s, _ in rows]):
                    live = [(g, v) for g, v in gs if j.assume_g(g) is not None]
                    out.append((j.copy(), mkcase(live, rty)))
                continue
            gs = []
            for s, v in rows:
                g = frozenset(x for x in s.f.items() if st.f.get(x[0]) != x[1])
                gs.append((g, v))
            # facts common to every row hold afterwards (hull per term)
            f = dict(rows[0][0].f)
            for s, v in rows[1:]:
                for k in list(f):
                    if k not in s.f:
                        del f[k]
                    elif f[k] != s.f[k]:
                        u = d_union(f[k], s.f[k])
                        if u is None:
                            del f[k]
                        else:
                            f[k] = u
            for k, d in st.f.items():
                if k not in f:
                    f[k] = d
            v = mkcase(gs, rty)
            out.append((St(dict(rows[0][0].mem), f), v))
        return out

    def apply(self, fr, st, fv, args, rty, line, direct=False):
        """apply a function value -> [(state, value)]"""
        if fv.op == "ptr":
            fv = self.deref_all(st, fv)
        if fv.op == "clo":
            fn = self.prog.fns.get(fv.a[0])
            if fn is None:
                raise Undecided(f"closure {fv.a[0]}")
            return self.invoke(fr, st, fn, [fv] + list(args), fv.a[1], rty, line)
        if fv.op == "fn":
            return self.call_ref(fr, st, fv.a[0].c, fv.a[0].a, list(args), rty, line)
        if fv.op == "case":
            out = []
            for g, x in fv.a[0]:
                s = st.assume_g(g)
                if s is not None:
                    out += self.apply(fr, s, x, args, rty, line)
            return out
        return self.opaque_call(fr, st, "call:" + show(fv, 3), [fv] + list(args), rty, line)

    def call_closure(self, fr, st, clo, args, rty=None, line=0):
        """call a closure / fn value with unpacked arguments; outcomes merged"""
        clo = self.deref_all(st, clo)
        if clo.op == "clo":
            fn = self.prog.fns.get(clo.a[0])
            rs = self.invoke(fr, st, fn, [clo] + list(args), clo.a[1], rty, line)
        else:
            rs = self.apply(fr, st, clo, args, rty, line)
        return self.merge_rows(st, rs, rty)

    def call_ref(self, fr, st, c, a, args, rty, line):
        p = self.prog
        if "ctor" in c:
            i, v = c["ctor"]
            return [(st, typed(mk("adt", i, v, *args), rty if rty is not None and rty.k == "adt" else None))]
        # 1. directly resolved workspace function
        tgt, sub = None, None
        rid = c.get("rid")
        if rid in p.fns and not c.get("virt"):
            fn = p.fns[rid]
            if fn.kind == "closure" and len(args) == 2 and args[1].op == "tup":
                args = [args[0]] + list(args[1].a)      # Fn::call passes the arguments as one tuple
            if fn.impl_self is not None and c.get("tr"):
                m = {}
                if a:
                    unify_ty(fn.impl_self, a[0], m)
                ng = [g for g in fn.gen if g not in m]
                rest = a[1:]
                for i, g in enumerate(ng):
                    if i < len(rest):
                        m[g] = rest[len(rest) - len(ng) + i] if len(rest) >= len(ng) else rest[i]
                sub = tuple(sorted(m.items(), key=lambda x: x[0]))
            else:
                sub = tuple(zip(fn.gen, a))
            tgt = fn
        elif c["id"] in p.fns and not c.get("tr"):
            fn = p.fns[c["id"]]
            sub = tuple(zip(fn.gen, a))
            tgt = fn
        elif c.get("tr"):
            tgt, sub = self.trait_target(c, a, args)
        if tgt is not None:
            if tgt.derived:
                r = models.derived(self, fr, st, tgt, c, args, rty)
                if r is not None:
                    return r
            return self.invoke(fr, st, tgt, args, sub, rty, line)
        m = models.lookup(c)
        if "shapes" in AXIOMS:
            shapes.guard(self, st, models.norm(c["n"]), args)
        if m is not None:
            r = m(self, fr, st, models.Call(c, a, rty, line), args)
            if r is not None:
                return r
        return self.opaque_call(fr, st, models.norm(c["n"]), args, rty, line, c, a)

    def trait_target(self, c, a, args):
        """workspace body for a trait method on a concrete or dyn receiver"""
        p = self.prog
        m = c["n"].split("::")[-1]
        st = a[0] if a else None
        if st is None:
            return None, None
        while st.k == "adt" and st.id in TRANSP and st.a:
            st = st.a[0]
        if st.k == "dyn":
            only = p.impl_ix.get(c["tr"], ())
            if len(only) == 1 and (m in only[0][1] and only[0][1][m] in p.fns or c["id"] in p.fns) and not only[0][0].a:
                # the only implementation in the workspace: the default generator
                f = p.fns.get(only[0][1].get(m)) or p.fns[c["id"]]
                return f, (("Self", only[0][0]),)
            if c["id"] in p.fns:
                f = p.fns[c["id"]]
                return f, (("Self", st),)
            # dyn without default body: no known implementation
            return None, None
        if st.k == "param":
            return None, None
        while True:
            for t, ms in p.impl_ix.get(c["tr"], ()):
                b = {}
                if unify_ty(t, st, b) and m in ms:
                    f = p.fns.get(ms[m])
                    if f is not None:
                        ng = [g for g in f.gen if g not in b]
                        rest = a[1:]
                        for i, g in enumerate(ng):
                            if len(rest) - len(ng) + i >= 0 and len(rest) - len(ng) + i < len(rest):
                                b[g] = rest[len(rest) - len(ng) + i]
                        return f, tuple(sorted(b.items(), key=lambda x: x[0]))
            if c["id"] in p.fns and any(unify_ty(t, st, {}) for t, ms in p.impl_ix.get(c["tr"], ())):
                f = p.fns[c["id"]]
                return f, (("Self", st),)
            if st.k == "ref" and st.a:
                st = st.a[0]
                continue
            return None, None

    def invoke(self, fr, st, fn, args, sub, rty, line):
        al = self.alias.get(fn.id)
        name = al or (fn.id if fn.id in self.cuts or any(f is fn for f in self.stack) else None)
        if name is not None and "call " + name in models.M:
            return models.M["call " + name](self, fr, st, models.Call({"n": name}, (), rty or subst_ty(fn.locals[0], sub), line), args)
        if al is not None:
            tgt = self.prog.fns.get(al)
            return self.opaque_call(fr, st, al, args, rty or subst_ty(fn.locals[0], sub), line, ws=tgt or fn)
        if fn.id in self.cuts or any(f is fn for f in self.stack):
            return self.opaque_call(fr, st, fn.id, args, rty or subst_ty(fn.locals[0], sub), line, ws=fn)
        if fn.kind == "closure" and len(args) == 2 and fn.argc > 2 and args[1].op == "tup":
            args = [args[0]] + list(args[1].a)
        # a closure body takes its environment by reference
        key = None
        if not self.nomemo and not any(has_ptr(a) for a in args) and all(a.op != "case" for a in args):
            key = (fn.id, sub, tuple(args))
            hit = self.memo.get(key)
            if hit is not None:
                rows, pl = hit
                if rows is not None:
                    out = []
                    for g, v in rows:
                        s = st.assume_g(g)
                        if s is not None:
                            out.append((s, v))
                    for pk, p in pl:
                        s = st.assume_g(p.guard)
                        if s is not None:
                            q = Panic()
                            q.fn, q.line, q.kind, q.detail = p.fn, p.line, p.kind, p.detail
                            q.guard = frozenset(s.f.items())
                            q.stack = tuple(f.id for f in self.stack) + p.stack[-1:]
                            k2 = (p.fn.id, p.line, p.kind, q.stack)
                            self.panics.setdefault(k2, []).append(q)
                            if self._plog is not None:
                                self._plog.append((k2, q))
                            if not p.kind.startswith("overflow"):
                                self.left_open(p.fn, s.f)
                    return out
                key = None
        if key is not None:
            keep, self._plog = self._plog, []
            opens, self.opens = self.opens, None
            saved = {k: list(v) for k, v in self.panics.items()}
            nex = len(self.exits) if self.exits is not None else 0
            try:
                rs = self.run_fn(fn, args, St(), sub)
            finally:
                self.opens = opens
            if self.exits is not None and len(self.exits) > nex:
                # the state at the exit is needed
                del self.exits[nex:]
                self.panics = saved
                self._plog = keep
                self.memo[key] = (None, None)
                return self.run_fn(fn, args, st, sub)
            log, self._plog = self._plog, keep
            self.panics = saved
            if all(not s.mem for s, _ in rs):
                self.memo[key] = ([(frozenset(s.f.items()), v) for s, v in rs], log)
                return self.invoke(fr, st, fn, args, sub, rty, line)
            self.memo[key] = (None, None)
        return self.run_fn(fn, args, st, sub)

    def opaque_call(self, fr, st, name, args, rty, line, c=None, a=None, ws=None):
        self.opaque[name] = self.opaque.get(name, 0) + 1
        st = st.copy()
        vals = []
        muts = []
        for x in args:
            if x.op == "ptr":
                v = self.deep(st, x)
                vals.append(v)
                muts.append(x)
            else:
                vals.append(self.deep(st, x) if has_ptr(x) else x)
                if has_ptr(x):
                    for p in subterms(x):
                        if p.op == "ptr":
                            muts.append(p)
        extra = tuple(t.s for t in a if t is not None and t.k != "closure") if a and models.type_matters(name) else ()
        nm = name if not extra else f"{name}::<{', '.join(extra)}>"
        mutates = self.mutating(ws, c, args)
        if models.is_world(c, name):
            w = st.mem.get(WORLD) or mk("seq")
            st.mem[WORLD] = mk("eff", nm, w, *vals)
            vals.append(w)
        if ws is not None and mutates:
            # writes through cells of values the analysis does not hold in memory: kept as an ordered effect
            lost = [i for i, x in enumerate(args[:ws.argc]) if x.op != "ptr" and not has_ptr(x)
                    and ws.locals[i + 1].k == "ref" and not self.prog.freeze(ws.locals[i + 1].a[0])]
            if lost:
                h = st.mem.get(HEAP) or mk("sym", "heap")
                st.mem[HEAP] = typed(mk("eff", nm, h, *vals), UNIT_TY)
        if mutates:
            for p in muts:
                if self.ptr_mut(ws, c, args, p):
                    old = self.load(st, p.a[0], p.a[1])
                    self.store(st, p.a[0], p.a[1], typed(mk("after", nm, old, *vals), old.ty))
        r = self.pure_app(nm, vals, rty)
        return [(st, r)]

    def pure_app(self, name, vals, rty):
        if rty is not None and rty.k == "tuple" and not rty.a:
            return UNIT
        for i, v in enumerate(vals):
            if v.op == "case" and len(v.a[0]) <= 40:
                return dist(v, lambda x: self.pure_app(name, vals[:i] + [x] + vals[i + 1:], rty), rty)
        return typed(mk("app", name, *vals), rty)

    def mutating(self, ws, c, args):
        if ws is not None:
            return self.ws_mutates(ws)
        return True

    def ws_mutates(self, fn):
        """does a workspace function (transitively) write through a reference it is given?"""
        r = getattr(self, "_wm", None)
        if r is None:
            r = self._wm = {}
        if fn.id not in r:
            reach = self.cg.reach([fn.id])
            bad = any(l.k == "ref" and l.m for l in fn.locals[1:fn.argc + 1])
            for g in reach:
                for s in self.cg.sites[g]:
                    if s.callee["n"].endswith(("RefCell::<T>::borrow_mut", "RefCell::<T>::replace",
                                               "RefCell::<T>::take", "Cell::<T>::set", "RefCell::<T>::swap")):
                        bad = True
            r[fn.id] = bad
        return r[fn.id]

    def ptr_mut(self, ws, c, args, p):
        """may the callee write through pointer p?  shared references to cells are written only by RefCell users"""
        if ws is not None:
            for i, x in enumerate(args):
                if x is p and i < ws.argc:
                    t = ws.locals[i + 1]
                    if t.k == "ref" and t.m:
                        return True
                    if t.k == "ref" and self.prog.owns_no_cell(t.a[0]):
                        return False
            return self.ws_mutates(ws)
        return not models.shared_only(c, args, p)

    # ------------------------------------------------------------ iteration
    def iterate(self, st, segs, body):
        """run body over the segments of a sequence.
        body(st, v) -> [(st', out segs, brk)]; returns ([(st, out segs)], [(st, brk)])"""
        normal, breaks = [(st, ())], []
        for sg in segs:
            nxt = []
            for s, out in normal:
                n2, b2 = self.iter_seg(s, sg, body)
                for s2, o2 in n2:
                    nxt.append((s2, out + o2))
                breaks += b2
            normal = self.merge_iter(nxt)
            if not normal:
                break
        return normal, breaks

    def merge_iter(self, xs):
        if len(xs) < 2:
            return xs
        by = {}
        for s, o in xs:
            by.setdefault((frozenset(s.mem.items()), o), []).append(s)
        out = []
        for (m, o), ss in by.items():
            for s in self.join_states(ss):
                out.append((s, o))
        return out

    def unroll(self, c):
        """what a comprehension over a list of known size gives, element by element (None: the size is not known)"""
        src, e, rows = c.a
        if self.small is None or not self.countable(src):
            return None
        out = []
        for i in range(self.small):
            n = typed(mk("nth", src, I(i)), e.ty)
            rs = tuple((frozenset((rewrite(t, {e: n}), d) for t, d in g), tuple(rewrite(x, {e: n}) for x in ss)) for g, ss in rows)
            out += rs[0][1] if len(rs) == 1 and not rs[0][0] else [mk("if", rs)]
        return tuple(out)

    def iter_seg(self, st, sg, body):
        sg = models.tail_of(self, sg)
        if sg.op == "comp" and self.small is not None:
            k = self.unroll(sg)
            if k is not None:
                return self.iterate(st, k, body)
        if sg.op == "one":
            if sg.a[0] is ANY:
                return [(st, (sg,))], []
            n, b = [], []
            for s, o, brk in body(st, sg.a[0]):
                if brk is None:
                    n.append((s, o))
                else:
                    b.append((s, brk))
            return n, b
        if sg.op == "if":
            n, b = [], []
            for g, segs in sg.a[0]:
                s = st.assume_g(g)
                if s is None:
                    continue
                n2, b2 = self.iterate(s, segs, body)
                n += n2
                b += b2
            return n, b
        if sg.op == "comp":
            return self.iter_comp(st, sg, body)
        raise Undecided(f"segment {sg.op}")

    def iter_comp(self, st, comp, body):
        src, elem, rows = comp.a
        if elem in self.elems_active:
            lvl = 1 + max(e.a[1] for e in self.elems_active if e.a[0] is src)
            ne = typed(mk("elem", src, lvl), elem.ty)
            comp = rewrite(comp, {elem: ne})
            src, elem, rows = comp.a
        self.elems_active.append(elem)
        try:
            modified = {}
            for _round in range(8):
                base = st.copy()
                for c, v in modified.items():
                    base.mem[c] = v
                results, opens = [], self.opens
                self.opens = []
                try:
                    for g, segs in rows:
                        s = base.assume_g(g)
                        if s is None:
                            continue
                        n, b = self.iterate(s, segs, body)
                        results += [(s2, o, None) for s2, o in n] + [(s2, (), k) for s2, k in b]
                finally:
                    opened, self.opens = self.opens, opens
                new = False
                for s2, o, k in results:
                    if k is not None:
                        continue
                    for c, v in s2.mem.items():
                        if c[0] == "e" and c[1] is elem:
                            continue
                        old = base.mem.get(c)
                        if v is not old and c not in modified:
                            if old is None and c[0] in ("org",):
                                continue
                            old0 = st.mem.get(c)
                            if old0 is None:
                                old0 = self.load(st, c, ())
                            a = accp(len(modified), elem, c if c[0] in ("arg", "world") else None, self.declared(c, old0))
                            modified[c] = a
                            new = True
                if not new:
                    break
            else:
                raise Undecided("loop accumulators do not stabilise")
        finally:
            self.elems_active.pop()
        for f in opened:
            # the reference says nothing about a round like this
            if any(x.op == "elem" and x is not elem and x not in self.elems_active
                   for t, d in f.items() if base.f.get(t) != d for x in subterms(t)):
                continue
            s = St(dict(base.mem), f)
            for c in modified:
                s.mem[c] = ANY
            results.append((s, (OPEN,), None))
        # ---- flags that tell the first round from the others
        if modified and self.is_identity(comp):
            results = self.first_rounds(st, elem, modified, results)
        whole = {}
        if modified:
            st, modified, results, whole = self.explode(st, elem, modified, results)
        # ---- classify accumulators
        after = st.copy()
        norm = [(s2, o) for s2, o, k in results if k is None]
        delta = lambda s2: frozenset(x for x in s2.f.items() if st.f.get(x[0]) != x[1])
        fin, loop = {}, None
        if modified:
            inits = tuple(st.mem[c] if st.mem.get(c) is not None else self.load(st, c, ()) for c in modified)
            lrows = tuple(sorted({(delta(s2), tuple(s2.mem.get(c, a) for c, a in modified.items())) for s2, o in norm},
                                 key=lambda r: (tuple(x.uid for x in r[1]), g_sortkey(r[0]))))
            loop = self.slices(src, elem, list(modified.values()), inits, lrows)
            fin = {a: typed(mk("acc", loop[i][0], elem, loop[i][1]), a.ty) for i, a in enumerate(modified.values())}
            if self.is_identity(comp):
                # a plain counter is the position of the element
                for i, (a, k) in enumerate(zip(list(modified.values()), inits)):
                    if k.op == "int" and lrows and all(r[1][i] is self.addk(a, 1, a.ty) for r in lrows):
                        fin[a] = self.addk(typed(mk("idxof", elem), USIZE_TY), k.a[0], a.ty)
        for (c, a), init in zip(modified.items(), inits if modified else ()):
            others = {k: v for k, v in fin.items() if k is not a}
            vals = [(_rw(delta(s2), others, {}), rewrite(s2.mem.get(c, a), others)) if others else
                    (delta(s2), s2.mem.get(c, a)) for s2, o in norm]
            after.mem[c] = self.accumulate(src, elem, a, init, vals, fin[a])
        self.reassemble(after, whole)
        # ---- element write-back (iter_mut)
        ecell = ("e", elem)
        if any(s2.mem.get(ecell, elem) is not elem for s2, o in norm):
            org = st.mem.get(("org", elem))
            nrows = _rw(tuple((delta(s2), (mk("one", s2.mem.get(ecell, elem)),)) for s2, o in norm), fin, {})
            nv = mk("seq", self.mkcomp(src, elem, nrows))
            if org is not None:
                self.store(after, org.a[0], org.a[1], typed(nv, src.ty))
            else:
                after.mem[("o", src)] = nv
        after.mem.pop(ecell, None)
        # ---- produced segments
        orows = [(_rw(delta(s2), fin, {}), _rw(o, fin, {})) if fin else (delta(s2), o) for s2, o in norm if o]
        out = (self.mkcomp(src, elem, orows),) if orows else ()
        accs = set(modified.values())
        # ---- a reference function that says nothing about some round says nothing about the whole input
        if opened:
            gs = [_rw(delta(s2), fin, {}) if fin else delta(s2) for s2, o, k in results if o == (OPEN,)]
            if gs:
                ex = self.mkexists(src, elem, gs)
                for s, b in self.bool_split(st, ex):
                    if b and self.opens is not None:
                        self.opens.append(dict(s.f))
                after = next((s for s, b in self.bool_split(after, ex) if not b), None)
                if after is None:
                    return [], []
        # ---- breaks
        breaks = []
        bg = []
        for s2, o, k in results:
            if k is None:
                continue
            bg.append((_rw(delta(s2), fin, {}) if fin else delta(s2), s2, k))
        normal = []
        if bg:
            allg = [g for g, _, _ in bg]
            ex = self.mkexists(src, elem, allg)
            for s, b in self.bool_split(after, ex):
                if not b:
                    normal.append((s, out))
            groups = {}
            for g, s2, k in bg:
                groups.setdefault((k, frozenset(s2.mem.items())), []).append((g, s2))
            gs_all = frozenset(g_joinall(allg))
            pk = self.mkpick("first", src, elem, gs_all)
            for (k, _m), xs in groups.items():
                for g, s2 in xs:
                    m = {elem: pk}
                    for i, a in enumerate(modified.values()):
                        m[a] = typed(mk("acc", loop[i][0], pk, loop[i][1]), a.ty)
                    if len(m) == 1 and not any(elem in subterms(v) for v in s2.mem.values()) and False:
                        pass
                    s3 = St({c: rewrite(v, m) if v is not UNIT else v for c, v in s2.mem.items()
                             if not (c[0] in ("e", "org") and c[1] is elem) and c[0] != "part"}, dict(st.f))
                    s3 = self.bool_true(s3, ex)
                    if s3 is None:
                        continue
                    s3 = s3.assume_g([(rewrite(t, m), d) for t, d in g])
                    if s3 is None:
                        continue
                    breaks.append((s3, rw_any(k, m)))
        else:
            normal.append((after, out))
        return normal, breaks

    def explode(self, st, elem, modified, results):
        """an accumulator that holds the same kind of record in every round is one accumulator per field"""
        st = st.copy()
        whole, cells = {}, list(modified.items())
        while True:
            for c, a in cells:
                init = st.mem.get(c)
                if init is None or init.op not in ("adt", "tup") or len(init.a) < (3 if init.op == "adt" else 1):
                    continue
                head = init.a[:2] if init.op == "adt" else ()
                if all(x is a or x.op == init.op and (init.op == "tup" and len(x.a) == len(init.a) or
                                                      init.op == "adt" and x.a[:2] == head and len(x.a) == len(init.a))
                       for s2, o, k in results for _, x in case_rows(s2.mem.get(c, a))):
                    break
            else:
                break
            fs = init.a[len(head):]
            parts = [accp(1000 + len(whole) * 100 + i, elem, None, f.ty) for i, f in enumerate(fs)]
            m = {a: typed(mk(init.op, *head, *parts), a.ty)}
            pcs = [("part", c, i) for i in range(len(fs))]
            out = []
            for s2, o, k in results:
                s3 = St({x: rewrite(v, m) if v is not UNIT else v for x, v in s2.mem.items()}, {})
                s3 = s3.assume_g([(rewrite(t, m), d) for t, d in s2.f.items()])
                if s3 is None:
                    continue
                v = s3.mem.get(c, m[a])
                for i, pc in enumerate(pcs):
                    s3.mem[pc] = dist(v, lambda y, i=i: y.a[len(head) + i], fs[i].ty)
                out.append((s3, rw_any(o, m), rw_any(k, m)))
            results = out
            for i, pc in enumerate(pcs):
                st.mem[pc] = fs[i]
            n = [x for x, _ in cells].index(c)
            cells[n:n + 1] = list(zip(pcs, parts))
            whole[c] = (init, head, pcs, a.ty)
        if not whole:
            return st, modified, results, whole
        # an unchanged field is no state of the loop
        m = {a: st.mem[c] for c, a in cells if c[0] == "part" and all(
            s2.mem.get(c, a) is a for s2, o, k in results if k is None)}
        cells = [(c, a) for c, a in cells if a not in m]
        for j, (c, a) in enumerate(cells):
            m[a] = accp(j, elem, a.a[2], a.ty)
        out = []
        for s2, o, k in results:
            s3 = St({x: rewrite(v, m) if v is not UNIT else v for x, v in s2.mem.items()}, {})
            s3 = s3.assume_g([(rewrite(t, m), d) for t, d in s2.f.items()])
            if s3 is not None:
                out.append((s3, rw_any(o, m), rw_any(k, m)))
        return st, {c: m[a] for c, a in cells}, out, whole

    def reassemble(self, st, whole):
        for c, (init, head, pcs, ty) in reversed(list(whole.items())):
            st.mem[c] = typed(mk(init.op, *head, *[st.mem.pop(pc) for pc in pcs]), ty)

    def slices(self, src, elem, accs, inits, rows):
        """for each state a loop carries: its place in the loop over just the states it depends on, and that loop"""
        idx = {a: i for i, a in enumerate(accs)}

        def project(need):
            by = {}
            for g, vs in rows:
                if any(vs[i] is not accs[i] for i in need):
                    by.setdefault(tuple(vs[i] for i in need), []).append(g)
            return [(g, vs) for vs, gs in by.items() for g in g_joinall(gs)]
        out, memo = [], {}
        for i in range(len(accs)):
            need = (i,)
            while True:
                pr = project(need)
                more = {idx[t] for g, vs in pr for x in list(vs) + [y for y, _ in g] for t in subterms(x) if t in idx}
                if more <= set(need):
                    break
                need = tuple(sorted(more | set(need)))
            if need not in memo:
                if len(need) == len(accs):
                    pr = tuple(sorted(pr, key=lambda r: (tuple(x.uid for x in r[1]), g_sortkey(r[0]))))
                    memo[need] = mk("loop", src, elem, inits, pr)
                else:
                    ren = {accs[k]: accp(j, elem, accs[k].a[2], accs[k].ty) for j, k in enumerate(need)}
                    pr = _rw(tuple(pr), ren, {})
                    pr = tuple(sorted(pr, key=lambda r: (tuple(x.uid for x in r[1]), g_sortkey(r[0]))))
                    memo[need] = mk("loop", src, elem, tuple(inits[k] for k in need), pr)
            out.append((need.index(i), memo[need]))
        return out

    def first_rounds(self, st, elem, modified, results):
        """an accumulator every round sets to the same constant is its initial value in the first round and that
        constant in the others: say so with the position of the element"""
        norm = [s2 for s2, o, k in results if k is None]
        flags = {}
        for c, a in modified.items():
            i = st.mem.get(c)
            nxt = {s2.mem.get(c, a) for s2 in norm}
            if i is not None and closed(i) and len(nxt) == 1 and closed(next(iter(nxt))):
                flags[a] = (i, next(iter(nxt)))
        if not flags:
            return results
        at = mk("idxof", elem)
        first, later = (at, ("I", ((0, 0),))), (at, ("I", ((1, INTK["usize"][1]),)))
        m = {a: mkcase([(frozenset([first]), i), (frozenset([later]), n)], a.ty) for a, (i, n) in flags.items()}
        out = []
        for s2, o, k in results:
            f, extra, ok_ = {}, [], True
            for t, d in s2.f.items():
                if t in flags:
                    y, z = (self.known_in(x, d) for x in flags[t])
                    if y is None or z is None:
                        return results
                    if not y and not z:
                        ok_ = False
                    elif y != z:
                        extra.append(first if y else later)
                elif any(x in flags for x in subterms(t)):
                    return results
                else:
                    f[t] = d
            if not ok_:
                continue
            s3 = St({c: v if v in flags else rewrite(v, m) for c, v in s2.mem.items()}, f).assume_g(extra)
            if s3 is not None:
                out.append((s3, rw_any(o, m), rw_any(k, m)))
        return out

    def known_in(self, v, d):
        r = [b for _, b in self.bool_split(St(), self.member(v, d))]
        return r[0] if len(r) == 1 else None

    def bool_true(self, st, b):
        for s, v in self.bool_split(st, b):
            if v:
                return s
        return None

    def mkcomp(self, src, elem, rows):
        by = {}
        for g, segs in rows:
            if segs:
                by.setdefault(tuple(segs), []).append(g)
        out = []
        for segs, gs in by.items():
            for g in g_joinall(gs):
                out.append((g, segs))
        out.sort(key=lambda r: (tuple(x.uid for x in r[1]), g_sortkey(r[0])))
        return mk("comp", src, elem, tuple(out))

    def accumulate(self, src, elem, acc, init, vals, fin):
        """value of an accumulator after the whole loop"""
        # strings: acc ++ parts
        if all(v is acc for _, v in vals):
            return init
        rows, ok_ = [], True
        for g, v in vals:
            for g2, x in case_rows(v):
                gg = frozenset(g_meet(dict(g), g2).items()) if g2 and g_meet(dict(g), g2) is not None else g
                if g2 and g_meet(dict(g), g2) is None:
                    continue
                if x is acc:
                    continue
                if x is ANY:
                    rows.append((gg, (OPEN,)))
                    continue
                if x.op == "cat" and x.a[0] is acc and all(acc not in subterms(y) for y in x.a[1:]):
                    rows.append((gg, (mk("one", cat(*x.a[1:])),)))
                    continue
                ok_ = False
        if ok_ and (rows or init.ty is not None) and (init.ty is None or models.stringy(init.ty)):
            return cat(init, self.strof(mk("seq", self.mkcomp(src, elem, _rw(tuple(rows), {acc: fin}, {})))))
        rows, ok_ = [], True
        for g, v in vals:
            if v is acc:
                continue
            if v is ANY:
                rows.append((g, (OPEN,)))
                continue
            if v.op == "seq" and v.a and v.a[0].op == "comp" and v.a[0].a[0] is acc and self.is_identity(v.a[0]) and \
                    all(acc not in subterms(y) for y in v.a[1:]):
                rows.append((g, tuple(v.a[1:])))
                continue
            ok_ = False
        if ok_:
            ss = {x: self.seq_of(x, None) for _, x in case_rows(init)}
            if all(s is not None for s in ss.values()):
                more = self.mkcomp(src, elem, _rw(tuple(rows), {acc: fin}, {}))
                return dist(init, lambda x: self.mkseq(list(ss[x].a) + [more], init.ty), init.ty)
        if all((v is acc or acc not in subterms(v)) and not any(acc in subterms(t) for t, _ in g) for g, v in vals):
            lrows = [(g, v) for g, v in vals if v is not acc]
            gs = frozenset(g_joinall([g for g, _ in lrows]))
            ex = self.mkexists(src, elem, gs)
            pk = self.mkpick("last", src, elem, gs)
            if len(lrows) == 1:
                nv = rewrite(lrows[0][1], {elem: pk})
            else:
                nv = mkcase([(frozenset((rewrite(t, {elem: pk}), d) for t, d in g), rewrite(v, {elem: pk}))
                             for g, v in lrows], init.ty)
            r = mkcase([(frozenset([(ex, ("B", True))]), nv), (frozenset([(ex, ("B", False))]), init)], init.ty) \
                if ex is not TRUE else nv
            return typed(r, init.ty)
        rows = tuple(sorted(((g, v) for g, v in vals if v is not acc), key=lambda r: (r[1].uid, g_sortkey(r[0]))))
        return typed(mk("fold", src, elem, acc, init, rows), init.ty)

    def strof(self, s):
        """concatenation of the string elements of a sequence"""
        parts = []
        for x in s.a:
            if x.op == "one":
                parts.append(x.a[0])
            else:
                y = interleaved(x) if x.op == "comp" else None
                if y is not None:
                    parts.append(typed(mk("join", mk("seq", y[0]), y[1]), STRING_TY))
                    continue
                if x.op == "comp" and x.a[0].op == "chars" and len(x.a[2]) == 1 and x.a[2][0][0] == EMPTY and \
                        x.a[2][0][1] == (mk("one", x.a[1]),):
                    parts.append(x.a[0].a[0])
                elif x.op == "comp" and not x.a[2]:
                    continue
                else:
                    parts.append(typed(mk("strof", x), STRING_TY))
        return typed(cat(*parts), STRING_TY)

    # ------------------------------------------------------------ loops in the CFG
    def find_next(self, fr, h, st):
        """cell holding the iterator that the loop header advances, if the loop is iterator-driven"""
        cfg = self.cfg(fr.fn)
        b, hops = h, 0
        s = st.copy()
        while hops < 12:
            hops += 1
            blk = fr.fn.blocks[b]
            for x in blk["s"]:
                if x[1][0] in ("setd", "other"):
                    continue
                try:
                    v = self.rvalue(s, fr, x[1], subst_ty(fr.fn.locals[x[0][0]], fr.sub) if not x[0][1] else None)
                    self.write(s, fr, x[0], v)
                except Undecided:
                    return None
            t = blk["t"]
            if t[0] == "goto":
                b = t[1]
                continue
            if t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]:
                c = t[1][1]["fn"]
                if models.norm(c["n"]) == "std::iter::Iterator::next":
                    a = self.operand(s, fr, t[2][0])
                    while a.op == "ptr":
                        v = self.load(s, a.a[0], a.a[1])
                        if v.op == "ptr":
                            a = v
                            continue
                        return a
                    return None
                # transparent calls on the way (deref of the iterator)
                return None
            return None
        return None

    def do_loop(self, fr, h, st, region):
        """returns ([(exit target, state)], [ret states])"""
        cfg = self.cfg(fr.fn)
        L = cfg.loops[h]
        exits, rets = [], []
        work = [st]
        fuel = 0
        while work:
            s = work.pop()
            fuel += 1
            if fuel > 400:
                raise Undecided(f"loop at {fr.fn.id} bb{h}")
            self.prune(fr, cfg, s, h)
            it = self.find_next(fr, h, s)
            seq = None
            if it is not None:
                v = self.load(s, it.a[0], it.a[1])
                if v.op == "case":
                    rows = []
                    for g, x in v.a[0]:
                        s2 = s.assume_g(g)
                        if s2 is not None:
                            s2 = s2.copy()
                            self.store(s2, it.a[0], it.a[1], x)
                            work.append(s2)
                    continue
                seq = self.seq_of(v)
            if self.auto is not None and seq is not None and seq.a and seq.a[0].op == "chs":
                ex, rt = auto.loop(self, fr, h, s, L, it, seq)
                exits += ex
                rets += rt
                continue
            if seq is not None and seq.a and seq.a[0].op in ("comp", "if"):
                front, rest = seq.a[0], seq.a[1:]

                def body(bs, v, it=it, front=front):
                    bs = bs.copy()
                    marker = mk("rest", it, front, self.elems_active[-1])
                    self.store(bs, it.a[0], it.a[1], mk("seq", mk("one", v), marker))
                    ex, backs, rt = self.run_region(fr, {h: [bs]}, L, h)
                    out = []
                    for s2 in self.join_states([self._pruned(fr, cfg, x, h) for x in backs]):
                        if self.load(s2, it.a[0], it.a[1]) is not mk("seq", marker):
                            raise Undecided("loop advances its own iterator")
                        s2 = s2.copy()
                        self.store(s2, it.a[0], it.a[1], mk("seq"))
                        out.append((s2, (), None))
                    for tgt, s2 in ex:
                        self.prune(fr, cfg, s2, tgt)
                        out.append((s2, (), ("x", tgt)))
                    for s2 in rt:
                        for k in [k for k in s2.mem if k[0] == fr.depth and k[1] != 0]:
                            if not any(has_ptr(v) and any(p.op == "ptr" and p.a[0] == k for p in subterms(v)) for v in s2.mem.values()):
                                del s2.mem[k]
                        out.append((s2, (), ("r",)))
                    return out
                s0 = s.copy()
                self.store(s0, it.a[0], it.a[1], mk("seq"))
                n, br = self.iterate(s0, (front,), body)
                for s2, brk in br:
                    if brk[0] == "x":
                        exits.append((brk[1], s2))
                    else:
                        rets.append(s2)
                for s2, _ in n:
                    s2 = s2.copy()
                    self.store(s2, it.a[0], it.a[1], mk("seq", *rest))
                    work.append(s2)
                continue
            # concrete iteration or a loop that is not driven by an iterator
            before = s.copy()
            np = len(self.panics)
            ex, backs, rt = self.run_region(fr, {h: [s.copy()]}, L, h)
            if it is not None and seq is not None and (not seq.a or seq.a[0].op == "one"):
                exits += ex
                rets += rt
                work += self.join_states([self._pruned(fr, cfg, x, h) for x in backs])
                continue
            if backs and (ex or rt or len(backs) > 1 or fuel > 40):
                e2, r2 = self.widen(fr, h, before, L)
                exits += e2
                rets += r2
                continue
            exits += ex
            rets += rt
            work += backs
        return exits, rets

    def _pruned(self, fr, cfg, s, b):
        self.prune(fr, cfg, s, b)
        return s

    def widen(self, fr, h, st, L):
        cfg = self.cfg(fr.fn)
        mod = {}
        for _ in range(10):
            s = st.copy()
            for c, v in mod.items():
                s.mem[c] = v
            # facts about widened terms are dropped with the terms themselves
            ex, backs, rt = self.run_region(fr, {h: [s]}, L, h)
            new = False
            for b in backs:
                self.prune(fr, cfg, b, h)
                for c, v in b.mem.items():
                    if c not in mod and s.mem.get(c) is not v:
                        old = st.mem.get(c)
                        if old is None and c[0] == fr.depth:
                            continue
                        o = old if old is not None else self.load(st, c, ())
                        mod[c] = typed(mk("wid", fr.fn.id, h, c), self.declared(c, o))
                        new = True
            if not new:
                break
        self.widened.append((fr.fn.id, h))
        return ex, rt


ANY = mk("app", "left_open")
OPEN = mk("one", ANY)


class FnRef:
    _tab = {}
    __slots__ = ("c", "a")

    @classmethod
    def get(cls, c, a):
        k = (c["id"], c.get("rid"), c.get("virt", False), a)
        r = cls._tab.get(k)
        if r is None:
            r = cls._tab[k] = cls()
            r.c, r.a = c, a
        return r

    def __repr__(self):
        return self.c["n"]


_hp = {}


def has_ptr(t):
    r = _hp.get(t)
    if r is None:
        r = t.op == "ptr" or any(has_ptr(k) for k in kids(t))
        _hp[t] = r
    return r


def has_ptr_to(t, depth):
    return has_ptr(t) and any(p.op == "ptr" and p.a[0][0] == depth for p in subterms(t))


def rw_any(x, m):
    if isinstance(x, T):
        return rewrite(x, m)
    if isinstance(x, tuple):
        return tuple(rw_any(y, m) for y in x)
    return x


def flt(x):
    return mk("float", (str(int(x)) if x == int(x) and abs(x) < 1e15 else repr(x)) + "f64")


def fold_int(op, a, b):
    if op == "Add":
        return a + b
    if op == "Sub":
        return a - b
    if op == "Mul":
        return a * b
    if op == "Div" and b != 0:
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    if op == "Rem" and b != 0:
        r = abs(a) % abs(b)
        return r if a >= 0 else -r
    if op == "BitAnd":
        return a & b
    if op == "BitOr":
        return a | b
    if op == "BitXor":
        return a ^ b
    if op == "Shl":
        return a << b
    if op == "Shr":
        return a >> b
    return None


def arith_range(op, a, b):
    if op == "Add":
        return (a[0] + b[0], a[1] + b[1])
    if op == "Sub":
        return (a[0] - b[1], a[1] - b[0])
    if op == "Mul":
        c = [x * y for x in a for y in b]
        return (min(c), max(c))
    if op == "Neg":
        return (-a[1], -a[0])
    if op == "Rem" and b[0] == b[1] and b[0] > 0:
        m = b[0] - 1
        return (0 if a[0] >= 0 else -m, m if a[1] >= 0 else 0)
    if op == "Div" and b[0] == b[1] and b[0] > 0:
        f = lambda x: fold_int("Div", x, b[0])
        return (f(a[0]), f(a[1]))
    return None

import auto, shapes
