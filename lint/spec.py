"""Comparison of summaries with specifications.

`Diff.run(facts, got, want)` decides whether two gated terms denote the same value under the given facts.
Every pair of compatible rows is compared; a mismatch is a counter-example (the facts under which the two
differ, and the two values).  A mismatch that involves the result of an operation the engine has no model
for is `unknown`, not a difference."""
import itertools
from core import *
from core import _rw
from dom import *
import eng, models


class Budget(Exception):
    pass


def is_any(t):
    return t.op == "app" and len(t.a) == 1 and t.a[0] in ("any", "left_open")


class Diff:
    def __init__(self, E, budget=60000):
        self.E = E
        self.budget = budget
        self.out = []          # (facts, got, want, unknown?, path)
        self.path = ()
        self.norm = False

    # -------------------------------------------------- entry
    def run(self, st, a, b):
        self.out = []
        if self.lone is None:
            # state carried round a loop on one side only: how it relates to the other side's data is not known
            la, lb = ({x.op for x in subterms(t)} & {"acc", "fold"} for t in (a, b))
            self.lone = bool(la) != bool(lb)
        self.go(st, a, b)
        return self.out

    lone = None

    def same(self, st, a, b):
        d = self.sub()
        try:
            r = d.run(st, a, b)
        finally:
            self.budget = d.budget
        return not r

    def nones(self, st):
        """source -> the conditions no element of it meets"""
        no = {}
        for t, d in st.f.items():
            if t.op == "exists" and d == ("B", False):
                no.setdefault(t.a[0], []).append(t)
        return no

    def prune(self, st, t, no):
        """the term without the rows of comprehensions and folds that the facts say no element reaches"""
        for _ in range(12):
            m = {}
            for x in subterms(t):
                if x.op not in ("comp", "fold"):
                    continue
                src = x.a[0]
                while src not in no and src.op in ("drop", "rev", "take", "skip"):
                    src = src.a[0]
                if src not in no:
                    continue
                e, k = x.a[1], 2 if x.op == "comp" else 4
                base = eng.St({}, {u: d for u, d in st.f.items() if e not in subterms(u) or u.op == "exists"})
                gs = [frozenset((rewrite(u, {n.a[1]: e}), d) for u, d in g) for n in no[src] for g in n.a[2]]

                def reached(s):
                    rest = [s] if s is not None else []
                    for g in gs:
                        rest = [q for r in rest for q in sub_guard(self.E, r, g)]
                        if len(rest) > 60:
                            raise Budget()
                    return rest
                try:
                    rows = tuple((g, v) for g, v in x.a[k] if reached(base.assume_g(g)))
                    if x.op == "comp" and len(rows) == 1 and rows[0][0] and rows[0][1] == (mk("one", e),) and \
                            not any(reached(q) for q in sub_guard(self.E, base, rows[0][0])):
                        rows = ((EMPTY, rows[0][1]),)
                except Budget:
                    continue
                if x.op == "fold" and all(v is x.a[2] for _, v in rows):
                    m[x] = x.a[3]
                elif rows != x.a[k]:
                    m[x] = typed(mk(x.op, *x.a[:k], rows), x.ty)
            # the smallest first: what it becomes may be the source of another
            m = {x: y for x, y in m.items() if not any(z is not x and z in subterms(x) for z in m)}
            if not m:
                break
            t = rewrite(t, m)
        return t

    def miss(self, st, a, b):
        if not self.norm:
            n = normal(st, a, b)
            if n is not None and self.nones(n[0]):
                no = self.nones(n[0])
                n = (n[0],) + tuple(self.prune(n[0], x, no) if isinstance(x, T) else x for x in n[1:])
            if n is None or self.contradiction(n[0]):
                return
            if n[0] is not st or n[1] is not a or n[2] is not b:
                self.norm = True
                try:
                    return self.go(*n)
                finally:
                    self.norm = False
        unk = self.E.small is not None and self.walks(st, a, b) or any(self.opaque_in(x) for x in (a, b) if isinstance(x, T)) or any(self.opaque_in(t) for t in st.f) or \
            self.lone and any(x.op in ("acc", "fold") for t in list(st.f) + [x for x in (a, b) if isinstance(x, T)]
                              for x in subterms(t)) or \
            any(t.op == "exists" and t.a[0].op == "app" and t.a[0].a[0] == "map_iter" and d == ("B", False) and EMPTY in t.a[2]
                for t, d in st.f.items())      # what a walk with an empty map leaves undone may be nothing
        self.out.append((st, a, b, unk, self.path))

    def walks(self, st, a, b):
        """something still walks a list whose elements are known one by one: one of the sides was read another way"""
        return any(x.op in ("comp", "fold", "loop", "exists", "pick", "elem") and self.E.countable(x.a[1] if x.op == "pick" else x.a[0])
                   for t in [*st.f, a, b] if isinstance(t, T) for x in subterms(t))

    def contradiction(self, st):
        """two facts about the same value, spelled in two ways, that exclude each other"""
        if self.no_witness(st):
            return True
        by = {}
        for t, d in st.f.items():
            if t.op in ("join", "strof", "exists", "has", "cmp", "cat") or t.op == "app":
                by.setdefault((t.op, t.a[0] if t.op in ("app", "cmp") else None, d[0]), []).append((t, d))
        for ts in by.values():
            if not 2 <= len(ts) <= 12:
                continue
            for (t, d), (u, e) in itertools.combinations(ts, 2):
                if d_empty(d_meet(d, e)):
                    s = eng.St(dict(st.mem), {x: y for x, y in st.f.items() if x is not t and x is not u})
                    k = self.sub()
                    k.norm = True
                    k.go(s, t, u)
                    self.budget = k.budget
                    if not k.out:
                        return True
        return False

    def no_witness(self, st):
        """is there an element that some facts say exists and others exclude?"""
        no, yes, live = {}, [], set()
        for t, d in st.f.items():
            if t.op == "exists" and d[0] == "B":
                if d[1]:
                    yes.append(t)
                else:
                    no.setdefault(t.a[0], []).append(t)
        if not no:
            return False
        for t in st.f:
            for x in free(t):
                if x.op == "elem" and x.a[0] in no or x.op == "pick" and x.a[1] in no:
                    live.add(x)

        def left(s, gs):
            rest = [s]
            for g in gs:
                rest = [q for r in rest for q in sub_guard(self.E, r, g)]
                if len(rest) > 60:
                    raise Budget()
            return rest

        try:
            for x in live:
                src = x.a[0] if x.op == "elem" else x.a[1]
                gs = [frozenset((rewrite(u, {n.a[1]: x}), d) for u, d in g) for n in no[src] for g in n.a[2]]
                if not left(st, gs):
                    return True
            for y in yes:
                if y.a[0] not in no:
                    continue
                gs = [frozenset((rewrite(u, {n.a[1]: y.a[1]}), d) for u, d in g) for n in no[y.a[0]] for g in n.a[2]]
                base = eng.St({}, {t: d for t, d in st.f.items() if y.a[1] not in subterms(t) or t.op == "exists"})
                if all(not left(s, gs) for s in (base.assume_g(g) for g in y.a[2]) if s is not None):
                    return True
        except Budget:
            pass
        return False

    def at(self, p, f, *args):
        keep, self.path = self.path, self.path + (p,)
        try:
            f(*args)
        finally:
            self.path = keep

    def sub(self):
        d = Diff(self.E, self.budget)
        d.trusted, d.path, d.norm, d.lone = self.trusted, self.path, self.norm, self.lone
        return d

    def opaque_in(self, t):
        for x in subterms(t):
            if x.op == "app" and isinstance(x.a[0], str) and self.unk_name(x.a[0]):
                return True
            if x.op in ("wid", "konst", "undef", "after_call", "updix", "static"):
                return True
            if x.op == "adt" and x.a[0].endswith("range::RangeFrom"):
                return True     # a counter without end
            if x.op == "after" and x.a and isinstance(x.a[0], str) and self.unk_name(x.a[0]):
                return True
        return False

    # name -> bool: may the analysis treat two calls with equal arguments as equal and different ones as different?
    trusted = None

    def unk_name(self, n):
        base = n.split("::<")[0]
        if self.trusted is not None and self.trusted(base):
            return False
        return base in self.E.opaque

    # -------------------------------------------------- simplification under facts
    def simp(self, st, t):
        """value of t under the facts (one level)"""
        if t.op == "ptr":
            t = self.E.deref_all(st, t)
        if self.E.small is not None and self.E.countable(t):
            t = self.E.seq_of(t)
        while t.op == "adt" and t.a[0].endswith("borrow::Cow") and len(t.a) == 3:
            t = t.a[2]          # owned or borrowed: the same text
        d = st.known(t)
        if d is not None:
            if d[0] == "S" and d[1] and len(d[2]) == 1:
                return S(next(iter(d[2]))) if t.ty is None or t.ty.k != "char" else mk("char", next(iter(d[2])))
            if d[0] == "B" and d[1] is not None:
                return B(d[1])
            if d[0] == "I" and len(d[1]) == 1 and d[1][0][0] == d[1][0][1]:
                return I(d[1][0][0])
        if t.ty is not None and t.ty.k == "char" and t.op != "char":
            d = st.known(models.cls_of(t))
            if d is not None and len(d[1]) == 1 and min(d[1]) < 128:
                return mk("char", chr(min(d[1])))
        if t.op == "not":
            x = self.simp(st, t.a[0])
            if x.op == "bool":
                return self.E.b_not(x)
        if t.op == "or":
            xs = [self.simp(st, x) for x in t.a]
            if TRUE in xs:
                return TRUE
            if all(x is FALSE for x in xs):
                return FALSE
        if t.op == "strof" and len(t.a) == 1 and t.a[0].op == "comp" and (not t.a[0].a[2] or self.none_of(st, t.a[0])):
            return S("")
        if t.op == "join" and all(x.op == "comp" and self.none_of(st, x) for x in t.a[0].a):
            return S("")
        if t.op == "seq" and len(t.a) == 1 and t.a[0].op == "comp" and self.E.is_identity(t.a[0]):
            pass
        return t

    def none_of(self, st, c):
        """is the sequence a comprehension walks known to be empty?"""
        return st.known(self.E.mkexists(c.a[0], c.a[1], [EMPTY])) == ("B", False)

    def unjoin(self, t):
        """a join over all elements of a sequence: (condition, first, the others each with the separator), or None"""
        if t.op != "join" or len(t.a[0].a) != 1 or t.a[0].a[0].op != "comp" or not isinstance(t.a[1], T):
            return None
        c = t.a[0].a[0]
        if len(c.a[2]) != 1 or c.a[2][0][0] != EMPTY or len(c.a[2][0][1]) != 1 or c.a[2][0][1][0].op != "one" or \
                not self.E.is_identity(mk("comp", c.a[0], c.a[1], ((EMPTY, (mk("one", c.a[1]),)),))):
            return None
        x = c.a[2][0][1][0].a[0]
        pk = typed(mk("pick", "first", c.a[0], c.a[1], frozenset([EMPTY])), c.a[1].ty)
        rest = models.tail_comp(self.E, mk("comp", c.a[0], c.a[1], ((EMPTY, (mk("one", c.a[1]),)),)))
        more = mk("comp", rest.a[0], rest.a[1], ((EMPTY, (mk("one", cat(t.a[1], rewrite(x, {c.a[1]: rest.a[1]}))),)),))
        return self.E.mkexists(c.a[0], c.a[1], [EMPTY]), rewrite(x, {c.a[1]: pk}), self.E.strof(mk("seq", more))

    # -------------------------------------------------- main recursion
    def go(self, st, a, b):
        self.budget -= 1
        if self.budget < 0:
            raise Budget()
        if a is b:
            return
        a, b = self.simp(st, a), self.simp(st, b)
        if a is b:
            return
        if a.op == "never" or b.op == "never" or is_any(a) or is_any(b):
            return
        if a.op == "case":
            for g, x in a.a[0]:
                s = st.assume_g(g)
                if s is not None:
                    self.go(s, x, b)
            return
        if b.op == "case":
            for g, y in b.a[0]:
                s = st.assume_g(g)
                if s is not None:
                    self.go(s, a, y)
            return
        if a.op in ("bool",) or b.op in ("bool",) or a.op in ("not", "or") or b.op in ("not", "or"):
            for s, x in self.E.bool_split(st, a):
                for s2, y in self.E.bool_split(s, b):
                    if x != y:
                        self.miss(s2, a, b)
            return
        if a.op == "adt" or b.op == "adt":
            return self.adt(st, a, b)
        if a.op == "tup" and b.op == "tup" and len(a.a) == len(b.a):
            for x, y in zip(a.a, b.a):
                self.go(st, x, y)
            return
        if self.strlike(a) or self.strlike(b) or (a.op == "join") != (b.op == "join"):
            return self.strs(st, self.parts(a), self.parts(b), a, b)
        if a.op == "seq" or b.op == "seq":
            sa, sb = self.E.seq_of(a), self.E.seq_of(b)
            if sa is not None and sb is not None:
                return self.segs(st, list(sa.a), list(sb.a), a, b)
        if a.op == "comp" and b.op == "comp":
            return self.comp(st, a, b)
        if a.op == "fold" and b.op == "fold":
            return self.fold(st, a, b)
        if a.op == "acc" and b.op == "acc" and a.a[1] is b.a[1]:
            self.loops(st, [a], [b])
            return
        if a.op == b.op and len(a.a) == len(b.a) and a.op not in ("str", "int", "char", "sym", "float"):
            if all(isinstance(x, T) and isinstance(y, T) or x == y for x, y in zip(a.a, b.a)):
                d = self.sub()
                for x, y in zip(a.a, b.a):
                    if isinstance(x, T):
                        d.go(st, x, y)
                self.budget = d.budget
                if not d.out:
                    return
                if all(o[3] for o in d.out):
                    self.out += d.out[:1]
                    return
                if a.op == "app" and len(a.a) > 1:
                    self.out += d.out
                    return
        self.miss(st, a, b)

    def adt(self, st, a, b):
        if a.op == "adt" and b.op == "adt":
            if a.a[0] != b.a[0] or a.a[1] != b.a[1]:
                return self.miss(st, a, b)
            for i, (x, y) in enumerate(itertools.zip_longest(a.a[2:], b.a[2:])):
                if x is None or y is None:
                    self.miss(st, a, b)
                else:
                    self.at((a.a[0], a.a[1], i), self.go, st, x, y)
            return
        flip = a.op != "adt"
        x, y = (b, a) if flip else (a, b)          # x concrete
        rec = self.E.prog.adts.get(x.a[0])
        if rec is None or "dyn " in y.ty.s if y.ty is not None and y.ty.k in ("adt", "ref", "dyn") else rec is None:
            return self.miss(st, a, b)
        if rec["k"] == "enum":
            n = len(rec["v"])
            for k in range(n):
                s = st.assume(y, ("V", frozenset([k]), n))
                if s is None:
                    continue
                if k != x.a[1]:
                    self.miss(s, a, b)
                    continue
                for i, v in enumerate(x.a[2:]):
                    p = project(y, k, i, self.fty(rec, x, k, i, v))
                    self.at((x.a[0], k, i), self.go, s, p if flip else v, v if flip else p)
        else:
            for i, v in enumerate(x.a[2:]):
                p = project(y, 0, i, self.fty(rec, x, 0, i, v))
                self.at((x.a[0], 0, i), self.go, st, p if flip else v, v if flip else p)

    def fty(self, rec, x, k, i, v):
        ft = rec["ft"][k][i] if rec["ft"] else None
        if ft is None or ft.k == "param":
            ft = v.ty
        return ft

    # -------------------------------------------------- strings
    def strlike(self, t):
        return t.op in ("str", "cat", "strof") or (t.ty is not None and models.stringy(t.ty) and t.op in ("if",))

    def parts(self, t):
        return list(t.a) if t.op == "cat" else [t]

    def strs(self, st, pa, pb, a, b):
        self.budget -= 1
        if self.budget < 0:
            raise Budget()
        pa, pb = list(pa), list(pb)
        if any(is_any(x) for x in pa) or any(is_any(x) for x in pb):
            return
        while pa or pb:
            if pa and pb and pa[0] is pb[0]:
                pa.pop(0), pb.pop(0)
                continue
            for ps in (pa, pb):
                if ps:
                    h = self.simp(st, ps[0])
                    if h.op == "cat":
                        ps[0:1] = list(h.a)
                    elif h is not ps[0]:
                        ps[0] = h
            if pa and pa[0].op == "str" and pa[0].a[0] == "":
                pa.pop(0)
                continue
            if pb and pb[0].op == "str" and pb[0].a[0] == "":
                pb.pop(0)
                continue
            if not pa and not pb:
                return
            if pa and pb and pa[0] is pb[0]:
                continue
            if pa and pb and pa[0].op == "str" and pb[0].op == "str":
                x, y = pa[0].a[0], pb[0].a[0]
                n = 0
                while n < min(len(x), len(y)) and x[n] == y[n]:
                    n += 1
                if n == 0:
                    return self.miss(st, cat(*pa), cat(*pb))
                pa[0], pb[0] = S(x[n:]), S(y[n:])
                continue
            if pa and pb and (pa[0].op == "case" or pb[0].op == "case"):
                if pa[0].op != "str" and pb[0].op != "str" and self.same(st, pa[0], pb[0]):
                    pa.pop(0), pb.pop(0)
                    continue
            one = None
            for i, ps in enumerate((pa, pb)):
                q = (pb, pa)[i]
                if ps and ps[0].op == "join" and not (q and q[0].op == "join" and len(q[0].a[0].a) == len(ps[0].a[0].a)):
                    one = self.joined(st, ps[0])
                    if one is not None:
                        for s, y in one:
                            n = list(self.parts(y)) + ps[1:]
                            self.strs(s, n if i == 0 else pa, pb if i == 0 else n, a, b)
                        return
            split = None
            if pa and pa[0].op == "case":
                split = (pa, 0)
            elif pb and pb[0].op == "case":
                split = (pb, 1)
            if split:
                ps, side = split
                for g, x in ps[0].a[0]:
                    s = st.assume_g(g)
                    if s is None:
                        continue
                    np_ = self.parts(x) + ps[1:]
                    if side == 0:
                        self.strs(s, np_, pb, a, b)
                    else:
                        self.strs(s, pa, np_, a, b)
                return
            for side, (ps, qs) in enumerate(((pa, pb), (pb, pa))):
                u = self.unjoin(ps[0]) if ps and not (qs and qs[0].op == "join") else None
                if u is None:
                    continue
                for s, y in self.E.bool_split(st, u[0]):
                    np_ = ([u[1], u[2]] if y else []) + ps[1:]
                    self.strs(s, *((np_, qs) if side == 0 else (qs, np_)), a, b)
                return
            if pa and pb:
                # a symbolic part may be the empty string or a known word
                if pa[0].op not in ("str",) and pb[0].op not in ("str",):
                    d = self.sub()
                    if pa[0].op == "strof" and pb[0].op == "strof":
                        d.comp_s(st, pa[0].a[0], pb[0].a[0])
                    else:
                        d.go2(st, pa[0], pb[0])
                    self.budget = d.budget
                    if not d.out:
                        pa.pop(0), pb.pop(0)
                        continue
                    self.out += d.out[:2]
                    return
            return self.miss(st, cat(*pa), cat(*pb))

    def comp_s(self, st, a, b):
        if a.op == "comp" and b.op == "comp":
            return self.comp(st, a, b, string=True)
        return self.go(st, a, b)

    def go2(self, st, a, b):
        """two symbolic string parts"""
        if a.op == b.op and len(a.a) == len(b.a) and a.op in ("app", "fld") and \
                all(isinstance(x, T) and isinstance(y, T) or x == y for x, y in zip(a.a, b.a)):
            for x, y in zip(a.a, b.a):
                if isinstance(x, T):
                    self.go(st, x, y)
            return
        if a.op == b.op and len(a.a) == len(b.a) and a.op == "join":
            for x, y in zip(a.a, b.a):
                if isinstance(x, T):
                    self.go(st, x, y)
                elif x != y:
                    self.miss(st, a, b)
            return
        self.miss(st, a, b)

    # -------------------------------------------------- sequences
    def segs(self, st, sa, sb, a, b, string=False):
        self.budget -= 1
        if self.budget < 0:
            raise Budget()
        sa, sb = list(sa), list(sb)
        if any(x is eng.OPEN for x in sa + sb):
            return
        while sa or sb:
            if sa and sb and sa[0] is sb[0]:
                sa.pop(0), sb.pop(0)
                continue
            for i, q in enumerate((sa, sb)):
                if q and q[0].op == "comp" and not q[0].a[2]:
                    q.pop(0)
                    break
                k = self.E.unroll(q[0]) if self.E.small is not None and q and q[0].op == "comp" else None
                if k is not None:
                    q[:1] = k
                    break
                if q and q[0].op == "if":
                    other = sb if i == 0 else sa
                    rest = [st]
                    for g, ss in q[0].a[0]:
                        s = st.assume_g(g)
                        if s is not None:
                            nq = list(ss) + q[1:]
                            self.segs(s, nq if i == 0 else other, other if i == 0 else nq, a, b, string)
                        nr = []
                        for r in rest:
                            nr += sub_guard(self.E, r, g)
                        rest = nr
                    for s in rest:
                        nq = q[1:]
                        self.segs(s, nq if i == 0 else other, other if i == 0 else nq, a, b, string)
                    return
            else:
                if sa and sb:
                    x, y = sa[0], sb[0]
                    if x.op == "one" and y.op == "one":
                        self.go(st, x.a[0], y.a[0])
                    elif x.op == "comp" and y.op == "comp":
                        self.comp(st, x, y, string)
                    else:
                        q = sa if x.op == "comp" else sb
                        k = self.only(st, q[0]) if q[0].op == "comp" else None
                        if k is None:
                            return self.miss(st, mk("seq", *sa), mk("seq", *sb))
                        q[0] = k
                        continue
                    sa.pop(0), sb.pop(0)
                    continue
                if sa or sb:
                    rest = sa or sb
                    if all(x.op == "comp" for x in rest):
                        for x in rest:
                            for g, ss in x.a[2]:
                                s = st.assume_g(g)
                                if s is not None and ss:
                                    return self.miss(s, mk("seq", *sa), mk("seq", *sb))
                        return
                    return self.miss(st, mk("seq", *sa), mk("seq", *sb))

    def only(self, st, c):
        """what a comprehension over a list known to have one element gives: the rows for its first element"""
        src, e, rows = c.a
        if self.E.irange(st, mk("len", src)) != (1, 1):
            return None
        p = typed(mk("pick", "first", src, e, frozenset([EMPTY])), e.ty)
        return mk("if", tuple((frozenset((rewrite(t, {e: p}), d) for t, d in g), tuple(rewrite(x, {e: p}) for x in ss)) for g, ss in rows))

    def joined(self, st, t):
        """a join over a list known to have one element, row by row: [(state, text)] (None: no such list)"""
        segs = t.a[0].a
        for i, c in enumerate(segs):
            k = self.only(st, c) if c.op == "comp" else None
            if k is None:
                continue
            out, rest = [], [st]
            for g, ss in k.a[0] + ((None, ()),):
                if g is None:
                    ss_ = rest
                else:
                    ss_ = [s for s in [st.assume_g(g)] if s is not None]
                    rest = [q for r in rest for q in sub_guard(self.E, r, g)]
                for s in ss_:
                    n = segs[:i] + tuple(ss) + segs[i + 1:]
                    if all(x.op == "one" for x in n):
                        y = []
                        for x in n:
                            y += [x.a[0], t.a[1]]
                        out.append((s, cat(*y[:-1])))
                    else:
                        out.append((s, typed(mk("join", mk("seq", *n), t.a[1]), t.ty)))
            return out
        return None

    def comp(self, st, a, b, string=False):
        if a is b:
            return
        if a.a[0] is not b.a[0] and not self.same(st, a.a[0], b.a[0]):
            return self.miss(st, a, b)
        if a.a[1] is not b.a[1]:
            b = rewrite(b, {b.a[1]: a.a[1]})
            b = mk("comp", a.a[0], b.a[1], b.a[2])
        ra, rb = a.a[2], self.align(st, a.a[1], a.a[2], b.a[2])
        if rb is None:
            return
        for g, ss in ra:
            s = st.assume_g(g)
            if s is None:
                continue
            rest = [s]
            for h, tt in rb:
                s2 = s.assume_g(h)
                if s2 is not None:
                    self.body(s2, ss, tt, a, b, string)
                nr = []
                for r in rest:
                    nr += sub_guard(self.E, r, h)
                rest = nr
            for r in rest:
                self.body(r, ss, (), a, b, string)
        for h, tt in rb:
            s = st.assume_g(h)
            if s is None:
                continue
            rest = [s]
            for g, ss in ra:
                nr = []
                for r in rest:
                    nr += sub_guard(self.E, r, g)
                rest = nr
            for r in rest:
                self.body(r, (), tt, a, b, string)

    def fold(self, st, a, b):
        """left folds over the same elements: same start, and the same step from any accumulator"""
        if a.a[0] is not b.a[0] and not self.same(st, a.a[0], b.a[0]):
            return self.miss(st, a, b)
        n = len(self.out)
        self.go(st, a.a[3], b.a[3])
        if len(self.out) > n:
            return
        acc = a.a[2]
        m = {}
        if b.a[1] is not a.a[1]:
            m[b.a[1]] = a.a[1]
        if b.a[2] is not acc:
            m[b.a[2]] = acc
        rb = _rw(b.a[4], m, {}) if m else b.a[4]
        rb = self.align(st, a.a[1], a.a[4], rb)
        if rb is None:
            return

        def step(rows):
            rows = [(g, v) for g, v in rows if v is not acc]
            return rows

        def rest_of(s, rows):
            return outside(self.E, s, rows)
        ra, rb = step(a.a[4]), step(rb)
        for g, x in ra:
            s = st.assume_g(g)
            if s is None:
                continue
            for h, y in rb:
                s2 = s.assume_g(h)
                if s2 is not None:
                    self.go(s2, x, y)
            for r in rest_of(s, rb):
                self.go(r, x, acc)
        for h, y in rb:
            s = st.assume_g(h)
            if s is not None:
                for r in rest_of(s, ra):
                    self.go(r, acc, y)

    # -------------------------------------------------- state carried round a loop
    def align(self, st, elem, ra, rb):
        """rows rb with the loop states they mention renamed to the matching ones of ra; None when they do not
        match (reported)"""
        def states(rows):
            return sorted({t for t in _terms(rows) if t.op == "acc" and t.a[1] is elem}, key=lambda t: t.uid)
        A, B = states(ra), states(rb)
        if all(t in A for t in B):
            return rb
        m = self.loops(st, A, [t for t in B if t not in A])
        if m is None:
            return None
        return _rw(rb, m, {})

    def loops(self, st, A, B):
        """match the states B with states in A: the same start and the same step, whatever the other states are"""
        m = {}
        for lb in sorted({t.a[2] for t in B}, key=lambda t: t.uid):
            bs = [t for t in B if t.a[2] is lb]
            best = None
            for la in sorted({t.a[2] for t in A}, key=lambda t: t.uid):
                if la.a[0] is not lb.a[0] and not self.same(st, la.a[0], lb.a[0]):
                    continue
                r = self.match_loop(st, la, lb, [t.a[0] for t in A if t.a[2] is la], [t.a[0] for t in bs])
                if r is not None and (best is None or r[0] < best[0]):
                    best = r + (la,)
            if best is None:
                # no loop of the same shape: nothing is known about how the two relate
                self.out.append((st, mk("tup", *A), mk("tup", *bs), True, self.path))
                return None
            (bad, near, pairs, why), la = best[:4], best[4]
            if bad:
                self.out.append((st, why[0], why[1], not near or any(self.opaque_in(x) for x in why if isinstance(x, T)),
                                 self.path))
                return None
            for t in bs:
                m[t] = typed(mk("acc", pairs[t.a[0]], t.a[1], la), t.ty)
        return m

    def match_loop(self, st, la, lb, ia, ib):
        """(number of states that differ, is it the same kind of loop?, pairing, an example of a difference)"""
        ea, eb = la.a[1], lb.a[1]

        def close(l, start):
            e, need, work = l.a[1], set(), list(start)
            while work:
                i = work.pop()
                if i in need:
                    continue
                need.add(i)
                ts = set()
                for g, vs in l.a[3]:
                    ts |= subterms(vs[i])
                    for t, _ in g:
                        ts |= subterms(t)
                work += [t.a[0] for t in ts if t.op == "accp" and t.a[1] is e]
            return sorted(need)
        na, nb = close(la, ia), close(lb, ib)
        if len(na) != len(nb) or len(nb) > 4:
            return None
        ty = lambda x: x.ty.s if x.ty is not None else None
        best = None
        for perm in itertools.permutations(na):
            pr = dict(zip(nb, perm))
            m = {}
            if eb is not ea:
                m[eb] = ea
            pa, pb = _accps(la), _accps(lb)
            for j, i in pr.items():
                if j in pb and i in pa:
                    m[pb[j]] = pa[i]
            rb = _rw(lb.a[3], m, {}) if m else lb.a[3]
            bad, near, why = 0, True, None
            for j, i in pr.items():
                x, y = la.a[2][i], lb.a[2][j]
                if ty(x) != ty(y) and ty(x) is not None and ty(y) is not None and \
                        not (models.stringy(x.ty) and models.stringy(y.ty)):
                    bad, near = bad + 2, False
                    continue
                d = self.sub()
                d.go(st, x, y)
                init = not d.out
                if d.out and why is None:
                    why = d.out[0][1:3]
                d2 = self.sub()
                d2.budget = d.budget
                same = pa.get(i) or accp(i, ea, None, la.a[2][i].ty)
                for g, vs in la.a[3]:
                    s = st.assume_g(g)
                    if s is None:
                        continue
                    for h, ws in rb:
                        s2 = s.assume_g(h)
                        if s2 is not None:
                            d2.go(s2, vs[i], ws[j])
                    for r in outside(self.E, s, rb):
                        d2.go(r, vs[i], same)
                for h, ws in rb:
                    s = st.assume_g(h)
                    if s is not None:
                        for r in outside(self.E, s, la.a[3]):
                            d2.go(r, same, ws[j])
                self.budget = d2.budget
                if d2.out and why is None:
                    why = d2.out[0][1:3]
                if init and not d2.out:
                    continue
                bad += 1
                if d2.out:
                    va, vb = {vs[i] for _, vs in la.a[3]}, {ws[j] for _, ws in rb}
                    if not init or 2 * len(va & vb) < min(len(va), len(vb)):
                        near = False
            if best is None or (bad, not near) < (best[0], not best[1]):
                best = (bad, near, pr, why)
            if not bad:
                break
        return best

    def body(self, st, ss, tt, a, b, string):
        if string and all(x.op == "one" for x in ss) and all(x.op == "one" for x in tt):
            return self.go(st, cat(*[x.a[0] for x in ss]), cat(*[x.a[0] for x in tt]))
        if string:
            ss, tt = spelled(ss), spelled(tt)
        self.segs(st, ss, tt, a, b, string)


def spelled(segs):
    """the pieces of a text: loops inside a piece as loops, everything between them in one piece"""
    out, run = [], []

    def flush():
        if run:
            out.append(mk("one", cat(*run)))
            run.clear()
    for x in segs:
        for y in (x.a[0].a if x.op == "one" and x.a[0].op == "cat" else (x.a[0],) if x.op == "one" else (x,)):
            if y is x and x.op != "one":
                flush()
                out.append(x)
            elif y.op == "strof":
                flush()
                out.append(y.a[0])
            else:
                run.append(y)
    flush()
    return tuple(out)


_free = {}


def free(t):
    """the elements and picks a term mentions outside the comprehensions that bind them"""
    r = _free.get(t)
    if r is None:
        r = set()
        if t.op in BINDERS:
            b = BINDERS[t.op]
            for i, x in enumerate(t.a):
                r |= _frees(x) if i < b else _frees(x) - {t.a[b]}
        else:
            for x in t.a:
                r |= _frees(x)
        if t.op in ("elem", "pick"):
            r.add(t)
        r = _free[t] = frozenset(r)
    return r


def _frees(x):
    if isinstance(x, T):
        return free(x)
    out = set()
    if isinstance(x, (tuple, frozenset)):
        for y in x:
            out |= _frees(y)
    return out


def _terms(x):
    if isinstance(x, T):
        return subterms(x)
    out = set()
    if isinstance(x, (tuple, frozenset)):
        for y in x:
            out |= _terms(y)
    return out


def _accps(l):
    return {t.a[0]: t for t in _terms(l.a[3]) if t.op == "accp" and t.a[1] is l.a[1]}


def feasible(st):
    """a picked element satisfies one of the guards it was picked by"""
    seen = set()
    for t in st.f:
        for x in subterms(t):
            if x.op == "pick" and x not in seen:
                seen.add(x)
                mode, src, elem, gs = x.a
                if EMPTY in gs:
                    continue
                for g in gs:
                    if st.assume_g([(rewrite(u, {elem: x}), d) for u, d in g]) is not None:
                        break
                else:
                    return False
    return True


def normal(st, a, b):
    """one more look at a difference: equal spellings of the same thing under the facts; None if the facts
    exclude each other"""
    if not feasible(st):
        return None
    for _ in range(4):
        m = {}
        ts = set()
        for t in list(st.f) + [x for x in (a, b) if isinstance(x, T)]:
            ts |= subterms(t)
        nohas = {(t.a[0], t.a[1]) for t, d in st.f.items() if t.op == "has" and d == ("B", False)}
        nowhere = [t for t, d in st.f.items() if t.op == "exists" and d == ("B", False)]
        for x in ts:
            if x.op in ("pick", "exists") and nowhere:
                # alternatives that no element meets
                src, gs = (x.a[1], x.a[3]) if x.op == "pick" else (x.a[0], x.a[2])
                left = [g for g in gs if not any(y is not x and y.a[0] is src and any(h and h <= g for h in y.a[2]) for y in nowhere)]
                if left and len(left) < len(gs):
                    m[x] = typed(mk("pick", x.a[0], src, x.a[2], frozenset(left)) if x.op == "pick" else
                                 mk("exists", src, x.a[1], frozenset(left)), x.ty)
                    continue
            if x.op == "app" and x.a[0] == "abs":
                d = st.known(x.a[1])
                if d is not None and d[0] == "I" and d[1] and d[1][0][0] >= 0:
                    m[x] = x.a[1]           # of a number that is not negative
                    continue
            if x.op == "pick" and x.a[1].op == "split" and EMPTY in x.a[3] and x.a[1].a[:2] in nohas:
                m[x] = x.a[1].a[0]
            elif x.op == "past" and x.a[0] == "rfind":
                sp = mk("split", x.a[1], x.a[2])
                for y in ts:
                    if y.op == "pick" and y.a[0] == "last" and y.a[1] is sp and EMPTY in y.a[3]:
                        m[x] = y
            elif x.op == "before" and x.a[0] == "find":
                sp = mk("split", x.a[1], x.a[2])
                for y in ts:
                    if y.op == "pick" and y.a[0] == "first" and y.a[1] is sp and EMPTY in y.a[3]:
                        m[x] = y
        if not m:
            for t, d in st.f.items():
                if t.op == "cmp" and t.a[0] == "Eq" and d == ("B", True) and isinstance(t.a[1], T) and isinstance(t.a[2], T):
                    x, y = t.a[1], t.a[2]
                    if x.uid < y.uid:
                        x, y = y, x
                    if x.op not in ("str", "int", "char") and x not in subterms(y) and x.op != "elem":
                        if any(x in subterms(u) for u in st.f if u is not t) or \
                                any(isinstance(u, T) and x in subterms(u) for u in (a, b)):
                            m[x] = y
                            break
        if not m:
            break
        s = eng.St(dict(st.mem), {})
        for t, d in st.f.items():
            u = rewrite(t, m)
            if u.op == "cmp" and u.a[1] is u.a[2]:
                if (u.a[0] in ("Eq", "Le", "Ge")) != (d == ("B", True)):
                    return None
                if t.op == "cmp" and d == ("B", True):
                    s = s.assume(t, d) or s
                continue
            if u.op == "bool":
                if (u is TRUE) != (d == ("B", True)):
                    return None
                continue
            s = s.assume(u, d)
            if s is None:
                return None
        same = st, a, b
        st = st if s.f == st.f else s
        a = rewrite(a, m) if isinstance(a, T) else a
        b = rewrite(b, m) if isinstance(b, T) else b
        if same == (st, a, b):
            break
    if not feasible(st):
        return None
    return st, a, b


def sub_guard(E, st, g):
    """the states of st outside the conjunction g, as disjoint states"""
    out, cur = [], st
    for t, d in g:
        if cur is None:
            break
        full = None
        if d[0] == "I":
            full = eng.INTK.get(t.ty.k) if t.ty is not None else None
            full = full or (-2 ** 127, 2 ** 127)
        c = d_compl(d, full)
        if c is not None:
            s = cur.assume(t, c)
            if s is not None:
                out.append(s)
        cur = cur.assume(t, d)
    return out


def outside(E, s, rows):
    """the states of s that no row covers"""
    rest = [s]
    for g, _ in rows:
        rest = [q for r in rest for q in sub_guard(E, r, g)]
        if len(rest) > 400:
            raise Budget()
    return rest


# ------------------------------------------------------------------ running functions
def symarg(name, ty, st, i, prog):
    t = ty.a[0] if ty.k == "ref" else ty
    v = typed(mk("sym", name, t.s), t)
    if ty.k == "ref" and (ty.m or not prog.freeze(t)):
        cell = ("arg", i, name)
        st.mem[cell] = v
        return mk("ptr", cell, ())
    return v


def summarize(E, fn, st, sub=(), args=None, names=None):
    """one gated value for a function: (value, end states)"""
    if args is None:
        args = []
        for i in range(fn.argc):
            nm = (names[i] if names else None) or fn.names.get(i + 1, f"a{i}")
            args.append(symarg(nm, fn.locals[i + 1], st, i, E.prog))
    rs = E.run_fn(fn, args, st, sub)
    rows = []
    base = st.f
    for s, v in rs:
        g = frozenset((t, d) for t, d in s.f.items() if base.get(t) != d)
        rows.append((g, E.deep(s, v)))
    val = mkcase(rows, fn.locals[0]) if rows else mk("never")
    return val, rs, args


def tag(n):
    return typed(mk("app", "tag", n), STR_TY)


def attr(n, k):
    return typed(mk("app", "attr", n, S(k)), models.OPTSTR)


def isv(t, k, n=2):
    return (t, ("V", frozenset([k]), n))


def ins(t, *words):
    return (t, ("S", True, frozenset(words)))


def notin(t, *words):
    return (t, ("S", False, frozenset(words)))


def G(*facts):
    return frozenset(facts)


def payload(o, ty=None):
    return project(o, 1, 0, ty or (o.ty.a[0] if o.ty is not None and o.ty.a else None))


def case(*rows, ty=None):
    return mkcase([(frozenset(g), v) for g, v in rows], ty)


def describe(d, n=2):
    out = []
    for st, a, b, unk in d[:n]:
        out.append(f"when {show_guard(frozenset(st.f.items()))[:700]}: code gives {show(a, 7)[:300]}, expected {show(b, 7)[:300]}")
    return " || ".join(out)
