"""Finite fact domains over terms, guards (conjunctions of facts) and gated values (`case` terms)."""
from core import *
import chars

class Mixed(Exception):
    pass


# ---- domains:  ('V', frozenset(variants), n) | ('B', bool) | ('S', positive?, frozenset) | ('I', ((lo,hi),...))
STOP = ("S", False, frozenset())


def d_meet(a, b):
    if a is None:
        return b
    if b is None:
        return a
    k = a[0]
    if k != b[0]:
        raise Mixed(f"facts of kinds {k} and {b[0]} about one term")
    if k == "V":
        return ("V", a[1] & b[1], a[2])
    if k == "B":
        return a if a == b else ("B", None)
    if k == "S":
        if a[1] and b[1]:
            return ("S", True, a[2] & b[2])
        if a[1]:
            return ("S", True, a[2] - b[2])
        if b[1]:
            return ("S", True, b[2] - a[2])
        return ("S", False, a[2] | b[2])
    if k == "I":
        out = []
        for lo, hi in a[1]:
            for l2, h2 in b[1]:
                l, h = max(lo, l2), min(hi, h2)
                if l <= h:
                    out.append((l, h))
        return ("I", tuple(out))
    raise AssertionError(a)


def d_empty(d):
    k = d[0]
    if k == "V":
        return not d[1]
    if k == "B":
        return d[1] is None
    if k == "S":
        return d[1] and not d[2]
    return not d[1]


def d_union(a, b):
    """None = top"""
    if a is None or b is None:
        return None
    k = a[0]
    if k == "V":
        u = a[1] | b[1]
        return None if len(u) >= a[2] else ("V", u, a[2])
    if k == "B":
        return a if a == b else None
    if k == "S":
        if a[1] and b[1]:
            return ("S", True, a[2] | b[2])
        if a[1]:
            r = ("S", False, b[2] - a[2])
        elif b[1]:
            r = ("S", False, a[2] - b[2])
        else:
            r = ("S", False, a[2] & b[2])
        return None if not r[2] else r
    iv = sorted(a[1] + b[1])
    out = []
    for lo, hi in iv:
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(hi, out[-1][1]))
        else:
            out.append((lo, hi))
    return ("I", tuple(out))


def d_compl(d, full=None):
    """complement (None when empty)"""
    k = d[0]
    if k == "V":
        r = ("V", frozenset(range(d[2])) - d[1], d[2])
    elif k == "B":
        r = ("B", not d[1])
    elif k == "S":
        r = ("S", not d[1], d[2])
    else:
        out, p = [], full[0]
        for lo, hi in d[1]:
            if p <= lo - 1:
                out.append((p, lo - 1))
            p = hi + 1
        if p <= full[1]:
            out.append((p, full[1]))
        r = ("I", tuple(out))
    return None if d_empty(r) else r


def d_sub(a, b):
    """a implies b"""
    return d_meet(a, b) == a


def show_dom(d):
    k = d[0]
    if k == "V":
        if d[2] == chars.N:
            return chars.show(d[1])
        return "v" + str(sorted(d[1]))
    if k == "B":
        return str(d[1])
    if k == "S":
        return ("in " if d[1] else "not in ") + "{" + ",".join(repr(x) for x in sorted(d[2])[:6]) + (
            ",..%d" % len(d[2]) if len(d[2]) > 6 else "") + "}"
    return "[" + ",".join(f"{a}..{b}" for a, b in d[1]) + "]"


# ---- guards: frozenset of (term, dom)
EMPTY = frozenset()


def g_dict(g):
    return dict(g)


def g_meet(f, g):
    """f: dict; g: iterable of (t, d) -> new dict or None"""
    out = None
    for t, d in g:
        o = (out or f).get(t)
        n = d if o is None else d_meet(o, d)
        if d_empty(n):
            return None
        if n != o:
            if out is None:
                out = dict(f)
            out[t] = n
    return f if out is None else out


def g_join1(a, b):
    """exact union of two guards when they differ in one term (or one subsumes the other)"""
    if a == b:
        return a
    if a <= b:
        return a
    if b <= a:
        return b
    da, db = dict(a), dict(b)
    diff = None
    for t in set(da) | set(db):
        if da.get(t) != db.get(t):
            if t not in da or t not in db:
                # subsumption modulo weaker domains
                return _subs(da, db, a, b)
            if diff is not None:
                return _subs(da, db, a, b)
            diff = t
    u = d_union(da[diff], db[diff])
    out = dict(da)
    if u is None:
        del out[diff]
    else:
        out[diff] = u
    return frozenset(out.items())


def _subs(da, db, a, b):
    def implies(x, y):      # x => y
        for t, d in y.items():
            if t not in x or not d_sub(x[t], d):
                return False
        return True
    if implies(da, db):
        return b
    if implies(db, da):
        return a
    return None


def g_joinall(gs):
    """exact simplification of a disjunction of guards"""
    gs = list(dict.fromkeys(gs))
    if len(gs) > 60:
        # bucket by all-but-one term first
        pass
    ch = True
    while ch and len(gs) > 1:
        ch = False
        for i in range(len(gs)):
            for j in range(i + 1, len(gs)):
                u = g_join1(gs[i], gs[j])
                if u is not None:
                    gs[i] = u
                    del gs[j]
                    ch = True
                    break
            if ch:
                break
    return gs


def g_sortkey(g):
    return tuple(sorted((t.uid, repr(d) if d[0] != "S" else (d[1], tuple(sorted(d[2])))) .__repr__() for t, d in g))


def show_guard(g):
    return " & ".join(sorted(f"{show(t, 5)} {show_dom(d)}" for t, d in g)) or "always"


# ---- case terms
def has_case(t):
    s = t._hc
    if s is None:
        s = t.op == "case" or any(has_case(k) for k in kids(t))
        t._hc = s
    return s


def kids(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, (tuple, frozenset)):
            yield from _kids_in(x)


def _kids_in(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, (tuple, frozenset)):
            yield from _kids_in(y)


def mkcase(rows, ty=None):
    """rows: iterable of (guard frozenset, value)"""
    flat = []
    for g, v in rows:
        if v.op == "case":
            base = dict(g)
            for g2, v2 in v.a[0]:
                m = g_meet(base, g2)
                if m is not None:
                    flat.append((frozenset(m.items()), v2))
        else:
            flat.append((g, v))
    if not flat:
        return mk("never")
    by = {}
    for g, v in flat:
        by.setdefault(v, []).append(g)
    if len(by) == 1:
        return next(iter(by))
    out = []
    for v, gs in by.items():
        for g in g_joinall(gs):
            out.append((g, v))
    out.sort(key=lambda r: (r[1].uid, g_sortkey(r[0])))
    t = mk("case", tuple(out))
    return typed(t, ty or next((v.ty for _, v in out if v.ty), None))


def case_rows(v):
    return v.a[0] if v.op == "case" else ((EMPTY, v),)


def dist(v, f, ty=None):
    """apply f to every row of a gated value"""
    if v.op != "case":
        return f(v)
    rows = []
    for g, x in v.a[0]:
        y = f(x)
        if y is not None and y.op != "bad":
            rows.append((g, y))
    return mkcase(rows, ty) if rows else mk("bad")


def dist2(a, b, f):
    if a.op == "case":
        return dist(a, lambda x: dist2(x, b, f))
    if b.op == "case":
        return dist(b, lambda y: f(a, y))
    return f(a, b)
