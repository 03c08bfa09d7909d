"""Shapes of strings: an unknown text is a row of blocks (any number of characters of a known class) and single
characters, refined by splitting a block at its first or last character of a class.  Every refinement is a fact of the
state, so that two functions reading the same text are compared on the same partition of all texts.

Terms:  blk(name)                an unknown text
        bpre/bhit/bpost(X,Q,d)   the parts of block X around its first (d='l') or last (d='r') character of class Q
        bat(X,i)                 character i of a block whose length is known
        shp(x, ...)              characters and blocks in a row
Fact:   brk(X,Q,d)               does X hold a character of class Q
Lengths are those in bytes, as sums of len(block) and clen(character)."""
import chars, eng, models
from core import *
from dom import *

BLOCKS = ("blk", "bpre", "bpost", "bcl", "bcr")
CHARS = ("char", "bhit", "bat")
MANY = 6            # occurrences of a separator told apart
BIG = 2 ** 56        # more bytes than an address space holds
NUM = mkty("i128", s="i128")
Q_NON = chars.NONASCII


class Split(Exception):
    """a value depends on how a text is taken apart"""

    def __init__(self, st, rows):
        super().__init__()
        self.facts, self.rows = st.f, rows


def on():
    return "shapes" in eng.AXIOMS


def root(name):
    return typed(mk("blk", name), STR_TY)


def active(t):
    return t.op in BLOCKS or t.op == "shp" or t.op == "cat" and any(active(p) for p in t.a)


def brk(x, q, d):
    return typed(mk("brk", x, q, d), BOOL_TY)


def pre(x, q, d):
    return typed(mk("bpre", x, q, d), STR_TY)


def hit(x, q, d):
    return typed(mk("bhit", x, q, d), CHAR_TY)


def post(x, q, d):
    return typed(mk("bpost", x, q, d), STR_TY)


def bcut(x, k, d):
    """x is cut k bytes from its left (right) end"""
    return typed(mk("bcut", x, k, d), BOOL_TY)


def bcl(x, k, d):
    return typed(mk("bcl", x, k, d), STR_TY)


def bcr(x, k, d):
    return typed(mk("bcr", x, k, d), STR_TY)


def at(x, i):
    return typed(mk("bat", x, i), CHAR_TY)


def clen(c):
    return typed(mk("clen", c), USIZE_TY)


def blen(x):
    return typed(mk("len", x), USIZE_TY)


# ------------------------------------------------------------------ what a state says
class Index:
    __slots__ = ("f", "no", "yes", "cons", "rng", "cls", "cut")

    def __init__(self, f):
        self.f, self.no, self.yes, self.cons, self.rng, self.cls, self.cut = f, {}, {}, None, None, {}, {}
        for t, d in f.items():
            if t.op == "brk":
                if d[1]:
                    o = self.yes.get(t.a[0])
                    if o is None or t.uid < o[0]:
                        self.yes[t.a[0]] = (t.uid, t.a[1], t.a[2])
                else:
                    self.no.setdefault(t.a[0], []).append(t.a[1])
            elif t.op == "bcut" and d[1]:
                self.cut[t.a[0]] = (t.a[1], t.a[2])


_ix = {}


def index(st):
    i = _ix.get(id(st.f))
    if i is None or i.f is not st.f:
        if len(_ix) > 4000:
            _ix.clear()
        i = _ix[id(st.f)] = Index(st.f)
    return i


def reset():
    _ix.clear()


def tangled(st):
    """is a part split in two ways? (then what is known of it is incomplete)"""
    seen = set()
    for t, d in st.f.items():
        if t.op in ("brk", "bcut") and d[1]:
            if t.a[0] in seen:
                return True
            seen.add(t.a[0])
    return False


def block_cls(st, x):
    ix = index(st)
    r = ix.cls.get(x)
    if r is None:
        if x.op == "blk":
            r = chars.ALL
        else:
            r = block_cls(st, x.a[0])
            if (x.op, x.a[2]) in (("bpre", "l"), ("bpost", "r")):
                r = r - x.a[1]
        for q in ix.no.get(x, ()):
            r = r - q
        ix.cls[x] = r
    return r


def born(st, c):
    """class of a character by construction"""
    if c.op == "char":
        return frozenset([chars.cls(c.a[0])])
    if c.op == "bhit":
        return block_cls(st, c.a[0]) & c.a[1]
    if c.op == "bat":
        return block_cls(st, c.a[0])
    return chars.ALL


def char_cls(st, c):
    r = born(st, c)
    d = st.f.get(models.cls_of(c))
    return r & d[1] if d is not None else r


def lit(st, c):
    if c.op != "char":
        k = char_cls(st, c)
        if len(k) == 1:
            n = next(iter(k))
            if n < 128:
                return mk("char", chr(n))
    return c


def leaves(st, x):
    """the parts of a block by the splits made so far (lengths not used)"""
    if x.op not in BLOCKS:
        return [lit(st, x)]
    y = index(st).yes.get(x)
    if y is not None:
        _, q, d = y
        return leaves(st, pre(x, q, d)) + [lit(st, hit(x, q, d))] + leaves(st, post(x, q, d))
    y = index(st).cut.get(x)
    if y is not None:
        return leaves(st, bcl(x, *y)) + leaves(st, bcr(x, *y))
    return [x] if block_cls(st, x) else []


def linear(st, t, out, f=1, ds=False):
    """sum of lengths over the parts (and of digits); None when it is something else"""
    if t.op == "int":
        return t.a[0] * f
    if t.op == "arith" and t.a[0] in ("Add", "Sub"):
        a = linear(st, t.a[1], out, f, ds)
        b = linear(st, t.a[2], out, f if t.a[0] == "Add" else -f, ds)
        return None if a is None or b is None else a + b
    if t.op == "arith" and t.a[0] == "Mul" and t.a[2].op == "int":
        return linear(st, t.a[1], out, f * t.a[2].a[0], ds)
    if ds and t.op == "icast" and t.a[0].op == "digit":
        t = t.a[0]
    if ds and t.op == "digit" and t.a[1].op == "int" and t.a[0].op in CHARS:
        c = lit(st, t.a[0])
        if c.op == "char":
            return int(c.a[0], t.a[1].a[0]) * f if c.a[0].isalnum() and c.a[0].isascii() else None
        v = mk("digit", c, t.a[1])
        out[v] = out.get(v, 0) + f
        return 0
    if t.op == "len" and active(t.a[0]):
        k = 0
        for p in parts0(st, t.a[0]):
            k += len1(st, p, out, f)
        return k
    if t.op == "clen":
        return len1(st, lit(st, t.a[0]), out, f)
    if t.op == "nchars":
        k = 0
        for p in parts0(st, t.a[0]):
            if p.op not in BLOCKS:
                k += f
            elif block_cls(st, p) <= chars.ASCII:
                k += len1(st, p, out, f)
            else:
                v = nch(p)
                out[v] = out.get(v, 0) + f
        return k
    return None


def nch(x):
    """number of characters of a block that may have others than ASCII"""
    return typed(mk("nchars", x), USIZE_TY)


def parts0(st, t):
    if t.op in BLOCKS:
        return leaves(st, t)
    if t.op in CHARS:
        return [lit(st, t)]
    if t.op == "str":
        return [mk("char", c) for c in t.a[0]]
    if t.op in ("shp", "cat"):
        return [y for p in t.a for y in parts0(st, p)]
    raise eng.Undecided(f"text built from {t.op}")


def len1(st, p, out, f):
    if p.op in BLOCKS:
        v = blen(p)
    elif p.op == "char":
        return len(p.a[0].encode()) * f
    elif char_cls(st, p) <= chars.ASCII:
        return f
    else:
        v = clen(p)
    out[v] = out.get(v, 0) + f
    return 0


def constraints(st):
    """facts about lengths: (coefficients, constant, intervals)"""
    ix = index(st)
    if ix.cons is None:
        ix.cons = []
        for t, d in st.f.items():
            if d[0] == "I" and t.op in SUMS:
                co = {}
                k = linear(st, t, co, ds=True)
                if k is None:
                    continue
                co = {v: n for v, n in co.items() if n}
                ix.cons.append((co, k, d[1]))
        for v in {v for co, _, _ in ix.cons for v in co if v.op == "nchars"}:
            w = blen(v.a[0])
            ix.cons.append(({w: 1, v: -1}, 0, ((0, BIG),)))
            ix.cons.append(({v: 4, w: -1}, 0, ((0, 4 * BIG),)))
    return ix.cons


SUMS = ("len", "clen", "nchars", "arith", "digit", "icast")


def start(st, v):
    if v.op == "digit":
        ds = digit_values(st, v)
        return [min(ds), max(ds)] if ds else [0, 35]
    if v.op == "clen":
        k = char_cls(st, v.a[0])
        return [1 if k & chars.ASCII else 2, 4 if k & Q_NON else 1]
    k = block_cls(st, v.a[0])
    return [0, BIG if k else 0]


def ranges(st):
    """bounds of the lengths of the parts, by propagation; None when there are none"""
    ix = index(st)
    if ix.rng is not None:
        return ix.rng or None if ix.rng != "no" else None
    b = {}
    cons = constraints(st)
    for co, k, iv in cons:
        for v in co:
            if v not in b:
                b[v] = start(st, v)
    ok = True
    for _ in range(60):
        ch = False
        for co, k, iv in cons:
            lo = k + sum(n * b[v][0 if n > 0 else 1] for v, n in co.items())
            hi = k + sum(n * b[v][1 if n > 0 else 0] for v, n in co.items())
            keep = [(max(lo, l), min(hi, h)) for l, h in iv if max(lo, l) <= min(hi, h)]
            if not keep:
                ok = False
                break
            lo2, hi2 = keep[0][0], keep[-1][1]
            for v, n in co.items():
                # n*v in [lo2 - (hi - own hi), hi2 - (lo - own lo)]
                ol, oh = (n * b[v][0], n * b[v][1]) if n > 0 else (n * b[v][1], n * b[v][0])
                l, h = lo2 - (hi - oh), hi2 - (lo - ol)
                if n > 0:
                    nl, nh = -((-l) // n), h // n
                else:
                    nl, nh = -((-h) // n), l // n
                nl, nh = max(nl, b[v][0]), min(nh, b[v][1])
                if nl > nh:
                    ok = False
                    break
                if [nl, nh] != b[v]:
                    b[v] = [nl, nh]
                    ch = True
                    # keep lo, hi of this row in step
                    lo = k + sum(m * b[w][0 if m > 0 else 1] for w, m in co.items())
                    hi = k + sum(m * b[w][1 if m > 0 else 0] for w, m in co.items())
            if not ok:
                break
        if not ok or not ch:
            break
    if not ok:
        ix.rng = "no"
        return None
    ix.rng = b or {None: None}
    return ix.rng


def consistent(st):
    return ranges(st) is not None


def range_of(st, v):
    r = ranges(st)
    if r is None:
        return start(st, v)
    return r.get(v) or start(st, v)


def bound(st, t):
    """range of a sum of lengths, or None"""
    co = {}
    k = linear(st, t, co)
    if k is None:
        return None
    lo = hi = k
    for v, n in co.items():
        l, h = range_of(st, v)
        lo += n * (l if n > 0 else h)
        hi += n * (h if n > 0 else l)
    own = {v: n for v, n in co.items() if n}
    for c2, k2, iv in constraints(st):
        if c2 == own:
            lo, hi = max(lo, iv[0][0] - k2 + k), min(hi, iv[-1][1] - k2 + k)
        elif c2 == {v: -n for v, n in own.items()}:
            lo, hi = max(lo, k + k2 - iv[-1][1]), min(hi, k + k2 - iv[0][0])
    return lo, hi


def parts(st, t):
    """the parts of a text: blocks of known length are taken apart"""
    out = []
    for p in parts0(st, t):
        if p.op in BLOCKS:
            l, h = range_of(st, blen(p))
            if h == 0:
                continue
            if l == h and h <= 40 and block_cls(st, p) <= chars.ASCII:
                out += [lit(st, at(p, i)) for i in range(h)]
                continue
        out.append(p)
    return out


def shp(segs):
    if all(s.op == "char" for s in segs):
        return typed(S("".join(s.a[0] for s in segs)), STR_TY)
    if len(segs) == 1 and segs[0].op in BLOCKS:
        return segs[0]
    return typed(mk("shp", *segs), STR_TY)


def size(st, segs, ty=USIZE_TY):
    co, k = {}, 0
    for p in segs:
        k += len1(st, p, co, 1)
    return unlin(co, k, ty)


def digit_values(st, t):
    return [int(chr(o), 36) for o in char_cls(st, t.a[0]) if o < 128 and chr(o).isalnum() and int(chr(o), 36) < t.a[1].a[0]]


# ------------------------------------------------------------------ hooks of the engine
def axiom(st, t):
    if t.op == "brk":
        if not (block_cls(st, t.a[0]) & t.a[1]) and st.f.get(t) is None:
            return ("B", False)
    elif t.op == "app" and t.a[0] == "cls" and t.a[1].op in ("bhit", "bat"):
        return ("V", born(st, t.a[1]), chars.N)
    elif t.op == "digit" and t.a[0].op in CHARS and t.a[1].op == "int":
        ds = digit_values(st, t)
        if ds:
            return ("I", ((min(ds), max(ds)),))
    return None


def refuted(st, t):
    if t.op in ("brk", "bcut") or t.op in SUMS or t.op == "app" and t.a[0] == "cls":
        return not consistent(st)
    return False


def lens_in(t):
    if t.op == "arith":
        return any(isinstance(x, T) and lens_in(x) for x in t.a[1:])
    return t.op == "clen" or t.op in ("len", "nchars") and active(t.a[0])


def renorm(st, t):
    """a sum of lengths over the parts known now"""
    if not lens_in(t):
        return t
    co = {}
    k = linear(st, t, co)
    if k is None:
        return t
    for v in list(co):
        l, h = range_of(st, v)
        if l == h:
            k += co.pop(v) * l
    return unlin(co, k, t.ty if t.ty is not None else USIZE_TY) or t


def diff(st, a, b):
    """a - b when both are sums of lengths"""
    co = {}
    x, y = linear(st, a, co), linear(st, b, co, -1)
    if x is None or y is None:
        return None
    k = x + y
    for v in list(co):
        l, h = range_of(st, v)
        if l == h:
            k += co.pop(v) * l
    co = {v: n for v, n in co.items() if n}
    if co and min(co.items(), key=lambda x: x[0].uid)[1] < 0:
        return {v: -n for v, n in co.items()}, -k, True
    return co, k, False


# ------------------------------------------------------------------ splitting
def char_split(st, c, q):
    """[(state, is c in q)]"""
    if c.op == "char":
        return [(st, chars.cls(c.a[0]) in q)]
    t = models.cls_of(c)
    out = []
    for s, y in ((st.assume(t, ("V", q, chars.N)), True), (st.assume(t, ("V", chars.ALL - q, chars.N)), False)):
        if s is not None:
            out.append((s, y))
    return out


def has(st, x, q, d):
    out = []
    t = brk(x, q, d)
    for y in (True, False):
        s = st.assume(t, ("B", y))
        if s is not None:
            out.append((s, y))
    return out


def first(st, segs, q, d="l"):
    """[(state, parts before, the character, parts after) or (state, None, None, None)]: the first (last) of class q"""
    out = []

    def go(s, done, rest):
        if not rest:
            out.append((s, None, None, None))
            return
        x, rest = (rest[0], rest[1:]) if d == "l" else (rest[-1], rest[:-1])

        def emit(s2, b, c, a):
            if d == "l":
                out.append((s2, done + b, c, a + rest))
            else:
                out.append((s2, rest + b, c, a + done))
        if x.op in CHARS:
            for s2, y in char_split(s, x, q):
                if y:
                    emit(s2, [], lit(s2, x), [])
                else:
                    go(s2, done + [x] if d == "l" else [x] + done, rest)
            return
        if not block_cls(s, x) & q:
            go(s, done + [x] if d == "l" else [x] + done, rest)
            return
        for s2, y in has(s, x, q, d):
            if y:
                emit(s2, parts(s2, pre(x, q, d)), lit(s2, hit(x, q, d)), parts(s2, post(x, q, d)))
            else:
                k = parts(s2, x)
                go(s2, done + k if d == "l" else k + done, rest)
    go(st, [], list(segs))
    return out


def fresh(st, segs):
    return [y for p in segs for y in parts(st, p)]


def end(st, segs, d="l"):
    """[(state, character or None, rest)]: the character at one end"""
    for s, b, c, a in first(st, segs, chars.ALL, d):
        if c is None:
            yield s, None, []
        else:
            yield s, c, fresh(s, b + a)


def equals(st, segs, w):
    """[(state, bool)]"""
    segs = fresh(st, segs)
    out = []
    total = bound(st, size(st, segs)) if segs else (0, 0)
    n = len(w.encode())
    if total is not None and not (total[0] <= n <= total[1]):
        return [(st, False)]
    for s, c, rest in end(st, segs):
        if c is None:
            out.append((s, not w))
        elif not w:
            out.append((s, False))
        else:
            for s2, y in is_char(s, c, w[0]):
                if y:
                    out += equals(s2, rest, w[1:])
                else:
                    out.append((s2, False))
    return out


def is_char(st, c, w):
    if ord(w) >= 128:
        raise eng.Undecided("a character outside ASCII is looked for")
    return char_split(st, c, frozenset([ord(w)]))


def word_split(st, v, d):
    """[(state, bool)]: is the text v in the set of words d"""
    _, pos, ws = d
    out, todo = [], [st]
    for w in sorted(ws):
        nxt = []
        for s in todo:
            for s2, y in equals(s, parts(s, v), w):
                if y:
                    out.append((s2, pos))
                else:
                    nxt.append(s2)
        todo = nxt
    return out + [(s, not pos) for s in todo]


# ------------------------------------------------------------------ patterns
def char_class(E, fr, st, p, line, byte=False):
    """the class of characters a pattern stands for, or the word it stands for"""
    p = E.deref_all(st, p)
    if p.op == "char":
        return one_char(p.a[0])
    if p.op == "str":
        if len(p.a[0]) == 1:
            return one_char(p.a[0])
        return p.a[0]
    s = E.seq_of(p, CHAR_TY) if p.op not in ("clo", "fn") else None
    if s is not None and all(x.op == "one" for x in s.a):
        r = frozenset()
        for x in s.a:
            x = E.deref_all(st, x.a[0])
            if x.op != "char":
                raise eng.Undecided("pattern")
            r |= one_char(x.a[0])
        return r
    if p.op not in ("clo", "fn"):
        raise eng.Undecided(f"pattern {show(p, 3)}")
    return closure_class(E, fr, st, p, line, byte)


def one_char(c):
    if ord(c) >= 128:
        raise eng.Undecided("a character outside ASCII is looked for")
    return frozenset([ord(c)])


def closure_class(E, fr, st, p, line, byte=False, ref=False, pair=False):
    if byte:
        u8 = mkty("u8", s="u8")
        r, high = set(), set()
        for n in range(256):
            vs = {v for s, v in E.call_closure(fr, st, p, [typed(I(n), u8)], BOOL_TY, line)}
            if len(vs) != 1 or next(iter(vs)) not in (TRUE, FALSE):
                raise eng.Undecided("predicate on bytes")
            y = vs.pop() is TRUE
            if n < 128:
                if y:
                    r.add(n)
            else:
                high.add(y)
        if len(high) != 1:
            raise eng.Undecided("predicate on bytes")
        return frozenset(r) | (chars.NONASCII if high.pop() else frozenset())
    x = typed(mk("sym", "?char"), CHAR_TY)
    at_ = typed(mk("sym", "?at"), USIZE_TY)
    k = models.cls_of(x)
    q = frozenset()
    for s, v in E.call_closure(fr, st, p, [tup(at_, x) if pair else x], BOOL_TY, line):
        for s2, y in E.bool_split(s, v):
            for t, d in s2.f.items():
                if t is not k and st.f.get(t) != d and (x in subterms(t) or at_ in subterms(t)):
                    raise eng.Undecided("predicate on characters")
            if y:
                d = s2.f.get(k)
                q |= d[1] if d is not None else chars.ALL
    return q


# ------------------------------------------------------------------ positions
def locate(E, st, segs, e):
    """[(state, left, right) or (state, None, None)]: the text cut at byte e; None: past the end or inside a character"""
    segs = fresh(st, segs)
    base = {}
    k = linear(st, e, base)
    if k is None:
        raise eng.Undecided(f"position {show(e, 4)}")
    best = None
    co, c = {}, 0
    for i in range(len(segs) + 1):
        d = dict(base)
        for v, n in co.items():
            d[v] = d.get(v, 0) - n
        z = k - c
        for v in list(d):
            if d[v] == 0:
                del d[v]
                continue
            l, h = range_of(st, v)
            if l == h:
                z += d.pop(v) * l
        if not d and (best is None or abs(z) < abs(best[0])):
            best = (z, i)
        if i < len(segs):
            c += len1(st, segs[i], co, 1)
    if best is None:
        raise eng.Undecided(f"position {show(e, 4)}")
    z, i = best
    if z == 0:
        return [(st, segs[:i], segs[i:])]
    if z > 0:
        return walk(st, segs[:i], segs[i:], z, "l")
    return walk(st, segs[:i], segs[i:], -z, "r")


def walk(st, left, right, k, d, slow=False):
    if k == 0:
        return [(st, left, right)]
    src = right if d == "l" else left
    out = []
    x = (src[0] if d == "l" else src[-1]) if src else None
    if not slow and x is not None and x.op in BLOCKS and k > 3 and not block_cls(st, x) <= chars.ASCII:
        return byte_cut(st, left, right, x, k, d)
    for s, c, rest in end(st, src, d):
        if c is None:
            out.append((s, None, None))
            continue
        for s2, y in char_split(s, c, chars.ASCII):
            opts = [(s2, 1)]
            if not y:
                opts = []
                for n in (2, 3, 4):
                    s3 = s2.assume(clen(c), ("I", ((n, n),)))
                    if s3 is not None:
                        opts.append((s3, n))
            for s3, n in opts:
                if n > k:
                    out.append((s3, None, None))
                elif d == "l":
                    out += walk(s3, fresh(s3, left + [c]), fresh(s3, rest), k - n, d, slow)
                else:
                    out += walk(s3, fresh(s3, rest), fresh(s3, [c] + right), k - n, d, slow)
    return out


def byte_cut(st, left, right, x, k, d):
    """cut a block of any characters k bytes from its end"""
    out = []
    n = blen(x)
    s = st.assume(n, ("I", ((0, k - 1),)))
    if s is not None:
        if len(right if d == "l" else left) > 1:
            out += walk(s, left, right, k, d, True)
        else:
            out.append((s, None, None))
    s = st.assume(n, ("I", ((k, BIG),)))
    if s is None:
        return out
    t = bcut(x, k, d)
    z = s.assume(t, ("B", False))
    if z is not None and consistent(z):
        out.append((z, None, None))
    s = s.assume(t, ("B", True))
    if s is None:
        return out
    a, b = bcl(x, k, d), bcr(x, k, d)
    s = s.assume(blen(a if d == "l" else b), ("I", ((k, k),)))
    if s is None:
        return out
    if d == "l":
        out.append((s, fresh(s, left + [a]), fresh(s, [b] + right[1:])))
    else:
        out.append((s, fresh(s, left[:-1] + [a]), fresh(s, [b] + right)))
    return out


# ------------------------------------------------------------------ numbers
NONDIGIT = chars.ALL - chars.PRED["is_ascii_digit"]


def digits_value(E, st, segs, t, neg=False):
    """the number written by decimal digits, when its size is known: (state, value) or None"""
    if not segs or any(s.op in BLOCKS for s in segs):
        return None
    n = len(segs)
    if 10 ** n - 1 > INTK[t.k][1]:
        return None
    return typed(number(st, segs, t), t)


def number(st, segs, t):
    co, k = {}, 0
    for i, c in enumerate(segs):
        f = 10 ** (len(segs) - 1 - i)
        if c.op == "char":
            k += f * int(c.a[0])
        else:
            v = digit(c, t)
            co[v] = co.get(v, 0) + f
    return unlin(co, k, t)


U32 = mkty("u32", s="u32")


def digit(c, t):
    d = typed(mk("digit", c, I(10)), U32)
    return d if t.k == "u32" else typed(mk("icast", d, t.k), t)


def parse_int(E, st, segs, t):
    """[(state, value or None)]: str::parse of an integer type"""
    signed = t.k[0] == "i"
    sign = frozenset([ord("+")] + ([ord("-")] if signed else []))
    out = []

    def body(s, segs, neg):
        segs = fresh(s, segs)
        for s2, b, c, a in first(s, segs, NONDIGIT):
            if c is not None:
                out.append((s2, None))
                continue
            ds = fresh(s2, segs)
            states = [s2]
            if not any(x.op in CHARS for x in ds):
                states = []
                for s3, y in equals(s2, ds, ""):
                    if y:
                        out.append((s3, None))
                    else:
                        states.append(s3)
            for s3 in states:
                ds = fresh(s3, ds)
                v = digits_value(E, s3, ds, t)
                if v is None:
                    w = shp(ds)
                    fits = typed(mk("app", "fits", S(t.k), B(neg), w), BOOL_TY)
                    s4 = s3.assume(fits, ("B", False))
                    if s4 is not None:
                        out.append((s4, None))
                    s3 = s3.assume(fits, ("B", True))
                    if s3 is None:
                        continue
                    v = typed(mk("app", "decimal", S(t.k), w), t)
                    hi = INTK[t.k][1]
                    s3 = s3.assume(v, ("I", ((0, hi),)))
                    if s3 is None:
                        continue
                if neg:
                    v = mkmul(v, -1, t)
                out.append((s3, v))
    segs = fresh(st, segs)
    if segs and (segs[0].op in CHARS or block_cls(st, segs[0]) & sign):
        for s, c, rest in end(st, segs):
            if c is None:
                out.append((s, None))
                continue
            for s2, y in char_split(s, c, sign):
                if not y:
                    body(s2, [c] + rest, False)
                elif not signed:
                    body(s2, rest, False)
                else:
                    for s3, m in is_char(s2, c, "-"):
                        body(s3, rest, m)
    else:
        body(st, segs, False)
    return out


# ------------------------------------------------------------------ one form for every term of a state
def canon(st, t, memo=None):
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    r = _canon(st, t, memo)
    memo[t] = r
    return r


def _canon(st, t, memo):
    if t.op in CHARS:
        return lit(st, t)
    if active(t) and t.op != "cat":
        return shp(parts(st, t))
    if lens_in(t):
        u = renorm(st, t)
        if u is not t:
            return u
    if t.op == "digit" and t.a[1].op == "int":
        c = lit(st, t.a[0])
        if c.op == "char":
            return typed(I(int(c.a[0], 36)), t.ty)
        return typed(mk("digit", c, t.a[1]), t.ty)
    if t.op == "app" and t.a[0] in ("decimal", "fits"):
        w = parts(st, t.a[-1])
        k = mkty(t.a[1].a[0], s=t.a[1].a[0])
        v = digits_value(None, st, w, k)
        if v is not None:
            return v if t.a[0] == "decimal" else TRUE
        return typed(mk("app", *t.a[:-1], shp(w)), t.ty)
    if t.op in ("str", "int", "char", "bool", "sym", "brk", "fn"):
        return t

    def go(x):
        if isinstance(x, T):
            return canon(st, x, memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    a = tuple(go(x) for x in t.a)
    if t.op == "icast" and a[0].op == "int":
        return typed(I(a[0].a[0]), t.ty)
    if t.op == "arith" and t.ty is not None and t.ty.k in INTK:
        if a[0] in ("Add", "Sub"):
            r = mksum(a[1], a[2], 1 if a[0] == "Add" else -1, t.ty)
            if r is not None:
                return r
        if a[0] == "Mul" and a[2].op == "int":
            return mkmul(a[1], a[2].a[0], t.ty)
        if a[0] == "Mul" and a[1].op == "int":
            return mkmul(a[2], a[1].a[0], t.ty)
    if t.op == "cat":
        return typed(cat(*a), t.ty)
    if a == t.a:
        return t
    r = mk(t.op, *a)
    return typed(r, t.ty) if t.ty is not None else r


STRUCT = ("brk", "bcut", "clen")


def settle(E, st):
    """the state with its facts in the form of its own splits; None when they contradict each other"""
    for _ in range(4):
        if not consistent(st):
            return None
        s = eng.St(dict(st.mem), {t: d for t, d in st.f.items() if t.op in STRUCT or t.op == "app" and t.a[0] == "cls"
                                  or d[0] == "I" and lens_in(t)})
        memo = {}
        for t, d in st.f.items():
            if t in s.f:
                continue
            u = canon(st, t, memo)
            if u.op in ("int", "str", "char", "bool"):
                b = E.member(u, d) if u.op != "bool" else B((u is TRUE) == d[1])
                if b is FALSE:
                    return None
                if b is TRUE:
                    continue
            if d[0] == "I" and u.op == "arith":
                b = E.member(u, d)
                if b.op == "cmpi":
                    u, d = b.a[0], ("I", b.a[1])
                lo, hi = E.irange(s, u)
                if all(h < lo or l > hi for l, h in d[1]):
                    return None
            s = s.assume(u, d)
            if s is None:
                return None
        if s.f == st.f:
            return s
        st = s
    return st


# ------------------------------------------------------------------ models of the operations on texts
M = models.M
SREF = mkty("ref", a=(STR_TY,), s="&str")


def over(*names):
    """replace a string model where the text has a shape"""
    def deco(f):
        for n in names:
            for k in ("str::" + n, "std::string::String::" + n):
                M[k] = wrapped(M.get(k), f)
        return f
    return deco


def wrapped(old, f):
    def g(E, fr, st, c, args):
        if on() and args:
            v = E.deref_all(st, args[0])
            if v.op == "case" and any(textual(x) for _, x in v.a[0]) or textual(v):
                def row(s, x):
                    if active(x):
                        return f(E, fr, s, c, x, args)
                    if x.op == "str":
                        try:
                            return f(E, fr, s, c, x, args)
                        except eng.Undecided:
                            pass
                    r = old(E, fr, s, c, [x] + list(args[1:])) if old else None
                    if r is None:
                        raise eng.Undecided(f"{c.c['n']} of {x.op}")
                    return r
                return models.per_row(E, st, v, row)
        return old(E, fr, st, c, args) if old else None
    return g


def textual(x):
    return x.op == "str" or active(x)


def meth(c):
    return models.norm(c.c["n"]).split("::")[-1]


@over("len")
def h_len(E, fr, st, c, x, args):
    return [(st, renorm(st, size(st, parts(st, x))))]


@over("is_empty")
def h_is_empty(E, fr, st, c, x, args):
    return [(s, B(y)) for s, y in equals(st, parts(st, x), "")]


@over("is_ascii")
def h_is_ascii(E, fr, st, c, x, args):
    return [(s, B(k is None)) for s, b, k, a in first(st, parts(st, x), Q_NON)]


def single(w):
    if not isinstance(w, frozenset):
        raise eng.Undecided("a word is looked for")
    return w


@over("contains")
def h_contains(E, fr, st, c, x, args):
    q = char_class(E, fr, st, args[1], c.line)
    if q == "":
        return [(st, TRUE)]
    return [(s, B(k is not None)) for s, b, k, a in first(st, parts(st, x), single(q))]


def affixes(E, fr, st, x, p, line, d):
    """[(state, rest or None)]"""
    q = char_class(E, fr, st, p, line)
    if isinstance(q, frozenset):
        out = []
        for s, c, rest in end(st, parts(st, x), d):
            if c is None:
                out.append((s, None))
            else:
                out += [(s2, fresh(s2, rest) if y else None) for s2, y in char_split(s, c, q)]
        return out
    todo, out = [(st, parts(st, x))], []
    for w in (q if d == "l" else reversed(q)):
        nxt = []
        for s, segs in todo:
            for s2, c, rest in end(s, segs, d):
                if c is None:
                    out.append((s2, None))
                    continue
                for s3, y in is_char(s2, c, w):
                    if y:
                        nxt.append((s3, fresh(s3, rest)))
                    else:
                        out.append((s3, None))
        todo = nxt
    return out + todo


@over("starts_with", "ends_with")
def h_affix(E, fr, st, c, x, args):
    d = "l" if meth(c) == "starts_with" else "r"
    return [(s, B(r is not None)) for s, r in affixes(E, fr, st, x, args[1], c.line, d)]


@over("strip_prefix", "strip_suffix")
def h_strip(E, fr, st, c, x, args):
    d = "l" if meth(c) == "strip_prefix" else "r"
    return [(s, NONE_(c) if r is None else some(shp(r))) for s, r in affixes(E, fr, st, x, args[1], c.line, d)]


def NONE_(c):
    return models.NONE


@over("trim_start_matches", "trim_end_matches", "trim_matches", "trim_left_matches", "trim_right_matches")
def h_trim(E, fr, st, c, x, args):
    """the text without the characters of a class at its ends"""
    n = meth(c)
    q = single(char_class(E, fr, st, args[1], c.line))
    return trimmed(st, x, q, n not in ("trim_end_matches", "trim_right_matches"), n not in ("trim_start_matches", "trim_left_matches"))


@over("trim", "trim_start", "trim_end")
def h_trim_ws(E, fr, st, c, x, args):
    n = meth(c)
    return trimmed(st, x, chars.PRED["is_whitespace"], n != "trim_end", n != "trim_start")


def trimmed(st, x, q, left, right):
    rest = chars.ALL - q
    out = []
    todo = [(st, parts(st, x))]
    for d in ("l",) * left + ("r",) * right:
        nxt = []
        for s, segs in todo:
            for s2, b, k, a in first(s, segs, rest, d):
                if k is None:
                    nxt.append((s2, []))
                else:
                    nxt.append((s2, fresh(s2, [k] + a if d == "l" else b + [k])))
        todo = nxt
    return [(s, shp(fresh(s, r))) for s, r in todo]


def occurrences(st, segs, q, d, n):
    """[(state, texts between, characters, whether there may be more)]: the first n characters of class q"""
    out = []

    def go(s, done, hits, rest, k):
        # done: the texts already cut off, nearest to the end d first
        if k == 0:
            out.append((s, done + [rest], hits, True))
            return
        for s2, b, c, a in first(s, rest, q, d):
            if c is None:
                out.append((s2, done + [fresh(s2, rest)], hits, False))
            elif d == "l":
                go(s2, done + [b], hits + [c], a, k - 1)
            else:
                go(s2, done + [a], hits + [c], b, k - 1)
    go(st, [], [], segs, n)
    return out


def more_left(st, segs, q):
    """may characters of class q be left"""
    for p in segs:
        if (block_cls(st, p) if p.op in BLOCKS else char_cls(st, p)) & q:
            return True
    return False


def rest_item(E, what, segs, q):
    return mk("chs", what, shp(segs), q)


@over("matches", "match_indices", "rmatches", "rmatch_indices")
def h_matches(E, fr, st, c, x, args):
    n = meth(c)
    d = "r" if n[0] == "r" else "l"
    q = single(char_class(E, fr, st, args[1], c.line))
    out = []
    for s, texts, hits, more in occurrences(st, parts(st, x), q, d, MANY):
        items = []
        pos = []
        whole = fresh(s, parts(s, x))
        for i, h in enumerate(hits):
            h = lit(s, h)
            v = typed(shp([h]), STR_TY)
            if n.endswith("indices"):
                if d == "l":
                    before = [y for j in range(i) for y in texts[j] + [hits[j]]] + texts[i]
                    k = size(s, fresh(s, before))
                else:
                    after = [y for j in range(i) for y in [hits[j]] + texts[j]] + texts[i] + [h]
                    k = mksum(size(s, whole), size(s, fresh(s, after)), -1, USIZE_TY)
                v = tup(k, v)
            items.append(mk("one", v))
        if more and more_left(s, texts[-1], q):
            items.append(rest_item(E, n, texts[-1], q))
        out.append((s, mk("seq", *items)))
    return out


@over("find", "rfind")
def h_find(E, fr, st, c, x, args):
    d = "r" if meth(c) == "rfind" else "l"
    q = char_class(E, fr, st, args[1], c.line)
    if not isinstance(q, frozenset):
        raise eng.Undecided("a word is looked for")
    out = []
    for s, b, k, a in first(st, parts(st, x), q, d):
        out.append((s, models.NONE if k is None else some(size(s, fresh(s, b)))))
    return out


@over("split_once", "rsplit_once")
def h_split_once(E, fr, st, c, x, args):
    d = "r" if meth(c)[0] == "r" else "l"
    q = single(char_class(E, fr, st, args[1], c.line))
    out = []
    for s, b, k, a in first(st, parts(st, x), q, d):
        out.append((s, models.NONE if k is None else some(tup(shp(fresh(s, b)), shp(fresh(s, a))))))
    return out


@over("split", "rsplit", "splitn", "rsplitn", "split_terminator", "split_inclusive")
def h_split(E, fr, st, c, x, args):
    n = meth(c)
    if n in ("split_terminator", "split_inclusive"):
        raise eng.Undecided(n)
    d = "r" if n[0] == "r" else "l"
    lim = MANY
    pa = args[1]
    exact = False
    if n.endswith("n"):
        pa = args[2]
        if args[1].op != "int" or args[1].a[0] < 1:
            raise eng.Undecided(n)
        if args[1].a[0] - 1 <= MANY:
            lim, exact = args[1].a[0] - 1, True
    q = single(char_class(E, fr, st, pa, c.line))
    out = []
    for s, texts, hits, more in occurrences(st, parts(st, x), q, d, lim):
        items = [mk("one", shp(fresh(s, t))) for t in texts]
        if more and not exact and more_left(s, texts[-1], q):
            items[-1] = rest_item(E, "split", texts[-1], q)
        out.append((s, mk("seq", *items)))
    return out


@over("chars", "char_indices", "bytes")
def h_chars(E, fr, st, c, x, args):
    n = meth(c)
    ps = parts(st, x)
    items = []
    for i, p in enumerate(ps):
        if p.op in BLOCKS:
            items.append(mk("chs", n, p, tuple(ps[:i])))
        elif n == "chars":
            items.append(mk("one", p))
        elif n == "bytes":
            items += as_items([p], n, st)
        else:
            items.append(mk("one", tup(size(st, ps[:i]), p)))
    return [(st, mk("seq", *items))]


U8 = mkty("u8", s="u8")


def byte(c):
    """the byte of an ASCII character"""
    return typed(I(ord(c.a[0])), U8) if c.op == "char" else typed(mk("app", "byte", c), U8)


def byte_fact(d):
    return ("V", frozenset(n for n in range(128) if any(l <= n <= h for l, h in d[1])), chars.N)


def byte_range(st, t):
    if t.a[0] == "byteof":
        return (128, 255)
    k = [n for n in char_cls(st, t.a[1]) if n < 128]
    return (min(k), max(k)) if k else (0, 127)


def digit_of(st, a, b):
    """the digit that is the difference between a byte (or character code) and '0'"""
    c = a.a[0] if a.op in ("icast", "trunc") else a
    c = c.a[1] if c.op == "app" and c.a[0] == "byte" else c
    if c.op not in CHARS or b.op != "int" or b.a[0] != 48 or a.ty is None or a.ty.k not in INTK:
        return None
    if not char_cls(st, c) <= chars.PRED["is_ascii_digit"]:
        return None
    d = typed(mk("digit", lit(st, c), I(10)), U32)
    if lit(st, c).op == "char":
        return typed(I(int(lit(st, c).a[0])), a.ty)
    return d if a.ty.k == "u32" else typed(mk("icast", d, a.ty.k), a.ty)


def u8_model(cls):
    def f(E, fr, st, c, args):
        def one(x):
            if x.op == "int":
                return B(x.a[0] in cls)
            if x.op == "app" and x.a[0] == "byte":
                return models.char_in(E, x.a[1], cls)
            if x.op == "app" and x.a[0] == "byteof":
                return FALSE
            return typed(mk("app", c.c["n"], x), BOOL_TY)
        return [(st, dist(E.deref_all(st, args[0]), one, BOOL_TY))]
    return f


for _n, _c in chars.PRED.items():
    if _n.startswith("is_ascii"):
        M["u8::" + _n] = M["core::num::<impl u8>::" + _n] = u8_model(_c & chars.ASCII)


@over("as_bytes", "into_bytes")
def h_as_bytes(E, fr, st, c, x, args):
    return [(st, E.mkseq(as_items(parts(st, x), "bytes", st)))]


@over("is_char_boundary")
def h_boundary(E, fr, st, c, x, args):
    return [(s, B(l is not None)) for s, l, r in locate(E, st, parts(st, x), renorm(st, args[1]))]


def cut(E, st, x, lo, hi):
    """[(state, text or None)]: the slice lo..hi"""
    out = []
    todo = [(st, parts(st, x))]
    if hi is not None:
        todo = []
        for s, l, r in locate(E, st, parts(st, x), hi):
            if l is None:
                out.append((s, None))
            else:
                todo.append((s, l))
    for s, segs in todo:
        segs = fresh(s, segs)
        if lo.op == "int" and lo.a[0] == 0:
            out.append((s, shp(segs)))
            continue
        for s2, l, r in locate(E, s, segs, lo):
            out.append((s2, None if l is None else shp(fresh(s2, r))))
    return out


@over("split_at", "split_at_checked")
def h_split_at(E, fr, st, c, x, args):
    out = []
    for s, l, r in locate(E, st, parts(st, x), args[1]):
        if l is None:
            if meth(c) == "split_at":
                E.panic(s, fr, c.line, "str-slice", "split_at")
            else:
                out.append((s, models.NONE))
        else:
            v = tup(shp(fresh(s, l)), shp(fresh(s, r)))
            out.append((s, v if meth(c) == "split_at" else some(v)))
    return out


def slice_model(old):
    def g(E, fr, st, c, s0, rng, panics):
        if not on():
            return old(E, fr, st, c, s0, rng, panics)
        it = c.a[1] if len(c.a) > 1 else rng.ty
        if not panics:
            it = c.a[0] if c.a else rng.ty
        r = E.deref_all(st, rng)

        def f(s_, x):
            if not active(x):
                return old(E, fr, s_, c, x, rng, panics)
            if it is None or it.k != "adt":
                raise eng.Undecided("slice")
            lo, hi = models.range_of(r, it, None) if not it.id.endswith(("RangeFrom", "RangeFull")) else (
                (project(r, 0, 0, USIZE_TY), None) if it.id.endswith("RangeFrom") else (I(0), None))
            out = []
            los = lo.a[0] if lo.op == "case" else ((EMPTY, lo),)
            his = hi.a[0] if hi is not None and hi.op == "case" else ((EMPTY, hi),)
            for g1, l in los:
                s1 = s_.assume_g(g1)
                if s1 is None:
                    continue
                for g2, h in his:
                    s2 = s1.assume_g(g2)
                    if s2 is None:
                        continue
                    for s3, v in cut(E, s2, x, l, h):
                        if v is None:
                            if panics:
                                E.panic(s3, fr, c.line, "str-slice", f"{show(l, 3)}..{show(h, 3) if h is not None else ''}")
                            else:
                                out.append((s3, models.NONE))
                        else:
                            out.append((s3, v if panics else some(v)))
            return out
        return models.per_row(E, st, s0, f)
    return g


EMPTY = frozenset()
models.str_slice = slice_model(models.str_slice)


def parse_model(old):
    def g(E, fr, st, c, args):
        if on() and args:
            t = c.a[0] if c.a else None
            v = E.deref_all(st, args[0])
            if t is not None and t.k in INTK and (active(v) or v.op == "case" and any(active(x) for _, x in v.a[0])):
                def f(s, x):
                    if not active(x):
                        return old(E, fr, s, c, [x])
                    return [(s2, err(typed(mk("app", "parse-error", shp(parts(s2, x))), None)) if n is None else ok(n))
                            for s2, n in parse_int(E, s, parts(s, x), t)]
                return models.per_row(E, st, v, f)
        return old(E, fr, st, c, args)
    return g


models.s_parse = parse_model(models.s_parse)
for _k in ("str::parse", "std::string::String::parse"):
    M[_k] = lambda E, fr, st, c, args: models.s_parse(E, fr, st, c, args)
for _k in ("repeat", "replace", "lines", "split_whitespace", "split_ascii_whitespace", "to_lowercase", "to_uppercase",
           "to_ascii_lowercase", "to_ascii_uppercase", "push_str", "push", "insert_str", "insert", "eq_ignore_ascii_case"):
    if _k in ("push_str", "push", "insert_str", "insert"):
        continue

    def _no(E, fr, st, c, x, args):
        if meth(c) == "replace":
            segs, q, w = parts(st, x), char_class(E, fr, st, args[1], c.line), E.deref_all(st, args[2])
            if all(y.op in CHARS for y in segs) and isinstance(q, frozenset) and w.op == "str":
                cur = [(st, [])]
                for y in segs:
                    cur = [(s2, out + ([mk("char", k) for k in w.a[0]] if hit_ else [lit(s2, y)]))
                           for s, out in cur for s2, hit_ in char_split(s, y, q)]
                return [(s, shp(out)) for s, out in cur]
        raise eng.Undecided(meth(c) + " of a text read in part")
    over(_k)(_no)


# ------------------------------------------------------------------ parsers of chrono
BOOL_ = mkty("bool", s="bool")


def outside(name, what, form):
    """an error for a text without the form of the parser, otherwise an unknown answer that depends on the text"""
    def g(E, fr, st, c, args):
        if not on():
            return None
        x = E.deref_all(st, args[0])
        if x.op == "case":
            return None
        if form is not None:
            f = E.deref_all(st, args[1])
            if f.op != "str" or f.a[0] != form:
                return None
        fn = E.prog.fns.get("types_spec::parse::" + what)
        if fn is None or not textual(x):
            return None
        out = []
        for s, b in E.invoke(fr, st, fn, [x], (), BOOL_, c.line):
            for s2, y in E.bool_split(s, b):
                if y:
                    # what follows depends on the text, however it is taken apart
                    out += E.opaque_call(fr, s2, name, [shp(parts(s2, x))] + [E.deref_all(s2, z) for z in args[1:]], c.rty, c.line)
                else:
                    out.append((s2, err(typed(mk("app", "parse-error", shp(parts(s2, x))), None))))
        return out
    return g


for _n, _w, _f in (("NaiveDate::parse_from_str", "form_date", "%Y-%m-%d"), ("NaiveTime::parse_from_str", "form_time", "%H:%M:%S"),
                   ("DateTime::parse_from_rfc3339", "form_rfc3339", None)):
    for _p in ("chrono::", "chrono::naive::", "chrono::naive::date::", "chrono::naive::time::", "chrono::datetime::"):
        M[_p + _n] = outside("chrono::" + _n, _w, _f)


# ------------------------------------------------------------------ iterators over the characters of blocks
def it_over(*names):
    def deco(f):
        for n in names:
            for pre_ in ("std::iter::Iterator::", "std::iter::DoubleEndedIterator::"):
                k = pre_ + n
                old = M.get(k)

                def g(E, fr, st, c, args, old=old):
                    if on():
                        for s, q, p in models.get_seq(E, st, args[0], models.self_ty(c)):
                            if any(x.op == "chs" for x in q.a):
                                rows = []
                                for s2, q2, p2 in models.get_seq(E, st, args[0], models.self_ty(c)):
                                    if any(x.op == "chs" for x in q2.a):
                                        rows += f(E, fr, s2, c, q2, p2, args)
                                    else:
                                        rows += old(E, fr, s2, c, args if p2 is not None else [q2] + list(args[1:]))
                                return rows
                    return old(E, fr, st, c, args) if old else None
                M[k] = g
        return f
    return deco


def items(E, st, q, kind="chars"):
    """the characters and blocks of an iterator over characters"""
    out = []
    for x in q.a:
        if x.op == "one":
            v = E.deref_all(st, x.a[0])
            if kind == "bytes" and v.op == "app" and v.a[0] == "byte":
                v = v.a[1]
            elif kind == "bytes" and v.op == "int":
                v = mk("char", chr(v.a[0]))
            if v.op not in CHARS:
                raise eng.Undecided("mixed iterator")
            out.append(v)
        elif x.op == "chs" and x.a[0] == kind:
            out.append(x.a[1])
        else:
            raise eng.Undecided("iterator over " + x.op)
    return out


def kind_of(q):
    ks = {x.a[0] for x in q.a if x.op == "chs"}
    if len(ks) != 1:
        raise eng.Undecided("mixed iterator")
    return ks.pop()


@it_over("all", "any")
def h_all(E, fr, st, c, q, p, args):
    kind = kind_of(q)
    if kind not in ("chars", "bytes"):
        raise eng.Undecided("iterator over " + kind)
    w = closure_class(E, fr, st, E.deref_all(st, args[1]), c.line, kind == "bytes")
    isany = meth(c) == "any"
    out = []
    for s, b, k, a in first(st, items(E, st, q, kind), w if isany else chars.ALL - w):
        out.append((s, B((k is not None) == isany)))
    return out


def as_items(ps, kind="chars", st=None):
    return [mk("chs", kind, x, ()) if x.op in BLOCKS or kind == "bytes" and not (st is not None and char_cls(st, x) <= chars.ASCII)
            else mk("one", x if kind == "chars" else byte(x)) for x in ps]


def ascii_first(st, c):
    """[(state, is it ASCII)]"""
    return char_split(st, c, chars.ASCII)


def item_at(E, st, q, i, ty):
    """the i-th byte or character, by cases"""
    kind = kind_of(q)
    if i.op != "int" or kind not in ("chars", "bytes") or i.a[0] > 8:
        raise eng.Undecided("an item of a text")
    out = []
    todo = [(st, items(E, st, q, kind), i.a[0])]
    while todo:
        s, segs, n = todo.pop()
        for s2, c, rest in end(s, fresh(s, segs)):
            if c is None:
                continue
            if kind == "chars":
                if n == 0:
                    out.append((s2, c))
                else:
                    todo.append((s2, rest, n - 1))
                continue
            for s3, y in ascii_first(s2, c):
                if y:
                    if n == 0:
                        out.append((s3, byte(lit(s3, c))))
                    else:
                        todo.append((s3, rest, n - 1))
                    continue
                for m in (2, 3, 4):
                    s4 = s3.assume(clen(c), ("I", ((m, m),)))
                    if s4 is None:
                        continue
                    if n < m:
                        out.append((s4, typed(mk("app", "byteof", c, I(n)), U8)))
                    else:
                        todo.append((s4, rest, n - m))
        if len(out) + len(todo) > 400:
            raise eng.Undecided("an item of a text")
    rows = [(s.f, v) for s, v in out if consistent(s)]
    if not rows:
        raise eng.Undecided("an item of a text")
    if len(rows) == 1 and rows[0][0] == st.f:
        return rows[0][1]
    raise Split(st, [dict(f) for f, _ in rows])


@it_over("next", "next_back", "last")
def h_next(E, fr, st, c, q, p, args):
    kind = kind_of(q)
    if kind not in ("chars", "bytes") and not (q.a[0].op == "one" and meth(c) == "next"):
        raise eng.Undecided("iterator over " + kind)
    if q.a[0].op == "one" and meth(c) == "next":
        s = st.copy()
        if p is not None:
            E.store(s, p.a[0], p.a[1], mk("seq", *q.a[1:]))
        return [(s, some(q.a[0].a[0]))]
    out = []
    for s, k, rest in end(st, items(E, st, q, kind), "l" if meth(c) == "next" else "r"):
        opts = [(s, None)]
        if k is not None and kind == "bytes":
            opts = ascii_first(s, k)
        for s, y in opts:
            if y is False:
                raise eng.Undecided("bytes of a character outside ASCII")
            s = s.copy()
            if p is not None:
                E.store(s, p.a[0], p.a[1], mk("seq", *as_items(rest, kind, s)))
            out.append((s, models.NONE if k is None else some(k if kind == "chars" else byte(lit(s, k)))))
    return out


def count(q):
    """how many items, of which the last may stand for those that were not told apart"""
    k = kind_of(q)
    if k in ("chars", "bytes"):
        ps = []
        for x in q.a:
            y = x.a[1] if x.op == "chs" else x.a[0]
            if y.op == "app" and y.a[0] == "byte":
                y = y.a[1]
            elif k == "bytes" and y.op == "int":
                y = mk("char", chr(y.a[0]))
            if y.op not in CHARS and y.op not in BLOCKS:
                raise eng.Undecided("number of characters")
            ps.append(y)
        return typed(mk("len" if k == "bytes" else "nchars", shp(ps)), USIZE_TY)
    if k == "char_indices":
        return typed(mk("nchars", shp([x.a[1] if x.op == "chs" else x.a[0].a[1] for x in q.a])), USIZE_TY)
    if not all(x.op == "one" for x in q.a[:-1]):
        raise eng.Undecided("number of items")
    k = typed(mk("more", *q.a[-1].a[:2]), USIZE_TY)
    return typed(mk("arith", "Add", k, I(len(q.a) - 1)), USIZE_TY) if len(q.a) > 1 else k


@it_over("count")
def h_count(E, fr, st, c, q, p, args):
    return [(st, count(q))]


@it_over("collect")
def h_collect(E, fr, st, c, q, p, args):
    if c.rty is None or c.rty.k != "adt" or not c.rty.n.endswith("Vec"):
        raise eng.Undecided("collect")
    return [(st, E.mkseq(q.a, c.rty))]


@it_over("nth")
def h_nth(E, fr, st, c, q, p, args):
    n = args[1]
    if n.op == "int" and n.a[0] < len(q.a) and all(x.op == "one" for x in q.a[:n.a[0] + 1]):
        s = st.copy()
        if p is not None:
            E.store(s, p.a[0], p.a[1], mk("seq", *q.a[n.a[0] + 1:]))
        return [(s, some(q.a[n.a[0]].a[0]))]
    if kind_of(q) != "chars" or n.op != "int" or n.a[0] > 20:
        raise eng.Undecided("nth")
    out, todo = [], [(st, items(E, st, q))]
    for _ in range(n.a[0] + 1):
        nxt = []
        for s, ps in todo:
            for s2, k, rest in end(s, ps):
                if k is None:
                    out.append((s2, models.NONE))
                else:
                    nxt.append((s2, rest, k))
        last = nxt
        todo = [(s, r) for s, r, _ in nxt]
    return out + [(s, some(k)) for s, r, k in last]


def taken(E, st, segs, n, d="l"):
    """[(state, the first n characters or None when there are fewer, the rest)]"""
    todo, out = [(st, [], list(segs))], []
    for _ in range(n):
        nxt = []
        for s, got, ps in todo:
            for s2, k, rest in end(s, ps, d):
                if k is None:
                    out.append((s2, None, []))
                else:
                    nxt.append((s2, got + [k], rest))
        todo = nxt
        if len(todo) + len(out) > 400:
            raise eng.Undecided("characters of a text")
    return out + todo


@it_over("skip", "take")
def h_skip(E, fr, st, c, q, p, args):
    n = args[1]
    kind = kind_of(q)
    if n.op != "int" or kind != "chars" or n.a[0] > 12:
        raise eng.Undecided(meth(c))
    out, todo = [], [(st, items(E, st, q), [], n.a[0])]
    while todo:
        s, ps, got, k = todo.pop()
        if k == 0:
            out.append((s, mk("seq", *as_items(ps if meth(c) == "skip" else got, kind, s))))
            continue
        for s2, ch, rest in end(s, fresh(s, ps)):
            if ch is None:
                out.append((s2, mk("seq", *as_items([] if meth(c) == "skip" else got, kind, s2))))
            else:
                todo.append((s2, rest, got + [ch], k - 1))
        if len(out) + len(todo) > 400:
            raise eng.Undecided(meth(c))
    return out


@it_over("enumerate")
def h_enumerate(E, fr, st, c, q, p, args):
    """the characters with their numbers"""
    out = []
    for i, x in enumerate(q.a):
        if x.op == "one":
            out.append(mk("one", tup(typed(I(i), USIZE_TY), x.a[0])))
        elif x.op == "chs" and x.a[0] in ("chars", "bytes") and i == len(q.a) - 1:
            out.append(mk("chs", "enum:" + x.a[0], *x.a[1:]))
        else:
            raise eng.Undecided("enumerate")
    return [(st, mk("seq", *out))]


@it_over("position", "find")
def h_position(E, fr, st, c, q, p, args):
    """the first character for which the closure holds"""
    kind = kind_of(q)
    ref = meth(c) == "find"
    base = None
    if kind == "char_indices":
        ps = [x.a[1] if x.op == "chs" else E.deref_all(st, x.a[0]).a[1] for x in q.a]
        base = size(st, list(q.a[0].a[2])) if q.a[0].op == "chs" else E.deref_all(st, q.a[0].a[0]).a[0]
        w = closure_class(E, fr, st, E.deref_all(st, args[1]), c.line, pair=True)
    elif kind in ("chars", "bytes"):
        ps = items(E, st, q, kind)
        w = closure_class(E, fr, st, E.deref_all(st, args[1]), c.line, kind == "bytes", ref=ref)
    else:
        raise eng.Undecided("iterator over " + kind)
    out = []
    for s, b, k, a in first(st, ps, w):
        s = s.copy()
        if p is not None:
            E.store(s, p.a[0], p.a[1], mk("seq", *([] if k is None else as_items(a, kind, s) if kind != "char_indices" else [mk("chs", "left", q.a[0].a[1] if q.a[0].op == "chs" else UNIT, ())])))
        if k is None:
            out.append((s, models.NONE))
        elif kind == "char_indices":
            if ref:
                i = E.binop(s, "Add", base, size(s, b), USIZE_TY) if base is not I(0) else size(s, b)
                out.append((s, some(tup(i, lit(s, k)))))
            else:
                out.append((s, some(typed(mk("nchars", shp(b)), USIZE_TY))))
        elif ref:
            out.append((s, some(k if kind == "chars" else byte(lit(s, k)))))
        else:
            out.append((s, some(size(s, b) if kind == "bytes" else typed(mk("nchars", shp(b)), USIZE_TY))))
    return out


def wrap_items(f):
    """models of slices of characters"""
    def deco(keys):
        for k in keys:
            old = M.get(k)
            if old is None:
                continue

            def g(E, fr, st, c, args, old=old):
                if on() and args:
                    v = E.deref_all(st, args[0])
                    if v.op == "seq" and any(x.op == "chs" for x in v.a):
                        return f(E, fr, st, c, v, args)
                return old(E, fr, st, c, args)
            M[k] = g
    return deco


def h_get(E, fr, st, c, v, args):
    m = meth(c)
    if m in ("first", "last"):
        i, d = 0, "l" if m == "first" else "r"
    else:
        if args[1].op != "int":
            raise eng.Undecided("an item of a text")
        i, d = args[1].a[0], "l"
    kind = kind_of(v)
    if kind == "bytes":
        n = typed(count(v), USIZE_TY)
        out = []
        for s, y in E.bool_split(st, E.cmp(st, "Lt", I(i), n)):
            if not y:
                out.append((s, models.NONE))
            elif d == "l":
                out.append((s, some(item_at(E, s, v, I(i), U8))))
            else:
                raise eng.Undecided("the last byte of a text")
        return out
    if kind != "chars" or i > 12:
        raise eng.Undecided("an item of a text")
    return [(s, models.NONE if got is None else some(got[-1])) for s, got, _ in taken(E, st, items(E, st, v), i + 1, d)]


def h_empty(E, fr, st, c, v, args):
    return [(st, E.cmp(st, "Eq", count(v), I(0)))]


_keys = list(M)
wrap_items(h_get)([k for k in _keys if k.split("::")[-1] in ("get", "first", "last") and ("[T]" in k or "slice" in k or "Vec" in k)])
wrap_items(h_empty)([k for k in _keys if k.split("::")[-1] == "is_empty" and ("[T]" in k or "slice" in k or "Vec" in k)])


# ------------------------------------------------------------------ comparison
class Case:
    __slots__ = ("st", "code", "want", "kind")

    def __init__(self, st, code, want):
        self.st, self.code, self.want = st, code, want


def rows_of(E, rs, args=()):
    for s, v in rs:
        v = E.deep(s, v)
        if v.op == "case":
            for g, x in v.a[0]:
                s2 = s.assume_g(g)
                if s2 is not None:
                    yield from rows_of(E, [(s2, x)])
        else:
            yield s, v


def differ(E, st, a, b, d=0):
    """the states in which two values of one row differ"""
    a, b = canon(st, a), canon(st, b)
    if a is b or d == 0 and a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0] == RES and a.a[1] == b.a[1] == 1:
        return []
    if a.op == "case" or b.op == "case":
        out = []
        for g, x in (a.a[0] if a.op == "case" else ((EMPTY, a),)):
            s = st.assume_g(g)
            if s is None:
                continue
            for h, y in (b.a[0] if b.op == "case" else ((EMPTY, b),)):
                s2 = s.assume_g(h)
                s2 = settle(E, s2) if s2 is not None else None
                if s2 is not None:
                    out += differ(E, s2, x, y, d + 1)
        return out
    if a.op == "adt" and b.op == "adt":
        if a.a[1] != b.a[1]:
            return [(st, a, b)]
        out = []
        for x, y in zip(a.a[2:], b.a[2:]):
            out += differ(E, st, x, y, d + 1)
        return out
    if a.op == "tup" and b.op == "tup" and len(a.a) == len(b.a):
        return [z for x, y in zip(a.a, b.a) for z in differ(E, st, x, y, d + 1)]
    opt = a if a.op == "adt" else b if b.op == "adt" else None
    if opt is not None:
        # an unknown value against a constructed one
        o = b if opt is a else a
        n = 2
        s = st.assume(o, ("V", frozenset(range(n)) - {opt.a[1]}, n))
        s = settle(E, s) if s is not None else None
        if s is not None:
            return [(s, a, b)]
        s = st.assume(o, ("V", frozenset([opt.a[1]]), n))
        if s is None:
            return []
        out = []
        for i, x in enumerate(opt.a[2:]):
            y = project(o, opt.a[1], i, x.ty)
            out += differ(E, s, x if opt is a else y, y if opt is a else x, d + 1)
        return out
    if a.op == "app" and b.op == "app" and a.a[0] == b.a[0] == "zone":
        return differ(E, st, a.a[1], b.a[1], d + 1)
    if a.ty is not None and a.ty.k in INTK or a.op == "int" or b.op == "int":
        out = []
        for s, y in E.bool_split(st, E.cmp(st, "Eq", a, b)):
            if not y:
                s = settle(E, s)
                if s is not None:
                    out.append((s, a, b))
        return out
    return [(st, a, b)]


def compare(ctx, code, want, cuts=(), limit=60):
    """every outcome of the code on an unknown text against the reference on the same part of all texts:
    diffs [(state, code value, reference value)], panics [(state, panic)]"""
    import cmp, signal, time
    r = cmp.Result()
    r.panics, r.cases = [], 0
    t0 = time.time()
    eng.AXIOMS = {"facets", "shapes"}
    reset()
    try:
        with cmp.time_limit(limit):
            E = eng.Engine(ctx.prog, ctx.cg, cuts=set(cuts))
            E.nomemo = True
            E.alias = {}
            x = root("text")
            rs = E.run_fn(code, [x], eng.St(), ())
            seen = {}
            for k, ps in E.panics.items():
                for p in ps:
                    s = settle(E, eng.St({}, dict(p.guard)))
                    if s is not None:
                        r.panics.append((s, p))
            E.panics = {}
            r.E = E
            for s, v in rows_of(E, rs):
                s = settle(E, eng.St({}, s.f))
                if s is None:
                    continue
                r.rows += 1
                if want is None:
                    continue
                for q, w in rows_of(E, E.run_fn(want, [x], s.copy(), ())):
                    q = settle(E, eng.St({}, q.f))
                    if q is None:
                        continue
                    r.cases += 1
                    r.diffs += [x + (v, w) for x in differ(E, q, v, w)]
                E.panics = {}
            r.opaque = set(E.opaque)
    except (eng.Undecided, Mixed, Split) as e:
        r.undecided = f"{type(e).__name__}: {e}"
    except cmp.Timeout:
        r.undecided = f"time limit {limit} s"
    except RecursionError:
        r.undecided = "recursion limit"
    except (KeyError, IndexError, AttributeError, TypeError, AssertionError, ValueError) as e:
        import traceback
        r.undecided = f"analysis error {type(e).__name__}: {e} " + " / ".join(
            x.strip().replace("\n", " ") for x in traceback.format_tb(e.__traceback__)[-6:])
    finally:
        eng.AXIOMS = {"facets"}
    r.secs = round(time.time() - t0, 2)
    r.where = f"{code.file}:{code.line} ({code.id})"
    return r


DIGITS = frozenset(range(48, 58))


def written(w):
    """a text of known length: d stands for any digit"""
    segs = [hit(mk("blk", f"c{i}"), DIGITS, "l") if c == "d" else mk("char", c) for i, c in enumerate(w)]
    return shp(segs)


def fixed(ctx, code, want, forms, limit=60, enough=60):
    """the same comparison on texts of the given forms only: diffs and panics found (form, state, ...); what cannot be decided
    for a form is left out"""
    import cmp, time
    r = cmp.Result()
    r.panics, r.cases, r.left = [], 0, 0
    t0 = time.time()
    eng.AXIOMS = {"facets", "shapes"}
    try:
        with cmp.time_limit(limit):
            E = eng.Engine(ctx.prog, ctx.cg)
            E.nomemo = True
            E.alias = {}
            for w in forms:
                reset()
                try:
                    x = written(w)
                    E.panics = {}
                    rs = E.run_fn(code, [x], eng.St(), ())
                    for ps in E.panics.values():
                        for p in ps:
                            s = settle(E, eng.St({}, dict(p.guard)))
                            if s is not None:
                                r.panics.append((w, s, p))
                    r.rows += 1
                    if want is not None:
                        for s, v in rows_of(E, rs):
                            s = settle(E, eng.St({}, s.f))
                            if s is None:
                                continue
                            for q, u in rows_of(E, E.run_fn(want, [x], s.copy(), ())):
                                q = settle(E, eng.St({}, q.f))
                                if q is None:
                                    continue
                                r.cases += 1
                                r.diffs += [(w,) + d + (v, u) for d in differ(E, q, v, u)]
                except cmp.Timeout:
                    raise
                except Exception:
                    r.left += 1
                if len(r.diffs) + len(r.panics) >= enough:
                    break
    except cmp.Timeout:
        r.undecided = f"time limit {limit} s"
    finally:
        eng.AXIOMS = {"facets"}
    r.secs = round(time.time() - t0, 2)
    return r


AWARE = {"len", "count", "all", "any", "collect", "next", "next_back", "last", "first", "nth", "position", "find", "iter", "into_iter",
         "by_ref", "deref", "clone", "as_slice", "to_vec", "cloned", "copied", "borrow", "as_ref", "is_empty", "get", "index", "skip",
         "take", "enumerate", "is_some", "is_none", "ok_or", "ok_or_else"}
LOG = None


def guard(E, st, name, args):
    """operations on partly known sequences of characters, other than those written for them, are not decided"""
    n = name.split("::")[-1]
    if n in AWARE:
        return
    for a in args:
        if any(x.op == "chs" for x in subterms(E.deref_all(st, a))):
            if LOG is not None:
                LOG.add(n)
            else:
                raise eng.Undecided(f"{n} of a text read in part")


# ------------------------------------------------------------------ showing a shape
def pick_char(k, prefer="0aA x"):
    for c in prefer:
        if ord(c) in k:
            return c
    a = sorted(n for n in k if 33 <= n < 127) or sorted(n for n in k if n < 128)
    return chr(a[0]) if a else "é"


def example(st):
    """one text of the state's shape (for reports)"""
    roots = {y for t in st.f for y in subterms(t) if y.op == "blk"}
    if not roots:
        return "any text"
    out = ""
    for p in parts(st, sorted(roots, key=lambda x: x.uid)[0]):
        if p.op == "char":
            out += p.a[0]
        elif p.op in CHARS:
            out += pick_char(char_cls(st, p))
        else:
            l, h = range_of(st, blen(p))
            out += pick_char(block_cls(st, p)) * min(l, 30)
    return out
