"""Loops over the characters of a text as transducers.

A parser that reads a text character by character in a loop is explored one step at a time: the state at the loop head
is taken apart into what is known (flags, small numbers, variants) and data (numbers read so far), data are replaced by
fresh names, and every step on an arbitrary next character leads to finitely many such states with the new data given as
terms of the old.  The code's transducer and the reference's are then run side by side (product construction): a pair of
states also says which data of the two are the same.  A difference found there is replayed on a text that leads to it,
read by the same abstract interpretation with the text known, and counts only if it is still there."""
import chars, eng, models, shapes
from core import *
from dom import *

STATE = typed(mk("sym", "%state"), shapes.USIZE_TY)
MODE = typed(mk("sym", "%mode"), shapes.USIZE_TY)
POS = typed(mk("sym", "%at"), shapes.USIZE_TY)
BPOS = typed(mk("sym", "%bat"), shapes.USIZE_TY)
STEP = shapes.at(shapes.root("step"), 0)
KEEP = ("int", "bool", "char", "str", "float", "ptr", "clo", "fn", "chs", "bytes", "discr")
BOOK = (STATE, MODE)
PREFIX = 2


class Restart(Exception):
    """a number turned out to be data"""


class Auto:
    """the transducer of the loop that reads the tail"""

    def __init__(self, tail, data):
        self.tail, self.where, self.data = tail, None, data
        self.mem, self.cnt, self.index = [], [], {}
        self.trans, self.entries = {}, []


def is_one(n):
    return ("I", ((n, n),))


def find_open(v):
    """a part of a stored value that has to be told apart first"""
    if v.op == "case":
        return v
    if v.op in ("adt", "tup", "seq", "one"):
        for x in v.a:
            if isinstance(x, T):
                r = find_open(x)
                if r is not None:
                    return r
        return None
    if v.op in KEEP:
        return None
    if v.ty is BOOL_TY:
        return v
    return None


def expand(E, st):
    """states in which every flag and variant is known"""
    todo, out = [st], []
    while todo:
        s = todo.pop()
        x = None
        for v in s.mem.values():
            x = find_open(v)
            if x is not None:
                break
        if x is None:
            out.append(s)
            continue
        if x.op == "case":
            rows = []
            for g, y in x.a[0]:
                s2 = s.assume_g(g)
                if s2 is not None:
                    rows.append((s2, y))
        else:
            rows = [(s2, B(y)) for s2, y in E.bool_split(s, x)]
        for s2, y in rows:
            todo.append(eng.St({k: rewrite(v, {x: y}) for k, v in s2.mem.items()}, s2.f))
        if len(todo) + len(out) > 300:
            raise eng.Undecided("states of a loop")
    return out


def blocks_in(t):
    return any(x.op in shapes.BLOCKS for x in subterms(t))


def skeleton(v, syms, path, data, ints):
    """the known part of a value; its data go to syms"""
    if v.op in ("adt", "tup", "seq", "one"):
        a = tuple(skeleton(x, syms, path + (i,), data, ints) if isinstance(x, T) else x for i, x in enumerate(v.a))
        return typed(mk(v.op, *a), v.ty)
    if v.op == "int":
        ints[path] = v
        if path not in data:
            return v
    elif v.op == "float" and path in data:
        pass
    elif v.op in KEEP or v.op not in ("bhit", "bat") and blocks_in(v) and models.stringy(v.ty):
        return v
    else:
        ints[path] = v
    ty = v.ty if v.op not in ("int", "float") else data.get(path)
    syms.append((v, ty))
    return hole(len(syms) - 1, ty)


def type_at(E, st, path):
    """type of a part of a stored value"""
    (d, n), v = path[0], st.mem[path[0]]
    ty = E.stack[d - 1].locals[n] if isinstance(n, int) and 0 < d <= len(E.stack) else None
    for i in path[1:]:
        if ty is not None and ty.k == "tuple" and v.op == "tup":
            ty, v = ty.a[i], v.a[i]
            continue
        if ty is None or ty.k != "adt" or v.op != "adt":
            return None
        if ty.id == shapes.OPT:
            ty, v = ty.a[0], v.a[i]
            continue
        fs = E.prog.adts.get(ty.id, {}).get("ft", ())
        if v.a[1] >= len(fs) or i - 2 >= len(fs[v.a[1]]):
            return None
        ty, v = subst_ty(fs[v.a[1]][i - 2], ty.a), v.a[i]
    return ty


def abstract(E, A, st, frm):
    """(state number, data)"""
    syms, key, ints = [], [], {}
    for k in sorted(st.mem, key=repr):
        key.append((k, skeleton(st.mem[k], syms, (k,), A.data, ints)))
    new = {p for p, v in ints.items() if v.op != "int"} - set(A.data)
    if frm is not None:
        # a number that keeps growing is data
        old = dict(A.mem[frm][2])
        cnt = {p: A.cnt[frm].get(p, 0) + 1 for p in ints if p in old and ints[p] is not old[p]} if set(ints) == set(old) else {}
        new |= {p for p, n in cnt.items() if n >= 3} - set(A.data)
    if new:
        for p in new:
            A.data[p] = type_at(E, st, p) or ints[p].ty
        raise Restart
    key = tuple(key)
    i = A.index.get(key)
    if i is None:
        i = len(A.mem)
        if i > 400:
            raise eng.Undecided("states of a loop")
        A.index[key] = i
        names = [typed(mk("sym", f"%a{i}.{n}:{ty.s if ty is not None else ''}"), ty) for n, (t, ty) in enumerate(syms)]
        m = {hole(n, ty): names[n] for n, (t, ty) in enumerate(syms)}
        A.mem.append(({k: rewrite(v, m) for k, v in key}, names, tuple(ints.items())))
        A.cnt.append({} if frm is None else cnt)
    return i, [t for t, _ in syms]


def hole(n, ty):
    return typed(mk("hole", n, ty.s if ty is not None else ""), ty)


def item(kind, c):
    """[(class of the character, item)]"""
    if kind.startswith("enum:"):
        return [(q, tup(POS, x)) for q, x in item(kind[5:], c)]
    if kind == "chars":
        return [(chars.ALL, c)]
    if kind == "bytes":
        return [(chars.ASCII, shapes.byte(c)), (chars.NONASCII, typed(mk("app", "byteof", c, I(0)), shapes.U8))]
    if kind == "char_indices":
        return [(chars.ALL, tup(BPOS, c))]
    raise eng.Undecided("loop over " + kind)


def loop(E, fr, h, s, L, it, seq):
    """the loop from the state s: the states in which it is left"""
    A = E.auto
    if len(seq.a) != 1 or seq.a[0].a[1] is not A.tail:
        raise eng.Undecided("loop over a part of a text")
    rest = seq.a[0]
    here = (fr.fn.id, h, fr.depth)
    if A.where not in (None, here):
        raise eng.Undecided("second loop over a text")
    A.where = here
    cfg = E.cfg(fr.fn)
    exits, rets, todo = [], [], []

    def reach(st, frm):
        E.prune(fr, cfg, st, h)
        for s2 in expand(E, st):
            for t in s2.f:
                if frm is None and A.tail in subterms(t):
                    raise eng.Undecided("a loop over a text that was looked at before")
            n = len(A.mem)
            i, syms = abstract(E, A, s2, frm)
            if len(A.mem) > n:
                todo.append(i)
            facts = {t: d for t, d in s2.f.items() if t not in BOOK}
            if frm is None:
                A.entries.append((facts, i, syms))
            else:
                A.trans.setdefault(frm, []).append((facts, i, syms))
    reach(s.copy(), None)
    while todo:
        i = todo.pop()
        st = eng.St(dict(A.mem[i][0]), {})
        st = st.assume(STATE, is_one(i)).assume(POS, ("I", ((PREFIX, shapes.BIG),))).assume(BPOS, ("I", ((PREFIX, shapes.BIG),)))
        steps = [(0, None, mk("seq"))]
        for q, x in item(rest.a[0], STEP):
            steps.append((1, q, mk("seq", mk("one", x), rest)))
        for mode, q, v in steps:
            s1 = st.assume(MODE, is_one(mode))
            if q is not None and q != chars.ALL:
                s1 = s1.assume(models.cls_of(STEP), ("V", q, chars.N))
            s1 = s1.copy()
            E.store(s1, it.a[0], it.a[1], v)
            ex, backs, rt = E.run_region(fr, {h: [s1]}, L, h)
            exits += ex
            rets += rt
            if backs and (mode == 0 or q == chars.NONASCII):
                raise eng.Undecided("loop over a text")
            for b in backs:
                if E.load(b, it.a[0], it.a[1]) is not mk("seq", rest):
                    raise eng.Undecided("loop advances its own iterator")
                reach(b, i)
    return exits, rets


# ------------------------------------------------------------------ side by side
class Side:
    """what a function does with the texts of a form: outcomes and, with the tail, its transducer"""

    def __init__(self, E, fn, text, tail):
        data = {}
        self.starts, self.finals = [], {}
        for _ in range(40):
            E.auto = A = Auto(tail, data)
            try:
                rs = E.run_fn(fn, [text], eng.St(), ())
                break
            except Restart:
                E.stack.clear()
            finally:
                E.auto = None
                E.panics = {}
        else:
            raise eng.Undecided("data of a loop")
        self.A = A
        for s, v in shapes.rows_of(E, rs):
            facts = {t: d for t, d in s.f.items() if t not in BOOK}
            d = s.f.get(STATE)
            if d is None:
                if any(tail in subterms(t) for t in facts):
                    raise eng.Undecided("the text is looked at outside the loop")
                self.starts.append((facts, ("R", v)))
                continue
            for lo, hi in d[1]:
                for i in range(lo, hi + 1):
                    for m in (0, 1):
                        s2 = s.assume(STATE, is_one(i))
                        s2 = s2.assume(MODE, is_one(m)) if s2 is not None else None
                        if s2 is not None:
                            self.finals.setdefault((i, m), []).append((facts, ("R", v)))
        for facts, i, syms in A.entries:
            self.starts.append((facts, ("S", i, syms)))

    def moves(self, x, mode, ren):
        """[(facts, next)] of one step, its data renamed"""
        if x[0] == "R":
            return [({}, x)]
        out = []
        if mode == 1:
            for facts, i, syms in self.A.trans.get(x[1], ()):
                out.append((facts, ("S", i, syms)))
        out += self.finals.get((x[1], mode), [])
        m = dict(zip(self.A.mem[x[1]][1], ren))
        if not m:
            return out
        return [({rewrite(t, m): d for t, d in f.items()},
                 ("R", rewrite(y[1], m)) if y[0] == "R" else ("S", y[1], [rewrite(t, m) for t in y[2]])) for f, y in out]


def together(E, st, facts):
    for t, d in facts.items():
        if t.op == "cmp" and d[0] == "B":
            rs = [s for s, y in E.bool_split(st, E.cmp(st, t.a[0], t.a[1], t.a[2])) if y is d[1]]
            if len(rs) != 1:
                if not rs:
                    return None
                raise eng.Undecided("comparison of data")
            st = rs[0]
            continue
        st = st.assume(t, d)
        if st is None:
            return None
    return st


class Node:
    __slots__ = ("a", "b", "ra", "rb", "st", "groups", "key", "ins")

    def __init__(self, a, b, ra, rb, up, st):
        self.a, self.b, self.ra, self.rb, self.st = a, b, ra, rb, st
        self.ins = [(up, st)]


def plain(x):
    """an outcome, errors without their text"""
    if x[0] == "R" and x[1].op == "adt" and x[1].a[0] == shapes.RES and x[1].a[1] == 1:
        return ("R", mk("adt", shapes.RES, 1))
    return x


def run(E, code, want, text, tail, res, more):
    """pairs of states reached by the same texts; res gets (node, facts, code value, reference value) where they differ"""
    C, W = Side(E, code, text, tail), Side(E, want, text, tail)
    seen, todo, found = {}, [], {}

    def data(side, x):
        if x[0] == "S":
            return ("S", x[1]), x[2]
        ds = []
        k = ("R", skeleton(x[1], ds, (), {}, {}))
        return k, [t for t, _ in ds]

    def arrive(st, x, y, up, out):
        x, y = plain(x), plain(y)
        if x[0] == y[0] == "R":
            for s, a, b in shapes.differ(E, st, x[1], y[1]):
                out.append((Node(None, None, None, None, up, s), s, a, b))
            return
        (ka, da), (kb, db) = data(C, x), data(W, y)
        key = (ka, kb)
        vals = [shapes.canon(st, t) for t in list(da) + list(db)]
        old = seen.get(key)
        if old is not None and len(old.ins) < 40:
            old.ins.append((up, st))
        if old is None:
            if len(seen) > 2000:
                raise eng.Undecided("pairs of states")
            pairs = list(vals)
        else:
            # what was the same before and is the same now
            pairs = list(zip(old.groups, vals))
        kinds = {}
        groups = [kinds.setdefault(p, len(kinds)) for p in pairs]
        tys = [t.ty for k, side, ds in ((ka, C, da), (kb, W, db)) for t in (side.A.mem[k[1]][1] if k[0] == "S" else ds)]
        kinds = {}
        groups = [kinds.setdefault((g, ty), len(kinds)) for g, ty in zip(groups, tys)]
        if old is not None and groups == old.groups:
            return
        names = [typed(mk("sym", f"%g{g}:{ty.s if ty is not None else ''}"), ty) for g, ty in zip(groups, tys)]
        ra, rb = names[:len(da)], names[len(da):]

        def val(k, ds, r):
            if k[0] == "S":
                return k
            m = {hole(n, t.ty): r[n] for n, t in enumerate(ds)}
            return ("R", rewrite(k[1], m))
        n = Node(val(ka, da, ra), val(kb, db, rb), ra, rb, up, st)
        n.groups, n.key = groups, key
        if old is not None:
            n.ins = old.ins
        seen[key] = n
        todo.append(n)
    out = []
    for fc, x in C.starts:
        s = together(E, eng.St(), fc)
        if s is None:
            continue
        for fw, y in W.starts:
            s2 = together(E, s, fw)
            if s2 is not None:
                arrive(s2, x, y, None, out)
    found[None] = out
    early = []
    i = 0
    while i < len(todo):
        n = todo[i]
        i += 1
        if seen[n.key] is not n:
            continue
        early += found.get(n.key, ())
        found[n.key] = out = []
        for mode in (0, 1):
            for fa, x in C.moves(n.a, mode, n.ra):
                s = together(E, eng.St(), fa)
                if s is None:
                    continue
                for fb, y in W.moves(n.b, mode, n.rb):
                    s2 = together(E, s, fb)
                    if s2 is None:
                        continue
                    if mode == 0:
                        for s3, a, b in shapes.differ(E, s2, plain(x)[1], plain(y)[1]):
                            out.append((Node(None, None, None, None, n, s3), s3, a, b))
                    else:
                        arrive(s2, x, y, n, out)
    for k in found:
        res += found[k]
    more += early
    return len(C.A.mem), len(W.A.mem), len(seen), i


def paths(node, limit=40):
    """the shortest ways to a node, as states"""
    import collections
    q, out = collections.deque([(node, ())]), []
    k = collections.Counter()
    while q and len(out) < limit:
        n, tail = q.popleft()
        k[n] += 1
        if k[n] > 12:
            continue
        for up, st in n.ins:
            if up is None:
                out.append((st,) + tail)
            elif len(tail) < 14:
                q.append((up, (st,) + tail))
    return out


def witnesses(node, pre):
    """texts that lead to a node: the first ways to it with all choices of digits, the others with two"""
    seen = set()
    for i, p in enumerate(paths(node)):
        ws = witness(p, pre)
        for w in ws if i < 8 else (ws[0], ws[(i + 2) % len(ws)]):
            if w not in seen:
                seen.add(w)
                yield w


def witness(steps, pre):
    """texts that lead there"""
    out = []
    # the digits of a number vary; where the path says that a number is too large, or again with longer numbers
    for digits, many in (("123456789", 1), ("987654321", 1), ("101010101", 1), ("010101010", 1), ("123456789", 2), ("908070605", 3)):
        k, text = 0, ""

        def char(c, st):
            nonlocal k
            q = shapes.char_cls(st, c)
            ds = [d for d in q if ord("0") <= d <= ord("9")]
            if len(ds) > 1 and len(ds) == len(q):
                r = ""
                for _ in range(24 if any(t.op == "ovf" and d == ("B", True) for t, d in st.f.items()) else many):
                    x = digits[k % len(digits)]
                    k += 1
                    r += x if ord(x) in q else chr(min(ds))
                return r
            return shapes.pick_char(q)
        for c in pre:
            text += char(c, steps[0])
        for s in steps[1:]:
            if models.cls_of(STEP) in s.f or s is not steps[-1]:
                text += char(STEP, s)
        if text not in out:
            out.append(text)
    return out


def compare(ctx, code, want, cuts=(), limit=60):
    """diffs [(text, code value, reference value)]: the outcomes differ on that text"""
    import cmp, time
    r = cmp.Result()
    r.states = []
    r.unconfirmed = []
    t0 = time.time()
    eng.AXIOMS = {"facets", "shapes"}
    shapes.reset()
    try:
        with cmp.time_limit(limit):
            E = eng.Engine(ctx.prog, ctx.cg, cuts=set(cuts))
            E.nomemo = True
            E.alias = {}
            res, early = [], []
            cs = [shapes.at(shapes.root(f"c{i}"), 0) for i in range(PREFIX)]
            for k in range(PREFIX + 1):
                tail = shapes.root("tail")
                text = shapes.shp(cs[:k] + ([tail] if k == PREFIX else []))
                n, m = len(res), len(early)
                r.states.append(run(E, code, want, text, tail, res, early))
                for x in res[n:] + early[m:]:
                    x[0].a = cs[:k]
            every = max(1, len(res) // 60)
            pick = res[:20] + res[20::every]
            for j, (node, s, a, b) in enumerate(pick + early[:40]):
                if len(r.diffs) >= 3 or time.time() - t0 > limit * 0.8:
                    break
                for w in witnesses(node, node.a):
                    x, y = (exact(E, f, w) for f in (code, want))
                    if x is not None and y is not None and not same(x, y):
                        if w not in [d[0] for d in r.diffs]:
                            r.diffs.append((w, x, y))
                        break
                else:
                    if j < len(pick):
                        r.unconfirmed.append((next(witnesses(node, node.a), ''), a, b))
            r.opaque = set(E.opaque)
    except (eng.Undecided, Mixed, shapes.Split) as e:
        r.undecided = f"{type(e).__name__}: {e}"
    except cmp.Timeout:
        r.undecided = f"time limit {limit} s"
    except RecursionError:
        r.undecided = "recursion limit"
    except (KeyError, IndexError, AttributeError, TypeError, AssertionError, ValueError) as e:
        import traceback
        r.undecided = f"analysis error {type(e).__name__}: {e} " + " / ".join(
            x.strip().replace("\n", " ") for x in traceback.format_tb(e.__traceback__)[-6:])
    finally:
        eng.AXIOMS = {"facets"}
    r.secs = round(time.time() - t0, 2)
    r.where = f"{code.file}:{code.line} ({code.id})"
    return r


def exact(E, fn, text):
    """the value of a function on a known text, when it is fully known"""
    rs = [v for s, v in shapes.rows_of(E, E.run_fn(fn, [S(text)], eng.St(), ()))]
    ps, E.panics = E.panics, {}
    if len(rs) != 1 or any(ps.values()):
        return None
    v = plain(("R", rs[0]))[1]
    return v if known(v) else None


def known(v):
    if v.op in ("adt", "tup", "seq", "one"):
        return all(known(x) for x in v.a if isinstance(x, T))
    return v.op in ("int", "bool", "char", "str", "float")


def same(a, b):
    return a is b
