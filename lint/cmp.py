"""Comparing a repository function with its reference function (spec/): both are summarised by the engine over
the same symbolic arguments, and the two gated values are compared.  Nothing is executed."""
import signal, time
from core import *
from dom import *
import eng, models, spec


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


class time_limit:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


class Result:
    """outcome of one comparison: `diffs` (definite), `unknown` (involving an operation without a model),
    `undecided` (why the engine gave up) and the size of what was compared"""

    def __init__(self):
        self.diffs, self.unknown, self.undecided = [], [], None
        self.rows = 0
        self.uncovered = []
        self.opaque = set()
        self.where = ""
        self.secs = 0.0
        self.sizes = []         # what inputs of fixed sizes showed
        self.small = None       # the size of the inputs that show a difference, if it was not found in general
        self.wrote = set()      # argument cells that some outcome of the code leaves changed


EXT = ("chrono::", "num_bigint::", "bigdecimal::", "roxmltree::", "xml::", "yaserde::", "num_traits::", "num_integer::",
       "inflector::", "Inflector::", "syn::", "quote::", "proc_macro2::", "clap::", "structopt::", "text_size::")


def trusted(name):
    return name.startswith(EXT)


SIZES = (2, 1, 3)
spent = [0.0]           # seconds used on inputs of one size, over all comparisons of this run


def compare(ctx, code, want, limit=40, sizes=SIZES, **k):
    """the comparison for inputs of every size; where that leaves something open, for inputs of a few fixed sizes as
    well: there loops are unrolled, so what they carry from round to round is known"""
    r = one(ctx, code, want, limit=limit, **k)
    if r.diffs or not (r.unknown or r.undecided):
        return r
    for n in sizes:
        if spent[0] > 240:
            break
        q = one(ctx, code, want, limit=min(limit, 20), small=n, **dict(k, cover=False))
        spent[0] += q.secs
        r.sizes.append((n, "not decided" if q.undecided else "unknown" if q.unknown else "equal" if not q.diffs else "different"))
        if q.diffs:
            q.sizes, q.small, q.secs = r.sizes, n, r.secs + q.secs
            q.unknown += r.unknown
            return q
    return r


def one(ctx, code, want, facts=(), cuts=(), alias=(), sub=(), sub_spec=None, limit=40, args=None, cover=False,
            budget=60000, post=None, extra_trusted=(), exits=False, small=None):
    """code, want: functions (Fn); facts: initial facts as a function of the argument terms"""
    r = Result()
    t0 = time.time()
    alias = dict(alias)
    for c in ("xsd_spec", "wsdl_spec", "types_spec", "cli_spec", "derive_spec"):
        alias[c + "::any"] = "any"
    try:
        with time_limit(limit):
            E = eng.Engine(ctx.prog, ctx.cg, cuts=set(cuts) | set(alias.values()))
            E.alias = alias
            E.small = small
            eng.AXIOMS = {"facets"}
            st = eng.St()
            av = args(E, st) if args else [spec.symarg(want.names.get(i + 1, f"a{i}"), code.locals[i + 1], st, i, ctx.prog)
                                           for i in range(code.argc)]
            fs = facts(*av) if callable(facts) else facts
            st = st.assume_g(list(fs))
            E.exits = [] if exits else None
            v, rs, _ = spec.summarize(E, code, st.copy(), sub=sub, args=list(av))
            if E.exits:
                rs = rs + E.exits
                v = mkcase([(frozenset((t, d) for t, d in s.f.items() if st.f.get(t) != d), E.deep(s, x)) for s, x in rs], code.locals[0])
                E.exits = []
            npan = {k: list(p) for k, p in E.panics.items()}
            E.panics = {}
            w, ws, _ = spec.summarize(E, want, st.copy(), sub=sub if sub_spec is None else sub_spec, args=list(av))
            if not ws:
                raise eng.Undecided("the reference has no outcome")
            cells = changed(st, rs) | changed(st, ws)
            r.wrote = {c for c in changed(st, rs) if any(
                E.deep(q, E.load(q, c, ())) is not E.deep(st, E.load(st, c, ())) for q, _ in rs)} if cells else set()
            if cells:
                v = with_memory(E, st, rs, v, cells, code.locals[0])
                w = with_memory(E, st, ws, w, cells, code.locals[0])
            if post:
                v, w = post(E, rs, v, ws, w)
            if small is not None:
                v, w = unrolled(E, v), unrolled(E, w)
            r.rows = nrows(v)
            d = spec.Diff(E, budget)
            names = set(extra_trusted)
            cutn = set(cuts) | set(alias.values())

            def tr(n):
                if n in names or n in cutn:
                    # an aliased function must exist on the code's side
                    return not n.startswith(WS) or n in ctx.prog.fns
                return trusted(n)
            d.trusted = r.trusted = tr
            for x in d.run(st, v, w):
                (r.unknown if x[3] or too_long(x[0]) else r.diffs).append(x)
            if cover:
                r.uncovered = uncovered(E, st, v, w)
            r.opaque = {n for n in E.opaque if not tr(n)}
            r.panics = npan
            r.value, r.want, r.E = v, w, E
    except (eng.Undecided, Mixed) as e:
        r.undecided = f"{type(e).__name__}: {e}"
    except spec.Budget:
        r.undecided = "comparison budget"
    except Timeout:
        r.undecided = f"time limit {limit} s"
    except RecursionError:
        r.undecided = "recursion limit"
    except (KeyError, IndexError, AttributeError, TypeError, AssertionError, ValueError) as e:
        import traceback
        r.undecided = f"analysis error {type(e).__name__}: {e} " + traceback.format_exc().strip().splitlines()[-3].strip()
    r.secs = round(time.time() - t0, 2)
    r.where = f"{code.file}:{code.line} ({code.id})"
    return r


def unrolled(E, t):
    """the walks over lists of known size that the summary still has, element by element"""
    for _ in range(6):
        m = {}
        for x in subterms(t):
            if x.op == "comp":
                k = E.unroll(x)
                if k is not None:
                    m[x] = mk("if", ((frozenset(), k),))
        if not m:
            break
        t = rewrite(t, m)
    return t


def too_long(st):
    """an input for which an address-sized sum does not fit: one of the sides has no outcome there"""
    return any(t.op == "ovf" and d == ("B", True) and t.a[0] == "usize" for t, d in st.f.items())


def changed(st, rs):
    """cells outside the function's own frame whose contents some outcome changes"""
    out = set()
    for s, _ in rs:
        for c, x in s.mem.items():
            if c[0] in ("arg", "e", "world") and st.mem.get(c) is not x:
                out.add(c)
    return out


def with_memory(E, st, rs, v, cells, ty):
    cs = sorted(cells, key=repr)
    rows = []
    for s, x in rs:
        g = frozenset((t, d) for t, d in s.f.items() if st.f.get(t) != d)
        vals = [E.deep(s, x)]
        for c in cs:
            if c[0] == "world":
                m = s.mem.get(c) or mk("seq")
            else:
                m = E.deep(s, E.load(s, c, ()))
            vals.append(m)
        rows.append((g, tup(*vals)))
    return mkcase(rows, None) if rows else mk("never")


WS = ("xsd_parser::", "wsdl_parser::", "xsd_types::", "xsd_macro_utils::")


def rows_of(t):
    return [(g, x) for g, x in t.a[0]] if t.op == "case" else [(frozenset(), t)]


def left_over(E, st, gs, budget):
    """the part of a state that no guard admits: a decision tree over the facts of the guards still possible"""
    budget[0] -= 1
    if budget[0] < 0:
        raise spec.Budget()
    live, votes = [], {}
    for g in gs:
        if st.assume_g(g) is None:
            continue
        open_ = [(t, d) for t, d in g if not (st.known(t) is not None and d_sub(st.known(t), d))]
        if not open_:
            return []
        live.append(g)
        for x in open_:
            votes[x] = votes.get(x, 0) + 1
    if not live:
        return [st]
    t, d = max(votes, key=lambda x: (votes[x], -x[0].uid))
    out = []
    a = st.assume(t, d)
    if a is not None:
        out += left_over(E, a, live, budget)
    for b in spec.sub_guard(E, st, frozenset([(t, d)])):
        out += left_over(E, b, live, budget)
    return out


def uncovered(E, st, v, w):
    """inputs for which the reference gives a value and the code does not (it panics)"""
    out = []
    if v.op == "never":
        return [(st, x) for _, x in rows_of(w) if x.op != "never"][:1]
    for h, x in rows_of(w):
        s = st.assume_g(h)
        if s is None or x.op == "never" or spec.is_any(x):
            continue
        try:
            rest = left_over(E, s, [g for g, _ in rows_of(v)], [3000])
        except spec.Budget:
            continue
        for q in rest:
            n = spec.normal(q, None, None)
            if n is not None and len(out) < 20:
                q2 = n[0]
                if q2 is not q:
                    # the code may handle the case under another spelling
                    try:
                        left = left_over(E, q2, [g for g, _ in rows_of(v)], [3000])
                    except spec.Budget:
                        continue
                    if not any(spec.feasible(z) for z in left):
                        continue
                out.append((q2, x))
    return out


def nrows(t):
    n = 0
    for x in subterms(t):
        if x.op == "case":
            n += len(x.a[0])
        elif x.op == "comp":
            n += len(x.a[2])
    return max(n, 1)


def pathname(prog, path):
    out = []
    for a, k, i in path:
        rec = prog.adts.get(a)
        n = a.split("::")[-1]
        if rec is None:
            out.append(f"{n}.{i}")
            continue
        v = rec["v"][k]
        f = v["f"][i] if i < len(v["f"]) else str(i)
        out.append(f"{n}.{v['n']}" if rec["k"] == "enum" else f"{n}.{f}")
    return out


def unknown_facts(r, st):
    """does a state depend on an operation without a model?"""
    d = spec.Diff(r.E)
    d.trusted = r.trusted
    return any(d.opaque_in(t) for t in st.f)


def text(x):
    st, a, b = x[0], x[1], x[2]
    few = any(y.op == "nth" or y.op == "app" and y.a[0] == "nth_child" for t in [*st.f, a, b] if isinstance(t, T)
              for y in subterms(t))
    return ("for an input whose lists are all of one small size, " if few else "") + f"when {show_guard(frozenset(st.f.items()))[:900]}: the code gives {show(a, 7)[:400]}, required is {show(b, 7)[:400]}"
