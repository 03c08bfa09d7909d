"""Effect rules over the resolved call graph."""
import re
from report import Report, loc

LIBS = ["xsd_parser", "wsdl_parser", "xsd_types", "xsd_macro_utils"]

# resolved std/third-party callees that reach the outside world, by def path
WORLD = re.compile(
    r"^std::(fs|net|process|env|os|thread|sys)::|^std::io::(stdio|stdin|stdout|stderr|_print|_eprint)|"
    r"^std::io::(_print|_eprint)|^std::time::(SystemTime|Instant)|^chrono::.*(Utc|Local)(::|>::)?.*now|"
    r"^std::path::Path::(exists|is_dir|is_file|metadata|read_dir|canonicalize|try_exists|read_link|symlink_metadata)|"
    r"^tokio::|^reqwest::|^core::intrinsics::volatile|^std::backtrace|^rand::|^getrandom::")
STATICS = re.compile(r"thread::(local::)?LocalKey|OnceCell|OnceLock|LazyLock|LazyCell|lazy_static|once_cell|"
                     r"core::sync::atomic|std::sync::(Mutex|RwLock|Once)")

HASH_ITER = re.compile(r"hash_map::|hash_set::|HashMap|HashSet")
ITER_METHODS = {"iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain",
                "into_iter", "retain", "extract_if", "extend", "from_iter", "union", "intersection", "difference",
                "symmetric_difference"}


def names(site):
    return [site.name, site.callee["n"], site.id, site.callee["id"]]


def purity(ctx):
    rep = Report("C30", "who-may-call over the resolved call graph: no function of the four libraries (default "
                 "trait bodies, closures, derived code and promoted constants included) calls, or takes as a value, "
                 "an operation on files, environment, processes, network, clock, threads or standard streams, and "
                 "none refers to a mutable/interior-mutable static. Every resolved call site is classified.")
    n = 0
    for f in ctx.lib_fns(LIBS):
        rep.count("functions")
        bad = []
        for s in ctx.cg.sites[f.id]:
            n += 1
            if any(WORLD.search(x) for x in names(s)):
                bad.append(s)
            elif any(STATICS.search(x) for x in names(s)):
                bad.append(s)
        for s in bad:
            rep.fail(f"effect:{f.id}:{s.name}", f"calls {s.name}, an effect on the process or the outside world",
                     loc(f, s.line))
        if not bad:
            rep.ob(f"pure:{f.id}", True, "", loc(f))
        for st in ctx.statics(f):
            rep.ob(f"static:{f.id}:{st[0]}", ctx.prog.freeze(st[1]) and not st[2],
                   f"reads or writes the static {st[0]} of type {st[1].s} (mutable or interior-mutable)", loc(f))
    rep.count("call_sites", n)
    rep.floor("functions", 600, "library functions")
    rep.floor("call_sites", 1500, "library call sites")
    # the matcher must match something: the CLIs do read and write files
    hits = [s for f in ctx.lib_fns(["xsd_parser#bin", "wsdl_parser#bin"]) for s in ctx.cg.sites[f.id]
            if any(WORLD.search(x) for x in names(s))]
    rep.count("positive_control", len(hits))
    rep.floor("positive_control", 10, "matching sites in the command-line programs (positive control)")
    return rep


HASHY = re.compile(r"(^|[<&( ])(std::collections::)?(hash_map::|hash_set::|HashMap<|HashSet<)")
SORTS = {"sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key",
         "sort_by_cached_key", "sorted", "sorted_by", "sorted_by_key"}
ADAPT = {"map", "filter", "filter_map", "flat_map", "flatten", "cloned", "copied", "enumerate", "zip", "chain",
         "inspect", "by_ref", "into_iter", "iter", "iter_mut", "peekable", "rev", "deref", "deref_mut", "as_ref", "as_slice",
         "borrow", "map_while", "skip_while", "take_while", "clone", "to_vec", "unwrap", "expect", "index", "collect",
         "from_iter", "into", "from", "as_mut_slice", "to_owned", "into_boxed_slice"}
INSENS = {"any", "all", "count", "sum", "product", "len", "is_empty", "contains", "size_hint", "drop", "fmt"}
KEYED = re.compile(r"^(std::collections::)?(hash_map::|hash_set::|btree_map::|btree_set::)?(HashMap|HashSet|BTreeMap|BTreeSet|BinaryHeap)<")


def _last(n):
    return n.split("::")[-1]


def _ty_of(f, op):
    if op[0] in ("c", "m"):
        t = f.locals[op[1][0]]
        for e in op[1][1]:
            if e == "*":
                t = t.a[0] if t.a else t
            elif isinstance(e, list) and e[0] == "f":
                t = e[2]
        return t
    return op[1]["t"]


def _strip(t):
    while t.k == "ref" and t.a:
        t = t.a[0]
    return t


def hash_sources(ctx, f):
    for s in ctx.cg.sites[f.id]:
        m = _last(s.callee["n"])
        if s.kind != "call" or m not in ITER_METHODS or not s.args:
            continue
        t = _strip(_ty_of(f, s.args[0]))
        if t.k == "adt" and re.search(r"::(HashMap|HashSet|hash_map|hash_set)$|hash::(map|set)::Hash(Map|Set)$", t.id):
            if m in ("extend", "retain"):
                continue            # keyed effects only
            yield s


def follow(ctx, f, start, rep, src, seen_fn):
    """Forward taint of hash order inside one body; yields (kind, site) sinks."""
    from collections import deque
    order = []
    seen_b = set()
    dq = deque([0])
    while dq:                       # breadth-first block order: sorts are seen before later uses
        b = dq.popleft()
        if b in seen_b or f.blocks[b] is None:
            continue
        seen_b.add(b)
        order.append(b)
        t = f.blocks[b]["t"]
        if t[0] == "goto":
            dq.append(t[1])
        elif t[0] == "switch":
            dq.extend(x[1] for x in t[2])
            dq.append(t[3])
        elif t[0] == "drop":
            dq.append(t[2])
        elif t[0] == "call" and t[4] >= 0:
            dq.append(t[4])
        elif t[0] == "assert":
            dq.append(t[5] if isinstance(t[5], int) else t[4])
    import cg as _cg
    taint, alias = set(start), {}
    sinks = []
    # seq[x]: locals that are (re)borrows of the same sequence, so that a sort cleans them all
    for _ in range(4):
        for b in order:
            blk = f.blocks[b]
            for st in blk["s"]:
                d = st[0][0]
                r = st[1]
                srcs = [o[1][0] for o in _cg.rv_operands(r) if o[0] in ("c", "m")]
                if r[0] in ("ref", "rawptr"):
                    srcs = [r[2][0] if r[0] == "ref" else r[1][0]]
                    alias[d] = srcs[0]
                elif r[0] == "use" and srcs:
                    alias.setdefault(d, srcs[0])
                if any(x in taint for x in srcs) and r[0] in ("use", "ref", "rawptr", "cast", "agg"):
                    taint.add(d)
            t = blk["t"]
            if t[0] != "call" or t[1][0] != "k" or "fn" not in t[1][1]:
                continue
            args = [a[1][0] for a in t[2] if a[0] in ("c", "m")]
            hit = [a for a in args if a in taint]
            if not hit:
                continue
            c = t[1][1]["fn"]
            m = _last(c["n"])
            dt = f.locals[t[3][0]]
            if m in SORTS:
                clean = set(hit)
                x = hit[0]
                for _k in range(20):
                    if x not in alias:
                        break
                    x = alias[x]
                    clean.add(x)
                # everything that views the same vector
                for _k in range(4):
                    for a, bb in alias.items():
                        if bb in clean:
                            clean.add(a)
                follow_clean.setdefault(f.id, set()).update(clean)
                taint -= clean
                continue
            if m in INSENS:
                continue
            if m in ("next", "for_each"):
                fed, bad = loop_over(f, b, t, alias) if m == "next" else each(ctx, f, t)
                taint |= fed
                sinks += bad
                continue
            if m in PUSHES and args[0] in taint and not any(a in taint for a in args[1:]):
                continue            # the sequence is unordered already
            if m in ADAPT:
                base = _strip(dt)
                if m in ("collect", "from_iter", "into", "from") and KEYED.search(base.s):
                    continue
                if m in ("deref", "deref_mut", "as_ref", "index", "as_mut_slice", "as_slice", "iter", "into_iter"):
                    alias[t[3][0]] = args[0]
                taint.add(t[3][0])
                continue
            sinks.append((m, t[5], c))
        taint -= follow_clean.get(f.id, set())
    if 0 in taint:
        sinks.append(("return", f.line, None))
    return sinks


follow_clean = {}

PUSHES = {"push", "push_back", "extend", "extend_from_slice", "append"}


def succs(t):
    if t[0] == "goto":
        return [t[1]]
    if t[0] == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if t[0] == "drop":
        return [t[2]]
    if t[0] == "call":
        return [t[4]] if t[4] >= 0 else []
    if t[0] == "assert":
        return [t[5] if isinstance(t[5], int) else t[4]]
    return []


def reach(f, starts, within=None):
    seen, todo = set(), list(starts)
    while todo:
        b = todo.pop()
        if b in seen or f.blocks[b] is None or within is not None and b not in within:
            continue
        seen.add(b)
        todo += succs(f.blocks[b]["t"])
    return seen


def keyed_effect(f, m, call, elems):
    """an insertion under a key that comes from the element: the order of the elements does not show"""
    recv = _strip(_ty_of(f, call[2][0])) if call[2] else None
    if recv is None or recv.k != "adt" or not KEYED.search(recv.s):
        return False
    return m in ("extend", "remove") or m in ("insert", "entry") and len(call[2]) > 1 and \
        call[2][1][0] in ("c", "m") and call[2][1][1][0] in elems


def loop_over(f, b, t, alias):
    """A `for` over an unordered sequence: (sequences it fills, uses of its order).

    Elements may be inspected freely; what is pushed to a sequence makes that sequence unordered; insertions keyed by
    the element are in no order; leaving the loop early, and keeping an element beyond the loop, depend on the order.
    """
    import cg as _cg
    call = (("next", t[5], t[1][1]["fn"]),)
    around = reach(f, [0], set(range(len(f.blocks))) - {b})        # what can be reached without the loop's head
    body, todo = {b}, [x for x in reach(f, succs(t)) - around if b in succs(f.blocks[x]["t"])]
    if not todo:
        return set(), list(call)
    preds = {}
    for x in reach(f, succs(t)):
        for y in succs(f.blocks[x]["t"]):
            preds.setdefault(y, []).append(x)
    while todo:
        x = todo.pop()
        if x not in body:
            body.add(x)
            todo += preds.get(x, [])
    ends = {x for x in body for y in succs(f.blocks[x]["t"]) if y not in body and _returns(f, y)}
    if len(ends) > 1:
        return set(), [("leaving a loop early", t[5], None)]
    elems, fed, sinks, entries = {t[3][0]}, set(), [], set()
    for _ in range(4):
        for x in body:
            blk = f.blocks[x]
            for st in blk["s"]:
                r = st[1]
                srcs = [o[1][0] for o in _cg.rv_operands(r) if o[0] in ("c", "m")]
                if r[0] in ("ref", "rawptr"):
                    srcs = [r[2][0] if r[0] == "ref" else r[1][0]]
                if any(y in elems for y in srcs):
                    elems.add(st[0][0])
                if any(y in entries for y in srcs):
                    entries.add(st[0][0])
            tt = blk["t"]
            if tt[0] != "call" or x == b:
                continue
            args = [a[1][0] for a in tt[2] if a[0] in ("c", "m")]
            if tt[1][0] != "k" or "fn" not in tt[1][1]:
                if any(a in elems for a in args):
                    sinks.append(("a call of a value", tt[5], None))
                continue
            c = tt[1][1]["fn"]
            m = _last(c["n"])
            if args and args[0] in entries:
                entries.add(tt[3][0])
                continue
            if not any(a in elems for a in args):
                continue
            if keyed_effect(f, m, tt, elems):
                if m == "entry":
                    entries.add(tt[3][0])
                continue
            muts = [a for a in args if f.locals[a].s.startswith("&mut ") and a not in elems]
            if not muts:
                if m not in INSENS or f.locals[tt[3][0]].s not in PLAIN:
                    elems.add(tt[3][0])
                continue
            root = muts[0]
            for _k in range(20):
                if root not in alias:
                    break
                root = alias[root]
            if m in PUSHES and _strip(f.locals[muts[0]]).s.startswith(("std::vec::Vec<", "alloc::vec::Vec<", "std::collections::VecDeque<", "Vec<")) \
                    and root > f.argc:
                fed.add(root)
            else:
                sinks.append((m, tt[5], c))
    if 0 in elems:
        sinks.append(("a value kept from the loop", t[5], None))
    beyond = reach(f, [y for x in ends for y in succs(f.blocks[x]["t"]) if y not in body])
    kept = {y for y in elems if f.locals[y].s not in PLAIN and y != t[3][0]}
    for x in beyond - body:
        blk = f.blocks[x]
        for st in blk["s"]:
            r = st[1]
            srcs = [o[1][0] for o in _cg.rv_operands(r) if o[0] in ("c", "m")]
            if r[0] in ("ref", "rawptr"):
                srcs = [r[2][0] if r[0] == "ref" else r[1][0]]
            if any(y in kept for y in srcs):
                sinks.append(("a value kept from the loop", t[5], None))
        tt = blk["t"]
        if tt[0] == "call" and any(a[1][0] in kept for a in tt[2] if a[0] in ("c", "m")):
            sinks.append(("a value kept from the loop", tt[5], None))
    return fed, sinks


PLAIN = {"bool", "usize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "isize", "()"}


def _returns(f, b):
    return any(f.blocks[x]["t"][0] == "ret" for x in reach(f, [b]))


def each(ctx, f, t):
    """`for_each`: what its closure does with an element, to what it captured"""
    call = [("for_each", t[5], t[1][1]["fn"])]
    clo = _strip(_ty_of(f, t[2][1])) if len(t[2]) > 1 else None
    g = ctx.prog.fns.get(clo.id) if clo is not None and clo.k == "closure" else None
    if g is None:
        return set(), call
    elems = set(range(2, g.argc + 1))
    import cg as _cg
    for _ in range(4):
        for blk in g.blocks:
            if blk is None:
                continue
            for st in blk["s"]:
                r = st[1]
                srcs = [o[1][0] for o in _cg.rv_operands(r) if o[0] in ("c", "m")]
                if r[0] in ("ref", "rawptr"):
                    srcs = [r[2][0] if r[0] == "ref" else r[1][0]]
                if any(y in elems for y in srcs):
                    elems.add(st[0][0])
                if st[0][0] == 1 and st[0][1]:
                    return set(), call
            tt = blk["t"]
            if tt[0] != "call":
                continue
            args = [a[1][0] for a in tt[2] if a[0] in ("c", "m")]
            if tt[1][0] != "k" or "fn" not in tt[1][1]:
                return set(), call
            if not any(a in elems for a in args) or keyed_effect(g, _last(tt[1][1]["fn"]["n"]), tt, elems):
                continue
            if any(g.locals[a].s.startswith("&mut ") and a not in elems for a in args):
                return set(), call
            elems.add(tt[3][0])
    return set(), []


def determinism(ctx):
    rep = Report("C29", "taint over MIR: every call site in the libraries that turns a hash-ordered container into "
                 "a sequence (iter, keys, values, drain, into_iter) must be consumed by an order-insensitive "
                 "operation (any, all, count, collect into a keyed container) or be sorted before any other use; the "
                 "taint follows borrows, iterator adaptors and returns into callers. No library function calls a "
                 "source of randomness, time, address or thread identity (see C30).")
    pend, done = [], set()
    for f in ctx.lib_fns(LIBS + ["xsd_parser#bin", "wsdl_parser#bin"]):
        rep.count("functions")
        for s in hash_sources(ctx, f):
            rep.count("hash_iterations")
            pend.append((f, s.dest[0], f"{_last(s.callee['n'])}@{f.id}", s.line))
        for s in ctx.cg.sites[f.id]:
            if s.kind == "call" and re.search(r"HashMap|HashSet|hash_map|BTreeMap", s.name):
                rep.count("hash_container_calls")
    while pend:
        f, loc0, src, line = pend.pop()
        if (f.id, loc0) in done:
            continue
        done.add((f.id, loc0))
        follow_clean.clear()
        sinks = follow(ctx, f, [loc0], rep, src, done)
        key = f"hash-order:{src}:in:{f.id}"
        bad = [x for x in sinks if x[0] != "return"]
        rep.ob(key, not bad, "; ".join(f"unordered sequence reaches `{x[0]}` at line {x[1]}" for x in bad),
               loc(f, line))
        if any(x[0] == "return" for x in sinks):
            for g in ctx.prog.fns.values():
                for s in ctx.cg.sites[g.id]:
                    if s.kind == "call" and f.id in s.targets and s.dest:
                        pend.append((g, s.dest[0], src, s.line))
    for f in ctx.lib_fns(LIBS):
        for s in ctx.cg.sites[f.id]:
            if any(RAND.search(x) for x in names(s)):
                rep.fail(f"ambient:{f.id}:{s.name}", f"calls {s.name}", loc(f, s.line))
            if s.name.endswith("new_pointer") and "fmt" in s.name:
                rep.fail(f"address:{f.id}", "formats an address", loc(f, s.line))
        rep.ob(f"no-ambient-source:{f.id}", True, "", loc(f))
    rep.floor("hash_container_calls", 1, "uses of hash containers")
    rep.floor("functions", 600, "functions")
    return rep


RAND = re.compile(r"RandomState::(build|hash)|DefaultHasher|SystemTime|Instant::now|Utc::now|Local::now|thread::current|"
                  r"process::id|rand::|getrandom")
