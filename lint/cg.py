"""Call graph over resolved MIR: call sites, references to functions/closures, reachability."""


class Site:
    __slots__ = ("fn", "line", "name", "id", "targets", "callee", "args", "dest", "bb", "kind")

    def __repr__(self):
        return f"{self.fn.id}:{self.line} -> {self.name}"


def _consts(fn):
    """every constant operand in the body (with line)"""
    for b in fn.blocks:
        if not b:
            continue
        for s in b["s"]:
            for o in rv_operands(s[1]):
                if o[0] == "k":
                    yield o[1], s[2]
        t = b["t"]
        if t[0] == "call":
            for o in t[2]:
                if o[0] == "k":
                    yield o[1], t[5]
        elif t[0] == "switch" and t[1][0] == "k":
            yield t[1][1], fn.line


def rv_operands(r):
    k = r[0]
    if k in ("use", "repeat"):
        return [r[1]]
    if k == "cast":
        return [r[2]]
    if k == "bin":
        return [r[2], r[3]]
    if k == "un":
        return [r[2]]
    if k == "agg":
        return list(r[2])
    return []


class CallGraph:
    def __init__(self, prog):
        self.prog = prog
        self.sites = {}
        self.succ = {}
        self.by_ext = {}
        for f in prog.fns.values():
            self._fn(f)

    def targets(self, c):
        p = self.prog
        if c.get("rid") in p.fns:
            return [c["rid"]]
        if c.get("id") in p.fns and not c.get("tr"):
            return [c["id"]]
        if c.get("tr"):
            m = c["n"].split("::")[-1]
            out = [ms[m] for st, ms in p.impl_ix.get(c["tr"], ()) if m in ms and ms[m] in p.fns]
            if c.get("id") in p.fns:
                out.append(c["id"])
            return out
        return []

    def _fn(self, f):
        sites, succ = [], []
        for bi, b in enumerate(f.blocks):
            if not b:
                continue
            for s in b["s"]:
                r = s[1]
                if r[0] == "agg" and r[1][0] == "closure":
                    succ.append(r[1][1])
            t = b["t"]
            if t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]:
                c = t[1][1]["fn"]
                st = Site()
                st.fn, st.line, st.name, st.id, st.callee = f, t[5], c.get("rn") or c["n"], c.get("rid") or c["id"], c
                st.args, st.dest, st.bb = t[2], t[3], bi
                st.targets = self.targets(c)
                st.kind = "call"
                sites.append(st)
                succ += st.targets
                if not st.targets:
                    self.by_ext.setdefault(st.id, []).append(st)
        for c, line in _consts(f):
            if "fn" in c:
                tg = self.targets(c["fn"])
                succ += tg
                st = Site()
                st.fn, st.line, st.name, st.id, st.callee = f, line, c["fn"].get("rn") or c["fn"]["n"], c["fn"].get("rid") or c["fn"]["id"], c["fn"]
                st.args, st.dest, st.bb, st.targets, st.kind = None, None, None, tg, "ref"
                sites.append(st)
            if "item" in c:
                succ.append(c["item"] if "p" not in c or c["p"] is None else f"{c['item']}#p{c['p']}")
        self.sites[f.id] = sites
        self.succ[f.id] = [s for s in dict.fromkeys(succ) if s in self.prog.fns]

    def reach(self, roots):
        seen, st = {}, []
        for r in roots:
            if r in self.prog.fns and r not in seen:
                seen[r] = None
                st.append(r)
        while st:
            x = st.pop()
            for y in self.succ[x]:
                if y not in seen:
                    seen[y] = x
                    st.append(y)
        return seen

    def path(self, seen, x):
        out = [x]
        while seen.get(x):
            x = seen[x]
            out.append(x)
        return list(reversed(out))
