import core, cg


class Ctx:
    """What every rule sees: the program, its call graph, and (lazily) the flow engine."""

    def __init__(self, outdir):
        self.mir = outdir
        self.prog = core.Program(outdir)
        self.cg = cg.CallGraph(self.prog)
        self.load_s = 0.0
        self._eng = None

    def lib_fns(self, crates):
        return [f for f in self.prog.fns.values() if f.crate in crates]

    def statics(self, f):
        """(id, type, mutable) of every static the body refers to"""
        out = []
        for c, _ in cg._consts(f):
            if "static" in c:
                out.append((c["static"], c["sty"], c["stmut"]))
        for b in f.blocks:
            if b:
                for s in b["s"]:
                    if s[1][0] == "tls":
                        out.append((s[1][1], core.UNIT_TY, True))
        return out
